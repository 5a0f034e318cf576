//! Positions: every part handed back, and every error location, is the part of the input its offsets say.
#![allow(deprecated)]
use crate::sx::*;
use asn1_rs::*;
use nom::Input as _;

/// `i` is what lies between its offsets in `base`, which starts at offset `off`
fn within(base: &[u8], off: usize, i: &Input) -> bool {
    let (s, e) = (i.start(), i.end());
    let d = i.as_bytes2();
    *i.span() == (s..e) && s >= off && s <= e && e - off <= base.len() && e - s == d.len() && i.len() == d.len() && d.as_ptr() == base[s - off..].as_ptr()
}
/// errors of elements whose contents end early are located nowhere
fn located(base: &[u8], off: usize, e: &BerError<Input>) -> bool { matches!(e.inner(), InnerError::Incomplete(_)) || within(base, off, e.input()) }
fn outcome<T>(base: &[u8], off: usize, r: &nom::IResult<Input, T, BerError<Input>>) {
    match r {
        Ok((rem, _)) => {
            cover("ok");
            obs(rem.len() as u64);
            check(within(base, off, rem), "what is left");
            check(rem.end() == off + base.len(), "what is left reaches the end");
        }
        Err(nom::Err::Incomplete(_)) => cover("incomplete"),
        Err(nom::Err::Error(e)) | Err(nom::Err::Failure(e)) => {
            cover("error");
            obs(e.input().start() as u64);
            check(within(base, off, e.input()), "location of the error");
        }
    }
}
macro_rules! setup { ($n:literal) => {{
    expect(&["ok", "error"]);
    let n = clen(0, $n);
    (bytes::<$n>(), n, u16() as usize)
}} }
macro_rules! both { ($t:ty, $n:literal) => {{
    let (b, n, off) = setup!($n);
    let b = &b[..n];
    outcome(b, off, &<$t as BerParser>::parse_ber(Input::new(b, off..off + n)));
    outcome(b, off, &<$t as DerParser>::parse_der(Input::new(b, off..off + n)));
}} }
macro_rules! more { ($t:ty, $n:literal) => {{
    let (b, n, off) = setup!($n);
    let b = &b[..n];
    let i = Input::new(b, off..off + n);
    outcome(b, off, &<$t as BerParser>::parse_ber_optional(i.clone()));
    outcome(b, off, &<$t as DerParser>::parse_der_optional(i.clone()));
    let r = <$t as BerParser>::parse_ber_as_input(i.clone());
    outcome(b, off, &r);
    if let Ok((rem, (_, d))) = r { check(within(b, off, &d) && d.end() <= rem.start(), "contents") }
    let r = <$t as DerParser>::parse_der_as_input(i);
    outcome(b, off, &r);
    if let Ok((rem, (_, d))) = r { check(within(b, off, &d) && d.end() == rem.start(), "contents (DER)") }
}} }
#[derive(Sequence)]
#[allow(dead_code)]
struct Rec { a: u8, #[tag_implicit(1)] #[optional] b: Option<bool>, #[tag_explicit(2)] c: u8 }
#[derive(Set)]
#[allow(dead_code)]
struct Members { a: u8, b: bool }
#[derive(Choice)]
#[allow(dead_code)]
enum Pick { A(u8), B(bool) }
#[derive(Choice)]
#[tagged_explicit]
#[allow(dead_code)]
enum Tagged2 { A(u8), #[tag(5)] B(bool) }

macro_rules! table { ($($m:ident $h:ident $t:ty, $n:literal;)*) => { harness! {
    $( fn $h() { $m!($t, $n) } )*
    fn h_any() {
        // an object: header, contents, remainder, and the elements inside
        let (b, n, off) = setup!(9);
        let b = &b[..n];
        let r = Any::parse_ber(Input::new(b, off..off + n));
        outcome(b, off, &r);
        if let Ok((rem, a)) = &r {
            check(within(b, off, &a.data), "contents");
            let end = if a.header.length().is_definite() { a.data.end() } else { a.data.end() + 2 };
            check(end == rem.start(), "contents and remainder are adjacent");
            let h = a.header.raw_header();
            match h { Some(h) => check(within(b, off, h) && h.start() == off && h.end() == a.data.start(), "header"), None => fail("no raw header") }
            match a.header.raw_tag() { Some(t) => check(t.as_ptr() == b.as_ptr() && t.len() < a.data.start() - off, "identifier"), None => fail("no raw tag") }
            for e in a.iter_elements::<BerMode>() {
                match e {
                    Ok((_, x)) => { check(within(b, off, &x.data) && x.data.start() >= a.data.start() && x.data.end() <= a.data.end(), "element"); obs(x.data.start() as u64) }
                    Err(e) => { check(located(b, off, &e), "location of the error in an element"); break }
                }
            }
        }
    }
    fn h_any_der() {
        let (b, n, off) = setup!(9);
        let b = &b[..n];
        let r = Any::parse_der(Input::new(b, off..off + n));
        outcome(b, off, &r);
        if let Ok((rem, a)) = &r {
            check(within(b, off, &a.data) && a.data.end() == rem.start(), "contents");
            match a.header.raw_header() { Some(h) => check(within(b, off, h) && h.start() == off && h.end() == a.data.start(), "header"), None => fail("no raw header") }
            for e in a.iter_elements::<DerMode>() {
                match e {
                    Ok((_, x)) => { check(within(b, off, &x.data) && x.data.start() >= a.data.start() && x.data.end() <= a.data.end(), "element"); obs(x.data.start() as u64) }
                    Err(e) => { check(located(b, off, &e), "location of the error in an element"); break }
                }
            }
        }
    }
    fn h_header() {
        let (b, n, off) = setup!(8);
        let b = &b[..n];
        let r = Header::parse_ber(Input::new(b, off..off + n));
        outcome(b, off, &r);
        if let Ok((rem, h)) = &r {
            match h.raw_header() { Some(h) => check(within(b, off, h) && h.start() == off && h.end() == rem.start(), "header"), None => fail("no raw header") }
            let r = ber_get_content(h, rem.clone());
            outcome(b, off, &r);
            if let Ok((_, d)) = r { check(within(b, off, &d) && d.start() == rem.start(), "contents") }
            let r = der_get_content(h, rem.clone());
            outcome(b, off, &r);
            if let Ok((_, d)) = r { check(within(b, off, &d) && d.start() == rem.start(), "contents") }
        }
        let r = Header::parse_der(Input::new(b, off..off + n));
        outcome(b, off, &r);
    }
    fn h_input() {
        // the input itself
        let b = bytes::<6>();
        let n = clen(0, 6);
        let off = u16() as usize;
        let b = &b[..n];
        let i = Input::new(b, off..off + n);
        check(within(b, off, &i) && i.is_empty() == (n == 0) && i.input_len() == n && i.const_clone() == i, "whole");
        let k = clen(0, 6);
        check(i.slice_index(k).is_ok() == (k <= n), "slice_index");
        obs(n as u64);
        if k <= n {
            let (x, y) = (i.take(k), i.take_from(k));
            check(within(b, off, &x) && x.start() == off && x.len() == k, "take");
            check(within(b, off, &y) && y.end() == off + n && y.len() == n - k, "take_from");
            check(i.take_split(k) == (y, x), "take_split");
        }
        let v = byte();
        let mut first = None;
        let mut j = n;
        while j > 0 { j -= 1; if b[j] == v { first = Some(j) } }
        check(i.position(|x| x == v) == first, "position");
        let mut j = 0;
        for x in i.iter_elements() { check(x == b[j], "element"); j += 1 }
        check(j == n, "elements");
        for (k, x) in i.iter_indices() { check(x == b[k], "indexed element") }
        let w = Input::from(b);
        check(w.start() == 0 && w.end() == n && within(b, 0, &w) && Input::from_slice(b) == w, "from a slice");
        let u = b.to_vec();
        let w = Input::from(&u);
        check(within(&u, 0, &w) && w.end() == n && w.as_ref().len() == n && w.into_bytes().as_ptr() == u.as_ptr(), "from a vector");
    }
    fn h_elements() {
        // elements of lists, read one by one
        let (b, n, off) = setup!(8);
        let b = &b[..n];
        let mut it = SequenceIteratorInput::<u8, BerMode>::new(Input::new(b, off..off + n));
        let mut k = 0;
        while let Some(r) = it.next() {
            match r {
                Ok(_) => { cover("ok"); k += 1 }
                Err(e) => { cover("error"); check(located(b, off, &e), "location of the error"); break }
            }
        }
        obs(k);
    }
} } }
table! {
 both h_bool bool, 6;
 both h_null Null, 5;
 both h_u8 u8, 6;
 both h_i64 i64, 6;
 both h_integer Integer, 6;
 both h_enumerated Enumerated, 6;
 both h_octets OctetString, 8;
 both h_slice &[u8], 6;
 both h_bits BitString, 8;
 both h_oid Oid, 6;
 both h_utf8 Utf8String, 8;
 both h_string String, 6;
 both h_printable PrintableString, 6;
 both h_bmp BmpString, 6;
 both h_universal UniversalString, 7;
 both h_sequence Sequence, 6;
 both h_set Set, 6;
 both h_vec Vec<u8>, 8;
 both h_sequence_of SequenceOf<u8>, 8;
 both h_set_of SetOf<u8>, 8;
 both h_array [u8; 2], 8;
 both h_tuple (u8, bool), 8;
 both h_any_sequence AnySequence, 8;
 both h_explicit TaggedExplicit<u8, BerError<Input<'_>>, 1>, 8;
 both h_implicit TaggedImplicit<u8, BerError<Input<'_>>, 1>, 6;
 both h_explicit_opt Option<TaggedExplicit<u8, BerError<Input<'_>>, 1>>, 8;
 both h_option Option<bool>, 6;
 both h_record Rec, 10;
 both h_members Members, 8;
 both h_choice Pick, 6;
 both h_tagged_choice Tagged2, 8;
 more h_u8_more u8, 6;
 more h_octets_more OctetString, 8;
 more h_vec_more Vec<u8>, 8;
 more h_oid_more Oid, 6;
}
