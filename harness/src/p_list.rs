//! Lists and records: SEQUENCE OF, SET OF, arrays, tuples, iterators.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
use std::collections::{BTreeSet, HashSet};
use std::hash::{BuildHasherDefault, Hasher};

type BE<'a> = BerError<Input<'a>>;
type R<T> = std::result::Result<(usize, Vec<T>), ()>;

#[derive(Default)]
pub struct Sum(u64);
impl Hasher for Sum { fn finish(&self) -> u64 { self.0 } fn write(&mut self, b: &[u8]) { for x in b { self.0 = self.0 + *x as u64 } } }
macro_rules! raw { ($b:ident, $w:expr, $t:ty) => { match $w {
    // the raw object, then its elements
    0 => same(&$b, 16, false, match Sequence::from_ber($b) { Ok((r, s)) => match leak(s).ber_sequence_of::<$t, Error>() { Ok(v) => Ok((r.len(), v)), Err(_) => Err(()) }, Err(_) => Err(()) }, |i| eq(<$t as FromBer>::from_ber(i))),
    1 => same(&$b, 16, true, match Sequence::from_der($b) { Ok((r, s)) => match leak(s).der_sequence_of::<$t, Error>() { Ok(v) => Ok((r.len(), v)), Err(_) => Err(()) }, Err(_) => Err(()) }, |i| eq(<$t as FromDer>::from_der(i))),
    2 => same(&$b, 17, false, match Set::from_ber($b) { Ok((r, s)) => match leak(s).ber_set_of::<$t, Error>() { Ok(v) => Ok((r.len(), v)), Err(_) => Err(()) }, Err(_) => Err(()) }, |i| eq(<$t as FromBer>::from_ber(i))),
    3 => same(&$b, 17, true, match Set::from_der($b) { Ok((r, s)) => match leak(s).der_set_of::<$t, Error>() { Ok(v) => Ok((r.len(), v)), Err(_) => Err(()) }, Err(_) => Err(()) }, |i| eq(<$t as FromDer>::from_der(i))),
    4 => same(&$b, 16, true, match Sequence::from_der($b) { Ok((r, s)) => match s.into_der_sequence_of_ref::<$t, Error>() { Ok(v) => Ok((r.len(), v)), Err(_) => Err(()) }, Err(_) => Err(()) }, |i| eq(<$t as FromDer>::from_der(i))),
    _ => same(&$b, 17, true, match Set::from_der($b) { Ok((r, s)) => match s.into_der_set_of_ref::<$t, Error>() { Ok(v) => Ok((r.len(), v)), Err(_) => Err(()) }, Err(_) => Err(()) }, |i| eq(<$t as FromDer>::from_der(i))),
} } }
fn leak<T>(x: T) -> &'static T { Box::leak(Box::new(x)) }
type HS<T> = HashSet<T, BuildHasherDefault<Sum>>;

/// The elements of the first object of `b`: None if it is not a well-formed constructed object `tag` made of elements.
fn split(b: &[u8], tag: u32, der: bool) -> Option<(Vec<&[u8]>, usize)> {
    let h = refm::header(b)?;
    let (s, e, end) = refm::extent(b, 3)?;
    if h.tag != tag || !h.cons || der && h.len.is_none() { return None }
    items(&b[s..e], der).map(|v| (v, end))
}
fn items(c: &[u8], der: bool) -> Option<Vec<&[u8]>> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < c.len() {
        let (_, _, n) = refm::extent(&c[p..], 3)?;
        if der && refm::header(&c[p..])?.len.is_none() { return None }
        v.push(&c[p..p + n]);
        p += n;
    }
    Some(v)
}
fn same<'a, T: PartialEq>(b: &'a [u8], tag: u32, der: bool, got: R<T>, elem: impl Fn(&'a [u8]) -> std::result::Result<T, ()>) {
    expect(&["empty", "one", "more", "err"]);
    let exp = split(b, tag, der).and_then(|(v, end)| v.into_iter().map(|i| elem(i).ok()).collect::<Option<Vec<T>>>().map(|v| (b.len() - end, v)));
    match (exp, got) {
        (None, Err(())) => cover("err"),
        (Some((l, v)), Ok((m, w))) => {
            check(l == m, "remaining input");
            check(v == w, "elements");
            cover(match v.len() { 0 => "empty", 1 => "one", _ => "more" })
        }
        (None, Ok(_)) => fail("accepts a list with an invalid element, tag or form"),
        (Some(_), Err(())) => fail("rejects a list of valid elements"),
    }
}
fn p<'a, T, C, E>(r: nom::IResult<Input<'a>, C, E>, f: impl FnOnce(C) -> Vec<T>) -> R<T> { match r { Ok((rem, v)) => Ok((rem.len(), f(v))), Err(_) => Err(()) } }
fn q<'a, T, C, E>(r: nom::IResult<&'a [u8], C, E>, f: impl FnOnce(C) -> Vec<T>) -> R<T> { match r { Ok((rem, v)) => Ok((rem.len(), f(v))), Err(_) => Err(()) } }
fn ep<'a, T, E>(r: nom::IResult<Input<'a>, T, E>) -> std::result::Result<T, ()> { match r { Ok((rem, v)) if rem.is_empty() => Ok(v), _ => Err(()) } }
fn eq<'a, T, E>(r: nom::IResult<&'a [u8], T, E>) -> std::result::Result<T, ()> { match r { Ok((rem, v)) if rem.is_empty() => Ok(v), _ => Err(()) } }
fn id<T>(v: T) -> T { v }

macro_rules! listed6 { ($b:ident, $w:expr, $t:ty) => { match $w {
    0 => same(&$b, 16, false, p(<Vec<$t>>::parse_ber(Input::from(&$b[..])), id), |i| ep(<$t>::parse_ber(Input::from(i)))),
    1 => same(&$b, 16, true, p(<Vec<$t>>::parse_der(Input::from(&$b[..])), id), |i| ep(<$t>::parse_der(Input::from(i)))),
    2 => same(&$b, 16, false, p(<SequenceOf<$t>>::parse_ber(Input::from(&$b[..])), |s| s.into_vec()), |i| ep(<$t>::parse_ber(Input::from(i)))),
    3 => same(&$b, 16, true, p(<SequenceOf<$t>>::parse_der(Input::from(&$b[..])), |s| s.into()), |i| ep(<$t>::parse_der(Input::from(i)))),
    4 => same(&$b, 17, false, p(<SetOf<$t>>::parse_ber(Input::from(&$b[..])), |s| s.into_vec()), |i| ep(<$t>::parse_ber(Input::from(i)))),
    _ => same(&$b, 17, true, p(<SetOf<$t>>::parse_der(Input::from(&$b[..])), |s| s.into()), |i| ep(<$t>::parse_der(Input::from(i)))),
} } }
macro_rules! listed { ($b:ident, $w:expr, $t:ty) => { match $w {
    x if x < 6 => listed6!($b, x, $t),
    6 => same(&$b, 16, false, q(<Vec<$t> as FromBer>::from_ber($b), id), |i| eq(<$t as FromBer>::from_ber(i))),
    7 => same(&$b, 16, true, q(<Vec<$t> as FromDer>::from_der($b), id), |i| eq(<$t as FromDer>::from_der(i))),
    8 => same(&$b, 16, false, q(<SequenceOf<$t> as FromBer>::from_ber($b), |s| s.into_vec()), |i| eq(<$t as FromBer>::from_ber(i))),
    9 => same(&$b, 16, true, q(<SequenceOf<$t> as FromDer>::from_der($b), |s| s.into_vec()), |i| eq(<$t as FromDer>::from_der(i))),
    10 => same(&$b, 17, false, q(<SetOf<$t> as FromBer>::from_ber($b), |s| s.into_vec()), |i| eq(<$t as FromBer>::from_ber(i))),
    _ => same(&$b, 17, true, q(<SetOf<$t> as FromDer>::from_der($b), |s| s.into_vec()), |i| eq(<$t as FromDer>::from_der(i))),
} } }
/// the outer header of `b` is one of the interesting ones, and elements are of universal class
macro_rules! input { ($n:literal) => {{
    let a: &'static [u8] = leak(bytes::<$n>());
    let n = clen(0, $n);
    let b = &a[..n];
    assume(n == 0 || b[0] & 0xce == 0); // tags 0, 1, 16, 17, primitive or constructed
    b
}}}
macro_rules! lists6 { ($n:literal, $t:ty) => {{ let b = input!($n); listed6!(b, clen(0, 5), $t) }} }
macro_rules! lists { ($n:literal, $lo:literal, $hi:literal, $t:ty) => {{ let b = input!($n); listed!(b, clen($lo, $hi), $t) }} }

/// an ordered set: the elements without repetition
macro_rules! set { ($b:ident, $der:literal, $got:expr, $elem:expr) => {{
    expect(&["empty", "one", "more", "err"]);
    let exp = split($b, 17, $der).and_then(|(v, end)| v.into_iter().map(|i| $elem(i).ok()).collect::<Option<Vec<u8>>>().map(|v| ($b.len() - end, v)));
    match (exp, $got) {
        (None, Err(_)) => cover("err"),
        (Some((l, v)), Ok((rem, w))) => {
            check(l == rem.len(), "remaining input");
            let mut n = 0;
            for (i, x) in v.iter().enumerate() {
                let first = v[..i].iter().all(|y| y != x);
                n += first as usize;
                check(w.contains(x), "every element is in the set");
            }
            check(w.len() == n, "nothing else is in the set");
            cover(match v.len() { 0 => "empty", 1 => "one", _ => "more" })
        }
        (None, Ok(_)) => fail("accepts a set with an invalid element, tag or form"),
        (Some(_), Err(_)) => fail("rejects a set of valid elements"),
    }
}}}

/// arrays: the same list, with exactly N elements
fn array<T: PartialEq, const N: usize>(b: &[u8], got: std::result::Result<(usize, [T; N]), ()>, list: R<T>) {
    expect(&["ok", "err"]);
    match (got, list) {
        (Ok((l, v)), Ok((m, w))) => { cover("ok"); check(w.len() == N, "number of elements"); check(l == m && v.iter().eq(w.iter()), "elements") }
        (Err(()), Err(())) => cover("err"),
        (Err(()), Ok((_, w))) => { cover("err"); check(w.len() != N, "rejects a list of the right length") }
        (Ok(_), Err(())) => fail("accepts an invalid list"),
    }
    let _ = b;
}
fn pa<'a, T, E>(r: nom::IResult<Input<'a>, T, E>) -> std::result::Result<(usize, T), ()> { match r { Ok((rem, v)) => Ok((rem.len(), v)), Err(_) => Err(()) } }

macro_rules! wr { ($v:expr, $exp:expr) => {{
    let (v, e): (_, &Vec<u8>) = ($v, $exp);
    check(v.ber_total_len() == Length::Definite(e.len()) && v.der_total_len() == Length::Definite(e.len()), "predicted length");
    match v.to_ber_vec() { Ok(w) => check(refm::eq(&w, e), "BER octets"), Err(_) => fail("to_ber_vec") }
    match v.to_der_vec() { Ok(w) => check(refm::eq(&w, e), "DER octets"), Err(_) => fail("to_der_vec") }
    let mut o = Vec::new();
    match (v.ber_write_header(&mut o), v.ber_write_content(&mut o)) { (Ok(x), Ok(y)) => check(x + y == e.len() && refm::eq(&o, e), "header and contents"), _ => fail("header and contents") }
    let mut o = Vec::new();
    match (v.der_write_header(&mut o), v.der_write_content(&mut o)) { (Ok(x), Ok(y)) => check(x + y == e.len() && refm::eq(&o, e), "header and contents"), _ => fail("header and contents") }
    let c = match v.der_content_len() { Length::Definite(c) => c, _ => fail("content length") };
    let h = refm::header(e).unwrap();
    check(c == e.len() - h.hl && v.ber_content_len() == Length::Definite(c), "predicted content length");
}}}
/// all lists of these elements, whose encodings are `es`
macro_rules! lists_w { ($v:expr, $es:expr) => {{
    let (v, es) = ($v, $es);
    let c: Vec<u8> = es.concat();
    let seq = refm::tlv(0x30, &c);
    let set = refm::tlv(0x31, &c);
    wr!(&v, &seq);
    wr!(&SequenceOf::new(v.clone()), &seq);
    wr!(&v.iter().cloned().collect::<SequenceOf<_>>(), &seq);
    wr!(&SetOf::new(v.clone()), &set);
    match Sequence::from_iter_to_der(v.iter()) { Ok(s) => { check(refm::eq(s.as_ref(), &c), "from_iter_to_der"); wr!(&s, &seq) } Err(_) => fail("from_iter_to_der") }
    match Set::from_iter_to_der(v.iter()) { Ok(s) => { check(refm::eq(s.as_ref(), &c), "from_iter_to_der"); wr!(&s, &set) } Err(_) => fail("from_iter_to_der") }
}}}

harness! {
    fn h_u8_seq() { lists!(9, 0, 3, u8) }
    fn h_u8_set() { lists!(9, 4, 5, u8) }
    fn h_u8_from() { lists!(9, 6, 11, u8) }
    fn h_u8_raw() { let b = input!(8); raw!(b, clen(0, 5), u8) }
    fn h_bool() { lists!(8, 0, 11, bool) }
    fn h_bool_raw() { let b = input!(8); raw!(b, clen(0, 5), bool) }
    fn h_slice() { lists!(8, 0, 5, &'static [u8]) }
    fn h_null() { lists!(7, 0, 5, Null) }
    fn h_nested() { lists!(8, 0, 5, Vec<bool>) }
    fn h_nested_set() { lists!(8, 0, 5, SetOf<bool>) }
    fn h_tagged() { lists6!(8, TaggedValue<bool, BE<'static>, Implicit, 2, 1>) }
    fn h_any() {
        let b = input!(8);
        let w = clen(0, 1);
        let pb = |i: &'static [u8]| ep(Any::parse_ber(Input::from(i))).map(|a| (a.header.tag(), a.header.class(), a.header.constructed(), a.data.as_bytes2()));
        let pd = |i: &'static [u8]| ep(Any::parse_der(Input::from(i))).map(|a| (a.header.tag(), a.header.class(), a.header.constructed(), a.data.as_bytes2()));
        macro_rules! l { () => { |s| { let n = s.len(); check(s.is_empty() == (n == 0), "is_empty"); let v: Vec<_> = s.iter().map(|a| (a.header.tag(), a.header.class(), a.header.constructed(), unsafe { std::mem::transmute::<&[u8], &'static [u8]>(a.as_bytes()) })).collect(); check(v.len() == n, "len"); std::mem::forget(s); v } } }
        match w {
            0 => same(b, 16, false, p(AnySequence::parse_ber(Input::from(b)), l!()), pb),
            _ => same(b, 16, true, p(AnySequence::parse_der(Input::from(b)), l!()), pd),
        }
    }
    fn h_btreeset() {
        let b = input!(8);
        match clen(0, 3) {
            0 => set!(b, false, <BTreeSet<u8>>::parse_ber(Input::from(b)), |i| ep(u8::parse_ber(Input::from(i)))),
            1 => set!(b, true, <BTreeSet<u8>>::parse_der(Input::from(b)), |i| ep(u8::parse_der(Input::from(i)))),
            2 => set!(b, false, <BTreeSet<u8> as FromBer>::from_ber(b), |i| eq(u8::from_ber(i))),
            _ => set!(b, true, <BTreeSet<u8> as FromDer>::from_der(b), |i| eq(u8::from_der(i))),
        }
    }
    fn h_hashset() {
        let b = input!(8);
        match clen(0, 3) {
            0 => set!(b, false, <HS<u8>>::parse_ber(Input::from(b)), |i| ep(u8::parse_ber(Input::from(i)))),
            1 => set!(b, true, <HS<u8>>::parse_der(Input::from(b)), |i| ep(u8::parse_der(Input::from(i)))),
            2 => set!(b, false, <HS<u8> as FromBer>::from_ber(b), |i| eq(u8::from_ber(i))),
            _ => set!(b, true, <HS<u8> as FromDer>::from_der(b), |i| eq(u8::from_der(i))),
        }
    }
    fn h_array() {
        let b = input!(8);
        match clen(0, 5) {
            0 => array::<u8, 2>(b, pa(<[u8; 2]>::parse_ber(Input::from(b))), p(<Vec<u8>>::parse_ber(Input::from(b)), id)),
            1 => array::<u8, 2>(b, pa(<[u8; 2]>::parse_der(Input::from(b))), p(<Vec<u8>>::parse_der(Input::from(b)), id)),
            2 => array::<u8, 1>(b, pa(<[u8; 1]>::parse_ber(Input::from(b))), p(<Vec<u8>>::parse_ber(Input::from(b)), id)),
            3 => array::<u8, 0>(b, pa(<[u8; 0]>::parse_der(Input::from(b))), p(<Vec<u8>>::parse_der(Input::from(b)), id)),
            4 => array::<bool, 2>(b, pa(<[bool; 2]>::parse_ber(Input::from(b))), p(<Vec<bool>>::parse_ber(Input::from(b)), id)),
            _ => array::<bool, 2>(b, pa(<[bool; 2]>::parse_der(Input::from(b))), p(<Vec<bool>>::parse_der(Input::from(b)), id)),
        }
    }
    /// iterators over contents: the same elements one at a time, ending at the first error
    fn h_iter() {
        let a: &'static [u8] = leak(bytes::<7>());
        let n = clen(0, 7);
        let b = &a[..n];
        assume(n == 0 || b[0] & 0xe0 == 0);
        expect(&["empty", "all", "error"]);
        macro_rules! go { ($it:expr, $elem:expr, $der:literal) => {{
            let mut it = $it;
            let mut p = 0;
            let elem = $elem;
            if n == 0 { cover("empty") }
            loop {
                if p == n { check(it.next().is_none(), "ends with the contents"); cover("all"); break }
                let i = refm::extent(&b[p..], 3).filter(|_| !$der || refm::header(&b[p..]).unwrap().len.is_some()).and_then(|x| { p += x.2; elem(&b[p - x.2..p]).ok() });
                match (i, it.next()) {
                    (Some(x), Some(Ok(y))) => check(x == y, "element"),
                    (None, Some(Err(_))) => { cover("error"); break }
                    (Some(_), Some(Err(_))) => fail("rejects a valid element"),
                    (None, Some(Ok(_))) => fail("accepts an invalid element"),
                    (_, None) => fail("ends before the contents"),
                }
            }
        }}}
        match clen(0, 5) {
            0 => go!(SequenceIterator::<u8, BerMode>::new(b), |i| eq(u8::from_ber(i)), false),
            1 => go!(SequenceIterator::<u8, DerMode>::new(b), |i| eq(u8::from_der(i)), true),
            2 => go!(SequenceIteratorInput::<u8, BerMode>::new(Input::from(b)), |i| ep(u8::parse_ber(Input::from(i))), false),
            3 => go!(SequenceIteratorInput::<u8, DerMode>::new(Input::from(b)), |i| ep(u8::parse_der(Input::from(i))), true),
            4 => go!(AnyIterator::<BerMode>::new(Input::from(b)).map(|r| r.map(|(i, a)| (i.as_bytes2(), a.tag(), a.data.as_bytes2()))), |i| ep(Any::parse_ber(Input::from(i))).map(|a| (i, a.tag(), a.data.as_bytes2())), false),
            _ => go!(AnyIterator::<DerMode>::new(Input::from(b)).map(|r| r.map(|(i, a)| (i.as_bytes2(), a.tag(), a.data.as_bytes2()))), |i| ep(Any::parse_der(Input::from(i))).map(|a| (i, a.tag(), a.data.as_bytes2())), true),
        }
    }
    /// no iterator goes on after an object it cannot delimit
    fn h_iter_fused() {
        let a: &'static [u8] = leak(bytes::<6>());
        let n = clen(1, 6);
        let b = &a[..n];
        assume(b[0] & 0xe0 == 0);
        expect(&["error"]);
        macro_rules! go { ($it:expr, $stop:literal) => {{
            let mut it = $it;
            let mut k = 0;
            while let Some(r) = it.next() {
                k += 1;
                if r.is_err() && $stop { check(it.next().is_none() && it.next().is_none(), "goes on after an error"); cover("error"); break }
                check(k <= n, "more elements than octets");
            }
        }}}
        match clen(0, 5) {
            0 => go!(SequenceIterator::<u8, BerMode>::new(b), true),
            1 => go!(SequenceIterator::<u8, DerMode>::new(b), true),
            2 => go!(SequenceIteratorInput::<u8, BerMode>::new(Input::from(b)), false),
            3 => go!(SequenceIteratorInput::<u8, DerMode>::new(Input::from(b)), false),
            4 => go!(AnyIterator::<BerMode>::new(Input::from(b)), true),
            _ => go!(AnyIterator::<DerMode>::new(Input::from(b)), true),
        }
    }
    /// elements of a generic object, in the requested rules
    fn h_iter_elements() {
        let b = input!(7);
        expect(&["ber", "der"]);
        if clen(0, 1) == 0 {
            if let Ok((_, any)) = Any::parse_ber(Input::from(b)) {
                cover("ber");
                let (s, e, _) = refm::extent(b, 3).unwrap();
                let v: Option<Vec<_>> = any.iter_elements::<BerMode>().map(|r| r.ok().map(|x| x.0.len())).collect();
                let w: Option<Vec<_>> = items(&b[s..e], false).map(|v| v.iter().map(|x| x.len()).collect());
                check(v == w, "elements");
            }
        } else if let Ok((_, any)) = Any::parse_der(Input::from(b)) {
            cover("der");
            let (s, e, _) = refm::extent(b, 3).unwrap();
            let v: Option<Vec<_>> = any.iter_elements::<DerMode>().map(|r| r.ok().map(|x| x.0.len())).collect();
            let w: Option<Vec<_>> = items(&b[s..e], true).map(|v| v.iter().map(|x| x.len()).collect());
            check(v == w, "elements");
        }
    }
    /// tuples: one object of each type, in order
    fn h_tuple() {
        let b = input!(9);
        expect(&["ok", "err"]);
        let der = clen(0, 1) == 1;
        let got = if der { pa(<(u8, bool)>::parse_der(Input::from(b))) } else { pa(<(u8, bool)>::parse_ber(Input::from(b))) };
        let exp = (|| {
            let (v, end) = split(b, 16, der)?;
            if v.len() != 2 { return None }
            let (x, y) = if der { (ep(u8::parse_der(Input::from(v[0]))).ok()?, ep(bool::parse_der(Input::from(v[1]))).ok()?) } else { (ep(u8::parse_ber(Input::from(v[0]))).ok()?, ep(bool::parse_ber(Input::from(v[1]))).ok()?) };
            Some((b.len() - end, (x, y)))
        })();
        match (exp, got) {
            (Some(x), Ok(y)) => { cover("ok"); check(x == y, "elements") }
            (None, Err(())) => cover("err"),
            (None, Ok(_)) => { // octets after the last element are ignored (known finding)
                let (s, e, _) = refm::extent(b, 3).unwrap();
                let k = refm::extent(&b[s..e], 3).unwrap().2;
                let k = k + refm::extent(&b[s + k..e], 3).unwrap().2;
                check(s + k < e, "accepts an invalid record")
            }
            (Some(_), Err(())) => fail("rejects a record of valid elements"),
        }
    }
    fn h_tuple_long() {
        // twelve elements, the longest supported: every order of mistakes
        let a = bytes::<12>();
        let t = clen(0, 12);
        let mut b = vec![0x30, 0];
        for (i, x) in a.iter().enumerate() { b.extend_from_slice(&[if i == t { 1 } else { 2 }, 1, *x & 0x7f]) }
        b[1] = (b.len() - 2) as u8;
        type T = (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8);
        expect(&["ok", "err"]);
        match <T>::parse_der(Input::from(&b[..])) {
            Ok((r, v)) => { cover("ok"); check(t == 12 && r.is_empty(), "wrong tag accepted"); let w = [v.0, v.1, v.2, v.3, v.4, v.5, v.6, v.7, v.8, v.9, v.10, v.11]; let mut ok = true; for i in 0..12 { ok &= w[i] == a[i] & 0x7f } check(ok, "values") }
            Err(_) => { cover("err"); check(t < 12, "rejects a record") }
        }
    }
    fn h_write_int() {
        let n = clen(0, 3);
        let a = bytes::<3>();
        let es: Vec<Vec<u8>> = a[..n].iter().map(|x| refm::tlv(2, &refm::enc_int(*x as i128))).collect();
        lists_w!(a[..n].to_vec(), es)
    }
    fn h_write_bool() {
        let n = clen(0, 4);
        let a: Vec<bool> = bytes::<4>()[..n].iter().map(|x| *x & 1 == 1).collect();
        let es: Vec<Vec<u8>> = a.iter().map(|x| refm::tlv(1, &[if *x { 255 } else { 0 }])).collect();
        lists_w!(a.to_vec(), es)
    }
    fn h_write_big() {
        // contents of 120 to 131, 250 to 260 and 510 to 520 octets
        let x = byte();
        let k = match clen(0, 2) { 0 => clen(116, 127), 1 => clen(118, 128) + 128, _ => clen(100, 110) + 400 };
        let big = vec![x; k];
        let s: Vec<&[u8]> = vec![&big[..], &big[..1]];
        let es = vec![refm::tlv(4, &big), refm::tlv(4, &big[..1])];
        lists_w!(s, es)
    }
    fn h_write_nested() {
        let a = bytes::<2>();
        let n = clen(0, 2);
        let m = clen(0, 2);
        let e = |k: usize| refm::tlv(0x30, &a[..k].iter().map(|x| refm::tlv(2, &refm::enc_int(*x as i128))).collect::<Vec<_>>().concat());
        lists_w!(vec![a[..n].to_vec(), a[..m].to_vec()], vec![e(n), e(m)])
    }
    fn h_write_array() {
        let a = bytes::<2>();
        let e: Vec<Vec<u8>> = a.iter().map(|x| refm::tlv(2, &refm::enc_int(*x as i128))).collect();
        wr!(&a, &refm::tlv(0x30, &e.concat()));
        wr!(&[a[0]], &refm::tlv(0x30, &e[0]));
        wr!(&[[a[0]], [a[1]]], &refm::tlv(0x30, &[refm::tlv(0x30, &e[0]), refm::tlv(0x30, &e[1])].concat()));
        let s: BTreeSet<u8> = a.iter().copied().collect();
        let w = if a[0] == a[1] { e[0].clone() } else if a[0] < a[1] { e.concat() } else { [e[1].clone(), e[0].clone()].concat() };
        wr!(&s, &refm::tlv(0x31, &w));
        let s: HS<u8> = a[..1].iter().copied().collect();
        wr!(&s, &refm::tlv(0x31, &e[0]));
        let any = |i: usize| Any::from_tag_and_data(Tag::OctetString, Input::from(&a[..i]));
        let c = [refm::tlv(4, &a[..1]), refm::tlv(4, &a)].concat();
        wr!(&AnySequence::new(vec![any(1), any(2)]), &refm::tlv(0x30, &c));
        let mut s = AnySet::new(HS::default());
        wr!(&s, &refm::tlv(0x31, &[]));
        check(s.is_empty() && s.insert(any(1)) && s.insert(any(2)) && !s.insert(any(1)) && s.len() == 2, "insert");
        check(s.remove(&any(2)) && !s.remove(&any(2)), "remove");
        wr!(&s, &refm::tlv(0x31, &refm::tlv(4, &a[..1])));
        let mut s = AnySequence::new(vec![any(1)]);
        s.push(any(0));
        check(s.pop().is_some() && s.len() == 1, "push and pop");
        s.push(any(2));
        wr!(&s, &refm::tlv(0x30, &c));
    }
    fn k_set_order() { check(SetOf::new(vec![2u8, 1]).to_der_vec().ok() == Some(vec![0x31, 6, 2, 1, 1, 2, 1, 2]), "SET OF elements are not sorted in DER") }
    fn k_tuple_trailing() { check(<(u8, bool)>::parse_der(Input::from(&[0x30u8, 7, 2, 1, 5, 1, 1, 0, 0xff])).is_err(), "octets after the last element of a tuple are ignored") }
}
