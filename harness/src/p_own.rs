//! Equality, hashing, order and copies of values.
#![allow(deprecated)]
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
use core::hash::{BuildHasherDefault, Hash, Hasher};
use std::borrow::Cow;
use std::collections::HashSet;

/// records what is hashed
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
    fn finish(&self) -> u64 { 0 }
}
/// the sum of what is hashed
#[derive(Default)]
struct Sum(u64);
impl Hasher for Sum {
    fn write(&mut self, b: &[u8]) { self.0 = self.0.wrapping_add(b.len() as u64) }
    fn finish(&self) -> u64 { 0 }
}
fn hashed<T: Hash>(x: &T) -> Vec<u8> { let mut h = Rec::default(); x.hash(&mut h); h.0 }
/// a == b is w, both ways, and equal values hash alike
fn same<T: Eq>(a: &T, b: &T, w: bool) {
    cover(if w { "equal" } else { "different" });
    obs(w as u64);
    check((a == b) == w && (a != b) != w, "equality");
    check((b == a) == w, "equality is not symmetric");
}
fn same_hash<T: Eq + Hash>(a: &T, b: &T, w: bool) {
    same(a, b, w);
    if w { check(refm::eq(&hashed(a), &hashed(b)), "equal values hash differently") }
}
fn class(c: u8) -> Class { match c & 3 { 0 => Class::Universal, 1 => Class::Application, 2 => Class::ContextSpecific, _ => Class::Private } }
fn length() -> Length { let l = u64(); if boolean() { Length::Indefinite } else { Length::Definite(l as usize) } }
fn head<'a>(raw: &'a [u8]) -> Header<'a> {
    let h = Header::new(class(byte()), boolean(), Tag(u32()), length());
    let n = clen(0, raw.len());
    h.with_raw_tag(if n == 0 { None } else { Some(Cow::Borrowed(&raw[..n])) })
}
/// the documented rule: length 0 and an absent raw tag are wildcards
fn heads(a: &Header, b: &Header) -> bool {
    a.class() as u8 == b.class() as u8 && a.constructed() == b.constructed() && a.tag().0 == b.tag().0
        && match (a.length(), b.length()) {
            (Length::Definite(0), _) | (_, Length::Definite(0)) => true,
            (Length::Definite(x), Length::Definite(y)) => x == y,
            (Length::Indefinite, Length::Indefinite) => true,
            _ => false,
        }
        && match (a.raw_tag(), b.raw_tag()) { (Some(x), Some(y)) => refm::eq(x, y), _ => true }
}
macro_rules! two { () => { expect(&["equal", "different"]) } }
macro_rules! text { ($($t:ident)*) => { $( {
    let b = bytes::<3>();
    // digits belong to every repertoire
    let (n, m) = (clen(0, 2), clen(0, 1));
    let mut i = 0;
    while i < 3 { assume(b[i] >= 0x30 && b[i] <= 0x39); i += 1 }
    let x = core::str::from_utf8(&b[..n]).unwrap();
    let y = core::str::from_utf8(&b[2..2 + m]).unwrap();
    let (p, q, o) = ($t::new(x), $t::new(y), $t::from(x.to_string()));
    same(&p, &q, refm::eq(x.as_bytes(), y.as_bytes()));
    check(p == o && refm::eq(p.as_ref().as_bytes(), x.as_bytes()) && refm::eq(o.as_ref().as_bytes(), x.as_bytes()), "borrowed and owned");
    check(p.as_raw_str().map(|s| s.as_ptr() as usize) == Some(x.as_ptr() as usize) && o.as_raw_str().is_none(), "raw text");
    check(refm::eq(o.string().as_bytes(), x.as_bytes()) && refm::eq(p.string().as_bytes(), x.as_bytes()), "copy of the text");
} )* } }
macro_rules! wide { ($t:ident) => { {
    let b = bytes::<3>();
    let (n, m) = (clen(0, 2), clen(0, 1));
    let mut i = 0;
    while i < 3 { assume(b[i] < 0x80); i += 1 }
    let x = core::str::from_utf8(&b[..n]).unwrap();
    let y = core::str::from_utf8(&b[2..2 + m]).unwrap();
    let (p, q) = ($t::new(x), $t::new(y));
    same(&p, &q, refm::eq(x.as_bytes(), y.as_bytes()));
    check(refm::eq(p.as_ref().as_bytes(), x.as_bytes()) && refm::eq(p.string().as_bytes(), x.as_bytes()), "text");
} } }
#[derive(ToStatic, Debug, PartialEq)]
struct Unit;
#[derive(ToStatic, Debug, PartialEq)]
struct Pair<'a>(Cow<'a, str>, u8);
#[derive(ToStatic, Debug, PartialEq)]
struct Named<'a, 'b> { n: u64, seq: Sequence<'a>, o: Option<Cow<'b, [u8]>>, l: Vec<u8> }
#[derive(ToStatic, Debug, PartialEq)]
enum Alt<'a> { None, One(u32), Two(Cow<'a, [u8]>, bool), Rec { p: Pair<'a>, q: i64 } }
fn tz() -> ASN1TimeZone { let (a, b) = (byte() as i8, byte() as i8); match clen(0, 2) { 0 => ASN1TimeZone::Undefined, 1 => ASN1TimeZone::Z, _ => ASN1TimeZone::Offset(a, b) } }
/// as one number: fields in order, for times with the same kind of zone
fn num(t: &ASN1DateTime) -> u128 {
    let z = match t.tz { ASN1TimeZone::Undefined => 0u32, ASN1TimeZone::Z => 1 << 16, ASN1TimeZone::Offset(h, m) => 2 << 16 | ((h as u8 ^ 0x80) as u32) << 8 | (m as u8 ^ 0x80) as u32 };
    let ms = match t.millisecond { None => 0u32, Some(m) => m as u32 + 1 };
    let d = ((((t.month as u64) << 8 | t.day as u64) << 8 | t.hour as u64) << 8 | t.minute as u64) << 8 | t.second as u64;
    ((t.year as u128) << 40 | d as u128) << 48 | (ms as u128) << 24 | z as u128
}
fn time() -> ASN1DateTime {
    let (y, mo, d, h, mi, s, ms) = (u32(), byte(), byte(), byte(), byte(), byte(), u16());
    ASN1DateTime::new(y, mo, d, h, mi, s, if boolean() { Some(ms) } else { None }, tz())
}
harness! {
    fn h_header() {
        two!();
        let (r, s) = (bytes::<2>(), bytes::<2>());
        let (a, b) = (head(&r), head(&s));
        same_hash(&a, &b, heads(&a, &b));
        same_hash(&a, &a.clone(), true);
    }
    fn h_header_parsed() {
        two!();
        let b = bytes::<5>();
        let c = bytes::<5>();
        let (Ok((_, x)), Ok((_, y))) = (Header::parse_ber(Input::from(&b)), Header::parse_ber(Input::from(&c))) else { return };
        same_hash(&x, &y, heads(&x, &y));
        let s = x.to_static();
        check(s == x && s.class() as u8 == x.class() as u8 && s.constructed() == x.constructed() && s.tag().0 == x.tag().0, "copy of a header");
        check(s.length() == x.length() && match (s.raw_tag(), x.raw_tag()) { (Some(p), Some(q)) => refm::eq(p, q), (None, None) => true, _ => false }, "copy of a header: length and raw tag");
    }
    fn h_any() {
        two!();
        // the same contents at two positions, or others
        let b = bytes::<6>();
        let (n, m) = (clen(0, 2), clen(0, 2));
        let (g, h) = (head(&[]), head(&[]));
        let (x, y) = (Input::from(&b).start(), boolean());
        let p = Any::new(g.clone(), Input::new(&b[..n], x..x + n));
        let k = if y { 0 } else { 3 };
        let q = Any::new(h.clone(), Input::new(&b[k..k + m], 7 + k..7 + k + m));
        same_hash(&p, &q, heads(&g, &h) && refm::eq(&b[..n], &b[k..k + m]));
        same_hash(&p, &p.clone(), true);
    }
    fn h_any_elements() {
        two!();
        // the elements of a structure, and each read on its own
        let b = bytes::<6>();
        let (n, m) = (clen(0, 2), clen(0, 2));
        let (x, y) = (refm::tlv(b[0] & 0x1e, &b[1..1 + n]), refm::tlv(b[3] & 0x1e, &b[4..4 + m]));
        let v = refm::tlv(0x30, &[x.clone(), y.clone()].concat());
        let w = b[0] & 0x1e == b[3] & 0x1e && refm::eq(&b[1..1 + n], &b[4..4 + m]);
        let (_, s) = AnySequence::parse_der(Input::from(&v)).unwrap();
        let e: Vec<&Any> = s.iter().collect();
        check(e.len() == 2, "elements");
        same_hash(e[0], e[1], w);
        let (_, a) = Any::parse_der(Input::from(&x)).unwrap();
        same_hash(e[0], &a, true);
        same_hash(e[1], &a, w);
    }
    fn h_any_set() {
        two!();
        let b = bytes::<2>();
        let v = refm::tlv(0x31, &[refm::tlv(4, &b[..1]), refm::tlv(4, &b[1..])].concat());
        let w = b[0] == b[1];
        cover(if w { "equal" } else { "different" });
        type S<'a> = AnySet<'a, BuildHasherDefault<Sum>>;
        for s in [S::parse_ber(Input::from(&v)), S::parse_der(Input::from(&v))] {
            let (_, s) = s.unwrap();
            check(s.len() == if w { 1 } else { 2 }, "an element repeated in a set is one element");
        }
        let h: HashSet<Any, BuildHasherDefault<Sum>> = AnySequence::parse_der(Input::from(&refm::tlv(0x30, &v[2..]))).unwrap().1.iter().map(|a| Any::from_tag_and_data(a.tag(), Input::from_slice(a.data.as_bytes2()).clone())).map(|a| { let d: &'static [u8] = Box::leak(a.as_bytes().to_vec().into_boxed_slice()); Any::from_tag_and_data(a.tag(), Input::from(d)) }).collect();
        check(h.len() == if w { 1 } else { 2 }, "set of objects");
    }
    fn h_oid() {
        two!();
        let b = bytes::<6>();
        let (n, m) = (clen(0, 3), clen(0, 3));
        let mk = |c: &'static [u8], r: bool| if r { Oid::new_relative(Cow::Borrowed(c)) } else { Oid::new(Cow::Borrowed(c)) };
        let l: &'static [u8; 6] = Box::leak(Box::new(b));
        let (r, s) = (boolean(), boolean());
        let (x, y) = (mk(&l[..n], r), mk(&l[3..3 + m], s));
        same_hash(&x, &y, r == s && refm::eq(&b[..n], &b[3..3 + m]));
        let o = x.to_owned();
        same_hash(&x, &o, true);
        same_hash(&x, &x.clone(), true);
        check(refm::eq(o.as_bytes(), &b[..n]) && DynTagged::tag(&o) == (if r { Tag::RelativeOid } else { Tag::Oid }) && refm::eq(o.bytes(), &b[..n]), "copy");
        check(matches!(o.clone().into_cow(), Cow::Owned(_)) && matches!(x.clone().into_cow(), Cow::Borrowed(_)), "owned");
        check(refm::eq(&o.into_cow(), &b[..n]), "contents");
    }
    fn h_bits() {
        two!();
        let b = bytes::<4>();
        let (n, m) = (clen(0, 2), clen(0, 2));
        let (u, v) = (clen(0, 7), clen(0, 7));
        assume((n > 0 || u == 0) && (m > 0 || v == 0));
        let (x, y) = (BitString::new(u as u8, &b[..n]), BitString::new(v as u8, &b[2..2 + m]));
        let mask = |i: usize, n: usize, u: usize| if i + 1 == n { 0xffu8 << u } else { 0xff };
        let mut w = n == m && u == v;
        let mut i = 0;
        while i < n && w { if (b[i] ^ b[2 + i]) & mask(i, n, u) != 0 { w = false } i += 1 }
        same(&x, &y, w);
        same(&x, &x.clone(), true);
        check(x.len() == 8 * n - u && x.is_empty() == (n == 0), "length");
        if w {
            let (p, q) = (x.to_der_vec().unwrap(), y.to_der_vec().unwrap());
            check(refm::eq(&p, &q), "equal values are encoded differently");
        }
    }
    fn h_integer() {
        two!();
        let b = bytes::<6>();
        let (n, m) = (clen(1, 3), clen(1, 3));
        let (x, y) = (Integer::new(&b[..n]), Integer::new(&b[3..3 + m]));
        same(&x, &y, refm::eq(&b[..n], &b[3..3 + m]));
        same(&x, &x.clone(), true);
        check(x.as_raw_slice().map(|s| s.as_ptr() as usize) == Some(b.as_ptr() as usize) && refm::eq(x.as_ref(), &b[..n]), "raw contents");
        let v = u32();
        let o = Integer::from(v);
        check(o.as_raw_slice().is_none() && o.as_u32() == Ok(v) && o.clone() == o && o.clone().as_u32() == Ok(v), "owned");
    }
    fn h_text() {
        two!();
        text! { Utf8String NumericString PrintableString Ia5String VisibleString }
    }
    fn h_text2() {
        two!();
        text! { GeneralString GraphicString TeletexString VideotexString ObjectDescriptor }
    }
    fn h_text_wide() {
        two!();
        wide!(BmpString);
        wide!(UniversalString);
    }
    fn h_octets() {
        two!();
        let b = bytes::<4>();
        let (n, m) = (clen(0, 2), clen(0, 2));
        let (x, y) = (OctetString::new(&b[..n]), OctetString::from(&b[2..2 + m]));
        same(&x, &y, refm::eq(&b[..n], &b[2..2 + m]));
        check(refm::eq(x.as_cow(), &b[..n]) && refm::eq(x.as_ref(), &b[..n]) && refm::eq(&y.into_cow(), &b[2..2 + m]), "contents");
    }
    fn h_sequence() {
        two!();
        let b = bytes::<4>();
        let (n, m) = (clen(0, 2), clen(0, 2));
        let (x, y) = (Sequence::new(Cow::Borrowed(&b[..n])), Sequence::new(Cow::Borrowed(&b[2..2 + m])));
        same(&x, &y, refm::eq(&b[..n], &b[2..2 + m]));
        let o = x.to_static();
        check(o == x && o.as_raw_slice().is_none() && x.as_raw_slice().map(|s| s.as_ptr() as usize) == Some(b.as_ptr() as usize), "copy of a sequence");
        check(refm::eq(o.as_ref(), &b[..n]) && refm::eq(&o.into_content(), &b[..n]), "contents of a sequence");
        let s = Set::new(Cow::Borrowed(&b[..n]));
        let o = s.to_static();
        check(o.as_raw_slice().is_none() && s.as_raw_slice().map(|s| s.as_ptr() as usize) == Some(b.as_ptr() as usize), "copy of a set");
        check(refm::eq(o.as_ref(), &b[..n]) && refm::eq(s.as_ref(), &b[..n]) && refm::eq(&o.into_content(), &b[..n]) && refm::eq(&s.into_content(), &b[..n]), "contents of a set");
    }
    fn h_static() {
        let b = bytes::<2>();
        let n = clen(0, 2);
        let c = u128();
        assume(b[0] < 0x80 && b[1] < 0x80);
        let t = core::str::from_utf8(&b[..n]).unwrap();
        check(c.to_static() == c && (c as i64).to_static() == c as i64 && (c as i128).to_static() == c as i128 && (c as u8).to_static() == c as u8 && (c as isize).to_static() == c as isize, "numbers");
        check(Some(c as u16).to_static() == Some(c as u16) && None::<u32>.to_static() == None && Box::new(c as i32).to_static() == Box::new(c as i32) && (&(c as i8)).to_static() == c as i8, "option, box, reference");
        check(vec![b[0], b[1]].to_static() == vec![b[0], b[1]] && (c & 1 == 1).to_static() == (c & 1 == 1), "list");
        let o: Cow<'static, str> = Cow::Borrowed(t).to_static();
        check(matches!(o, Cow::Owned(_)) && refm::eq(o.as_bytes(), t.as_bytes()), "text");
        check(refm::eq(t.to_static().as_bytes(), t.as_bytes()) && refm::eq(t.to_string().to_static().as_bytes(), t.as_bytes()), "str");
        let o: Cow<'static, [u8]> = Cow::<[u8]>::Borrowed(&b[..n]).to_static();
        check(matches!(o, Cow::Owned(_)) && refm::eq(&o, &b[..n]), "octets");
    }
    fn h_static_derived() {
        let b = bytes::<2>();
        let n = clen(0, 2);
        let (v, w) = (u64(), boolean());
        assume(b[0] < 0x80 && b[1] < 0x80);
        let t = core::str::from_utf8(&b[..n]).unwrap();
        check(Unit.to_static() == Unit, "unit");
        let p = Pair(Cow::Borrowed(t), v as u8);
        let o: Pair<'static> = p.to_static();
        check(o.1 == v as u8 && refm::eq(o.0.as_bytes(), t.as_bytes()) && matches!(o.0, Cow::Owned(_)), "tuple structure");
        let s = Named { n: v, seq: Sequence::new(Cow::Borrowed(&b[..n])), o: if w { Some(Cow::Borrowed(&b[..n])) } else { None }, l: b.to_vec() };
        let o: Named<'static, 'static> = s.to_static();
        check(o.n == v && refm::eq(&o.l, &b) && refm::eq(o.seq.as_ref(), &b[..n]) && o.seq.as_raw_slice().is_none(), "structure");
        check(match o.o { None => !w, Some(c) => w && matches!(c, Cow::Owned(_)) && refm::eq(&c, &b[..n]) }, "optional field");
        check(matches!(Alt::None.to_static(), Alt::None) && matches!(Alt::One(v as u32).to_static(), Alt::One(x) if x == v as u32), "alternatives");
        check(match Alt::Two(Cow::Borrowed(&b[..n]), w).to_static() { Alt::Two(c, x) => x == w && matches!(c, Cow::Owned(_)) && refm::eq(&c, &b[..n]), _ => false }, "alternative with two fields");
        check(match (Alt::Rec { p, q: v as i64 }).to_static() { Alt::Rec { p, q } => q == v as i64 && p.1 == v as u8 && refm::eq(p.0.as_bytes(), t.as_bytes()), _ => false }, "alternative with named fields");
    }
    fn h_time() {
        two!();
        let (a, b) = (time(), time());
        let (x, y) = (num(&a), num(&b));
        same(&a, &b, x == y);
        check((a < b) == (x < y) && (a > b) == (x > y) && a.cmp(&b) == x.cmp(&y) && a.partial_cmp(&b) == Some(x.cmp(&y)), "order");
        same(&a, &a.clone(), true);
        let (o, w) = (x.cmp(&y), x == y);
        let (p, q) = (UtcTime(a.clone()), UtcTime(b.clone()));
        check((p == q) == w && p.cmp(&q) == o, "UTCTime");
        let (p, q) = (GeneralizedTime(a), GeneralizedTime(b));
        check((p == q) == w && p.cmp(&q) == o, "GeneralizedTime");
    }
    fn h_small() {
        two!();
        let (a, b, l, m) = (u32(), u32(), length(), length());
        same_hash(&Tag(a), &Tag(b), a == b);
        same_hash(&class(a as u8), &class(b as u8), a & 3 == b & 3);
        same_hash(&l, &m, match (l, m) { (Length::Indefinite, Length::Indefinite) => true, (Length::Definite(x), Length::Definite(y)) => x == y, _ => false });
        same(&Enumerated(a), &Enumerated(b), a == b);
        same(&Boolean::new(a as u8), &Boolean::new(b as u8), a as u8 == b as u8);
        type T = TaggedValue<u32, Error, Explicit, 2, 1>;
        same(&T::explicit(a), &T::explicit(b), a == b);
        check(*T::explicit(a).as_ref() == a && T::explicit(a).into_inner() == a && T::explicit(a).tag() == Tag(1) && T::explicit(a).class() == 2, "tagged");
    }
    fn h_lists() {
        two!();
        let a = bytes::<2>();
        let b = bytes::<2>();
        let (n, m) = (clen(0, 2), clen(0, 2));
        let w = refm::eq(&a[..n], &b[..m]);
        cover(if w { "equal" } else { "different" });
        let (s, t) = (SequenceOf::new(a[..n].to_vec()), b[..m].iter().copied().collect::<SequenceOf<u8>>());
        check((s == t) == w && (t == s) == w, "sequences");
        check(refm::eq(&s, &a[..n]) && refm::eq(s.as_ref(), &a[..n]) && refm::eq(&Vec::from(s), &a[..n]) && refm::eq(&t.into_vec(), &b[..m]), "contents of a sequence");
        let (mut s, t) = (SetOf::new(a[..n].to_vec()), b[..m].iter().copied().collect::<SetOf<u8>>());
        check((s == t) == w && (t == s) == w, "sets");
        check(refm::eq(&s, &a[..n]) && refm::eq(s.as_ref(), &a[..n]), "contents of a set");
        s.push(7);
        s.as_mut()[n] ^= 1;
        check(s.len() == n + 1 && refm::eq(&s[..n], &a[..n]) && s[n] == 6, "push");
        check(refm::eq(&Vec::from(t), &b[..m]) && s.into_vec().len() == n + 1, "into a vector");
    }
}
