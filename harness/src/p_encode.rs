//! Encoders: what they say they write is what they write, whatever the writer does.
#![allow(deprecated)]
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
#[allow(unused_imports)]
use std::io;
use std::io::Write;

/// A writer that takes `left` octets, `chunk` at a time, then fails: 0 an error, 1 takes nothing more (Ok(0)).
/// It also reports `intr` interruptions before the first octet, which writers retry.
struct Sink { got: Vec<u8>, left: usize, chunk: usize, how: u8, intr: u8 }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.intr > 0 { self.intr -= 1; return Err(io::ErrorKind::Interrupted.into()) }
        if b.is_empty() { return Ok(0) }
        let n = b.len().min(self.left).min(self.chunk);
        if n == 0 { return if self.how == 0 { Err(io::ErrorKind::Other.into()) } else { Ok(0) } }
        let mut i = 0;
        while i < n { self.got.push(b[i]); i += 1 }
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn sink(left: usize) -> Sink { Sink { got: Vec::new(), left, chunk: usize::MAX, how: 0, intr: 0 } }

/// one writing function `f` that should write `want`, to one of ten kinds of writers
fn faults<F: Fn(&mut Sink) -> SerializeResult<usize>>(mode: usize, want: &[u8], f: F) {
    let n = want.len();
    if mode < 2 || n == 0 {
        // enough room, in pieces, with an interruption
        let mut s = sink(n);
        s.chunk = 1 + mode * 2;
        s.intr = 1;
        match f(&mut s) {
            Ok(k) => { check(k == n, "octets reported"); check(refm::eq(&s.got, want), "octets written in pieces") }
            Err(_) => fail("writing fails with enough room"),
        }
        return;
    }
    // one octet or more too few: the failure is reported, and what was written is a prefix
    let room = [0, 1, 2, n / 2, n - 1, n - 1, 3, 4][mode - 2].min(n - 1);
    let mut s = sink(room);
    s.how = mode as u8 & 1;
    match f(&mut s) {
        Ok(_) => fail("a failure of the writer is lost"),
        Err(_) => { check(s.got.len() <= room, "room"); check(refm::eq(&s.got, &want[..s.got.len()]), "octets written before the failure") }
    }
}
const MODES: usize = 9;
fn want_tagged(explicit: bool, class: u8, tag: u32, cons: bool, whole: &[u8], content: &[u8]) -> Vec<u8> {
    let c = if explicit { whole } else { content };
    let mut w = refm::enc_header(class, explicit || cons, tag, Some(c.len() as u64));
    let mut i = 0;
    while i < c.len() { w.push(c[i]); i += 1 }
    w
}
/// `v` is written as contents `c` under a header of class 0, `tag`, `cons`, in BER and DER
fn all<T: ToBer + ToDer>(v: &T, tag: u32, cons: bool, c: &[u8]) {
    let mut w = refm::enc_header(0, cons, tag, Some(c.len() as u64));
    let h = w.len();
    let mut i = 0;
    while i < c.len() { w.push(c[i]); i += 1 }
    check(v.der_content_len() == Length::Definite(c.len()) && v.ber_content_len() == Length::Definite(c.len()), "contents length");
    check(v.der_total_len() == Length::Definite(w.len()) && v.ber_total_len() == Length::Definite(w.len()), "total length");
    check(v.to_der_len() == Ok(w.len()), "to_der_len");
    let e = (Class::Universal, cons, Tag(tag));
    check(v.der_tag_info() == e && v.ber_tag_info() == e, "tag");
    match v.to_der_vec() { Ok(x) => check(refm::eq(&x, &w), "to_der_vec"), Err(_) => fail("to_der_vec") }
    match v.to_der_vec_raw() { Ok(x) => check(refm::eq(&x, &w), "to_der_vec_raw"), Err(_) => fail("to_der_vec_raw") }
    match v.to_ber_vec() { Ok(x) => check(refm::eq(&x, &w), "to_ber_vec"), Err(_) => fail("to_ber_vec") }
    let m = clen(0, MODES);
    match clen(0, 7) {
        0 => faults(m, &w, |s| v.der_encode(s)),
        1 => faults(m, &w, |s| v.ber_encode(s)),
        2 => { faults(m, &w[..h], |s| v.der_write_header(s)); faults(m, &w[..h], |s| v.ber_write_header(s)) }
        3 => { faults(m, c, |s| v.der_write_content(s)); faults(m, c, |s| v.ber_write_content(s)) }
        4 => { faults(m, &w, |s| v.write_der(s)); faults(m, &w, |s| v.write_ber(s)) }
        5 => {
            let k = (m + c.len()) as u8 & 3;
            let class = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][k as usize];
            let t = u32();
            // one path per length of the tag number
            let x = want_tagged(true, k, t, cons, &w, c);
            faults(m, &x, |s| v.der_encode_tagged_explicit(class, t, s));
        }
        6 => {
            let k = (m + c.len()) as u8 & 3;
            let class = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][k as usize];
            let t = u32();
            let x = want_tagged(false, k, t, cons, &w, c);
            faults(m, &x, |s| v.der_encode_tagged_implicit(class, t, s));
        }
        _ => {
            let t = u16() as u32;
            let x = want_tagged(true, 2, t, cons, &w, c);
            faults(m, &x, |s| v.ber_encode_tagged_explicit(Class::ContextSpecific, t, s));
            let x = want_tagged(false, 1, t, cons, &w, c);
            faults(m, &x, |s| v.ber_encode_tagged_implicit(Class::Application, t, s));
            // references write the same
            faults(m, &w, |s| (&v).der_encode(s));
            faults(m, &w, |s| (&&v).ber_encode(s));
        }
    }
    obs(c.len() as u64);
}
fn content(n: usize) -> Vec<u8> {
    let (a, b) = (byte(), byte());
    let mut v = Vec::new();
    let mut i = 0;
    while i < n { v.push(if i == 0 { a } else { b }); i += 1 }
    v
}
const LENS: [usize; 8] = [0, 1, 3, 126, 127, 128, 255, 256];

#[derive(Sequence)]
struct Two { a: u8, #[tag_implicit(1)] b: bool }

harness! {
    fn h_boolean() { let b = conc(boolean() as usize) == 1; all(&b, 1, false, &[if b { 255 } else { 0 }]) }
    /// Boolean keeps its octet in BER, not in DER
    fn h_boolean_value() {
        let x = byte();
        let b = Boolean::new(255);
        all(&b, 1, false, &[255]);
        let b = Boolean::new(x);
        match b.to_der_vec() { Ok(w) => check(refm::eq(&w, &[1, 1, if x != 0 { 255 } else { 0 }]), "DER"), Err(_) => fail("to_der_vec") }
        match b.to_ber_vec() { Ok(w) => check(w.len() == 3 && w[0] == 1 && w[1] == 1 && (w[2] != 0) == (x != 0), "BER"), Err(_) => fail("to_ber_vec") }
    }
    fn h_null() { if clen(0, 1) == 0 { all(&Null {}, 5, false, &[]) } else { all(&(), 5, false, &[]) } }
    fn h_integer() {
        let x = u16() as i16;
        let c = refm::enc_int(x as i128);
        match clen(0, 2) { 0 => all(&x, 2, false, &c), 1 => all(&(x as i64), 2, false, &c), _ => all(&Integer::new(&c), 2, false, &c) }
    }
    fn h_enumerated() { let x = u16() as u32; let c = refm::enc_int(x as i128); all(&Enumerated::new(x), 10, false, &c) }
    fn h_octets() {
        let c = content(LENS[clen(0, 7)]);
        match clen(0, 1) { 0 => all(&OctetString::new(&c), 4, false, &c), _ => all(&&c[..], 4, false, &c) }
    }
    fn h_bits() {
        let n = clen(0, 20);
        let d: [u8; 3] = bytes();
        let unused = (8 - n % 8) % 8;
        let mut c = vec![unused as u8];
        let mut i = 0;
        while i < (n + 7) / 8 { c.push(if i == n / 8 { d[i] & (255u8 << unused) } else { d[i] }); i += 1 }
        let b = BitString::new(unused as u8, &c[1..]);
        all(&b, 3, false, &c);
    }
    fn h_oid() {
        let n = clen(1, 3);
        let mut c: Vec<u8> = content(n);
        c[n - 1] &= 0x7f;
        let o = Oid::new(std::borrow::Cow::Borrowed(&c[..]));
        all(&o, 6, false, &c);
    }
    fn h_strings() {
        let n = LENS[clen(0, 7)];
        let mut c = content(n);
        let mut i = 0;
        while i < n { c[i] &= 0x7f; i += 1 }
        let s = match core::str::from_utf8(&c) { Ok(s) => s, Err(_) => fail("ASCII") };
        match clen(0, 4) {
            0 => all(&s, 12, false, &c),
            1 => all(&s.to_string(), 12, false, &c),
            2 => all(&Utf8String::new(s), 12, false, &c),
            3 => all(&GeneralString::new(s), 27, false, &c),
            _ => all(&ObjectDescriptor::new(s), 7, false, &c),
        }
    }
    fn h_any() {
        let c = content(LENS[clen(0, 3) * 2]);
        let (k, t) = (clen(0, 3), u32());
        let cons = k & 1 == 1;
        let class = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][k];
        let m = clen(0, MODES);
        let h = Header::new(class, cons, Tag(t), Length::Definite(c.len()));
        let a = Any::new(h.clone(), Input::from(&c));
        let w = want_tagged(false, k as u8, t, cons, &[], &c);
        match clen(0, 2) {
            0 => faults(m, &w, |s| a.der_encode(s)),
            1 => faults(m, &w, |s| a.ber_encode(s)),
            _ => { let n = w.len() - c.len(); faults(m, &w[..n], |s| h.der_encode(s)); faults(m, &w[..n], |s| h.ber_write_header(s)) }
        }
        check(a.ber_total_len() == Length::Definite(w.len()) && a.der_total_len() == a.ber_total_len(), "total length");
        // and reads back
        match Any::parse_der(Input::from(&w)) {
            Ok((r, x)) => {
                check(r.is_empty(), "octets left over");
                check(x.class() == class && x.tag() == Tag(t) && x.header.constructed() == cons && x.header.length() == Length::Definite(c.len()), "header");
                check(refm::eq(x.as_bytes(), &c), "contents");
            }
            Err(_) => check(k == 0 && t == 0 && !cons && c.len() == 0, "an object is not read back"),
        }
        obs(w.len() as u64);
    }
    fn h_raw_lists() {
        let c = content(LENS[clen(0, 7)]);
        match clen(0, 1) {
            0 => all(&Sequence::new(std::borrow::Cow::Borrowed(&c[..])), 16, true, &c),
            _ => all(&Set::new(std::borrow::Cow::Borrowed(&c[..])), 17, true, &c),
        }
    }
    fn h_vec() {
        let n = clen(0, 2);
        let mut v: Vec<u8> = Vec::new();
        let mut c = Vec::new();
        let mut i = 0;
        while i < n { let x = byte(); v.push(x); let e = refm::tlv(2, &refm::enc_int(x as i128)); let mut k = 0; while k < e.len() { c.push(e[k]); k += 1 } i += 1 }
        match clen(0, 2) {
            0 => all(&v, 16, true, &c),
            1 => all(&SequenceOf::from_iter(v.clone()), 16, true, &c),
            _ => all(&SetOf::from_iter(v.clone()), 17, true, &c),
        }
    }
    fn h_struct() {
        let (a, b) = (byte(), conc(boolean() as usize) == 1);
        let mut c = refm::tlv(2, &refm::enc_int(a as i128));
        c.extend_from_slice(&[0x81, 1, if b { 255 } else { 0 }]);
        all(&Two { a, b }, 16, true, &c);
    }
    /// lengths add up, and nothing definite comes out of an indefinite one
    fn h_length() {
        let (x, y) = (u64() >> 1, u64() >> 1);
        let (dx, dy) = (boolean(), boolean());
        let l = |d: bool, v: u64| if d { Length::Definite(v as usize) } else { Length::Indefinite };
        let (a, b) = (l(dx, x), l(dy, y));
        let both = if dx && dy { Length::Definite((x + y) as usize) } else { Length::Indefinite };
        check(a + b == both, "sum");
        let mut c = a;
        c += b;
        check(c == both, "+=");
        let one = if dx { Length::Definite((x + y) as usize) } else { Length::Indefinite };
        check(a + y as usize == one && y as usize + a == one, "sum with a number");
        let mut c = a;
        c += y as usize;
        check(c == one, "+= a number");
        check([a, b].iter().sum::<Length>() == both && [a, b].into_iter().sum::<Length>() == both, "sum of a list");
        check(a.is_definite() == dx && a.definite().ok() == if dx { Some(x as usize) } else { None }, "definite");
        check(a.definite_inner().ok() == a.definite().ok() && a.assert_definite().is_ok() == dx && a.assert_definite_inner().is_ok() == dx, "definite");
        check(a.is_null() == (dx && x == 0), "is_null");
        obs(0);
    }
}
