//! DER decoding accepts only the canonical form, BER decoding accepts it too and reads the same value.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

type V = fn(&[u8]) -> bool;
fn any(_: &[u8]) -> bool { true }
fn vbool(c: &[u8]) -> bool { c.len() == 1 && (c[0] == 0 || c[0] == 0xff) }
fn vnull(c: &[u8]) -> bool { c.is_empty() }
fn voct(_: &[u8]) -> bool { true }
fn vascii(c: &[u8]) -> bool { let mut d = 0; let mut i = 0; while i < c.len() { d |= c[i]; i += 1 } d < 128 }
fn vbits(c: &[u8]) -> bool {
    if c.is_empty() || c[0] > 7 { return false }
    if c.len() == 1 { return c[0] == 0 }
    c[c.len() - 1] & ((1u16 << c[0]) - 1) as u8 == 0
}
/// elements of a list of u8, in canonical form; `strict`: and already in that form
fn list_u8(c: &[u8]) -> Option<(Vec<u8>, bool)> {
    let mut out = Vec::new();
    let mut min = true;
    let mut p = 0;
    while p < c.len() {
        let h = refm::header(&c[p..])?;
        let l = h.len?;
        if h.tag != 2 || h.cons || l > (c.len() - p - h.hl) as u64 { return None }
        let x = &c[p + h.hl..p + h.hl + l as usize];
        if !refm::int_minimal(x) || x[0] >= 0x80 || x.len() > 2 || (x.len() == 2 && x[0] != 0) { return None }
        min = min && h.imin && h.lmin && h.class == 0;
        out.extend_from_slice(&refm::tlv(2, x));
        p += h.hl + l as usize;
    }
    Some((out, min))
}

macro_rules! canon { ($pd:ident, $pb:ident, $in:expr, $t:ty, $n:literal, $tag:literal, $cons:literal, $valid:expr, $eq:expr, $list:literal) => {{
    let valid: V = $valid;
    let eq: fn(&$t, &$t) -> bool = $eq;
    let a = bytes::<$n>();
    let n = clen(0, $n);
    let b = &a[..n];
    // other classes: see H02
    assume(n == 0 || b[0] & 0xc0 == 0);
    let r = refm::header(b);
    expect(&["ok", "err"]);
    let res: std::result::Result<(usize, $t), ()> = match <$t>::$pd($in(b)) { Ok((rem, v)) => Ok((rem.len(), v)), Err(_) => Err(()) };
    match res {
        Ok((rl, v)) => {
            cover("ok");
            let h = match r { Some(h) => h, None => fail("accepts a malformed header") };
            let l = match h.len { Some(l) => l as usize, None => fail("accepts an indefinite length") };
            check(h.tag == $tag && h.cons == $cons, "accepts another tag or form");
            check(h.hl + l + rl == n, "extent");
            let c = &b[h.hl..h.hl + l];
            if $list {
                match list_u8(c) {
                    Some((x, _)) => { match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(0x20 | $tag, &x)), "re-encoding"), Err(_) => fail("to_der_vec") } }
                    None => fail("accepts elements that are not canonical"),
                }
            } else {
                check(valid(c), "accepts contents that are not canonical");
                match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(if $cons { 0x20 | $tag } else { $tag }, c)), "re-encoding"), Err(_) => fail("to_der_vec") }
            }
            match <$t>::$pb($in(b)) {
                Ok((r2, v2)) => check(r2.len() == rl && eq(&v, &v2), "BER gives another value"),
                Err(_) => fail("BER rejects what DER accepts"),
            }
            obs(rl as u64);
        }
        Err(()) => {
            cover("err");
            if let Some(h) = r {
                if let Some(l) = h.len {
                    if h.tag == $tag && h.cons == $cons && h.imin && h.lmin && l <= (n - h.hl) as u64 {
                        let c = &b[h.hl..h.hl + l as usize];
                        if $list { check(match list_u8(c) { Some((_, m)) => !m, None => true }, "rejects a canonical encoding") }
                        else { check(!valid(c), "rejects a canonical encoding") }
                    }
                }
            }
        }
    }
}}}
fn bs(b: &[u8]) -> &[u8] { b }
fn inp(b: &[u8]) -> Input<'_> { Input::from(b) }
macro_rules! all { ($( $d:ident $f:ident $t:ty, $n:literal, $tag:literal, $cons:literal, $valid:expr, $eq:expr, $list:literal; )*) => {
    harness! { $( fn $d() { canon!(parse_der, parse_ber, inp, $t, $n, $tag, $cons, $valid, $eq, $list) }
                  fn $f() { canon!(from_der, from_ber, bs, $t, $n, $tag, $cons, $valid, $eq, $list) } )*
        fn h_enum() {
            let a = bytes::<7>();
            let n = clen(0, 7);
            let b = &a[..n];
            assume(n == 0 || b[0] & 0xc0 == 0);
            expect(&["ok", "err"]);
            match Enumerated::parse_der(Input::from(b)) {
                Ok((rem, v)) => {
                    cover("ok");
                    let h = refm::header(b).unwrap();
                    let l = h.len.unwrap() as usize;
                    check(h.tag == 10 && !h.cons && h.hl + l + rem.len() == n, "tag, form and extent");
                    let c = &b[h.hl..h.hl + l];
                    // redundant octets are a known finding
                    if refm::int_minimal(c) {
                        match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(10, c)), "re-encoding"), Err(_) => fail("to_der_vec") }
                    }
                    match Enumerated::from_der(b) { Ok((r2, v2)) => check(r2.len() == rem.len() && v2 == v, "from_der"), Err(_) => fail("from_der rejects") }
                    match Enumerated::parse_ber(Input::from(b)) { Ok((r2, v2)) => check(r2.len() == rem.len() && v2 == v, "BER"), Err(_) => fail("BER rejects what DER accepts") }
                }
                Err(_) => cover("err"),
            }
        }
        /// known findings (not explored, only replayed)
        fn k_length_form() { check(u8::parse_der(Input::from(&[2u8, 0x81, 1, 5])).is_err(), "DER accepts a long-form length below 128") }
        fn k_tag_form() { check(u8::parse_der(Input::from(&[0x1fu8, 2, 1, 5])).is_err(), "DER accepts a long-form tag number below 31") }
        fn k_enumerated() { check(Enumerated::from_der(&[10u8, 2, 0, 5]).is_err(), "from_der accepts a redundant ENUMERATED octet") }
        fn k_oid() { check(Oid::parse_der(Input::from(&[6u8, 3, 0x2a, 0x80, 1])).is_err(), "DER accepts a redundant OBJECT IDENTIFIER octet") }
    }
}}
macro_rules! ei { ($t:ty) => { |c: &[u8]| refm::int_minimal(c) && c.len() <= 16 && { let v = refm::int_value(c); v >= <$t>::MIN as i128 && v <= <$t>::MAX as i128 } } }
macro_rules! e { () => { |x, y| x == y } }
all! {
 h_d_bool h_f_bool bool, 6, 1, false, vbool, e!(), false;
 h_d_boolean h_f_boolean Boolean, 6, 1, false, vbool, e!(), false;
 h_d_i8 h_f_i8 i8, 7, 2, false, ei!(i8), e!(), false;
 h_d_u8 h_f_u8 u8, 7, 2, false, ei!(u8), e!(), false;
 h_d_i16 h_f_i16 i16, 7, 2, false, ei!(i16), e!(), false;
 h_d_u32 h_f_u32 u32, 9, 2, false, ei!(u32), e!(), false;
 h_d_i64 h_f_i64 i64, 12, 2, false, ei!(i64), e!(), false;
 h_d_int h_f_int Integer, 8, 2, false, refm::int_minimal, e!(), false;
 h_d_null h_f_null Null, 6, 5, false, vnull, e!(), false;
 h_d_unit h_f_unit (), 6, 5, false, vnull, e!(), false;
 h_d_bits h_f_bits BitString, 8, 3, false, vbits, e!(), false;
 h_d_oct h_f_oct OctetString, 8, 4, false, voct, e!(), false;
 h_d_slice h_f_slice &[u8], 8, 4, false, voct, e!(), false;
 h_d_utf8 h_f_utf8 Utf8String, 7, 12, false, refm::utf8, e!(), false;
 h_d_str h_f_str &str, 7, 12, false, refm::utf8, e!(), false;
 h_d_string h_f_string String, 7, 12, false, refm::utf8, e!(), false;
 h_d_ia5 h_f_ia5 Ia5String, 7, 22, false, vascii, e!(), false;
 h_d_gen h_f_gen GeneralString, 7, 27, false, vascii, e!(), false;
 h_d_seq h_f_seq Sequence, 8, 16, true, any, e!(), false;
 h_d_set h_f_set Set, 8, 17, true, any, |x, y| refm::eq(x.as_ref(), y.as_ref()), false;
 h_d_vec h_f_vec Vec<u8>, 8, 16, true, any, e!(), true;
 h_d_seqof h_f_seqof SequenceOf<u8>, 8, 16, true, any, e!(), true;
 h_d_setof h_f_setof SetOf<u8>, 8, 17, true, any, e!(), true;
}
