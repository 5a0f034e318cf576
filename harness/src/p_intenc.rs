//! Writing an integer gives its shortest encoding, and reads back.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
use core::convert::TryFrom;

/// shortest two's complement octets of the number with this sign and 128-bit pattern
fn want(neg: bool, v: u128) -> Vec<u8> {
    if !neg && v > i128::MAX as u128 {
        let mut o = Vec::new();
        o.push(0);
        o.extend_from_slice(&v.to_be_bytes());
        o
    } else {
        refm::enc_int(v as i128)
    }
}
macro_rules! enc { ($t:ty, $src:expr, $from:ident) => {{
    let v = $src as $t;
    #[allow(unused_comparisons)]
    let c = want(v < 0, v as i128 as u128);
    let w = refm::tlv(2, &c);
    obs(c.len() as u64);
    let i = Integer::$from(v);
    check(refm::eq(i.as_ref(), &c), "Integer from a native integer");
    check(refm::eq(Integer::from(v).as_ref(), &c), "From");
    match <$t>::try_from(i.clone()) { Ok(x) => check(x == v, "Integer back to native"), Err(_) => fail("Integer back to native") }
    match v.to_ber_vec() { Ok(b) => check(refm::eq(&b, &w), "BER octets"), Err(_) => fail("to_ber_vec") }
    match v.to_der_vec() {
        Ok(b) => {
            check(refm::eq(&b, &w), "DER octets");
            match <$t>::parse_der(Input::from(&b)) { Ok((r, x)) => check(r.is_empty() && x == v, "DER round trip"), Err(_) => fail("DER round trip") }
            match <$t>::parse_ber(Input::from(&b)) { Ok((r, x)) => check(r.is_empty() && x == v, "BER round trip"), Err(_) => fail("BER round trip") }
        }
        Err(_) => fail("to_der_vec"),
    }
    match i.to_der_vec() { Ok(b) => check(refm::eq(&b, &w), "DER octets of Integer"), Err(_) => fail("to_der_vec of Integer") }
    check(v.ber_content_len() == Length::Definite(c.len()) && v.der_content_len() == Length::Definite(c.len()), "content length");
    check(v.ber_total_len() == Length::Definite(w.len()) && v.der_total_len() == Length::Definite(w.len()), "total length");
}}}
harness! {
    fn h_i8() { enc!(i8, byte(), from_i8) }
    fn h_i16() { enc!(i16, u16(), from_i16) }
    fn h_i32() { enc!(i32, u32(), from_i32) }
    fn h_i64() { enc!(i64, u64(), from_i64) }
    fn h_isize() { enc!(isize, u64(), from_isize) }
    fn h_i128() { enc!(i128, u128(), from_i128) }
    fn h_u8() { enc!(u8, byte(), from_u8) }
    fn h_u16() { enc!(u16, u16(), from_u16) }
    fn h_u32() { enc!(u32, u32(), from_u32) }
    fn h_u64() { enc!(u64, u64(), from_u64) }
    fn h_usize() { enc!(usize, u64(), from_usize) }
    fn h_u128() { enc!(u128, u128(), from_u128) }
    fn h_enum() {
        let v = u32();
        let c = refm::enc_int(v as i128);
        let w = refm::tlv(0x0a, &c);
        let e = Enumerated::new(v);
        match (e.to_ber_vec(), e.to_der_vec()) {
            (Ok(a), Ok(b)) => {
                check(refm::eq(&a, &w) && refm::eq(&b, &w), "octets");
                match Enumerated::parse_der(Input::from(&b)) { Ok((r, x)) => check(r.is_empty() && x == e, "round trip"), Err(_) => fail("round trip") }
                match Enumerated::from_der(&b) { Ok((r, x)) => check(r.is_empty() && x == e, "round trip (from_der)"), Err(_) => fail("round trip") }
            }
            _ => fail("encode"),
        }
        check(e.ber_content_len() == Length::Definite(c.len()) && e.der_total_len() == Length::Definite(w.len()), "lengths");
        obs(c.len() as u64);
    }
    fn h_bool() {
        let v = boolean();
        let w = refm::tlv(1, &[if v { 0xff } else { 0 }]);
        match (v.to_ber_vec(), v.to_der_vec(), Boolean::new(if v { 0xff } else { 0 }).to_der_vec()) {
            (Ok(a), Ok(b), Ok(c)) => {
                check(refm::eq(&a, &w) && refm::eq(&b, &w) && refm::eq(&c, &w), "octets");
                match bool::parse_der(Input::from(&b)) { Ok((r, x)) => check(r.is_empty() && x == v, "round trip"), Err(_) => fail("round trip") }
            }
            _ => fail("encode"),
        }
    }
    /// const arrays: the number is taken as unsigned
    fn h_const_array() {
        let a = bytes::<9>();
        let i = Integer::from_const_array(a);
        let mut v: u128 = 0;
        let mut k = 0;
        while k < 9 { v = v << 8 | a[k] as u128; k += 1 }
        check(refm::eq(i.as_ref(), &want(false, v)), "from_const_array");
        obs(i.as_ref().len() as u64);
    }
}
