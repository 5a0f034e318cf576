//! Reading an INTEGER or ENUMERATED gives exactly the encoded number, or fails.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
use core::convert::TryFrom;

/// content octets of `b` = 02 len content, as the reference sees them; value only when at most 16 octets
fn fits(c: &[u8], lo: i128, hi: u128) -> bool {
    // drop redundant leading octets
    let mut c = c;
    while c.len() > 16 {
        if c[0] == 0 && c[1] < 0x80 || c[0] == 0xff && c[1] >= 0x80 {
            c = &c[1..];
        } else if c.len() == 17 && c[0] == 0 {
            // a 128-bit unsigned number
            return hi == u128::MAX;
        } else {
            return false;
        }
    }
    let v = refm::int_value(c);
    if v < 0 { v >= lo } else { v as u128 <= hi }
}
/// v (given as sign and 128-bit pattern) is the number c encodes; fits(c) was checked
fn is(c: &[u8], v: u128) -> bool {
    let mut x: u128 = if c[0] >= 0x80 { u128::MAX } else { 0 };
    let mut i = 0;
    while i < c.len() {
        x = x << 8 | c[i] as u128;
        i += 1;
    }
    x == v
}

macro_rules! dec { ($t:ty, $tag:literal, $n:literal, $conv:expr, $minder:expr) => {{
    let c = bytes::<$n>();
    let n = clen(0, $n);
    let c = &c[..n];
    let b = refm::tlv($tag, c);
    let range = n > 0 && fits(c, <$t>::MIN as i128, <$t>::MAX as u128);
    let minimal = refm::int_minimal(c);
    expect(&["ok", "err", "non-minimal"]);
    let conv = $conv;
    // BER: exact, and complete for shortest encodings
    match BerParser::parse_ber(Input::from(&b)) {
        Ok((rem, v)) => {
            cover("ok");
            check(rem.is_empty(), "remainder");
            let v: $t = conv(v);
            check(range, "accepts a number out of range (or an empty encoding)");
            check(is(c, v as i128 as u128), "value");
            if !minimal { cover("non-minimal") }
            obs(v as u64);
        }
        Err(_) => { cover("err"); check(!(minimal && range), "rejects a shortest encoding of a number in range") }
    }
    match FromBer::from_ber(&b) {
        Ok((rem, v)) => { let _: &[u8] = rem; let v: $t = conv(v); check(rem.is_empty() && range && is(c, v as i128 as u128), "from_ber value") }
        Err(e) => { let _: Err<Error> = e; check(!(minimal && range), "from_ber rejects") }
    }
    // DER: exactly the shortest encodings
    match DerParser::parse_der(Input::from(&b)) {
        Ok((rem, v)) => {
            let v: $t = conv(v);
            check(rem.is_empty(), "remainder");
            check(range && is(c, v as i128 as u128), "DER value");
            check(minimal, "DER accepts a longer encoding");
        }
        Err(_) => check(!(minimal && range), "DER rejects a shortest encoding of a number in range"),
    }
    match FromDer::from_der(&b) {
        Ok((rem, v)) => {
            let _: &[u8] = rem;
            let v: $t = conv(v);
            check(rem.is_empty() && range && is(c, v as i128 as u128), "from_der value");
            if $minder { check(minimal, "from_der accepts a longer encoding") }
        }
        Err(e) => { let _: Err<Error> = e; check(!(minimal && range), "from_der rejects") }
    }
}}}
/// conversions of an `Integer` to a native integer, through its raw bytes
macro_rules! conv { ($t:ty, $n:literal, $as:ident) => {{
    let c = bytes::<$n>();
    let n = clen(0, $n);
    let c = &c[..n];
    let range = n > 0 && fits(c, <$t>::MIN as i128, <$t>::MAX as u128);
    let minimal = refm::int_minimal(c);
    expect(&["ok", "err"]);
    let i = Integer::new(c);
    match i.$as() {
        Ok(v) => { cover("ok"); check(range && is(c, v as i128 as u128), "value"); obs(v as u64) }
        Err(_) => { cover("err"); check(!(minimal && range), "rejects a number in range") }
    }
    match <$t>::try_from(i) {
        Ok(v) => check(range && is(c, v as i128 as u128), "try_from value"),
        Err(_) => check(!(minimal && range), "try_from rejects a number in range"),
    }
}}}
fn id<T>(v: T) -> T { v }
fn en(v: Enumerated) -> u32 { v.0 }

harness! {
    fn h_i8() { dec!(i8, 0x02, 5, id, true) }
    fn h_i16() { dec!(i16, 0x02, 5, id, true) }
    fn h_i32() { dec!(i32, 0x02, 7, id, true) }
    fn h_i64() { dec!(i64, 0x02, 11, id, true) }
    fn h_isize() { dec!(isize, 0x02, 11, id, true) }
    fn h_i128() { dec!(i128, 0x02, 18, id, true) }
    fn h_u8() { dec!(u8, 0x02, 5, id, true) }
    fn h_u16() { dec!(u16, 0x02, 5, id, true) }
    fn h_u32() { dec!(u32, 0x02, 7, id, true) }
    fn h_u64() { dec!(u64, 0x02, 11, id, true) }
    fn h_usize() { dec!(usize, 0x02, 11, id, true) }
    fn h_u128() { dec!(u128, 0x02, 19, id, true) }
    fn h_enum() { dec!(u32, 0x0a, 7, en, false) }
    fn h_as_i8() { conv!(i8, 4, as_i8) }
    fn h_as_i16() { conv!(i16, 5, as_i16) }
    fn h_as_i32() { conv!(i32, 7, as_i32) }
    fn h_as_i64() { conv!(i64, 10, as_i64) }
    fn h_as_isize() { conv!(isize, 10, as_isize) }
    fn h_as_i128() { conv!(i128, 18, as_i128) }
    fn h_as_u8() { conv!(u8, 4, as_u8) }
    fn h_as_u16() { conv!(u16, 5, as_u16) }
    fn h_as_u32() { conv!(u32, 7, as_u32) }
    fn h_as_u64() { conv!(u64, 10, as_u64) }
    fn h_as_usize() { conv!(usize, 10, as_usize) }
    fn h_as_u128() { conv!(u128, 18, as_u128) }
    /// Integer keeps the content octets as they are
    fn h_raw() {
        let c = bytes::<12>();
        let n = clen(0, 12);
        let c = &c[..n];
        let b = refm::tlv(2, c);
        let minimal = refm::int_minimal(c);
        expect(&["ok", "err"]);
        match Integer::parse_ber(Input::from(&b)) {
            Ok((rem, v)) => {
                cover("ok");
                check(rem.is_empty() && n > 0, "empty");
                check(refm::eq(v.as_ref(), c), "content octets");
                match v.as_raw_slice() { Some(s) => check(s.len() == n, "raw slice"), None => fail("raw slice") }
                check(v.any().as_bytes().len() == n, "any");
            }
            Err(_) => { cover("err"); check(n == 0, "rejects an integer") }
        }
        match Integer::parse_der(Input::from(&b)) {
            Ok((rem, v)) => check(rem.is_empty() && minimal && refm::eq(v.as_ref(), c), "DER"),
            Err(_) => check(!minimal, "DER rejects a shortest integer"),
        }
        match Integer::from_der(&b) {
            Ok((rem, v)) => check(rem.is_empty() && minimal && refm::eq(v.as_ref(), c), "from_der"),
            Err(_) => check(!minimal, "from_der rejects a shortest integer"),
        }
        match Integer::from_ber(&b) {
            Ok((rem, v)) => check(rem.is_empty() && n > 0 && refm::eq(v.as_ref(), c), "from_ber"),
            Err(_) => check(n == 0, "from_ber rejects an integer"),
        }
    }
    fn h_bigint() {
        let c = bytes::<6>();
        let n = clen(1, 6);
        let c = &c[..n];
        let i = Integer::new(c);
        let v = refm::int_value(c);
        let m = (if v < 0 { -v } else { v }) as u64;
        let b = i.as_bigint();
        let (s, mag) = b.to_u64_digits();
        check(match s { Sign::Minus => v < 0, Sign::Plus => v > 0, Sign::NoSign => v == 0 }, "sign");
        check(match mag.len() { 0 => m == 0, 1 => mag[0] == m, _ => false }, "magnitude");
        match i.as_biguint() {
            Ok(u) => {
                check(v >= 0, "biguint of a negative number");
                let d = u.to_u64_digits();
                check(match d.len() { 0 => m == 0, 1 => d[0] == m, _ => false }, "biguint");
            }
            Err(_) => check(v < 0, "biguint rejects a non-negative number"),
        }
        obs(m);
    }
}
