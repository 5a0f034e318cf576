//! Restricted character strings: accepted exactly when every character is in the type's set.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

fn all(c: &[u8], f: fn(u8) -> bool) -> bool {
    let mut ok = true;
    let mut i = 0;
    while i < c.len() { ok &= f(c[i]); i += 1 }
    ok
}
fn numeric(b: u8) -> bool { b == 32 || b >= 48 && b <= 57 }
fn printable(b: u8) -> bool {
    b >= 65 && b <= 90 || b >= 97 && b <= 122 || b >= 48 && b <= 57 || b == 32 || b == 39 || b == 40 || b == 41 || b >= 43 && b <= 47 || b == 58 || b == 61 || b == 63
}
fn ascii(b: u8) -> bool { b < 128 }
fn visible(b: u8) -> bool { b >= 32 && b <= 126 }
fn graphic7(b: u8) -> bool { b >= 32 && b <= 127 }

use refm::utf8;
/// UTF-16BE without unpaired surrogates
fn utf16(c: &[u8]) -> bool {
    if c.len() % 2 != 0 { return false }
    let mut i = 0;
    while i < c.len() {
        let h = c[i];
        if h >= 0xd8 && h <= 0xdb {
            if i + 2 >= c.len() || c[i + 2] < 0xdc || c[i + 2] > 0xdf { return false }
            i += 4;
        } else if h >= 0xdc && h <= 0xdf { return false }
        else { i += 2 }
    }
    true
}
fn ucs4(c: &[u8]) -> bool {
    if c.len() % 4 != 0 { return false }
    let mut i = 0;
    while i < c.len() {
        let v = (c[i] as u32) << 24 | (c[i + 1] as u32) << 16 | (c[i + 2] as u32) << 8 | c[i + 3] as u32;
        if v > 0x10ffff || v >= 0xd800 && v <= 0xdfff { return false }
        i += 4;
    }
    true
}
/// code points of a valid UTF-8 / UTF-16BE / UCS-4 string
fn cps(kind: u8, c: &[u8]) -> Vec<u32> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let b = c[i] as u32;
        let at = |k: usize| c[i + k] as u32;
        match kind {
            0 => {
                if b < 0x80 { v.push(b); i += 1 }
                else if b < 0xe0 { v.push((b & 31) << 6 | at(1) & 63); i += 2 }
                else if b < 0xf0 { v.push((b & 15) << 12 | (at(1) & 63) << 6 | at(2) & 63); i += 3 }
                else { v.push((b & 7) << 18 | (at(1) & 63) << 12 | (at(2) & 63) << 6 | at(3) & 63); i += 4 }
            }
            1 => {
                let u = b << 8 | at(1);
                if u & 0xfc00 == 0xd800 { v.push(0x10000 + ((u & 0x3ff) << 10 | (at(2) << 8 | at(3)) & 0x3ff)); i += 4 }
                else { v.push(u); i += 2 }
            }
            _ => { v.push(b << 24 | at(1) << 16 | at(2) << 8 | at(3)); i += 4 }
        }
    }
    v
}
fn eq32(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0;
    let mut i = 0;
    while i < a.len() { d |= a[i] ^ b[i]; i += 1 }
    d == 0
}

macro_rules! rs { ($t:ty, $tag:literal, $n:literal, $valid:expr, $same:expr) => {{
    let c = bytes::<$n>();
    let n = clen(0, $n);
    let c = &c[..n];
    let b = refm::tlv($tag, c);
    let valid: bool = $valid(c);
    let same = $same;
    expect(&["ok", "err"]);
    cover(if valid { "ok" } else { "err" });
    check(<$t>::test_valid_charset(c).is_ok() == valid, "test_valid_charset");
    match <$t>::parse_ber(Input::from(&b)) {
        Ok((rem, v)) => {
            check(valid, "accepts an invalid string");
            check(rem.is_empty() && same(c, v.as_ref()), "characters");
            check(refm::eq(v.string().as_bytes(), v.as_ref().as_bytes()), "string()");
            match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &b), "DER re-encoding"), Err(_) => fail("to_der_vec") }
            match v.to_ber_vec() { Ok(w) => check(refm::eq(&w, &b), "BER re-encoding"), Err(_) => fail("to_ber_vec") }
            check(v.der_content_len() == Length::Definite(n) && v.ber_total_len() == Length::Definite(b.len()), "lengths");
        }
        Err(_) => check(!valid, "rejects a valid string"),
    }
    match <$t>::parse_der(Input::from(&b)) {
        Ok((rem, v)) => check(valid && rem.is_empty() && same(c, v.as_ref()), "DER"),
        Err(_) => check(!valid, "DER rejects a valid string"),
    }
    match <$t>::from_der(&b) {
        Ok((rem, v)) => check(valid && rem.is_empty() && same(c, v.as_ref()), "from_der"),
        Err(_) => check(!valid, "from_der rejects a valid string"),
    }
    match <$t>::from_ber(&b) {
        Ok((rem, v)) => check(valid && rem.is_empty() && same(c, v.as_ref()), "from_ber"),
        Err(_) => check(!valid, "from_ber rejects a valid string"),
    }
    // DER strings are primitive
    let mut k = b.clone();
    k[0] |= 0x20;
    check(<$t>::parse_der(Input::from(&k)).is_err() && <$t>::from_der(&k).is_err(), "DER accepts a constructed string");
    obs(n as u64);
}}}
fn raw(c: &[u8], s: &str) -> bool { refm::eq(c, s.as_bytes()) }
fn as16(c: &[u8], s: &str) -> bool { eq32(&cps(1, c), &cps(0, s.as_bytes())) }
fn as32(c: &[u8], s: &str) -> bool { eq32(&cps(2, c), &cps(0, s.as_bytes())) }
/// an arbitrary character, as its UTF-8 octets
fn anychar(out: &mut Vec<u8>) {
    let k = conc(len(1, 4));
    let a = bytes::<4>();
    assume(utf8(&a[..k]) && (k == 1 || a[0] >= 0xc0));
    assume(cps(0, &a[..k]).len() == 1);
    out.extend_from_slice(&a[..k]);
}
harness! {
    fn h_numeric() { rs!(NumericString, 18, 7, |c| all(c, numeric), raw) }
    fn h_printable() { rs!(PrintableString, 19, 4, |c| all(c, printable), raw) }
    fn h_ia5() { rs!(Ia5String, 22, 5, |c| all(c, ascii), raw) }
    fn h_visible() { rs!(VisibleString, 26, 5, |c| all(c, visible), raw) }
    fn h_general() { rs!(GeneralString, 27, 5, |c| all(c, ascii), raw) }
    fn h_graphic() { rs!(GraphicString, 25, 5, |c| all(c, ascii), raw) }
    fn h_teletex() { rs!(TeletexString, 20, 5, |c| all(c, graphic7), raw) }
    fn h_videotex() { rs!(VideotexString, 21, 5, |c| all(c, graphic7), raw) }
    fn h_objdesc() { rs!(ObjectDescriptor, 7, 5, |c| all(c, ascii), raw) }
    fn h_utf8() { rs!(Utf8String, 12, 6, utf8, raw) }
    fn h_bmp() { rs!(BmpString, 30, 7, utf16, as16) }
    fn h_universal() {
        // as rs!, without the charset test this type does not offer
        let c = bytes::<9>();
        let n = clen(0, 9);
        let c = &c[..n];
        let b = refm::tlv(28, c);
        let valid = ucs4(c);
        expect(&["ok", "err"]);
        cover(if valid { "ok" } else { "err" });
        match UniversalString::parse_ber(Input::from(&b)) {
            Ok((rem, v)) => {
                check(valid && rem.is_empty() && as32(c, v.as_ref()), "characters");
                match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &b), "DER re-encoding"), Err(_) => fail("to_der_vec") }
                check(v.der_content_len() == Length::Definite(n) && v.ber_total_len() == Length::Definite(b.len()), "lengths");
            }
            Err(_) => check(!valid, "rejects a valid string"),
        }
        match UniversalString::parse_der(Input::from(&b)) { Ok((_, v)) => check(valid && as32(c, v.as_ref()), "DER"), Err(_) => check(!valid, "DER rejects a valid string") }
        match UniversalString::from_der(&b) { Ok((_, v)) => check(valid && as32(c, v.as_ref()), "from_der"), Err(_) => check(!valid, "from_der rejects a valid string") }
        obs(n as u64);
    }
    /// str and String are UTF8String
    fn h_str() {
        let c = bytes::<5>();
        let n = clen(0, 5);
        let c = &c[..n];
        let b = refm::tlv(12, c);
        let valid = utf8(c);
        expect(&["ok", "err"]);
        cover(if valid { "ok" } else { "err" });
        match <&str>::parse_ber(Input::from(&b)) { Ok((r, v)) => { check(valid && r.is_empty() && raw(c, v), "&str"); match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &b), "&str re-encoding"), Err(_) => fail("&str to_der_vec") } } Err(_) => check(!valid, "&str rejects") }
        match <&str>::parse_der(Input::from(&b)) { Ok((r, v)) => check(valid && r.is_empty() && raw(c, v), "&str DER"), Err(_) => check(!valid, "&str DER rejects") }
        match String::parse_ber(Input::from(&b)) { Ok((r, v)) => { check(valid && r.is_empty() && raw(c, &v), "String"); match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &b), "String re-encoding"), Err(_) => fail("String to_der_vec") } } Err(_) => check(!valid, "String rejects") }
        match String::parse_der(Input::from(&b)) { Ok((r, v)) => check(valid && r.is_empty() && raw(c, &v), "String DER"), Err(_) => check(!valid, "String DER rejects") }
        match String::from_der(&b) { Ok((r, v)) => check(valid && r.is_empty() && raw(c, &v), "String from_der"), Err(_) => check(!valid, "String from_der rejects") }
    }
    /// any text is written and read back the same by the three Unicode types
    fn h_unicode_roundtrip() {
        let mut u = Vec::new();
        anychar(&mut u);
        anychar(&mut u);
        let s: &str = match core::str::from_utf8(&u) { Ok(s) => s, Err(_) => fail("std") };
        macro_rules! rt { ($t:ident) => {
            let v = $t::new(s);
            match v.to_der_vec() {
                Ok(w) => {
                    check(v.der_total_len() == Length::Definite(w.len()), concat!(stringify!($t), " length"));
                    match $t::parse_der(Input::from(&w)) { Ok((r, x)) => check(r.is_empty() && refm::eq(x.as_ref().as_bytes(), &u), concat!(stringify!($t), " round trip")), Err(_) => fail(concat!(stringify!($t), " cannot be read back")) }
                }
                Err(_) => fail("to_der_vec"),
            }
        } }
        rt!(Utf8String);
        rt!(BmpString);
        rt!(UniversalString);
        obs(u.len() as u64);
    }
}
