//! REAL: contents in, sign, mantissa, base and exponent out, and back.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

const TOP: [u64; 12] = [
    0, 1, 3, 0x80, 0xff, 0x100, 0x1_0001, 0x8000_0000, 0x1f_ffff_ffff_ffff, 0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000, 0xffff_ffff_ffff_ffff,
];
fn pow10(k: i32) -> f64 {
    let mut f = 1.0;
    let mut i = 0;
    while i < k { f *= 10.0; i += 1 }
    f
}
fn pow2(k: i64) -> f64 {
    let mut f = 1.0;
    let mut i = 0;
    while i < k { f *= 2.0; i += 1 }
    while i > k { f /= 2.0; i -= 1 }
    f
}
/// sign, base (2, 8, 16), scale, exponent, mantissa octets: start
struct Bin { neg: bool, base: u8, sf: u32, e: i64, mant: usize }
/// X.690 8.5.6 and 8.5.7; None: not a binary encoding, or more than 4 exponent octets
fn bin(c: &[u8]) -> Option<Bin> {
    let f = c[0];
    let base = match f >> 4 & 3 { 0 => 2, 1 => 8, 2 => 16, _ => return None };
    let (n, s) = match f & 3 {
        3 => { if c.len() < 2 { return None } (c[1] as usize, 2) }
        k => (k as usize + 1, 1),
    };
    if n == 0 || n > 4 || c.len() <= s + n { return None }
    let mut e: i64 = if c[s] >= 0x80 { -1 } else { 0 };
    let mut i = 0;
    while i < n { e = e << 8 | c[s + i] as i64; i += 1 }
    let e = match base { 8 => e * 3, 16 => e * 4, _ => e };
    if e > i32::MAX as i64 || e < i32::MIN as i64 { return None }
    Some(Bin { neg: f & 0x40 != 0, base, sf: (f >> 2 & 3) as u32, e, mant: s + n })
}
fn same(a: &Real, b: &Real) -> bool {
    match (a, b) {
        (Real::Binary { mantissa: m, base: b, exponent: e, enc_base: c }, Real::Binary { mantissa: n, base: d, exponent: f, enc_base: g }) =>
            m.to_bits() == n.to_bits() && b == d && e == f && c == g,
        (Real::Zero, Real::Zero) | (Real::NaN, Real::NaN) | (Real::Infinity, Real::Infinity) | (Real::NegInfinity, Real::NegInfinity) => true,
        _ => false,
    }
}
/// the result of decoding 09 len c, which every interface agrees on
fn decode(c: &[u8]) -> Option<Real> {
    let w = refm::tlv(9, c);
    let r = match Real::parse_ber(Input::from(&w)) {
        Ok((r, x)) => { check(r.is_empty(), "octets left over"); Some(x) }
        Err(_) => None,
    };
    let o = match Real::parse_der(Input::from(&w)) { Ok((_, x)) => Some(x), Err(_) => None };
    agree(&r, &o, "parse_der");
    let o = match Real::from_ber(&w) { Ok((_, x)) => Some(x), Err(_) => None };
    agree(&r, &o, "from_ber");
    let o = match Real::from_der(&w) { Ok((_, x)) => Some(x), Err(_) => None };
    agree(&r, &o, "from_der");
    r
}
fn agree(a: &Option<Real>, b: &Option<Real>, m: &'static str) {
    match (a, b) { (Some(a), Some(b)) => check(same(a, b), m), (None, None) => {} _ => fail(m) }
}
/// binary encoding with first octet `f`: k octets, then the mantissa m in l octets
fn binary(f: u8, k: usize, m: u64, l: usize) {
    let mut c = Vec::new();
    c.push(f);
    let mut i = 0;
    while i < k { c.push(byte()); i += 1 }
    if f & 3 == 3 && k > 0 { c[1] = conc(c[1] as usize) as u8 }
    i = l;
    while i > 0 { i -= 1; c.push(if i < 8 { (m >> (8 * i)) as u8 } else { 0 }) }
    let got = decode(&c);
    match bin(&c) {
        // the mantissa is bounded by the type: 8 octets
        Some(b) if c.len() - b.mant <= 8 => {
            cover("ok");
            let mut m = 0;
            let mut i = b.mant;
            while i < c.len() { m = m << 8 | c[i] as u64; i += 1 }
            let v = (m as f64) * pow2(b.sf as i64);
            let v = if b.neg { -v } else { v };
            match got {
                Some(Real::Binary { mantissa, base, exponent, enc_base }) => {
                    check(base == 2 && enc_base == b.base, "base");
                    check(exponent as i64 == b.e, "exponent");
                    check(mantissa == v, "mantissa");
                }
                _ => fail("valid binary encoding is not decoded"),
            }
        }
        _ => { cover("err"); check(got.is_none(), "malformed binary encoding is accepted") }
    }
    obs(0);
}
/// octets of the encoding of (-1)^neg * m * 2^e, m odd, in base 2, 8 or 16
fn enc(neg: bool, m: u64, e: i64, base: u8) -> Option<Vec<u8>> {
    let (sf, e) = match base {
        2 => (0, e),
        8 => { let mut q = e / 3; if q * 3 > e { q -= 1 } (e - 3 * q, q) }
        16 => (e & 3, e >> 2),
        _ => return None,
    };
    if e > i32::MAX as i64 || e < i32::MIN as i64 { return None }
    let n = if e == e as i8 as i64 { 1 } else if e == e as i16 as i64 { 2 } else if e == (e << 40) >> 40 { 3 } else { 4 };
    let mut c = Vec::new();
    c.push(0x80 | (neg as u8) << 6 | (match base { 2 => 0, 8 => 1, _ => 2 }) << 4 | (sf as u8) << 2 | (n as u8 - 1));
    if n == 4 { c.push(4) }
    let mut i = n;
    while i > 0 { i -= 1; c.push((e >> (8 * i)) as u8) }
    let mut k = 8;
    while k > 1 && m >> (8 * (k - 1)) == 0 { k -= 1 }
    while k > 0 { k -= 1; c.push((m >> (8 * k)) as u8) }
    Some(c)
}
fn written(r: &Real, want: &Option<Vec<u8>>) {
    match (r.to_der_vec(), want) {
        (Ok(w), Some(c)) => {
            check(refm::eq(&w, &refm::tlv(9, c)), "DER");
            check(r.to_der_len() == Ok(w.len()), "to_der_len");
            check(r.der_content_len() == Length::Definite(c.len()), "predicted contents length");
            check(r.ber_content_len() == Length::Definite(c.len()), "predicted contents length in BER");
            check(r.ber_total_len() == Length::Definite(w.len()), "predicted length");
            match r.to_ber_vec() { Ok(v) => check(refm::eq(&v, &w), "BER"), Err(_) => fail("to_ber_vec") }
        }
        (Err(_), None) => {}
        (Ok(_), None) => fail("a value that has no encoding is written"),
        (Err(_), Some(_)) => fail("a value is not written"),
    }
}
/// mantissas m and the odd integer and power of two they are
const MANT: [(f64, u64, i64); 14] = [
    (1.0, 1, 0), (2.0, 1, 1), (3.25, 13, -2), (12.0, 3, 2), (0.5, 1, -1), (255.0, 255, 0), (256.0, 1, 8), (65537.0, 65537, 0),
    (9007199254740991.0, 0x1f_ffff_ffff_ffff, 0), (18446744073709551616.0, 1, 64), (1e-300, 0, 0), (1.7976931348623157e308, 0x1f_ffff_ffff_ffff, 971),
    (5e-324, 1, -1074), (8.0, 1, 3),
];
/// every exponent, for one mantissa and encoding base
fn write(i: usize, base: u8, lo: i32, hi: i32) {
    let (m, mut odd, mut sh) = MANT[i];
    if odd == 0 {
        // from the bits of a normal number
        let b = m.to_bits();
        odd = b & 0xf_ffff_ffff_ffff | 0x10_0000_0000_0000;
        sh = (b >> 52 & 0x7ff) as i64 - 1075;
        while odd & 1 == 0 { odd >>= 1; sh += 1 }
    }
    let neg = conc(boolean() as usize) == 1;
    let e = u32() as i32;
    assume(e >= lo && e <= hi);
    let r = Real::binary(if neg { -m } else { m }, 2, e).with_enc_base(base);
    let want = enc(neg, odd, e as i64 + sh, base);
    written(&r, &want);
    if let Some(c) = want {
        // reads back as the same value: odd mantissa times 2^scale
        let (f, x) = (c[0], bin(&c));
        match (decode(&c), x) {
            (Some(Real::Binary { mantissa, base: b2, exponent, enc_base }), Some(_)) => {
                check(b2 == 2 && enc_base == base, "base read back");
                let v = (odd as f64) * pow2((f >> 2 & 3) as i64);
                check(mantissa == if neg { -v } else { v }, "mantissa read back");
                check(exponent as i64 + (f >> 2 & 3) as i64 == e as i64 + sh, "exponent read back");
            }
            // bases 8 and 16: exponents out of the range of the type
            (None, None) => check(base != 2, "not read back"),
            _ => fail("read back"),
        }
    }
    obs(1);
}
harness! {
    /// every first octet and every two octets of length or exponent
    fn h_binary() { expect(&["ok", "err"]); let f = 128 + clen(0, 127) as u8; let k = clen(0, 2); let m = clen(0, 1); binary(f, k, 0x1_0001, 3 * m); }
    /// up to four octets of exponent
    fn h_exponent() {
        expect(&["ok", "err"]);
        let f = [0x82u8, 0xd6, 0xa2, 0x83, 0xc3, 0x97, 0xab][clen(0, 6)];
        let k = clen(3, 5);
        binary(f, k, 5, 1);
    }
    /// mantissas at the edges, with 1 to 9 octets
    fn h_mantissa() {
        expect(&["ok", "err"]);
        let f = [0x80u8, 0xc0, 0x8c, 0xdc, 0xe8][clen(0, 4)];
        let m = TOP[clen(0, 11)];
        let l = clen(0, 9);
        binary(f, 1, m, l);
    }
    /// every mantissa of up to two octets
    fn h_mantissa_any() {
        let f = [0x80u8, 0xc4][clen(0, 1)];
        let l = clen(1, 2);
        let m = u16();
        binary(f, 1, m as u64, l);
    }
    /// special values, reserved forms and empty contents
    fn h_special() {
        let f = byte();
        assume(f < 0x80 && f & 0x3f != 1 && f & 0x3f != 2 && f & 0x3f != 3 || f & 0xc0 == 0x40);
        let n = clen(0, 3);
        let mut c = Vec::new();
        c.push(f); c.push(byte()); c.push(byte());
        c.truncate(n);
        expect(&["zero", "special", "err"]);
        let got = decode(&c);
        if n == 0 { cover("zero"); check(matches!(got, Some(Real::Zero)), "no contents: zero") }
        else if n == 1 && f >= 0x40 && f <= 0x42 {
            cover("special");
            let ok = match got { Some(Real::Infinity) => f == 0x40, Some(Real::NegInfinity) => f == 0x41, Some(Real::NaN) => f == 0x42, _ => false };
            check(ok, "special value");
        } else if n > 1 && f == 0x40 || f == 0x41 || f == 0x42 { check(got.is_none(), "special values have one octet") }
        else {
            cover("err");
            // 43: minus zero, which the library does not read
            check(got.is_none(), "reserved form is accepted");
        }
        if f == 0x43 && n == 1 { obs(2) } else { obs(n as u64) }
    }
    fn h_write_2() { write(clen(0, 13), 2, i32::MIN, i32::MAX) }
    fn h_write_8() { write(clen(0, 13), 8, -700, 700) }
    fn t_write_8() { write(clen(0, 13), 8, i32::MIN, i32::MAX) }
    fn h_write_16() { write(clen(0, 13), 16, i32::MIN, i32::MAX) }
    /// every encoding base and base: 2, 8 and 16, else an error
    fn h_write_base() {
        let (b, e) = (byte(), u32());
        assume(e != 10);
        let r = Real::binary(3.0, e, 7).with_enc_base(b);
        expect(&["ok"]);
        let want = if e == 2 { let c = enc(false, 3, 7, b); cover("ok"); c } else { None };
        written(&r, &want);
        obs(b as u64);
    }
    /// special values, zero mantissas, mantissas that are not numbers
    fn h_write_special() {
        let k = clen(0, 8);
        let (m, c): (Real, Option<&[u8]>) = match k {
            0 => (Real::Zero, Some(&[])),
            1 => (Real::Infinity, Some(&[0x40])),
            2 => (Real::NegInfinity, Some(&[0x41])),
            3 => (Real::NaN, Some(&[0x42])),
            4 => (Real::binary(0.0, 2, u32() as i32), Some(&[])),
            5 => (Real::binary(-0.0, 2, u32() as i32), Some(&[])),
            6 => (Real::binary(f64::INFINITY, 2, u32() as i32), None),
            7 => (Real::binary(f64::NEG_INFINITY, 2, u32() as i32), None),
            _ => (Real::binary(f64::NAN, 2, u32() as i32), None),
        };
        match c {
            Some(c) => { let c = c.to_vec(); written(&m, &Some(c)) }
            None => check(m.to_der_vec().is_err() && m.to_ber_vec().is_err(), "a value that is no number is written"),
        }
        obs(k as u64);
    }
    /// NR1, NR2 and NR3 texts of up to three characters
    fn h_text() {
        let f = 1 + clen(0, 2) as u8;
        let n = clen(0, 3);
        let b: [u8; 3] = bytes();
        text(f, &b[..n]);
    }
    /// every four characters of numbers
    fn h_text_4() {
        let f = 1 + clen(0, 2) as u8;
        let b: [u8; 4] = bytes();
        let mut i = 0;
        while i < 4 { assume(b[i].is_ascii_digit() && (i == 0 || b[i] < b'3') || matches!(b[i], b'+' | b'-' | b'.' | b'E')); i += 1 }
        text(f, &b);
    }
    /// decimal values are written as NR3 text that reads back as the same value
    fn h_write_decimal() {
        let m = [1.0, -1.0, 7.0, 15.0, -314.0, 1234567.0, 123456789012345.0][clen(0, 6)];
        let e = clen(0, 40) as i32 - 20;
        let r = Real::Binary { mantissa: m, base: 10, exponent: e, enc_base: 10 };
        let w = match r.to_der_vec() { Ok(w) => w, Err(_) => fail("a decimal is not written") };
        let c = &w[2..];
        check(w[0] == 9 && w[1] as usize == c.len() && c[0] == 3, "NR3");
        check(r.ber_total_len() == Length::Definite(w.len()) && r.der_content_len() == Length::Definite(c.len()), "predicted length");
        match decode(&c.to_vec()) {
            Some(Real::Binary { mantissa, base, exponent, .. }) => {
                check(base == 10, "base read back");
                // integers above 2^53 may not have this shortest form
                if e <= 0 || m.abs() * pow10(e) < 9e15 { check(mantissa == m && exponent == e, "value read back") }
            }
            _ => fail("read back"),
        }
        obs(e as u64);
    }
    /// text with a character that no number has
    fn h_words() {
        let f = 1 + clen(0, 2) as u8;
        let n = clen(1, 4);
        let b: [u8; 4] = bytes();
        let k = clen(0, 3);
        assume(k < n);
        assume(!(b[k].is_ascii_digit() || matches!(b[k], b'+' | b'-' | b'.' | b'e' | b'E' | b',' | b' ')));
        let mut c = Vec::new();
        c.push(f);
        let mut i = 0;
        while i < n { c.push(b[i]); i += 1 }
        check(decode(&c).is_none(), "text that is no number is accepted");
        obs(k as u64);
    }
    /// X.690 11.3.1: base 2, odd mantissa, no scale factor, shortest exponent in DER
    fn k_der_form() {
        for c in [&[0x90u8, 0, 1][..], &[0x80, 0, 2], &[0x84, 0, 1], &[0x81, 0, 1, 1]] {
            check(Real::from_der(&refm::tlv(9, c)).is_err(), "DER accepts another form of a REAL");
        }
    }
    /// X.690 11.3.2: the mantissa of decimal REAL ends with a full stop in DER
    fn k_nr3() {
        match Real::new(0.5).to_der_vec() { Ok(w) => check(refm::eq(&w, b"\x09\x06\x035.E-1"), "NR3 form"), Err(_) => fail("not written") }
    }
    /// X.690 8.5.9: minus zero
    fn k_minus_zero() { check(Real::from_ber(&[9, 1, 0x43]).is_ok(), "minus zero is refused") }
    /// f64() and f32() round m * 2^e as the hardware does
    fn h_f64() {
        let i = clen(0, 13);
        let (m, _, _) = MANT[i];
        assume(m >= 1.0 && m < 1e20);
        let e = [0i64, 1, -1, 52, 255, 256, -255, -256, -1000, -1022, -1074, -1075, -1138, -1139, -2000, 959, 971, 1023, 1024, 2000][clen(0, 19)];
        let r = Real::binary(m, 2, e as i32);
        let mut v = m;
        if e > 0 { v *= pow2(e.min(1000)); v *= pow2(e - e.min(1000)) }
        if e < 0 {
            // m * 2^-900 is exact, the second product is rounded once
            v *= pow2(e.max(-900));
            v *= pow2(e - e.max(-900));
        }
        check(r.f64().to_bits() == v.to_bits(), "f64");
        check(r.f32().to_bits() == (v as f32).to_bits(), "f32");
        check(f64::from(r).to_bits() == v.to_bits(), "From");
        obs(3);
    }
}
fn text(f: u8, s: &[u8]) {
    let mut c = Vec::new();
    c.push(f);
    let mut i = 0;
    // numbers: one path each (floating point reasoning is slow)
    while i < s.len() { c.push(if s[i] >= b'+' && s[i] <= b'9' { conc(s[i] as usize) as u8 } else { s[i] }); i += 1 }
    let s = &c[1..];
    let got = decode(&c);
    // sign, digits, fraction, exponent (ISO 6093, without spaces and commas)
    let (neg, d) = match s { [b'-', d @ ..] => (true, d), [b'+', d @ ..] => (false, d), d => (false, d) };
    let (mut m, mut x, mut nd, mut point) = (0i64, 0i64, 0, false);
    let mut i = 0;
    while i < d.len() {
        if d[i] == b'.' && !point && f > 1 { point = true }
        else if d[i].is_ascii_digit() { m = m * 10 + (d[i] - b'0') as i64; nd += 1; if point { x -= 1 } }
        else { break }
        i += 1;
    }
    let mut valid = nd > 0;
    let mut maybe = false;
    if i < d.len() && valid && (d[i] | 32) == b'e' {
        // an exponent; NR2 has none, but the library reads one
        maybe = f == 2;
        let e = &d[i + 1..];
        let (en, e) = match e { [b'-', e @ ..] => (true, e), [b'+', e @ ..] => (false, e), e => (false, e) };
        let mut k = 0;
        let mut v = 0;
        while k < e.len() && e[k].is_ascii_digit() { v = v * 10 + (e[k] - b'0') as i64; k += 1 }
        valid = f > 1 && k > 0 && k == e.len();
        x += if en { -v } else { v };
    } else if i < d.len() { valid = false }
    if valid && m == 0 { check(matches!(got, Some(Real::Zero)) || maybe && got.is_none(), "zero") }
    else if valid {
        while m % 10 == 0 { m /= 10; x += 1 }
        match got {
            // integers beyond 2^53 are not brought to their shortest form
            Some(Real::Binary { mantissa, base, exponent, .. }) => {
                check(base == 10, "base");
                if x <= 18 && x > -300 {
                    check(exponent as i64 == x, "exponent of a decimal");
                    check(mantissa == if neg { -(m as f64) } else { m as f64 }, "mantissa of a decimal");
                } else {
                    check((mantissa < 0.0) == neg, "sign of a decimal");
                }
            }
            Some(Real::Infinity) => check(!neg && x > 300, "infinite"),
            Some(Real::NegInfinity) => check(neg && x > 300, "infinite"),
            Some(Real::Zero) => check(x < -300, "too small"),
            _ => check(maybe, "valid text is not decoded"),
        }
    } else { check(got.is_none(), "text that is no number is accepted") }
    obs(f as u64);
}
