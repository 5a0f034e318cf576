//! BIT STRING: the bits read are the bits encoded, and only DER padding is accepted in DER.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

/// a BIT STRING content: unused bits then octets
fn valid(c: &[u8]) -> bool { c.len() > 0 && c[0] <= 7 && (c[0] == 0 || c.len() > 1) }
fn padded(c: &[u8]) -> bool { c.len() == 1 || c[0] == 0 || c[c.len() - 1] & ((1u16 << c[0]) - 1) as u8 == 0 }

fn same(v: &BitString, c: &[u8]) {
    let nbits = (c.len() - 1) * 8 - c[0] as usize;
    check(v.len() == nbits, "number of bits");
    check(v.is_empty() == (nbits == 0), "is_empty");
    check(v.as_bitslice().len() == nbits, "bit slice length");
    // an arbitrary bit, inside or not
    let i = len(0, 60);
    let want = i < nbits && c[1 + i / 8] & (0x80 >> (i % 8)) != 0;
    check(v.is_set(i) == want, "bit value");
    obs(nbits as u64);
}
harness! {
    fn h_ber() {
        let c = bytes::<5>();
        let n = clen(0, 5);
        let c = &c[..n];
        let b = refm::tlv(3, c);
        expect(&["ok", "err", "padding"]);
        match BitString::parse_ber(Input::from(&b)) {
            Ok((rem, v)) => {
                check(valid(c), "accepts an invalid bit string");
                cover("ok");
                if !padded(c) { cover("padding") }
                check(rem.is_empty(), "remainder");
                same(&v, c);
                // DER re-encoding: same bits, padding cleared
                let mut d = c.to_vec();
                if n > 1 { let l = n - 1; d[l] &= (0xffu16 << c[0]) as u8; }
                match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(3, &d)), "re-encoding"), Err(_) => fail("to_der_vec") }
                match v.to_ber_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(3, &d)), "BER re-encoding"), Err(_) => fail("to_ber_vec") }
                check(v.der_content_len() == Length::Definite(n) && v.ber_content_len() == Length::Definite(n), "content length");
            }
            Err(_) => { cover("err"); check(!valid(c), "rejects a valid bit string") }
        }
        match BitString::from_ber(&b) { Ok((_, v)) => { check(valid(c), "from_ber accepts"); same(&v, c) } Err(_) => check(!valid(c), "from_ber rejects") }
    }
    fn h_der() {
        let c = bytes::<6>();
        let n = clen(0, 6);
        let c = &c[..n];
        let b = refm::tlv(3, c);
        let der = valid(c) && padded(c);
        expect(&["ok", "err"]);
        match BitString::parse_der(Input::from(&b)) {
            Ok((rem, v)) => {
                cover("ok");
                check(der, "accepts a bit string with padding bits set, or an invalid one");
                check(rem.is_empty(), "remainder");
                same(&v, c);
                match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &b), "re-encoding is identical"), Err(_) => fail("to_der_vec") }
            }
            Err(_) => { cover("err"); check(!der, "rejects a DER bit string") }
        }
        match BitString::from_der(&b) { Ok((_, v)) => { check(der, "from_der accepts"); same(&v, c) } Err(_) => check(!der, "from_der rejects") }
        let mut k = b.clone();
        k[0] |= 0x20;
        check(BitString::parse_der(Input::from(&k)).is_err() && BitString::from_der(&k).is_err(), "DER accepts a constructed bit string");
    }
    /// built from octets and a number of unused bits
    fn h_new() {
        let a = bytes::<4>();
        let n = clen(0, 4);
        let u = if n == 0 { 0 } else { clen(0, 7) };
        let v = BitString::new(u as u8, &a[..n]);
        let mut c = Vec::new();
        c.push(u as u8);
        c.extend_from_slice(&a[..n]);
        same(&v, &c);
        if n > 0 { c[n] &= (0xffu16 << u) as u8; }
        match v.to_der_vec() {
            Ok(w) => {
                check(refm::eq(&w, &refm::tlv(3, &c)), "encoding");
                match BitString::parse_der(Input::from(&w)) { Ok((r, x)) => check(r.is_empty() && x == v, "round trip"), Err(_) => fail("round trip") }
            }
            Err(_) => fail("to_der_vec"),
        }
        if n == 0 { return }
        // changing bits through the mutable slice
        let k = clen(0, 31);
        assume(k < 8 * n - u);
        let mut v = v;
        let bit = boolean();
        v.as_mut_bitslice().set(k, bit);
        check(v.is_set(k) == bit, "set bit");
        c[1 + k / 8] = c[1 + k / 8] & !(0x80 >> (k % 8)) | if bit { 0x80 >> (k % 8) } else { 0 };
        match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(3, &c)), "encoding after a change"), Err(_) => fail("to_der_vec") }
    }
    /// from any sub-slice of bits
    fn h_slice() {
        let a = bytes::<3>();
        let v = BitString::new(0, &a);
        let s = clen(0, 24);
        let e = clen(0, 24);
        assume(s <= e);
        let w = BitString::from(&v.as_bitslice()[s..e]);
        check(w.len() == e - s, "length");
        let i = clen(0, 24);
        check(w.is_set(i) == (i < e - s && v.is_set(s + i)), "bits");
        match w.to_der_vec() {
            Ok(d) => match BitString::parse_der(Input::from(&d)) { Ok((_, x)) => check(x.len() == e - s && x.is_set(i) == w.is_set(i) && x == w, "round trip"), Err(_) => fail("round trip") },
            Err(_) => fail("to_der_vec"),
        }
    }
    /// two bit strings are equal exactly when they have the same bits
    fn h_eq() {
        let a = bytes::<3>();
        let b = bytes::<3>();
        let (n, m) = (clen(0, 3), clen(0, 3));
        let (u, w) = (if n == 0 { 0 } else { clen(0, 7) }, if m == 0 { 0 } else { clen(0, 7) });
        let x = BitString::new(u as u8, &a[..n]);
        let y = BitString::new(w as u8, &b[..m]);
        let mut s = n == m && u == w;
        if s {
            let mut i = 0;
            while i < n {
                let mask = if i == n - 1 { (0xffu16 << u) as u8 } else { 0xff };
                s &= (a[i] ^ b[i]) & mask == 0;
                i += 1;
            }
        }
        expect(&["same", "different"]);
        cover(if s { "same" } else { "different" });
        check((x == y) == s, "equality");
    }
}
