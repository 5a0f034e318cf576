//! OBJECT IDENTIFIER and RELATIVE-OID: arcs in, octets out, and back.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

/// base-128 octets of one arc (X.690 8.19.2)
fn arc(out: &mut Vec<u8>, v: u64) {
    let mut k = 1;
    while k < 10 && v >> (7 * k) != 0 { k += 1 }
    while k > 1 { k -= 1; out.push(0x80 | (v >> (7 * k) & 0x7f) as u8) }
    out.push((v & 0x7f) as u8);
}
/// arcs of well-formed octets: no arc starts with 0x80, the last octet ends an arc
fn wellformed(c: &[u8]) -> bool {
    let mut start = true;
    let mut i = 0;
    while i < c.len() {
        if start && c[i] == 0x80 { return false }
        start = c[i] < 0x80;
        i += 1;
    }
    start && c.len() > 0
}
/// None when an arc does not fit 64 bits
fn arcs(c: &[u8]) -> Option<Vec<u64>> {
    let mut v = Vec::new();
    let mut a: u64 = 0;
    let mut i = 0;
    while i < c.len() {
        if a >> 57 != 0 { return None }
        a = a << 7 | (c[i] & 0x7f) as u64;
        if c[i] < 0x80 { v.push(a); a = 0 }
        i += 1;
    }
    Some(v)
}
fn same_arcs<I: Iterator<Item = u64> + ExactSizeIterator>(mut it: I, want: &[u64]) {
    let mut i = 0;
    loop {
        check(it.len() == want.len() - i, "exact number of arcs left");
        let (lo, hi) = it.size_hint();
        check(lo == want.len() - i && hi == Some(lo), "size_hint");
        match it.next() {
            Some(a) => { check(i < want.len(), "too many arcs"); check(a == want[i], "arc value"); i += 1 }
            None => break,
        }
    }
    check(i == want.len(), "too few arcs");
    check(it.next().is_none(), "iteration is over for good");
}
macro_rules! from_arcs { ($n:literal, $arc:expr) => {{
    // 2 + up to $n arcs
    let (a, b) = (byte(), byte());
    assume(a <= 2 && b < 40 && (a, b) != (0, 0));
    let n = clen(0, $n);
    let mut v = Vec::new();
    v.push(a as u64);
    v.push(b as u64);
    let mut c = Vec::new();
    c.push(40 * a + b);
    let mut i = 0;
    while i < n { let x: u64 = $arc; v.push(x); arc(&mut c, x); i += 1 }
    let o = match Oid::from(&v) { Ok(o) => o, Err(_) => fail("arcs are rejected") };
    check(refm::eq(o.as_bytes(), &c), "octets");
    match o.to_der_vec() {
        Ok(w) => {
            check(refm::eq(&w, &refm::tlv(6, &c)), "DER");
            match Oid::parse_der(Input::from(&w)) { Ok((r, x)) => check(r.is_empty() && x == o, "round trip"), Err(_) => fail("round trip") }
        }
        Err(_) => fail("to_der_vec"),
    }
    match o.iter() { Some(it) => same_arcs(it, &v), None => fail("arcs that fit 64 bits are not given back") }
    obs(c.len() as u64);
}}}
harness! {
    fn h_from_1() { from_arcs!(1, u64()) }
    fn h_from_3() { from_arcs!(3, u16() as u64) }
    /// other leading arcs are refused, never truncated
    fn h_from_reject() {
        let (a, b) = (u64(), u64());
        let n = clen(0, 3);
        let v = [a, b, 5];
        expect(&["ok", "err"]);
        match Oid::from(&v[..n]) {
            Ok(o) => {
                cover("ok");
                // a single 0 is accepted for the identifier 0
                if n < 2 { check(n == 1 && a == 0 && refm::eq(o.as_bytes(), &[0]), "too few arcs") }
                else {
                    check(a < 7 && b < 40, "arcs out of range");
                    check(o.as_bytes().len() == n - 1 && o.as_bytes()[0] as u64 == 40 * a + b && o.as_bytes()[0] < 128, "first octet");
                }
            }
            Err(_) => { cover("err"); check(n < 2 || !(a <= 2 && b < 40), "valid arcs are rejected") }
        }
    }
    fn h_relative() {
        let n = clen(0, 3);
        let mut v = Vec::new();
        let mut c = Vec::new();
        let mut i = 0;
        while i < n { let x = u32() as u64; v.push(x); arc(&mut c, x); i += 1 }
        match Oid::from_relative(&v) {
            Ok(o) => {
                check(n > 0, "empty relative identifier");
                check(refm::eq(o.as_bytes(), &c), "octets");
                match o.iter() { Some(it) => same_arcs(it, &v), None => fail("arcs are not given back") }
                match o.to_der_vec() {
                    Ok(w) => {
                        check(refm::eq(&w, &refm::tlv(13, &c)), "DER");
                        match Oid::parse_der(Input::from(&w)) { Ok((r, x)) => check(r.is_empty() && x == o, "round trip"), Err(_) => fail("round trip") }
                        match Oid::parse_ber(Input::from(&w)) { Ok((r, x)) => check(r.is_empty() && x == o, "BER round trip"), Err(_) => fail("round trip") }
                        match Oid::from_der(&w) { Ok((r, x)) => check(r.is_empty() && x == o, "from_der round trip"), Err(_) => fail("round trip") }
                        match Oid::from_der_relative(&w) { Ok((r, x)) => check(r.is_empty() && x == o, "from_der_relative round trip"), Err(_) => fail("round trip") }
                        match Oid::from_ber_relative(&w) { Ok((r, x)) => check(r.is_empty() && x == o, "from_ber_relative round trip"), Err(_) => fail("round trip") }
                    }
                    Err(_) => fail("to_der_vec"),
                }
                match o.to_ber_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(13, &c)), "BER"), Err(_) => fail("to_ber_vec") }
            }
            Err(_) => check(n == 0, "arcs are rejected"),
        }
    }
    /// any well-formed content: kept as is, and read as the arcs it encodes
    fn h_read() {
        let c = bytes::<5>();
        let n = clen(0, 5);
        let c = &c[..n];
        let b = refm::tlv(6, c);
        expect(&["ok", "err"]);
        match Oid::parse_ber(Input::from(&b)) {
            Ok((rem, o)) => {
                cover("ok");
                check(n > 0 && rem.is_empty() && refm::eq(o.as_bytes(), c), "octets");
                match o.to_der_vec() { Ok(w) => check(refm::eq(&w, &b), "re-encoding"), Err(_) => fail("to_der_vec") }
                // leading arcs 2.48 and above are a known finding, 0.0 another one
                if wellformed(c) && c[0] < 0x80 && !(n == 1 && c[0] == 0) {
                    let mut want = arcs(c).unwrap();
                    let f = want.remove(0);
                    let k = if f < 40 { 0 } else if f < 80 { 1 } else { 2 };
                    if f - 40 * k < 40 {
                        want.insert(0, f - 40 * k);
                        want.insert(0, k);
                        match o.iter() { Some(it) => same_arcs(it, &want), None => fail("arcs that fit 64 bits are not given back") }
                    }
                }
            }
            Err(_) => { cover("err"); check(n == 0, "rejects an identifier") }
        }
        match Oid::parse_der(Input::from(&b)) {
            Ok((_, o)) => check(n > 0 && refm::eq(o.as_bytes(), c), "DER octets"),
            Err(_) => check(!(wellformed(c)), "DER rejects an identifier"),
        }
    }
    /// arcs around 64 bits
    fn h_big_arcs() {
        let mut c = Vec::new();
        c.push(0x2a);
        let n = clen(8, 11);
        let a = bytes::<11>();
        let mut i = 0;
        while i < n { c.push(if i + 1 < n { a[i] | 0x80 } else { a[i] & 0x7f }); i += 1 }
        assume(a[0] & 0x7f != 0);
        let o = Oid::new(std::borrow::Cow::Borrowed(&c));
        expect(&["fits", "too large"]);
        let r = arcs(&c[1..]);
        let it = o.iter();
        match (it, r) {
            (Some(it), Some(w)) => { cover("fits"); same_arcs(it, &[1, 2, w[0]]) }
            (None, None) => cover("too large"),
            (Some(_), None) => fail("an arc of more than 64 bits is given as 64 bits"),
            (None, Some(_)) => fail("an arc that fits 64 bits is not given"),
        };
    }
    fn h_iter_bigint() {
        let c = bytes::<4>();
        let n = clen(1, 4);
        let c = &c[..n];
        assume(wellformed(c) && c[0] < 120 && !(n == 1 && c[0] == 0));
        let o = Oid::new(std::borrow::Cow::Borrowed(c));
        let mut want = arcs(c).unwrap();
        let f = want.remove(0);
        want.insert(0, f % 40);
        want.insert(0, f / 40);
        let mut it = o.iter_bigint();
        check(it.len() == want.len(), "length");
        let mut i = 0;
        while let Some(x) = it.next() {
            let d = x.to_u64_digits();
            check(i < want.len(), "too many arcs");
            check(match d.len() { 0 => want[i] == 0, 1 => d[0] == want[i], _ => false }, "arc value");
            i += 1;
            check(it.len() == want.len() - i, "length left");
        }
        check(i == want.len(), "too few arcs");
    }
    fn h_starts_with() {
        let a = bytes::<4>();
        let b = bytes::<4>();
        let (n, m) = (clen(0, 4), clen(0, 4));
        let x = Oid::new(std::borrow::Cow::Borrowed(&a[..n]));
        let y = Oid::new(std::borrow::Cow::Borrowed(&b[..m]));
        let want = m <= n && refm::eq(&a[..m.min(n)], &b[..m.min(n)]);
        expect(&["yes", "no"]);
        cover(if want { "yes" } else { "no" });
        check(x.starts_with(&y) == want, "starts_with");
        check((x == y) == (n == m && want), "equality");
    }
    /// text form, one arc at a time
    fn h_display() {
        let (d1, d0) = (byte(), byte());
        assume(d1 <= 9 && d0 <= 9);
        let x = (d1 * 10 + d0) as u64;
        let k = clen(0, 3);
        let (v, pre, post): ([u64; 3], &[u8], &[u8]) = match k {
            0 => ([1, x, 5], b"1.", b".5"),
            1 => ([2, 5, x], b"2.5.", b""),
            2 => ([1, 3, 100 + x], b"1.3.1", b""),
            _ => ([0, 39, 1200 + x], b"0.39.12", b""),
        };
        assume(k != 0 || x < 40);
        let o = match Oid::from(&v) { Ok(o) => o, Err(_) => fail("rejected") };
        let s = o.to_id_string();
        let mut w = Vec::new();
        w.extend_from_slice(pre);
        if d1 > 0 || k > 1 { w.push(b'0' + d1) }
        w.push(b'0' + d0);
        w.extend_from_slice(post);
        check(refm::eq(s.as_bytes(), &w), "dotted form");
    }
    fn h_parse_text() {
        let (a, b, x) = (byte(), byte(), byte());
        assume(a <= 2 && b < 40 && x < 100);
        let mut t = String::new();
        t.push((b'0' + a) as char);
        t.push('.');
        if b >= 10 { t.push((b'0' + b / 10) as char) }
        t.push((b'0' + b % 10) as char);
        t.push('.');
        if x >= 10 { t.push((b'0' + x / 10) as char) }
        t.push((b'0' + x % 10) as char);
        match t.parse::<Oid>() {
            Ok(o) => check(refm::eq(o.as_bytes(), &[40 * a + b, x]), "parsed arcs"),
            Err(_) => fail("dotted form is rejected"),
        }
    }
    /// known findings (not explored, only replayed)
    fn k_second_arc() {
        let b = refm::tlv(6, &[0x81, 0x34, 3]);
        match Oid::parse_der(Input::from(&b)) {
            Ok((_, o)) => match o.iter() { Some(it) => same_arcs(it, &[2, 100, 3]), None => fail("none") },
            Err(_) => fail("rejects 2.100.3"),
        }
    }
    fn k_zero_zero() {
        match Oid::from(&[0, 0]) { Ok(o) => match o.iter() { Some(it) => same_arcs(it, &[0, 0]), None => fail("none") }, Err(_) => fail("rejected") }
    }
}
