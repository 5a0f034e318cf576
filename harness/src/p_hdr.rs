//! Identifier and length octets are read exactly as X.690 8.1.2/8.1.3 defines them.
use crate::refm;
use crate::sx::*;
use asn1_rs::nom::Err as NErr;
use asn1_rs::*;

fn same(h: &Header, r: &refm::Hdr, b: &[u8]) {
    check(h.class() as u8 == r.class, "class");
    check(h.constructed() == r.cons, "constructed bit");
    check(h.is_primitive() != h.is_constructed(), "primitive xor constructed");
    check(h.tag().0 == r.tag, "tag number");
    check(
        match (h.length(), r.len) {
            (Length::Definite(l), Some(k)) => l as u64 == k,
            (Length::Indefinite, None) => true,
            _ => false,
        },
        "length",
    );
    check(h.raw_tag() == Some(&b[..r.il]), "raw tag octets");
    match h.raw_header() {
        Some(i) => {
            check(i.as_bytes2().len() == r.hl && i.as_bytes2().as_ptr() == b.as_ptr(), "raw header octets");
            check(i.start() == 0 && i.end() == r.hl, "raw header span");
        }
        None => fail("no raw header"),
    }
    obs(h.tag().0 as u64);
}
fn stop_is_inside(r: &NErr<BerError<Input>>, n: usize) {
    match r {
        NErr::Incomplete(_) => cover("incomplete"),
        NErr::Error(e) | NErr::Failure(e) => {
            check(e.input().start() <= e.input().end() && e.input().end() <= n, "error position inside the input");
        }
    }
}

macro_rules! rd { ($n:literal, $min:expr) => {{
    let a = bytes::<$n>();
    let n = clen($min, $n);
    let b = &a[..n];
    expect(&["ok", "err"]);
    let r = refm::header(b);
    match (Header::parse_ber(Input::from(b)), &r) {
        (Ok((rem, h)), Some(r)) => {
            cover("ok");
            same(&h, r, b);
            check(rem.len() == n - r.hl && rem.start() == r.hl && rem.end() == n, "remaining input starts right after the header");
            obs(rem.len() as u64);
        }
        (Ok(_), None) => fail("accepts octets that are not a header"),
        (Err(_), Some(_)) => fail("rejects a well-formed header"),
        (Err(e), None) => { stop_is_inside(&e, n); cover("err") }
    }
    match (Header::from_ber(b), &r) {
        (Ok((rem, h)), Some(r)) => { same(&h, r, b); check(rem.len() == n - r.hl, "from_ber remainder") }
        (Err(_), None) => {}
        _ => fail("from_ber differs from the reference"),
    }
}}}
macro_rules! rd_der { ($n:literal) => {{
    let a = bytes::<$n>();
    let n = clen(0, $n);
    let b = &a[..n];
    expect(&["ok", "err", "indefinite"]);
    let r = refm::header(b);
    let definite = match &r { Some(r) => r.len.is_some(), None => false };
    match Header::parse_der(Input::from(b)) {
        Ok((rem, h)) => {
            cover("ok");
            check(definite, "DER accepts an indefinite length or a malformed header");
            if let Some(r) = &r {
                same(&h, r, b);
                check(rem.len() == n - r.hl, "remainder");
            }
        }
        Err(_) => {
            cover("err");
            if r.is_some() { cover("indefinite") }
            // DER requires shortest forms: rejecting longer ones would be right as well
            check(match &r { Some(r) => !(r.len.is_some() && r.imin && r.lmin), None => true }, "DER rejects a DER header");
        }
    }
    match Header::from_der(b) {
        Ok((rem, h)) => {
            check(definite, "from_der accepts an indefinite length or a malformed header");
            if let Some(r) = &r { same(&h, r, b); check(rem.len() == n - r.hl, "from_der remainder") }
        }
        Err(_) => check(match &r { Some(r) => !(r.len.is_some() && r.imin && r.lmin), None => true }, "from_der rejects a DER header"),
    }
}}}
/// as rd, but with a long-form length of 8 or more octets, leading zeros included
macro_rules! rd_long { ($extra:literal) => {{
    let mut a = [0u8; 3 + $extra];
    a[0] = byte();
    assume(a[0] & 0x1f != 0x1f);
    a[1] = 0x80 | $extra;
    let mut i = 2;
    while i < 2 + $extra { a[i] = byte(); i += 1 }
    let n = clen(2, 2 + $extra);
    let b = &a[..n];
    let r = refm::header(b);
    expect(&["ok", "err"]);
    match (Header::parse_ber(Input::from(b)), &r) {
        (Ok((rem, h)), Some(r)) => { cover("ok"); same(&h, r, b); check(rem.len() == n - r.hl, "remainder") }
        (Ok(_), None) => fail("accepts a length of more than 64 bits or a truncated length"),
        (Err(_), Some(_)) => fail("rejects a well-formed header"),
        (Err(_), None) => cover("err"),
    }
}}}

harness! {
    fn h_read() { rd!(12, 0) }
    fn h_read_der() { rd_der!(10) }
    fn h_long8() { rd_long!(8) }
    fn h_long9() { rd_long!(9) }
    fn h_long12() { rd_long!(12) }
    fn h_long20() { rd_long!(20) }
    /// every one-octet identifier followed by every first length octet, over a buffer of 130 octets
    fn h_len_of_len() {
        let mut a = [0u8; 132];
        a[0] = byte();
        a[1] = byte();
        a[131] = byte();
        a[130] = byte();
        let r = refm::header(&a);
        expect(&["ok", "err"]);
        match (Header::parse_ber(Input::from(&a[..])), &r) {
            (Ok((rem, h)), Some(r)) => { cover("ok"); same(&h, r, &a); check(rem.len() == a.len() - r.hl, "remainder") }
            (Err(_), None) => cover("err"),
            _ => fail("differs from the reference"),
        }
    }
    fn t_read() { rd!(17, 0) }
}
