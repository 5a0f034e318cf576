//! Header octets are written in their shortest form, and read back as the same header.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

fn class(c: u8) -> Class {
    match c { 0 => Class::Universal, 1 => Class::Application, 2 => Class::ContextSpecific, _ => Class::Private }
}
fn anyheader() -> (u8, bool, u32, Option<u64>) {
    let c = byte();
    assume(c < 4);
    let cons = boolean();
    let tag = u32();
    let indef = boolean();
    let l = u64();
    (c, cons, tag, if indef { None } else { Some(l) })
}
fn length(l: Option<u64>) -> Length {
    match l { Some(l) => Length::Definite(l as usize), None => Length::Indefinite }
}
harness! {
    fn h_ber() {
        let (c, cons, tag, len) = anyheader();
        expect(&["definite", "indefinite"]);
        cover(if len.is_some() { "definite" } else { "indefinite" });
        let h = Header::new(class(c), cons, Tag(tag), length(len));
        let mut v = Vec::new();
        match h.ber_write_header(&mut v) {
            Ok(n) => check(n == v.len(), "reported size"),
            Err(_) => fail("header cannot be written"),
        }
        let want = refm::enc_header(c, cons, tag, len);
        check(refm::eq(&v, &want), "header octets are the shortest form");
        obs(v.len() as u64);
    }
    fn h_der() {
        let (c, cons, tag, len) = anyheader();
        assume(len.is_some());
        let h = Header::new(class(c), cons, Tag(tag), length(len));
        let mut v = Vec::new();
        match h.der_write_header(&mut v) {
            Ok(n) => check(n == v.len(), "reported size"),
            Err(_) => fail("header cannot be written"),
        }
        check(refm::eq(&v, &refm::enc_header(c, cons, tag, len)), "header octets are the shortest form");
        let mut w = Vec::new();
        match h.to_der_vec() { Ok(x) => w = x, Err(_) => fail("to_der_vec") }
        check(refm::eq(&v, &w), "to_der_vec of a header is its header");
        obs(v.len() as u64);
    }
    fn h_roundtrip() {
        let (c, cons, tag, len) = anyheader();
        assume(cons || len.is_some());
        expect(&["definite", "indefinite"]);
        cover(if len.is_some() { "definite" } else { "indefinite" });
        let h = Header::new(class(c), cons, Tag(tag), length(len));
        let mut v = Vec::new();
        check(h.ber_write_header(&mut v).is_ok(), "write");
        match Header::parse_ber(Input::from(&v)) {
            Ok((rem, g)) => {
                check(rem.is_empty(), "everything is read back");
                check(g.class() as u8 == c && g.constructed() == cons && g.tag().0 == tag && g.length() == length(len), "same header");
                check(g == h && h == g, "equal headers");
            }
            Err(_) => fail("written header cannot be read"),
        }
        if len.is_some() {
            match Header::parse_der(Input::from(&v)) {
                Ok((rem, g)) => check(rem.is_empty() && g.tag().0 == tag && g.class() as u8 == c && g.length() == length(len), "same header (DER)"),
                Err(_) => fail("written header cannot be read (DER)"),
            }
        }
    }
    fn h_lengths() {
        let (_, _, tag, len) = anyheader();
        let w = refm::enc_header(0, true, tag, len).len();
        check(ber_tag_length(Tag(tag)) == refm::enc_header(0, true, tag, Some(0)).len() - 1, "length of the identifier octets");
        match ber_length_length(length(len)) {
            Ok(n) => check(n == refm::enc_header(0, true, 0, len).len() - 1, "length of the length octets"),
            Err(_) => fail("length of length"),
        }
        match ber_header_length(Tag(tag), length(len)) {
            Ok(n) => check(n == w, "length of the header"),
            Err(_) => fail("length of header"),
        }
        if let Some(l) = len { assume(l <= u64::MAX - 32); }
        match (ber_total_length(Tag(tag), length(len)), len) {
            (Length::Definite(t), Some(l)) => check(t as u64 == l + w as u64, "total length is header plus content"),
            (Length::Indefinite, None) => {}
            _ => fail("total length"),
        }
        obs(w as u64);
    }
    /// encoders of every kind write the same octets for the header they are given
    fn h_encoders() {
        let (c, _, tag, len) = anyheader();
        let mut v = Vec::new();
        let mut e = <Constructed as BerEncoder>::new();
        let r1 = e.write_tag_info(class(c), false, Tag(tag), &mut v);
        let r2 = e.write_length(length(len), &mut v);
        match (r1, r2) { (Ok(a), Ok(b)) => check(a + b == v.len(), "reported size"), _ => fail("encoder fails") }
        check(refm::eq(&v, &refm::enc_header(c, true, tag, len)), "constructed encoder");
        let mut v = Vec::new();
        let mut e = <Primitive<4> as BerEncoder>::new();
        let r1 = e.write_tag_info(class(c), true, Tag(tag), &mut v);
        let r2 = e.write_length(length(len), &mut v);
        match (r1, r2) { (Ok(a), Ok(b)) => check(a + b == v.len(), "reported size"), _ => fail("encoder fails") }
        check(refm::eq(&v, &refm::enc_header(0, false, 4, len)), "primitive encoder");
    }
}
