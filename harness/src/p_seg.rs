//! Constructed (segmented) strings and indefinite lengths.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

type BE<'a> = BerError<Input<'a>>;

/// The contents of a string object in primitive or constructed form: segments are objects of the universal type `seg`,
/// in either form again, at most `depth` levels (X.690 8.7, 8.21). `b` is exactly one object.
fn joined(b: &[u8], tag: Option<(u8, u32)>, seg: u32, depth: u32, bits: bool) -> Option<Vec<u8>> {
    let h = refm::header(b)?;
    if let Some((c, t)) = tag { if (h.class, h.tag) != (c, t) { return None } }
    let (s, e, _) = refm::extent(b, 5)?;
    if !h.cons { return Some(b[s..e].to_vec()) }
    if depth == 0 { return None }
    let mut v = Vec::new();
    let mut p = s;
    while p < e {
        let (_, _, n) = refm::extent(&b[p..e], 5)?;
        let part = joined(&b[p..p + n], Some((0, seg)), seg, depth - 1, bits)?;
        v.extend_from_slice(&part);
        p += n;
    }
    Some(v)
}
/// the primitive object with these contents
fn prim(b0: u8, c: &[u8]) -> &'static [u8] { Box::leak(refm::tlv(b0, c).into_boxed_slice()) }

fn string<T: PartialEq>(b: &'static [u8], b0: u8, tag: (u8, u32), f: impl Fn(&'static [u8]) -> std::result::Result<(usize, T), ()>) {
    expect(&["ok", "err"]);
    let exp = refm::extent(b, 5).and_then(|(_, _, end)| joined(&b[..end], Some(tag), 4, 5, false).map(|c| (b.len() - end, c)));
    let exp = exp.and_then(|(l, c)| f(prim(b0, &c)).ok().map(|(r, v)| { check(r == 0, "primitive form"); (l, v) }));
    match (exp, f(b)) {
        (None, Err(())) => cover("err"),
        (Some((l, v)), Ok((m, w))) => { cover("ok"); check(l == m, "remaining input"); check(v == w, "the joined contents") }
        (None, Ok(_)) => fail("accepts foreign segments, missing ends or invalid contents"),
        (Some(_), Err(())) => fail("rejects a segmented string"),
    }
}
fn p<'a, T, E>(r: nom::IResult<Input<'a>, T, E>) -> std::result::Result<(usize, T), ()> { match r { Ok((rem, v)) => Ok((rem.len(), v)), Err(_) => Err(()) } }
fn q<'a, T, E>(r: nom::IResult<&'a [u8], T, E>) -> std::result::Result<(usize, T), ()> { match r { Ok((rem, v)) => Ok((rem.len(), v)), Err(_) => Err(()) } }

/// a constructed object `b0` of up to N octets
macro_rules! obj { ($n:literal, $b0:expr) => {{
    let a: &'static mut [u8] = Box::leak(Box::new(bytes::<$n>()));
    a[0] = $b0;
    let n = clen(2, $n);
    let a: &'static [u8] = a;
    &a[..n]
}}}
macro_rules! strings { ($n:literal, $tag:literal, $t:ident) => {{
    let b = obj!($n, 0x20 | $tag);
    if clen(0, 1) == 0 { string(b, $tag, (0, $tag), |i| p($t::parse_ber(Input::from(i)))) } else { string(b, $tag, (0, $tag), |i| q(<$t as FromBer>::from_ber(i))) }
}}}
/// the interesting constructed contents: segments 4 (or 36), anything else once
fn shaped(b: &[u8]) { assume(b.len() < 3 || b[2] & !0x20 == 4 || b[2] == 0 || b[2] == 0x1f || b[2] == 12 || b[2] == 0x84) }

harness! {
    fn h_octets() { strings!(10, 4, OctetString) }
    fn h_utf8() { let b = obj!(9, 0x2c); shaped(b); string(b, 12, (0, 12), |i| p(Utf8String::parse_ber(Input::from(i)))) }
    fn h_printable() { let b = obj!(9, 0x33); shaped(b); string(b, 19, (0, 19), |i| p(PrintableString::parse_ber(Input::from(i)))) }
    fn h_ia5() { let b = obj!(9, 0x36); shaped(b); string(b, 22, (0, 22), |i| q(<Ia5String as FromBer>::from_ber(i))) }
    fn h_bmp() { let b = obj!(9, 0x3e); shaped(b); string(b, 30, (0, 30), |i| p(BmpString::parse_ber(Input::from(i)))) }
    fn h_universal() { let b = obj!(10, 0x3c); shaped(b); string(b, 28, (0, 28), |i| p(UniversalString::parse_ber(Input::from(i)))) }
    fn h_implicit() {
        let b = obj!(9, 0xa1);
        shaped(b);
        string(b, 0x81, (2, 1), |i| p(TaggedValue::<OctetString, BE, Implicit, 2, 1>::parse_ber(Input::from(i))))
    }
    fn h_implicit_utf8() {
        let b = obj!(9, 0xa1);
        shaped(b);
        string(b, 0x81, (2, 1), |i| p(TaggedValue::<Utf8String, BE, Implicit, 2, 1>::parse_ber(Input::from(i))))
    }
    /// five levels of constructed segments are read, six are not
    fn h_depth() {
        let x = byte();
        let k = clen(1, 7);
        let indef = clen(0, 1) == 1;
        let mut b = vec![4, 1, x];
        for _ in 0..k { let mut o = vec![0x24, if indef { 0x80 } else { b.len() as u8 }]; o.extend_from_slice(&b); if indef { o.extend_from_slice(&[0, 0]) } b = o }
        expect(&["read", "too deep"]);
        match OctetString::parse_ber(Input::from(&b[..])) {
            Ok((r, s)) => { cover("read"); check(k <= 4 && r.is_empty() && s.as_ref() == [x], "contents") }
            Err(_) => { cover("too deep"); check(k > 4, "rejects four levels of segments") }
        }
    }
    /// every split of a string into two segments, in definite and indefinite form, gives the string
    fn h_split() {
        let a = bytes::<6>();
        let i = clen(0, 6);
        let form = clen(0, 3);
        expect(&["text", "not text"]);
        let mut c = if form == 2 { let mut v = vec![0x24, 0x80]; v.extend(refm::tlv(4, &a[..i])); v.extend_from_slice(&[0, 0]); v } else { refm::tlv(4, &a[..i]) };
        if form == 3 { c.extend_from_slice(&[4, 0]) }
        c.extend(refm::tlv(4, &a[i..]));
        let mk = |b0: u8| { let mut o = vec![b0]; if form == 0 { o.push(c.len() as u8) } else { o.push(0x80) } o.extend_from_slice(&c); if form != 0 { o.extend_from_slice(&[0, 0]) } o };
        let o = mk(0x24);
        match OctetString::parse_ber(Input::from(&o[..])) { Ok((r, s)) => check(r.is_empty() && refm::eq(s.as_ref(), &a), "octet string"), Err(_) => fail("octet string") }
        let o = mk(0x2c);
        match (Utf8String::parse_ber(Input::from(&o[..])), std::str::from_utf8(&a)) {
            (Ok((r, s)), Ok(t)) => { cover("text"); check(r.is_empty() && s.as_ref() == t, "text") }
            (Err(_), Err(_)) => cover("not text"),
            _ => fail("a character may span segments; the whole must be valid"),
        }
    }
    /// lists written with an indefinite length end with end-of-contents octets and read back the same
    fn h_write() {
        let a = bytes::<3>();
        let n = clen(0, 3);
        expect(&["written"]);
        let v = IndefiniteVec(a[..n].to_vec());
        let mut e = vec![0x30, 0x80];
        for x in &a[..n] { e.extend(refm::tlv(2, &refm::enc_int(*x as i128))) }
        e.extend_from_slice(&[0, 0]);
        check(v.ber_content_len() == Length::Indefinite && v.ber_total_len() == Length::Indefinite, "indefinite length");
        let mut o = Vec::new();
        match v.ber_encode(&mut o) { Ok(k) => check(k == e.len() && refm::eq(&o, &e), "octets"), Err(_) => fail("ber_encode") }
        let mut o = Vec::new();
        match (v.ber_write_header(&mut o), v.ber_write_content(&mut o)) { (Ok(x), Ok(y)) => check(x == 2 && x + y == e.len() && refm::eq(&o, &e), "header and contents"), _ => fail("header and contents") }
        match <Vec<u8>>::parse_ber(Input::from(&o[..])) { Ok((r, w)) => { cover("written"); check(r.is_empty() && refm::eq(&w, &a[..n]), "read back") } Err(_) => fail("read back") }
        let mut o = Vec::new();
        match v.ber_encode_tagged_implicit(Class::ContextSpecific, 5, &mut o) { Ok(k) => { e[0] = 0xa5; check(k == e.len() && refm::eq(&o, &e), "implicit") } Err(_) => fail("implicit") }
    }
    /// objects read with an indefinite length are written with a definite one
    fn h_any_rewrite() {
        let b = obj!(8, 0x30);
        expect(&["indefinite", "definite"]);
        if let Ok((_, any)) = Any::parse_ber(Input::from(b)) {
            let (s, e, _) = refm::extent(b, 5).unwrap();
            cover(if b[1] == 0x80 { "indefinite" } else { "definite" });
            match any.to_ber_vec() { Ok(w) => check(refm::eq(&w, &refm::tlv(0x30, &b[s..e])) && any.ber_total_len() == Length::Definite(w.len()), "written again"), Err(_) => fail("written again") }
        }
    }
    fn k_nested_indefinite() {
        let mut o = Vec::new();
        let v = IndefiniteVec(vec![1u8]);
        let r = v.ber_encode_tagged_explicit(Class::ContextSpecific, 0, &mut o);
        check(r.is_ok() && Any::parse_ber(Input::from(&o[..])).is_ok_and(|(r, _)| r.is_empty()), "an explicit tag around a list of indefinite length is not closed")
    }
    fn k_list_of_indefinite() {
        let o = vec![IndefiniteVec(vec![1u8])].to_ber_vec().unwrap();
        check(Any::parse_ber(Input::from(&o[..])).is_ok_and(|(r, _)| r.is_empty()), "a list of lists of indefinite length is not closed")
    }
}
