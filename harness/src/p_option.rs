//! OPTIONAL objects: present or absent, tagged or not, decoded or written.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

const CTX: u8 = 2;
const APP: u8 = 1;
type BE<'a> = BerError<Input<'a>>;
type R<T> = std::result::Result<(usize, T), ()>;

/// An optional decoder against the plain decoder of the same type: absent exactly if the input is empty or
/// starts with another tag number, and then nothing is consumed; otherwise the same result.
fn opt<T: PartialEq>(b: &[u8], tag: u32, o: R<Option<T>>, plain: impl FnOnce() -> R<T>) {
    expect(&["none", "some", "err"]);
    if b.is_empty() {
        match o { Ok((l, None)) => { check(l == 0, "consumed"); cover("none") } _ => fail("empty input is an absent object") }
        return;
    }
    match refm::header(b) {
        None => { cover("err"); check(o.is_err(), "accepts a malformed header") }
        Some(h) if h.tag != tag => match o { Ok((l, None)) => { cover("none"); check(l == b.len(), "an absent object consumes nothing") } _ => fail("another tag means absent") },
        Some(_) => match (o, plain()) {
            (Ok((l, Some(v))), Ok((m, w))) => { cover("some"); check(l == m, "remaining input"); check(v == w, "value") }
            (Err(()), Err(())) => { cover("err") }
            (Ok((_, None)), _) => fail("present object taken for absent"),
            (Err(()), _) => fail("rejects a present object"),
            (Ok(_), Err(())) => fail("accepts an invalid object"),
        },
    }
}
fn p<'a, T, E>(r: nom::IResult<Input<'a>, T, E>) -> R<T> { match r { Ok((rem, v)) => Ok((rem.len(), v)), Err(_) => Err(()) } }
fn q<'a, T, E>(r: nom::IResult<&'a [u8], T, E>) -> R<T> { match r { Ok((rem, v)) => Ok((rem.len(), v)), Err(_) => Err(()) } }
/// DER: as in BER, but an object of the indefinite form is never taken as present
fn opt_der<T: PartialEq>(b: &[u8], tag: u32, o: R<Option<T>>, plain: impl FnOnce() -> R<T>) {
    match refm::header(b) {
        Some(h) if h.len.is_none() => { cover("err"); expect(&["none", "some", "err"]); check(!matches!(o, Ok((_, Some(_)))), "takes an object of indefinite length for a DER object") }
        _ => opt(b, tag, o, plain),
    }
}
macro_rules! six { ($n:literal, $tag:literal, $t:ty, $tf:ty, $assume:expr) => {{
    let a = bytes::<$n>();
    let n = clen(0, $n);
    let b = &a[..n];
    let f: fn(&[u8]) = $assume;
    f(b);
    match clen(0, 5) {
        0 => opt(b, $tag, p(Option::<$t>::parse_ber(Input::from(b))), || p(<$t>::parse_ber(Input::from(b)))),
        1 => opt(b, $tag, p(<$t>::parse_ber_optional(Input::from(b))), || p(<$t>::parse_ber(Input::from(b)))),
        2 => opt_der(b, $tag, p(Option::<$t>::parse_der(Input::from(b))), || p(<$t>::parse_der(Input::from(b)))),
        3 => opt_der(b, $tag, p(<$t>::parse_der_optional(Input::from(b))), || p(<$t>::parse_der(Input::from(b)))),
        4 => opt::<$tf>(b, $tag, q(<Option<$tf> as FromBer>::from_ber(b)), || q(<$tf as FromBer>::from_ber(b))),
        _ => opt_der::<$tf>(b, $tag, q(<Option<$tf> as FromDer>::from_der(b)), || q(<$tf as FromDer>::from_der(b))),
    }
}}}
fn any(_: &[u8]) {}
fn first(b: &[u8], x: u8) { assume(b.is_empty() || b[0] & !0x3f == x) }

/// one octet string per value, nothing for an absent value, in every way of writing it
macro_rules! w { ($v:expr, $exp:expr) => {{
    let (v, e): (_, Vec<u8>) = ($v, $exp);
    check(v.ber_total_len() == Length::Definite(e.len()) && v.der_total_len() == Length::Definite(e.len()), "predicted length");
    match v.to_ber_vec() { Ok(w) => check(refm::eq(&w, &e), "BER octets"), Err(_) => fail("to_ber_vec") }
    match v.to_der_vec() { Ok(w) => check(refm::eq(&w, &e), "DER octets"), Err(_) => fail("to_der_vec") }
    let mut o = Vec::new();
    match v.ber_encode(&mut o) { Ok(n) => check(n == e.len() && refm::eq(&o, &e), "ber_encode"), Err(_) => fail("ber_encode") }
    let mut o = Vec::new();
    match v.der_encode(&mut o) { Ok(n) => check(n == e.len() && refm::eq(&o, &e), "der_encode"), Err(_) => fail("der_encode") }
    let mut o = Vec::new();
    match (v.ber_write_header(&mut o), v.ber_write_content(&mut o)) { (Ok(x), Ok(y)) => check(x + y == e.len() && refm::eq(&o, &e), "header and contents"), _ => fail("header and contents") }
    let mut o = Vec::new();
    match (v.der_write_header(&mut o), v.der_write_content(&mut o)) { (Ok(x), Ok(y)) => check(x + y == e.len() && refm::eq(&o, &e), "header and contents"), _ => fail("header and contents") }
}}}
macro_rules! wtag { ($v:expr, $exp:expr, $imp:expr) => {{
    let (v, e, i): (_, Vec<u8>, Vec<u8>) = ($v, $exp, $imp);
    let mut o = Vec::new();
    match v.ber_encode_tagged_explicit(Class::Application, 77, &mut o) { Ok(n) => check(n == e.len() && refm::eq(&o, &e), "explicit"), Err(_) => fail("explicit") }
    let mut o = Vec::new();
    match v.der_encode_tagged_explicit(Class::Application, 77, &mut o) { Ok(n) => check(n == e.len() && refm::eq(&o, &e), "explicit"), Err(_) => fail("explicit") }
    let mut o = Vec::new();
    match v.ber_encode_tagged_implicit(Class::Application, 77, &mut o) { Ok(n) => check(n == i.len() && refm::eq(&o, &i), "implicit"), Err(_) => fail("implicit") }
    let mut o = Vec::new();
    match v.der_encode_tagged_implicit(Class::Application, 77, &mut o) { Ok(n) => check(n == i.len() && refm::eq(&o, &i), "implicit"), Err(_) => fail("implicit") }
}}}

harness! {
    fn h_u8() { six!(6, 2, u8, u8, any) }
    fn h_bool() { six!(6, 1, bool, bool, any) }
    fn h_enum() { six!(6, 10, Enumerated, Enumerated, any) }
    fn h_oct() { six!(6, 4, &[u8], &[u8], any) }
    fn h_utf8() { six!(6, 12, Utf8String, Utf8String, |b| first(b, 0)) }
    fn h_oid() { six!(6, 6, Oid, Oid, |b| { first(b, 0); if let Some(h) = refm::header(b) { assume(h.tag != 13) } }) } // Oid also reads relative identifiers
    fn h_null() { six!(6, 5, Null, Null, any) }
    fn h_seq() { six!(6, 16, Sequence, Sequence, any) }
    fn h_vec() { six!(6, 16, Vec<u8>, Vec<u8>, |b| first(b, 0)) }
    fn h_setof() { six!(6, 17, SetOf<u8>, SetOf<u8>, |b| first(b, 0)) }
    fn h_explicit() { six!(6, 0, TaggedValue<u8, BE, Explicit, CTX, 0>, TaggedValue<u8, Error, Explicit, CTX, 0>, any) }
    fn h_explicit_long() { six!(7, 31, TaggedValue<u8, BE, Explicit, APP, 31>, TaggedValue<u8, Error, Explicit, APP, 31>, |b| first(b, 0x40)) }
    fn h_implicit() { six!(6, 3, TaggedValue<u8, BE, Implicit, CTX, 3>, TaggedValue<u8, Error, Implicit, CTX, 3>, any) }
    fn h_implicit_seq() { six!(6, 3, TaggedValue<Sequence, BE, Implicit, CTX, 3>, TaggedValue<Sequence, Error, Implicit, CTX, 3>, any) }
    /// the run-time helper
    fn h_helper() {
        let a = bytes::<6>();
        let n = clen(0, 6);
        let b = &a[..n];
        let der = clen(0, 1) == 1;
        let cl = clen(0, 3) as u8;
        let class = match cl { 0 => Class::Universal, 1 => Class::Application, 2 => Class::ContextSpecific, _ => Class::Private };
        let tag = byte() as u32;
        expect(&["none", "some", "err"]);
        let f = |h: Header, d: &'static [u8]| -> ParseResult<'static, (u32, usize)> { Ok((&d[d.len()..], (h.tag().0, d.len()))) };
        let o = OptTaggedParser::new(class, Tag(tag));
        let sb: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
        let r = q(if der { o.parse_der(sb, f) } else { o.parse_ber(sb, f) });
        if n == 0 { cover("none"); check(matches!(r, Ok((0, None))), "empty input is an absent object"); return }
        let h = match refm::header(b) { Some(h) => h, None => { cover("err"); check(r.is_err(), "malformed"); return } };
        let x = match refm::extent(b, 4) { Some(x) if !(der && h.len.is_none()) => x, _ => { cover("err"); check(r.is_err(), "truncated"); return } };
        if h.tag != tag { cover("none"); check(matches!(r, Ok((l, None)) if l == n), "another tag means absent") }
        else if h.class != cl { check(r.is_err(), "same tag number of another class") }
        else { cover("some"); check(matches!(r, Ok((l, Some((t, k)))) if l == n - x.2 && t == tag && k == x.1 - x.0), "present") }
    }
    /// a run of optional objects, as in a SEQUENCE
    fn h_sequence() {
        let a = bytes::<8>();
        let n = clen(0, 8);
        let b = &a[..n];
        assume(n == 0 || b[0] & 0xc0 == 0);
        if let Some((_, _, e)) = refm::extent(b, 1) { assume(e >= n || b[e] & 0xc0 == 0) }
        expect(&["both", "first", "second", "neither"]);
        let r1: ParseResult<Option<u8>> = FromBer::from_ber(b);
        if let Ok((r, x)) = r1 {
            if let Some(x) = x { check(x as i128 == refm::int_value(&b[refm::extent(b, 1).unwrap().0..n - r.len()]), "first value") }
            let r2: ParseResult<Option<bool>> = FromBer::from_ber(r);
            if let Ok((r, y)) = r2 {
                match (x, y) {
                    (Some(_), Some(_)) => { cover("both"); check(refm::header(b).unwrap().tag == 2, "first tag") }
                    (Some(_), None) => { cover("first"); check(r.is_empty() || refm::header(r).map_or(true, |h| h.tag != 1), "second is absent") }
                    (None, Some(_)) => { cover("second"); check(refm::header(b).unwrap().tag == 1, "second tag") }
                    (None, None) => { cover("neither"); check(r.len() == n, "nothing consumed") }
                }
            }
        }
    }
    fn h_write() {
        let x = byte();
        let n = clen(0, 2);
        let some = clen(0, 1) == 1;
        let ci = refm::enc_int(x as i128);
        let a = [x; 3];
        let none = Vec::new;
        w!(if some { Some(x) } else { None }, if some { refm::tlv(2, &ci) } else { none() });
        w!(&(if some { Some(x) } else { None }), if some { refm::tlv(2, &ci) } else { none() });
        w!(if some { Some(&x) } else { None }, if some { refm::tlv(2, &ci) } else { none() });
        w!(if some { Some(&a[..n]) } else { None }, if some { refm::tlv(4, &a[..n]) } else { none() });
        w!(if some { Some(Sequence::new(std::borrow::Cow::Borrowed(&a[..n]))) } else { None }, if some { refm::tlv(0x30, &a[..n]) } else { none() });
        w!(if some { Some(x < 7) } else { None }, if some { refm::tlv(1, &[if x < 7 { 255 } else { 0 }]) } else { none() });
        w!(if some { Some(TaggedValue::<u8, Error, Explicit, CTX, 40>::explicit(x)) } else { None },
           if some { let mut h = refm::enc_header(2, true, 40, Some(2 + ci.len() as u64)); h.extend_from_slice(&refm::tlv(2, &ci)); h } else { none() });
        w!(if some { Some(TaggedValue::<u8, Error, Implicit, CTX, 40>::implicit(x)) } else { None },
           if some { let mut h = refm::enc_header(2, false, 40, Some(ci.len() as u64)); h.extend_from_slice(&ci); h } else { none() });
        // an optional object inside a list
        w!(vec![Some(x), None, Some(x)], { let mut c = refm::tlv(2, &ci); c.extend_from_slice(&refm::tlv(2, &ci)); refm::tlv(0x30, &c) });
        w!(vec![Option::<u8>::None], refm::tlv(0x30, &[]));
    }
    fn h_write_tagged() {
        let x = byte();
        let some = clen(0, 1) == 1;
        let ci = refm::enc_int(x as i128);
        let mut e = refm::enc_header(1, true, 77, Some(2 + ci.len() as u64));
        e.extend_from_slice(&refm::tlv(2, &ci));
        let mut i = refm::enc_header(1, false, 77, Some(ci.len() as u64));
        i.extend_from_slice(&ci);
        if some { wtag!(Some(x), e.clone(), i.clone()); wtag!(&Some(x), e.clone(), i.clone()); wtag!(x, e.clone(), i.clone()); wtag!(&x, e, i) }
        else { wtag!(Option::<u8>::None, Vec::new(), Vec::new()); wtag!(&Option::<u8>::None, Vec::new(), Vec::new()) }
    }
    /// Any as an optional object of a type
    fn h_as_optional() {
        let a = bytes::<5>();
        let n = clen(0, 5);
        let b = &a[..n];
        assume(n == 0 || b[0] & 0xc0 == 0);
        expect(&["some", "none", "err"]);
        if let Ok((_, any)) = Any::from_ber(b) {
            match any.as_optional::<u8>() {
                Ok(Some(v)) => { cover("some"); check(any.tag() == Tag::Integer && matches!(u8::from_ber(b), Ok((_, w)) if w == v), "value") }
                Ok(None) => { cover("none"); check(any.tag() != Tag::Integer, "present object taken for absent") }
                Err(_) => { cover("err"); check(any.tag() == Tag::Integer && u8::from_ber(b).is_err(), "rejects") }
            }
        }
    }
}
