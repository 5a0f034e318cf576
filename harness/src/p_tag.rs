//! Objects are decoded as the type they are tagged as, and never as another.
#![allow(deprecated)]
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
#[allow(unused_imports)]
use core::convert::TryFrom;

/// the object with contents `c` and any tag number, in any form of the identifier that fits
fn object(cons: bool, c: &[u8]) -> (u32, Vec<u8>) {
    let t = u32();
    let mut v = refm::enc_header(0, cons, t, Some(c.len() as u64));
    v.extend_from_slice(c);
    (t, v)
}
fn side(t: u32, ts: &[u32]) -> bool {
    expect(&["same", "other"]);
    let mut s = false;
    let mut i = 0;
    while i < ts.len() { s |= t == ts[i]; i += 1 }
    cover(if s { "same" } else { "other" });
    obs(s as u64);
    s
}
macro_rules! ways { ($t:ty, $ts:expr, $cons:expr, $c:expr) => {{
    let (t, v) = object($cons, &$c);
    let v = &v[..];
    let s = side(t, &$ts);
    check(<$t as BerParser>::parse_ber(Input::from(v)).is_ok() == s, "parse_ber");
    check(<$t as BerParser>::parse_ber_as_input(Input::from(v)).is_ok() == s, "parse_ber_as_input");
    match <$t as BerParser>::parse_ber_optional(Input::from(v)) { Ok((r, o)) => check(o.is_some() == s && r.is_empty() == s, "optional"), Err(_) => fail("optional") }
    let f: ParseResult<$t> = <$t as FromBer>::from_ber(v);
    check(f.is_ok() == s, "from_ber");
    match Any::from_ber(v) { Ok((_, a)) => { check(a.tag() == Tag(t), "tag"); check(<$t>::try_from(a).is_ok() == s, "conversion") } Err(_) => fail("any") }
}} }
macro_rules! der { ($t:ty, $ts:expr, $cons:expr, $c:expr) => {{
    let (t, v) = object($cons, &$c);
    let v = &v[..];
    let s = side(t, &$ts);
    check(<$t as DerParser>::parse_der(Input::from(v)).is_ok() == s, "parse_der");
    check(<$t as DerParser>::parse_der_as_input(Input::from(v)).is_ok() == s, "parse_der_as_input");
    match <$t as DerParser>::parse_der_optional(Input::from(v)) { Ok((r, o)) => check(o.is_some() == s && r.is_empty() == s, "optional"), Err(_) => fail("optional") }
    let f: ParseResult<$t> = <$t as FromDer>::from_der(v);
    check(f.is_ok() == s, "from_der");
    // as an element
    let mut w = refm::enc_header(0, true, 16, Some(v.len() as u64));
    w.extend_from_slice(v);
    check(<Vec<$t> as BerParser>::parse_ber(Input::from(&w)).is_ok() == s, "element (BER)");
    check(<Vec<$t> as DerParser>::parse_der(Input::from(&w)).is_ok() == s, "element (DER)");
}} }
macro_rules! named { ($t:ty, $f:ident, $g:ident, $ts:expr, $cons:expr, $c:expr) => {{
    let (t, v) = object($cons, &$c);
    let v = &v[..];
    let s = side(t, &$ts);
    match Any::from_ber(v) {
        Ok((_, a)) => {
            check(a.$g().is_ok() == s, "as_x");
            check(a.clone().$f().is_ok() == s, "x");
            check(<$t>::try_from(&a).is_ok() == s, "conversion of a reference");
        }
        Err(_) => fail("any"),
    }
    // contents that are cut short or changed are judged alike
    let mut c = $c.to_vec();
    let n = clen(0, c.len());
    c.truncate(n);
    if n > 0 { let k = clen(0, n - 1); c[k] = byte(); }
    let cons = boolean();
    let mut v = refm::enc_header(0, cons, $ts[0], Some(n as u64));
    v.extend_from_slice(&c);
    if let Ok((_, a)) = Any::from_ber(&v) {
        let r = <$t>::try_from(&a);
        match a.$g() { Ok(x) => match &r { Ok(y) => check(x == *y, "as_x: value"), Err(_) => fail("as_x: accepts more") }, Err(_) => check(r.is_err(), "as_x: refuses") }
        match a.clone().$f() { Ok(x) => match &r { Ok(y) => check(x == *y, "x: value"), Err(_) => fail("x: accepts more") }, Err(_) => check(r.is_err(), "x: refuses") }
        match a.as_optional::<$t>() { Ok(Some(x)) => match &r { Ok(y) => check(x == *y, "as_optional: value"), Err(_) => fail("as_optional: accepts more") }, Ok(None) => fail("as_optional: absent"), Err(_) => check(r.is_err(), "as_optional: refuses") }
    }
}} }
macro_rules! table { ($($h:ident $d:ident $n:ident $f:ident $g:ident $t:ty, $ts:expr, $cons:expr, $c:expr;)*) => { harness! {
    $( fn $h() { ways!($t, $ts, $cons, $c) } fn $d() { der!($t, $ts, $cons, $c) } fn $n() { named!($t, $f, $g, $ts, $cons, $c) } )*
    fn h_slice() { ways!(&[u8], [4], false, [1]) }
    fn h_slice_der() { der!(&[u8], [4], false, [1]) }
    fn h_unit() { ways!((), [5], false, []) }
    fn h_unit_der() { der!((), [5], false, []) }
    fn h_f64() { ways!(f64, [9], false, [0x80, 0, 1]) }
    fn h_f32() { ways!(f32, [9], false, [0x80, 0, 1]) }
    fn h_sequence() { ways!(Sequence, [16], true, [5, 0]) }
    fn h_sequence_der() { der!(Sequence, [16], true, [5, 0]) }
    fn h_set() { ways!(Set, [17], true, [5, 0]) }
    fn h_set_der() { der!(Set, [17], true, [5, 0]) }
    fn h_vec() { ways!(Vec<u8>, [16], true, [2, 1, 5]) }
    fn h_vec_der() { der!(Vec<u8>, [16], true, [2, 1, 5]) }
    fn h_set_of() { ways!(SetOf<u8>, [17], true, [2, 1, 5]) }
    fn h_set_of_der() { der!(SetOf<u8>, [17], true, [2, 1, 5]) }
    fn h_btree() { ways!(std::collections::BTreeSet<u8>, [17], true, [2, 1, 5]) }
    fn h_pair() {
        // without conversion from Any
        let (t, v) = object(true, &[2, 1, 5, 1, 1, 0xff]);
        let s = side(t, &[16]);
        check(<(u8, bool)>::parse_ber(Input::from(&v)).is_ok() == s, "tuple");
        check(<(u8, bool)>::parse_der(Input::from(&v)).is_ok() == s, "tuple (DER)");
        check(AnySequence::parse_ber(Input::from(&v)).is_ok() == s, "any sequence");
        check(AnySequence::parse_der(Input::from(&v)).is_ok() == s, "any sequence (DER)");
        let (_, a) = match Any::from_ber(&v) { Ok(x) => x, Err(_) => fail("any") };
        check(a.as_anysequence().is_ok() == s, "as_anysequence");
        check(a.as_sequence().is_ok() == s, "as_sequence");
        check(a.as_set().is_ok() == (t == 17), "as_set");
        check(a.clone().anysequence().is_ok() == s, "anysequence");
        check(a.clone().sequence().is_ok() == s, "sequence");
        check(a.set().is_ok() == (t == 17), "set");
        check(<[u8; 1]>::parse_ber(Input::from(&refm::tlv((if s { 0x30 } else { 0x31 }) as u8, &[2, 1, 5]))).is_ok() == s, "array");
        check(<AnySet>::parse_ber(Input::from(&v)).is_ok() == (t == 17), "any set");
        check(<AnySet>::parse_der(Input::from(&v)).is_ok() == (t == 17), "any set (DER)");
    }
    fn h_pair_elements() {
        // each element of a tuple is of its type
        let (t, v) = object(false, &[0xff]);
        let w = [&[2u8, 1, 5][..], &v].concat();
        let w = [refm::enc_header(0, true, 16, Some(w.len() as u64)), w].concat();
        let s = side(t, &[1]);
        check(<(u8, bool)>::parse_ber(Input::from(&w)).is_ok() == s, "second element");
        check(<(u8, bool)>::parse_der(Input::from(&w)).is_ok() == s, "second element (DER)");
        let w = [&v[..], &[1, 1, 0]].concat();
        let w = [refm::enc_header(0, true, 16, Some(w.len() as u64)), w].concat();
        check(<(i8, bool)>::parse_ber(Input::from(&w)).is_ok() == (t == 2), "first element");
        check(<(i8, bool)>::parse_der(Input::from(&w)).is_ok() == (t == 2), "first element (DER)");
    }
    fn h_eoc() {
        let (t, v) = object(false, &[]);
        let s = side(t, &[0]);
        check(EndOfContent::parse_ber(Input::from(&v)).is_ok() == s, "end of contents");
        match Any::from_ber(&v) { Ok((_, a)) => check(a.as_endofcontent().is_ok() == s, "as_endofcontent"), Err(_) => fail("any") }
    }
    fn h_relative() {
        let (t, v) = object(false, &[1]);
        let s = side(t, &[13]);
        match Any::from_ber(&v) {
            Ok((_, a)) => {
                match a.as_relative_oid() { Ok(o) => check(s && o == Oid::new_relative((&[1u8][..]).into()), "as_relative_oid"), Err(_) => check(!s, "as_relative_oid refuses") }
                match a.clone().relative_oid() { Ok(o) => check(s && o == Oid::new_relative((&[1u8][..]).into()), "relative_oid"), Err(_) => check(!s, "relative_oid refuses") }
                match a.as_oid() { Ok(o) => check(t == 6 || t == 13 && o == Oid::new_relative((&[1u8][..]).into()), "as_oid"), Err(_) => check(t != 6 && t != 13, "as_oid refuses") }
            }
            Err(_) => fail("any"),
        }
        // nothing, or a constructed encoding
        let c = byte();
        let n = clen(0, 1);
        let cons = boolean();
        let mut v = refm::enc_header(0, cons, 13, Some(n as u64));
        if n == 1 { v.push(c) }
        if let Ok((_, a)) = Any::from_ber(&v) {
            check(a.as_relative_oid().is_ok() == Oid::try_from(&a).is_ok(), "as_relative_oid as parsed");
            check(a.clone().relative_oid().is_ok() == Oid::try_from(&a).is_ok(), "relative_oid as parsed");
        }
    }
    fn h_text() {
        // as_any_str and as_any_string: the text of any character string, and of nothing else
        let (t, v) = object(false, b"0");
        let s = side(t, &[12, 18, 19, 20, 21, 22, 25, 26, 27]);
        let (_, a) = match Any::from_ber(&v) { Ok(x) => x, Err(_) => fail("any") };
        match a.as_any_str() { Ok(x) => check(s && x == "0", "as_any_str"), Err(_) => check(!s, "as_any_str refuses") }
        match a.as_any_string() { Ok(x) => check(s && x == "0", "as_any_string"), Err(_) => check(!s, "as_any_string refuses") }
        let wide = t == 28 || t == 30;
        let (_, v) = object(false, &[0, 0, 0, 0x41]);
        let (t2, a) = match Any::from_ber(&v) { Ok((_, x)) => (x.tag().0, x), Err(_) => fail("any") };
        check(a.as_any_str().is_ok() == (t2 == 12 || t2 >= 18 && t2 <= 22 || t2 >= 25 && t2 <= 27), "as_any_str");
        match a.as_any_string() {
            Ok(x) => if t2 == 28 { check(x == "A", "universal") } else if t2 == 30 { check(x == "\0A", "bmp") } else { check(x == "\0\0\0A", "others") },
            Err(_) => check(t2 != 12 && t2 != 28 && t2 != 30 && !(t2 >= 18 && t2 <= 22) && !(t2 >= 25 && t2 <= 27), "as_any_string"),
        }
        let _ = wide;
    }
    fn h_text_segments() {
        // constructed: as_any_string joins the segments; as_any_str, which cannot, refuses
        let (x, y) = (byte(), byte());
        let tag = [12u8, 18, 19, 20, 21, 22, 25, 26, 27][clen(0, 8)];
        let v = [0x20 | tag, 6, 4, 1, x, 4, 1, y];
        let (_, a) = match Any::from_ber(&v) { Ok(x) => x, Err(_) => fail("any") };
        expect(&["joined", "invalid"]);
        check(a.as_any_str().is_err(), "as_any_str of segments");
        match a.as_any_string() {
            Ok(s) => { cover("joined"); check(refm::eq(s.as_bytes(), &[x, y]), "joined text") }
            Err(_) => { cover("invalid"); check(!refm::utf8(&[x, y]), "refused") }
        }
    }
    fn h_and_then() {
        // class and tag are checked, the contents are given to the function
        let (class, t, want, x) = (byte(), u32(), u32(), byte());
        assume(class < 4);
        let wc = clen(0, 3);
        let cl = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][wc];
        let mut v = refm::enc_header(class, false, t, Some(1));
        v.push(x);
        v.push(0x77);
        let s = class as usize == wc && t == want;
        expect(&["same", "other"]);
        cover(if s { "same" } else { "other" });
        fn op(b: &[u8]) -> ParseResult<'_, (usize, u8)> { Ok((b, (b.len(), if b.is_empty() { 0 } else { b[0] }))) }
        let r: ParseResult<(usize, u8)> = Any::from_ber_and_then(cl, want, &v, op);
        match r { Ok((rem, p)) => check(s && p.0 == 1 && p.1 == x && refm::eq(rem, &[0x77]), "from_ber_and_then"), Err(_) => check(!s, "from_ber_and_then refuses") }
        let r: ParseResult<(usize, u8)> = Any::from_der_and_then(cl, want, &v, op);
        match r { Ok((rem, p)) => check(s && p.0 == 1 && p.1 == x && refm::eq(rem, &[0x77]), "from_der_and_then"), Err(_) => check(!s, "from_der_and_then refuses") }
    }
    fn h_make() {
        // objects made from a tag and data, and changed
        let (t, t2, x) = (u32(), u32(), byte());
        let k = clen(0, 3);
        let cl = [Class::Universal, Class::Application, Class::ContextSpecific, Class::Private][k];
        let d = [x];
        let a = Any::from_tag_and_data(Tag(t), Input::from(&d[..]));
        check(a.tag() == Tag(t) && a.class() == Class::Universal && a.header.length() == Length::Definite(1) && refm::eq(a.as_bytes(), &d), "from_tag_and_data");
        check(a.header.is_constructed() == (t == 16 || t == 17), "constructed");
        obs((t == 16) as u64);
        let c = a.header.is_constructed();
        match a.to_der_vec() { Ok(w) => { let mut e = refm::enc_header(0, c, t, Some(1)); e.push(x); check(refm::eq(&w, &e), "encoding") } Err(_) => fail("to_der_vec") }
        let a = a.with_class(cl).with_tag(Tag(t2));
        check(a.tag() == Tag(t2) && a.class() == cl && refm::eq(a.as_bytes(), &d), "changed");
        match a.to_ber_vec() { Ok(w) => { let mut e = refm::enc_header(k as u8, c, t2, Some(1)); e.push(x); check(refm::eq(&w, &e), "changed encoding") } Err(_) => fail("to_ber_vec") }
        let b = Any::new(Header::new(cl, c, Tag(t2), Length::Definite(1)), Input::from(&d[..]));
        check(a == b, "equal");
        check(Any::from_header_and_data(b.header.clone(), &d) == b, "from_header_and_data");
    }
    fn h_contents() {
        // parsing the contents of an object of any tag
        let (class, t, n, x) = (byte(), u32(), byte(), byte());
        assume(class < 4);
        let mut v = refm::enc_header(class, true, t, Some(4));
        v.extend_from_slice(&[2, n, 0, x]);
        let (_, a) = match Any::from_ber(&v) { Ok(x) => x, Err(_) => fail("any") };
        let inner = [2, n, 0, x];
        let same = |p: ParseResult<u8>, q: ParseResult<u8>| match (p, q) { (Ok((r, v)), Ok((s, w))) => check(v == w && r.len() == s.len(), "contents"), (Err(_), Err(_)) => (), _ => fail("contents judged differently") };
        same(a.parse_content_ber::<u8>(), <u8 as FromBer>::from_ber(&inner));
        same(a.parse_content_der::<u8>(), <u8 as FromDer>::from_der(&inner));
        // the octets after a header
        let tail = [n, x, 1, 2, 3];
        for der in [false, true] {
            let l = clen(0, 6);
            let h = Header::new(Class::ContextSpecific, false, Tag(t), Length::Definite(l));
            let r = if der { Any::parse_der_content(Input::from(&tail[..]), &h) } else { Any::parse_ber_content(Input::from(&tail[..]), &h) };
            match r { Ok((rem, d)) => check(l <= 5 && refm::eq(d.as_bytes2(), &tail[..l]) && refm::eq(rem.as_bytes2(), &tail[l..]), "content"), Err(_) => check(l > 5, "content refused") }
        }
    }
    fn h_tagged() {
        // as_tagged_explicit and as_tagged_implicit check class and tag
        let (class, t, x) = (byte(), u32(), byte());
        assume(class < 4);
        let s = class == 1 && t == 7;
        expect(&["same", "other"]);
        cover(if s { "same" } else { "other" });
        let mut v = refm::enc_header(class, true, t, Some(3));
        v.extend_from_slice(&[2, 1, x]);
        let (_, a) = match Any::from_ber(&v) { Ok(x) => x, Err(_) => fail("any") };
        match a.as_tagged_explicit::<i8, Error, 1, 7>() { Ok(y) => check(s && *y.as_ref() == x as i8, "explicit"), Err(_) => check(!s, "explicit refuses") }
        let mut v = refm::enc_header(class, false, t, Some(1));
        v.push(x);
        let (_, a) = match Any::from_ber(&v) { Ok(x) => x, Err(_) => fail("any") };
        match a.as_tagged_implicit::<i8, Error, 1, 7>() { Ok(y) => check(s && *y.as_ref() == x as i8, "implicit"), Err(_) => check(!s, "implicit refuses") }
    }
    fn k_class() {
        // an object of another class is not of the type
        let class = byte();
        assume(class < 4);
        let v = [class << 6 | 2, 1, 5];
        check(u8::parse_ber(Input::from(&v[..])).is_ok() == (class == 0), "class");
    }
} } }
table! {
 h_bool h_bool_der h_bool_named bool as_bool bool, [1], false, [0xff];
 h_boolean h_boolean_der h_boolean_named boolean as_boolean Boolean, [1], false, [0xff];
 h_null h_null_der h_null_named null as_null Null, [5], false, [0u8; 0];
 h_u8 h_u8_der h_u8_named u8 as_u8 u8, [2], false, [5];
 h_u16 h_u16_der h_u16_named u16 as_u16 u16, [2], false, [5, 6];
 h_u32 h_u32_der h_u32_named u32 as_u32 u32, [2], false, [5, 6];
 h_u64 h_u64_der h_u64_named u64 as_u64 u64, [2], false, [5, 6];
 h_u128 h_u128_der h_u128_named u128 as_u128 u128, [2], false, [5, 6];
 h_i8 h_i8_der h_i8_named i8 as_i8 i8, [2], false, [5];
 h_i16 h_i16_der h_i16_named i16 as_i16 i16, [2], false, [5, 6];
 h_i32 h_i32_der h_i32_named i32 as_i32 i32, [2], false, [5, 6];
 h_i64 h_i64_der h_i64_named i64 as_i64 i64, [2], false, [5, 6];
 h_i128 h_i128_der h_i128_named i128 as_i128 i128, [2], false, [5, 6];
 h_integer h_integer_der h_integer_named integer as_integer Integer, [2], false, [5, 6];
 h_enumerated h_enumerated_der h_enumerated_named enumerated as_enumerated Enumerated, [10], false, [5];
 h_real h_real_der h_real_named real as_real Real, [9], false, [0x80, 0, 1];
 h_octets h_octets_der h_octets_named octetstring as_octetstring OctetString, [4], false, [5, 6];
 h_bits h_bits_der h_bits_named bitstring as_bitstring BitString, [3], false, [0, 6];
 h_oid h_oid_der h_oid_named oid as_oid Oid, [6, 13], false, [5, 6];
 h_utf8 h_utf8_der h_utf8_named utf8string as_utf8string Utf8String, [12], false, [0x41, 0x42];
 h_str h_str_der h_str_named str as_str &str, [12], false, [0x41, 0x42];
 h_string h_string_der h_string_named string as_string String, [12], false, [0x41, 0x42];
 h_numeric h_numeric_der h_numeric_named numericstring as_numericstring NumericString, [18], false, [0x31, 0x32];
 h_printable h_printable_der h_printable_named printablestring as_printablestring PrintableString, [19], false, [0x41, 0x42];
 h_teletex h_teletex_der h_teletex_named teletexstring as_teletexstring TeletexString, [20], false, [0x41, 0x42];
 h_videotex h_videotex_der h_videotex_named videotexstring as_videotexstring VideotexString, [21], false, [0x41, 0x42];
 h_ia5 h_ia5_der h_ia5_named ia5string as_ia5string Ia5String, [22], false, [0x41, 0x42];
 h_graphic h_graphic_der h_graphic_named graphicstring as_graphicstring GraphicString, [25], false, [0x41, 0x42];
 h_visible h_visible_der h_visible_named visiblestring as_visiblestring VisibleString, [26], false, [0x41, 0x42];
 h_general h_general_der h_general_named generalstring as_generalstring GeneralString, [27], false, [0x41, 0x42];
 h_descriptor h_descriptor_der h_descriptor_named objectdescriptor as_objectdescriptor ObjectDescriptor, [7], false, [0x41, 0x42];
 h_universal h_universal_der h_universal_named universalstring as_universalstring UniversalString, [28], false, [0, 0, 0, 0x42];
 h_bmp h_bmp_der h_bmp_named bmpstring as_bmpstring BmpString, [30], false, [0, 0x42];
 h_utctime h_utctime_der h_utctime_named utctime as_utctime UtcTime, [23], false, *b"200102030405Z";
 h_generalizedtime h_generalizedtime_der h_generalizedtime_named generalizedtime as_generalizedtime GeneralizedTime, [24], false, *b"20200102030405Z";
}
