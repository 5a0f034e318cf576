//! Every way of decoding an object as a type gives the same result.
#![allow(deprecated)]
use crate::sx::*;
use asn1_rs::*;
#[allow(unused_imports)]
use core::convert::TryFrom;
use std::collections::BTreeSet;

/// the same value
trait Same { fn same(&self, o: &Self) -> bool; }
macro_rules! same { ($($t:ty)*) => { $( impl Same for $t { fn same(&self, o: &Self) -> bool { self == o } } )* } }
same! { bool Boolean Null u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 Integer<'_> Enumerated OctetString<'_> &[u8] BitString Oid<'_>
  Utf8String<'_> &str String PrintableString<'_> NumericString<'_> Ia5String<'_> VisibleString<'_> GeneralString<'_> GraphicString<'_>
  TeletexString<'_> VideotexString<'_> ObjectDescriptor<'_> BmpString<'_> UniversalString<'_> Real Vec<u8> SequenceOf<u8> SetOf<u8>
  Vec<bool> BTreeSet<u8> UtcTime GeneralizedTime EmbeddedPdv<'_> }
impl Same for () { fn same(&self, _: &Self) -> bool { true } }
impl Same for EndOfContent { fn same(&self, _: &Self) -> bool { true } }
impl Same for Sequence<'_> { fn same(&self, o: &Self) -> bool { self.content == o.content } }
impl Same for Set<'_> { fn same(&self, o: &Self) -> bool { self.content == o.content } }
impl Same for f64 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }
impl Same for f32 { fn same(&self, o: &Self) -> bool { self.to_bits() == o.to_bits() } }

const FAIL: usize = usize::MAX;

macro_rules! ber_ways {
    ($t:ty, $b:expr, $r:ident) => {
        // parse_ber is the reference; what is left is told by its length
        let $r = <$t as BerParser>::parse_ber(Input::from($b));
        let left = match &$r { Ok((rem, _)) => rem.len(), Err(_) => FAIL };
        cover(if left == FAIL { "err" } else { "ok" });
        obs(left as u64);
        match <$t as BerParser>::parse_ber_as_input(Input::from($b)) {
            Ok((rem, (h, data))) => match <$t as BerParser>::from_ber_content(&h, data) {
                Ok((_, v)) => match &$r {
                    Ok((_, w)) => { check(rem.len() == left, "contents: remainder"); check(v.same(w), "contents: value") }
                    Err(_) => fail("contents: accepts more"),
                },
                Err(_) => check(left == FAIL, "contents: refuses"),
            },
            Err(_) => check(left == FAIL, "as input: refuses"),
        }
        match <$t as BerParser>::parse_ber_optional(Input::from($b)) {
            Ok((rem, Some(v))) => match &$r {
                Ok((_, w)) => { check(rem.len() == left, "optional: remainder"); check(v.same(w), "optional: value") }
                Err(_) => fail("optional: accepts more"),
            },
            Ok((rem, None)) => {
                check(rem.len() == $b.len(), "optional: consumes an absent object");
                check(left == FAIL, "optional: absent");
            }
            Err(_) => check(left == FAIL, "optional: refuses"),
        }
    };
}
macro_rules! any_ways {
    ($t:ty, $b:expr, $r:ident) => {
        let left = match &$r { Ok((rem, _)) => rem.len(), Err(_) => FAIL };
        let f: ParseResult<$t> = <$t as FromBer>::from_ber($b);
        match f {
            Ok((rem, v)) => match &$r {
                Ok((_, w)) => { check(rem.len() == left, "from_ber: remainder"); check(v.same(w), "from_ber: value") }
                Err(_) => fail("from_ber: accepts more"),
            },
            Err(_) => check(left == FAIL, "from_ber: refuses"),
        }
        match Any::parse_ber(Input::from($b)) {
            Ok((rem, a)) => {
                match <$t>::try_from(a) {
                    Ok(v) => match &$r {
                        Ok((_, w)) => { check(rem.len() == left, "any: remainder"); check(v.same(w), "any: value") }
                        Err(_) => fail("any: accepts more"),
                    },
                    Err(_) => check(left == FAIL, "any: refuses"),
                }
            }
            Err(_) => check(left == FAIL, "any: header refused"),
        }
    };
}
macro_rules! ref_ways {
    ($t:ty, $b:expr, $r:ident) => {
        if let Ok((_, a)) = Any::from_ber($b) {
            match <$t>::try_from(&a) {
                Ok(v) => match &$r {
                    Ok((_, w)) => check(v.same(w), "any reference: value"),
                    Err(_) => fail("any reference: accepts more"),
                },
                Err(_) => check($r.is_err(), "any reference: refuses"),
            }
        }
    };
}
macro_rules! der_ways {
    ($t:ty, $b:expr, $r:ident, $d:ident) => {
        let $d = <$t as DerParser>::parse_der(Input::from($b));
        let dleft = match &$d {
            Ok((rem, v)) => {
                match &$r {
                    Ok((r, w)) => { check(rem.len() == r.len(), "DER: remainder"); check(v.same(w), "DER: value") }
                    Err(_) => fail("DER: accepts more than BER"),
                }
                rem.len()
            }
            Err(_) => FAIL,
        };
        match <$t as DerParser>::parse_der_as_input(Input::from($b)) {
            Ok((rem, (h, data))) => match <$t as DerParser>::from_der_content(&h, data) {
                Ok((_, v)) => match &$d {
                    Ok((_, w)) => { check(rem.len() == dleft, "DER contents: remainder"); check(v.same(w), "DER contents: value") }
                    Err(_) => fail("DER contents: accepts more"),
                },
                Err(_) => check(dleft == FAIL, "DER contents: refuses"),
            },
            Err(_) => check(dleft == FAIL, "DER as input: refuses"),
        }
        match <$t as DerParser>::parse_der_optional(Input::from($b)) {
            Ok((rem, Some(v))) => match &$d {
                Ok((_, w)) => { check(rem.len() == dleft, "DER optional: remainder"); check(v.same(w), "DER optional: value") }
                Err(_) => fail("DER optional: accepts more"),
            },
            Ok((rem, None)) => {
                check(rem.len() == $b.len(), "DER optional: consumes an absent object");
                check(dleft == FAIL, "DER optional: absent");
            }
            Err(_) => check(dleft == FAIL, "DER optional: refuses"),
        }
    };
}
macro_rules! from_der_way {
    ($t:ty, $b:expr, $d:ident) => {
        let f: ParseResult<$t> = <$t as FromDer>::from_der($b);
        match f {
            Ok((rem, v)) => match &$d {
                Ok((r, w)) => { check(rem.len() == r.len(), "from_der: remainder"); check(v.same(w), "from_der: value") }
                Err(_) => fail("from_der: accepts more"),
            },
            Err(_) => check($d.is_err(), "from_der: refuses"),
        }
    };
}
macro_rules! input { ($n:literal) => {{ expect(&["ok", "err"]); let n = clen(0, $n); (bytes::<$n>(), n) }} }
// all of the ways
macro_rules! all { ($t:ty, $b:ident) => {{
    let b = $b;
    ber_ways!($t, b, r); any_ways!($t, b, r); ref_ways!($t, b, r); der_ways!($t, b, r, d); from_der_way!($t, b, d);
}} }
// no conversion from a reference to Any
macro_rules! owned { ($t:ty, $b:ident) => {{
    let b = $b;
    ber_ways!($t, b, r); any_ways!($t, b, r); der_ways!($t, b, r, d); from_der_way!($t, b, d);
}} }
// from_der accepts more (known findings of C01 and E05)
macro_rules! loose { ($t:ty, $b:ident) => {{
    let b = $b;
    ber_ways!($t, b, r); any_ways!($t, b, r); ref_ways!($t, b, r); der_ways!($t, b, r, d);
    let f: ParseResult<$t> = <$t as FromDer>::from_der(b);
    match (&f, &d) { (Ok((_, v)), Ok((_, w))) => check(v.same(w), "from_der: value"), (Err(_), Ok(_)) => fail("from_der: refuses"), _ => () }
}} }
/// BER only
macro_rules! plain { ($t:ty, $b:ident) => {{ let b = $b; ber_ways!($t, b, r); any_ways!($t, b, r); ref_ways!($t, b, r); }} }
/// any tag, length and first octet; the mantissa and exponent are fixed (E05 has all of them)
fn real() -> ([u8; 6], usize) {
    expect(&["ok", "err"]);
    let n = clen(0, 6);
    let tail = [[0, 1, 0], [1, 0x7f, 3], [0xfe, 5, 5], [b'5', b'.', b'1'], [b'1', b'E', b'2']][clen(0, 4)];
    ([byte(), byte(), byte(), tail[0], tail[1], tail[2]], n)
}
macro_rules! table { ($($m:ident $h:ident $t:ty, $n:literal;)*) => { harness! {
    $( fn $h() { let (b, n) = input!($n); let b = &b[..n]; $m!($t, b) } )*
    fn h_real() { let (b, n) = real(); let b = &b[..n]; loose!(Real, b) }
    fn h_f64() { let (b, n) = real(); let b = &b[..n]; loose!(f64, b) }
    fn h_f32() { let (b, n) = real(); let b = &b[..n]; loose!(f32, b) }
    fn h_utc() {
        // two octets of the text, the tag and the length octet are anything
        let mut b = *b"\x17\x0d200102030405Z";
        b[0] = byte();
        b[1] = byte();
        let k = clen(2, 14);
        b[k] = byte();
        let b = &b[..];
        expect(&["ok", "err"]);
        loose!(UtcTime, b)
    }
    fn h_generalized() {
        let mut b = *b"\x18\x1120200102030405.5Z";
        b[0] = byte();
        b[1] = byte();
        let k = clen(2, 18);
        b[k] = byte();
        let b = &b[..];
        expect(&["ok", "err"]);
        loose!(GeneralizedTime, b)
    }
} } }
table! {
     all h_bool bool, 7;
     all h_boolean Boolean, 7;
     all h_null Null, 6;
     all h_unit (), 6;
     all h_u8 u8, 8;
     all h_i16 i16, 8;
     all h_u32 u32, 10;
     all h_i64 i64, 8;
     all h_u128 u128, 8;
     all h_integer Integer, 8;
     all h_octets OctetString, 8;
     all h_slice &[u8], 8;
     all h_bits BitString, 8;
     all h_oid Oid, 8;
     all h_utf8 Utf8String, 8;
     all h_str &str, 8;
     all h_string String, 8;
     all h_printable PrintableString, 8;
     all h_numeric NumericString, 7;
     all h_ia5 Ia5String, 7;
     all h_visible VisibleString, 7;
     all h_general GeneralString, 7;
     all h_graphic GraphicString, 7;
     all h_teletex TeletexString, 7;
     all h_videotex VideotexString, 7;
     all h_descriptor ObjectDescriptor, 7;
     all h_bmp BmpString, 8;
     all h_universal UniversalString, 9;
     all h_sequence Sequence, 8;
     all h_set Set, 8;
     owned h_vec Vec<u8>, 8;
     owned h_sequence_of SequenceOf<u8>, 8;
     owned h_set_of SetOf<u8>, 8;
     owned h_btree BTreeSet<u8>, 8;
     loose h_enumerated Enumerated, 7;
     plain h_eoc EndOfContent, 6;
}
