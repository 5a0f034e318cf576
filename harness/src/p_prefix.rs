//! An encoding cut short is reported as incomplete, and never taken for another one.
#![allow(deprecated)]
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
use nom::Needed;

/// what parsing gives: octets consumed, incomplete (octets asked for, 0: unknown), or an error
enum Out { Done(usize), More(usize), Fail }
fn out<'a, T>(n: usize, r: nom::IResult<Input<'a>, T, BerError<Input<'a>>>) -> Out {
    match r {
        Ok((rem, _)) => Out::Done(n - rem.len()),
        Err(nom::Err::Incomplete(Needed::Size(k))) => Out::More(k.get()),
        Err(nom::Err::Incomplete(Needed::Unknown)) => Out::More(0),
        Err(_) => Out::Fail,
    }
}
fn sout<'a, T>(n: usize, r: ParseResult<'a, T>) -> Out {
    match r {
        Ok((rem, _)) => Out::Done(n - rem.len()),
        Err(nom::Err::Incomplete(Needed::Size(k))) => Out::More(k.get()),
        Err(nom::Err::Incomplete(Needed::Unknown)) => Out::More(0),
        Err(_) => Out::Fail,
    }
}
/// the library refuses an identifier that ends inside its tag number (an existing test asks for that)
fn cut_tag(b: &[u8]) -> bool {
    let mut open = false;
    let mut i = 0;
    while i < b.len() { open = (b[i] & 0x1f == 0x1f) | (open & (b[i] & 0x80 != 0)); i += 1 }
    open
}
/// whole: k octets of b accepted. Any shorter input is incomplete; what follows does not matter.
fn judge<F: Fn(&[u8]) -> Out>(b: &[u8], f: F) {
    match f(b) {
        Out::Done(k) => {
            cover("ok");
            obs(k as u64);
            check(k > 0 && k <= b.len(), "consumed");
            let j = clen(0, b.len());
            match f(&b[..j]) {
                Out::Done(l) => check(j >= k && l == k, "a shorter input is taken for another object"),
                Out::More(m) => { check(j < k, "more asked for than was needed"); check(m <= k - j, "asks for more than is missing") }
                Out::Fail => check(cut_tag(&b[..j]), "a beginning of an encoding is refused"),
            }
        }
        Out::More(m) => {
            cover("incomplete");
            // asking for more is never wrong for an input that is already refused
            let j = clen(0, b.len());
            match f(&b[..j]) {
                Out::Done(_) => fail("less is enough"),
                Out::More(l) => if l > 0 && m > 0 { check(l <= m || l - m <= b.len() - j, "a longer input asks for less") },
                Out::Fail => check(cut_tag(&b[..j]), "a beginning of an incomplete encoding is refused"),
            }
        }
        Out::Fail => cover("error"),
    }
}
macro_rules! input { ($n:literal) => {{ expect(&["ok", "incomplete"]); let n = clen(1, $n); (bytes::<$n>(), n) }} }
macro_rules! ber { ($t:ty, $n:literal) => {{ let (b, n) = input!($n); judge(&b[..n], |x| out(x.len(), <$t as BerParser>::parse_ber(Input::from(x)))) }} }
macro_rules! der { ($t:ty, $n:literal) => {{ let (b, n) = input!($n); judge(&b[..n], |x| out(x.len(), <$t as DerParser>::parse_der(Input::from(x)))) }} }
macro_rules! fber { ($t:ty, $n:literal) => {{ let (b, n) = input!($n); judge(&b[..n], |x| sout(x.len(), <$t as FromBer>::from_ber(x))) }} }
macro_rules! fder { ($t:ty, $n:literal) => {{ let (b, n) = input!($n); judge(&b[..n], |x| sout(x.len(), <$t as FromDer>::from_der(x))) }} }
#[derive(Sequence)]
#[allow(dead_code)]
struct Rec { a: u8, #[tag_explicit(2)] c: u8 }
#[derive(Choice)]
#[allow(dead_code)]
enum Pick { A(u8), B(bool) }
macro_rules! table { ($($b:ident $d:ident $fb:ident $fd:ident $t:ty, $n:literal;)*) => { harness! {
    $( fn $b() { ber!($t, $n) } fn $d() { der!($t, $n) } fn $fb() { fber!($t, $n) } fn $fd() { fder!($t, $n) } )*
    fn h_header() { ber!(Header, 9) }
    fn h_header_der() { der!(Header, 9) }
    fn h_array() { ber!([u8; 1], 7) }
    fn h_array_der() { der!([u8; 1], 7) }
    fn h_tuple() { ber!((u8, bool), 9) }
    fn h_tuple_der() { der!((u8, bool), 9) }
    fn h_any_sequence() { ber!(AnySequence, 8) }
    fn h_any_sequence_der() { der!(AnySequence, 8) }
    fn h_explicit() { ber!(TaggedExplicit<u8, BerError<Input>, 1>, 8) }
    fn h_explicit_der() { der!(TaggedExplicit<u8, BerError<Input>, 1>, 8) }
    fn h_implicit() { ber!(TaggedImplicit<u8, BerError<Input>, 1>, 7) }
    fn h_implicit_der() { der!(TaggedImplicit<u8, BerError<Input>, 1>, 7) }
    fn h_record() { ber!(Rec, 10) }
    fn h_record_der() { der!(Rec, 10) }
    fn h_choice() { ber!(Pick, 6) }
    fn h_choice_der() { der!(Pick, 6) }
    fn h_long() {
        // objects of any length, with few octets of their contents present
        let (l, b0) = (u32(), byte());
        assume(b0 & 0x1f != 0x1f);
        let mut v = refm::enc_header(b0 >> 6, b0 & 0x20 != 0, (b0 & 31) as u32, Some(l as u64));
        let h = v.len();
        let k = clen(0, 4);
        let mut i = 0;
        while i < k { v.push(byte()); i += 1 }
        let n = v.len();
        expect(&["ok", "incomplete"]);
        for o in [out(n, Any::parse_ber(Input::from(&v))), out(n, Any::parse_der(Input::from(&v))), sout(n, Any::from_ber(&v)), sout(n, Any::from_der(&v))] {
            match o {
                Out::Done(c) => { cover("ok"); check(l as usize <= k && c == h + l as usize, "complete") }
                Out::More(m) => { cover("incomplete"); check(l as usize > k && m == l as usize - k, "octets missing") }
                Out::Fail => fail("refused"),
            }
        }
        obs(k as u64);
    }
} } }
table! {
 h_any h_any_der h_any_from_ber h_any_from_der Any, 9;
 h_bool h_bool_der h_bool_from_ber h_bool_from_der bool, 7;
 h_null h_null_der h_null_from_ber h_null_from_der Null, 6;
 h_u8 h_u8_der h_u8_from_ber h_u8_from_der u8, 7;
 h_integer h_integer_der h_integer_from_ber h_integer_from_der Integer, 7;
 h_oid h_oid_der h_oid_from_ber h_oid_from_der Oid, 7;
 h_octets h_octets_der h_octets_from_ber h_octets_from_der OctetString, 9;
 h_bits h_bits_der h_bits_from_ber h_bits_from_der BitString, 9;
 h_utf8 h_utf8_der h_utf8_from_ber h_utf8_from_der Utf8String, 9;
 h_sequence h_sequence_der h_sequence_from_ber h_sequence_from_der Sequence, 9;
 h_set h_set_der h_set_from_ber h_set_from_der Set, 7;
 h_vec h_vec_der h_vec_from_ber h_vec_from_der Vec<u8>, 9;
 h_set_of h_set_of_der h_set_of_from_ber h_set_of_from_der SetOf<u8>, 7;
}
