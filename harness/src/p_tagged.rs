//! Tagged types: explicit and implicit tagging, of any class and number.
use crate::refm;
use crate::sx::*;
use asn1_rs::nom::Parser as _;
use asn1_rs::*;

const CTX: u8 = 2;
const APP: u8 = 1;
const PRIV: u8 = 3;
type BE<'a> = BerError<Input<'a>>;

/// what X.690 8.14 says: (identifier and form match, where the contents of the base type are, object end).
/// The base type has universal tag `ut`, and is constructed if `uc`.
fn spec(b: &[u8], class: u8, tag: u32, expl: bool, der: bool, ut: u32, uc: bool) -> Option<(usize, usize, usize, bool)> {
    let h = refm::header(b)?;
    if h.class != class || h.tag != tag || (der && h.len.is_none()) { return None }
    let (s, e, end) = refm::extent(b, 4)?;
    if !expl { return if h.cons == uc { Some((s, e, end, true)) } else { None } }
    if !h.cons { return None }
    let i = refm::header(&b[s..e])?;
    if i.class != 0 || i.tag != ut || i.cons != uc || (der && i.len.is_none()) { return None }
    let (s2, e2, end2) = refm::extent(&b[s..e], 4)?;
    Some((s + s2, s + e2, end, s + end2 == e))
}
/// the class of the inner object is not under test here (see H02)
fn inner_universal(b: &[u8]) {
    if let Some(h) = refm::header(b) { if h.hl < b.len() { assume(b[h.hl] & 0xc0 == 0) } }
}
trait Val { fn ok(c: &[u8]) -> bool; fn must(c: &[u8]) -> bool; fn same(&self, c: &[u8]) -> bool; const UT: u32; const UC: bool; }
impl Val for u8 {
    fn ok(c: &[u8]) -> bool { !c.is_empty() && c.len() < 16 && { let v = refm::int_value(c); v >= 0 && v < 256 } }
    fn must(c: &[u8]) -> bool { Self::ok(c) && refm::int_minimal(c) }
    fn same(&self, c: &[u8]) -> bool { *self as i128 == refm::int_value(c) }
    const UT: u32 = 2;
    const UC: bool = false;
}
impl Val for bool {
    fn ok(c: &[u8]) -> bool { c.len() == 1 }
    fn must(c: &[u8]) -> bool { c.len() == 1 && (c[0] == 0 || c[0] == 255) }
    fn same(&self, c: &[u8]) -> bool { *self == (c[0] != 0) }
    const UT: u32 = 1;
    const UC: bool = false;
}
impl<'a> Val for &'a [u8] {
    fn ok(_: &[u8]) -> bool { true }
    fn must(_: &[u8]) -> bool { true }
    fn same(&self, c: &[u8]) -> bool { refm::eq(self, c) }
    const UT: u32 = 4;
    const UC: bool = false;
}
impl<'a> Val for Sequence<'a> {
    fn ok(_: &[u8]) -> bool { true }
    fn must(_: &[u8]) -> bool { true }
    fn same(&self, c: &[u8]) -> bool { refm::eq(self.as_ref(), c) }
    const UT: u32 = 16;
    const UC: bool = true;
}
macro_rules! dec { ($n:literal, $first:expr, $v:ty, $class:expr, $tag:expr, $expl:literal, $der:literal, |$b:ident| $call:expr, |$o:ident $(: $ot:ty)?| $get:expr) => {{
    let a = bytes::<$n>();
    let n = clen(0, $n);
    let $b = &a[..n];
    let first: Option<&[u8]> = $first;
    if let Some(f) = first { let mut i = 0; while i < f.len() { assume(i >= n || a[i] == f[i]); i += 1 } }
    if $expl { inner_universal($b) }
    let sp = spec($b, $class, $tag, $expl, $der, <$v>::UT, <$v>::UC);
    expect(&["ok", "err"]);
    let res = match $call { Ok((rem, o)) => { let $o $(: $ot)? = o; let l = rem.len(); let v: $v = $get; Ok((l, v)) } Err(_) => Err(()) };
    match res {
        Ok((rl, v)) => {
            cover("ok");
            match sp {
                Some((s, e, end, _)) => {
                    check(end + rl == n, "extent");
                    check(<$v>::ok(&$b[s..e]) && v.same(&$b[s..e]), "value");
                }
                None => {
                    // constructed (segmented) forms of strings: see F03
                    let seg = <$v>::UT == 4 && !$der && spec($b, $class, $tag, $expl, $der, <$v>::UT, true).is_some();
                    check(seg, "accepts another class, tag or form")
                }
            }
        }
        Err(()) => { cover("err"); check(!matches!(sp, Some((s, e, _, true)) if <$v>::must(&$b[s..e])), "rejects a well-formed object") }
    }
}}}
macro_rules! four { ($($fb:ident $fd:ident $pb:ident $pd:ident: $n:literal, $first:expr, $v:ty, $class:ident, $tag:literal, $expl:literal, $kind:ident;)*) => {
    $(
    fn $fb() { dec!($n, $first, $v, $class, $tag, $expl, false, |b| TaggedValue::<$v, Error, $kind, $class, $tag>::from_ber(b), |o| o.into_inner()) }
    fn $fd() { dec!($n, $first, $v, $class, $tag, $expl, true, |b| <TaggedValue::<$v, Error, $kind, $class, $tag> as FromDer<Error>>::from_der(b), |o| o.into_inner()) }
    fn $pb() { dec!($n, $first, $v, $class, $tag, $expl, false, |b| TaggedValue::<$v, BE, $kind, $class, $tag>::parse_ber(Input::from(b)), |o| o.into_inner()) }
    fn $pd() { dec!($n, $first, $v, $class, $tag, $expl, true, |b| TaggedValue::<$v, BE, $kind, $class, $tag>::parse_der(Input::from(b)), |o| o.into_inner()) }
    )*
} }
mod imp {
    use super::*;
    four! {
        e0fb e0fd e0pb e0pd: 7, None, u8, CTX, 0, true, Explicit;
        e1fb e1fd e1pb e1pd: 6, None, bool, APP, 30, true, Explicit;
        e2fb e2fd e2pb e2pd: 8, Some(&[0xff, 0x81]), &[u8], PRIV, 200, true, Explicit;
        e3fb e3fd e3pb e3pd: 8, None, Sequence, CTX, 3, true, Explicit;
        i0fb i0fd i0pb i0pd: 6, None, u8, CTX, 0, false, Implicit;
        i1fb i1fd i1pb i1pd: 6, None, bool, PRIV, 30, false, Implicit;
        i2fb i2fd i2pb i2pd: 8, Some(&[0x5f]), &[u8], APP, 31, false, Implicit;
        i3fb i3fd i3pb i3pd: 7, None, Sequence, CTX, 3, false, Implicit;
    }
    pub fn all() -> [(u8, fn()); 32] {
        [(0, e0fb), (0, e0fd), (0, e0pb), (0, e0pd), (1, e1fb), (1, e1fd), (1, e1pb), (1, e1pd), (2, e2fb), (2, e2fd), (2, e2pb), (2, e2pd), (3, e3fb), (3, e3fd), (3, e3pb), (3, e3pd),
         (4, i0fb), (4, i0fd), (4, i0pb), (4, i0pd), (5, i1fb), (5, i1fd), (5, i1pb), (5, i1pd), (6, i2fb), (6, i2fd), (6, i2pb), (6, i2pd), (7, i3fb), (7, i3fd), (7, i3pb), (7, i3pd)]
    }
}
/// all entry points of one type
fn entry(k: u8) {
    let e = clen(0, 3);
    let (g, f) = imp::all()[k as usize * 4 + e];
    check(g == k, "table");
    f()
}
fn class(c: u8) -> Class { match c { 0 => Class::Universal, 1 => Class::Application, 2 => Class::ContextSpecific, _ => Class::Private } }
fn enc(class: u8, tag: u32, expl: bool, ib: u8, content: &[u8]) -> Vec<u8> {
    let inner = refm::tlv(ib, content);
    if expl {
        let mut v = refm::enc_header(class, true, tag, Some(inner.len() as u64));
        v.extend_from_slice(&inner);
        v
    } else {
        let mut v = refm::enc_header(class, ib & 0x20 != 0, tag, Some(content.len() as u64));
        v.extend_from_slice(content);
        v
    }
}
macro_rules! wr { ($t:expr, $exp:expr) => {{
    let (t, e) = ($t, $exp);
    check(t.ber_total_len() == Length::Definite(e.len()) && t.der_total_len() == Length::Definite(e.len()), "predicted length");
    match t.to_ber_vec() { Ok(w) => check(refm::eq(&w, &e), "BER octets"), Err(_) => fail("to_ber_vec") }
    match t.to_der_vec() { Ok(w) => check(refm::eq(&w, &e), "DER octets"), Err(_) => fail("to_der_vec") }
}}}
macro_rules! wt { ($v:ty, $val:expr, $class:ident, $tag:literal, $expl:literal, $kind:ident, $ctor:ident, $ib:literal, $content:expr) => {{
    let c: &[u8] = $content;
    let e = enc($class, $tag, $expl, $ib, c);
    let t = TaggedValue::<$v, Error, $kind, $class, $tag>::$ctor($val);
    wr!(&t, &e);
    match TaggedValue::<$v, Error, $kind, $class, $tag>::from_ber(&e) { Ok((r, x)) => check(r.is_empty() && x.into_inner().same(c), "reads back"), Err(_) => fail("does not read back") }
    match TaggedValue::<$v, BE, $kind, $class, $tag>::parse_der(Input::from(&e[..])) { Ok((r, x)) => check(r.is_empty() && x.into_inner().same(c), "reads back"), Err(_) => fail("does not read back") }
}}}

fn anyclass<R>(b: &[u8], c: u8, r: R) -> R { assume(!b.is_empty() && b[0] >> 6 == c); r }

harness! {
    fn h_exp_u8() { entry(0) }
    fn h_exp_bool() { entry(1) }
    fn h_exp_long_tag() { entry(2) }
    fn h_exp_seq() { entry(3) }
    fn h_imp_u8() { entry(4) }
    fn h_imp_bool() { entry(5) }
    fn h_imp_long_tag() { entry(6) }
    fn h_imp_seq() { entry(7) }
    fn h_write_types() {
        let x = byte();
        let c2 = refm::enc_int(x as i128);
        wt!(u8, x, CTX, 0, true, Explicit, explicit, 2, &c2);
        wt!(u8, x, CTX, 0, false, Implicit, implicit, 2, &c2);
        wt!(u8, x, APP, 16384, true, Explicit, explicit, 2, &c2);
        wt!(u8, x, PRIV, 4294967295, false, Implicit, implicit, 2, &c2);
        let b = boolean();
        wt!(bool, b, PRIV, 30, true, Explicit, explicit, 1, &[if b { 255 } else { 0 }]);
        wt!(bool, b, APP, 31, false, Implicit, implicit, 1, &[if b { 255 } else { 0 }]);
    }
    fn h_write_lengths() {
        let mut a = [7u8; 256];
        a[0] = byte();
        let k = clen(0, 8);
        let n = [0, 1, 123, 124, 125, 126, 127, 128, 251][k];
        wt!(&[u8], &a[..n], CTX, 0, true, Explicit, explicit, 4, &a[..n]);
        wt!(&[u8], &a[..n], CTX, 127, false, Implicit, implicit, 4, &a[..n]);
        wt!(Sequence, Sequence::new(std::borrow::Cow::Borrowed(&a[..n])), CTX, 128, true, Explicit, explicit, 0x30, &a[..n]);
        wt!(Sequence, Sequence::new(std::borrow::Cow::Borrowed(&a[..n])), CTX, 30, false, Implicit, implicit, 0x30, &a[..n]);
    }
    /// tag and class chosen at run time
    fn h_write_dynamic() {
        let tag = u32();
        let c = clen(1, 3) as u8;
        let x = byte();
        let ci = refm::enc_int(x as i128);
        let t: TaggedParser<Explicit, u8> = TaggedParser::new_explicit(class(c), tag, x);
        let e = enc(c, tag, true, 2, &ci);
        wr!(&t, &e);
        match TaggedParser::<Explicit, u8>::parse_der(class(c), Tag(tag), &e) { Ok((r, y)) => check(r.is_empty() && y.inner == x && y.tag() == Tag(tag) && y.class() == class(c), "reads back"), Err(_) => fail("does not read back") }
        let t: TaggedParser<Implicit, u8> = TaggedParser::new_implicit(class(c), false, tag, x);
        let e = enc(c, tag, false, 2, &ci);
        wr!(&t, &e);
        match TaggedParser::<Implicit, u8>::parse_ber(class(c), Tag(tag), &e) { Ok((r, y)) => check(r.is_empty() && y.inner == x && y.tag() == Tag(tag) && y.class() == class(c), "reads back"), Err(_) => fail("does not read back") }
    }
    /// parsers built at run time, on any input
    fn h_builder_exp() {
        dec!(6, None, u8, CTX, 3, true, false, |b| TaggedParserBuilder::<Explicit, Error>::explicit().with_class(Class::ContextSpecific).with_tag(Tag(3)).ber_parser().parse(b), |o: TaggedParser<Explicit, u8>| o.inner)
    }
    fn h_builder_exp_der() {
        dec!(6, None, u8, APP, 3, true, true, |b| TaggedParserBuilder::<Explicit, Error>::explicit().with_class(Class::Application).with_tag(Tag(3)).der_parser().parse(b), |o: TaggedParser<Explicit, u8>| o.inner)
    }
    fn h_builder_imp() {
        dec!(6, None, bool, CTX, 3, false, false, |b| TaggedParserBuilder::<Implicit, Error>::implicit().with_class(Class::ContextSpecific).with_tag(Tag(3)).ber_parser().parse(b), |o: TaggedParser<Implicit, bool>| o.inner)
    }
    fn h_builder_imp_der() {
        dec!(6, None, bool, PRIV, 3, false, true, |b| TaggedParserBuilder::<Implicit, Error>::implicit().with_class(Class::Private).with_tag(Tag(3)).der_parser().parse(b), |o: TaggedParser<Implicit, bool>| o.inner)
    }
    fn h_and_then_ber() {
        dec!(6, None, u8, PRIV, 9, true, false, |b| TaggedParser::<Explicit, u8, Error>::from_ber_and_then(Class::Private, 9, b, u8::from_ber), |o| o)
    }
    fn h_and_then_der() {
        dec!(6, None, u8, CTX, 9, true, true, |b| TaggedParser::<Explicit, u8, Error>::from_der_and_then(Class::ContextSpecific, 9, b, u8::from_der), |o| o)
    }
    fn h_der_helper_exp() {
        // these take a tag number, and any class
        let c = byte() & 3;
        dec!(6, None, u8, c, 9, true, true, |b| anyclass(b, c, parse_der_tagged_explicit::<_, u8, Error>(9).parse(b)), |o: TaggedParser<Explicit, u8>| o.inner)
    }
    fn h_der_helper_imp() {
        let c = byte() & 3;
        dec!(6, None, u8, c, 9, false, true, |b| anyclass(b, c, parse_der_tagged_implicit::<_, u8, Error>(9).parse(b)), |o: TaggedParser<Implicit, u8>| o.inner)
    }
    /// DER constraints hold under tags too
    fn h_der_constraints() {
        let a = bytes::<3>();
        let n = clen(0, 3);
        let c = &a[..n];
        let minimal = refm::int_minimal(c);
        let imp = enc(CTX, 5, false, 2, c);
        let exp = enc(CTX, 5, true, 2, c);
        check(minimal || TaggedValue::<Integer, BE, Implicit, CTX, 5>::parse_der(Input::from(&imp[..])).is_err(), "implicit, parse_der");
        check(minimal || TaggedValue::<Integer, BE, Explicit, CTX, 5>::parse_der(Input::from(&exp[..])).is_err(), "explicit, parse_der");
        check(minimal || <TaggedValue::<Integer, Error, Explicit, CTX, 5> as FromDer<Error>>::from_der(&exp).is_err(), "explicit, from_der");
        check(minimal || TaggedParser::<Explicit, Integer>::from_der(&exp).is_err(), "explicit parser");
        check(minimal || TaggedParser::<Implicit, Integer>::from_der(&imp).is_err(), "implicit parser");
    }
    /// nested tags
    fn h_nested() {
        let x = byte();
        let ci = refm::enc_int(x as i128);
        type E2<'a> = TaggedValue<TaggedValue<u8, BE<'a>, Explicit, APP, 40>, BE<'a>, Explicit, CTX, 2>;
        let i = enc(APP, 40, true, 2, &ci);
        let mut e = refm::enc_header(CTX, true, 2, Some(i.len() as u64));
        e.extend_from_slice(&i);
        let t: E2 = TaggedValue::explicit(TaggedValue::explicit(x));
        wr!(&t, &e);
        match E2::parse_ber(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && *y.as_ref().as_ref() == x, "reads back"), Err(_) => fail("does not read back") }
        match E2::parse_der(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && *y.as_ref().as_ref() == x, "reads back"), Err(_) => fail("does not read back") }
        type EI<'a> = TaggedValue<TaggedValue<u8, BE<'a>, Implicit, PRIV, 200>, BE<'a>, Explicit, CTX, 2>;
        let i = enc(PRIV, 200, false, 2, &ci);
        let mut e = refm::enc_header(CTX, true, 2, Some(i.len() as u64));
        e.extend_from_slice(&i);
        let t: EI = TaggedValue::explicit(TaggedValue::implicit(x));
        wr!(&t, &e);
        match EI::parse_ber(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && *y.as_ref().as_ref() == x, "reads back"), Err(_) => fail("does not read back") }
        match EI::parse_der(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && *y.as_ref().as_ref() == x, "reads back"), Err(_) => fail("does not read back") }
    }
    /// known findings (only replayed)
    fn k_implicit_nested() {
        // [2] IMPLICIT [APPLICATION 40] EXPLICIT INTEGER
        type IE<'a> = TaggedValue<TaggedValue<u8, BE<'a>, Explicit, APP, 40>, BE<'a>, Implicit, CTX, 2>;
        check(IE::parse_ber(Input::from(&[0xa2u8, 3, 2, 1, 5])).is_ok(), "implicit tag over a tagged type of another tag is refused")
    }
    fn k_implicit_der() { check(<TaggedValue::<Integer, Error, Implicit, CTX, 5> as FromDer<Error>>::from_der(&[0x85, 2, 0, 5]).is_err(), "from_der of implicit tagged values does not apply the DER constraints of the base type") }
    fn k_trailing() { check(TaggedValue::<u8, BE, Explicit, CTX, 0>::parse_der(Input::from(&[0xa0u8, 4, 2, 1, 5, 0xff])).is_err(), "octets after the object inside an explicit tag are ignored") }
}
