//! Contents of SEQUENCE, SET and generic objects handed to functions of the caller.
#![allow(deprecated)]
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
use nom::{Err as E, Needed};
use std::borrow::Cow;

/// what the caller's function does: succeed leaving some octets, or fail in one of three ways
#[derive(Clone, Copy)]
enum Op { Leave(usize), Error, Failure, More }
fn op() -> Op { match clen(0, 4) { 0 => Op::Leave(0), 1 => Op::Leave(1), 2 => Op::Error, 3 => Op::Failure, _ => Op::More } }
const BAD: Error = Error::BerValueError;
/// where the contents it was given start and end, relative to `base`
type Seen = (usize, usize);
fn at(base: &[u8], c: &[u8]) -> Seen { let p = (c.as_ptr() as usize).wrapping_sub(base.as_ptr() as usize); (p, p + c.len()) }
fn run<'a>(o: Op, base: &[u8], c: &'a [u8]) -> ParseResult<'a, Seen> {
    match o {
        Op::Leave(k) => Ok((&c[c.len() - k.min(c.len())..], at(base, c))),
        Op::Error => Err(E::Error(BAD)),
        Op::Failure => Err(E::Failure(BAD)),
        Op::More => Err(E::Incomplete(Needed::new(3))),
    }
}
/// `w`: where contents start and end, and the object ends, if it is accepted
fn judge<X>(n: usize, o: Op, w: Option<(usize, usize, usize)>, r: core::result::Result<(usize, Seen), nom::Err<X>>, bad: impl Fn(&X) -> bool) {
    match (o, w) {
        (Op::Leave(_), Some((s, e, end))) => { cover("ok"); check(matches!(r, Ok((l, (p, q))) if l == n - end && p == s && q == e), "contents and remainder") }
        (_, None) => { cover("err"); check(r.is_err(), "accepted") }
        (Op::Error, _) => check(matches!(r, Err(E::Error(x)) if bad(&x)), "error of the function"),
        (Op::Failure, _) => check(matches!(r, Err(E::Failure(x)) if bad(&x)), "failure of the function"),
        (Op::More, _) => check(matches!(r, Err(E::Incomplete(Needed::Size(k))) if k.get() == 3), "the function asks for more"),
    }
    obs(w.is_some() as u64);
}
/// the object, universal (the class of universal types is a known finding of H02)
fn spec(b: &[u8], tag: u32, der: bool) -> Option<(usize, usize, usize)> {
    let h = refm::header(b)?;
    let x = refm::extent(b, 4)?;
    if h.tag != tag || !h.cons || (der && h.len.is_none()) { return None }
    Some(x)
}
type BE<'a> = BerError<Input<'a>>;
macro_rules! input { () => {{ expect(&["ok", "err"]); let b = bytes::<7>(); let n = clen(0, 7); assume(n == 0 || b[0] & 0xc0 == 0); (b, n, op()) }} }
macro_rules! slices { ($t:ident, $tag:literal) => {{
    let (b, n, o) = input!();
    let b = &b[..n];
    let f = |r: ParseResult<Seen>| r.map(|(l, s)| (l.len(), s));
    judge(n, o, spec(b, $tag, false), f($t::from_ber_and_then(b, |c| run(o, b, c))), |e| *e == BAD);
    judge(n, o, spec(b, $tag, true), f($t::from_der_and_then(b, |c| run(o, b, c))), |e| *e == BAD);
}} }
/// the same for the functions given the header and a positioned input
fn irun<'a>(o: Op, base: &[u8], tag: u32, h: &Header, c: Input<'a>) -> IResult<Input<'a>, Seen, BE<'a>> {
    let p = at(base, c.as_bytes2());
    check(h.tag().0 == tag && h.constructed() && c.start() == p.0 && c.end() == p.1, "header and position");
    match o {
        Op::Leave(k) => { let n = c.len(); let k = k.min(n); Ok((Input::new(&c.as_bytes2()[n - k..], c.end() - k..c.end()), p)) }
        Op::Error => Err(E::Error(BerError::new(c, InnerError::BerValueError))),
        Op::Failure => Err(E::Failure(BerError::new(c, InnerError::BerValueError))),
        Op::More => Err(E::Incomplete(Needed::new(3))),
    }
}
macro_rules! inputs { ($t:ident, $tag:literal) => {{
    let (b, n, o) = input!();
    let b = &b[..n];
    let f = |r: IResult<Input, Seen, BE>| r.map(|(l, s)| { check(l.start() == n - l.len() && l.end() == n, "position of the remainder"); (l.len(), s) }).map_err(|e| e.map(|x| matches!(x.inner(), InnerError::BerValueError)));
    judge(n, o, spec(b, $tag, false), f($t::parse_ber_and_then(Input::from(b), |h, c| irun(o, b, $tag, &h, c))), |e| *e);
    judge(n, o, spec(b, $tag, true), f($t::parse_der_and_then(Input::from(b), |h, c| irun(o, b, $tag, &h, c))), |e| *e);
}} }
macro_rules! held { ($t:ident) => {{
    expect(&["ok"]);
    let b = bytes::<3>();
    let n = clen(0, 3);
    let o = op();
    let b = &b[..n];
    let w = Some((0, n, n));
    let f = |r: ParseResult<Seen>, k: usize| { r.map(|(l, s)| { check(l.len() == k, "what the function leaves"); (0, s) }) };
    let k = match o { Op::Leave(k) => k.min(n), _ => 0 };
    let v = $t::new(Cow::Borrowed(b));
    judge(n, o, w, f(v.parse(|c| run(o, b, c)), k), |e| *e == BAD);
    judge(n, o, w, f(v.clone().parse_into(|c| run(o, b, c)), k), |e| *e == BAD);
    judge(n, o, w, f(v.clone().and_then(|c| match c { Cow::Borrowed(c) => run(o, b, c), _ => fail("copied") }), k), |e| *e == BAD);
    // owned contents: a borrowing function sees them, a consuming one is refused
    let v = $t::new(Cow::Owned(b.to_vec()));
    let own = v.as_ref();
    judge(n, o, w, f(v.parse(|c| run(o, own, c)), k), |e| *e == BAD);
    check(matches!(v.clone().parse_into(|c| run(o, b, c)), Err(E::Error(Error::LifetimeError))), "parse_into of owned contents");
    let r = v.clone().and_then(|c| { check(matches!(c, Cow::Owned(_)) && refm::eq(&c, b), "contents"); Ok::<_, E<Error>>((&b[..0], 7u8)) });
    check(matches!(r, Ok((x, 7)) if x.is_empty()), "and_then of owned contents");
}} }
/// the integers of 8 bits of the contents, if that is all there is
macro_rules! elements { ($t:ident, $ber:ident, $der:ident, $iber:ident $([$u:ty])?, $ider:ident, $rder:ident) => {{
    expect(&["ok", "err"]);
    let b = bytes::<7>();
    let n = clen(0, 7);
    let b = &b[..n];
    let mut good = true;
    for der in [false, true] {
        let mut w: Option<Vec<u8>> = Some(vec![]);
        let mut p = 0;
        while p < n {
            let r = if der { u8::from_der(&b[p..]) } else { u8::from_ber(&b[p..]) };
            match r { Ok((x, v)) => { p = n - x.len(); if let Some(w) = &mut w { w.push(v) } } Err(_) => { w = None; break } }
        }
        cover(if w.is_some() { "ok" } else { "err" });
        let ok = |r: core::result::Result<Vec<u8>, Error>| match (&r, &w) { (Ok(x), Some(y)) => refm::eq(x, y), (Err(_), None) => true, _ => false };
        let (v, o) = ($t::new(Cow::Borrowed(b)), $t::new(Cow::Owned(b.to_vec())));
        if der {
            good &= ok(v.$der::<u8, Error>()) & ok(o.$der::<u8, Error>()) & ok(v.der_iter::<u8, Error>().collect()) & ok(o.der_iter::<u8, Error>().collect());
            good &= ok(v.clone().$ider::<u8 $(, $u)?, Error>()) & ok(o.clone().$ider::<u8 $(, $u)?, Error>()) & ok(v.clone().$rder::<u8, Error>());
            good &= matches!(o.clone().$rder::<u8, Error>(), Err(Error::LifetimeError));
        } else {
            good &= ok(v.$ber::<u8, Error>()) & ok(o.$ber::<u8, Error>()) & ok(v.ber_iter::<u8, Error>().collect()) & ok(o.ber_iter::<u8, Error>().collect());
            good &= ok(v.clone().$iber::<u8 $(, $u)?, Error>()) & ok(o.clone().$iber::<u8 $(, $u)?, Error>());
        }
    }
    obs(good as u64);
    check(good, "elements");
}} }
fn class(c: u8) -> Class { match c & 3 { 0 => Class::Universal, 1 => Class::Application, 2 => Class::ContextSpecific, _ => Class::Private } }
harness! {
    fn h_sequence() { slices!(Sequence, 16) }
    fn h_set() { slices!(Set, 17) }
    fn h_sequence_input() { inputs!(Sequence, 16) }
    fn h_set_input() { inputs!(Set, 17) }
    fn h_sequence_held() { held!(Sequence) }
    fn h_set_held() { held!(Set) }
    fn h_sequence_elements() { elements!(Sequence, ber_sequence_of, der_sequence_of, into_ber_sequence_of [u8], into_der_sequence_of, into_der_sequence_of_ref) }
    fn h_set_elements() { elements!(Set, ber_set_of, der_set_of, into_ber_set_of, into_der_set_of, into_der_set_of_ref) }
    fn h_any() {
        // any class and number
        expect(&["ok", "err"]);
        let b = bytes::<7>();
        let (n, o) = (clen(0, 7), op());
        let b = &b[..n];
        let (c, t) = (byte(), u32());
        let f = |r: ParseResult<Seen>| r.map(|(l, s)| (l.len(), s));
        let w = |der: bool| { let h = refm::header(b)?; if h.class != c & 3 || h.tag != t || (der && h.len.is_none()) { return None } refm::extent(b, 4) };
        judge(n, o, w(false), f(Any::from_ber_and_then(class(c), t, b, |c| run(o, b, c))), |e| *e == BAD);
        judge(n, o, w(true), f(Any::from_der_and_then(class(c), t, b, |c| run(o, b, c))), |e| *e == BAD);
    }
    fn h_helpers() {
        // tagged objects: the number, the contents, and the header handed over
        expect(&["ok", "err"]);
        let b = bytes::<6>();
        let (n, o) = (clen(0, 6), op());
        let b = &b[..n];
        let t = u32();
        let f = |r: ParseResult<Seen>| r.map(|(l, s)| (l.len(), s));
        let hd = refm::header(b);
        let w = hd.and_then(|h| if h.tag != t || h.len.is_none() { None } else { refm::extent(b, 4) });
        let same = |h: &Header, t: u32| { let x = hd.unwrap(); check(h.tag().0 == t && h.class() as u8 == x.class && h.constructed() == x.cons && h.length() == Length::Definite(x.len.unwrap() as usize), "header") };
        let mut p = parse_der_tagged_explicit_g(Tag(t), |c: &[u8], h: Header| { same(&h, t); run(o, b, c) });
        if hd.is_none() || w.is_none() || hd.unwrap().cons {
            judge(n, o, w, f(nom::Parser::parse(&mut p, b)), |e| *e == BAD);
        }
        struct Out(Seen);
        impl Tagged for Out { const TAG: Tag = Tag::Utf8String; }
        let mut p = parse_der_tagged_implicit_g(Tag(t), |c: &[u8], g: Tag, h: Header| { check(g.0 == t, "outer tag"); same(&h, 12); run(o, b, c).map(|(r, s)| (unsafe { core::mem::transmute::<&[u8], &'static [u8]>(r) }, Out(s))) });
        judge(n, o, w, f(nom::Parser::parse(&mut p, unsafe { core::mem::transmute::<&[u8], &'static [u8]>(b) }).map(|(r, s)| (r, s.0))), |e: &Error| *e == BAD);
    }
}
