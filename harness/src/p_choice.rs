//! Derived CHOICE, ENUMERATED and alias types.
use crate::refm;
use crate::sx::*;
use asn1_rs::nom::Err;
use asn1_rs::*;

#[derive(Choice)]
pub enum Un { A(u8), B(bool), D(Vec<u8>) }
#[derive(Choice)]
#[tagged_explicit]
pub enum Ex { A(u8), #[tag(5)] B(bool), C(u8), #[tag(200)] D(Vec<u8>) }
#[derive(Choice)]
#[tagged_implicit]
pub enum Im { A(u8), #[tag(5)] B(bool), C(u8), #[tag(200)] D(Vec<u8>) }
/// the separate derives
#[derive(BerParserChoice)]
#[derive(DerParserChoice)]
#[tagged_implicit]
pub enum ImO { A(u8), B(bool) }
#[derive(Choice)]
#[tagged_explicit]
pub enum Outer { P(Un), #[tag(40)] Q(Ex) }

#[derive(Clone, Copy, Enumerated)]
#[repr(u32)]
pub enum En { A, B = 5, C, D = 200, E = 70000, F = 4294967294 }

#[derive(Alias)]
pub struct Al(u8);
#[derive(Alias)]
pub struct AlC(Im);
#[derive(BerAlias)]
pub struct AlB(u8);
#[derive(DerAlias)]
pub struct AlD(u8);
#[derive(Alias)]
pub struct AlAny<'a>(Any<'a>);
#[derive(BerParserAlias)]
#[derive(DerParserAlias)]
pub struct AlP(u8);

#[derive(Sequence)]
pub struct Holder { pub c: Option<Im>, pub e: En, pub l: Option<Al> }

/// universal tags
const I: u8 = 2;
const B: u8 = 1;
const L: u8 = 16;
/// (may be accepted, must be accepted, value)
fn leaf(ty: u8, c: &[u8], der: bool) -> (bool, bool, u64) {
    match ty {
        I => {
            let n = c.len();
            let ok = n > 0 && n < 16 && { let v = refm::int_value(c); v >= 0 && v < 256 };
            (ok, ok && refm::int_minimal(c), if n > 0 { c[n - 1] as u64 } else { 0 })
        }
        B => { let ok = c.len() == 1; (ok, ok && (c[0] == 0 || c[0] == 255), if ok { (c[0] != 0) as u64 } else { 0 }) }
        _ => {
            let (mut may, mut must, mut v) = (true, true, 0u64);
            let mut p = 0;
            let mut k = 0;
            while p < c.len() {
                let h = match refm::header(&c[p..]) { Some(h) => h, None => return (false, false, 0) };
                if h.class != 0 { assume(false) }
                if h.tag != 2 || h.cons || h.len.is_none() { return (false, false, 0) }
                let (s, e, end) = match refm::extent(&c[p..], 4) { Some(x) => x, None => return (false, false, 0) };
                let (a, m, x) = leaf(I, &c[p + s..p + e], der);
                may &= a;
                must &= m && !(der && !(h.imin && h.lmin));
                v = v << 8 | x;
                k += 1;
                p += end;
            }
            (may, must, v << 8 | k)
        }
    }
}
#[derive(Clone, Copy)]
struct Alt { tag: u32, ty: u8 }
const UN: &[Alt] = &[Alt { tag: 2, ty: I }, Alt { tag: 1, ty: B }, Alt { tag: 16, ty: L }];
const TG: &[Alt] = &[Alt { tag: 0, ty: I }, Alt { tag: 5, ty: B }, Alt { tag: 6, ty: I }, Alt { tag: 200, ty: L }];
const TO: &[Alt] = &[Alt { tag: 0, ty: I }, Alt { tag: 1, ty: B }];

struct S { may: bool, must: bool, which: usize, val: u64, end: usize }
const NO: S = S { may: false, must: false, which: 0, val: 0, end: 0 };
/// mode 0: untagged alternatives, 1: explicit, 2: implicit
fn spec(b: &[u8], alts: &[Alt], mode: u8, der: bool) -> S {
    let h = match refm::header(b) { Some(h) => h, None => return NO };
    let mut k = 0;
    while k < alts.len() && alts[k].tag != h.tag { k += 1 }
    if k == alts.len() { return NO }
    if h.class != (if mode == 0 { 0 } else { 2 }) {
        // untagged alternatives: the class of universal types is not under test here (see H02)
        if mode == 0 { assume(false) }
        return NO;
    }
    if der && h.len.is_none() { return NO }
    let mut must = !der || h.imin && h.lmin;
    let (s, e, end) = match refm::extent(b, 4) { Some(x) => x, None => return NO };
    let ty = alts[k].ty;
    let body = if mode == 1 {
        if !h.cons { return NO }
        let x = &b[s..e];
        let i = match refm::header(x) { Some(i) => i, None => return NO };
        if i.tag == ty as u32 && i.class != 0 { assume(false) }
        if i.tag != ty as u32 || i.cons != (ty == L) || (der && i.len.is_none()) { return NO }
        must &= !der || i.imin && i.lmin;
        let (s2, e2, end2) = match refm::extent(x, 4) { Some(x) => x, None => return NO };
        must &= end2 == x.len();
        &x[s2..e2]
    } else {
        if h.cons != (ty == L) { return NO }
        &b[s..e]
    };
    let (may, m, val) = leaf(ty, body, der);
    S { may, must: may && m && must, which: k, val, end }
}
type R = Option<(usize, usize, u64)>;
fn judge(b: &[u8], s: S, r: R) {
    match r {
        Some((rl, w, v)) => {
            cover("ok");
            check(s.may, "accepts what the declaration does not allow");
            check(s.end + rl == b.len(), "consumes the object, no more");
            check(w == s.which, "alternative");
            check(v == s.val, "value");
        }
        None => { cover("err"); check(!s.must, "rejects a well-formed object") }
    }
}
fn lv(v: &[u8]) -> u64 { let mut x = 0u64; let mut i = 0; while i < v.len() { x = x << 8 | v[i] as u64; i += 1 } x << 8 | v.len() as u64 }
fn un(x: Un) -> (usize, u64) { match x { Un::A(a) => (0, a as u64), Un::B(b) => (1, b as u64), Un::D(v) => (2, lv(&v)) } }
fn exv(x: Ex) -> (usize, u64) { match x { Ex::A(a) => (0, a as u64), Ex::B(b) => (1, b as u64), Ex::C(a) => (2, a as u64), Ex::D(v) => (3, lv(&v)) } }
fn imv(x: Im) -> (usize, u64) { match x { Im::A(a) => (0, a as u64), Im::B(b) => (1, b as u64), Im::C(a) => (2, a as u64), Im::D(v) => (3, lv(&v)) } }
fn imo(x: ImO) -> (usize, u64) { match x { ImO::A(a) => (0, a as u64), ImO::B(b) => (1, b as u64) } }
macro_rules! two { ($b:expr, $t:ty, $alts:expr, $mode:literal, $f:expr) => {{
    let b: &[u8] = $b;
    expect(&["ok", "err"]);
    let der = clen(0, 1) == 1;
    let r: R = if der { <$t>::parse_der(Input::from(b)).ok().map(|(rem, o)| { let (w, v) = $f(o); (rem.len(), w, v) }) }
               else { <$t>::parse_ber(Input::from(b)).ok().map(|(rem, o)| { let (w, v) = $f(o); (rem.len(), w, v) }) };
    judge(b, spec(b, $alts, $mode, der), r)
}}}
macro_rules! wr { ($t:expr, $e:expr) => {{
    let (t, e) = ($t, $e);
    check(t.ber_total_len() == Length::Definite(e.len()) && t.der_total_len() == Length::Definite(e.len()), "predicted length");
    match t.to_ber_vec() { Ok(w) => check(refm::eq(&w, &e), "BER octets"), Err(_) => fail("to_ber_vec") }
    match t.to_der_vec() { Ok(w) => check(refm::eq(&w, &e), "DER octets"), Err(_) => fail("to_der_vec") }
}}}
fn tagged(expl: bool, tag: u32, ib: u8, c: &[u8]) -> Vec<u8> {
    let inner = refm::tlv(ib, c);
    let (cons, body): (bool, &[u8]) = if expl { (true, &inner) } else { (ib & 0x20 != 0, c) };
    let mut v = refm::enc_header(2, cons, tag, Some(body.len() as u64));
    v.extend_from_slice(body);
    v
}
fn list(l: &[u8]) -> Vec<u8> {
    let mut c = Vec::new();
    let mut i = 0;
    while i < l.len() { c.push(2); if l[i] < 128 { c.push(1) } else { c.push(2); c.push(0) } c.push(l[i]); i += 1 }
    c
}
/// the universal tag and the contents of alternative k of the tagged types
fn alt(k: usize, x: u8, l: &[u8]) -> (u8, Vec<u8>) {
    match k { 0 | 2 => (2, refm::enc_int(x as i128)), 1 => { let mut v = Vec::new(); v.push(if x & 1 != 0 { 255 } else { 0 }); (1, v) } _ => (0x30, list(l)) }
}
const TAGS: [u32; 4] = [0, 5, 6, 200];
fn mk_ex(k: usize, x: u8, l: &[u8]) -> Ex { match k { 0 => Ex::A(x), 1 => Ex::B(x & 1 != 0), 2 => Ex::C(x), _ => Ex::D(l.to_vec()) } }
fn mk_im(k: usize, x: u8, l: &[u8]) -> Im { match k { 0 => Im::A(x), 1 => Im::B(x & 1 != 0), 2 => Im::C(x), _ => Im::D(l.to_vec()) } }
fn damaged(expl: bool) -> Vec<u8> {
    let k = clen(0, 3);
    let l = bytes::<2>();
    let x = byte();
    assume(x < 128 && l[0] < 128 && l[1] < 128);
    let (ib, c) = alt(k, x, &l[..clen(0, 2)]);
    let mut v = tagged(expl, TAGS[k], ib, &c);
    let at = clen(0, v.len());
    if at < v.len() { v[at] = byte() }
    v
}
const ENV: [u32; 6] = [0, 5, 6, 200, 70000, 4294967294];
fn en(e: En) -> u32 { match e { En::A => 0, En::B => 5, En::C => 6, En::D => 200, En::E => 70000, En::F => 4294967294 } }
fn mk_en(k: usize) -> En { match k { 0 => En::A, 1 => En::B, 2 => En::C, 3 => En::D, 4 => En::E, _ => En::F } }

harness! {
    fn h_untagged() { let a = bytes::<8>(); let n = clen(0, 8); two!(&a[..n], Un, UN, 0, un) }
    fn h_explicit() { let a = bytes::<8>(); let n = clen(0, 8); two!(&a[..n], Ex, TG, 1, exv) }
    fn h_implicit() { let a = bytes::<8>(); let n = clen(0, 8); two!(&a[..n], Im, TG, 2, imv) }
    fn h_implicit_separate() { let a = bytes::<6>(); let n = clen(0, 6); two!(&a[..n], ImO, TO, 2, imo) }
    fn h_alias_choice() { let a = bytes::<6>(); let n = clen(0, 6); two!(&a[..n], AlC, TG, 2, |x: AlC| imv(x.0)) }
    fn h_dmg_explicit() { two!(&damaged(true), Ex, TG, 1, exv) }
    fn h_dmg_implicit() { two!(&damaged(false), Im, TG, 2, imv) }
    fn h_alias() {
        let a = bytes::<6>();
        let n = clen(0, 6);
        let b = &a[..n];
        expect(&["ok", "err"]);
        let e = clen(0, 6);
        let (der, r): (bool, Option<(usize, u8)>) = match e {
            0 => (false, Al::parse_ber(Input::from(b)).ok().map(|(r, o)| (r.len(), o.0))),
            1 => (true, Al::parse_der(Input::from(b)).ok().map(|(r, o)| (r.len(), o.0))),
            2 => (false, AlB::from_ber(b).ok().map(|(r, o)| (r.len(), o.0))),
            3 => (false, AlD::from_ber(b).ok().map(|(r, o)| (r.len(), o.0))),
            4 => (true, <AlD as FromDer>::from_der(b).ok().map(|(r, o)| (r.len(), o.0))),
            5 => (false, AlP::parse_ber(Input::from(b)).ok().map(|(r, o)| (r.len(), o.0))),
            _ => (true, AlP::parse_der(Input::from(b)).ok().map(|(r, o)| (r.len(), o.0))),
        };
        let s = spec(b, &UN[..1], 0, der);
        judge(b, s, r.map(|(l, v)| (l, 0, v as u64)))
    }
    /// an alias of a type decodes as that type does, DER constraints included
    fn h_alias_same() {
        let a = bytes::<5>();
        let n = clen(0, 5);
        let b = &a[..n];
        match clen(0, 3) {
            0 => match (<AlD as FromDer>::from_der(b), <u8 as FromDer>::from_der(b)) {
                (Ok((r, x)), Ok((q, y))) => check(r.len() == q.len() && x.0 == y, "same"),
                (Err(_), Err(_)) => (),
                // the DER constraints of the type are not applied by the alias: known finding
                (Ok((r, x)), Err(_)) => match u8::from_ber(b) { Ok((q, y)) => check(r.len() == q.len() && x.0 == y, "same"), Err(_) => fail("accepts what the type does not") },
                _ => fail("from_der of the alias rejects what the type accepts"),
            },
            1 => match (AlB::from_ber(b), u8::from_ber(b)) {
                (Ok((r, x)), Ok((q, y))) => check(r.len() == q.len() && x.0 == y, "same"),
                (Err(_), Err(_)) => (),
                _ => fail("from_ber of the alias and of the type differ"),
            },
            2 => match (Al::parse_der(Input::from(b)), u8::parse_der(Input::from(b))) {
                (Ok((r, x)), Ok((q, y))) => check(r.len() == q.len() && x.0 == y, "same"),
                (Err(_), Err(_)) => (),
                _ => fail("parse_der of the alias and of the type differ"),
            },
            _ => match (AlAny::parse_ber(Input::from(b)), Any::parse_ber(Input::from(b))) {
                (Ok((r, x)), Ok((q, y))) => check(r.len() == q.len() && x.0.tag() == y.tag() && x.0.class() == y.class() && refm::eq(x.0.data.as_bytes2(), y.data.as_bytes2()), "same"),
                (Err(_), Err(_)) => (),
                _ => fail("parse_ber of the alias and of the type differ"),
            },
        }
    }
    fn h_enumerated() {
        let a = bytes::<6>();
        let n = clen(0, 6);
        let mut v = Vec::with_capacity(8);
        v.push(byte());
        v.push(n as u8);
        v.extend_from_slice(&a[..n]);
        assume(v[0] & 0xc0 == 0 && v[0] & 0x1f != 31);
        let c = &a[..n];
        let der = clen(0, 1) == 1;
        let val = if n > 0 { refm::int_value(c) } else { -1 };
        let known = val == 0 || val == 5 || val == 6 || val == 200 || val == 70000 || val == 4294967294;
        let r = if der { En::parse_der(Input::from(&v[..])).ok() } else { En::parse_ber(Input::from(&v[..])).ok() };
        expect(&["ok", "err"]);
        match r {
            Some((rem, e)) => { cover("ok"); check(v[0] == 10 && known && rem.is_empty() && en(e) as i128 == val, "accepts another value") }
            None => { cover("err"); check(!(v[0] == 10 && known && refm::int_minimal(c)), "rejects a declared value") }
        }
    }
    fn h_write_enumerated() {
        let k = clen(0, 5);
        wr!(mk_en(k), refm::tlv(10, &refm::enc_int(ENV[k] as i128)));
    }
    fn h_write_explicit() {
        let k = clen(0, 3);
        let l = bytes::<2>();
        let x = byte();
        let l = &l[..clen(0, 2)];
        let (ib, c) = alt(k, x, l);
        let e = tagged(true, TAGS[k], ib, &c);
        wr!(mk_ex(k, x, l), &e);
        match Ex::parse_der(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && exv(y) == exv(mk_ex(k, x, l)), "reads back"), Err(_) => fail("does not read back") }
        match Ex::parse_ber(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && exv(y) == exv(mk_ex(k, x, l)), "reads back"), Err(_) => fail("does not read back") }
    }
    fn h_write_implicit() {
        let k = clen(0, 3);
        let l = bytes::<2>();
        let x = byte();
        let l = &l[..clen(0, 2)];
        let (ib, c) = alt(k, x, l);
        let e = tagged(false, TAGS[k], ib, &c);
        wr!(mk_im(k, x, l), &e);
        wr!(AlC(mk_im(k, x, l)), &e);
        match Im::parse_der(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && imv(y) == imv(mk_im(k, x, l)), "reads back"), Err(_) => fail("does not read back") }
        match Im::parse_ber(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && imv(y) == imv(mk_im(k, x, l)), "reads back"), Err(_) => fail("does not read back") }
    }
    fn h_write_untagged() {
        let k = clen(0, 2);
        let l = bytes::<2>();
        let x = byte();
        let l = &l[..clen(0, 2)];
        let (ib, c) = alt(if k == 2 { 3 } else { k }, x, l);
        let e = refm::tlv(ib, &c);
        let mk = || match k { 0 => Un::A(x), 1 => Un::B(x & 1 != 0), _ => Un::D(l.to_vec()) };
        wr!(mk(), &e);
        match Un::parse_der(Input::from(&e[..])) { Ok((r, y)) => check(r.is_empty() && un(y) == un(mk()), "reads back"), Err(_) => fail("does not read back") }
        wr!(Al(x), refm::tlv(2, &refm::enc_int(x as i128)));
        // one choice inside another
        let o = tagged(true, 0, ib, &c);
        wr!(Outer::P(mk()), &o);
        match Outer::parse_ber(Input::from(&o[..])) { Ok((r, Outer::P(y))) => check(r.is_empty() && un(y) == un(mk()), "reads back"), _ => fail("does not read back") }
        let (ib, c) = alt(k, x, l);
        let q = tagged(true, TAGS[k], ib, &c);
        let mut o = refm::enc_header(2, true, 40, Some(q.len() as u64));
        o.extend_from_slice(&q);
        wr!(Outer::Q(mk_ex(k, x, l)), &o);
        match Outer::parse_der(Input::from(&o[..])) { Ok((r, Outer::Q(y))) => check(r.is_empty() && exv(y) == exv(mk_ex(k, x, l)), "reads back"), _ => fail("does not read back") }
    }
    /// a choice, an enumerated and an alias as components
    fn h_components() {
        let k = clen(0, 4);
        let l = bytes::<1>();
        let x = byte();
        let ek = clen(0, 5);
        let y = byte();
        let p = clen(0, 1) == 1;
        let mut c = Vec::new();
        if k < 4 { let (ib, cc) = alt(k, x, &l); c.extend_from_slice(&tagged(false, TAGS[k], ib, &cc)) }
        c.extend_from_slice(&refm::tlv(10, &refm::enc_int(ENV[ek] as i128)));
        if p { c.extend_from_slice(&refm::tlv(2, &refm::enc_int(y as i128))) }
        let e = refm::tlv(0x30, &c);
        wr!(Holder { c: if k < 4 { Some(mk_im(k, x, &l)) } else { None }, e: mk_en(ek), l: if p { Some(Al(y)) } else { None } }, &e);
        let r = if clen(0, 1) == 0 { Holder::parse_ber(Input::from(&e[..])).ok() } else { Holder::parse_der(Input::from(&e[..])).ok() };
        match r {
            Some((rem, h)) => {
                check(rem.is_empty() && en(h.e) == ENV[ek], "reads back");
                check(match h.c { Some(i) => k < 4 && imv(i) == imv(mk_im(k, x, &l)), None => k == 4 }, "choice reads back");
                check(match h.l { Some(a) => p && a.0 == y, None => !p }, "alias reads back");
            }
            None => fail("does not read back"),
        }
    }
    fn k_alias_der() { check(<AlD as FromDer>::from_der(&[2, 2, 0, 5]).is_err(), "from_der of an alias does not apply the DER constraints of its type") }
    fn t_untagged() { let a = bytes::<10>(); let n = clen(0, 10); two!(&a[..n], Un, UN, 0, un) }
    fn t_explicit() { let a = bytes::<10>(); let n = clen(0, 10); two!(&a[..n], Ex, TG, 1, exv) }
    fn t_implicit() { let a = bytes::<10>(); let n = clen(0, 10); two!(&a[..n], Im, TG, 2, imv) }
    fn k_trailing() { check(Ex::parse_der(Input::from(&[0xa0u8, 5, 2, 1, 5, 5, 0])).is_err(), "octets after the object of an explicitly tagged alternative are ignored") }
}
