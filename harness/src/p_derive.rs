//! Derived SEQUENCE and SET structures: the generated decoders and encoders follow the declared fields.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;
use asn1_rs::nom;

type BE<'a> = BerError<Input<'a>>;

// ---- the structures, each declared twice: by the combined derive and by the six separate ones
macro_rules! both { ($new:ident $old:ident [$d:ident] { $($body:tt)* }) => {
    both!(@ $new $old $d { $($body)* });
};
(@ $new:ident $old:ident Sequence { $($body:tt)* }) => {
    #[derive(Sequence)]
    pub struct $new { $($body)* }
    #[derive(DerSequence)]
    pub struct $old { $($body)* }
};
(@ $new:ident $old:ident Set { $($body:tt)* }) => {
    #[derive(Set)]
    pub struct $new { $($body)* }
    #[derive(DerSet)]
    pub struct $old { $($body)* }
};}
both! { Plain PlainO [Sequence] { pub a: u8, pub b: bool } }
both! { One OneO [Sequence] { pub a: u8 } }
both! { OneSet OneSetO [Set] { pub a: u8 } }
both! { Opt OptO [Sequence] { pub a: u8, pub b: Option<bool>, pub c: Option<u8> } }
both! { Def DefO [Sequence] { pub a: bool, #[default(7_u8)] pub b: u8, #[default(true)] pub c: bool } }
both! { Exp ExpO [Sequence] { #[tag_explicit(0)] #[optional] pub a: Option<u8>, #[tag_explicit(1)] pub b: bool, #[tag_explicit(2)] #[default(7_u8)] pub c: u8 } }
both! { Imp ImpO [Sequence] { #[tag_implicit(0)] #[optional] pub a: Option<u8>, #[tag_implicit(1)] pub b: bool, #[tag_implicit(2)] #[default(7_u8)] pub c: u8 } }
both! { Cls ClsO [Sequence] { #[tag_explicit(APPLICATION 31)] #[optional] pub a: Option<u8>, #[tag_implicit(PRIVATE 300)] pub b: bool, #[tag_implicit(APPLICATION 5)] #[optional] pub c: Option<u8> } }
both! { ExpSet ExpSetO [Set] { #[tag_explicit(0)] #[optional] pub a: Option<u8>, #[tag_implicit(1)] pub b: bool, #[tag_explicit(2)] #[default(7_u8)] pub c: u8 } }

#[derive(Sequence)]
pub struct Nest { pub h: Plain, pub l: Vec<u8>, #[tag_explicit(3)] #[optional] pub o: Option<Plain> }

// ---- reference
#[derive(Clone, Copy)]
pub struct F { mode: u8, class: u8, tag: u32, opt: bool, ty: u8 }
const fn p(ty: u8) -> F { F { mode: 0, class: 0, tag: 0, opt: false, ty } }
const fn po(ty: u8) -> F { F { mode: 0, class: 0, tag: 0, opt: true, ty } }
const fn ex(class: u8, tag: u32, opt: bool, ty: u8) -> F { F { mode: 1, class, tag, opt, ty } }
const fn im(class: u8, tag: u32, opt: bool, ty: u8) -> F { F { mode: 2, class, tag, opt, ty } }
/// universal tags: 2 an INTEGER (0..255), 1 a BOOLEAN
const I: u8 = 2;
const B: u8 = 1;

#[derive(Clone, Copy)]
pub struct V { pres: bool, val: u16 }
pub struct W { v: [V; 3], must: bool, may: bool, used: usize }

fn leaf(ty: u8, c: &[u8]) -> (bool, bool, u16) {
    if ty == I {
        let n = c.len();
        let ok = n > 0 && n < 16 && { let v = refm::int_value(c); v >= 0 && v < 256 };
        (ok, ok && refm::int_minimal(c), if n > 0 { c[n - 1] as u16 } else { 0 })
    } else {
        let ok = c.len() == 1;
        (ok, ok && (c[0] == 0 || c[0] == 255), if ok { (c[0] != 0) as u16 } else { 0 })
    }
}
/// the fields in order over the contents octets
pub fn walk(c: &[u8], fs: &[F], der: bool) -> W {
    let mut w = W { v: [V { pres: false, val: 0 }; 3], must: true, may: true, used: 0 };
    let mut pos = 0;
    let mut k = 0;
    while k < fs.len() {
        let f = &fs[k];
        let r = &c[pos..];
        let (class, tag) = if f.mode == 0 { (0, f.ty as u32) } else { (f.class, f.tag) };
        let h = match refm::header(r) {
            Some(h) => h,
            None => {
                if r.is_empty() && f.opt { k += 1; continue }
                // octets that start no object: an error, unless they are ignored like other trailing octets
                w.must = false;
                if !f.opt { w.may = false; return w }
                k += 1;
                continue;
            }
        };
        if h.class != class || h.tag != tag {
            // universal types: the class of the object is not under test here (see H02)
            if f.mode == 0 && h.tag == tag { assume(false) }
            if f.opt { k += 1; continue }
            w.must = false;
            w.may = false;
            return w;
        }
        if der && h.len.is_none() { w.must = false; w.may = false; return w }
        if der && !(h.imin && h.lmin) { w.must = false }
        let (s, e, end) = match refm::extent(r, 4) { Some(x) => x, None => { w.must = false; w.may = false; return w } };
        let body = if f.mode == 1 {
            if !h.cons { w.must = false; w.may = false; return w }
            let x = &r[s..e];
            let i = match refm::header(x) { Some(i) => i, None => { w.must = false; w.may = false; return w } };
            if i.tag != f.ty as u32 || i.cons || (der && i.len.is_none()) { w.must = false; w.may = false; return w }
            if i.class != 0 { assume(false) }
            if der && !(i.imin && i.lmin) { w.must = false }
            let (s2, e2, end2) = match refm::extent(x, 4) { Some(x) => x, None => { w.must = false; w.may = false; return w } };
            // octets after the object inside an explicit tag: known finding (F01)
            if end2 != x.len() { w.must = false }
            &x[s2..e2]
        } else {
            if h.cons { w.must = false; w.may = false; return w }
            &r[s..e]
        };
        let (ok, must, val) = leaf(f.ty, body);
        if !ok { w.may = false }
        if !must { w.must = false }
        if !w.may { w.must = false; return w }
        w.v[k] = V { pres: true, val };
        pos += end;
        k += 1;
    }
    w.used = pos;
    // octets after the last field: known finding
    if pos != c.len() { w.must = false }
    w
}
fn spec(b: &[u8], tag: u32, fs: &[F], der: bool) -> (W, usize) {
    let no = W { v: [V { pres: false, val: 0 }; 3], must: false, may: false, used: 0 };
    let h = match refm::header(b) { Some(h) => h, None => return (no, 0) };
    if h.tag == tag && h.class != 0 { assume(false) }
    if h.tag != tag || !h.cons || (der && h.len.is_none()) { return (no, 0) }
    match refm::extent(b, 4) {
        None => (no, 0),
        Some((s, e, end)) => { let mut w = walk(&b[s..e], fs, der); if der && !(h.imin && h.lmin) { w.must = false } (w, end) }
    }
}
fn ov<T: Into<u16>>(o: Option<T>) -> V { match o { Some(x) => V { pres: true, val: x.into() }, None => V { pres: false, val: 0 } } }
fn pv<T: Into<u16>>(x: T) -> V { V { pres: true, val: x.into() } }
const NV: V = V { pres: false, val: 0 };
/// the library's answer: (octets left, field values)
type R = Option<(usize, [V; 3])>;
fn judge(b: &[u8], tag: u32, fs: &[F], dflt: [Option<u16>; 3], der: bool, r: R) {
    let (w, end) = spec(b, tag, fs, der);
    match r {
        Some((rl, v)) => {
            cover("ok");
            check(w.may, "accepts what the declaration does not allow");
            check(end + rl == b.len(), "consumes the object, no more");
            let mut k = 0;
            while k < fs.len() {
                let x = match dflt[k] { Some(d) if !w.v[k].pres => V { pres: true, val: d }, _ => w.v[k] };
                check(x.pres == v[k].pres && (!x.pres || x.val == v[k].val), "field value");
                k += 1;
            }
        }
        None => { cover("err"); check(!w.must, "rejects a well-formed structure") }
    }
}
macro_rules! four { ($b:expr, $e:expr, $new:ident, $old:ident, $tag:literal, $fs:expr, $d:expr, |$o:ident| $get:expr) => {{
    let b: &[u8] = $b;
    expect(&["ok", "err"]);
    let (der, r): (bool, R) = match $e {
        0 => (false, $new::parse_ber(Input::from(b)).ok().map(|(rem, $o)| (rem.len(), $get))),
        1 => (true, $new::parse_der(Input::from(b)).ok().map(|(rem, $o)| (rem.len(), $get))),
        2 => (false, $old::from_ber(b).ok().map(|(rem, $o)| (rem.len(), $get))),
        _ => (true, <$old as FromDer>::from_der(b).ok().map(|(rem, $o)| (rem.len(), $get))),
    };
    judge(b, $tag, $fs, $d, der, r)
}}}
/// any contents of up to N octets under the right outer header
fn contents<const N: usize>(id: u8) -> Vec<u8> {
    let a = bytes::<N>();
    let n = clen(0, N);
    let mut v = Vec::with_capacity(N + 2);
    v.push(id);
    v.push(n as u8);
    v.extend_from_slice(&a[..n]);
    v
}
// ---- valid encodings, one of whose octets (any) may then be replaced (by any)
fn enc_leaf(ty: u8, val: u8) -> u8 { if ty == B { if val & 1 != 0 { 255 } else { 0 } } else { val } }
/// the octets of one field
fn enc_field(v: &mut Vec<u8>, f: &F, val: u8) {
    let mut c = Vec::new();
    if f.ty == I && val >= 128 { c.push(0) }
    c.push(enc_leaf(f.ty, val));
    let inner = refm::tlv(f.ty, &c);
    match f.mode {
        0 => v.extend_from_slice(&inner),
        1 => { v.extend_from_slice(&refm::enc_header(f.class, true, f.tag, Some(inner.len() as u64))); v.extend_from_slice(&inner) }
        _ => { v.extend_from_slice(&refm::enc_header(f.class, false, f.tag, Some(c.len() as u64))); v.extend_from_slice(&c) }
    }
}
fn damaged(id: u8, fs: &[F]) -> Vec<u8> {
    let pres = clen(0, (1 << fs.len()) - 1);
    let mut c = Vec::new();
    let mut k = 0;
    while k < fs.len() {
        // INTEGERs below 128 here: their length is then known
        if pres >> k & 1 != 0 { let x = byte(); assume(x < 128); enc_field(&mut c, &fs[k], x) }
        k += 1;
    }
    let mut v = refm::tlv(id, &c);
    let at = clen(0, v.len());
    if at < v.len() { v[at] = byte() }
    v
}
macro_rules! wr { ($t:expr, $e:expr) => {{
    let (t, e) = ($t, $e);
    check(t.ber_total_len() == Length::Definite(e.len()) && t.der_total_len() == Length::Definite(e.len()), "predicted length");
    match t.to_ber_vec() { Ok(w) => check(refm::eq(&w, &e), "BER octets"), Err(_) => fail("to_ber_vec") }
    match t.to_der_vec() { Ok(w) => check(refm::eq(&w, &e), "DER octets"), Err(_) => fail("to_der_vec") }
}}}
fn enc(id: u8, fs: &[F], pres: &[bool], vals: &[u8]) -> Vec<u8> {
    let mut c = Vec::new();
    let mut k = 0;
    while k < fs.len() { if pres[k] { enc_field(&mut c, &fs[k], vals[k]) } k += 1 }
    refm::tlv(id, &c)
}
const PLAIN: &[F] = &[p(I), p(B)];
const OPT: &[F] = &[p(I), po(B), po(I)];
const DEF: &[F] = &[p(B), po(I), po(B)];
const EXP: &[F] = &[ex(2, 0, true, I), ex(2, 1, false, B), ex(2, 2, true, I)];
const IMP: &[F] = &[im(2, 0, true, I), im(2, 1, false, B), im(2, 2, true, I)];
const CLS: &[F] = &[ex(1, 31, true, I), im(3, 300, false, B), im(1, 5, true, I)];
const SET: &[F] = &[ex(2, 0, true, I), im(2, 1, false, B), ex(2, 2, true, I)];
const N3: [Option<u16>; 3] = [None, None, None];
const C7: [Option<u16>; 3] = [None, None, Some(7)];
const D71: [Option<u16>; 3] = [None, Some(7), Some(1)];

harness! {
    /// any octets at all
    fn h_outer() { let a = bytes::<7>(); let n = clen(0, 7); four!(&a[..n], clen(0, 3), One, OneO, 16, &[p(I)], N3, |o| [pv(o.a), NV, NV]) }
    fn h_outer_set() { let a = bytes::<7>(); let n = clen(0, 7); four!(&a[..n], clen(0, 3), OneSet, OneSetO, 17, &[p(I)], N3, |o| [pv(o.a), NV, NV]) }
    fn h_plain() { four!(&contents::<8>(0x30), clen(0, 3), Plain, PlainO, 16, PLAIN, N3, |o| [pv(o.a), pv(o.b), NV]) }
    fn h_optional() { four!(&contents::<9>(0x30), clen(0, 3), Opt, OptO, 16, OPT, N3, |o| [pv(o.a), ov(o.b), ov(o.c)]) }
    fn h_default() { four!(&contents::<8>(0x30), clen(0, 3), Def, DefO, 16, DEF, D71, |o| [pv(o.a), pv(o.b), pv(o.c)]) }
    fn h_explicit() { four!(&contents::<8>(0x30), clen(0, 3), Exp, ExpO, 16, EXP, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    fn h_implicit() { four!(&contents::<8>(0x30), clen(0, 3), Imp, ImpO, 16, IMP, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    fn h_set() { four!(&contents::<8>(0x31), clen(0, 3), ExpSet, ExpSetO, 17, SET, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    fn h_dmg_optional() { four!(&damaged(0x30, OPT), clen(0, 3), Opt, OptO, 16, OPT, N3, |o| [pv(o.a), ov(o.b), ov(o.c)]) }
    fn h_dmg_default() { four!(&damaged(0x30, DEF), clen(0, 3), Def, DefO, 16, DEF, D71, |o| [pv(o.a), pv(o.b), pv(o.c)]) }
    fn h_dmg_explicit() { four!(&damaged(0x30, EXP), clen(0, 3), Exp, ExpO, 16, EXP, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    fn h_dmg_implicit() { four!(&damaged(0x30, IMP), clen(0, 3), Imp, ImpO, 16, IMP, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    fn h_dmg_classes() { four!(&damaged(0x30, CLS), clen(0, 3), Cls, ClsO, 16, CLS, N3, |o| [ov(o.a), pv(o.b), ov(o.c)]) }
    fn h_dmg_set() { four!(&damaged(0x31, SET), clen(0, 3), ExpSet, ExpSetO, 17, SET, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    /// encoders
    fn h_write() {
        let (x, y) = (byte(), byte());
        let q = clen(0, 3);
        let (pa, pc) = (q & 1 != 0, q & 2 != 0);
        let b = boolean();
        let (oa, oc) = (if pa { Some(x) } else { None }, if pc { Some(y) } else { None });
        let bb = b as u8;
        match clen(0, 6) {
            0 => wr!(Plain { a: x, b }, enc(0x30, PLAIN, &[true, true], &[x, bb])),
            1 => wr!(Opt { a: x, b: if pa { Some(b) } else { None }, c: oc }, enc(0x30, OPT, &[true, pa, pc], &[x, bb, y])),
            2 => wr!(Exp { a: oa, b, c: y }, enc(0x30, EXP, &[pa, true, true], &[x, bb, y])),
            3 => wr!(Imp { a: oa, b, c: y }, enc(0x30, IMP, &[pa, true, true], &[x, bb, y])),
            4 => wr!(Cls { a: oa, b, c: oc }, enc(0x30, CLS, &[pa, true, pc], &[x, bb, y])),
            5 => wr!(ExpSet { a: oa, b, c: y }, enc(0x31, SET, &[pa, true, true], &[x, bb, y])),
            _ => wr!(Def { a: b, b: x, c: pa }, enc(0x30, DEF, &[true, true, true], &[bb, x, pa as u8])),
        }
    }
    /// a structure inside a structure, with a list between
    fn h_nested() {
        let (x, y) = (byte(), byte());
        let b = boolean();
        assume(x < 128 && y < 128);
        let q = clen(0, 1) == 1;
        let k = clen(0, 2);
        let l = bytes::<2>();
        assume(l[0] < 128 && l[1] < 128);
        let pl = |x: u8| enc(0x30, PLAIN, &[true, true], &[x, b as u8]);
        let mut c = pl(x);
        let mut lc = Vec::new();
        let mut i = 0;
        while i < k { lc.extend_from_slice(&[2, 1, l[i]]); i += 1 }
        c.extend_from_slice(&refm::tlv(0x30, &lc));
        if q { c.extend_from_slice(&refm::tlv(0xa3, &pl(y))) }
        let e = refm::tlv(0x30, &c);
        wr!(Nest { h: Plain { a: x, b }, l: l[..k].to_vec(), o: if q { Some(Plain { a: y, b }) } else { None } }, &e);
        let r = if clen(0, 1) == 0 { Nest::parse_ber(Input::from(&e[..])).ok() } else { Nest::parse_der(Input::from(&e[..])).ok() };
        match r {
            Some((rem, o)) => {
                check(rem.is_empty() && o.h.a == x && o.h.b == b && refm::eq(&o.l, &l[..k]), "reads back");
                check(match o.o { Some(s) => q && s.a == y && s.b == b, None => !q }, "reads back");
            }
            None => fail("does not read back"),
        }
    }
    fn t_plain() { four!(&contents::<10>(0x30), clen(0, 3), Plain, PlainO, 16, PLAIN, N3, |o| [pv(o.a), pv(o.b), NV]) }
    fn t_explicit() { four!(&contents::<11>(0x30), clen(0, 3), Exp, ExpO, 16, EXP, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    fn t_implicit() { four!(&contents::<10>(0x30), clen(0, 3), Imp, ImpO, 16, IMP, C7, |o| [ov(o.a), pv(o.b), pv(o.c)]) }
    fn t_classes() { four!(&contents::<9>(0x30), clen(0, 3), Cls, ClsO, 16, CLS, N3, |o| [ov(o.a), pv(o.b), ov(o.c)]) }
    fn t_dmg2_classes() {
        let mut v = damaged(0x30, CLS);
        let at = clen(0, v.len());
        if at < v.len() { v[at] = byte() }
        four!(&v, clen(0, 3), Cls, ClsO, 16, CLS, N3, |o| [ov(o.a), pv(o.b), ov(o.c)])
    }
    fn t_dmg2_explicit() {
        let mut v = damaged(0x30, EXP);
        let at = clen(0, v.len());
        if at < v.len() { v[at] = byte() }
        four!(&v, clen(0, 3), Exp, ExpO, 16, EXP, C7, |o| [ov(o.a), pv(o.b), pv(o.c)])
    }
    fn k_check_constraints() {
        match Any::from_ber(&[0x30u8, 5, 0xa1, 3, 1, 1, 0xff]) {
            Ok((_, any)) => check(ExpO::check_constraints(&any).is_ok(), "check_constraints of derived types refuses tagged and absent optional fields"),
            Err(_) => fail("any"),
        }
    }
    fn k_trailing() { check(Plain::parse_der(Input::from(&[0x30u8, 8, 2, 1, 5, 1, 1, 0, 5, 0])).is_err(), "octets after the last field are ignored") }
    fn k_default_encoded() { check(matches!((Def { a: true, b: 7, c: true }).to_der_vec(), Ok(v) if v.len() == 5), "default values are encoded in DER") }
}
