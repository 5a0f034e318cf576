//! EMBEDDED PDV (X.680 36, X.690 8.18): identification, descriptor and data value.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

/// where things are: alternative, its contents (one or two parts), descriptor, data value
struct Pdv<'a> { alt: u32, p: &'a [u8], q: &'a [u8], desc: Option<&'a [u8]>, data: &'a [u8], end: usize, sure: bool }
/// the first object of b: (class, constructed, number, contents, what follows)
fn obj(b: &[u8]) -> Option<(refm::Hdr, &[u8], &[u8])> {
    let h = refm::header(b)?;
    let (s, e, end) = refm::extent(b, 5)?;
    Some((h, &b[s..e], &b[end..]))
}
fn part(b: &[u8], tag: u32) -> Option<(&[u8], &[u8])> {
    let (h, c, r) = obj(b)?;
    if h.class == 2 && h.tag == tag && !h.cons { Some((c, r)) } else { None }
}
fn spec(b: &[u8]) -> Option<Pdv<'_>> {
    let (h, c, r) = obj(b)?;
    if h.tag != 11 || !h.cons { return None }
    let end = b.len() - r.len();
    let (h, i, r) = obj(c)?;
    if h.class != 2 || h.tag != 0 || !h.cons { return None }
    let (h, i, x) = obj(i)?;
    if h.class != 2 { return None }
    // what follows inside the explicit tag is ignored: a known finding of F01
    let alone = x.is_empty();
    let alt = h.tag;
    let (p, q): (&[u8], &[u8]) = match alt {
        0 | 3 => {
            if !h.cons { return None }
            let (p, x) = part(i, 0)?;
            let (q, x) = part(x, 1)?;
            if p.is_empty() || q.is_empty() || !x.is_empty() { return None }
            (p, q)
        }
        1 | 2 | 4 => { if h.cons || i.is_empty() { return None } (i, &[]) }
        5 => { if h.cons || !i.is_empty() { return None } (i, &[]) }
        _ => return None,
    };
    // descriptor and data value in segments: the data value is a slice, so it cannot be joined
    let (h, c, x) = obj(r)?;
    let (desc, r, mut sure) = if h.class == 2 && h.tag == 1 { (Some(c), x, !h.cons) } else { (None, r, true) };
    let (h, data, x) = obj(r)?;
    if h.class != 2 || h.tag != 2 || !x.is_empty() || h.cons { return None }
    sure &= alone;
    if let Some(d) = desc { let mut i = 0; while i < d.len() { sure &= d[i] >= 0x20 && d[i] < 0x7f; i += 1 } }
    Some(Pdv { alt, p, q, desc, data, end, sure })
}
fn judge(b: &[u8], der: bool) {
    expect(&["ok", "err"]);
    let sp = spec(b);
    let r = if der { EmbeddedPdv::parse_der(Input::from(b)) } else { EmbeddedPdv::parse_ber(Input::from(b)) };
    match r {
        Ok((rem, v)) => {
            cover("ok");
            let Some(s) = sp else { fail("accepted") };
            check(rem.len() == b.len() - s.end, "extent");
            let id = match &v.identification {
                PdvIdentification::Syntaxes { s_abstract: x, s_transfer: y } => s.alt == 0 && refm::eq(x.as_bytes(), s.p) && refm::eq(y.as_bytes(), s.q),
                PdvIdentification::Syntax(x) => s.alt == 1 && refm::eq(x.as_bytes(), s.p),
                PdvIdentification::PresentationContextId(x) => s.alt == 2 && refm::eq(x.as_ref(), s.p),
                PdvIdentification::ContextNegotiation { presentation_context_id: x, presentation_syntax: y } => s.alt == 3 && refm::eq(x.as_ref(), s.p) && refm::eq(y.as_bytes(), s.q),
                PdvIdentification::TransferSyntax(x) => s.alt == 4 && refm::eq(x.as_bytes(), s.p),
                PdvIdentification::Fixed => s.alt == 5,
            };
            obs(s.alt as u64);
            check(id, "identification");
            check(match (&v.data_value_descriptor, s.desc) { (Some(x), Some(d)) => !s.sure || refm::eq(x.as_ref().as_bytes(), d), (None, None) => true, _ => false }, "descriptor");
            check(refm::eq(v.data_value, s.data), "data value");
        }
        Err(_) => {
            cover("err");
            if let Some(s) = sp { check(!s.sure || (der && !definite(b, 3)), "refused") }
        }
    }
}
/// no indefinite length, at any level
fn definite(b: &[u8], depth: u32) -> bool {
    let mut r = b;
    while let Some((h, c, x)) = obj(r) {
        if h.len.is_none() || (h.cons && depth > 0 && !definite(c, depth - 1)) { return false }
        r = x;
    }
    true
}
/// an encoding with every alternative, with one octet changed
fn build() -> Vec<u8> {
    let a = bytes::<5>();
    assume(a[2] >= 0x20 && a[2] < 0x7f);
    let k = clen(0, 6);
    let i = match k {
        0 | 3 => refm::tlv(0xa0 + k as u8, &[refm::tlv(0x80, &a[..1]), refm::tlv(0x81, &a[1..2])].concat()),
        5 => refm::tlv(0x85, &[]),
        _ => refm::tlv(0x80 + k as u8, &a[..2]),
    };
    let mut c = refm::tlv(0xa0, &i);
    if boolean() { c.extend(refm::tlv(0x81, &a[2..3])) }
    c.extend(refm::tlv(0x82, &a[3..3 + clen(0, 1)]));
    refm::tlv(0x2b, &c)
}
fn mutate(mut v: Vec<u8>) -> Vec<u8> { let i = clen(0, v.len() - 1); v[i] = byte(); v }
fn short() -> ([u8; 9], usize) { let mut b = bytes::<9>(); b[0] = 0x2b; let n = clen(1, 9); (b, n) }
harness! {
    fn h_ber() { judge(&mutate(build()), false) }
    fn h_der() { judge(&mutate(build()), true) }
    fn h_short() { let (b, n) = short(); judge(&b[..n], false) }
    fn h_short_der() { let (b, n) = short(); judge(&b[..n], true) }
    fn h_indefinite() {
        // the object, the identification and the alternative, each of indefinite length or not
        let a = bytes::<3>();
        let wrap = |t: u8, c: Vec<u8>| if boolean() { let mut v = vec![t, 0x80]; v.extend(c); v.extend([0, 0]); v } else { refm::tlv(t, &c) };
        let i = wrap(0xa0, [refm::tlv(0x80, &a[..1]), refm::tlv(0x81, &a[1..2])].concat());
        let mut c = wrap(0xa0, i);
        c.extend(refm::tlv(0x82, &a[2..]));
        let v = mutate(wrap(0x2b, c));
        judge(&v, false)
    }
    fn h_entries() {
        // all ways to decode it
        expect(&["ok", "err"]);
        let v = mutate(build());
        let p = EmbeddedPdv::parse_ber(Input::from(&v));
        let f = EmbeddedPdv::from_ber(&v);
        let a = Any::from_ber(&v).and_then(|(r, a)| Ok((r, a.embedded_pdv().map_err(nom::Err::Error)?)));
        match &p {
            Ok((r, x)) => {
                cover("ok");
                check(matches!(&f, Ok((s, y)) if s.len() == r.len() && x == y) && matches!(&a, Ok((s, y)) if s.len() == r.len() && x == y), "entry points disagree");
            }
            Err(_) => { cover("err"); check(f.is_err() && a.is_err(), "entry points disagree") }
        }
        obs(p.is_ok() as u64);
    }
    fn k_der() {
        check(EmbeddedPdv::parse_der(Input::from(&[0x2b, 10, 0xa0, 0x80, 0x81, 1, 5, 0, 0, 0x82, 1, 0])).is_err(), "parse_der of EMBEDDED PDV accepts components of indefinite length")
    }
}
