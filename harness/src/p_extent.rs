//! A decoder consumes exactly the first encoded object: nothing of what follows, and never less.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

macro_rules! ext { ($e:ident, $t:ty, $n:literal) => { ext!($e, $t, $n, |x: &$t, y: &$t| x == y) }; ($e:ident, $t:ty, $n:literal, $eq:expr) => {{
    let eq = $eq;
    let a = bytes::<$n>();
    let n = clen(0, $n);
    let b = &a[..n];
    expect(&["ok", "err"]);
    match <$t>::$e(Input::from(b)) {
        Ok((rem, v)) => {
            cover("ok");
            match refm::extent(b, 51) {
                Some((_, _, e)) => {
                    check(rem.len() == n - e, "consumes exactly the first object");
                    check(rem.start() == e && rem.end() == n, "position of the remaining input");
                    obs(e as u64);
                    // what follows the object has no influence
                    match <$t>::$e(Input::from(&b[..e])) {
                        Ok((r2, v2)) => check(r2.is_empty() && eq(&v2, &v), "same value without what follows"),
                        Err(_) => fail("fails without what follows"),
                    }
                }
                None => fail("accepts an input that does not hold a complete object"),
            }
        }
        Err(_) => {
            cover("err");
            if let Some((_, _, e)) = refm::extent(b, 51) {
                check(<$t>::$e(Input::from(&b[..e])).is_err(), "accepts the object alone, but not followed by other octets");
            }
        }
    }
}}}
macro_rules! two { ($( $b:ident $d:ident $t:ty, $n:literal; )*) => {
    harness! { $( fn $b() { ext!(parse_ber, $t, $n) } fn $d() { ext!(parse_der, $t, $n) } )*
    fn h_b_set() { ext!(parse_ber, Set, 8, |x: &Set, y: &Set| refm::eq(x.as_ref(), y.as_ref())) }
    fn h_d_set() { ext!(parse_der, Set, 8, |x: &Set, y: &Set| refm::eq(x.as_ref(), y.as_ref())) }
    /// every complete object is accepted as Any, nothing else is
    fn h_any_complete() {
        let a = bytes::<9>();
        let n = clen(0, 9);
        let b = &a[..n];
        let e = refm::extent(b, 51);
        expect(&["ok", "err"]);
        match (Any::parse_ber(Input::from(b)), e) {
            (Ok((rem, any)), Some((s, c, e))) => {
                cover("ok");
                check(rem.len() == n - e, "remaining input");
                check(any.data.as_bytes2().len() == c - s && any.data.start() == s && any.data.end() == c, "content octets");
                obs((c - s) as u64);
            }
            (Err(_), None) => cover("err"),
            (Ok(_), None) => fail("accepts an incomplete object"),
            (Err(_), Some(_)) => fail("rejects a complete object"),
        }
    }
    fn h_any_complete_der() {
        let a = bytes::<8>();
        let n = clen(0, 8);
        let b = &a[..n];
        let r = refm::header(b);
        expect(&["ok", "err"]);
        let full = match &r { Some(h) => match h.len { Some(l) => l <= (n - h.hl) as u64, None => false }, None => false };
        match Any::parse_der(Input::from(b)) {
            Ok((rem, any)) => {
                cover("ok");
                check(full, "accepts an incomplete object");
                let h = r.unwrap();
                check(rem.len() == n - h.hl - h.len.unwrap() as usize, "remaining input");
                check(any.data.start() == h.hl && any.data.end() == h.hl + h.len.unwrap() as usize, "content octets");
            }
            Err(_) => { cover("err"); check(!(full && match &r { Some(h) => h.imin && h.lmin, None => false }), "rejects a complete object") }
        }
    }
    /// objects with long-form lengths: 130 octets of content
    fn h_long_octets() {
        let c = bytes::<3>();
        let mut a = [0u8; 140];
        a[0] = 4; a[1] = 0x81; a[2] = byte();
        a[3] = c[0]; a[60] = c[1]; a[132] = c[2];
        assume(a[2] >= 0x7e);
        let l = conc(a[2] as usize);
        let n = 140;
        expect(&["ok", "err"]);
        match OctetString::parse_ber(Input::from(&a[..n])) {
            Ok((rem, v)) => {
                cover("ok");
                check(3 + l <= n && rem.len() == n - 3 - l, "remaining input");
                check(v.as_ref().len() == l && v.as_ref()[0] == c[0] && v.as_ref()[57] == c[1], "content");
            }
            Err(_) => { cover("err"); check(3 + l > n, "rejects a complete object") }
        }
    }
    fn h_long2_sequence() {
        let mut a = [0u8; 400];
        a[0] = 0x30; a[1] = 0x82; a[2] = byte(); a[3] = byte();
        assume(a[2] <= 1);
        a[399] = byte();
        let l = conc((a[2] as usize) << 8 | a[3] as usize);
        expect(&["ok", "err"]);
        match Sequence::parse_ber(Input::from(&a[..])) {
            Ok((rem, v)) => {
                cover("ok");
                check(4 + l <= 400 && rem.len() == 396 - l && rem.start() == 4 + l, "remaining input");
                check(v.as_ref().len() == l, "content");
            }
            Err(_) => { cover("err"); check(4 + l > 400, "rejects a complete object") }
        }
    }
    /// an object can be cut short by the end of the input at any place, and is then never accepted
    fn h_truncated() {
        let a = bytes::<7>();
        let n = clen(1, 7);
        if let Some((_, _, e)) = refm::extent(&a[..n], 51) {
            let k = clen(0, 6);
            assume(k < e);
            check(Any::parse_ber(Input::from(&a[..k])).is_err(), "accepts a cut object");
            check(Any::parse_der(Input::from(&a[..k])).is_err(), "accepts a cut object (DER)");
            check(Any::from_ber(&a[..k]).is_err() && Any::from_der(&a[..k]).is_err(), "accepts a cut object (slices)");
            obs(k as u64);
        }
    }
    }
}}
two! {
 h_b_bool h_d_bool bool, 7;
 h_b_boolean h_d_boolean Boolean, 7;
 h_b_i32 h_d_i32 i32, 8;
 h_b_u64 h_d_u64 u64, 8;
 h_b_int h_d_int Integer, 8;
 h_b_enum h_d_enum Enumerated, 8;
 h_b_null h_d_null Null, 7;
 h_b_oid h_d_oid Oid, 7;
 h_b_bits h_d_bits BitString, 7;
 h_b_oct h_d_oct OctetString, 8;
 h_b_utf8 h_d_utf8 Utf8String, 7;
 h_b_print h_d_print PrintableString, 7;
 h_b_bmp h_d_bmp BmpString, 7;
 h_b_uni h_d_uni UniversalString, 7;
 h_b_seq h_d_seq Sequence, 8;
 h_b_seqof h_d_seqof SequenceOf<u8>, 8;
 h_b_setof h_d_setof SetOf<u8>, 8;
 h_b_vec h_d_vec Vec<bool>, 8;
 h_b_any h_d_any Any, 8;
 h_b_tup h_d_tup (bool, u8), 9;
}
