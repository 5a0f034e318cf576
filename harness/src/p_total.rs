//! Decoders are total: every byte string gives Ok or Err, never a panic, an overflow, an
//! out-of-bounds access or non-termination.
use crate::sx::*;
use asn1_rs::*;

macro_rules! ber { ($t:ty, $n:literal) => {{
    let b = bytes::<$n>();
    let n = clen(0, $n);
    expect(&["ok", "err"]);
    match <$t as BerParser>::parse_ber(Input::from(&b[..n])) {
        Ok((rem, _v)) => { cover("ok"); obs(rem.len() as u64) }
        Err(_) => { cover("err"); obs(1000) }
    }
}}}
macro_rules! der { ($t:ty, $n:literal) => {{
    let b = bytes::<$n>();
    let n = clen(0, $n);
    expect(&["ok", "err"]);
    match <$t as DerParser>::parse_der(Input::from(&b[..n])) {
        Ok((rem, _v)) => { cover("ok"); obs(rem.len() as u64) }
        Err(_) => { cover("err"); obs(1000) }
    }
}}}
macro_rules! fber { ($t:ty, $n:literal) => {{
    let b = bytes::<$n>();
    let n = clen(0, $n);
    expect(&["ok", "err"]);
    let r: ParseResult<$t> = <$t as FromBer>::from_ber(&b[..n]);
    match r {
        Ok((rem, _v)) => { cover("ok"); obs(rem.len() as u64) }
        Err(_) => { cover("err"); obs(1000) }
    }
}}}
macro_rules! fder { ($t:ty, $n:literal) => {{
    let b = bytes::<$n>();
    let n = clen(0, $n);
    expect(&["ok", "err"]);
    let r: ParseResult<$t> = <$t as FromDer>::from_der(&b[..n]);
    match r {
        Ok((rem, _v)) => { cover("ok"); obs(rem.len() as u64) }
        Err(_) => { cover("err"); obs(1000) }
    }
}}}
macro_rules! four { ($( $b:ident $d:ident $fb:ident $fd:ident $t:ty, $n:literal; )*) => {
    harness! { $( fn $b() { ber!($t, $n) } fn $d() { der!($t, $n) } fn $fb() { fber!($t, $n) } fn $fd() { fder!($t, $n) } )* }
}}
four! {
 h_b_bool h_d_bool h_fb_bool h_fd_bool bool, 8;
 h_b_i8 h_d_i8 h_fb_i8 h_fd_i8 i8, 8;
 h_b_u8 h_d_u8 h_fb_u8 h_fd_u8 u8, 8;
 h_b_i64 h_d_i64 h_fb_i64 h_fd_i64 i64, 12;
 h_b_u32 h_d_u32 h_fb_u32 h_fd_u32 u32, 8;
 h_b_int h_d_int h_fb_int h_fd_int Integer, 8;
 h_b_enum h_d_enum h_fb_enum h_fd_enum Enumerated, 8;
 h_b_null h_d_null h_fb_null h_fd_null Null, 8;
 h_b_oid h_d_oid h_fb_oid h_fd_oid Oid, 8;
 h_b_bits h_d_bits h_fb_bits h_fd_bits BitString, 8;
 h_b_oct h_d_oct h_fb_oct h_fd_oct OctetString, 8;
 h_b_utf8 h_d_utf8 h_fb_utf8 h_fd_utf8 Utf8String, 8;
 h_b_num h_d_num h_fb_num h_fd_num NumericString, 8;
 h_b_print h_d_print h_fb_print h_fd_print PrintableString, 8;
 h_b_ia5 h_d_ia5 h_fb_ia5 h_fd_ia5 Ia5String, 8;
 h_b_vis h_d_vis h_fb_vis h_fd_vis VisibleString, 8;
 h_b_bmp h_d_bmp h_fb_bmp h_fd_bmp BmpString, 8;
 h_b_uni h_d_uni h_fb_uni h_fd_uni UniversalString, 8;
 h_b_seq h_d_seq h_fb_seq h_fd_seq Sequence, 8;
 h_b_set h_d_set h_fb_set h_fd_set Set, 8;
 h_b_seqof h_d_seqof h_fb_seqof h_fd_seqof SequenceOf<u8>, 8;
 h_b_setof h_d_setof h_fb_setof h_fd_setof SetOf<u8>, 8;
 h_b_vec h_d_vec h_fb_vec h_fd_vec Vec<u8>, 8;
 h_b_any h_d_any h_fb_any h_fd_any Any, 8;
}
