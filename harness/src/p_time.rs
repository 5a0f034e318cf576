//! UTCTime and GeneralizedTime.
use crate::refm;
use crate::sx::*;
use asn1_rs::*;

#[derive(Clone, Copy, PartialEq)]
struct D { y: u32, mo: u8, d: u8, h: u8, mi: u8, s: u8, ms: Option<u16>, tz: Tz }
#[derive(Clone, Copy, PartialEq)]
enum Tz { No, Z, Off(i32) }

fn dig(b: u8) -> bool { b >= b'0' && b <= b'9' }
fn two(b: &[u8], p: usize) -> Option<u8> {
    if b.len() >= p + 2 && dig(b[p]) & dig(b[p + 1]) { Some((b[p] - b'0') * 10 + (b[p + 1] - b'0')) } else { None }
}
/// X.680 46 and 47, as far as the library documents it: minutes always present, fractions of seconds of one to three digits
fn reference(b: &[u8], gen: bool) -> Option<D> {
    let mut p = 0;
    let mut y = 0u32;
    if gen { y = two(b, 0)? as u32 * 100; p = 2 }
    y += two(b, p)? as u32;
    let mo = two(b, p + 2)?;
    let d = two(b, p + 4)?;
    let h = two(b, p + 6)?;
    let mi = two(b, p + 8)?;
    p += 10;
    let mut s = 0;
    let mut sec = false;
    if let Some(x) = two(b, p) { s = x; sec = true; p += 2 }
    let mut ms = None;
    if gen && sec && p < b.len() && (b[p] == b'.' || b[p] == b',') {
        p += 1;
        let mut v = 0;
        let mut k = 0;
        while p < b.len() && dig(b[p]) { v = v * 10 + (b[p] - b'0') as u16; k += 1; p += 1; if k > 3 { return None } }
        if k == 0 { return None }
        if k == 1 { v *= 100 }
        if k == 2 { v *= 10 }
        ms = Some(v);
    }
    let tz;
    if p == b.len() {
        if !gen || !sec { return None }
        tz = Tz::No;
    } else if b[p] == b'Z' && p + 1 == b.len() { tz = Tz::Z }
    else if (b[p] == b'+' || b[p] == b'-') && p + 5 == b.len() {
        let oh = two(b, p + 1)?;
        let om = two(b, p + 3)?;
        if oh > 23 || om > 59 { return None }
        let o = oh as i32 * 60 + om as i32;
        tz = Tz::Off(if b[p] == b'-' { -o } else { o });
    } else { return None }
    if mo < 1 || mo > 12 || d < 1 || d > 31 || h > 23 || mi > 59 || s > 59 { return None }
    Some(D { y, mo, d, h, mi, s, ms, tz })
}
/// what is in the library's structure
fn of(t: &ASN1DateTime) -> D {
    let tz = match t.tz {
        ASN1TimeZone::Undefined => Tz::No,
        ASN1TimeZone::Z => Tz::Z,
        ASN1TimeZone::Offset(h, m) => { let o = h.unsigned_abs() as i32 * 60 + m.unsigned_abs() as i32; Tz::Off(if h < 0 || h == 0 && m < 0 { -o } else { o }) }
    };
    D { y: t.year, mo: t.month, d: t.day, h: t.hour, mi: t.minute, s: t.second, ms: t.millisecond, tz }
}
fn same(a: &D, b: &D) -> bool {
    (a.y == b.y) & (a.mo == b.mo) & (a.d == b.d) & (a.h == b.h) & (a.mi == b.mi) & (a.s == b.s) & (a.ms == b.ms) & (a.tz == b.tz)
}
fn leap(y: u32) -> bool { y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) }
fn mdays(y: u32, m: u8) -> u8 { match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 } }
fn next_day(y: u32, m: u8, d: u8) -> (u32, u8, u8) {
    if d < mdays(y, m) { (y, m, d + 1) } else if m < 12 { (y, m + 1, 1) } else { (y + 1, 1, 1) }
}
fn prev_day(y: u32, m: u8, d: u8) -> (u32, u8, u8) {
    if d > 1 { (y, m, d - 1) } else if m > 1 { (y, m - 1, mdays(y, m - 1)) } else { (y - 1, 12, 31) }
}
/// days since 1970-01-01, by counting leap years
fn days(y: u32, m: u8, d: u8) -> i64 {
    let p = y as i64 - 1;
    const CUM: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
    let leaps = p / 4 - p / 100 + p / 400;
    p * 365 + leaps + CUM[m as usize - 1] + (if m > 2 && leap(y) { 1 } else { 0 }) + d as i64 - 1 - 719162
}

macro_rules! dec { ($t:ty, $tag:literal, $gen:literal, $lo:literal, $hi:literal, $call:expr, $der:literal) => {{
    let mut a = [0u8; $hi + 2];
    let n = clen($lo, $hi);
    a[0] = $tag;
    a[1] = n as u8;
    let mut i = 0;
    while i < n { a[2 + i] = byte(); i += 1 }
    let b = &a[..2 + n];
    let c = &b[2..];
    let f: fn(&[u8]) -> std::result::Result<(usize, $t), ()> = $call;
    let r = reference(c, $gen);
    expect(&["ok", "err"]);
    match f(b) {
        Ok((l, v)) => {
            cover("ok");
            check(l == 0, "remaining input");
            match r { Some(r) => check(same(&of(&v.0), &r), "another date or time"), None => fail("accepts a malformed time") }
            if $der && $gen {
                check(n >= 15 && c[n - 1] == b'Z', "DER: seconds and Z are mandatory");
                check(n == 15 || c[14] == b'.', "DER: decimal point");
            }
        }
        Err(_) => {
            cover("err");
            // DER: anything not in the one allowed form may be rejected
            let allowed = !$der || if $gen { n >= 15 && c[n - 1] == b'Z' && dig(c[12]) && (n == 15 || c[14] == b'.' && c[n - 2] != b'0') } else { n == 13 && c[12] == b'Z' };
            check(!(r.is_some() && allowed), "rejects a well-formed time");
        }
    }
}}}
macro_rules! m { ($t:ty, $f:ident) => { |b| match <$t>::$f(Input::from(b)) { Ok((r, v)) => Ok((r.len(), v)), Err(_) => Err(()) } } }
macro_rules! mf { ($t:ty, $f:ident) => { |b| match <$t>::$f(b) { Ok((r, v)) => Ok((r.len(), v)), Err(_) => Err(()) } } }

fn tz(k: u8, h: i8, m: i8) -> ASN1TimeZone { match k { 0 => ASN1TimeZone::Undefined, 1 => ASN1TimeZone::Z, _ => ASN1TimeZone::Offset(h, m) } }
/// a date and time within the ranges of its components
fn sym_dt(k: u8, ms: bool) -> ASN1DateTime {
    let y = u16() as u32;
    let (mo, d, h, mi, s) = (byte(), byte(), byte(), byte(), byte());
    assume((y <= 9999) & (mo >= 1) & (mo <= 12) & (d >= 1) & (d <= 31) & (h <= 23) & (mi <= 59) & (s <= 59));
    let z = if k < 2 { tz(k, 0, 0) } else {
        let (oh, om) = (byte() as i8, byte() as i8);
        assume((oh >= -23) & (oh <= 23) & (om >= -59) & (om <= 59) & ((om >= 0) | (oh == 0)));
        tz(2, oh, om)
    };
    let ms = if ms { let x = u16(); assume(x <= 999); Some(x) } else { None };
    ASN1DateTime::new(y, mo, d, h, mi, s, ms, z)
}
/// the instant written is the instant given; one assertion each, so that the solver sees few and large queries
fn same_instant(g: &D, c: &[u8], gen: bool, full_year: u32) {
    let p = if gen { 2 } else { 0 };
    let mut ok = true;
    let mut i = 0;
    while i < 12 + p { ok &= (c[i] >= b'0') & (c[i] <= b'9'); i += 1 }
    check(ok, "digits");
    let n = |q: usize| (c[q] & 15) as i32 * 10 + (c[q + 1] & 15) as i32;
    let (mo, d, h, mi, s) = (n(p + 2), n(p + 4), n(p + 6), n(p + 8), n(p + 10));
    check((s == g.s as i32) & (c[c.len() - 1] == b'Z'), "seconds and zone");
    let off = match g.tz { Tz::Off(o) => o, _ => 0 };
    let t = g.h as i32 * 60 + g.mi as i32 - off;
    let f = (full_year, g.mo, g.d);
    let (e, u) = if t < 0 { (prev_day(f.0, f.1, f.2), t + 1440) } else if t >= 1440 { (next_day(f.0, f.1, f.2), t - 1440) } else { (f, t) };
    check((n(p) == (e.0 % 100) as i32) & (!gen | (n(0) == (e.0 / 100) as i32)), "year");
    check((mo == e.1 as i32) & (d == e.2 as i32), "month and day");
    if off == 0 { check((h == g.h as i32) & (mi == g.mi as i32), "time of day") } else { check((h < 24) & (mi < 60) & (h * 60 + mi == u), "time of day in UTC") }
}
/// kinds of dates at which days carry
fn edge_date(t: &mut ASN1DateTime, y0: u32) {
    const E: [(u32, u8, u8); 12] = [(15, 6, 15), (15, 1, 1), (15, 12, 31), (16, 2, 29), (16, 3, 1), (15, 2, 28), (15, 3, 1), (0, 2, 28), (0, 3, 1), (15, 4, 30), (15, 5, 1), (15, 7, 31)];
    let e = E[clen(0, 11)];
    t.year = y0 + e.0; t.month = e.1; t.day = e.2;
}
/// local times and differentials that stay in the day, go to the next, to the previous
fn edge_time(t: &mut ASN1DateTime) {
    const E: [(u8, u8, i8, i8); 5] = [(12, 0, 1, 0), (23, 30, 0, -30), (0, 29, 0, 30), (0, 0, 23, 59), (23, 59, -23, 59)];
    let e = E[clen(0, 4)];
    t.hour = e.0; t.minute = e.1; t.second = 7; t.tz = ASN1TimeZone::Offset(e.2, e.3);
}
fn enc_gen(t: ASN1DateTime) {
    let v = GeneralizedTime::new(t.clone());
    let l = v.ber_content_len();
    match v.to_der_vec() {
        Ok(w) => {
            cover("ok");
            let n = w.len() - 2;
            check(w[0] == 24 && w[1] as usize == n && l == Length::Definite(n), "header and predicted length");
            let c = &w[2..];
            check(n >= 15 && n != 16 && n <= 19 && c[n - 1] == b'Z', "DER form");
            if n > 15 { check(c[14] == b'.' && c[n - 2] != b'0', "DER form of the fraction") }
            let mut f = 0;
            if n > 15 { let mut i = 15; while i < 18 { f = f * 10 + if i < n - 1 { check(dig(c[i]), "fraction digits"); (c[i] - b'0') as u16 } else { 0 }; i += 1 } }
            check(f == t.millisecond.unwrap_or(0), "fraction");
            same_instant(&of(&t), c, true, t.year);
        }
        Err(_) => {
            cover("err");
            // only what has no representation: the day does not exist, or the UTC year is outside 0 to 9999
            match t.tz {
                ASN1TimeZone::Offset(..) => check((t.day > mdays(t.year, t.month)) | ((t.year == 0) & (t.month == 1) & (t.day == 1)) | ((t.year == 9999) & (t.month == 12) & (t.day == 31)), "refuses a valid time"),
                _ => fail("refuses a valid time"),
            }
        }
    }
}
fn enc_utc(t: ASN1DateTime) {
    let v = UtcTime::new(t.clone());
    let full = if t.year < 50 { t.year + 2000 } else if t.year < 100 { t.year + 1900 } else { t.year };
    let l = v.ber_content_len();
    match v.to_der_vec() {
        Ok(w) => {
            cover("ok");
            check(w.len() == 15 && w[0] == 23 && w[1] == 13 && l == Length::Definite(13), "header and predicted length");
            same_instant(&of(&t), &w[2..], false, full);
        }
        Err(_) => {
            cover("err");
            check((full < 1950) | (full > 2049)
                | matches!(t.tz, ASN1TimeZone::Offset(..)) & ((t.day > mdays(t.year, t.month)) | (t.day > mdays(full, t.month)) | ((full == 1950) & (t.month == 1) & (t.day == 1)) | ((full == 2049) & (t.month == 12) & (t.day == 31))), "refuses a valid time");
        }
    }
}

fn timestamp(t: ASN1DateTime) {
    let full = if t.year < 50 { t.year + 2000 } else { t.year + 1900 };
    assume(t.day <= mdays(full, t.month));
    let off = match of(&t).tz { Tz::Off(o) => o, _ => 0 };
    match UtcTime::new(t.clone()).timestamp() {
        Ok(x) => check(x == days(full, t.month, t.day) * 86400 + t.hour as i64 * 3600 + t.minute as i64 * 60 + t.second as i64 - off as i64 * 60, "timestamp"),
        Err(_) => fail("refuses a valid date"),
    }
}
harness! {
    fn h_utc_parse_ber() { dec!(UtcTime, 23, false, 0, 18, m!(UtcTime, parse_ber), false) }
    fn h_utc_from_ber() { dec!(UtcTime, 23, false, 0, 18, mf!(UtcTime, from_ber), false) }
    fn h_utc_parse_der() { dec!(UtcTime, 23, false, 0, 18, m!(UtcTime, parse_der), true) }
    fn h_utc_from_der() { dec!(UtcTime, 23, false, 0, 18, mf!(UtcTime, from_der), true) }
    fn h_gen_parse_ber() { dec!(GeneralizedTime, 24, true, 0, 24, m!(GeneralizedTime, parse_ber), false) }
    fn h_gen_from_ber() { dec!(GeneralizedTime, 24, true, 0, 24, mf!(GeneralizedTime, from_ber), false) }
    fn h_gen_parse_der() { dec!(GeneralizedTime, 24, true, 0, 24, m!(GeneralizedTime, parse_der), true) }
    fn h_gen_from_der() { dec!(GeneralizedTime, 24, true, 0, 24, mf!(GeneralizedTime, from_der), true) }
    fn h_enc_gen_z() { expect(&["ok"]); enc_gen(sym_dt(1, false)) }
    fn h_enc_gen_local() { expect(&["ok"]); enc_gen(sym_dt(0, false)) }
    fn h_enc_gen_off_time() { expect(&["ok"]); let mut t = sym_dt(2, false); edge_date(&mut t, 2000); t.second = 59; enc_gen(t) }
    fn h_enc_gen_off_date() { expect(&["ok", "err"]); let mut t = sym_dt(2, false); edge_time(&mut t); enc_gen(t) }
    fn h_enc_gen_ms() { expect(&["ok"]); let t = sym_dt(1, true); enc_gen(ASN1DateTime { year: 2024, month: 2, day: 29, hour: 0, minute: 7, ..t }) }
    fn h_enc_utc_z() { expect(&["ok", "err"]); enc_utc(sym_dt(1, false)) }
    fn h_enc_utc_off_time() { expect(&["ok"]); let mut t = sym_dt(2, false); let c = clen(0, 2); edge_date(&mut t, [0, 1960, 84][c]); t.second = 59; if c == 2 { assume(t.year < 100) } enc_utc(t) }
    fn h_enc_utc_off_date() { expect(&["ok", "err"]); let mut t = sym_dt(2, false); edge_time(&mut t); enc_utc(t) }
    /// components out of range are refused, not written with more digits or as other times
    fn h_enc_range() {
        let (y, mo, d, h, mi, s, ms) = (u32(), byte(), byte(), byte(), byte(), byte(), u16());
        let t = ASN1DateTime::new(y, mo, d, h, mi, s, Some(ms), ASN1TimeZone::Z);
        let bad = (y > 9999) | (mo < 1) | (mo > 12) | (d < 1) | (d > 31) | (h > 23) | (mi > 59) | (s > 59) | (ms > 999);
        assume(bad);
        check(GeneralizedTime::new(t.clone()).to_der_vec().is_err(), "writes a time out of range");
        if (y > 9999) | (mo < 1) | (mo > 12) | (d < 1) | (d > 31) | (h > 23) | (mi > 59) | (s > 59) {
            check(UtcTime::new(t).to_der_vec().is_err(), "writes a time out of range (UTCTime)");
        }
    }
    /// conversion to the date and time type of the `time` crate
    fn h_datetime() {
        let k = clen(0, 2) as u8;
        let t = sym_dt(k, true);
        expect(&["ok", "err"]);
        match GeneralizedTime::new(t.clone()).utc_datetime() {
            Ok(o) => {
                cover("ok");
                check(o.year() == t.year as i32 && o.month() as u8 == t.month && o.day() == t.day, "date");
                check(o.hour() == t.hour && o.minute() == t.minute && o.second() == t.second && o.millisecond() == t.millisecond.unwrap(), "time of day");
                let off = match of(&t).tz { Tz::Off(o) => o, _ => 0 };
                check(o.offset().whole_seconds() == off * 60, "offset");
            }
            Err(_) => { cover("err"); check(t.day > mdays(t.year, t.month), "refuses a valid date") }
        }
    }
    fn h_adjusted() {
        let k = clen(1, 2) as u8;
        let t = sym_dt(k, false);
        assume(t.year < 100);
        let full = if t.year < 50 { t.year + 2000 } else { t.year + 1900 };
        expect(&["ok", "err"]);
        match UtcTime::new(t.clone()).utc_adjusted_datetime() {
            Ok(o) => {
                cover("ok");
                check(o.year() == full as i32 && o.month() as u8 == t.month && o.day() == t.day, "date");
                check(o.hour() == t.hour && o.minute() == t.minute && o.second() == t.second && o.nanosecond() == 0, "time of day");
                let off = match of(&t).tz { Tz::Off(o) => o, _ => 0 };
                check(o.offset().whole_seconds() == off * 60, "offset");
            }
            Err(_) => { cover("err"); check(t.day > mdays(full, t.month), "refuses a valid date") }
        }
    }
    fn h_timestamp_time() {
        let mut t = sym_dt(2, false);
        edge_date(&mut t, 0);
        let k = clen(0, 4);
        t.tz = [ASN1TimeZone::Z, ASN1TimeZone::Offset(0, -30), ASN1TimeZone::Offset(5, 45), ASN1TimeZone::Offset(-23, 59), ASN1TimeZone::Offset(12, 0)][k];
        timestamp(t)
    }
    fn h_timestamp_off() {
        let mut t = sym_dt(2, false);
        edge_date(&mut t, 60);
        let k = clen(0, 2);
        t.hour = [0, 12, 23][k]; t.minute = [0, 30, 59][k];
        timestamp(t)
    }
    fn h_timestamp_date() {
        let mut t = sym_dt(2, false);
        edge_time(&mut t);
        let y = clen(0, 7);
        t.year = [0, 1, 4, 49, 50, 72, 99, 68][y];
        timestamp(t)
    }
    fn t_timestamp_date() {
        let mut t = sym_dt(2, false);
        edge_time(&mut t);
        t.year = clen(0, 99) as u32;
        timestamp(t)
    }
    /// text form
    fn h_display() {
        let k = clen(0, 2) as u8;
        let mut t = sym_dt(k, false);
        // the digits are those of the encoder: here only the shape and the zone
        t = ASN1DateTime { year: 2024, month: 2, day: 3, hour: 4, minute: 5, second: t.second, millisecond: None, tz: t.tz };
        let s = std::string::ToString::to_string(&GeneralizedTime::new(t.clone()));
        let b = s.as_bytes();
        let mut e = [0u8; 24];
        let mut i = 0;
        for x in b"2024-02-03 04:05:" { e[i] = *x; i += 1 }
        e[17] = b'0' + t.second / 10;
        e[18] = b'0' + t.second % 10;
        let n = match of(&t).tz {
            Tz::No => 19,
            Tz::Z => { e[19] = b'Z'; 20 }
            Tz::Off(o) => {
                let a = o.unsigned_abs();
                e[19] = if o < 0 { b'-' } else { b'+' };
                e[20] = b'0' + (a / 600) as u8;
                e[21] = b'0' + (a / 60 % 10) as u8;
                e[22] = b'0' + (a % 60 / 10) as u8;
                e[23] = b'0' + (a % 10) as u8;
                24
            }
        };
        check(refm::eq(b, &e[..n]), "text");
        if k > 0 { let u = std::string::ToString::to_string(&UtcTime::new(t)); check(refm::eq(u.as_bytes(), &e[..n]), "text (UTCTime)") }
    }
    fn h_cmp() {
        let (a, b) = (sym_dt(1, false), sym_dt(1, false));
        let x = (a.year, a.month, a.day, a.hour, a.minute, a.second);
        let y = (b.year, b.month, b.day, b.hour, b.minute, b.second);
        check(UtcTime::new(a.clone()).cmp(&UtcTime::new(b.clone())) == x.cmp(&y), "order");
        check((UtcTime::new(a) == UtcTime::new(b)) == (x == y), "equality");
    }
    /// known findings (only replayed)
    fn k_fraction_zeros() { check(GeneralizedTime::parse_der(Input::from(b"\x18\x1220200102030405.30Z")).is_err(), "DER accepts trailing zeros in the fraction") }
    fn k_utc_der_offset() { check(UtcTime::parse_der(Input::from(b"\x17\x110212131429230-0300")).is_err() && UtcTime::parse_der(Input::from(b"\x17\x1102121314292+0300")).is_err() && UtcTime::parse_der(Input::from(b"\x17\x11021213142923-0300")).is_err(), "DER accepts a time differential in UTCTime") }
    fn k_utc_der_seconds() { check(UtcTime::parse_der(Input::from(b"\x17\x0b0212131429Z")).is_err(), "DER accepts UTCTime without seconds") }
}
