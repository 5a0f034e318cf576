//! Reference models, written from ITU-T X.690 / X.680, sharing no code with asn1-rs.

#[derive(Clone, Copy)]
pub struct Hdr {
    pub class: u8,
    pub cons: bool,
    pub tag: u32,
    /// None: indefinite
    pub len: Option<u64>,
    /// identifier octets, and identifier + length octets
    pub il: usize,
    pub hl: usize,
    /// identifier and length use their shortest form
    pub imin: bool,
    pub lmin: bool,
}

/// Identifier and length octets (X.690 8.1.2, 8.1.3) whose tag number fits 32 bits in at most five
/// subsequent octets and whose length fits 64 bits.
pub fn header(b: &[u8]) -> Option<Hdr> {
    if b.is_empty() {
        return None;
    }
    let b0 = b[0];
    let class = b0 >> 6;
    let cons = b0 & 0x20 != 0;
    let mut il = 1;
    let mut tag = (b0 & 0x1f) as u64;
    let mut imin = true;
    if tag == 31 {
        tag = 0;
        loop {
            if il >= b.len() || il > 5 {
                return None;
            }
            let x = b[il];
            if il == 1 && x == 0x80 {
                imin = false;
            }
            il += 1;
            tag = tag * 128 + (x & 0x7f) as u64;
            if x < 0x80 {
                break;
            }
        }
        if tag > 0xffff_ffff {
            return None;
        }
        if tag < 31 {
            imin = false;
        }
    }
    if il >= b.len() {
        return None;
    }
    let l0 = b[il];
    let mut hl = il + 1;
    let mut lmin = true;
    let len;
    if l0 < 0x80 {
        len = Some(l0 as u64);
    } else if l0 == 0x80 {
        if !cons {
            return None;
        }
        len = None;
    } else if l0 == 0xff {
        return None;
    } else {
        let n = (l0 & 0x7f) as usize;
        if hl + n > b.len() {
            return None;
        }
        let mut v: u64 = 0;
        let mut i = 0;
        while i < n {
            if v >> 56 != 0 {
                return None;
            }
            v = v << 8 | b[hl + i] as u64;
            i += 1;
        }
        if b[hl] == 0 || v < 128 {
            lmin = false;
        }
        hl += n;
        len = Some(v);
    }
    Some(Hdr { class, cons, tag: tag as u32, len, il, hl, imin, lmin })
}

/// The header octets DER requires for these values.
pub fn enc_header(class: u8, cons: bool, tag: u32, len: Option<u64>) -> Vec<u8> {
    let mut v = Vec::new();
    let f = class << 6 | if cons { 0x20 } else { 0 };
    if tag < 31 {
        v.push(f | tag as u8);
    } else {
        v.push(f | 31);
        if tag >= 1 << 28 {
            v.push(0x80 | (tag >> 28) as u8);
        }
        if tag >= 1 << 21 {
            v.push(0x80 | (tag >> 21 & 0x7f) as u8);
        }
        if tag >= 1 << 14 {
            v.push(0x80 | (tag >> 14 & 0x7f) as u8);
        }
        if tag >= 1 << 7 {
            v.push(0x80 | (tag >> 7 & 0x7f) as u8);
        }
        v.push((tag & 0x7f) as u8);
    }
    match len {
        None => v.push(0x80),
        Some(l) if l < 128 => v.push(l as u8),
        Some(l) => {
            let mut k = 1;
            while k < 8 && l >> (8 * k) != 0 {
                k += 1;
            }
            v.push(0x80 | k as u8);
            let mut i = k;
            while i > 0 {
                i -= 1;
                v.push((l >> (8 * i)) as u8);
            }
        }
    }
    v
}

/// Where the first object of `b` ends (X.690 8.1): (content start, content end, object end).
/// An indefinite length ends at the first end-of-contents octets `00 00` at its own nesting level.
pub fn extent(b: &[u8], depth: u32) -> Option<(usize, usize, usize)> {
    let h = header(b)?;
    match h.len {
        Some(l) => {
            if l > (b.len() - h.hl) as u64 {
                return None;
            }
            let e = h.hl + l as usize;
            Some((h.hl, e, e))
        }
        None => {
            if depth == 0 {
                return None;
            }
            let mut p = h.hl;
            loop {
                if p + 2 <= b.len() && b[p] == 0 && b[p + 1] == 0 {
                    return Some((h.hl, p, p + 2));
                }
                let (_, _, e) = extent(&b[p..], depth - 1)?;
                p += e;
            }
        }
    }
}

/// X.690 8.3.2: first nine bits neither all zero nor all one
pub fn int_minimal(c: &[u8]) -> bool {
    if c.is_empty() {
        return false;
    }
    if c.len() == 1 {
        return true;
    }
    !(c[0] == 0 && c[1] < 0x80 || c[0] == 0xff && c[1] >= 0x80)
}

/// two's complement value of up to 16 octets
pub fn int_value(c: &[u8]) -> i128 {
    let mut v: i128 = if !c.is_empty() && c[0] >= 0x80 { -1 } else { 0 };
    let mut i = 0;
    while i < c.len() {
        v = v << 8 | c[i] as i128;
        i += 1;
    }
    v
}

/// shortest two's complement octets of v
pub fn enc_int(v: i128) -> Vec<u8> {
    let mut n = 16;
    while n > 1 {
        let t = v >> (8 * (n - 1) - 1);
        if t == 0 || t == -1 {
            n -= 1;
        } else {
            break;
        }
    }
    let mut o = Vec::new();
    let mut i = n;
    while i > 0 {
        i -= 1;
        o.push((v >> (8 * i)) as u8);
    }
    o
}

pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

/// universal, short-form identifier + short or long minimal length + content
pub fn tlv(b0: u8, c: &[u8]) -> Vec<u8> {
    let mut v = Vec::new();
    v.push(b0);
    let l = c.len();
    if l < 128 {
        v.push(l as u8);
    } else if l < 256 {
        v.push(0x81);
        v.push(l as u8);
    } else {
        v.push(0x82);
        v.push((l >> 8) as u8);
        v.push(l as u8);
    }
    v.extend_from_slice(c);
    v
}

/// RFC 3629
pub fn utf8(c: &[u8]) -> bool {
    let mut i = 0;
    while i < c.len() {
        let b = c[i];
        let cont = |k: usize| i + k < c.len() && c[i + k] & 0xc0 == 0x80;
        if b < 0x80 { i += 1 }
        else if b >= 0xc2 && b <= 0xdf { if !cont(1) { return false } i += 2 }
        else if b & 0xf0 == 0xe0 {
            if !(cont(1) && cont(2)) { return false }
            if b == 0xe0 && c[i + 1] < 0xa0 || b == 0xed && c[i + 1] >= 0xa0 { return false }
            i += 3
        } else if b >= 0xf0 && b <= 0xf4 {
            if !(cont(1) && cont(2) && cont(3)) { return false }
            if b == 0xf0 && c[i + 1] < 0x90 || b == 0xf4 && c[i + 1] >= 0x90 { return false }
            i += 4
        } else { return false }
    }
    true
}
