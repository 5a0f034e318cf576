//! Hash-consed bit-vector expressions with local simplification.
use crate::ir::{mask, sext};
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32; // 0 = none

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u8(*x)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Opc {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Concat,
    Extract,
    ZExt,
    SExt,
    Ite,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    // floating point on IEEE bit patterns (width 32 or 64)
    FAdd,
    FSub,
    FMul,
    FDiv,
    FLt,
    FLe,
    FEq,
    FUno,
    FToS,
    FToU,
    SToF,
    UToF,
    FToF,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Opc,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

/// words in a variable set: at most 64*NV symbolic input bytes per harness (checked at run time)
pub const NV: usize = 8;
pub type VSet = [u64; NV];

pub struct Exprs {
    pub n: Vec<Node>,
    map: FxMap<Node, E>,
    /// variables occurring in the node (bitset)
    pub vars: Vec<VSet>,
    /// does the node contain an if-then-else?
    pub has_ite: Vec<bool>,
    /// an unsigned upper bound of the node's value
    pub ub: Vec<u128>,
}

impl Exprs {
    pub fn new() -> Self {
        let dummy = Node { op: Opc::Const, w: 0, a: 0, b: 0, c: 0, k: 0 };
        Exprs { n: vec![dummy], map: FxMap::default(), vars: vec![[0; NV]], has_ite: vec![false], ub: vec![0] }
    }
    fn intern(&mut self, nd: Node) -> E {
        if let Some(&e) = self.map.get(&nd) {
            return e;
        }
        let id = self.n.len() as u32;
        let mut v: VSet = [0u64; NV];
        if nd.op == Opc::Var {
            v[(nd.k as usize >> 6) % NV] |= 1 << (nd.k as u64 & 63);
        } else {
            for x in [nd.a, nd.b, nd.c] {
                if x != 0 {
                    let o = self.vars[x as usize];
                    for i in 0..NV {
                        v[i] |= o[i]
                    }
                }
            }
        }
        let hi = nd.op == Opc::Ite || [nd.a, nd.b, nd.c].iter().any(|x| self.has_ite[*x as usize]);
        let ub = self.bound(&nd);
        self.ub.push(ub);
        self.n.push(nd);
        self.vars.push(v);
        self.has_ite.push(hi);
        self.map.insert(nd, id);
        id
    }
    fn bound(&self, n: &Node) -> u128 {
        let m = mask(n.w);
        let (a, b, c) = (self.ub[n.a as usize], self.ub[n.b as usize], self.ub[n.c as usize]);
        let low = |x: u128| if x == 0 { 0 } else { u128::MAX >> x.leading_zeros() };
        let r = match n.op {
            Opc::Const => n.k,
            Opc::ZExt => a,
            Opc::SExt => {
                let wa = self.w(n.a);
                if a >> (wa - 1) == 0 { a } else { m }
            }
            Opc::Concat => {
                let wb = self.w(n.b);
                if wb >= 128 { b } else { a << wb | b.max(low(b)) }
            }
            Opc::Extract => {
                let lo = n.k as u32;
                if lo >= 128 { 0 } else { a >> lo }
            }
            Opc::Add => a.checked_add(b).filter(|x| *x <= m).unwrap_or(m),
            Opc::Mul => a.checked_mul(b).filter(|x| *x <= m).unwrap_or(m),
            Opc::UDiv => match self.kc(n.b) {
                Some(k) if k > 0 => a / k,
                _ => m,
            },
            Opc::URem => match self.kc(n.b) {
                Some(k) if k > 0 => a.min(k - 1),
                _ => a,
            },
            Opc::And => a.min(b),
            Opc::Or | Opc::Xor => low(a | b),
            Opc::LShr => a,
            Opc::Ite => b.max(c),
            Opc::Eq | Opc::Ult | Opc::Ule | Opc::Slt | Opc::Sle => 1,
            _ => m,
        };
        r.min(m)
    }
    /// number of bits that hold every value of the node
    fn bits(&self, e: E) -> u32 {
        (128 - self.ub[e as usize].leading_zeros()).max(1)
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    #[inline]
    pub fn kc(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.op == Opc::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn cst(&mut self, w: u32, k: u128) -> E {
        self.intern(Node { op: Opc::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, i: u32) -> E {
        self.intern(Node { op: Opc::Var, w: 8, a: 0, b: 0, c: 0, k: i as u128 })
    }
    fn mk(&mut self, op: Opc, w: u32, a: E, b: E, c: E) -> E {
        self.intern(Node { op, w, a, b, c, k: 0 })
    }
    pub fn not1(&mut self, a: E) -> E {
        let o = self.cst(1, 1);
        self.bin(Opc::Xor, a, o)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Opc::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Opc::Or, a, b)
    }

    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let nd = self.n[e as usize];
        debug_assert!(lo + w <= nd.w);
        if lo == 0 && w == nd.w {
            return e;
        }
        match nd.op {
            Opc::Const => self.cst(w, nd.k >> lo),
            Opc::Extract => self.extract(nd.a, lo + nd.k as u32, w),
            Opc::Concat => {
                let wl = self.w(nd.b);
                if lo + w <= wl {
                    self.extract(nd.b, lo, w)
                } else if lo >= wl {
                    self.extract(nd.a, lo - wl, w)
                } else {
                    let h = self.extract(nd.a, 0, lo + w - wl);
                    let l = self.extract(nd.b, lo, wl - lo);
                    self.concat(h, l)
                }
            }
            Opc::ZExt => {
                let wa = self.w(nd.a);
                if lo >= wa {
                    self.cst(w, 0)
                } else if lo + w <= wa {
                    self.extract(nd.a, lo, w)
                } else {
                    let x = self.extract(nd.a, lo, wa - lo);
                    self.zext(x, w)
                }
            }
            Opc::SExt if lo + w <= self.w(nd.a) => self.extract(nd.a, lo, w),
            Opc::And | Opc::Or | Opc::Xor => {
                let x = self.extract(nd.a, lo, w);
                let y = self.extract(nd.b, lo, w);
                self.bin(nd.op, x, y)
            }
            Opc::Add | Opc::Sub | Opc::Mul if lo == 0 => {
                let x = self.extract(nd.a, 0, w);
                let y = self.extract(nd.b, 0, w);
                self.bin(nd.op, x, y)
            }
            Opc::Ite if self.kc(nd.b).is_some() || self.kc(nd.c).is_some() => {
                let x = self.extract(nd.b, lo, w);
                let y = self.extract(nd.c, lo, w);
                self.ite(nd.a, x, y)
            }
            _ => self.intern(Node { op: Opc::Extract, w, a: e, b: 0, c: 0, k: lo as u128 }),
        }
    }
    /// Byte `lo..lo+8` of a value stored to memory. Arithmetic is kept whole so that reloading the
    /// value gives back the stored expression.
    pub fn mem_byte(&mut self, e: E, lo: u32) -> E {
        let nd = self.n[e as usize];
        match nd.op {
            Opc::Const | Opc::Extract | Opc::Concat | Opc::ZExt => self.extract(e, lo, 8),
            _ if nd.w == 8 => e,
            _ => self.intern(Node { op: Opc::Extract, w: 8, a: e, b: 0, c: 0, k: lo as u128 }),
        }
    }
    /// (base expr, lo) if e is a slice of a bigger expression
    fn slice(&self, e: E) -> (E, u32) {
        let n = &self.n[e as usize];
        if n.op == Opc::Extract {
            (n.a, n.k as u32)
        } else {
            (e, 0)
        }
    }
    fn try_merge(&mut self, h: E, l: E) -> Option<E> {
        if let (Some(a), Some(b)) = (self.kc(h), self.kc(l)) {
            let wl = self.w(l);
            let w = self.w(h) + wl;
            return Some(self.cst(w, (a << wl) | b));
        }
        if self.n[h as usize].op == Opc::Extract {
            let (bh, loh) = self.slice(h);
            let (bl, lol) = self.slice(l);
            let wl = self.w(l);
            if bh == bl && self.n[l as usize].op == Opc::Extract && loh == lol + wl {
                let w = self.w(h) + wl;
                let n = &self.n[bh as usize];
                if w == n.w {
                    return Some(bh);
                }
                if matches!(n.op, Opc::Add | Opc::Sub | Opc::Mul | Opc::Ite | Opc::And | Opc::Or | Opc::Xor) {
                    return Some(self.intern(Node { op: Opc::Extract, w, a: bh, b: 0, c: 0, k: lol as u128 }));
                }
                return Some(self.extract(bh, lol, w));
            }
            // low part simplified through a sign/zero extension: SExt(a) bytes
            let nb = self.n[bh as usize];
            if nb.op == Opc::SExt {
                let wa = self.w(nb.a);
                // l == extract(nb.a, loh - wl, wl) and loh <= wa
                if loh >= wl && loh <= wa {
                    let want = self.extract(nb.a, loh - wl, wl);
                    if want == l {
                        let w = self.w(h) + wl;
                        return Some(self.extract(bh, loh - wl, w));
                    }
                }
            }
        }
        None
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        if let Some(m) = self.try_merge(h, l) {
            return m;
        }
        if self.kc(h) == Some(0) {
            let w = self.w(h) + self.w(l);
            return self.zext(l, w);
        }
        let nl = self.n[l as usize];
        if nl.op == Opc::Concat {
            if let Some(m) = self.try_merge(h, nl.a) {
                return self.concat(m, nl.b);
            }
        }
        if nl.op == Opc::ZExt && self.kc(h).is_none() {
            // make the zero gap explicit: concat(h, concat(0, x))
            let gap = nl.w - self.w(nl.a);
            let z = self.cst(gap, 0);
            let hz = self.mk_concat(h, z);
            return self.mk_concat(hz, nl.a);
        }
        let nh = self.n[h as usize];
        if nh.op == Opc::ZExt {
            let w = nh.w + nl.w;
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        if nh.op == Opc::Concat {
            if let Some(m) = self.try_merge(nh.b, l) {
                return self.concat(nh.a, m);
            }
            // right-nest
            let r = self.concat(nh.b, l);
            if self.n[r as usize].op != Opc::ZExt {
                return self.mk_concat(nh.a, r);
            }
        }
        self.mk_concat(h, l)
    }
    fn mk_concat(&mut self, h: E, l: E) -> E {
        let w = self.w(h) + self.w(l);
        self.mk(Opc::Concat, w, h, l, 0)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n[e as usize];
        if n.w == w {
            return e;
        }
        match n.op {
            Opc::Const => self.cst(w, n.k),
            Opc::ZExt => self.zext(n.a, w),
            Opc::Ite if self.kc(n.b).is_some() && self.kc(n.c).is_some() => {
                let x = self.cst(w, self.n[n.b as usize].k);
                let y = self.cst(w, self.n[n.c as usize].k);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Opc::ZExt, w, e, 0, 0),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n[e as usize];
        if n.w == w {
            return e;
        }
        match n.op {
            Opc::Const => self.cst(w, sext(n.k, n.w) as u128),
            Opc::ZExt => self.zext(n.a, w),
            Opc::SExt => self.sext(n.a, w),
            _ => self.mk(Opc::SExt, w, e, 0, 0),
        }
    }
    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(k) = self.kc(c) {
            return if k == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        let nc = self.n[c as usize];
        if nc.op == Opc::Xor && self.kc(nc.b) == Some(1) {
            return self.ite(nc.a, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.kc(t), self.kc(f)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.or1(c, f),
                (Some(0), None) => {
                    let n = self.not1(c);
                    return self.and1(n, f);
                }
                (None, Some(0)) => return self.and1(c, t),
                (None, Some(1)) => {
                    let n = self.not1(c);
                    return self.or1(n, t);
                }
                _ => {}
            }
        }
        let nt = self.n[t as usize];
        if nt.op == Opc::Ite && nt.a == c {
            return self.ite(c, nt.b, f);
        }
        let nf = self.n[f as usize];
        if nf.op == Opc::Ite && nf.a == c {
            return self.ite(c, t, nf.c);
        }
        self.mk(Opc::Ite, w, c, t, f)
    }
    fn flatten(&self, e: E, out: &mut Vec<(u32, E)>) {
        // low to high; E==0 stands for zero bits
        let n = &self.n[e as usize];
        match n.op {
            Opc::Concat => {
                let (a, b) = (n.a, n.b);
                self.flatten(b, out);
                self.flatten(a, out);
            }
            Opc::ZExt => {
                let (a, w) = (n.a, n.w);
                self.flatten(a, out);
                out.push((w - self.w(a), 0));
            }
            Opc::Const if n.k == 0 => out.push((n.w, 0)),
            _ => out.push((n.w, e)),
        }
    }
    /// Merge `a | b` (or a + b, a ^ b) when their non-zero segments are disjoint.
    fn disjoint(&mut self, a: E, b: E) -> Option<E> {
        let oa = self.n[a as usize].op;
        let ob = self.n[b as usize].op;
        let st = |o| matches!(o, Opc::Concat | Opc::ZExt);
        if !(st(oa) || st(ob)) {
            return None;
        }
        let mut fa = vec![];
        let mut fb = vec![];
        self.flatten(a, &mut fa);
        self.flatten(b, &mut fb);
        if fa.len() + fb.len() > 40 {
            return None;
        }
        let w = self.w(a);
        let (mut ia, mut ib) = (0, 0);
        let (mut oa, mut ob) = (0u32, 0u32); // consumed bits of the current segment
        let mut pos = 0;
        let mut parts: Vec<E> = vec![];
        while pos < w {
            let (wa, ea) = fa[ia];
            let (wb, eb) = fb[ib];
            let take = (wa - oa).min(wb - ob);
            let part = if ea == 0 && eb == 0 {
                self.cst(take, 0)
            } else if eb == 0 {
                self.extract(ea, oa, take)
            } else if ea == 0 {
                self.extract(eb, ob, take)
            } else {
                // both constants are fine if disjoint is not needed; give up otherwise
                let x = self.extract(ea, oa, take);
                let y = self.extract(eb, ob, take);
                if self.kc(x) == Some(0) {
                    y
                } else if self.kc(y) == Some(0) {
                    x
                } else {
                    return None;
                }
            };
            parts.push(part);
            pos += take;
            oa += take;
            ob += take;
            if oa == wa {
                ia += 1;
                oa = 0
            }
            if ob == wb {
                ib += 1;
                ob = 0
            }
        }
        let mut acc = parts[0];
        for p in &parts[1..] {
            acc = self.concat(*p, acc);
        }
        Some(acc)
    }
    pub fn bin(&mut self, op: Opc, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ka, kb) = (self.kc(a), self.kc(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(v) = fold(op, w, x, y) {
                let rw = if is_cmp(op) { 1 } else { w };
                return self.cst(rw, v);
            }
        }
        let m = mask(w);
        use Opc::*;
        match op {
            Add | And | Or | Xor | Mul | Eq if ka.is_some() && kb.is_none() => return self.bin(op, b, a),
            And | Or | Xor | Add | Mul | Eq if kb.is_none() && a > b => return self.bin(op, b, a),
            _ => {}
        }
        match op {
            Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(e) = self.disjoint(a, b) {
                    return e;
                }
                if let Some(e) = self.linear(Add, a, b) {
                    return e;
                }
            }
            Sub => {
                if let Some(k) = kb {
                    let c = self.cst(w, k.wrapping_neg());
                    return self.bin(Add, a, c);
                }
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(e) = self.linear(Sub, a, b) {
                    return e;
                }
            }
            UDiv | URem if self.bits(a).max(self.bits(b)) < w => {
                let k = self.bits(a).max(self.bits(b));
                let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
                if op == URem || kb.map_or(false, |v| v != 0) {
                    let d = self.bin(op, x, y);
                    return self.zext(d, w);
                }
            }
            _ => {}
        }
        match op {
            Mul => {
                let k = self.ub[a as usize].checked_mul(self.ub[b as usize]).map_or(128, |x| 128 - x.leading_zeros()).max(1);
                if k < w && !kb.map_or(false, |v| v < 2 || v.is_power_of_two()) {
                    let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
                    let d = self.bin(Mul, x, y);
                    return self.zext(d, w);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(Shl, a, s);
                    }
                }
            }
            UDiv => {
                if let Some(k) = kb {
                    if k == 1 {
                        return a;
                    }
                    if k != 0 && k.is_power_of_two() {
                        let s = self.cst(w, k.trailing_zeros() as u128);
                        return self.bin(LShr, a, s);
                    }
                    let n = self.n[a as usize];
                    if n.op == ZExt && k != 0 {
                        let wa = self.w(n.a);
                        if k <= mask(wa) {
                            let c = self.cst(wa, k);
                            let d = self.bin(UDiv, n.a, c);
                            return self.zext(d, w);
                        }
                    }
                }
            }
            URem => {
                if let Some(k) = kb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.cst(w, k - 1);
                        return self.bin(And, a, s);
                    }
                    let n = self.n[a as usize];
                    if n.op == ZExt && k != 0 {
                        let wa = self.w(n.a);
                        if k <= mask(wa) {
                            let c = self.cst(wa, k);
                            let d = self.bin(URem, n.a, c);
                            return self.zext(d, w);
                        }
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    let n = self.n[a as usize];
                    if n.op == ZExt {
                        let wa = self.w(n.a);
                        let c = self.cst(wa, k);
                        let x = self.bin(And, n.a, c);
                        return self.zext(x, w);
                    }
                    let tz = k.trailing_zeros();
                    let ones = (k >> tz).trailing_ones();
                    if (k >> tz) == mask(ones) && (n.op == Concat || tz == 0 || tz + ones == w) {
                        // contiguous mask
                        let x = self.extract(a, tz, ones);
                        let y = if tz > 0 {
                            let z = self.cst(tz, 0);
                            self.concat(x, z)
                        } else {
                            x
                        };
                        return self.zext(y, w);
                    }
                    if n.op == Concat {
                        let wl = self.w(n.b);
                        let kh = self.cst(w - wl, k >> wl);
                        let kl = self.cst(wl, k);
                        let h = self.bin(And, n.a, kh);
                        let l = self.bin(And, n.b, kl);
                        return self.concat(h, l);
                    }
                    if n.op == And {
                        if let Some(k2) = self.kc(n.b) {
                            let c = self.cst(w, k & k2);
                            return self.bin(And, n.a, c);
                        }
                    }
                } else if w == 1 {
                    // a & !a
                    let nb = self.n[b as usize];
                    if nb.op == Xor && nb.a == a && self.kc(nb.b) == Some(1) {
                        return self.cst(1, 0);
                    }
                    let na = self.n[a as usize];
                    if na.op == Xor && na.a == b && self.kc(na.b) == Some(1) {
                        return self.cst(1, 0);
                    }
                } else {
                    let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                    if na.op == ZExt || nb.op == ZExt {
                        let (z, o) = if na.op == ZExt { (na, b) } else { (nb, a) };
                        let wz = self.w(z.a);
                        let y = self.extract(o, 0, wz);
                        let x = self.bin(And, z.a, y);
                        return self.zext(x, w);
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if let Some(e) = self.disjoint(a, b) {
                    return e;
                }
            }
            Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let n = self.n[a as usize];
                    if n.op == Xor {
                        if let Some(k2) = self.kc(n.b) {
                            let c = self.cst(w, k ^ k2);
                            return self.bin(Xor, n.a, c);
                        }
                    }
                    if w == 1 && k == 1 {
                        // push negation into comparisons
                        match n.op {
                            Ult => return self.bin(Ule, n.b, n.a),
                            Ule => return self.bin(Ult, n.b, n.a),
                            Slt => return self.bin(Sle, n.b, n.a),
                            Sle => return self.bin(Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
                if let Some(e) = self.disjoint(a, b) {
                    return e;
                }
            }
            Shl => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u32;
                    let x = self.extract(a, 0, w - k);
                    let z = self.cst(k, 0);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if let Some(k) = kb {
                    if k == 0 {
                        return a;
                    }
                    let k = k.min(w as u128 - 1) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                let n = self.n[a as usize];
                if let Some(k) = kb {
                    if k > self.ub[a as usize] {
                        return self.cst(1, 0);
                    }
                    if w == 1 {
                        return if k == 1 { a } else { self.not1(a) };
                    }
                    match n.op {
                        ZExt => {
                            let wa = self.w(n.a);
                            if k > mask(wa) {
                                return self.cst(1, 0);
                            }
                            let c = self.cst(wa, k);
                            return self.bin(Eq, n.a, c);
                        }
                        SExt => {
                            let wa = self.w(n.a);
                            let t = k & mask(wa);
                            if (sext(t, wa) as u128) & m != k {
                                return self.cst(1, 0);
                            }
                            let c = self.cst(wa, t);
                            return self.bin(Eq, n.a, c);
                        }
                        Concat => {
                            let wl = self.w(n.b);
                            let ch = self.cst(w - wl, k >> wl);
                            let cl = self.cst(wl, k);
                            let h = self.bin(Eq, n.a, ch);
                            if self.kc(h) == Some(0) {
                                return h;
                            }
                            let l = self.bin(Eq, n.b, cl);
                            return self.and1(h, l);
                        }
                        Xor => {
                            if let Some(k2) = self.kc(n.b) {
                                let c = self.cst(w, k ^ k2);
                                return self.bin(Eq, n.a, c);
                            }
                        }
                        Add => {
                            if let Some(k2) = self.kc(n.b) {
                                let c = self.cst(w, k.wrapping_sub(k2));
                                return self.bin(Eq, n.a, c);
                            }
                        }
                        And => {
                            if let Some(k2) = self.kc(n.b) {
                                if k & !k2 & m != 0 {
                                    return self.cst(1, 0);
                                }
                            }
                        }
                        Ite => {
                            let (kt, kf) = (self.kc(n.b), self.kc(n.c));
                            if kt.is_some() || kf.is_some() {
                                let t = self.bin(Eq, n.b, b);
                                let f = self.bin(Eq, n.c, b);
                                return self.ite(n.a, t, f);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n[b as usize];
                    if matches!(n.op, Add | Sub) || matches!(nb.op, Add | Sub) {
                        let (mut k, mut t, mut fuel) = (0u128, vec![], 24);
                        if self.lin(a, false, &mut k, &mut t, &mut fuel) && self.lin(b, true, &mut k, &mut t, &mut fuel) && t.iter().all(|x| x.1 == 0) {
                            return self.cst(1, (k & m == 0) as u128);
                        }
                    }
                    if n.op == ZExt && nb.op == ZExt {
                        let wm = self.w(n.a).max(self.w(nb.a));
                        if wm < w {
                            let x = self.zext(n.a, wm);
                            let y = self.zext(nb.a, wm);
                            return self.bin(Eq, x, y);
                        }
                    }
                    if n.op == SExt && nb.op == SExt && self.w(n.a) == self.w(nb.a) {
                        return self.bin(Eq, n.a, nb.a);
                    }
                    if n.op == Concat && nb.op == Concat && self.w(n.b) == self.w(nb.b) {
                        let h = self.bin(Eq, n.a, nb.a);
                        let l = self.bin(Eq, n.b, nb.b);
                        return self.and1(h, l);
                    }
                }
            }
            Ult | Ule if {
                let (x, y) = (self.ub[a as usize], kb);
                y.map_or(false, |y| if op == Ult { x < y } else { x <= y })
            } =>
            {
                return self.cst(1, 1);
            }
            Ult | Ule if {
                let (x, y) = (ka, self.ub[b as usize]);
                x.map_or(false, |x| if op == Ult { x >= y } else { x > y })
            } =>
            {
                return self.cst(1, 0);
            }
            Ult => {
                if a == b {
                    return self.cst(1, 0);
                }
                if kb == Some(0) || ka == Some(m) {
                    return self.cst(1, 0);
                }
                if kb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Eq, a, z);
                }
                if ka == Some(0) {
                    let q = self.bin(Eq, b, a);
                    return self.not1(q);
                }
                if let Some(e) = self.cmp_narrow(op, a, b) {
                    return e;
                }
            }
            Ule => {
                if a == b || kb == Some(m) || ka == Some(0) {
                    return self.cst(1, 1);
                }
                if kb == Some(0) {
                    return self.bin(Eq, a, b);
                }
                if let Some(k) = kb {
                    let c = self.cst(w, k + 1);
                    return self.bin(Ult, a, c);
                }
                if let Some(k) = ka {
                    let c = self.cst(w, k - 1);
                    return self.bin(Ult, c, b);
                }
                if let Some(e) = self.cmp_narrow(op, a, b) {
                    return e;
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.cst(1, (op == Sle) as u128);
                }
                // both non-negative
                let nonneg = |s: &Self, e: E| match s.n[e as usize].op {
                    ZExt => true,
                    Const => s.n[e as usize].k >> (w - 1) == 0,
                    _ => false,
                };
                if nonneg(self, a) && nonneg(self, b) {
                    let o = if op == Slt { Ult } else { Ule };
                    return self.bin(o, a, b);
                }
                let (na, nb) = (self.n[a as usize], self.n[b as usize]);
                // sext/sext
                if na.op == SExt {
                    let wa = self.w(na.a);
                    if let Some(k) = kb {
                        let t = k & mask(wa);
                        if (sext(t, wa) as u128) & m == k {
                            let c = self.cst(wa, t);
                            return self.bin(op, na.a, c);
                        }
                    } else if nb.op == SExt && self.w(nb.a) == wa {
                        return self.bin(op, na.a, nb.a);
                    }
                }
                if nb.op == SExt {
                    let wb = self.w(nb.a);
                    if let Some(k) = ka {
                        let t = k & mask(wb);
                        if (sext(t, wb) as u128) & m == k {
                            let c = self.cst(wb, t);
                            return self.bin(op, c, nb.a);
                        }
                    }
                }
                if op == Slt && kb == Some(0) {
                    // sign bit
                    return self.extract(a, w - 1, 1);
                }
                if op == Sle && ka == Some(0) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not1(s);
                }
                if op == Slt && ka == Some(m) {
                    // -1 < b  <=> b >= 0
                    let s = self.extract(b, w - 1, 1);
                    return self.not1(s);
                }
            }
            _ => {}
        }
        let rw = if is_cmp(op) { 1 } else { w };
        self.mk(op, rw, a, b, 0)
    }
    fn cmp_narrow(&mut self, op: Opc, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let (ka, kb) = (self.kc(a), self.kc(b));
        match (na.op, nb.op) {
            (Opc::ZExt, Opc::ZExt) => {
                let wm = self.w(na.a).max(self.w(nb.a));
                if wm < w {
                    let x = self.zext(na.a, wm);
                    let y = self.zext(nb.a, wm);
                    return Some(self.bin(op, x, y));
                }
            }
            (Opc::ZExt, Opc::Const) => {
                let wa = self.w(na.a);
                let k = kb.unwrap();
                if k > mask(wa) {
                    return Some(self.cst(1, 1));
                }
                let c = self.cst(wa, k);
                return Some(self.bin(op, na.a, c));
            }
            (Opc::Const, Opc::ZExt) => {
                let wb = self.w(nb.a);
                let k = ka.unwrap();
                if k > mask(wb) {
                    return Some(self.cst(1, 0));
                }
                let c = self.cst(wb, k);
                return Some(self.bin(op, c, nb.a));
            }
            _ => {}
        }
        None
    }
    /// the same node over other operands
    pub fn rebuild(&mut self, e: E, a: E, b: E, c: E) -> E {
        let n = self.n[e as usize];
        if (a, b, c) == (n.a, n.b, n.c) {
            return e;
        }
        match n.op {
            Opc::Const | Opc::Var => e,
            Opc::Extract => self.extract(a, n.k as u32, n.w),
            Opc::Concat => self.concat(a, b),
            Opc::ZExt => self.zext(a, n.w),
            Opc::SExt => self.sext(a, n.w),
            Opc::Ite => self.ite(a, b, c),
            Opc::FAdd | Opc::FSub | Opc::FMul | Opc::FDiv | Opc::FLt | Opc::FLe | Opc::FEq | Opc::FUno | Opc::FToS | Opc::FToU | Opc::SToF | Opc::UToF | Opc::FToF => {
                self.raw(n.op, n.w, a, b)
            }
            op => self.bin(op, a, b),
        }
    }
    /// a as a sum of ±terms plus a constant; false when it does not fit
    fn lin(&self, e: E, neg: bool, k: &mut u128, out: &mut Vec<(E, i32)>, fuel: &mut i32) -> bool {
        *fuel -= 1;
        if *fuel < 0 {
            return false;
        }
        let n = &self.n[e as usize];
        match n.op {
            Opc::Const => {
                *k = if neg { k.wrapping_sub(n.k) } else { k.wrapping_add(n.k) };
                true
            }
            Opc::Add => self.lin(n.a, neg, k, out, fuel) && self.lin(n.b, neg, k, out, fuel),
            Opc::Sub => self.lin(n.a, neg, k, out, fuel) && self.lin(n.b, !neg, k, out, fuel),
            _ => {
                let d = if neg { -1 } else { 1 };
                match out.iter_mut().find(|x| x.0 == e) {
                    Some(x) => x.1 += d,
                    None => out.push((e, d)),
                }
                true
            }
        }
    }
    /// Linear normal form of a ± b.
    fn linear(&mut self, op: Opc, a: E, b: E) -> Option<E> {
        let arith = |s: &Self, e: E| matches!(s.n[e as usize].op, Opc::Add | Opc::Sub);
        if !arith(self, a) && !arith(self, b) {
            return None;
        }
        let w = self.w(a);
        let (mut k, mut t, mut fuel) = (0u128, vec![], 24);
        if !(self.lin(a, false, &mut k, &mut t, &mut fuel) && self.lin(b, op == Opc::Sub, &mut k, &mut t, &mut fuel)) {
            return None;
        }
        t.retain(|x| x.1 != 0);
        if t.iter().any(|x| x.1.abs() > 1) {
            return None;
        }
        t.sort_unstable();
        k &= mask(w);
        let mut acc: E = 0;
        for (e, d) in &t {
            if *d == 1 {
                acc = if acc == 0 { *e } else { self.mk(Opc::Add, w, acc, *e, 0) };
            }
        }
        if acc == 0 {
            if t.is_empty() {
                return Some(self.cst(w, k));
            }
            acc = self.cst(w, k);
            k = 0;
        }
        for (e, d) in &t {
            if *d == -1 {
                acc = self.mk(Opc::Sub, w, acc, *e, 0);
            }
        }
        if k != 0 {
            let c = self.cst(w, k);
            acc = self.mk(Opc::Add, w, acc, c, 0);
        }
        Some(acc)
    }
    /// Floating point operators. Over operands that take finitely many constant values they become
    /// if-then-elses over constants, which spares the solver the floating point theory.
    pub fn raw(&mut self, op: Opc, w: u32, a: E, b: E) -> E {
        let wi = self.w(a);
        if b == 0 {
            let (mut fuel, mut memo) = (400, FxMap::default());
            if let Some(t) = self.ctree(a, &mut fuel, &mut memo) {
                return self.mapc(t, &mut FxMap::default(), &|k| ffold(op, w, wi, k, 0), w);
            }
        } else if let Some(y) = self.kc(b) {
            let (mut fuel, mut memo) = (400, FxMap::default());
            if let Some(t) = self.ctree(a, &mut fuel, &mut memo) {
                return self.mapc(t, &mut FxMap::default(), &|k| ffold(op, w, wi, k, y), w);
            }
        } else if let Some(x) = self.kc(a) {
            let (mut fuel, mut memo) = (400, FxMap::default());
            if let Some(t) = self.ctree(b, &mut fuel, &mut memo) {
                return self.mapc(t, &mut FxMap::default(), &|k| ffold(op, w, wi, x, k), w);
            }
        }
        self.mk(op, w, a, b, 0)
    }
    /// the expression as a tree of if-then-elses over constants
    fn ctree(&mut self, e: E, fuel: &mut i32, memo: &mut FxMap<E, Option<E>>) -> Option<E> {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        *fuel -= 1;
        if *fuel < 0 {
            return None;
        }
        let n = self.n[e as usize];
        let r = (|| match n.op {
            Opc::Const => Some(e),
            Opc::Ite => {
                let t = self.ctree(n.b, fuel, memo)?;
                let f = self.ctree(n.c, fuel, memo)?;
                Some(self.ite(n.a, t, f))
            }
            Opc::ZExt | Opc::SExt | Opc::Extract => {
                let t = self.ctree(n.a, fuel, memo)?;
                let wi = self.w(n.a);
                let g = move |k: u128| match n.op {
                    Opc::ZExt => k,
                    Opc::SExt => sext(k, wi) as u128 & mask(n.w),
                    _ => (k >> n.k) & mask(n.w),
                };
                Some(self.mapc(t, &mut FxMap::default(), &g, n.w))
            }
            Opc::Add | Opc::Sub | Opc::Mul | Opc::And | Opc::Or | Opc::Xor => {
                let (ka, kb) = (self.kc(n.a), self.kc(n.b));
                let op = n.op;
                let w = n.w;
                match (ka, kb) {
                    (_, Some(k)) => {
                        let t = self.ctree(n.a, fuel, memo)?;
                        Some(self.mapc(t, &mut FxMap::default(), &move |x| fold(op, w, x, k).unwrap_or(0), w))
                    }
                    (Some(k), _) => {
                        let t = self.ctree(n.b, fuel, memo)?;
                        Some(self.mapc(t, &mut FxMap::default(), &move |x| fold(op, w, k, x).unwrap_or(0), w))
                    }
                    _ => None,
                }
            }
            _ => None,
        })();
        memo.insert(e, r);
        r
    }
    fn mapc(&mut self, e: E, memo: &mut FxMap<E, E>, f: &dyn Fn(u128) -> u128, w: u32) -> E {
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let n = self.n[e as usize];
        let r = match n.op {
            Opc::Const => self.cst(w, f(n.k)),
            _ => {
                let t = self.mapc(n.b, memo, f, w);
                let g = self.mapc(n.c, memo, f, w);
                self.ite(n.a, t, g)
            }
        };
        memo.insert(e, r);
        r
    }
}

pub fn is_cmp(op: Opc) -> bool {
    matches!(op, Opc::Eq | Opc::Ult | Opc::Ule | Opc::Slt | Opc::Sle | Opc::FLt | Opc::FLe | Opc::FEq | Opc::FUno)
}

fn fval(w: u32, bits: u128) -> f64 {
    if w == 32 {
        f32::from_bits(bits as u32) as f64
    } else {
        f64::from_bits(bits as u64)
    }
}
/// Value of a floating point operator (result width w, operand width wi)
pub fn ffold(op: Opc, w: u32, wi: u32, x: u128, y: u128) -> u128 {
    let m = mask(w);
    match op {
        Opc::FAdd | Opc::FSub | Opc::FMul | Opc::FDiv if w == 32 => {
            let (x, y) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
            (match op {
                Opc::FAdd => x + y,
                Opc::FSub => x - y,
                Opc::FMul => x * y,
                _ => x / y,
            })
            .to_bits() as u128
        }
        Opc::FAdd | Opc::FSub | Opc::FMul | Opc::FDiv => {
            let (x, y) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
            (match op {
                Opc::FAdd => x + y,
                Opc::FSub => x - y,
                Opc::FMul => x * y,
                _ => x / y,
            })
            .to_bits() as u128
        }
        Opc::FLt => (fval(wi, x) < fval(wi, y)) as u128,
        Opc::FLe => (fval(wi, x) <= fval(wi, y)) as u128,
        Opc::FEq => (fval(wi, x) == fval(wi, y)) as u128,
        Opc::FUno => (fval(wi, x).is_nan() || fval(wi, y).is_nan()) as u128,
        Opc::FToS => (fval(wi, x) as i128 as u128) & m,
        Opc::FToU => (fval(wi, x) as u128) & m,
        Opc::SToF if w == 32 => (sext(x, wi) as f32).to_bits() as u128,
        Opc::SToF => (sext(x, wi) as f64).to_bits() as u128,
        Opc::UToF if w == 32 => (x as f32).to_bits() as u128,
        Opc::UToF => (x as f64).to_bits() as u128,
        Opc::FToF if w == 32 => (fval(wi, x) as f32).to_bits() as u128,
        Opc::FToF => fval(wi, x).to_bits() as u128,
        _ => unreachable!(),
    }
}

/// Constant folding of integer operators (None when undefined)
pub fn fold(op: Opc, w: u32, x: u128, y: u128) -> Option<u128> {
    let m = mask(w);
    let (sx, sy) = (sext(x, w), sext(y, w));
    Some(match op {
        Opc::Add => x.wrapping_add(y) & m,
        Opc::Sub => x.wrapping_sub(y) & m,
        Opc::Mul => x.wrapping_mul(y) & m,
        Opc::UDiv => {
            if y == 0 {
                return None;
            }
            x / y
        }
        Opc::URem => {
            if y == 0 {
                return None;
            }
            x % y
        }
        Opc::SDiv => {
            if y == 0 {
                return None;
            }
            (sx.wrapping_div(sy) as u128) & m
        }
        Opc::SRem => {
            if y == 0 {
                return None;
            }
            (sx.wrapping_rem(sy) as u128) & m
        }
        Opc::And => x & y,
        Opc::Or => x | y,
        Opc::Xor => x ^ y,
        Opc::Shl => {
            if y >= w as u128 {
                0
            } else {
                (x << y) & m
            }
        }
        Opc::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Opc::AShr => {
            let s = y.min(w as u128 - 1);
            ((sx >> s) as u128) & m
        }
        Opc::Eq => (x == y) as u128,
        Opc::Ult => (x < y) as u128,
        Opc::Ule => (x <= y) as u128,
        Opc::Slt => (sx < sy) as u128,
        Opc::Sle => (sx <= sy) as u128,
        _ => return None,
    })
}
