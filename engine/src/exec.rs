//! Concolic interpreter: every run executes one path concretely while recording, for every decision that
//! depends on symbolic input, the decision condition and its alternatives.
use crate::expr::*;
use crate::ir::*;
use crate::z3::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

pub const STACK_BASE: u64 = 0x7000_0000_0000;
pub const HEAP_BASE: u64 = 0x0010_0000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Assume,
    Panic(String),
    Fail(String),
    StepLimit,
    StackOverflow,
    Mem(String),
    Unsupported(String),
}

impl Outcome {
    pub fn class(&self) -> &'static str {
        match self {
            Outcome::Ok => "ok",
            Outcome::Assume => "assume",
            Outcome::Panic(_) => "panic",
            Outcome::Fail(_) => "fail",
            Outcome::StepLimit => "steplimit",
            Outcome::StackOverflow => "stackoverflow",
            Outcome::Mem(_) => "mem",
            Outcome::Unsupported(_) => "unsupported",
        }
    }
    pub fn msg(&self) -> String {
        match self {
            Outcome::Panic(s) | Outcome::Fail(s) | Outcome::Mem(s) | Outcome::Unsupported(s) => s.clone(),
            o => o.class().to_string(),
        }
    }
}

#[derive(Clone, Debug)]
pub enum DecKind {
    /// explore every alternative
    Branch(Vec<E>),
    /// value concretised at a site: enumerate all other values of the expression
    Conc(E),
    /// assertion: alternative satisfiable = violation
    Assert(E, String),
    /// decided without the solver: must be unsatisfiable
    Audit(E),
}
#[derive(Clone, Debug)]
pub struct Dec {
    pub cond: E,
    pub kind: DecKind,
}

struct Page {
    d: [u8; 4096],
    s: Option<Box<[E; 4096]>>,
}

pub struct Limits {
    pub steps: u64,
    pub depth: usize,
    pub stack: u64,
    pub enum_values: usize,
}

struct Frame {
    f: u32,
    b: u32,
    ip: usize,
    base: usize,
    dst: Option<u32>,
    normal: Option<u32>,
    sp: u64,
}

pub struct Image {
    pub pages: FxMap<u64, Box<[u8; 4096]>>,
    /// sorted (addr, size, constant)
    pub globals: Vec<(u64, u64, bool)>,
}

impl Image {
    pub fn new(m: &Module) -> Image {
        let mut pages: FxMap<u64, Box<[u8; 4096]>> = FxMap::default();
        for (a, b) in &m.image {
            for (i, x) in b.iter().enumerate() {
                let ad = a + i as u64;
                let p = pages.entry(ad >> 12).or_insert_with(|| Box::new([0; 4096]));
                p[(ad & 4095) as usize] = *x;
            }
        }
        let mut globals: Vec<_> = m.globals.iter().map(|g| (g.addr, g.size, g.constant)).collect();
        globals.sort();
        Image { pages, globals }
    }
}

/// How a function name is treated by the interpreter.
#[derive(Clone, Debug, PartialEq)]
pub enum Special {
    None,
    Panic,
    Intrinsic(&'static str, String),
    Ext(String),
}

pub fn classify(m: &Module) -> Vec<Special> {
    m.funcs
        .iter()
        .map(|f| {
            let n = &f.name;
            if let Some(r) = n.strip_prefix("llvm.") {
                return Special::Intrinsic("llvm", r.to_string());
            }
            if (n.contains("4core9panicking") || n.contains("3std9panicking") || n.contains("17rust_begin_unwind") || n.contains("4core6option13unwrap_failed")
                || n.contains("4core6option13expect_failed")
                || n.contains("4core6result13unwrap_failed"))
                && !n.contains("11panic_count")
            {
                return Special::Panic;
            }
            if n.contains("rust_alloc_error_handler") || n.contains("18handle_alloc_error") {
                return Special::Panic;
            }
            if n.contains("7___rustc12___rust_alloc") || n.ends_with("__rust_alloc") {
                return Special::Ext("__rust_alloc".into());
            }
            if !f.defined {
                return Special::Ext(n.clone());
            }
            if n.contains("20hashmap_random_keys") {
                return Special::Ext("hashmap_random_keys".into());
            }
            Special::None
        })
        .collect()
}

pub struct Stats {
    pub paths: u64,
    pub assume_paths: u64,
    pub decisions: u64,
    pub q_sat: u64,
    pub q_unsat: u64,
    pub q_unknown: u64,
    pub q_cached: u64,
    /// branch alternatives decided by the exact one-byte domain procedure
    pub q_domain: u64,
    pub audits: u64,
    pub asserts: u64,
    pub asserts_discharged: u64,
    pub steps: u64,
    pub solver_ns: u64,
    pub max_query_ms: u64,
    pub conc_values: u64,
}
impl Stats {
    pub fn new() -> Stats {
        Stats {
            paths: 0,
            assume_paths: 0,
            decisions: 0,
            q_sat: 0,
            q_unsat: 0,
            q_unknown: 0,
            q_cached: 0,
            q_domain: 0,
            audits: 0,
            asserts: 0,
            asserts_discharged: 0,
            steps: 0,
            solver_ns: 0,
            max_query_ms: 0,
            conc_values: 0,
        }
    }
    pub fn add(&mut self, o: &Stats) {
        self.paths += o.paths;
        self.assume_paths += o.assume_paths;
        self.decisions += o.decisions;
        self.q_sat += o.q_sat;
        self.q_unsat += o.q_unsat;
        self.q_unknown += o.q_unknown;
        self.q_cached += o.q_cached;
        self.q_domain += o.q_domain;
        self.audits += o.audits;
        self.asserts += o.asserts;
        self.asserts_discharged += o.asserts_discharged;
        self.steps += o.steps;
        self.solver_ns += o.solver_ns;
        self.max_query_ms = self.max_query_ms.max(o.max_query_ms);
        self.conc_values += o.conc_values;
    }
}

pub struct Worker<'m> {
    pub m: &'m Module,
    pub img: &'m Image,
    pub spec: &'m [Special],
    pub ex: Exprs,
    pub z3: Z3,
    pub lim: &'m Limits,
    // per-run state
    pages: FxMap<u64, Box<Page>>,
    lastp: u64,
    lastptr: *mut Page,
    heap: BTreeMap<u64, (u64, bool)>,
    heap_next: u64,
    sp: u64,
    regs: Vec<Val>,
    frames: Vec<Frame>,
    pub input: Vec<u8>,
    pub nin: usize,
    pub decs: Vec<Dec>,
    steps: u64,
    pub obs: u64,
    pub obs_n: u64,
    // accumulated
    pub covers: BTreeSet<String>,
    pub expects: BTreeSet<String>,
    pub visited: Vec<u64>,
    pub visited_subs: BTreeSet<u32>,
    pub stats: Stats,
    cache: FxMap<Box<[E]>, (Sat, Vec<(u32, u8)>)>,
    pub inconclusive: Vec<String>,
    pub dump_dir: Option<String>,
    dump_n: u64,
    free_pages: Vec<Box<Page>>,
    pub trace_panics: bool,
    tables: HashMap<(u64, u64, u64), Arc<Vec<(u64, u128)>>>,
    conc_at: HashMap<(u32, u32, usize), ()>,
    // values fixed by the path condition of the current run
    fixed_vars: VSet,
    fixed: FxMap<E, ()>,
    gen: u32,
    rs_memo: FxMap<E, (u32, E)>,
    rg_memo: FxMap<E, (u32, u128, u128)>,
    rlearn: FxMap<E, (u128, u128)>,
    cmemo: FxMap<E, u128>,
    pub audit: bool,
    /// what the path condition of the current run leaves possible for each input byte
    dom: FxMap<u32, [u64; 4]>,
    /// byte values satisfying a one-variable condition
    dmask: FxMap<E, [u64; 4]>,
}

enum Flow {
    Next,
    Stop(Outcome),
}

type S2 = (u128, E);

impl<'m> Worker<'m> {
    pub fn new(m: &'m Module, img: &'m Image, spec: &'m [Special], lim: &'m Limits, z3: Z3) -> Self {
        let maxmeta = m.meta.keys().max().copied().unwrap_or(0) as usize;
        Worker {
            m,
            img,
            spec,
            ex: Exprs::new(),
            z3,
            lim,
            pages: FxMap::default(),
            lastp: u64::MAX,
            lastptr: std::ptr::null_mut(),
            heap: BTreeMap::new(),
            heap_next: HEAP_BASE,
            sp: STACK_BASE,
            regs: vec![],
            frames: vec![],
            input: vec![],
            nin: 0,
            decs: vec![],
            steps: 0,
            obs: 0,
            obs_n: 0,
            covers: BTreeSet::new(),
            expects: BTreeSet::new(),
            visited: vec![0; maxmeta / 64 + 1],
            visited_subs: BTreeSet::new(),
            stats: Stats::new(),
            cache: FxMap::default(),
            inconclusive: vec![],
            dump_dir: None,
            dump_n: 0,
            free_pages: vec![],
            trace_panics: false,
            tables: HashMap::new(),
            conc_at: HashMap::new(),
            fixed_vars: [0; NV],
            fixed: FxMap::default(),
            dmask: FxMap::default(),
            gen: 0,
            rs_memo: FxMap::default(),
            rg_memo: FxMap::default(),
            rlearn: FxMap::default(),
            cmemo: FxMap::default(),
            audit: false,
            dom: FxMap::default(),
        }
    }

    // ---------- memory ----------
    fn page(&mut self, p: u64) -> *mut Page {
        if p == self.lastp {
            return self.lastptr;
        }
        let img = self.img;
        let fp = &mut self.free_pages;
        let e = self.pages.entry(p).or_insert_with(|| {
            let mut b = fp.pop().unwrap_or_else(|| Box::new(Page { d: [0; 4096], s: None }));
            b.s = None;
            match img.pages.get(&p) {
                Some(x) => b.d.copy_from_slice(&x[..]),
                None => b.d.fill(0),
            }
            b
        });
        self.lastp = p;
        self.lastptr = &mut **e;
        self.lastptr
    }
    #[inline]
    fn rd8(&mut self, a: u64) -> (u8, E) {
        let p = self.page(a >> 12);
        let o = (a & 4095) as usize;
        let (v, e) = unsafe { ((*p).d[o], (*p).s.as_ref().map(|s| s[o]).unwrap_or(0)) };
        if e != 0 && self.is_fixed(e) {
            return (v, 0);
        }
        (v, e)
    }
    #[inline]
    fn wr8(&mut self, a: u64, v: u8, e: E) {
        let p = self.page(a >> 12);
        let o = (a & 4095) as usize;
        unsafe {
            (*p).d[o] = v;
            if e != 0 {
                (*p).s.get_or_insert_with(|| Box::new([0; 4096]))[o] = e;
            } else if let Some(s) = (*p).s.as_mut() {
                s[o] = 0;
            }
        }
    }
    fn check(&self, a: u64, n: u64) -> Result<(), String> {
        if n == 0 {
            return Ok(());
        }
        if a >= STACK_BASE {
            if a + n <= self.sp {
                return Ok(());
            }
            return Err(format!("stack access out of bounds {a:#x}+{n}"));
        }
        if a >= HEAP_BASE {
            if let Some((b, (sz, alive))) = self.heap.range(..=a).next_back() {
                if a + n <= b + sz {
                    if !alive {
                        return Err(format!("use after free {a:#x}+{n}"));
                    }
                    return Ok(());
                }
            }
            return Err(format!("heap access out of bounds {a:#x}+{n}"));
        }
        if a >= GLOBAL_BASE {
            if let Some((b, s, _)) = self.global_of(a) {
                if a + n <= b + s {
                    return Ok(());
                }
            }
            return Err(format!("global access out of bounds {a:#x}+{n}"));
        }
        Err(format!("wild access {a:#x}+{n}"))
    }
    fn global_of(&self, a: u64) -> Option<(u64, u64, bool)> {
        let g = &self.img.globals;
        let i = g.partition_point(|x| x.0 <= a);
        if i == 0 {
            return None;
        }
        Some(g[i - 1])
    }
    fn load_scalar(&mut self, a: u64, w: u32) -> S2 {
        let n = ((w + 7) / 8) as usize;
        let mut c: u128 = 0;
        let mut sym = false;
        let mut bytes = [(0u8, 0 as E); 16];
        for i in 0..n {
            let (v, e) = self.rd8(a + i as u64);
            c |= (v as u128) << (8 * i);
            bytes[i] = (v, e);
            sym |= e != 0;
        }
        c &= mask(w);
        if !sym {
            return (c, 0);
        }
        let mut acc = 0;
        for i in 0..n {
            let e = if bytes[i].1 != 0 { bytes[i].1 } else { self.ex.cst(8, bytes[i].0 as u128) };
            acc = if i == 0 { e } else { self.ex.concat(e, acc) };
        }
        if self.ex.w(acc) > w {
            acc = self.ex.extract(acc, 0, w);
        }
        self.norm(c, acc)
    }
    fn store_scalar(&mut self, a: u64, w: u32, v: S2) {
        let n = ((w + 7) / 8) as usize;
        if v.1 == 0 {
            for i in 0..n {
                self.wr8(a + i as u64, (v.0 >> (8 * i)) as u8, 0);
            }
        } else {
            let mut e = v.1;
            let tw = n as u32 * 8;
            if tw != w {
                e = self.ex.zext(e, tw);
            }
            for i in 0..n {
                let b = self.ex.mem_byte(e, 8 * i as u32);
                let k = self.ex.kc(b);
                let cv = (v.0 >> (8 * i)) as u8;
                if let Some(k) = k {
                    debug_assert_eq!(k as u8, cv);
                    self.wr8(a + i as u64, cv, 0);
                } else {
                    self.wr8(a + i as u64, cv, b);
                }
            }
        }
    }
    /// Has the path condition already fixed the value of this expression?
    #[inline]
    fn is_fixed(&self, e: E) -> bool {
        let v = &self.ex.vars[e as usize];
        (0..NV).all(|k| v[k] & !self.fixed_vars[k] == 0) || self.fixed.contains_key(&e)
    }
    /// Record what a decision fixes: `cond` is true from here on.
    fn learn(&mut self, cond: E) {
        let n = self.ex.n[cond as usize];
        self.gen += 1;
        self.fixed.insert(cond, ());
        self.learn_range(cond);
        if let Some(v) = self.one_var(cond) {
            let m = self.domain(cond, v);
            let d = self.dom.entry(v).or_insert([u64::MAX; 4]);
            let mut pop = 0;
            for k in 0..4 {
                d[k] &= m[k];
                pop += d[k].count_ones();
            }
            if pop == 1 {
                self.fixed_vars[(v as usize >> 6) % NV] |= 1 << (v & 63);
            }
        }
        let neg = self.ex.not1(cond);
        self.fixed.insert(neg, ());
        if let Opc::Ult = n.op {
            for (o, x, y) in [(Opc::Ule, n.a, n.b), (Opc::Ult, n.b, n.a), (Opc::Eq, n.a, n.b)] {
                let q = self.ex.bin(o, x, y);
                self.fixed.insert(q, ());
                let q = self.ex.not1(q);
                self.fixed.insert(q, ());
            }
        }
        match n.op {
            Opc::Eq => {
                if self.ex.kc(n.b).is_some() {
                    self.learn_fixed(n.a)
                } else if self.ex.kc(n.a).is_some() {
                    self.learn_fixed(n.b)
                }
            }
            Opc::And if n.w == 1 => {
                self.learn(n.a);
                self.learn(n.b)
            }
            Opc::Xor if n.w == 1 => {
                // negation
                if self.ex.kc(n.b) == Some(1) {
                    self.fixed.insert(n.a, ());
                    let x = self.ex.n[n.a as usize];
                    if x.op == Opc::Ult && self.ex.kc(x.a) == Some(0) {
                        self.learn_fixed(x.b)
                    } else if x.op == Opc::Or && x.w == 1 {
                        let (p, q) = (self.ex.not1(x.a), self.ex.not1(x.b));
                        self.learn(p);
                        self.learn(q)
                    }
                }
            }
            Opc::Ult => {
                if self.ex.kc(n.b) == Some(1) {
                    self.learn_fixed(n.a)
                } else if let Some(k) = self.ex.kc(n.b) {
                    let x = self.ex.n[n.a as usize];
                    if x.op == Opc::Concat {
                        let wl = self.ex.w(x.b);
                        if k <= 1u128 << wl {
                            // the high part is zero
                            self.learn_fixed(x.a);
                            if k < 1u128 << wl {
                                let kk = self.ex.cst(wl, k);
                                let q = self.ex.bin(Opc::Ult, x.b, kk);
                                if self.ex.kc(q).is_none() {
                                    self.learn(q);
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    #[inline]
    fn touched(&self, e: E) -> bool {
        let v = &self.ex.vars[e as usize];
        (0..NV).any(|k| v[k] & self.fixed_vars[k] != 0)
    }
    /// value of an expression on this run's input
    fn cv(&mut self, e: E) -> u128 {
        let mut m = std::mem::take(&mut self.cmemo);
        let inp = std::mem::take(&mut self.input);
        let r = self.eval(e, &inp, &mut m);
        self.input = inp;
        self.cmemo = m;
        r
    }
    /// Rewrite an expression under the facts the path condition fixes.
    fn rs(&mut self, e: E) -> E {
        let n = self.ex.n[e as usize];
        if matches!(n.op, Opc::Const) {
            return e;
        }
        if self.is_fixed(e) {
            let v = self.cv(e);
            return self.ex.cst(n.w, v);
        }
        if n.op == Opc::Var || !(self.ex.has_ite[e as usize] || self.touched(e)) {
            return e;
        }
        if let Some((g, r)) = self.rs_memo.get(&e) {
            if *g == self.gen {
                return *r;
            }
        }
        let r = if n.op == Opc::Ite {
            let c = self.rs(n.a);
            match self.decided(c) {
                Some(true) => self.rs(n.b),
                Some(false) => self.rs(n.c),
                None => {
                    let (x, y) = (self.rs(n.b), self.rs(n.c));
                    self.ex.rebuild(e, c, x, y)
                }
            }
        } else {
            let a = if n.a != 0 { self.rs(n.a) } else { 0 };
            let b = if n.b != 0 { self.rs(n.b) } else { 0 };
            let c = if n.c != 0 { self.rs(n.c) } else { 0 };
            self.ex.rebuild(e, a, b, c)
        };
        self.rs_memo.insert(e, (self.gen, r));
        r
    }
    /// Is this condition decided by what the path condition fixes (domains and intervals)?
    fn decided(&mut self, c: E) -> Option<bool> {
        if let Some(k) = self.ex.kc(c) {
            return Some(k == 1);
        }
        if self.is_fixed(c) || self.implied(c) {
            return Some(self.cv(c) == 1);
        }
        None
    }
    fn implied(&mut self, cond: E) -> bool {
        if let Some(v) = self.one_var(cond) {
            if let Some(d) = self.dom.get(&v).copied() {
                let m = self.domain(cond, v);
                return (0..4).all(|k| d[k] & m[k] == 0) || (0..4).all(|k| d[k] & !m[k] == 0);
            }
            return false;
        }
        let n = self.ex.n[cond as usize];
        match n.op {
            Opc::Xor if n.w == 1 && self.ex.kc(n.b) == Some(1) => self.implied(n.a),
            Opc::Ult => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                a.1 < b.0 || a.0 >= b.1
            }
            Opc::Ule => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                if a.1 <= b.0 || a.0 > b.1 {
                    return true;
                }
                // x <= x + k without wrap-around
                let nb = self.ex.n[n.b as usize];
                if nb.op == Opc::Add && (nb.a == n.a || nb.b == n.a) {
                    let (p, q) = (self.range(nb.a), self.range(nb.b));
                    return p.1.checked_add(q.1).map_or(false, |s| s <= mask(nb.w));
                }
                false
            }
            Opc::Eq => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                a.1 < b.0 || b.1 < a.0
            }
            _ => false,
        }
    }
    /// Unsigned interval containing every value the expression can take under the path condition.
    fn range(&mut self, e: E) -> (u128, u128) {
        let n = self.ex.n[e as usize];
        let top = mask(n.w);
        match n.op {
            Opc::Const => return (n.k, n.k),
            Opc::Var => {
                if let Some(d) = self.dom.get(&(n.k as u32)) {
                    let lo = (0..256usize).find(|x| d[x >> 6] >> (x & 63) & 1 == 1).unwrap_or(0);
                    let hi = (0..256usize).rev().find(|x| d[x >> 6] >> (x & 63) & 1 == 1).unwrap_or(255);
                    return (lo as u128, hi as u128);
                }
                return (0, 255);
            }
            _ => {}
        }
        if self.is_fixed(e) {
            let v = self.cv(e);
            return (v, v);
        }
        if let Some((g, l, h)) = self.rg_memo.get(&e) {
            if *g == self.gen {
                return (*l, *h);
            }
        }
        let r = match n.op {
            Opc::ZExt => self.range(n.a),
            Opc::Concat => {
                let (h, l) = (self.range(n.a), self.range(n.b));
                let wl = self.ex.w(n.b);
                (h.0 << wl | l.0, h.1 << wl | l.1)
            }
            Opc::SExt => {
                let a = self.range(n.a);
                if a.1 >> (self.ex.w(n.a) - 1) == 0 {
                    a
                } else {
                    (0, top)
                }
            }
            Opc::Extract => {
                let a = self.range(n.a);
                if n.k == 0 {
                    if a.1 <= top {
                        a
                    } else {
                        (0, top)
                    }
                } else {
                    let (l, h) = (a.0 >> n.k as u32, a.1 >> n.k as u32);
                    if h <= top {
                        (l, h)
                    } else {
                        (0, top)
                    }
                }
            }
            Opc::Add => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                // a + (2^w - k) with a >= k is a subtraction
                if let Some(k) = self.ex.kc(n.b) {
                    let neg = k.wrapping_neg() & top;
                    if k >> (n.w - 1) == 1 && a.0 >= neg {
                        (a.0 - neg, a.1 - neg)
                    } else if a.1.checked_add(b.1).map_or(false, |s| s <= top) {
                        (a.0 + b.0, a.1 + b.1)
                    } else {
                        (0, top)
                    }
                } else if a.1.checked_add(b.1).map_or(false, |s| s <= top) {
                    (a.0 + b.0, a.1 + b.1)
                } else {
                    (0, top)
                }
            }
            Opc::Sub => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                if a.0 >= b.1 {
                    (a.0 - b.1, a.1 - b.0)
                } else {
                    let q = self.ex.bin(Opc::Ule, n.b, n.a);
                    let holds = match self.ex.kc(q) {
                        Some(k) => k == 1,
                        None => self.is_fixed(q) && self.cv(q) == 1,
                    };
                    if holds {
                        (a.0.saturating_sub(b.1), a.1.saturating_sub(b.0))
                    } else {
                        (0, top)
                    }
                }
            }
            Opc::Ite => {
                let (a, b) = (self.range(n.b), self.range(n.c));
                (a.0.min(b.0), a.1.max(b.1))
            }
            Opc::And => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                (0, a.1.min(b.1))
            }
            Opc::Or | Opc::Xor => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                let m = a.1.max(b.1);
                let h = if m == 0 { 0 } else { u128::MAX >> m.leading_zeros() };
                (if n.op == Opc::Or { a.0.max(b.0) } else { 0 }, h.min(top))
            }
            Opc::UDiv => {
                let a = self.range(n.a);
                match self.ex.kc(n.b) {
                    Some(k) if k != 0 => (a.0 / k, a.1 / k),
                    _ => (0, top),
                }
            }
            Opc::URem => {
                let a = self.range(n.a);
                match self.ex.kc(n.b) {
                    Some(k) if k != 0 && a.1 < k => a,
                    Some(k) if k != 0 => (0, k - 1),
                    _ => (0, top),
                }
            }
            Opc::Mul => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                match a.1.checked_mul(b.1) {
                    Some(h) if h <= top => (a.0 * b.0, h),
                    _ => (0, top),
                }
            }
            _ => (0, top),
        };
        let r = match self.rlearn.get(&e) {
            Some(x) => (r.0.max(x.0), r.1.min(x.1)),
            None => r,
        };
        self.rg_memo.insert(e, (self.gen, r.0, r.1));
        r
    }
    fn narrow(&mut self, e: E, lo: u128, hi: u128) {
        let n = self.ex.n[e as usize];
        if matches!(n.op, Opc::Const | Opc::Var) {
            return;
        }
        let x = self.rlearn.entry(e).or_insert((0, mask(n.w)));
        x.0 = x.0.max(lo);
        x.1 = x.1.min(hi);
        let x = *x;
        if x.0 == x.1 {
            self.fixed.insert(e, ());
        }
        if n.op == Opc::ZExt {
            self.narrow(n.a, lo, hi.min(mask(self.ex.w(n.a))));
        }
    }
    fn learn_range(&mut self, cond: E) {
        let n = self.ex.n[cond as usize];
        match n.op {
            Opc::Ult | Opc::Ule => {
                let (a, b) = (self.range(n.a), self.range(n.b));
                let d = (n.op == Opc::Ult) as u128;
                self.narrow(n.a, 0, b.1.saturating_sub(d));
                self.narrow(n.b, a.0 + d, mask(self.ex.w(n.b)));
            }
            Opc::Xor if n.w == 1 && self.ex.kc(n.b) == Some(1) => {
                let q = self.ex.n[n.a as usize];
                if q.op == Opc::Eq {
                    if let Some(k) = self.ex.kc(q.b) {
                        let a = self.range(q.a);
                        if a.0 == k {
                            self.narrow(q.a, k + 1, a.1);
                        } else if a.1 == k && k > 0 {
                            self.narrow(q.a, a.0, k - 1);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn learn_fixed(&mut self, e: E) {
        let n = self.ex.n[e as usize];
        self.fixed.insert(e, ());
        match n.op {
            Opc::Var => self.fixed_vars[(n.k as usize >> 6) % NV] |= 1 << (n.k as u64 & 63),
            Opc::ZExt | Opc::SExt => self.learn_fixed(n.a),
            Opc::Concat => {
                self.learn_fixed(n.a);
                self.learn_fixed(n.b)
            }
            Opc::Add | Opc::Sub | Opc::Xor => {
                if self.ex.kc(n.b).is_some() {
                    self.learn_fixed(n.a)
                } else if self.ex.kc(n.a).is_some() {
                    self.learn_fixed(n.b)
                }
            }
            _ => {}
        }
    }
    #[inline]
    fn norm(&mut self, c: u128, e: E) -> S2 {
        if e == 0 || self.is_fixed(e) {
            return (c, 0);
        }
        let e = if self.ex.has_ite[e as usize] || self.touched(e) { self.rs(e) } else { e };
        if let Some(k) = self.ex.kc(e) {
            debug_assert_eq!(k, c, "concrete/symbolic mismatch");
            return (k, 0);
        }
        (c, e)
    }
    fn load(&mut self, t: TyId, a: u64) -> Val {
        match &self.m.tys[t as usize] {
            Ty::Int(_) | Ty::Float | Ty::Double | Ty::Ptr => {
                let (c, e) = self.load_scalar(a, self.m.width(t));
                Val::S(c, e)
            }
            Ty::Vector(n, e) if matches!(self.m.tys[*e as usize], Ty::Int(1)) => {
                let (c, x) = self.load_scalar(a, *n);
                assert_eq!(x, 0);
                Val::A(Arc::new((0..*n).map(|i| Val::S((c >> i) & 1, 0)).collect()))
            }
            Ty::Array(n, e) => {
                let sz = self.m.size_of(*e);
                Val::A(Arc::new((0..*n).map(|i| self.load(*e, a + i * sz)).collect()))
            }
            Ty::Vector(n, e) => {
                let sz = self.m.size_of(*e);
                Val::A(Arc::new((0..*n as u64).map(|i| self.load(*e, a + i * sz)).collect()))
            }
            Ty::Struct(_, f) => {
                let f = f.clone();
                Val::A(Arc::new(
                    (0..f.len())
                        .map(|i| {
                            let (o, ft) = self.m.field_off(t, i as u64);
                            self.load(ft, a + o)
                        })
                        .collect(),
                ))
            }
            o => panic!("load {o:?}"),
        }
    }
    fn store(&mut self, t: TyId, a: u64, v: &Val) {
        match (&self.m.tys[t as usize], v) {
            (_, Val::S(c, e)) => self.store_scalar(a, self.m.width(t), (*c, *e)),
            (Ty::Vector(n, e), Val::A(x)) if matches!(self.m.tys[*e as usize], Ty::Int(1)) => {
                let mut c = 0u128;
                for i in 0..*n as usize {
                    c |= x[i].c() << i;
                }
                self.store_scalar(a, *n, (c, 0));
            }
            (Ty::Array(_, e), Val::A(x)) | (Ty::Vector(_, e), Val::A(x)) => {
                let sz = self.m.size_of(*e);
                for (i, y) in x.iter().enumerate() {
                    self.store(*e, a + i as u64 * sz, y)
                }
            }
            (Ty::Struct(..), Val::A(x)) => {
                for (i, y) in x.iter().enumerate() {
                    let (o, ft) = self.m.field_off(t, i as u64);
                    self.store(ft, a + o, y)
                }
            }
            o => panic!("store {o:?}"),
        }
    }
    fn alloc(&mut self, n: u64, al: u64) -> u64 {
        let al = al.max(16);
        let a = (self.heap_next + al - 1) / al * al;
        self.heap_next = a + n + 32;
        self.heap.insert(a, (n, true));
        a
    }

    // ---------- scalar ops ----------
    fn ee(&mut self, w: u32, v: S2) -> E {
        if v.1 != 0 {
            v.1
        } else {
            self.ex.cst(w, v.0)
        }
    }
    fn sbin(&mut self, op: Opc, w: u32, a: S2, b: S2) -> Result<S2, String> {
        let c = fold(op, w, a.0, b.0).ok_or_else(|| format!("undefined {op:?}"))?;
        if a.1 == 0 && b.1 == 0 {
            return Ok((c, 0));
        }
        let x = self.ee(w, a);
        let y = self.ee(w, b);
        let e = self.ex.bin(op, x, y);
        Ok(self.norm(c, e))
    }
    fn site(&self) -> (u32, u32, usize) {
        let f = self.frames.last().unwrap();
        (f.f, f.b, f.ip)
    }
    /// Force a symbolic scalar to its concrete value on this path (all other values are explored).
    fn conc(&mut self, w: u32, v: S2) -> u128 {
        if v.1 == 0 {
            return v.0;
        }
        let k = self.ex.cst(w, v.0);
        let cond = self.ex.bin(Opc::Eq, v.1, k);
        if self.ex.kc(cond).is_some() {
            return v.0;
        }
        if self.decs.iter().any(|d| d.cond == cond) {
            return v.0;
        }
        let s = self.site();
        self.conc_at.insert(s, ());
        self.decs.push(Dec { cond, kind: DecKind::Conc(v.1) });
        self.learn(cond);
        self.learn_fixed(v.1);
        v.0
    }
    /// Record a two-way decision; returns the concrete truth value.
    fn decide(&mut self, v: S2) -> bool {
        if v.1 != 0 && self.decided(v.1).is_some() {
            self.audit_push(v.0, v.1);
        } else if v.1 != 0 {
            let t = v.0 & 1 == 1;
            let n = self.ex.not1(v.1);
            let (cond, alt) = if t { (v.1, n) } else { (n, v.1) };
            self.decs.push(Dec { cond, kind: DecKind::Branch(vec![alt]) });
            self.learn(cond);
        }
        v.0 & 1 == 1
    }

    /// with --audit, have the solver confirm what domains and intervals decided
    fn audit_push(&mut self, c: u128, e: E) {
        if self.audit && self.ex.kc(e).is_none() {
            let n = self.ex.not1(e);
            let (cond, alt) = if c & 1 == 1 { (e, n) } else { (n, e) };
            self.decs.push(Dec { cond, kind: DecKind::Audit(alt) });
        }
    }

    // ---------- run ----------
    pub fn reset(&mut self) {
        let fp = &mut self.free_pages;
        for (_, p) in self.pages.drain() {
            if fp.len() < 256 {
                fp.push(p);
            }
        }
        self.lastp = u64::MAX;
        self.heap.clear();
        self.heap_next = HEAP_BASE;
        self.sp = STACK_BASE;
        self.regs.clear();
        self.frames.clear();
        self.nin = 0;
        self.decs.clear();
        self.steps = 0;
        self.obs = 0xcbf29ce484222325;
        self.obs_n = 0;
        self.fixed_vars = [0; NV];
        self.fixed.clear();
        self.dom.clear();
        self.gen = 0;
        self.rs_memo.clear();
        self.rg_memo.clear();
        self.rlearn.clear();
        self.cmemo.clear();
    }
    fn obs(&mut self, v: u64) {
        self.obs = (self.obs.rotate_left(7) ^ v).wrapping_mul(0x9E3779B97F4A7C15);
        self.obs_n += 1;
    }
    pub fn run(&mut self, f: u32, input: &[u8]) -> Outcome {
        self.reset();
        self.input = input.to_vec();
        self.push_frame(f, vec![], None, None);
        let r = self.exec();
        self.stats.steps += self.steps;
        r
    }
    fn push_frame(&mut self, f: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) {
        let func = &self.m.funcs[f as usize];
        let base = self.regs.len();
        self.regs.resize(base + func.nregs as usize, Val::S(0, 0));
        for (i, a) in args.into_iter().enumerate() {
            if let Some(&p) = func.params.get(i) {
                if p != u32::MAX {
                    self.regs[base + p as usize] = a;
                }
            }
        }
        if func.subprogram != 0 {
            self.visited_subs.insert(func.subprogram);
        }
        self.frames.push(Frame { f, b: 0, ip: 0, base, dst, normal, sp: self.sp });
    }
    #[inline]
    fn op(&self, base: usize, o: &Op) -> Val {
        match o {
            Op::Reg(r) => self.regs[base + *r as usize].clone(),
            Op::C(v) => v.clone(),
        }
    }
    #[inline]
    fn s(&mut self, base: usize, o: &Op) -> S2 {
        let v = match o {
            Op::Reg(r) => &self.regs[base + *r as usize],
            Op::C(v) => v,
        };
        match v {
            Val::S(c, 0) => (*c, 0),
            Val::S(c, e) => {
                let (c, e) = (*c, *e);
                self.norm(c, e)
            }
            _ => panic!("scalar expected"),
        }
    }
    fn set(&mut self, base: usize, d: Option<u32>, v: Val) {
        if let Some(r) = d {
            self.regs[base + r as usize] = v;
        }
    }
    fn goto(&mut self, target: u32) {
        let fr = self.frames.last().unwrap();
        let (f, from, base) = (fr.f, fr.b, fr.base);
        let m = self.m;
        let blk = &m.funcs[f as usize].blocks[target as usize];
        if blk.phis > 0 {
            let mut tmp: Vec<(u32, Val)> = Vec::with_capacity(blk.phis as usize);
            for ins in &blk.insts[..blk.phis as usize] {
                if let I::Phi(_, inc) = &ins.k {
                    let o = inc.iter().find(|x| x.0 == from).map(|x| &x.1).expect("phi incoming");
                    tmp.push((ins.dst.unwrap(), self.op(base, o)));
                }
            }
            for (d, v) in tmp {
                self.regs[base + d as usize] = v;
            }
        }
        let fr = self.frames.last_mut().unwrap();
        fr.b = target;
        fr.ip = blk.phis as usize;
    }

    fn exec(&mut self) -> Outcome {
        let m = self.m;
        loop {
            let fr = self.frames.last_mut().unwrap();
            let func = &m.funcs[fr.f as usize];
            let ins = &func.blocks[fr.b as usize].insts[fr.ip];
            fr.ip += 1;
            let base = fr.base;
            self.steps += 1;
            if self.steps > self.lim.steps {
                return Outcome::StepLimit;
            }
            if ins.dbg != 0 {
                let d = ins.dbg as usize;
                if d / 64 < self.visited.len() {
                    self.visited[d / 64] |= 1 << (d % 64);
                }
            }
            match self.step(ins, base) {
                Ok(Flow::Next) => {}
                Ok(Flow::Stop(o)) => return o,
                Err(e) => return Outcome::Unsupported(format!("{e} in {}", m.funcs[self.frames.last().map(|f| f.f).unwrap_or(0) as usize].name)),
            }
            if self.frames.is_empty() {
                return Outcome::Ok;
            }
        }
    }

    fn lanes2(&mut self, a: Val, b: Val, mut f: impl FnMut(&mut Self, S2, S2) -> Result<S2, String>) -> Result<Val, String> {
        match (a, b) {
            (Val::S(a, x), Val::S(b, y)) => {
                let r = f(self, (a, x), (b, y))?;
                Ok(Val::S(r.0, r.1))
            }
            (Val::A(a), Val::A(b)) => {
                let mut o = Vec::with_capacity(a.len());
                for (x, y) in a.iter().zip(b.iter()) {
                    match (x, y) {
                        (Val::S(a, x), Val::S(b, y)) => {
                            let r = f(self, (*a, *x), (*b, *y))?;
                            o.push(Val::S(r.0, r.1));
                        }
                        _ => return Err("nested vector".into()),
                    }
                }
                Ok(Val::A(Arc::new(o)))
            }
            _ => Err("lane mismatch".into()),
        }
    }
    fn elem_ty(&self, t: TyId) -> TyId {
        match &self.m.tys[t as usize] {
            Ty::Vector(_, e) => *e,
            _ => t,
        }
    }

    fn icmp(&mut self, p: Pred, w: u32, a: S2, b: S2) -> Result<S2, String> {
        let (op, x, y, neg) = match p {
            Pred::Eq => (Opc::Eq, a, b, false),
            Pred::Ne => (Opc::Eq, a, b, true),
            Pred::Ult => (Opc::Ult, a, b, false),
            Pred::Ule => (Opc::Ule, a, b, false),
            Pred::Ugt => (Opc::Ult, b, a, false),
            Pred::Uge => (Opc::Ule, b, a, false),
            Pred::Slt => (Opc::Slt, a, b, false),
            Pred::Sle => (Opc::Sle, a, b, false),
            Pred::Sgt => (Opc::Slt, b, a, false),
            Pred::Sge => (Opc::Sle, b, a, false),
        };
        let mut r = self.sbin(op, w, x, y)?;
        if neg {
            r.0 ^= 1;
            if r.1 != 0 {
                r.1 = self.ex.not1(r.1);
            }
        }
        Ok(r)
    }
    fn not(&mut self, a: S2) -> S2 {
        let e = if a.1 != 0 { self.ex.not1(a.1) } else { 0 };
        (a.0 ^ 1, e)
    }
    fn ite(&mut self, w: u32, c: S2, a: S2, b: S2) -> S2 {
        let cv = if c.0 & 1 == 1 { a.0 } else { b.0 };
        if c.1 == 0 {
            return if c.0 & 1 == 1 { a } else { b };
        }
        if a.1 == 0 && b.1 == 0 && a.0 == b.0 {
            return a;
        }
        let x = self.ee(w, a);
        let y = self.ee(w, b);
        let e = self.ex.ite(c.1, x, y);
        self.norm(cv, e)
    }
    fn ite_val(&mut self, t: TyId, c: S2, a: Val, b: Val) -> Val {
        if c.1 == 0 {
            return if c.0 & 1 == 1 { a } else { b };
        }
        match (a, b) {
            (Val::S(a, x), Val::S(b, y)) => {
                let w = self.m.width(t);
                let r = self.ite(w, c, (a, x), (b, y));
                Val::S(r.0, r.1)
            }
            (Val::A(a), Val::A(b)) => {
                let mut o = vec![];
                for i in 0..a.len() {
                    let (_, ft) = self.m.field_off(t, i as u64);
                    o.push(self.ite_val(ft, c, a[i].clone(), b[i].clone()));
                }
                Val::A(Arc::new(o))
            }
            _ => panic!("ite_val"),
        }
    }
    fn fval(w: u32, bits: u128) -> f64 {
        if w == 32 {
            f32::from_bits(bits as u32) as f64
        } else {
            f64::from_bits(bits as u64)
        }
    }
    fn fbin(&mut self, op: Bin, w: u32, a: S2, b: S2) -> Result<S2, String> {
        let c = eval_f(op, w, a.0, b.0)?;
        if a.1 == 0 && b.1 == 0 {
            return Ok((c, 0));
        }
        let o = match op {
            Bin::FAdd => Opc::FAdd,
            Bin::FSub => Opc::FSub,
            Bin::FMul => Opc::FMul,
            Bin::FDiv => Opc::FDiv,
            _ => return Err("frem on symbolic".into()),
        };
        let (x, y) = (self.ee(w, a), self.ee(w, b));
        let e = self.ex.raw(o, w, x, y);
        Ok((c, e))
    }
    fn fcmp(&mut self, p: &str, w: u32, a: S2, b: S2) -> Result<S2, String> {
        let (x, y) = (Self::fval(w, a.0), Self::fval(w, b.0));
        let uno = x.is_nan() || y.is_nan();
        let c = match p {
            "oeq" => x == y,
            "ogt" => x > y,
            "oge" => x >= y,
            "olt" => x < y,
            "ole" => x <= y,
            "one" => !uno && x != y,
            "ord" => !uno,
            "uno" => uno,
            "ueq" => uno || x == y,
            "ugt" => uno || x > y,
            "uge" => uno || x >= y,
            "ult" => uno || x < y,
            "ule" => uno || x <= y,
            "une" => uno || x != y,
            "true" => true,
            "false" => false,
            _ => return Err(format!("fcmp {p}")),
        };
        if a.1 == 0 && b.1 == 0 {
            return Ok((c as u128, 0));
        }
        let (ea, eb) = (self.ee(w, a), self.ee(w, b));
        let un = self.ex.raw(Opc::FUno, 1, ea, eb);
        let (base, neg_or_uno) = match &p[1..] {
            "eq" => (self.ex.raw(Opc::FEq, 1, ea, eb), 0),
            "gt" => (self.ex.raw(Opc::FLt, 1, eb, ea), 0),
            "ge" => (self.ex.raw(Opc::FLe, 1, eb, ea), 0),
            "lt" => (self.ex.raw(Opc::FLt, 1, ea, eb), 0),
            "le" => (self.ex.raw(Opc::FLe, 1, ea, eb), 0),
            "ne" => {
                let q = self.ex.raw(Opc::FEq, 1, ea, eb);
                let nq = self.ex.not1(q);
                if p == "une" {
                    (nq, 2)
                } else {
                    let nu = self.ex.not1(un);
                    (self.ex.and1(nq, nu), 2)
                }
            }
            _ => {
                if p == "uno" {
                    (un, 2)
                } else {
                    (self.ex.not1(un), 2)
                }
            }
        };
        let e = if neg_or_uno == 0 && p.starts_with('u') { self.ex.or1(base, un) } else { base };
        Ok((c as u128, e))
    }
    fn cast(&mut self, c: Cast, w: u32, w2: u32, a: S2) -> Result<S2, String> {
        Ok(match c {
            Cast::Trunc | Cast::PtrToInt | Cast::IntToPtr | Cast::ZExt | Cast::BitCast => {
                let v = a.0 & mask(w2);
                if a.1 == 0 {
                    (v, 0)
                } else {
                    let e = if w2 < w {
                        self.ex.extract(a.1, 0, w2)
                    } else {
                        self.ex.zext(a.1, w2)
                    };
                    self.norm(v, e)
                }
            }
            Cast::SExt => {
                let v = (sext(a.0, w) as u128) & mask(w2);
                if a.1 == 0 {
                    (v, 0)
                } else {
                    let e = self.ex.sext(a.1, w2);
                    self.norm(v, e)
                }
            }
            Cast::FpToSi | Cast::FpToUi => {
                let f = Self::fval(w, a.0);
                let v = if c == Cast::FpToSi { (f as i128) as u128 } else { f as u128 } & mask(w2);
                if a.1 == 0 {
                    (v, 0)
                } else {
                    let o = if c == Cast::FpToSi { Opc::FToS } else { Opc::FToU };
                    (v, self.ex.raw(o, w2, a.1, 0))
                }
            }
            Cast::SiToFp | Cast::UiToFp => {
                let v = if w2 == 32 {
                    (if c == Cast::SiToFp { sext(a.0, w) as f32 } else { a.0 as f32 }).to_bits() as u128
                } else {
                    (if c == Cast::SiToFp { sext(a.0, w) as f64 } else { a.0 as f64 }).to_bits() as u128
                };
                if a.1 == 0 {
                    (v, 0)
                } else {
                    let o = if c == Cast::SiToFp { Opc::SToF } else { Opc::UToF };
                    (v, self.ex.raw(o, w2, a.1, 0))
                }
            }
            Cast::FpExt | Cast::FpTrunc => {
                let f = Self::fval(w, a.0);
                let v = if w2 == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 };
                if a.1 == 0 {
                    (v, 0)
                } else {
                    (v, self.ex.raw(Opc::FToF, w2, a.1, 0))
                }
            }
        })
    }
    /// Address for an access of n bytes. Symbolic addresses are concretised.
    fn addr(&mut self, p: S2) -> u64 {
        self.conc(64, p) as u64
    }

    /// Load through a symbolic address inside one constant global: build an if-then-else over the table.
    fn table_load(&mut self, p: S2, w: u32) -> Option<S2> {
        let n = ((w + 7) / 8) as u64;
        let (gb, gs, cst) = self.global_of(p.0 as u64)?;
        if !cst || gs < n || gs > 8192 || p.0 as u64 + n > gb + gs {
            return None;
        }
        // in-bounds decision
        let kb = self.ex.cst(64, gb as u128);
        let off = self.ex.bin(Opc::Sub, p.1, kb);
        let lim = self.ex.cst(64, (gs - n) as u128);
        let inb = self.ex.bin(Opc::Ule, off, lim);
        if self.ex.kc(inb).is_none() {
            let alt = self.ex.not1(inb);
            self.decs.push(Dec { cond: inb, kind: DecKind::Branch(vec![alt]) });
            self.learn(inb);
        } else if self.ex.kc(inb) == Some(0) {
            return None;
        }
        // possible offsets: if off is a scaled index (low bits zero), step accordingly
        let step = {
            let nd = self.ex.n[off as usize];
            let mut s = 1u64;
            // zero low bits
            let mut e = off;
            loop {
                let x = self.ex.n[e as usize];
                match x.op {
                    Opc::ZExt => e = x.a,
                    Opc::Concat => {
                        if self.ex.kc(x.b) == Some(0) {
                            s = 1 << self.ex.w(x.b).min(12);
                            break;
                        }
                        e = x.b;
                    }
                    _ => break,
                }
            }
            let _ = nd;
            s
        };
        let key = (gb, n, step);
        let runs = if let Some(r) = self.tables.get(&key) {
            r.clone()
        } else {
            let mut runs: Vec<(u64, u128)> = vec![];
            let mut o = 0;
            while o + n <= gs {
                let mut v = 0u128;
                for i in 0..n {
                    let a = gb + o + i;
                    let b = self.img.pages.get(&(a >> 12)).map(|p| p[(a & 4095) as usize]).unwrap_or(0);
                    v |= (b as u128) << (8 * i);
                }
                v &= mask(w);
                if runs.last().map(|r| r.1) != Some(v) {
                    runs.push((o, v));
                }
                o += step;
            }
            let r = Arc::new(runs);
            self.tables.insert(key, r.clone());
            r
        };
        // restrict by the width of the offset expression
        let maxoff = {
            let nd = self.ex.n[off as usize];
            if nd.op == Opc::ZExt {
                mask(self.ex.w(nd.a)) as u64
            } else {
                u64::MAX
            }
        };
        fn build(ex: &mut Exprs, off: E, runs: &[(u64, u128)], w: u32) -> E {
            if runs.len() == 1 {
                return ex.cst(w, runs[0].1);
            }
            let mid = runs.len() / 2;
            let k = ex.cst(64, runs[mid].0 as u128);
            let c = ex.bin(Opc::Ult, off, k);
            let l = build(ex, off, &runs[..mid], w);
            let r = build(ex, off, &runs[mid..], w);
            ex.ite(c, l, r)
        }
        let upto = runs.partition_point(|r| r.0 <= maxoff);
        let e = build(&mut self.ex, off, &runs[..upto], w);
        let mut c = 0u128;
        for i in 0..n {
            let a = p.0 as u64 + i;
            let b = self.img.pages.get(&(a >> 12)).map(|p| p[(a & 4095) as usize]).unwrap_or(0);
            c |= (b as u128) << (8 * i);
        }
        Some(self.norm(c & mask(w), e))
    }

    fn step(&mut self, ins: &Inst, base: usize) -> Result<Flow, String> {
        match &ins.k {
            I::Bin(op, t, a, b) => {
                let et = self.elem_ty(*t);
                let w = self.m.width(et);
                let (x, y) = (self.op(base, a), self.op(base, b));
                let o = match op {
                    Bin::Add => Opc::Add,
                    Bin::Sub => Opc::Sub,
                    Bin::Mul => Opc::Mul,
                    Bin::UDiv => Opc::UDiv,
                    Bin::SDiv => Opc::SDiv,
                    Bin::URem => Opc::URem,
                    Bin::SRem => Opc::SRem,
                    Bin::And => Opc::And,
                    Bin::Or => Opc::Or,
                    Bin::Xor => Opc::Xor,
                    Bin::Shl => Opc::Shl,
                    Bin::LShr => Opc::LShr,
                    Bin::AShr => Opc::AShr,
                    f => {
                        let f = *f;
                        let r = self.lanes2(x, y, |s, a, b| s.fbin(f, w, a, b))?;
                        self.set(base, ins.dst, r);
                        return Ok(Flow::Next);
                    }
                };
                let r = match (&x, &y) {
                    (Val::S(a, e1), Val::S(b, e2)) => {
                        let r = self.sbin(o, w, (*a, *e1), (*b, *e2))?;
                        Val::S(r.0, r.1)
                    }
                    _ => self.lanes2(x, y, |s, a, b| s.sbin(o, w, a, b))?,
                };
                self.set(base, ins.dst, r);
            }
            I::ICmp(p, t, a, b) => {
                let et = self.elem_ty(*t);
                let w = self.m.width(et);
                let (x, y) = (self.op(base, a), self.op(base, b));
                let p = *p;
                let r = self.lanes2(x, y, |s, a, b| s.icmp(p, w, a, b))?;
                self.set(base, ins.dst, r);
            }
            I::FCmp(p, t, a, b) => {
                let et = self.elem_ty(*t);
                let w = self.m.width(et);
                let (x, y) = (self.op(base, a), self.op(base, b));
                let r = self.lanes2(x, y, |s, a, b| s.fcmp(p, w, a, b))?;
                self.set(base, ins.dst, r);
            }
            I::FNeg(t, a) => {
                let w = self.m.width(*t);
                let x = self.s(base, a);
                let r = self.sbin(Opc::Xor, w, x, (1u128 << (w - 1), 0))?;
                self.set(base, ins.dst, Val::S(r.0, r.1));
            }
            I::Cast(c, t1, t2, a) => {
                let x = self.op(base, a);
                let r = match (&x, self.m.is_scalar(*t1), self.m.is_scalar(*t2)) {
                    (Val::S(v, e), true, true) => {
                        let r = self.cast(*c, self.m.width(*t1), self.m.width(*t2), (*v, *e))?;
                        Val::S(r.0, r.1)
                    }
                    (Val::A(v), _, _) if *c != Cast::BitCast => {
                        let (w1, w2) = (self.m.width(self.elem_ty(*t1)), self.m.width(self.elem_ty(*t2)));
                        let mut o = vec![];
                        for x in v.iter() {
                            if let Val::S(v, e) = x {
                                let r = self.cast(*c, w1, w2, (*v, *e))?;
                                o.push(Val::S(r.0, r.1));
                            }
                        }
                        Val::A(Arc::new(o))
                    }
                    _ => self.bitcast(*t1, *t2, x)?,
                };
                self.set(base, ins.dst, r);
            }
            I::Load(t, p) => {
                let pv = self.s(base, p);
                if pv.1 != 0 && self.m.is_scalar(*t) {
                    let w = self.m.width(*t);
                    if let Some(r) = self.table_load(pv, w) {
                        self.set(base, ins.dst, Val::S(r.0, r.1));
                        return Ok(Flow::Next);
                    }
                }
                let a = self.addr(pv);
                if let Err(e) = self.check(a, self.m.access_size(*t)) {
                    return Ok(Flow::Stop(Outcome::Mem(format!("load: {e}"))));
                }
                let v = self.load(*t, a);
                self.set(base, ins.dst, v);
            }
            I::Store(t, v, p) => {
                let pv = self.s(base, p);
                let a = self.addr(pv);
                let v = self.op(base, v);
                if let Err(e) = self.check(a, self.m.access_size(*t)) {
                    return Ok(Flow::Stop(Outcome::Mem(format!("store: {e}"))));
                }
                self.store(*t, a, &v);
            }
            I::Gep(b, off, var) => {
                let mut acc = self.s(base, b);
                if *off != 0 {
                    acc = self.sbin(Opc::Add, 64, acc, (*off as u64 as u128, 0))?;
                }
                for (o, w, sz) in var {
                    let v = self.s(base, o);
                    let mut i = if *w < 64 {
                        self.cast(Cast::SExt, *w, 64, v)?
                    } else if *w > 64 {
                        self.cast(Cast::Trunc, *w, 64, v)?
                    } else {
                        v
                    };
                    if *sz != 1 {
                        i = self.sbin(Opc::Mul, 64, i, (*sz as u128, 0))?;
                    }
                    acc = self.sbin(Opc::Add, 64, acc, i)?;
                }
                self.set(base, ins.dst, Val::S(acc.0, acc.1));
            }
            I::Alloca(sz, al, cnt) => {
                let n = match cnt {
                    Some(o) => {
                        let v = self.s(base, o);
                        self.conc(64, v) as u64
                    }
                    None => 1,
                };
                let al = (*al).max(8);
                let a = (self.sp + al - 1) / al * al;
                self.sp = a + sz * n + 8;
                if self.sp - STACK_BASE > self.lim.stack {
                    return Ok(Flow::Stop(Outcome::StackOverflow));
                }
                self.set(base, ins.dst, Val::S(a as u128, 0));
            }
            I::Phi(..) => unreachable!("phi"),
            I::Select(ct, t, c, a, b) => {
                let (x, y) = (self.op(base, a), self.op(base, b));
                let cv = self.op(base, c);
                let r = match cv {
                    Val::S(c, e) => self.ite_val(*t, (c, e), x, y),
                    Val::A(cs) => {
                        let et = self.elem_ty(*t);
                        let mut o = vec![];
                        if let (Val::A(x), Val::A(y)) = (x, y) {
                            for i in 0..cs.len() {
                                if let Val::S(c, e) = cs[i] {
                                    o.push(self.ite_val(et, (c, e), x[i].clone(), y[i].clone()));
                                }
                            }
                        }
                        Val::A(Arc::new(o))
                    }
                };
                let _ = ct;
                self.set(base, ins.dst, r);
            }
            I::Call(callee, args, rt, normal) => {
                let f = match callee {
                    Callee::Fn(f) => *f,
                    Callee::Op(o) => {
                        let v = self.s(base, o);
                        let a = self.addr(v);
                        if a < FN_BASE || a >= GLOBAL_BASE || (a - FN_BASE) % 16 != 0 {
                            return Err(format!("indirect call to {a:#x}"));
                        }
                        ((a - FN_BASE) / 16) as u32
                    }
                    Callee::Asm => {
                        // black_box style empty asm
                        self.set(base, ins.dst, Val::S(0, 0));
                        return Ok(Flow::Next);
                    }
                };
                match &self.spec[f as usize] {
                    Special::None => {
                        if self.frames.len() > self.lim.depth {
                            return Ok(Flow::Stop(Outcome::StackOverflow));
                        }
                        let a: Vec<Val> = args.iter().map(|(_, o)| self.op(base, o)).collect();
                        // account for the machine frame
                        self.push_frame(f, a, ins.dst, *normal);
                    }
                    Special::Panic => {
                        let loc = self.panic_loc(base, args);
                        let name = &self.m.funcs[f as usize].name;
                        let short = name.rsplit(|c: char| c.is_ascii_digit()).next().unwrap_or("").to_string();
                        return Ok(Flow::Stop(Outcome::Panic(format!("{short} {loc}"))));
                    }
                    Special::Intrinsic(_, n) => {
                        let n = n.clone();
                        return self.intrinsic(&n, ins, args, *rt, base, *normal);
                    }
                    Special::Ext(n) => {
                        let n = n.clone();
                        return self.external(&n, ins, args, base, *normal);
                    }
                }
            }
            I::Br(b) => self.goto(*b),
            I::CondBr(c, a, b) => {
                let v = self.s(base, c);
                let t = if a == b { true } else { self.decide(v) };
                self.goto(if t { *a } else { *b });
            }
            I::Switch(w, v, d, cs) => {
                let x = self.s(base, v);
                let target = cs.iter().find(|c| c.0 == x.0).map(|c| c.1).unwrap_or(*d);
                if x.1 != 0 {
                    // group conditions by target
                    let mut groups: Vec<(u32, E)> = vec![];
                    let mut any = self.ex.cst(1, 0);
                    for (k, t) in cs {
                        let kk = self.ex.cst(*w, *k);
                        let c = self.ex.bin(Opc::Eq, x.1, kk);
                        if t != d {
                            any = self.ex.or1(any, c);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == *t) {
                                g.1 = self.ex.or1(g.1, c);
                            } else {
                                groups.push((*t, c));
                            }
                        }
                    }
                    let nd = self.ex.not1(any);
                    groups.push((*d, nd));
                    let mut cond = 0;
                    let mut alts = vec![];
                    for (t, c) in groups {
                        if t == target {
                            cond = c;
                        } else if self.ex.kc(c) != Some(0) {
                            alts.push(c);
                        }
                    }
                    if self.decided(cond).is_some() {
                        self.audit_push(1, cond);
                    } else {
                        self.decs.push(Dec { cond, kind: DecKind::Branch(alts) });
                        self.learn(cond);
                    }
                }
                self.goto(target);
            }
            I::Ret(v) => {
                let rv = v.as_ref().map(|o| self.op(base, o));
                let fr = self.frames.pop().unwrap();
                self.regs.truncate(fr.base);
                self.sp = fr.sp;
                if let Some(caller) = self.frames.last() {
                    let cb = caller.base;
                    if let (Some(d), Some(v)) = (fr.dst, rv) {
                        self.regs[cb + d as usize] = v;
                    }
                    if let Some(n) = fr.normal {
                        self.goto(n);
                    }
                }
            }
            I::Unreachable => return Ok(Flow::Stop(Outcome::Mem("unreachable executed".into()))),
            I::ExtractValue(a, ix) => {
                let mut v = self.op(base, a);
                for i in ix {
                    v = match v {
                        Val::A(x) => x[*i as usize].clone(),
                        _ => return Err("extractvalue".into()),
                    };
                }
                self.set(base, ins.dst, v);
            }
            I::InsertValue(a, b, ix) => {
                fn ins_at(v: &Val, ix: &[u32], x: Val) -> Val {
                    if ix.is_empty() {
                        return x;
                    }
                    match v {
                        Val::A(a) => {
                            let mut n = (**a).clone();
                            n[ix[0] as usize] = ins_at(&a[ix[0] as usize], &ix[1..], x);
                            Val::A(Arc::new(n))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let v = self.op(base, a);
                let x = self.op(base, b);
                let r = ins_at(&v, ix, x);
                self.set(base, ins.dst, r);
            }
            I::ExtractElement(a, i) => {
                let v = self.op(base, a);
                let iv = self.s(base, i);
                let k = self.conc(64, iv) as usize;
                if let Val::A(x) = v {
                    self.set(base, ins.dst, x[k].clone());
                }
            }
            I::InsertElement(a, b, i) => {
                let v = self.op(base, a);
                let x = self.op(base, b);
                let iv = self.s(base, i);
                let k = self.conc(64, iv) as usize;
                if let Val::A(o) = v {
                    let mut n = (*o).clone();
                    n[k] = x;
                    self.set(base, ins.dst, Val::A(Arc::new(n)));
                }
            }
            I::Shuffle(a, b, mk, n) => {
                let (x, y) = (self.op(base, a), self.op(base, b));
                if let (Val::A(x), Val::A(y)) = (x, y) {
                    let r = mk
                        .iter()
                        .map(|&i| if i < *n { x[i as usize].clone() } else { y[((i - n) as usize).min(y.len() - 1)].clone() })
                        .collect();
                    self.set(base, ins.dst, Val::A(Arc::new(r)));
                }
            }
            I::Freeze(a) => {
                let v = self.op(base, a);
                self.set(base, ins.dst, v);
            }
            I::AtomicRmw(o, t, p, v) => {
                let pv = self.s(base, p);
                let a = self.addr(pv);
                if let Err(e) = self.check(a, self.m.access_size(*t)) {
                    return Ok(Flow::Stop(Outcome::Mem(format!("atomicrmw: {e}"))));
                }
                let w = self.m.width(*t);
                let old = self.load_scalar(a, w);
                let x = self.s(base, v);
                let n = match o.as_str() {
                    "xchg" => x,
                    "add" => self.sbin(Opc::Add, w, old, x)?,
                    "sub" => self.sbin(Opc::Sub, w, old, x)?,
                    "and" => self.sbin(Opc::And, w, old, x)?,
                    "or" => self.sbin(Opc::Or, w, old, x)?,
                    "xor" => self.sbin(Opc::Xor, w, old, x)?,
                    o => return Err(format!("atomicrmw {o}")),
                };
                self.store_scalar(a, w, n);
                self.set(base, ins.dst, Val::S(old.0, old.1));
            }
            I::CmpXchg(t, p, c, n) => {
                let pv = self.s(base, p);
                let a = self.addr(pv);
                let w = self.m.width(*t);
                let old = self.load_scalar(a, w);
                let cv = self.s(base, c);
                let q = self.icmp(Pred::Eq, w, old, cv)?;
                let ok = self.decide(q);
                if ok {
                    let nv = self.s(base, n);
                    self.store_scalar(a, w, nv);
                }
                self.set(base, ins.dst, Val::A(Arc::new(vec![Val::S(old.0, old.1), Val::S(ok as u128, 0)])));
            }
            I::Nop => {}
            I::Unsupported(s) => return Err(s.clone()),
        }
        Ok(Flow::Next)
    }

    fn bitcast(&mut self, t1: TyId, t2: TyId, v: Val) -> Result<Val, String> {
        // flatten to bits (low lane = low bits), then split
        let (mut c, mut e, mut w) = (0u128, 0u32, 0u32);
        match &v {
            Val::S(a, x) => {
                c = *a;
                e = *x;
                w = self.m.width(t1);
            }
            Val::A(l) => {
                let ew = self.m.width(self.elem_ty(t1));
                let sym = l.iter().any(|x| matches!(x, Val::S(_, e) if *e != 0));
                for (i, x) in l.iter().enumerate() {
                    if let Val::S(a, xe) = x {
                        c |= a << (ew * i as u32);
                        if sym {
                            let p = if *xe != 0 { *xe } else { self.ex.cst(ew, *a) };
                            e = if i == 0 { p } else { self.ex.concat(p, e) };
                        }
                        w += ew;
                    }
                }
            }
        }
        if w > 128 {
            return Err("wide bitcast".into());
        }
        if self.m.is_scalar(t2) {
            let r = self.norm(c, e);
            return Ok(Val::S(r.0, r.1));
        }
        let ew = self.m.width(self.elem_ty(t2));
        let n = w / ew;
        let mut o = vec![];
        for i in 0..n {
            let cv = (c >> (ew * i)) & mask(ew);
            let x = if e != 0 {
                let y = self.ex.extract(e, ew * i, ew);
                self.norm(cv, y)
            } else {
                (cv, 0)
            };
            o.push(Val::S(x.0, x.1));
        }
        Ok(Val::A(Arc::new(o)))
    }

    fn panic_loc(&mut self, base: usize, args: &[(TyId, Op)]) -> String {
        for (t, o) in args.iter().rev() {
            if !matches!(self.m.tys[*t as usize], Ty::Ptr) {
                continue;
            }
            let a = self.s(base, o).0 as u64;
            if self.check(a, 24).is_err() {
                continue;
            }
            let p = self.load_scalar(a, 64).0 as u64;
            let l = self.load_scalar(a + 8, 64).0 as u64;
            let line = self.load_scalar(a + 16, 32).0;
            let col = self.load_scalar(a + 20, 32).0;
            if l > 300 || l == 0 || self.check(p, l).is_err() {
                continue;
            }
            let s: Vec<u8> = (0..l).map(|i| self.rd8(p + i).0).collect();
            let s = String::from_utf8_lossy(&s).into_owned();
            if s.ends_with(".rs") {
                return format!("at {s}:{line}:{col}");
            }
        }
        // fall back to the innermost known debug location
        String::new()
    }

    fn ret(&mut self, ins: &Inst, base: usize, v: Val, normal: Option<u32>) -> Result<Flow, String> {
        self.set(base, ins.dst, v);
        if let Some(n) = normal {
            self.goto(n);
        }
        Ok(Flow::Next)
    }

    fn copy(&mut self, d: u64, s: u64, n: u64) -> Result<(), Outcome> {
        if n == 0 || d == s {
            return Ok(());
        }
        self.check(d, n).map_err(|e| Outcome::Mem(format!("memcpy dst: {e}")))?;
        self.check(s, n).map_err(|e| Outcome::Mem(format!("memcpy src: {e}")))?;
        let tmp: Vec<(u8, E)> = (0..n).map(|i| self.rd8(s + i)).collect();
        for (i, (v, e)) in tmp.into_iter().enumerate() {
            self.wr8(d + i as u64, v, e);
        }
        Ok(())
    }

    fn intrinsic(&mut self, n: &str, ins: &Inst, args: &[(TyId, Op)], rt: TyId, base: usize, normal: Option<u32>) -> Result<Flow, String> {
        let a = |s: &mut Self, i: usize| s.s(base, &args[i].1);
        let w = if !args.is_empty() {
            let et = self.elem_ty(args[0].0);
            if self.m.is_scalar(et) {
                self.m.width(et)
            } else {
                0
            }
        } else {
            0
        };
        let name: &str = n;
        if name.starts_with("lifetime.") || name.starts_with("dbg.") || name.starts_with("assume") || name.starts_with("experimental.noalias") || name.starts_with("donothing") || name.starts_with("x86.sse2.pause") || name.starts_with("prefetch") {
            return self.ret(ins, base, Val::S(0, 0), normal);
        }
        if name.starts_with("trap") || name.starts_with("debugtrap") {
            return Ok(Flow::Stop(Outcome::Panic("llvm.trap".into())));
        }
        if name.starts_with("memcpy") || name.starts_with("memmove") {
            let (d, s, l) = (a(self, 0), a(self, 1), a(self, 2));
            let l = self.conc(64, l) as u64;
            let d = self.addr(d);
            let s = self.addr(s);
            if let Err(o) = self.copy(d, s, l) {
                return Ok(Flow::Stop(o));
            }
            return self.ret(ins, base, Val::S(0, 0), normal);
        }
        if name.starts_with("memset") {
            let (d, v, l) = (a(self, 0), a(self, 1), a(self, 2));
            let l = self.conc(64, l) as u64;
            let d = self.addr(d);
            if let Err(e) = self.check(d, l) {
                return Ok(Flow::Stop(Outcome::Mem(format!("memset: {e}"))));
            }
            for i in 0..l {
                self.wr8(d + i, v.0 as u8, v.1);
            }
            return self.ret(ins, base, Val::S(0, 0), normal);
        }
        if name.starts_with("x86.addcarry.") || name.starts_with("x86.subborrow.") {
            let w: u32 = if name.ends_with("32") { 32 } else { 64 };
            let (ci, x, y) = (a(self, 0), a(self, 1), a(self, 2));
            let c = self.icmp(Pred::Ne, 8, ci, (0, 0))?;
            let c = self.cast(Cast::ZExt, 1, w, c)?;
            let add = name.starts_with("x86.addcarry.");
            let op = if add { Opc::Add } else { Opc::Sub };
            let r1 = self.sbin(op, w, x, y)?;
            let o1 = if add { self.icmp(Pred::Ult, w, r1, x)? } else { self.icmp(Pred::Ult, w, x, y)? };
            let r2 = self.sbin(op, w, r1, c)?;
            let o2 = if add { self.icmp(Pred::Ult, w, r2, r1)? } else { self.icmp(Pred::Ult, w, r1, c)? };
            let o = self.sbin(Opc::Or, 1, o1, o2)?;
            let o = self.cast(Cast::ZExt, 1, 8, o)?;
            let v = Val::A(Arc::new(vec![Val::S(o.0, o.1), Val::S(r2.0, r2.1)]));
            return self.ret(ins, base, v, normal);
        }
        let bin_lane = |k: &str| -> bool {
            matches!(k, "umax" | "umin" | "smax" | "smin" | "usub" | "uadd" | "ssub" | "sadd" | "ucmp" | "scmp")
        };
        let first = name.split('.').next().unwrap_or("");
        if bin_lane(first) && !name.contains("with.overflow") {
            let (x, y) = (self.op(base, &args[0].1), self.op(base, &args[1].1));
            let f = first.to_string();
            let rw = {
                let et = self.elem_ty(rt);
                self.m.width(et)
            };
            let r = self.lanes2(x, y, |s, a, b| {
                Ok(match f.as_str() {
                    "umax" => {
                        let c = s.icmp(Pred::Ugt, w, a, b)?;
                        s.ite(w, c, a, b)
                    }
                    "umin" => {
                        let c = s.icmp(Pred::Ult, w, a, b)?;
                        s.ite(w, c, a, b)
                    }
                    "smax" => {
                        let c = s.icmp(Pred::Sgt, w, a, b)?;
                        s.ite(w, c, a, b)
                    }
                    "smin" => {
                        let c = s.icmp(Pred::Slt, w, a, b)?;
                        s.ite(w, c, a, b)
                    }
                    "usub" => {
                        let c = s.icmp(Pred::Ult, w, a, b)?;
                        let d = s.sbin(Opc::Sub, w, a, b)?;
                        s.ite(w, c, (0, 0), d)
                    }
                    "uadd" => {
                        let d = s.sbin(Opc::Add, w, a, b)?;
                        let c = s.icmp(Pred::Ult, w, d, a)?;
                        s.ite(w, c, (mask(w), 0), d)
                    }
                    "sadd" | "ssub" => {
                        let op = if f == "sadd" { Opc::Add } else { Opc::Sub };
                        let d = s.sbin(op, w, a, b)?;
                        let ov = s.sovf(op, w, a, b, d)?;
                        let neg = s.icmp(Pred::Slt, w, a, (0, 0))?;
                        let sat = s.ite(w, neg, (1u128 << (w - 1), 0), (mask(w - 1), 0));
                        s.ite(w, ov, sat, d)
                    }
                    "ucmp" | "scmp" => {
                        let (lt, gt) = if f == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                        let l = s.icmp(lt, w, a, b)?;
                        let g = s.icmp(gt, w, a, b)?;
                        let i = s.ite(rw, g, (1, 0), (0, 0));
                        s.ite(rw, l, (mask(rw), 0), i)
                    }
                    _ => unreachable!(),
                })
            })?;
            return self.ret(ins, base, r, normal);
        }
        if name.contains(".with.overflow") {
            let (x, y) = (a(self, 0), a(self, 1));
            let (op, signed) = match first {
                "uadd" => (Opc::Add, false),
                "usub" => (Opc::Sub, false),
                "umul" => (Opc::Mul, false),
                "sadd" => (Opc::Add, true),
                "ssub" => (Opc::Sub, true),
                _ => (Opc::Mul, true),
            };
            let r = self.sbin(op, w, x, y)?;
            let o = if op == Opc::Mul {
                if w <= 64 {
                    let c = if signed { Cast::SExt } else { Cast::ZExt };
                    let x2 = self.cast(c, w, 2 * w, x)?;
                    let y2 = self.cast(c, w, 2 * w, y)?;
                    let p = self.sbin(Opc::Mul, 2 * w, x2, y2)?;
                    let r2 = self.cast(c, w, 2 * w, r)?;
                    self.icmp(Pred::Ne, 2 * w, p, r2)?
                } else {
                    let (xc, yc) = (self.conc(w, x), self.conc(w, y));
                    if signed {
                        let ov = (sext(xc, w)).checked_mul(sext(yc, w)).is_none();
                        (ov as u128, 0)
                    } else {
                        (xc.checked_mul(yc).is_none() as u128, 0)
                    }
                }
            } else if signed {
                self.sovf(op, w, x, y, r)?
            } else if op == Opc::Add {
                self.icmp(Pred::Ult, w, r, x)?
            } else {
                self.icmp(Pred::Ult, w, x, y)?
            };
            let v = Val::A(Arc::new(vec![Val::S(r.0, r.1), Val::S(o.0, o.1)]));
            return self.ret(ins, base, v, normal);
        }
        let unary = match first {
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "abs" => true,
            _ => false,
        };
        if unary {
            let x = self.op(base, &args[0].1);
            let f = first.to_string();
            let go = |s: &mut Self, v: S2| -> Result<S2, String> { s.unary(&f, w, v) };
            let r = match x {
                Val::S(c, e) => {
                    let r = go(self, (c, e))?;
                    Val::S(r.0, r.1)
                }
                Val::A(l) => {
                    let mut o = vec![];
                    for y in l.iter() {
                        if let Val::S(c, e) = y {
                            let r = go(self, (*c, *e))?;
                            o.push(Val::S(r.0, r.1));
                        }
                    }
                    Val::A(Arc::new(o))
                }
            };
            return self.ret(ins, base, r, normal);
        }
        match first {
            "fshl" | "fshr" => {
                let (x, y, z) = (a(self, 0), a(self, 1), a(self, 2));
                let k = self.sbin(Opc::URem, w, z, (w as u128, 0))?;
                let r = if k.1 == 0 {
                    let k = k.0;
                    if k == 0 {
                        if first == "fshl" {
                            x
                        } else {
                            y
                        }
                    } else {
                        let (l, rr) = if first == "fshl" { (k, w as u128 - k) } else { (w as u128 - k, k) };
                        let p = self.sbin(Opc::Shl, w, x, (l, 0))?;
                        let q = self.sbin(Opc::LShr, w, y, (rr, 0))?;
                        self.sbin(Opc::Or, w, p, q)?
                    }
                } else {
                    let inv = self.sbin(Opc::Sub, w, (w as u128, 0), k)?;
                    let (l, rr) = if first == "fshl" { (k, inv) } else { (inv, k) };
                    let p = self.sbin(Opc::Shl, w, x, l)?;
                    let q = self.sbin(Opc::LShr, w, y, rr)?;
                    self.sbin(Opc::Or, w, p, q)?
                };
                return self.ret(ins, base, Val::S(r.0, r.1), normal);
            }
            "is" => return self.ret(ins, base, Val::S(0, 0), normal), // is.constant
            "expect" => {
                let v = self.op(base, &args[0].1);
                return self.ret(ins, base, v, normal);
            }
            "threadlocal" => {
                let v = self.op(base, &args[0].1);
                return self.ret(ins, base, v, normal);
            }
            "objectsize" => {
                return self.ret(ins, base, Val::S(mask(64), 0), normal);
            }
            "fabs" => {
                let x = a(self, 0);
                let r = self.sbin(Opc::And, w, x, (mask(w - 1), 0))?;
                return self.ret(ins, base, Val::S(r.0, r.1), normal);
            }
            "is" if name.starts_with("is.fpclass") => {
                let x = a(self, 0);
                let t = a(self, 1).0;
                let iw = match self.m.tys[args[0].0 as usize] {
                    Ty::Float => 32,
                    _ => 64,
                };
                let mw = if iw == 32 { 23 } else { 52 };
                let frac = self.sbin(Opc::And, iw, x, (mask(mw), 0))?;
                let exp = self.sbin(Opc::And, iw, x, (mask(iw - 1) & !mask(mw), 0))?;
                let fz = self.icmp(Pred::Eq, iw, frac, (0, 0))?;
                let e0 = self.icmp(Pred::Eq, iw, exp, (0, 0))?;
                let e1 = self.icmp(Pred::Eq, iw, exp, (mask(iw - 1) & !mask(mw), 0))?;
                let quiet = self.sbin(Opc::And, iw, x, (1 << (mw - 1), 0))?;
                let quiet = self.icmp(Pred::Ne, iw, quiet, (0, 0))?;
                let neg = self.icmp(Pred::Slt, iw, x, (0, 0))?;
                let bit = |k: u32| ((t >> k & 1), 0);
                // per sign: infinite, normal, subnormal, zero
                let mut by_sign = vec![];
                for (i, n, s, z) in [(9, 8, 7, 6), (2, 3, 4, 5)] {
                    let low = self.ite(1, fz, bit(z), bit(s));
                    let mid = self.ite(1, e0, low, bit(n));
                    by_sign.push(self.ite(1, e1, bit(i), mid));
                }
                let num = self.ite(1, neg, by_sign[1], by_sign[0]);
                let nan = self.ite(1, quiet, bit(1), bit(0));
                let nonzero = self.sbin(Opc::Xor, 1, fz, (1, 0))?;
                let isnan = self.sbin(Opc::And, 1, e1, nonzero)?;
                let r = self.ite(1, isnan, nan, num);
                return self.ret(ins, base, Val::S(r.0, r.1), normal);
            }
            "fptosi" | "fptoui" => {
                // saturating
                let x = a(self, 0);
                let rw = self.m.width(rt);
                let f = Self::fval(w, x.0);
                let signed = first == "fptosi";
                let v = if signed {
                    let lo = if rw >= 128 { i128::MIN } else { -(1i128 << (rw - 1)) };
                    let hi = if rw >= 128 { i128::MAX } else { (1i128 << (rw - 1)) - 1 };
                    ((f as i128).clamp(lo, hi) as u128) & mask(rw)
                } else {
                    (f as u128).min(mask(rw))
                };
                if x.1 == 0 {
                    return self.ret(ins, base, Val::S(v, 0), normal);
                }
                // build saturation
                let bits = |g: f64| -> u128 {
                    if w == 32 {
                        (g as f32).to_bits() as u128
                    } else {
                        g.to_bits() as u128
                    }
                };
                let (lo_f, hi_f, lo_v, hi_v) = if signed {
                    (-(2f64.powi(rw as i32 - 1)), 2f64.powi(rw as i32 - 1), 1u128 << (rw - 1), mask(rw - 1))
                } else {
                    (0.0, 2f64.powi(rw as i32), 0, mask(rw))
                };
                let nan = self.fcmp("uno", w, x, x)?;
                let low = self.fcmp("ole", w, x, (bits(lo_f), 0))?;
                let high = self.fcmp("oge", w, x, (bits(hi_f), 0))?;
                let op = if signed { Opc::FToS } else { Opc::FToU };
                let raw = (v, self.ex.raw(op, rw, x.1, 0));
                let hv = self.ex.cst(rw, hi_v);
                let lv = self.ex.cst(rw, lo_v);
                let z = self.ex.cst(rw, 0);
                let (hb, lb, nb) = (self.ee(1, high), self.ee(1, low), self.ee(1, nan));
                let e1 = self.ex.ite(hb, hv, raw.1);
                let e2 = self.ex.ite(lb, lv, e1);
                let e3 = self.ex.ite(nb, z, e2);
                return self.ret(ins, base, Val::S(v, e3), normal);
            }
            "powi" => {
                let x = a(self, 0);
                let k = a(self, 1);
                let k = sext(self.conc(32, k), 32) as i32;
                let r = self.powi(w, x, k)?;
                return self.ret(ins, base, Val::S(r.0, r.1), normal);
            }
            "floor" | "ceil" | "trunc" | "rint" | "round" | "sqrt" | "nearbyint" | "exp2" | "log2" | "pow" => {
                let x = a(self, 0);
                let c = self.conc(w, x);
                let f = Self::fval(w, c);
                let r = match first {
                    "floor" => f.floor(),
                    "ceil" => f.ceil(),
                    "trunc" => f.trunc(),
                    "round" => f.round(),
                    "sqrt" => f.sqrt(),
                    "exp2" => f.exp2(),
                    "log2" => f.log2(),
                    _ => return Err(format!("intrinsic {name}")),
                };
                let bits = if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 };
                return self.ret(ins, base, Val::S(bits, 0), normal);
            }
            "vector" if name.starts_with("vector.reduce.") => {
                let op = name.split('.').nth(2).unwrap_or("").to_string();
                let v = self.op(base, &args[0].1);
                let l = match v {
                    Val::A(l) => l,
                    _ => return Err("reduce".into()),
                };
                let mut acc: Option<S2> = None;
                for x in l.iter() {
                    if let Val::S(c, e) = x {
                        let y = (*c, *e);
                        acc = Some(match acc {
                            None => y,
                            Some(p) => match op.as_str() {
                                "add" => self.sbin(Opc::Add, w, p, y)?,
                                "and" => self.sbin(Opc::And, w, p, y)?,
                                "or" => self.sbin(Opc::Or, w, p, y)?,
                                "xor" => self.sbin(Opc::Xor, w, p, y)?,
                                "umax" => {
                                    let c = self.icmp(Pred::Ugt, w, p, y)?;
                                    self.ite(w, c, p, y)
                                }
                                "umin" => {
                                    let c = self.icmp(Pred::Ult, w, p, y)?;
                                    self.ite(w, c, p, y)
                                }
                                o => return Err(format!("reduce {o}")),
                            },
                        });
                    }
                }
                let r = acc.unwrap();
                return self.ret(ins, base, Val::S(r.0, r.1), normal);
            }
            _ => {}
        }
        Err(format!("intrinsic llvm.{name}"))
    }
    fn powi(&mut self, w: u32, x: S2, k: i32) -> Result<S2, String> {
        // algorithm of compiler-rt __powidf2
        let one: u128 = if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 };
        let recip = k < 0;
        let mut b = k;
        let mut r = (one, 0);
        let mut a = x;
        loop {
            if b & 1 != 0 {
                r = self.fbin(Bin::FMul, w, r, a)?;
            }
            b /= 2;
            if b == 0 {
                break;
            }
            a = self.fbin(Bin::FMul, w, a, a)?;
        }
        if recip {
            r = self.fbin(Bin::FDiv, w, (one, 0), r)?;
        }
        Ok(r)
    }
    /// bounds of a value read as signed
    fn srange(&mut self, w: u32, v: S2, fuel: u32) -> (i128, i128) {
        if v.1 == 0 {
            let k = sext(v.0, w);
            return (k, k);
        }
        let top = (mask(w) >> 1) as i128;
        let n = self.ex.n[v.1 as usize];
        let wa = self.ex.n[n.a as usize].w;
        if fuel > 0 {
            match n.op {
                Opc::Const => {
                    let k = sext(n.k, w);
                    return (k, k);
                }
                Opc::SExt => return self.srange(wa, (0, n.a), fuel - 1),
                Opc::Add | Opc::Sub => {
                    let p = self.srange(w, (0, n.a), fuel - 1);
                    let q = self.srange(w, (0, n.b), fuel - 1);
                    let r = if n.op == Opc::Add {
                        (p.0.checked_add(q.0), p.1.checked_add(q.1))
                    } else {
                        (p.0.checked_sub(q.1), p.1.checked_sub(q.0))
                    };
                    if let (Some(lo), Some(hi)) = r {
                        if lo >= -top - 1 && hi <= top {
                            return (lo, hi);
                        }
                    }
                }
                Opc::Ite => {
                    let p = self.srange(w, (0, n.b), fuel - 1);
                    let q = self.srange(w, (0, n.c), fuel - 1);
                    return (p.0.min(q.0), p.1.max(q.1));
                }
                _ => {}
            }
        }
        let (lo, hi) = self.range(v.1);
        if hi <= top as u128 {
            (lo as i128, hi as i128)
        } else {
            (-top - 1, top)
        }
    }
    fn sovf(&mut self, op: Opc, w: u32, x: S2, y: S2, r: S2) -> Result<S2, String> {
        // signed ranges that rule overflow out
        let (p, q) = (self.srange(w, x, 8), self.srange(w, y, 8));
        let (lo, hi) = if op == Opc::Add { (p.0.checked_add(q.0), p.1.checked_add(q.1)) } else { (p.0.checked_sub(q.1), p.1.checked_sub(q.0)) };
        if let (Some(lo), Some(hi)) = (lo, hi) {
            let top = (mask(w) >> 1) as i128;
            if lo >= -top - 1 && hi <= top {
                return Ok((0, 0));
            }
        }
        // overflow = sign condition
        let a = self.sbin(Opc::Xor, w, x, r)?;
        let b = if op == Opc::Add { self.sbin(Opc::Xor, w, y, r)? } else { self.sbin(Opc::Xor, w, x, y)? };
        let c = self.sbin(Opc::And, w, a, b)?;
        self.icmp(Pred::Slt, w, c, (0, 0))
    }
    fn unary(&mut self, f: &str, w: u32, v: S2) -> Result<S2, String> {
        let c = v.0;
        let r = match f {
            "ctlz" => (c << (128 - w)).leading_zeros().min(w) as u128,
            "cttz" => c.trailing_zeros().min(w) as u128,
            "ctpop" => c.count_ones() as u128,
            "bswap" => c.swap_bytes() >> (128 - w),
            "bitreverse" => c.reverse_bits() >> (128 - w),
            "abs" => (sext(c, w).wrapping_abs() as u128) & mask(w),
            _ => return Err(f.into()),
        };
        if v.1 == 0 {
            return Ok((r, 0));
        }
        let e = v.1;
        let out = match f {
            "ctlz" => {
                let mut acc = self.ex.cst(w, w as u128);
                for i in 0..w {
                    let b = self.ex.extract(e, i, 1);
                    let k = self.ex.cst(w, (w - 1 - i) as u128);
                    acc = self.ex.ite(b, k, acc);
                }
                acc
            }
            "cttz" => {
                let mut acc = self.ex.cst(w, w as u128);
                for i in (0..w).rev() {
                    let b = self.ex.extract(e, i, 1);
                    let k = self.ex.cst(w, i as u128);
                    acc = self.ex.ite(b, k, acc);
                }
                acc
            }
            "ctpop" => {
                let mut acc = self.ex.cst(w, 0);
                for i in 0..w {
                    let b = self.ex.extract(e, i, 1);
                    let z = self.ex.zext(b, w);
                    acc = self.ex.bin(Opc::Add, acc, z);
                }
                acc
            }
            "bswap" => {
                let n = w / 8;
                let mut acc = self.ex.extract(e, w - 8, 8);
                for i in 1..n {
                    let b = self.ex.extract(e, w - 8 * (i + 1), 8);
                    acc = self.ex.concat(b, acc);
                }
                acc
            }
            "bitreverse" => {
                let mut acc = self.ex.extract(e, w - 1, 1);
                for i in 1..w {
                    let b = self.ex.extract(e, w - 1 - i, 1);
                    acc = self.ex.concat(b, acc);
                }
                acc
            }
            _ => {
                let z = self.ex.cst(w, 0);
                let neg = self.ex.bin(Opc::Slt, e, z);
                let m = self.ex.bin(Opc::Sub, z, e);
                self.ex.ite(neg, m, e)
            }
        };
        Ok(self.norm(r, out))
    }

    fn read_str(&mut self, p: u64, l: u64) -> String {
        let b: Vec<u8> = (0..l).map(|i| self.rd8(p + i).0).collect();
        String::from_utf8_lossy(&b).into_owned()
    }

    fn external(&mut self, n: &str, ins: &Inst, args: &[(TyId, Op)], base: usize, normal: Option<u32>) -> Result<Flow, String> {
        let a = |s: &mut Self, i: usize| s.s(base, &args[i].1);
        macro_rules! ret {
            ($v:expr) => {
                return self.ret(ins, base, Val::S($v as u128, 0), normal)
            };
        }
        match n {
            "sx_byte" => {
                let i = self.nin;
                self.nin += 1;
                if self.nin > self.input.len() {
                    self.input.push(0);
                }
                if i >= 64 * NV {
                    return Err("more than 512 symbolic bytes".into());
                }
                let v = self.input[i];
                let e = self.ex.var(i as u32);
                return self.ret(ins, base, Val::S(v as u128, e), normal);
            }
            "sx_assume" => {
                let v = a(self, 0);
                let (v, ok) = if v.1 != 0 && self.ex.w(v.1) != 1 { ((v.0, self.ex.extract(v.1, 0, 1)), v.0 & 1) } else { (v, v.0 & 1) };
                let v = self.norm(ok, v.1);
                if v.1 != 0 {
                    if ok == 1 {
                        self.decs.push(Dec { cond: v.1, kind: DecKind::Branch(vec![]) });
                        self.learn(v.1);
                    } else {
                        let nn = self.ex.not1(v.1);
                        self.decs.push(Dec { cond: nn, kind: DecKind::Branch(vec![v.1]) });
                    }
                }
                if ok == 0 {
                    return Ok(Flow::Stop(Outcome::Assume));
                }
                ret!(0)
            }
            "sx_assert" => {
                let v = a(self, 0);
                let (p, l) = (a(self, 1).0 as u64, a(self, 2).0 as u64);
                let ok = v.0 & 1 == 1;
                let msg = self.read_str(p, l);
                self.stats.asserts += 1;
                if !ok {
                    if v.1 != 0 {
                        // still explore the passing side
                        let e = if self.ex.w(v.1) != 1 { self.ex.extract(v.1, 0, 1) } else { v.1 };
                        let nn = self.ex.not1(e);
                        self.decs.push(Dec { cond: nn, kind: DecKind::Branch(vec![e]) });
                    }
                    return Ok(Flow::Stop(Outcome::Fail(msg)));
                }
                if v.1 != 0 {
                    let e = if self.ex.w(v.1) != 1 { self.ex.extract(v.1, 0, 1) } else { v.1 };
                    let nn = self.ex.not1(e);
                    if self.ex.kc(e).is_none() {
                        self.decs.push(Dec { cond: e, kind: DecKind::Assert(nn, msg) });
                        self.learn(e);
                    }
                }
                ret!(0)
            }
            "sx_fail" => {
                let (p, l) = (a(self, 0).0 as u64, a(self, 1).0 as u64);
                let msg = self.read_str(p, l);
                return Ok(Flow::Stop(Outcome::Fail(msg)));
            }
            "sx_obs" => {
                let v = a(self, 0).0 as u64;
                self.obs(v);
                ret!(0)
            }
            "sx_cover" | "sx_expect" => {
                let (p, l) = (a(self, 0).0 as u64, a(self, 1).0 as u64);
                let s = self.read_str(p, l);
                if n == "sx_cover" {
                    self.covers.insert(s);
                } else {
                    self.expects.insert(s);
                }
                ret!(0)
            }
            "sx_conc" => {
                // concretise a value: every feasible value is explored on its own path
                let v = a(self, 0);
                let c = self.conc(64, v);
                ret!(c)
            }
            "__rust_alloc" => {
                let v = a(self, 0);
                let l = a(self, 1);
                let s = self.conc(64, v) as u64;
                let al = self.conc(64, l) as u64;
                let p = self.alloc(s, al);
                ret!(p)
            }
            "malloc" => {
                let v = a(self, 0);
                let s = self.conc(64, v) as u64;
                if s > 1 << 24 {
                    ret!(0)
                }
                let p = self.alloc(s, 16);
                ret!(p)
            }
            "calloc" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let s = (self.conc(64, x) * self.conc(64, y)) as u64;
                if s > 1 << 24 {
                    ret!(0)
                }
                let p = self.alloc(s, 16);
                for i in 0..s {
                    self.wr8(p + i, 0, 0);
                }
                ret!(p)
            }
            "posix_memalign" => {
                let (o, al, s) = (a(self, 0), a(self, 1), a(self, 2));
                let s = self.conc(64, s) as u64;
                let p = self.alloc(s, al.0 as u64);
                let oa = self.addr(o);
                self.store_scalar(oa, 64, (p as u128, 0));
                ret!(0)
            }
            "realloc" => {
                let (p, s) = (a(self, 0), a(self, 1));
                let p = self.addr(p);
                let s = self.conc(64, s) as u64;
                if s > 1 << 24 {
                    ret!(0)
                }
                let old = match self.heap.get(&p) {
                    Some((n, true)) => *n,
                    _ => return Ok(Flow::Stop(Outcome::Mem("realloc of bad pointer".into()))),
                };
                let q = self.alloc(s, 16);
                if let Err(o) = self.copy(q, p, old.min(s)) {
                    return Ok(Flow::Stop(o));
                }
                self.heap.insert(p, (old, false));
                ret!(q)
            }
            "free" => {
                let p = a(self, 0);
                let p = self.addr(p);
                if p != 0 {
                    match self.heap.get_mut(&p) {
                        Some(x) if x.1 => x.1 = false,
                        _ => return Ok(Flow::Stop(Outcome::Mem("free of bad pointer".into()))),
                    }
                }
                ret!(0)
            }
            "memcmp" | "bcmp" => {
                let (p, q, l) = (a(self, 0), a(self, 1), a(self, 2));
                let l = self.conc(64, l) as u64;
                let p = self.addr(p);
                let q = self.addr(q);
                if let Err(e) = self.check(p, l).and(self.check(q, l)) {
                    return Ok(Flow::Stop(Outcome::Mem(format!("memcmp: {e}"))));
                }
                let mut acc: S2 = (0, 0);
                for i in (0..l).rev() {
                    let (x, ex) = self.rd8(p + i);
                    let (y, ey) = self.rd8(q + i);
                    let xs = (x as u128, ex);
                    let ys = (y as u128, ey);
                    let eq = self.icmp(Pred::Eq, 8, xs, ys)?;
                    let lt = self.icmp(Pred::Ult, 8, xs, ys)?;
                    let ne = if n == "bcmp" { (1, 0) } else { self.ite(32, lt, (0xffff_ffff, 0), (1, 0)) };
                    acc = self.ite(32, eq, acc, ne);
                }
                return self.ret(ins, base, Val::S(acc.0, acc.1), normal);
            }
            "strlen" => {
                let p = a(self, 0);
                let p = self.addr(p);
                let mut l = 0;
                while self.rd8(p + l).0 != 0 {
                    l += 1;
                }
                ret!(l)
            }
            "memchr" => {
                let (p, c, l) = (a(self, 0), a(self, 1), a(self, 2));
                let l = self.conc(64, l) as u64;
                let p = self.addr(p);
                for i in 0..l {
                    let (x, ex) = self.rd8(p + i);
                    let cc = self.cast(Cast::Trunc, 32, 8, c)?;
                    let eq = self.icmp(Pred::Eq, 8, (x as u128, ex), cc)?;
                    if self.decide(eq) {
                        ret!(p + i)
                    }
                }
                ret!(0)
            }
            "getenv" => ret!(0),
            "hashmap_random_keys" => {
                let v = Val::A(Arc::new(vec![Val::S(0x0123456789abcdef, 0), Val::S(0xfedcba9876543210, 0)]));
                return self.ret(ins, base, v, normal);
            }
            "abort" => return Ok(Flow::Stop(Outcome::Panic("abort".into()))),
            "__powidf2" | "__powisf2" => {
                let w = if n == "__powidf2" { 64 } else { 32 };
                let x = a(self, 0);
                let k = a(self, 1);
                let k = sext(self.conc(32, k), 32) as i32;
                let r = self.powi(w, x, k)?;
                return self.ret(ins, base, Val::S(r.0, r.1), normal);
            }
            "getrandom" => {
                let p = a(self, 0);
                let l = a(self, 1);
                let l = self.conc(64, l) as u64;
                let p = self.addr(p);
                for i in 0..l {
                    self.wr8(p + i, i as u8, 0);
                }
                ret!(l)
            }
            _ => Err(format!("external {n}")),
        }
    }

    // ---------- solving ----------
    pub fn eval(&self, e: E, input: &[u8], memo: &mut FxMap<E, u128>) -> u128 {
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let n = self.ex.n[e as usize];
        let m = mask(n.w);
        let v = match n.op {
            Opc::Const => n.k,
            Opc::Var => input.get(n.k as usize).copied().unwrap_or(0) as u128,
            Opc::Extract => (self.eval(n.a, input, memo) >> n.k as u32) & m,
            Opc::Concat => {
                let wl = self.ex.w(n.b);
                (self.eval(n.a, input, memo) << wl) | self.eval(n.b, input, memo)
            }
            Opc::ZExt => self.eval(n.a, input, memo),
            Opc::SExt => (sext(self.eval(n.a, input, memo), self.ex.w(n.a)) as u128) & m,
            Opc::Ite => {
                if self.eval(n.a, input, memo) == 1 {
                    self.eval(n.b, input, memo)
                } else {
                    self.eval(n.c, input, memo)
                }
            }
            Opc::FAdd | Opc::FSub | Opc::FMul | Opc::FDiv | Opc::FLt | Opc::FLe | Opc::FEq | Opc::FUno | Opc::FToS | Opc::FToU | Opc::SToF | Opc::UToF | Opc::FToF => {
                let x = self.eval(n.a, input, memo);
                let y = if n.b == 0 { 0 } else { self.eval(n.b, input, memo) };
                ffold(n.op, n.w, self.ex.w(n.a), x, y)
            }
            op => {
                let w = self.ex.w(n.a);
                let (x, y) = (self.eval(n.a, input, memo), self.eval(n.b, input, memo));
                fold(op, w, x, y).unwrap_or(0)
            }
        };
        memo.insert(e, v);
        v
    }

    /// The variable of a one-variable expression.
    fn one_var(&self, e: E) -> Option<u32> {
        let v = &self.ex.vars[e as usize];
        let mut r = None;
        for k in 0..NV {
            if v[k] != 0 {
                if r.is_some() || v[k].count_ones() != 1 {
                    return None;
                }
                r = Some((k * 64) as u32 + v[k].trailing_zeros());
            }
        }
        r
    }
    /// Exact set of byte values for which a one-variable condition holds.
    fn domain(&mut self, e: E, var: u32) -> [u64; 4] {
        if let Some(d) = self.dmask.get(&e) {
            return *d;
        }
        let mut d = [0u64; 4];
        let mut inp = vec![0u8; var as usize + 1];
        for x in 0..256usize {
            inp[var as usize] = x as u8;
            let mut memo = FxMap::default();
            if self.eval(e, &inp, &mut memo) == 1 {
                d[x >> 6] |= 1 << (x & 63);
            }
        }
        self.dmask.insert(e, d);
        d
    }
    /// Is prefix && alt satisfiable? Returns a full input on SAT.
    fn solve(&mut self, prefix: &[E], alt: E, domain_ok: bool) -> (Sat, Vec<u8>) {
        if self.ex.kc(alt) == Some(0) {
            return (Sat::Unsat, vec![]);
        }
        // one-byte conditions: exact decision by their domain
        if domain_ok {
            if let Some(v) = self.one_var(alt) {
                let mut d = self.domain(alt, v);
                let mut pure = true;
                for c in prefix.iter() {
                    let cv = &self.ex.vars[*c as usize];
                    if cv[(v as usize >> 6) % NV] >> (v & 63) & 1 == 1 {
                        if self.one_var(*c).is_some() {
                            let m = self.domain(*c, v);
                            for k in 0..4 {
                                d[k] &= m[k];
                            }
                        } else {
                            pure = false;
                        }
                    }
                }
                if d == [0; 4] {
                    self.stats.q_domain += 1;
                    return (Sat::Unsat, vec![]);
                }
                if pure {
                    self.stats.q_domain += 1;
                    let k = (0..4).find(|k| d[*k] != 0).unwrap();
                    let x = k * 64 + d[k].trailing_zeros() as usize;
                    let mut inp = self.input.clone();
                    while inp.len() <= v as usize {
                        inp.push(0);
                    }
                    inp[v as usize] = x as u8;
                    return (Sat::Sat, inp);
                }
            }
        }
        // independence slicing
        let mut vs = self.ex.vars[alt as usize];
        let mut used = vec![false; prefix.len()];
        let mut set: Vec<E> = vec![alt];
        loop {
            let mut changed = false;
            for (i, c) in prefix.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = self.ex.vars[*c as usize];
                if (0..NV).any(|k| cv[k] & vs[k] != 0) {
                    used[i] = true;
                    changed = true;
                    for k in 0..NV {
                        vs[k] |= cv[k];
                    }
                    set.push(*c);
                }
            }
            if !changed {
                break;
            }
        }
        set.sort_unstable();
        set.dedup();
        let key: Box<[E]> = set.clone().into_boxed_slice();
        let res = if let Some(r) = self.cache.get(&key) {
            self.stats.q_cached += 1;
            r.clone()
        } else {
            let mut vars = vec![];
            for k in 0..NV {
                for b in 0..64 {
                    if vs[k] >> b & 1 == 1 {
                        vars.push((k * 64 + b) as u32);
                    }
                }
            }
            let t0 = std::time::Instant::now();
            let dump = self.dump_dir.as_ref().and_then(|d| {
                self.dump_n += 1;
                if self.dump_n % 7 == 1 || std::env::var("LSX_DUMP_ALL").is_ok() {
                    Some(format!("{d}/q{}.smt2", self.dump_n))
                } else {
                    None
                }
            });
            let r = self.z3.check(&self.ex, &set, &vars, dump.as_deref());
            if let Some(d) = dump {
                let _ = std::fs::write(format!("{d}.expect"), format!("{:?}", r.0).to_lowercase());
            }
            let dt = t0.elapsed();
            self.stats.solver_ns += dt.as_nanos() as u64;
            self.stats.max_query_ms = self.stats.max_query_ms.max(dt.as_millis() as u64);
            match r.0 {
                Sat::Sat => self.stats.q_sat += 1,
                Sat::Unsat => self.stats.q_unsat += 1,
                Sat::Unknown => self.stats.q_unknown += 1,
            }
            if r.0 != Sat::Unknown {
                self.cache.insert(key, r.clone());
            }
            r
        };
        let mut inp = self.input.clone();
        if res.0 == Sat::Sat {
            for (v, x) in &res.1 {
                while inp.len() <= *v as usize {
                    inp.push(0);
                }
                inp[*v as usize] = *x;
            }
            // self-check of the model against our own evaluation
            let mut memo = FxMap::default();
            for e in set.iter() {
                if self.eval(*e, &inp, &mut memo) != 1 {
                    self.inconclusive.push("model does not satisfy the query under the engine's evaluator".into());
                    break;
                }
            }
        }
        (res.0, inp)
    }

    /// Explore all alternatives of the decisions at or after `bound`; returns new work items and violations.
    pub fn flips(&mut self, bound: usize) -> (Vec<(Vec<u8>, usize)>, Vec<(String, Vec<u8>)>) {
        let decs = std::mem::take(&mut self.decs);
        let mut prefix: Vec<E> = vec![];
        let mut seen: std::collections::HashSet<E> = Default::default();
        let mut work = vec![];
        let mut viol = vec![];
        let mut memo: FxMap<E, u128> = FxMap::default();
        let input = self.input.clone();
        for (i, d) in decs.iter().enumerate() {
            if self.eval(d.cond, &input, &mut memo) != 1 {
                self.inconclusive.push("decision condition false under the path's own input (engine inconsistency)".into());
            }
            let dup = seen.contains(&d.cond);
            if i >= bound {
                self.stats.decisions += 1;
                if !dup {
                    match &d.kind {
                        DecKind::Branch(alts) => {
                            for alt in alts {
                                let (r, inp) = self.solve(&prefix, *alt, true);
                                match r {
                                    Sat::Sat => work.push((inp, i + 1)),
                                    Sat::Unknown => self.inconclusive.push("solver unknown on branch".into()),
                                    Sat::Unsat => {}
                                }
                            }
                        }
                        DecKind::Conc(v) => {
                            let w = self.ex.w(*v);
                            let mut p = prefix.clone();
                            let mut alt = self.ex.not1(d.cond);
                            let mut n = 0;
                            loop {
                                let (r, inp) = self.solve(&p, alt, true);
                                match r {
                                    Sat::Sat => {
                                        let mut mm = FxMap::default();
                                        let val = self.eval(*v, &inp, &mut mm);
                                        self.stats.conc_values += 1;
                                        work.push((inp, i + 1));
                                        p.push(alt);
                                        let k = self.ex.cst(w, val);
                                        let q = self.ex.bin(Opc::Eq, *v, k);
                                        alt = self.ex.not1(q);
                                        n += 1;
                                        if n > self.lim.enum_values {
                                            self.inconclusive.push("too many values at a concretisation site".into());
                                            break;
                                        }
                                    }
                                    Sat::Unknown => {
                                        self.inconclusive.push("solver unknown on concretisation".into());
                                        break;
                                    }
                                    Sat::Unsat => break,
                                }
                            }
                        }
                        DecKind::Audit(alt) => {
                            self.stats.audits += 1;
                            let (r, _) = self.solve(&prefix, *alt, false);
                            if r != Sat::Unsat {
                                self.inconclusive.push(format!("audit: an implied decision is not implied ({r:?})"));
                            }
                        }
                        DecKind::Assert(neg, msg) => {
                            let (mut r, mut inp) = self.solve(&prefix, *neg, false);
                            if r == Sat::Unknown {
                                // out of time: conditions on one octet can still be decided exactly
                                (r, inp) = self.solve(&prefix, *neg, true);
                            }
                            match r {
                                Sat::Sat => viol.push((msg.clone(), inp)),
                                Sat::Unknown => self.inconclusive.push(format!("solver unknown on assertion {msg}")),
                                Sat::Unsat => self.stats.asserts_discharged += 1,
                            }
                        }
                    }
                } else if let DecKind::Assert(..) = d.kind {
                    self.stats.asserts_discharged += 1;
                }
            }
            // assertions that hold are implied: no need to keep them
            let keep = !matches!(d.kind, DecKind::Assert(..) | DecKind::Audit(..));
            if keep && !dup {
                seen.insert(d.cond);
                prefix.push(d.cond);
            }
        }
        self.decs = decs;
        (work, viol)
    }
    pub fn conc_sites(&self) -> usize {
        self.conc_at.len()
    }
}

pub fn eval_f(op: Bin, w: u32, a: u128, b: u128) -> Result<u128, String> {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        Ok(match op {
            Bin::FAdd => x + y,
            Bin::FSub => x - y,
            Bin::FMul => x * y,
            Bin::FDiv => x / y,
            Bin::FRem => x % y,
            _ => return Err("fop".into()),
        }
        .to_bits() as u128)
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        Ok(match op {
            Bin::FAdd => x + y,
            Bin::FSub => x - y,
            Bin::FMul => x * y,
            Bin::FDiv => x / y,
            Bin::FRem => x % y,
            _ => return Err("fop".into()),
        }
        .to_bits() as u128)
    }
}
