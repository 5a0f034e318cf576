//! Parser for the subset of textual LLVM IR that rustc emits.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Float,
    Double,
    Ptr,
    Array(u64, TyId),
    Struct(bool, Vec<TyId>),
    Vector(u32, TyId),
    Label,
    Metadata,
    Token,
    Opaque,
}

/// A value: scalar (concrete bits + expression id, 0 = concrete) or aggregate.
#[derive(Clone, Debug)]
pub enum Val {
    S(u128, u32),
    A(std::sync::Arc<Vec<Val>>),
}

impl Val {
    #[inline]
    pub fn c(&self) -> u128 {
        match self {
            Val::S(c, _) => *c,
            Val::A(_) => panic!("aggregate used as scalar"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    C(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    BitCast,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Op(Op),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Bin, TyId, Op, Op),
    ICmp(Pred, TyId, Op, Op),
    FCmp(String, TyId, Op, Op),
    FNeg(TyId, Op),
    Cast(Cast, TyId, TyId, Op),
    Load(TyId, Op),
    Store(TyId, Op, Op),
    /// base, constant offset, [(index operand, index width, scale)]
    Gep(Op, i64, Vec<(Op, u32, u64)>),
    Alloca(u64, u64, Option<Op>),
    Phi(TyId, Vec<(u32, Op)>),
    Select(TyId, TyId, Op, Op, Op),
    Call(Callee, Vec<(TyId, Op)>, TyId, Option<u32>),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(u32, Op, u32, Vec<(u128, u32)>),
    Ret(Option<Op>),
    Unreachable,
    ExtractValue(Op, Vec<u32>),
    InsertValue(Op, Op, Vec<u32>),
    ExtractElement(Op, Op),
    InsertElement(Op, Op, Op),
    Shuffle(Op, Op, Vec<u32>, u32),
    Freeze(Op),
    AtomicRmw(String, TyId, Op, Op),
    CmpXchg(TyId, Op, Op, Op),
    Nop,
    Unsupported(String),
}

#[derive(Debug)]
pub struct Inst {
    pub k: I,
    pub dst: Option<u32>,
    pub dbg: u32,
}

#[derive(Debug)]
pub struct Block {
    pub phis: u32,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nregs: u32,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub subprogram: u32,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub constant: bool,
    pub external: bool,
}

#[derive(Debug, Clone, Default)]
pub struct DbgLoc {
    pub line: u32,
    pub scope: u32,
    pub inlined_at: u32,
}
#[derive(Debug, Clone)]
pub enum Meta {
    Loc(DbgLoc),
    Sub { name: String, file: u32, line: u32, scope: u32 },
    Block { scope: u32 },
    Ns { name: String, scope: u32 },
    File { path: String },
}

pub struct Module {
    pub tys: Vec<Ty>,
    tymap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub image: Vec<(u64, Vec<u8>)>,
    pub meta: HashMap<u32, Meta>,
    pub aliases: HashMap<String, String>,
}

pub const FN_BASE: u64 = 0x0000_1000_0000;
pub const GLOBAL_BASE: u64 = 0x0000_4000_0000;

#[derive(Clone, Debug, PartialEq)]
enum T<'a> {
    W(&'a str),
    L(&'a str),
    G(&'a str),
    M(&'a str),
    Str(&'a str),
    CStr(&'a str),
    P(u8),
    Lab(&'a str),
}

fn is_wc(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'.' || b == b'$' || b == b'-' || b == b'#' || b == b'+'
}

fn tokenize<'a>(s: &'a str, out: &mut Vec<T<'a>>, labels: bool) {
    let b = s.as_bytes();
    let mut i = 0;
    let n = b.len();
    let mut line_start = true;
    while i < n {
        let c = b[i];
        match c {
            b'\n' => {
                line_start = true;
                i += 1;
                continue;
            }
            b' ' | b'\t' | b'\r' => {
                i += 1;
                continue;
            }
            b'/' if i + 1 < n && b[i + 1] == b'*' => {
                while i + 1 < n && (b[i] != b'*' || b[i + 1] != b'/') {
                    i += 1;
                }
                i += 2;
                continue;
            }
            b';' => {
                while i < n && b[i] != b'\n' {
                    i += 1;
                }
                continue;
            }
            b'"' => {
                let st = i + 1;
                i += 1;
                while b[i] != b'"' {
                    i += 1;
                }
                let q = &s[st..i];
                i += 1;
                if labels && line_start && i < n && b[i] == b':' {
                    i += 1;
                    out.push(T::Lab(q));
                } else {
                    out.push(T::Str(q));
                }
            }
            b'%' | b'@' | b'!' => {
                let kind = c;
                i += 1;
                let name;
                if i < n && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = &s[st..i];
                    i += 1;
                } else {
                    let st = i;
                    while i < n && is_wc(b[i]) {
                        i += 1;
                    }
                    name = &s[st..i];
                }
                out.push(match kind {
                    b'%' => T::L(name),
                    b'@' => T::G(name),
                    _ => T::M(name),
                });
            }
            b'c' if i + 1 < n && b[i + 1] == b'"' => {
                let st = i + 2;
                i += 2;
                while b[i] != b'"' {
                    i += 1;
                }
                out.push(T::CStr(&s[st..i]));
                i += 1;
            }
            _ if is_wc(c) => {
                let st = i;
                while i < n && is_wc(b[i]) {
                    i += 1;
                }
                if labels && line_start && i < n && b[i] == b':' {
                    out.push(T::Lab(&s[st..i]));
                    i += 1;
                } else {
                    out.push(T::W(&s[st..i]));
                }
            }
            _ => {
                out.push(T::P(c));
                i += 1;
            }
        }
        line_start = false;
    }
}

fn unescape(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
            } else {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

const ATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "zeroext", "signext",
    "nofree", "returned", "immarg", "inreg", "dead_on_unwind", "writable", "swiftself", "allocptr",
    "allocalign", "nest", "dereferenceable", "dereferenceable_or_null", "align", "captures", "range", "sret",
    "byval", "initializes", "nofpclass", "dead_on_return", "noext", "nonnull", "swifterror", "elementtype",
    "nosync", "nocreateundeforpoison",
    // call conv / fmf / linkage-ish
    "fastcc", "coldcc", "ccc", "preserve_mostcc", "preserve_allcc", "preserve_nonecc", "nnan", "ninf", "nsz", "arcp", "contract",
    "afn", "reassoc", "fast", "dso_local", "internal", "private", "hidden", "protected", "unnamed_addr",
    "local_unnamed_addr", "linkonce_odr", "weak", "weak_odr", "available_externally", "linkonce", "external",
    "extern_weak", "dso_preemptable", "noprofile", "preallocated", "inalloca", "allocsize", "memory",
];

struct P<'a, 'm> {
    t: Vec<T<'a>>,
    i: usize,
    m: &'m mut Module,
    regs: HashMap<&'a str, u32>,
    labels: HashMap<&'a str, u32>,
}

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.tys.len() as u32;
        self.tys.push(t.clone());
        self.tymap.insert(t, i);
        i
    }
    pub fn width(&self, t: TyId) -> u32 {
        match &self.tys[t as usize] {
            Ty::Int(w) => *w,
            Ty::Float => 32,
            Ty::Double | Ty::Ptr => 64,
            o => panic!("width of {o:?}"),
        }
    }
    pub fn is_scalar(&self, t: TyId) -> bool {
        matches!(self.tys[t as usize], Ty::Int(_) | Ty::Float | Ty::Double | Ty::Ptr)
    }
    pub fn align_of(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                b.next_power_of_two().min(16)
            }
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(_, e) => self.align_of(*e),
            Ty::Struct(true, _) => 1,
            Ty::Struct(false, f) => f.iter().map(|x| self.align_of(*x)).max().unwrap_or(1),
            Ty::Vector(n, e) => (self.size_of(*e) * *n as u64).next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// octets a load or store touches (i56: 7)
    pub fn access_size(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            _ => self.size_of(t),
        }
    }
    /// alloc size
    pub fn size_of(&self, t: TyId) -> u64 {
        match &self.tys[t as usize] {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align_of(t);
                (b + a - 1) / a * a
            }
            Ty::Float => 4,
            Ty::Double | Ty::Ptr => 8,
            Ty::Array(n, e) => n * self.size_of(*e),
            Ty::Struct(packed, f) => {
                let mut o = 0;
                let mut al = 1;
                for x in f {
                    if !*packed {
                        let a = self.align_of(*x);
                        al = al.max(a);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size_of(*x);
                }
                (o + al - 1) / al * al
            }
            Ty::Vector(n, e) => {
                if let Ty::Int(w) = self.tys[*e as usize] {
                    ((*n as u64) * (w as u64) + 7) / 8
                } else {
                    *n as u64 * self.size_of(*e)
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, t: TyId, idx: u64) -> (u64, TyId) {
        match &self.tys[t as usize] {
            Ty::Struct(packed, f) => {
                let mut o = 0;
                for (i, x) in f.iter().enumerate() {
                    if !*packed {
                        let a = self.align_of(*x);
                        o = (o + a - 1) / a * a;
                    }
                    if i as u64 == idx {
                        return (o, *x);
                    }
                    o += self.size_of(*x);
                }
                panic!("field idx")
            }
            Ty::Array(_, e) => (self.size_of(*e) * idx, *e),
            Ty::Vector(_, e) => (self.size_of(*e) * idx, *e),
            o => panic!("field_off {o:?}"),
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.tys[t as usize] {
            Ty::Array(n, e) => {
                let z = self.zero(*e);
                Val::A(std::sync::Arc::new(vec![z; *n as usize]))
            }
            Ty::Vector(n, e) => {
                let z = self.zero(*e);
                Val::A(std::sync::Arc::new(vec![z; *n as usize]))
            }
            Ty::Struct(_, f) => Val::A(std::sync::Arc::new(f.iter().map(|x| self.zero(*x)).collect())),
            _ => Val::S(0, 0),
        }
    }
    /// Serialize a constant to bytes
    fn const_bytes(&self, t: TyId, v: &Val, out: &mut Vec<u8>) {
        let start = out.len();
        match (&self.tys[t as usize], v) {
            (Ty::Array(_, e), Val::A(a)) => {
                for x in a.iter() {
                    self.const_bytes(*e, x, out)
                }
            }
            (Ty::Vector(_, e), Val::A(a)) => {
                for x in a.iter() {
                    self.const_bytes(*e, x, out)
                }
            }
            (Ty::Struct(packed, f), Val::A(a)) => {
                for (x, ft) in a.iter().zip(f) {
                    if !*packed {
                        let al = self.align_of(*ft);
                        while (out.len() - start) as u64 % al != 0 {
                            out.push(0)
                        }
                    }
                    self.const_bytes(*ft, x, out)
                }
            }
            (_, Val::S(c, _)) => {
                let n = self.size_of(t) as usize;
                let le = c.to_le_bytes();
                for i in 0..n {
                    out.push(if i < 16 { le[i] } else { 0 })
                }
            }
            (a, b) => panic!("const_bytes {a:?} {b:?}"),
        }
        let sz = self.size_of(t) as usize;
        while out.len() - start < sz {
            out.push(0)
        }
    }

    pub fn parse(src: &str) -> Module {
        let mut m = Module {
            tys: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            fidx: HashMap::new(),
            globals: vec![],
            gidx: HashMap::new(),
            image: vec![],
            meta: HashMap::new(),
            aliases: HashMap::new(),
        };
        // split into top-level chunks
        let mut globals: Vec<&str> = vec![];
        let mut funcs: Vec<&str> = vec![];
        let mut pos = 0;
        let bytes = src.as_bytes();
        while pos < src.len() {
            let eol = memchr(b'\n', &bytes[pos..]).map(|x| pos + x).unwrap_or(src.len());
            let line = &src[pos..eol];
            if line.starts_with("define ") {
                let end = src[pos..].find("\n}").map(|x| pos + x + 2).unwrap();
                funcs.push(&src[pos..end]);
                pos = end + 1;
                continue;
            }
            if line.starts_with("declare ") {
                funcs.push(line)
            } else if line.starts_with('@') {
                globals.push(line)
            } else if line.starts_with('!') {
                m.parse_meta(line)
            } else if line.starts_with('%') && line.contains(" = type ") {
                let mut t = vec![];
                tokenize(line, &mut t, false);
                let mut p = P { t, i: 0, m: &mut m, regs: HashMap::new(), labels: HashMap::new() };
                let name = if let T::L(n) = p.t[0] { n.to_string() } else { panic!() };
                p.i = 3;
                let ty = p.ty();
                m.named.insert(name, ty);
            }
            pos = eol + 1;
        }
        // function indices
        for f in &funcs {
            let at = f.find('@').unwrap();
            let rest = &f[at + 1..];
            let name = if rest.starts_with('"') {
                let e = rest[1..].find('"').unwrap();
                rest[1..1 + e].to_string()
            } else {
                let e = rest.find('(').unwrap();
                rest[..e].to_string()
            };
            let idx = m.funcs.len() as u32;
            m.fidx.insert(name.clone(), idx);
            m.funcs.push(Func { name, nregs: 0, params: vec![], blocks: vec![], defined: f.starts_with("define"), subprogram: 0 });
        }
        // pass 1 on globals: types and addresses
        let mut addr = GLOBAL_BASE;
        let mut toks: Vec<(Vec<T>, usize, TyId, usize)> = vec![];
        for g in &globals {
            let mut t = vec![];
            tokenize(g, &mut t, false);
            let name = if let T::G(n) = t[0] { n.to_string() } else { panic!() };
            let mut i = 2;
            let mut external = false;
            loop {
                match &t[i] {
                    T::W("global") => break,
                    T::W("constant") => break,
                    T::W("alias") | T::W("ifunc") => break,
                    T::W("external") | T::W("extern_weak") => {
                        external = true;
                        i += 1
                    }
                    T::P(b'(') => {
                        let mut d = 0;
                        loop {
                            match &t[i] {
                                T::P(b'(') => d += 1,
                                T::P(b')') => d -= 1,
                                _ => {}
                            }
                            i += 1;
                            if d == 0 {
                                break;
                            }
                        }
                    }
                    _ => i += 1,
                }
            }
            if matches!(t[i], T::W("alias")) {
                let tgt = t[i..].iter().rev().find_map(|x| if let T::G(n) = x { Some(n.to_string()) } else { None });
                if let Some(tgt) = tgt {
                    m.aliases.insert(name, tgt);
                }
                continue;
            }
            let constant = matches!(t[i], T::W("constant"));
            i += 1;
            let mut p = P { t, i, m: &mut m, regs: HashMap::new(), labels: HashMap::new() };
            let ty = p.ty();
            let init = p.i;
            let t = std::mem::take(&mut p.t);
            let size = m.size_of(ty);
            let al = 16.max(m.align_of(ty));
            addr = (addr + al - 1) / al * al;
            let gi = m.globals.len();
            m.gidx.insert(name.clone(), gi as u32);
            m.globals.push(Global { name, addr, size, constant, external });
            addr += size + 16;
            toks.push((t, gi, ty, init));
        }
        // pass 2: initializers
        for (t, gi, ty, init) in toks {
            if m.globals[gi].external {
                continue;
            }
            let mut p = P { t, i: init, m: &mut m, regs: HashMap::new(), labels: HashMap::new() };
            let v = p.constant(ty);
            let mut b = vec![];
            m.const_bytes(ty, &v, &mut b);
            let a = m.globals[gi].addr;
            m.image.push((a, b));
        }
        // functions
        for (fi, f) in funcs.iter().enumerate() {
            if !f.starts_with("define") {
                continue;
            }
            m.parse_func(fi, f);
        }
        m
    }

    fn parse_meta(&mut self, line: &str) {
        let Some(eq) = line.find(" = ") else { return };
        let Ok(id) = line[1..eq].parse::<u32>() else { return };
        let rest = line[eq + 3..].trim_start_matches("distinct ");
        fn num(s: &str, key: &str) -> u32 {
            if let Some(p) = s.find(key) {
                let r = s[p + key.len()..].trim_start_matches('!');
                let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len());
                r[..e].parse().unwrap_or(0)
            } else {
                0
            }
        }
        fn st(s: &str, key: &str) -> String {
            if let Some(p) = s.find(key) {
                let r = &s[p + key.len()..];
                let e = r.find('"').unwrap_or(0);
                r[..e].to_string()
            } else {
                String::new()
            }
        }
        if rest.starts_with("!DILocation(") {
            self.meta.insert(
                id,
                Meta::Loc(DbgLoc { line: num(rest, "line: "), scope: num(rest, "scope: "), inlined_at: num(rest, "inlinedAt: ") }),
            );
        } else if rest.starts_with("!DISubprogram(") {
            self.meta.insert(
                id,
                Meta::Sub { name: st(rest, "name: \""), file: num(rest, "file: "), line: num(rest, ", line: "), scope: num(rest, "scope: ") },
            );
        } else if rest.starts_with("!DILexicalBlock") {
            self.meta.insert(id, Meta::Block { scope: num(rest, "scope: ") });
        } else if rest.starts_with("!DINamespace(") {
            self.meta.insert(id, Meta::Ns { name: st(rest, "name: \""), scope: num(rest, "scope: ") });
        } else if rest.starts_with("!DIFile(") {
            let f = st(rest, "filename: \"");
            let d = st(rest, "directory: \"");
            let path = if f.starts_with('/') { f } else { format!("{d}/{f}") };
            self.meta.insert(id, Meta::File { path });
        }
    }

    fn parse_func(&mut self, fi: usize, src: &str) {
        let open = src.find("{\n").map(|x| x).unwrap();
        let header = &src[..open];
        let body = &src[open + 2..src.len() - 2];
        let mut t = vec![];
        tokenize(header, &mut t, false);
        let mut p = P { t, i: 1, m: self, regs: HashMap::new(), labels: HashMap::new() };
        // skip to @name
        while !matches!(p.t[p.i], T::G(_)) {
            p.i += 1;
        }
        p.i += 1;
        p.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.at(b')') {
            if matches!(p.t[p.i], T::W("...")) {
                p.i += 1;
                continue;
            }
            let _ty = p.ty();
            p.attrs();
            if let T::L(n) = p.t[p.i] {
                p.i += 1;
                let r = p.reg(n);
                params.push(r);
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
            } else {
                params.push(u32::MAX);
                unnamed += 1;
            }
            if p.at(b',') {
                p.i += 1;
            }
        }
        let mut sub = 0;
        while p.i + 1 < p.t.len() {
            if let (T::M("dbg"), T::M(n)) = (&p.t[p.i], &p.t[p.i + 1]) {
                sub = n.parse().unwrap_or(0);
            }
            p.i += 1;
        }
        let mut regs = std::mem::take(&mut p.regs);
        regs.reserve(64);
        let mut bt = vec![];
        // drop #dbg_ records
        if body.contains("#dbg_") {
            for l in body.split_inclusive('\n') {
                if !l.trim_start().starts_with("#dbg_") {
                    tokenize_line(l, &mut bt);
                }
            }
        } else {
            tokenize(body, &mut bt, true);
        }
        // labels
        let mut labels: HashMap<&str, u32> = HashMap::new();
        let entry_name: String = format!("{unnamed}");
        let mut nb = 0;
        if !matches!(bt[0], T::Lab(_)) {
            nb = 1;
        }
        for x in &bt {
            if let T::Lab(n) = x {
                labels.insert(n, nb);
                nb += 1;
            }
        }
        let en: &'static str = Box::leak(entry_name.into_boxed_str());
        if !matches!(bt[0], T::Lab(_)) {
            labels.insert(en, 0);
        }
        let mut p = P { t: bt, i: 0, m: self, regs, labels };
        let mut blocks: Vec<Block> = vec![];
        if !matches!(p.t[0], T::Lab(_)) {
            blocks.push(Block { phis: 0, insts: vec![] });
        }
        while p.i < p.t.len() {
            if let T::Lab(_) = p.t[p.i] {
                p.i += 1;
                blocks.push(Block { phis: 0, insts: vec![] });
                continue;
            }
            let ins = p.inst();
            let b = blocks.last_mut().unwrap();
            if matches!(ins.k, I::Phi(..)) {
                b.phis += 1;
            }
            b.insts.push(ins);
        }
        let nregs = p.regs.len() as u32;
        let f = &mut self.funcs[fi];
        f.params = params;
        f.blocks = blocks;
        f.nregs = nregs;
        f.subprogram = sub;
    }

    pub fn fn_addr(i: u32) -> u64 {
        FN_BASE + i as u64 * 16
    }
    /// Resolve a debug location to a chain of (function name, file, line of the subprogram, line of the location)
    pub fn subprogram_of(&self, mut scope: u32) -> u32 {
        loop {
            match self.meta.get(&scope) {
                Some(Meta::Sub { .. }) => return scope,
                Some(Meta::Block { scope: s }) => scope = *s,
                _ => return 0,
            }
        }
    }
    pub fn qualified(&self, sub: u32) -> Option<(String, String, u32)> {
        if let Some(Meta::Sub { name, file, line, scope }) = self.meta.get(&sub) {
            let mut q = name.clone();
            let mut s = *scope;
            let mut guard = 0;
            while let Some(Meta::Ns { name, scope }) = self.meta.get(&s) {
                q = format!("{name}::{q}");
                s = *scope;
                guard += 1;
                if guard > 20 {
                    break;
                }
            }
            let f = match self.meta.get(file) {
                Some(Meta::File { path }) => path.clone(),
                _ => String::new(),
            };
            return Some((q, f, *line));
        }
        None
    }
}

fn tokenize_line<'a>(l: &'a str, out: &mut Vec<T<'a>>) {
    tokenize(l, out, true)
}

fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}

fn all_digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit())
}

impl<'a, 'm> P<'a, 'm> {
    fn peek(&self) -> &T<'a> {
        &self.t[self.i]
    }
    fn at(&self, c: u8) -> bool {
        self.i < self.t.len() && self.t[self.i] == T::P(c)
    }
    fn expect(&mut self, c: u8) {
        if !self.at(c) {
            panic!(
                "parse: expected '{}' at {:?}",
                c as char,
                &self.t[self.i.saturating_sub(12)..(self.i + 8).min(self.t.len())]
            );
        }
        self.i += 1;
    }
    fn word(&mut self) -> &'a str {
        match self.t[self.i] {
            T::W(w) => {
                self.i += 1;
                w
            }
            _ => panic!("word expected at {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn eat(&mut self, w: &str) -> bool {
        if self.i < self.t.len() {
            if let T::W(x) = self.t[self.i] {
                if x == w {
                    self.i += 1;
                    return true;
                }
            }
        }
        false
    }
    fn reg(&mut self, n: &'a str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn balanced(&mut self) {
        let (o, c) = match self.t[self.i] {
            T::P(b'(') => (b'(', b')'),
            T::P(b'[') => (b'[', b']'),
            T::P(b'{') => (b'{', b'}'),
            _ => panic!("balanced"),
        };
        let mut d = 0;
        loop {
            if self.t[self.i] == T::P(o) {
                d += 1
            } else if self.t[self.i] == T::P(c) {
                d -= 1
            }
            self.i += 1;
            if d == 0 {
                break;
            }
        }
    }
    fn attrs(&mut self) {
        loop {
            match self.t.get(self.i) {
                Some(T::W(w)) if ATTRS.contains(w) => {
                    let is_align = *w == "align";
                    self.i += 1;
                    if self.at(b'(') {
                        self.balanced()
                    } else if is_align {
                        self.i += 1;
                    }
                }
                Some(T::W("cc")) => self.i += 2,
                Some(T::W("addrspace")) => {
                    self.i += 1;
                    self.balanced()
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.at(b'=') {
                        self.i += 2;
                    }
                }
                _ => break,
            }
        }
    }
    fn ty(&mut self) -> TyId {
        let t = self.t[self.i].clone();
        match t {
            T::W(w) => {
                self.i += 1;
                match w {
                    "void" => self.m.ty(Ty::Void),
                    "ptr" => {
                        if matches!(self.t.get(self.i), Some(T::W("addrspace"))) {
                            self.i += 1;
                            self.balanced();
                        }
                        self.m.ty(Ty::Ptr)
                    }
                    "float" => self.m.ty(Ty::Float),
                    "double" => self.m.ty(Ty::Double),
                    "label" => self.m.ty(Ty::Label),
                    "metadata" => self.m.ty(Ty::Metadata),
                    "token" => self.m.ty(Ty::Token),
                    "opaque" | "half" | "bfloat" | "fp128" | "x86_fp80" => self.m.ty(Ty::Opaque),
                    _ if w.starts_with('i') && all_digits(&w[1..]) => {
                        let n: u32 = w[1..].parse().unwrap();
                        self.m.ty(Ty::Int(n))
                    }
                    _ => panic!("type? {w} near {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
                }
            }
            T::L(n) => {
                self.i += 1;
                *self.m.named.get(n).unwrap_or_else(|| panic!("named type {n}"))
            }
            T::P(b'[') => {
                self.i += 1;
                let n: u64 = self.word().parse().unwrap();
                assert!(self.eat("x"));
                let e = self.ty();
                self.expect(b']');
                self.m.ty(Ty::Array(n, e))
            }
            T::P(b'{') => {
                self.i += 1;
                let mut f = vec![];
                while !self.at(b'}') {
                    f.push(self.ty());
                    if self.at(b',') {
                        self.i += 1
                    }
                }
                self.expect(b'}');
                self.m.ty(Ty::Struct(false, f))
            }
            T::P(b'<') => {
                self.i += 1;
                if self.at(b'{') {
                    self.i += 1;
                    let mut f = vec![];
                    while !self.at(b'}') {
                        f.push(self.ty());
                        if self.at(b',') {
                            self.i += 1
                        }
                    }
                    self.expect(b'}');
                    self.expect(b'>');
                    self.m.ty(Ty::Struct(true, f))
                } else {
                    let n: u32 = self.word().parse().unwrap();
                    assert!(self.eat("x"));
                    let e = self.ty();
                    self.expect(b'>');
                    self.m.ty(Ty::Vector(n, e))
                }
            }
            o => panic!("type? {o:?} near {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn sym(&self, n: &str) -> u64 {
        let n = self.m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
        if let Some(f) = self.m.fidx.get(n) {
            return Module::fn_addr(*f);
        }
        if let Some(g) = self.m.gidx.get(n) {
            return self.m.globals[*g as usize].addr;
        }
        // dso_local_equivalent or unknown
        panic!("unknown symbol @{n}")
    }
    fn constant(&mut self, ty: TyId) -> Val {
        let k = self.m.tys[ty as usize].clone();
        let tok = self.t[self.i].clone();
        match tok {
            T::G(n) => {
                self.i += 1;
                Val::S(self.sym(n) as u128, 0)
            }
            T::CStr(s) => {
                self.i += 1;
                Val::A(std::sync::Arc::new(unescape(s).into_iter().map(|b| Val::S(b as u128, 0)).collect()))
            }
            T::P(b'[') | T::P(b'{') => {
                self.i += 1;
                let close = if tok == T::P(b'[') { b']' } else { b'}' };
                let mut v = vec![];
                while !self.at(close) {
                    let t = self.ty();
                    v.push(self.constant(t));
                    if self.at(b',') {
                        self.i += 1
                    }
                }
                self.i += 1;
                Val::A(std::sync::Arc::new(v))
            }
            T::P(b'<') => {
                self.i += 1;
                let mut v = vec![];
                let st = self.at(b'{');
                if st {
                    self.i += 1;
                }
                let close = if st { b'}' } else { b'>' };
                while !self.at(close) {
                    let t = self.ty();
                    v.push(self.constant(t));
                    if self.at(b',') {
                        self.i += 1
                    }
                }
                self.i += 1;
                if st {
                    self.expect(b'>');
                }
                Val::A(std::sync::Arc::new(v))
            }
            T::W(w) => {
                self.i += 1;
                match w {
                    "null" | "none" => Val::S(0, 0),
                    "true" => Val::S(1, 0),
                    "false" => Val::S(0, 0),
                    "undef" | "poison" | "zeroinitializer" => self.m.zero(ty),
                    "splat" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.constant(t);
                        self.expect(b')');
                        let n = match k {
                            Ty::Vector(n, _) => n,
                            _ => panic!(),
                        };
                        Val::A(std::sync::Arc::new(vec![v; n as usize]))
                    }
                    "dso_local_equivalent" | "no_cfi" => self.constant(ty),
                    "getelementptr" => {
                        while matches!(self.peek(), T::W(_)) {
                            self.i += 1;
                            if self.at(b'(') && matches!(self.t[self.i - 1], T::W("inrange")) {
                                self.balanced();
                            }
                        }
                        self.expect(b'(');
                        let bt = self.ty();
                        self.expect(b',');
                        let pt = self.ty();
                        let base = self.constant(pt).c() as u64;
                        let mut off = 0i64;
                        let mut cur = bt;
                        let mut first = true;
                        while self.at(b',') {
                            self.i += 1;
                            let it = self.ty();
                            let w = self.m.width(it);
                            let v = sext(self.constant(it).c(), w) as i64;
                            if first {
                                off = off.wrapping_add(v.wrapping_mul(self.m.size_of(cur) as i64));
                                first = false;
                            } else {
                                let (o, t2) = self.m.field_off(cur, v as u64);
                                off += o as i64;
                                cur = t2;
                            }
                        }
                        self.expect(b')');
                        Val::S(base.wrapping_add(off as u64) as u128, 0)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr" => {
                        self.expect(b'(');
                        let t = self.ty();
                        let v = self.constant(t);
                        assert!(self.eat("to"));
                        let t2 = self.ty();
                        self.expect(b')');
                        match v {
                            Val::S(c, _) => Val::S(c & mask(self.m.width(t2)), 0),
                            a => a,
                        }
                    }
                    "add" | "sub" | "xor" | "mul" => {
                        while matches!(self.peek(), T::W(_)) {
                            self.i += 1;
                        }
                        self.expect(b'(');
                        let t = self.ty();
                        let a = self.constant(t).c();
                        self.expect(b',');
                        let t2 = self.ty();
                        let b = self.constant(t2).c();
                        self.expect(b')');
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "xor" => a ^ b,
                            _ => a.wrapping_mul(b),
                        };
                        Val::S(r & mask(self.m.width(t)), 0)
                    }
                    _ => match k {
                        Ty::Int(wd) => {
                            let v: u128 = if let Some(r) = w.strip_prefix('-') {
                                (r.parse::<u128>().unwrap()).wrapping_neg()
                            } else if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) {
                                u128::from_str_radix(h, 16).unwrap()
                            } else {
                                w.parse::<u128>().unwrap_or_else(|_| panic!("int const {w}"))
                            };
                            Val::S(v & mask(wd), 0)
                        }
                        Ty::Float | Ty::Double => {
                            let d: f64 = if let Some(h) = w.strip_prefix("f0x") {
                                // raw bits of the type
                                let bits = u64::from_str_radix(h, 16).unwrap();
                                return Val::S(bits as u128, 0);
                            } else if let Some(h) = w.strip_prefix("0x") {
                                f64::from_bits(u64::from_str_radix(h, 16).unwrap())
                            } else {
                                match w {
                                    "+inf" => f64::INFINITY,
                                    "-inf" => f64::NEG_INFINITY,
                                    "+qnan" => f64::NAN,
                                    "-qnan" => -f64::NAN,
                                    _ => w.parse().unwrap_or_else(|_| panic!("float {w}")),
                                }
                            };
                            if k == Ty::Float {
                                Val::S((d as f32).to_bits() as u128, 0)
                            } else {
                                Val::S(d.to_bits() as u128, 0)
                            }
                        }
                        _ => panic!("const {w} for {k:?}: {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
                    },
                }
            }
            o => panic!("constant? {o:?} {:?}", &self.t[self.i.saturating_sub(10)..(self.i + 5).min(self.t.len())]),
        }
    }
    fn op(&mut self, ty: TyId) -> Op {
        if let T::L(n) = self.t[self.i] {
            self.i += 1;
            return Op::Reg(self.reg(n));
        }
        Op::C(self.constant(ty))
    }
    fn label(&mut self) -> u32 {
        assert!(self.eat("label"));
        if let T::L(n) = self.t[self.i] {
            self.i += 1;
            *self.labels.get(n).unwrap_or_else(|| panic!("label {n}"))
        } else {
            panic!("label")
        }
    }
    fn flags(&mut self) {
        while let Some(T::W(w)) = self.t.get(self.i) {
            match *w {
                "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg" | "samesign" | "nnan" | "ninf" | "nsz"
                | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "volatile" | "weak" => self.i += 1,
                "inrange" => {
                    self.i += 1;
                    self.balanced()
                }
                _ => break,
            }
        }
    }
    fn inst(&mut self) -> Inst {
        let mut dst = None;
        if let T::L(n) = self.t[self.i] {
            self.i += 1;
            self.expect(b'=');
            dst = Some(self.reg(n));
        }
        let k = self.inst_kind();
        // trailing metadata
        let mut dbg = 0;
        while self.i + 1 < self.t.len() && self.at(b',') {
            match (&self.t[self.i + 1], self.t.get(self.i + 2)) {
                (T::M(name), Some(T::M(id))) => {
                    if *name == "dbg" {
                        dbg = id.parse().unwrap_or(0);
                    }
                    // inline metadata such as !{...}?
                    self.i += 3;
                    if self.at(b'{') {
                        self.balanced();
                    }
                }
                (T::W("align"), _) => self.i += 3,
                _ => panic!("trailing {:?}", &self.t[self.i..(self.i + 6).min(self.t.len())]),
            }
        }
        Inst { k, dst, dbg }
    }
    fn bin(&mut self, b: Bin) -> I {
        self.flags();
        let t = self.ty();
        let x = self.op(t);
        self.expect(b',');
        let y = self.op(t);
        I::Bin(b, t, x, y)
    }
    fn cast(&mut self, c: Cast) -> I {
        self.flags();
        let t = self.ty();
        let x = self.op(t);
        assert!(self.eat("to"));
        let t2 = self.ty();
        I::Cast(c, t, t2, x)
    }
    fn inst_kind(&mut self) -> I {
        let w = self.word();
        match w {
            "add" => self.bin(Bin::Add),
            "sub" => self.bin(Bin::Sub),
            "mul" => self.bin(Bin::Mul),
            "udiv" => self.bin(Bin::UDiv),
            "sdiv" => self.bin(Bin::SDiv),
            "urem" => self.bin(Bin::URem),
            "srem" => self.bin(Bin::SRem),
            "and" => self.bin(Bin::And),
            "or" => self.bin(Bin::Or),
            "xor" => self.bin(Bin::Xor),
            "shl" => self.bin(Bin::Shl),
            "lshr" => self.bin(Bin::LShr),
            "ashr" => self.bin(Bin::AShr),
            "fadd" => self.bin(Bin::FAdd),
            "fsub" => self.bin(Bin::FSub),
            "fmul" => self.bin(Bin::FMul),
            "fdiv" => self.bin(Bin::FDiv),
            "frem" => self.bin(Bin::FRem),
            "fneg" => {
                self.flags();
                let t = self.ty();
                let x = self.op(t);
                I::FNeg(t, x)
            }
            "icmp" => {
                self.flags();
                let p = match self.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    o => panic!("pred {o}"),
                };
                let t = self.ty();
                let x = self.op(t);
                self.expect(b',');
                let y = self.op(t);
                I::ICmp(p, t, x, y)
            }
            "fcmp" => {
                self.flags();
                let p = self.word().to_string();
                let t = self.ty();
                let x = self.op(t);
                self.expect(b',');
                let y = self.op(t);
                I::FCmp(p, t, x, y)
            }
            "trunc" => self.cast(Cast::Trunc),
            "zext" => self.cast(Cast::ZExt),
            "sext" => self.cast(Cast::SExt),
            "ptrtoint" | "ptrtoaddr" => self.cast(Cast::PtrToInt),
            "inttoptr" => self.cast(Cast::IntToPtr),
            "bitcast" | "addrspacecast" => self.cast(Cast::BitCast),
            "fptoui" => self.cast(Cast::FpToUi),
            "fptosi" => self.cast(Cast::FpToSi),
            "uitofp" => self.cast(Cast::UiToFp),
            "sitofp" => self.cast(Cast::SiToFp),
            "fptrunc" => self.cast(Cast::FpTrunc),
            "fpext" => self.cast(Cast::FpExt),
            "load" => {
                self.eat("atomic");
                self.flags();
                let t = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let p = self.op(pt);
                self.ordering();
                I::Load(t, p)
            }
            "store" => {
                self.eat("atomic");
                self.flags();
                let t = self.ty();
                let v = self.op(t);
                self.expect(b',');
                let pt = self.ty();
                let p = self.op(pt);
                self.ordering();
                I::Store(t, v, p)
            }
            "fence" => {
                self.ordering();
                I::Nop
            }
            "getelementptr" => {
                self.flags();
                let bt = self.ty();
                self.expect(b',');
                let pt = self.ty();
                let base = self.op(pt);
                let mut off = 0i64;
                let mut var = vec![];
                let mut cur = bt;
                let mut first = true;
                while self.at(b',') && !matches!(self.t[self.i + 1], T::M(_)) {
                    self.i += 1;
                    let it = self.ty();
                    if !self.m.is_scalar(it) {
                        return self.skip_unsupported("vector gep");
                    }
                    let w = self.m.width(it);
                    let v = self.op(it);
                    if first {
                        first = false;
                        let sz = self.m.size_of(cur);
                        match v {
                            Op::C(Val::S(c, _)) => off = off.wrapping_add((sext(c, w) as i64).wrapping_mul(sz as i64)),
                            o => var.push((o, w, sz)),
                        }
                    } else {
                        match (&v, &self.m.tys[cur as usize]) {
                            (Op::C(Val::S(c, _)), Ty::Struct(..)) => {
                                let (o, t2) = self.m.field_off(cur, *c as u64);
                                off += o as i64;
                                cur = t2;
                            }
                            (_, Ty::Array(_, e)) | (_, Ty::Vector(_, e)) => {
                                let e = *e;
                                let sz = self.m.size_of(e);
                                match v {
                                    Op::C(Val::S(c, _)) => {
                                        off = off.wrapping_add((sext(c, w) as i64).wrapping_mul(sz as i64))
                                    }
                                    o => var.push((o, w, sz)),
                                }
                                cur = e;
                            }
                            o => panic!("gep {o:?}"),
                        }
                    }
                }
                I::Gep(base, off, var)
            }
            "alloca" => {
                self.flags();
                let t = self.ty();
                let mut align = self.m.align_of(t);
                let mut cnt = None;
                while self.at(b',') && !matches!(self.t[self.i + 1], T::M(_)) {
                    self.i += 1;
                    if self.eat("align") {
                        align = self.word().parse().unwrap();
                    } else if self.eat("addrspace") {
                        self.balanced();
                    } else {
                        let ct = self.ty();
                        cnt = Some(self.op(ct));
                    }
                }
                I::Alloca(self.m.size_of(t), align, cnt)
            }
            "phi" => {
                self.flags();
                let t = self.ty();
                let mut v = vec![];
                loop {
                    self.expect(b'[');
                    let o = self.op(t);
                    self.expect(b',');
                    let l = if let T::L(n) = self.t[self.i] {
                        self.i += 1;
                        *self.labels.get(n).unwrap_or_else(|| panic!("phi label {n}"))
                    } else {
                        panic!()
                    };
                    self.expect(b']');
                    v.push((l, o));
                    if self.at(b',') && self.t[self.i + 1] == T::P(b'[') {
                        self.i += 1;
                    } else {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "select" => {
                self.flags();
                let ct = self.ty();
                let c = self.op(ct);
                self.expect(b',');
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                I::Select(ct, t, c, a, b)
            }
            "tail" | "musttail" | "notail" => {
                assert!(self.eat("call"));
                self.call(false)
            }
            "call" => self.call(false),
            "invoke" => self.call(true),
            "br" => {
                if matches!(self.peek(), T::W("label")) {
                    I::Br(self.label())
                } else {
                    let t = self.ty();
                    let c = self.op(t);
                    self.expect(b',');
                    let a = self.label();
                    self.expect(b',');
                    let b = self.label();
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let t = self.ty();
                let w = self.m.width(t);
                let v = self.op(t);
                self.expect(b',');
                let d = self.label();
                self.expect(b'[');
                let mut cs = vec![];
                while !self.at(b']') {
                    let t = self.ty();
                    let c = self.constant(t).c();
                    self.expect(b',');
                    cs.push((c, self.label()));
                }
                self.i += 1;
                I::Switch(w, v, d, cs)
            }
            "ret" => {
                let t = self.ty();
                if self.m.tys[t as usize] == Ty::Void {
                    I::Ret(None)
                } else {
                    I::Ret(Some(self.op(t)))
                }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let t = self.ty();
                let a = self.op(t);
                let mut ix = vec![];
                while self.at(b',') && matches!(self.t[self.i + 1], T::W(_)) {
                    self.i += 1;
                    ix.push(self.word().parse().unwrap());
                }
                I::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                let mut ix = vec![];
                while self.at(b',') && matches!(self.t[self.i + 1], T::W(_)) {
                    self.i += 1;
                    ix.push(self.word().parse().unwrap());
                }
                I::InsertValue(a, b, ix)
            }
            "extractelement" => {
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                I::ExtractElement(a, b)
            }
            "insertelement" => {
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                self.expect(b',');
                let t3 = self.ty();
                let c = self.op(t3);
                I::InsertElement(a, b, c)
            }
            "shufflevector" => {
                let t = self.ty();
                let a = self.op(t);
                let n = match self.m.tys[t as usize] {
                    Ty::Vector(n, _) => n,
                    _ => panic!(),
                };
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                self.expect(b',');
                let t3 = self.ty();
                let mk = self.constant(t3);
                let v = match mk {
                    Val::A(v) => v.iter().map(|x| x.c() as u32).collect(),
                    _ => panic!(),
                };
                I::Shuffle(a, b, v, n)
            }
            "freeze" => {
                let t = self.ty();
                I::Freeze(self.op(t))
            }
            "atomicrmw" => {
                self.flags();
                let o = self.word().to_string();
                let pt = self.ty();
                let p = self.op(pt);
                self.expect(b',');
                let t = self.ty();
                let v = self.op(t);
                self.ordering();
                I::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.flags();
                let pt = self.ty();
                let p = self.op(pt);
                self.expect(b',');
                let t = self.ty();
                let a = self.op(t);
                self.expect(b',');
                let t2 = self.ty();
                let b = self.op(t2);
                self.ordering();
                I::CmpXchg(t, p, a, b)
            }
            "landingpad" => {
                let _ = self.ty();
                loop {
                    if self.eat("cleanup") {
                        continue;
                    }
                    if self.eat("catch") || self.eat("filter") {
                        let t = self.ty();
                        let _ = self.constant(t);
                        continue;
                    }
                    break;
                }
                I::Unsupported("landingpad".into())
            }
            "resume" => {
                let t = self.ty();
                let _ = self.op(t);
                I::Unsupported("resume".into())
            }
            o => panic!("instr {o}: {:?}", &self.t[self.i..(self.i + 12).min(self.t.len())]),
        }
    }
    fn skip_unsupported(&mut self, s: &str) -> I {
        // skip operands until the next statement: best effort on ", type op" lists
        let _ = self.word_or_any();
        while self.at(b',') && !matches!(self.t[self.i + 1], T::M(_)) {
            self.i += 1;
            let t = self.ty();
            let _ = self.op(t);
        }
        I::Unsupported(s.into())
    }
    fn word_or_any(&mut self) {
        self.i += 1;
    }
    fn ordering(&mut self) {
        loop {
            if self.eat("syncscope") {
                self.balanced();
                continue;
            }
            if self.eat("monotonic")
                || self.eat("acquire")
                || self.eat("release")
                || self.eat("acq_rel")
                || self.eat("seq_cst")
                || self.eat("unordered")
            {
                continue;
            }
            break;
        }
    }
    fn call(&mut self, invoke: bool) -> I {
        self.flags();
        self.attrs();
        let rt = self.ty();
        if self.at(b'(') {
            // function type
            self.balanced();
        }
        let callee = match self.t[self.i].clone() {
            T::G(n) => {
                self.i += 1;
                let n2 = self.m.aliases.get(n).cloned().unwrap_or(n.to_string());
                match self.m.fidx.get(&n2) {
                    Some(f) => Callee::Fn(*f),
                    None => Callee::Op(Op::C(Val::S(self.sym(n) as u128, 0))),
                }
            }
            T::L(n) => {
                self.i += 1;
                Callee::Op(Op::Reg(self.reg(n)))
            }
            T::W("asm") => {
                self.i += 1;
                while matches!(self.peek(), T::W(_)) {
                    self.i += 1;
                }
                self.i += 1; // template
                self.expect(b',');
                self.i += 1;
                Callee::Asm
            }
            _ => {
                let pt = self.m.ty(Ty::Ptr);
                Callee::Op(Op::C(self.constant(pt)))
            }
        };
        self.expect(b'(');
        let mut args = vec![];
        while !self.at(b')') {
            let t = self.ty();
            if self.m.tys[t as usize] == Ty::Metadata {
                // metadata operand
                let mut d = 0;
                loop {
                    match self.t[self.i] {
                        T::P(b'(') => d += 1,
                        T::P(b')') if d == 0 => break,
                        T::P(b')') => d -= 1,
                        T::P(b',') if d == 0 => break,
                        _ => {}
                    }
                    self.i += 1;
                }
                args.push((t, Op::C(Val::S(0, 0))));
            } else {
                self.attrs();
                let o = self.op(t);
                args.push((t, o));
            }
            if self.at(b',') {
                self.i += 1
            }
        }
        self.i += 1;
        // fn attrs
        loop {
            match self.t.get(self.i) {
                Some(T::W(w)) if w.starts_with('#') => self.i += 1,
                Some(T::W(w)) if ["nounwind", "noreturn", "willreturn", "cold", "nobuiltin", "noinline", "nomerge"].contains(w) => {
                    self.i += 1
                }
                Some(T::W("memory")) => {
                    self.i += 1;
                    self.balanced()
                }
                Some(T::P(b'[')) => self.balanced(),
                _ => break,
            }
        }
        let mut normal = None;
        if invoke {
            assert!(self.eat("to"), "invoke to {:?}", &self.t[self.i..self.i + 5]);
            normal = Some(self.label());
            assert!(self.eat("unwind"));
            self.label();
        }
        I::Call(callee, args, rt, normal)
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

#[allow(dead_code)]
fn _unused(_: Rc<u8>) {}
