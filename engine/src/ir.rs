//! Loading LLVM textual IR and lowering function bodies to a flat bytecode.
use crate::expr::Op;
use std::collections::HashMap;
use std::sync::OnceLock;

pub const GLOBAL_BASE: u32 = 1;
pub const HEAP_BASE: u32 = 0x0100_0000;
pub const FN_BASE: u32 = 0x4000_0000;
pub const STACK_BASE: u32 = 0x6000_0000;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u16),
    F(u16),
    Ptr,
    Arr(u64, Box<Ty>),
    Struct(bool, Vec<Ty>),
    Other,
}

fn up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::F(w) => (*w / 8) as u64,
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(p, f) => {
                if *p {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) | Ty::F(_) | Ty::Ptr => up(self.bytes() as u64, self.align()),
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(p, f) => {
                let mut o = 0;
                for t in f {
                    if !p {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *p {
                    o
                } else {
                    up(o, self.align())
                }
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Struct(p, f) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !p {
                        o = up(o, t.align());
                    }
                    if j == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            _ => panic!("field of scalar"),
        }
    }
    pub fn field(&self, i: usize) -> &Ty {
        match self {
            Ty::Arr(_, t) => t,
            Ty::Struct(_, f) => &f[i],
            _ => panic!("field of scalar"),
        }
    }
    /// bits of a scalar
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) | Ty::F(w) => *w,
            Ty::Ptr => 64,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn bytes(&self) -> u16 {
        (self.bits() + 7) / 8
    }
    pub fn nscalars(&self) -> usize {
        match self {
            Ty::Void => 0,
            Ty::Arr(n, t) => *n as usize * t.nscalars(),
            Ty::Struct(_, f) => f.iter().map(|t| t.nscalars()).sum(),
            _ => 1,
        }
    }
    pub fn flatten(&self, off: u64, out: &mut Vec<(u64, Ty)>) {
        match self {
            Ty::Void => {}
            Ty::Arr(n, t) => {
                for i in 0..*n {
                    t.flatten(off + i * t.size(), out)
                }
            }
            Ty::Struct(_, f) => {
                for (i, t) in f.iter().enumerate() {
                    t.flatten(off + self.field_off(i), out)
                }
            }
            t => out.push((off, t.clone())),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    ZExt,
    SExt,
    Bit,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpExt,
    FpTrunc,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    Nand,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr {
    Nop,
    Trap,
    Memcpy,
    Memset,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UMax,
    UMin,
    SMax,
    SMin,
    Fshl,
    Fshr,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Abs,
    USubSat,
    UAddSat,
    SSubSat,
    SAddSat,
    UCmp,
    SCmp,
    Ident,
    FAbs,
    CopySign,
    FpToUiSat,
    FpToSiSat,
    FFloor,
    FCeil,
    FTrunc,
    FRound,
    FRint,
    FSqrt,
    FMin,
    FMax,
    FMa,
    Expect,
    IsConst,
}

/// Operand: >= 0 register, < 0 constant pool index `!x`.
pub type Opd = i32;
pub const NO: u32 = u32::MAX;

#[derive(Clone, Copy, Debug)]
pub enum I {
    Bin { op: Op, w: u8, d: u32, a: Opd, b: Opd },
    Cmp { p: Pred, w: u8, d: u32, a: Opd, b: Opd },
    FBin { k: u8, w: u8, d: u32, a: Opd, b: Opd },
    FCmp { k: u8, w: u8, d: u32, a: Opd, b: Opd },
    Cast { k: CastK, fw: u8, tw: u8, d: u32, a: Opd },
    Sel { w: u8, d: u32, c: Opd, a: Opd, b: Opd },
    Mov { d: u32, a: Opd },
    Load { w: u8, n: u8, d: u32, p: Opd },
    Store { w: u8, n: u8, v: Opd, p: Opd },
    GepC { d: u32, p: Opd, off: i64 },
    GepV { d: u32, p: Opd, i: Opd, w: u8, scale: i64 },
    Alloca { d: u32, off: u32 },
    Call { f: u32, args: u32, n: u16, d: u32 },
    CallI { p: Opd, args: u32, n: u16, d: u32 },
    Intr { k: Intr, w: u8, args: u32, n: u8, d: u32 },
    Br { e: u32 },
    CBr { c: Opd, t: u32, f: u32 },
    Sw { v: Opd, w: u8, s: u32 },
    Ret { args: u32, n: u16 },
    Unreach,
    ARmw { k: Rmw, w: u8, d: u32, p: Opd, v: Opd },
    CmpXchg { w: u8, d: u32, p: Opd, c: u32, n: u32 }, // c,n indices into args
    Unsup { m: u32 },
}

#[derive(Debug, Default)]
pub struct Edge {
    pub target: u32,
    pub moves: Vec<(u32, Opd)>,
}

#[derive(Debug, Default)]
pub struct Switch {
    pub cases: Vec<(u128, u32)>,
    pub default: u32,
    /// distinct edges: (target block id, edge)
    pub map: HashMap<u128, u32>,
}

#[derive(Debug, Default)]
pub struct Func {
    pub id: u32,
    pub code: Vec<I>,
    pub consts: Vec<u128>,
    pub args: Vec<Opd>,
    pub edges: Vec<Edge>,
    pub switches: Vec<Switch>,
    pub msgs: Vec<String>,
    pub nregs: u32,
    /// registers of parameters (flattened)
    pub params: u32,
    pub frame: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Model {
    /// execute the body
    None,
    Undefined,
    Alloc,
    AllocZeroed,
    Dealloc,
    Realloc,
    Nop,
    PanicFmt,
    PanicNounwind,
    Abort,
    Memcmp,
    Memcpy,
    Memset,
    Strlen,
    HashKeys,
    Zero,
    One,
    Fail,
    Errno,
    ThreadAtexit,
    Syscall,
    KeyCreate,
    SymU8,
    SymU32,
    SymU64,
    SymAssume,
    SymDone,
    SymAssert,
    SymCover,
    SymConcretize,
    SymObserve,
    SymIsFeasible,
    SymNote,
}

pub struct FnInfo {
    pub name: String,
    pub demangled: String,
    pub module: u32,
    pub text: &'static str,
    pub model: Model,
    pub body: OnceLock<Result<Func, String>>,
}

pub struct GlobalInfo {
    pub name: String,
    pub module: u32,
    pub text: &'static str,
    pub constant: bool,
    pub init: OnceLock<Result<Vec<u8>, String>>,
}

#[derive(Clone, Copy, Debug)]
pub enum Sym {
    F(u32),
    G(u32),
    Null,
}

pub struct Module {
    pub file: String,
    pub types: HashMap<&'static str, &'static str>,
    pub local: HashMap<&'static str, Sym>,
    pub aliases: HashMap<&'static str, &'static str>,
}

pub struct Prog {
    pub modules: Vec<Module>,
    pub ext: HashMap<&'static str, Sym>,
    pub ext_alias: HashMap<&'static str, (u32, &'static str)>,
    pub fns: Vec<FnInfo>,
    pub globals: Vec<GlobalInfo>,
}

fn name_at(s: &str) -> (&str, &str) {
    // s starts right after '@' or '%'
    let b = s.as_bytes();
    if b.first() == Some(&b'"') {
        let e = s[1..].find('"').unwrap() + 1;
        (&s[1..e], &s[e + 1..])
    } else {
        let mut i = 0;
        while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
            i += 1;
        }
        (&s[..i], &s[i..])
    }
}

fn model_of(name: &str) -> Model {
    let e = |s: &str| name.ends_with(s);
    if name.contains("7___rustc") {
        if e("12___rust_alloc") {
            return Model::Alloc;
        }
        if e("19___rust_alloc_zeroed") {
            return Model::AllocZeroed;
        }
        if e("14___rust_dealloc") {
            return Model::Dealloc;
        }
        if e("14___rust_realloc") {
            return Model::Realloc;
        }
        if name.contains("___rust_no_alloc_shim_is_unstable") {
            return Model::Nop;
        }
    }
    if e("9panicking9panic_fmt") {
        return Model::PanicFmt;
    }
    if e("9panicking18panic_nounwind_fmt") {
        return Model::PanicNounwind;
    }
    if e("19hashmap_random_keys") {
        return Model::HashKeys;
    }
    if e("5alloc18handle_alloc_error") || e("14rust_oom") || e("7process5abort") || e("4abort14abort_internal") {
        return Model::Abort;
    }
    match name {
        "memcmp" | "bcmp" => Model::Memcmp,
        "memcpy" | "memmove" => Model::Memcpy,
        "memset" => Model::Memset,
        "strlen" => Model::Strlen,
        "abort" | "exit" | "_exit" => Model::Abort,
        "__cxa_thread_atexit_impl" => Model::ThreadAtexit,
        // only `std::thread::current` allocates like this
        "malloc" => Model::Alloc,
        "free" => Model::Dealloc,
        // A system of one processor and no files to open.
        "open64" => Model::Fail,
        "sched_getaffinity" => Model::Fail,
        "sysconf" => Model::One,
        "__errno_location" => Model::Errno,
        "gettid" => Model::Zero,
        "syscall" => Model::Syscall,
        "pthread_key_create" => Model::KeyCreate,
        "pthread_setspecific" | "pthread_key_delete" => Model::Zero,
        "sym_u8" => Model::SymU8,
        "sym_u32" => Model::SymU32,
        "sym_u64" => Model::SymU64,
        "sym_assume" => Model::SymAssume,
        "sym_done" => Model::SymDone,
        "sym_assert" => Model::SymAssert,
        "sym_cover" => Model::SymCover,
        "sym_concretize" => Model::SymConcretize,
        "sym_observe" => Model::SymObserve,
        "sym_is_feasible" => Model::SymIsFeasible,
        "sym_note" => Model::SymNote,
        _ => Model::None,
    }
}

const WEAK_NULL: &[&str] = &["__cxa_thread_atexit_impl", "getrandom", "gnu_get_libc_version", "__dso_handle"];

impl Prog {
    pub fn load(files: &[String]) -> Result<Prog, String> {
        let mut p = Prog { modules: vec![], ext: HashMap::new(), ext_alias: HashMap::new(), fns: vec![], globals: vec![] };
        let mut declared: Vec<(&'static str, bool)> = vec![];
        let mut ext_globals: Vec<(&'static str, u32, &'static str, bool)> = vec![];
        let mut strong: HashMap<&'static str, bool> = HashMap::new();
        for f in files {
            let text: &'static str = Box::leak(std::fs::read_to_string(f).map_err(|e| format!("{f}: {e}"))?.into_boxed_str());
            let mi = p.modules.len() as u32;
            let mut m = Module { file: f.clone(), types: HashMap::new(), local: HashMap::new(), aliases: HashMap::new() };
            let mut pos = 0;
            let mut comment = "";
            let bytes = text.as_bytes();
            while pos < text.len() {
                let eol = memchr(bytes, pos);
                let line = &text[pos..eol];
                let start = pos;
                pos = eol + 1;
                let b = line.as_bytes();
                match b.first() {
                    Some(b';') => {
                        if !line.starts_with("; Function Attrs") {
                            comment = &line[1..];
                        }
                    }
                    Some(b'@') => {
                        let (name, rest) = name_at(&line[1..]);
                        let rest = rest.trim_start().strip_prefix("=").ok_or("global")?.trim_start();
                        let mut words = vec![];
                        let mut r = rest;
                        loop {
                            let (w, nr) = r.split_once(' ').unwrap_or((r, ""));
                            words.push(w);
                            r = nr;
                            if w == "global" || w == "constant" || w == "alias" || w == "ifunc" || r.is_empty() {
                                break;
                            }
                        }
                        let local = words.contains(&"internal") || words.contains(&"private");
                        let kind = *words.last().unwrap();
                        if kind == "alias" {
                            let at = r.rfind("ptr @").ok_or_else(|| format!("alias {line}"))?;
                            let (target, _) = name_at(&r[at + 5..]);
                            if local {
                                m.aliases.insert(name, target);
                            } else {
                                m.aliases.insert(name, target);
                                p.ext_alias.insert(name, (mi, target));
                            }
                        } else if words.contains(&"external") || words.contains(&"extern_weak") {
                            ext_globals.push((name, mi, r, words.contains(&"extern_weak")));
                        } else {
                            let gi = p.globals.len() as u32;
                            p.globals.push(GlobalInfo { name: name.to_string(), module: mi, text: r, constant: kind == "constant", init: OnceLock::new() });
                            if local {
                                m.local.insert(name, Sym::G(gi));
                            } else {
                                p.ext.entry(name).or_insert(Sym::G(gi));
                            }
                        }
                    }
                    Some(b'%') => {
                        let (name, rest) = name_at(&line[1..]);
                        if let Some(t) = rest.trim_start().strip_prefix("= type ") {
                            m.types.insert(name, t);
                        }
                    }
                    Some(b'd') if line.starts_with("define ") => {
                        // find end
                        let mut q = pos;
                        loop {
                            let e2 = memchr(bytes, q);
                            let l2 = &text[q..e2];
                            q = e2 + 1;
                            if l2 == "}" {
                                break;
                            }
                            if q >= text.len() {
                                return Err(format!("unterminated define {line}"));
                            }
                        }
                        let body = &text[start..q];
                        pos = q;
                        let at = line.find('@').ok_or("define")?;
                        let (name, _) = name_at(&line[at + 1..]);
                        let head = &line[..at];
                        let local = head.contains(" internal ") || head.contains(" private ");
                        let weak = head.contains(" weak") || head.contains(" linkonce");
                        let fi = p.fns.len() as u32;
                        p.fns.push(FnInfo {
                            name: name.to_string(),
                            demangled: comment.trim().to_string(),
                            module: mi,
                            text: body,
                            model: model_of(name),
                            body: OnceLock::new(),
                        });
                        comment = "";
                        if local {
                            m.local.insert(name, Sym::F(fi));
                        } else if !p.ext.contains_key(name) || (!weak && strong.get(name) == Some(&false)) {
                            p.ext.insert(name, Sym::F(fi));
                            strong.insert(name, !weak);
                        }
                    }
                    Some(b'd') if line.starts_with("declare ") => {
                        if let Some(at) = line.find('@') {
                            let (name, _) = name_at(&line[at + 1..]);
                            if !name.starts_with("llvm.") {
                                declared.push((name, line[..at].contains("extern_weak")));
                            }
                        }
                    }
                    _ => {}
                }
            }
            p.modules.push(m);
        }
        // undefined functions
        for (name, weak) in declared {
            if p.ext.contains_key(name) || p.ext_alias.contains_key(name) {
                continue;
            }
            if weak || WEAK_NULL.contains(&name) {
                p.ext.insert(name, Sym::Null);
                continue;
            }
            let fi = p.fns.len() as u32;
            let m = model_of(name);
            p.fns.push(FnInfo {
                name: name.to_string(),
                demangled: String::new(),
                module: 0,
                text: "",
                model: if m == Model::None { Model::Undefined } else { m },
                body: OnceLock::new(),
            });
            p.ext.insert(name, Sym::F(fi));
        }
        for (name, mi, rest, weak) in ext_globals {
            if p.ext.contains_key(name) || p.ext_alias.contains_key(name) {
                continue;
            }
            if weak {
                p.ext.insert(name, Sym::Null);
                continue;
            }
            let gi = p.globals.len() as u32;
            let t: &'static str = Box::leak(format!("{} zeroinitializer", rest.split(',').next().unwrap()).into_boxed_str());
            p.globals.push(GlobalInfo { name: name.to_string(), module: mi, text: t, constant: false, init: OnceLock::new() });
            p.ext.insert(name, Sym::G(gi));
        }
        Ok(p)
    }

    pub fn resolve(&self, module: u32, name: &str) -> Option<Sym> {
        self.resolve_d(module, name, 0)
    }
    fn resolve_d(&self, module: u32, name: &str, d: u32) -> Option<Sym> {
        if d > 8 {
            return None;
        }
        let m = &self.modules[module as usize];
        if let Some(s) = m.local.get(name) {
            return Some(*s);
        }
        if let Some(t) = m.aliases.get(name) {
            return self.resolve_d(module, t, d + 1);
        }
        if let Some(s) = self.ext.get(name) {
            return Some(*s);
        }
        if let Some((mi, t)) = self.ext_alias.get(name) {
            return self.resolve_d(*mi, t, d + 1);
        }
        None
    }
    pub fn sym_addr(&self, s: Sym) -> u64 {
        match s {
            Sym::F(i) => ((FN_BASE + i) as u64) << 32,
            Sym::G(i) => ((GLOBAL_BASE + i) as u64) << 32,
            Sym::Null => 0,
        }
    }
    pub fn global_init(&self, g: u32) -> Result<&Vec<u8>, String> {
        let gi = &self.globals[g as usize];
        gi.init
            .get_or_init(|| {
                let mut ps = P { prog: self, module: gi.module, s: gi.text.as_bytes(), i: 0 };
                let ty = ps.ty()?;
                let n = ty.size();
                let mut out = vec![0u8; n as usize];
                ps.const_bytes(&ty, 0, &mut out)?;
                Ok(out)
            })
            .as_ref()
            .map_err(|e| format!("global {}: {}", gi.name, e))
    }
    pub fn func(&self, f: u32) -> Result<&Func, String> {
        let fi = &self.fns[f as usize];
        fi.body
            .get_or_init(|| lower(self, f))
            .as_ref()
            .map_err(|e| format!("function {}: {}", fi.name, e))
    }
    pub fn find(&self, name: &str) -> Option<u32> {
        match self.ext.get(name) {
            Some(Sym::F(i)) => Some(*i),
            _ => None,
        }
    }
}

fn memchr(b: &[u8], from: usize) -> usize {
    b[from..].iter().position(|c| *c == b'\n').map(|x| x + from).unwrap_or(b.len())
}

pub struct P<'a> {
    prog: &'a Prog,
    module: u32,
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn ws(&mut self) {
        loop {
            while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t') {
                self.i += 1;
            }
            if self.s[self.i..].starts_with(b"/*") {
                while !self.s[self.i..].starts_with(b"*/") {
                    self.i += 1;
                }
                self.i += 2;
            } else {
                break;
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            let last = t.as_bytes()[t.len() - 1];
            if last.is_ascii_alphanumeric() {
                if let Some(c) = self.s.get(self.i + t.len()) {
                    if c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.' {
                        return false;
                    }
                }
            }
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let e = (self.i + 80).min(self.s.len());
        Err(format!("{m} at `{}`", String::from_utf8_lossy(&self.s[self.i.min(e)..e])))
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            self.err(&format!("expected {t}"))
        }
    }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.')) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str {
        let st = {
            self.ws();
            self.i
        };
        let w = self.word();
        self.i = st;
        w
    }
    /// name after sigil
    fn name(&mut self) -> R<&'a str> {
        let b: &'a [u8] = self.s;
        let st = self.i;
        let (lo, hi) = if b.get(st) == Some(&b'"') {
            let e = b[st + 1..].iter().position(|c| *c == b'"').ok_or("quoted name")? + st + 1;
            self.i = e + 1;
            (st + 1, e)
        } else {
            let mut i = st;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) {
                i += 1;
            }
            self.i = i;
            (st, i)
        };
        std::str::from_utf8(&b[lo..hi]).map_err(|e| e.to_string())
    }
    fn num(&mut self) -> R<u64> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|_| format!("number"))
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.s[self.i] != b'"' {
                        self.i += 1;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let t = match self.peek() {
            b'{' => {
                self.i += 1;
                let f = self.tys(b'}')?;
                Ty::Struct(false, f)
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let f = self.tys(b'}')?;
                    self.expect(">")?;
                    Ty::Struct(true, f)
                } else {
                    return self.err("vector type");
                }
            }
            b'[' => {
                self.i += 1;
                let n = self.num()?;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Ty::Arr(n, Box::new(t))
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                let t = self.prog.modules[self.module as usize].types.get(n).copied();
                match t {
                    Some("opaque") | None => Ty::Other,
                    Some(t) => {
                        let mut q = P { prog: self.prog, module: self.module, s: t.as_bytes(), i: 0 };
                        q.ty()?
                    }
                }
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F(32),
                    "double" => Ty::F(64),
                    "half" => Ty::F(16),
                    "fp128" => Ty::F(128),
                    "metadata" | "label" | "token" => Ty::Other,
                    _ => {
                        if let Some(n) = w.strip_prefix('i').and_then(|x| x.parse().ok()) {
                            Ty::Int(n)
                        } else {
                            return self.err(&format!("type `{w}`"));
                        }
                    }
                }
            }
        };
        Ok(t)
    }
    fn tys(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = vec![];
        if self.peek() == end {
            self.i += 1;
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            let c = self.peek();
            self.i += 1;
            if c == end {
                return Ok(v);
            }
            if c != b',' {
                self.i -= 1;
                return self.err("type list");
            }
        }
    }
    fn is_value_word(w: &str) -> bool {
        matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "inttoptr" | "ptrtoint" | "getelementptr" | "xor" | "sub" | "add" | "trunc" | "c" | "nan" | "inf" | "none"
        ) || w.as_bytes().first().map_or(true, |c| c.is_ascii_digit())
    }
    fn attrs(&mut self) {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.i += 1;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.peek() == b'=' {
                    self.i += 1;
                }
                continue;
            }
            if !c.is_ascii_alphabetic() {
                return;
            }
            let w = self.peek_word();
            if Self::is_value_word(w) {
                return;
            }
            // type starters (used for return attributes)
            if matches!(w, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "label" | "metadata" | "asm")
                || (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()))
            {
                return;
            }
            if w == "f0x" || w.starts_with("f0x") {
                return;
            }
            self.word();
            if w == "align" || w == "cc" {
                if self.peek() != b'(' {
                    let _ = self.num();
                    continue;
                }
            }
            if self.i < self.s.len() && self.s[self.i] == b'(' {
                self.balanced();
            }
        }
    }
    fn cint(&mut self, w: u16) -> R<u128> {
        self.ws();
        let neg = self.eat("-");
        let st = self.i;
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        let v: u128 = t.parse().map_err(|_| format!("int const `{t}`"))?;
        let v = if neg { v.wrapping_neg() } else { v };
        Ok(v & crate::expr::mask(w))
    }
    fn cfloat(&mut self, w: u16) -> R<u128> {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'.' | b'+' | b'-')) {
            self.i += 1;
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        if let Some(h) = t.strip_prefix("f0x") {
            return u128::from_str_radix(h, 16).map_err(|_| format!("float {t}"));
        }
        let d: f64 = if let Some(h) = t.strip_prefix("0x") {
            if let Some(h) = h.strip_prefix('H') {
                return u128::from_str_radix(h, 16).map_err(|_| format!("float {t}"));
            }
            if h.starts_with('L') {
                return Ok(0);
            }
            f64::from_bits(u64::from_str_radix(h, 16).map_err(|_| format!("float {t}"))?)
        } else {
            match t {
                "+inf" | "inf" => f64::INFINITY,
                "-inf" => f64::NEG_INFINITY,
                "+qnan" | "nan" | "+nan" | "qnan" => f64::NAN,
                "-qnan" | "-nan" => -f64::NAN,
                _ => t.parse().map_err(|_| format!("float {t}"))?,
            }
        };
        Ok(match w {
            32 => (d as f32).to_bits() as u128,
            64 => d.to_bits() as u128,
            _ => 0,
        })
    }
    /// Constant expression producing a scalar.
    fn cexpr(&mut self, ty: &Ty) -> R<Option<u128>> {
        let c = self.peek();
        if c == b'@' {
            self.i += 1;
            let n = self.name()?;
            return match self.prog.resolve(self.module, n) {
                Some(s) => Ok(Some(self.prog.sym_addr(s) as u128)),
                None => Err(format!("unresolved symbol {n}")),
            };
        }
        if let Ty::F(w) = ty {
            let w = *w;
            let pw = self.peek_word();
            if !matches!(pw, "undef" | "poison" | "zeroinitializer") {
                return self.cfloat(w).map(Some);
            }
        }
        if c == b'-' || c.is_ascii_digit() {
            return self.cint(ty.bits()).map(Some);
        }
        let w = self.peek_word();
        let v = match w {
            "true" => 1,
            "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" => 0,
            "inttoptr" | "ptrtoint" | "trunc" => {
                self.word();
                self.expect("(")?;
                let t = self.ty()?;
                let v = self.cexpr(&t)?.ok_or("cexpr")?;
                self.expect("to")?;
                let t2 = self.ty()?;
                self.expect(")")?;
                return Ok(Some(v & crate::expr::mask(t2.bits())));
            }
            "xor" | "sub" | "add" => {
                self.word();
                while self.eat("nuw") || self.eat("nsw") {}
                self.expect("(")?;
                let t = self.ty()?;
                let a = self.cexpr(&t)?.ok_or("cexpr")?;
                self.expect(",")?;
                let t = self.ty()?;
                let b = self.cexpr(&t)?.ok_or("cexpr")?;
                self.expect(")")?;
                let v = match w {
                    "xor" => a ^ b,
                    "sub" => a.wrapping_sub(b),
                    _ => a.wrapping_add(b),
                };
                return Ok(Some(v & crate::expr::mask(t.bits())));
            }
            "getelementptr" => {
                self.word();
                while self.eat("inbounds") || self.eat("nuw") || self.eat("nusw") {}
                if self.eat("inrange") {
                    self.balanced();
                }
                self.expect("(")?;
                let t = self.ty()?;
                self.expect(",")?;
                let pt = self.ty()?;
                let mut a = self.cexpr(&pt)?.ok_or("cexpr")?;
                let mut cur = t;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty()?;
                    let v = self.cexpr(&it)?.ok_or("cexpr")?;
                    let v = crate::expr::sext(v, it.bits());
                    if first {
                        a = a.wrapping_add((v * cur.size() as i128) as u128);
                        first = false;
                    } else {
                        let o = cur.field_off(v as usize);
                        let n = cur.field(v as usize).clone();
                        a = a.wrapping_add(o as u128);
                        cur = n;
                    }
                }
                self.expect(")")?;
                return Ok(Some(a as u64 as u128));
            }
            _ => return Ok(None),
        };
        self.word();
        Ok(Some(v))
    }
    fn const_bytes(&mut self, ty: &Ty, off: usize, out: &mut [u8]) -> R<()> {
        match ty {
            Ty::Arr(n, t) => {
                match self.peek() {
                    b'[' => {
                        self.i += 1;
                        for i in 0..*n {
                            if i > 0 {
                                self.expect(",")?;
                            }
                            let et = self.ty()?;
                            self.const_bytes(&et, off + (i * t.size()) as usize, out)?;
                        }
                        self.expect("]")
                    }
                    b'c' if self.s[self.i + 1] == b'"' => {
                        self.i += 2;
                        let mut o = off;
                        while self.s[self.i] != b'"' {
                            let c = if self.s[self.i] == b'\\' {
                                if self.s[self.i + 1] == b'\\' {
                                    self.i += 1;
                                    b'\\'
                                } else {
                                    let h = std::str::from_utf8(&self.s[self.i + 1..self.i + 3]).unwrap();
                                    self.i += 2;
                                    u8::from_str_radix(h, 16).map_err(|_| "escape")?
                                }
                            } else {
                                self.s[self.i]
                            };
                            out[o] = c;
                            o += 1;
                            self.i += 1;
                        }
                        self.i += 1;
                        Ok(())
                    }
                    _ => {
                        let w = self.word();
                        if matches!(w, "zeroinitializer" | "undef" | "poison") {
                            Ok(())
                        } else {
                            self.err("array const")
                        }
                    }
                }
            }
            Ty::Struct(packed, f) => {
                if *packed && self.peek() == b'<' {
                    self.i += 1;
                }
                if self.peek() == b'{' {
                    self.i += 1;
                    for i in 0..f.len() {
                        if i > 0 {
                            self.expect(",")?;
                        }
                        let et = self.ty()?;
                        self.const_bytes(&et, off + ty.field_off(i) as usize, out)?;
                    }
                    self.expect("}")?;
                    if *packed {
                        self.expect(">")?;
                    }
                    Ok(())
                } else {
                    let w = self.word();
                    if matches!(w, "zeroinitializer" | "undef" | "poison") {
                        Ok(())
                    } else {
                        self.err("struct const")
                    }
                }
            }
            _ => {
                let v = self.cexpr(ty)?;
                match v {
                    Some(v) => {
                        for k in 0..ty.bytes() as usize {
                            out[off + k] = (v >> (8 * k)) as u8;
                        }
                        Ok(())
                    }
                    None => self.err("const"),
                }
            }
        }
    }
}

struct L<'a> {
    p: P<'a>,
    f: Func,
    regs: HashMap<&'a str, u32>,
    cpool: HashMap<u128, i32>,
    blocks: HashMap<&'a str, u32>,
    bstart: Vec<u32>,
    /// phis per block: (dst reg base, nscalars, vec of (pred block, operands))
    phis: Vec<Vec<(u32, Vec<(u32, Vec<Opd>)>)>>,
    /// pending edges: (edge idx, pred, succ)
    pend: Vec<(u32, u32, u32)>,
    cur: u32,
    emap: HashMap<(u32, u32), u32>,
}

fn lower(prog: &Prog, fid: u32) -> R<Func> {
    let fi = &prog.fns[fid as usize];
    let text = fi.text;
    if text.is_empty() {
        return Err("no body".into());
    }
    let mut l = L {
        p: P { prog, module: fi.module, s: text.as_bytes(), i: 0 },
        f: Func { id: fid, ..Default::default() },
        regs: HashMap::new(),
        cpool: HashMap::new(),
        blocks: HashMap::new(),
        bstart: vec![],
        phis: vec![],
        pend: vec![],
        cur: 0,
        emap: HashMap::new(),
    };
    l.run()?;
    Ok(l.f)
}

impl<'a> L<'a> {
    fn konst(&mut self, v: u128) -> Opd {
        if let Some(c) = self.cpool.get(&v) {
            return *c;
        }
        let i = self.f.consts.len() as i32;
        self.f.consts.push(v);
        self.cpool.insert(v, !i);
        !i
    }
    fn newregs(&mut self, n: usize) -> u32 {
        let r = self.f.nregs;
        self.f.nregs += n as u32;
        r
    }
    fn reg(&mut self, name: &'a str, ty: &Ty) -> u32 {
        if let Some(r) = self.regs.get(name) {
            return *r;
        }
        let r = self.newregs(ty.nscalars().max(1));
        self.regs.insert(name, r);
        r
    }
    fn block(&mut self, name: &'a str) -> u32 {
        if let Some(b) = self.blocks.get(name) {
            return *b;
        }
        let b = self.bstart.len() as u32;
        self.bstart.push(NO);
        self.phis.push(vec![]);
        self.blocks.insert(name, b);
        b
    }
    fn edge(&mut self, to: u32) -> u32 {
        let key = (self.cur, to);
        if let Some(e) = self.emap.get(&key) {
            return *e;
        }
        let e = self.f.edges.len() as u32;
        self.f.edges.push(Edge::default());
        self.pend.push((e, self.cur, to));
        self.emap.insert(key, e);
        e
    }
    /// parse a value of the type; returns flattened operands
    fn val(&mut self, ty: &Ty) -> R<Vec<Opd>> {
        let c = self.p.peek();
        if c == b'%' {
            self.p.i += 1;
            let n = self.p.name()?;
            let r = self.reg(n, ty);
            return Ok((0..ty.nscalars() as u32).map(|k| (r + k) as i32).collect());
        }
        match ty {
            Ty::Struct(_, _) | Ty::Arr(_, _) => {
                let mut buf = vec![0u8; ty.size() as usize];
                // aggregates may contain registers? no: constants only
                self.p.const_bytes(ty, 0, &mut buf)?;
                let mut fl = vec![];
                ty.flatten(0, &mut fl);
                let mut out = vec![];
                for (o, t) in fl {
                    let mut v = 0u128;
                    for k in 0..t.bytes() as usize {
                        v |= (buf[o as usize + k] as u128) << (8 * k);
                    }
                    out.push(self.konst(v));
                }
                Ok(out)
            }
            Ty::Other => {
                // metadata etc.
                self.p.word();
                Ok(vec![])
            }
            _ => match self.p.cexpr(ty)? {
                Some(v) => Ok(vec![self.konst(v)]),
                None => self.p.err("value"),
            },
        }
    }
    fn val1(&mut self, ty: &Ty) -> R<Opd> {
        let v = self.val(ty)?;
        if v.len() != 1 {
            return self.p.err("scalar expected");
        }
        Ok(v[0])
    }
    fn tval(&mut self) -> R<(Ty, Vec<Opd>)> {
        let t = self.p.ty()?;
        self.p.attrs();
        let v = self.val(&t)?;
        Ok((t, v))
    }
    fn emit(&mut self, i: I) {
        self.f.code.push(i)
    }
    fn label(&mut self) -> R<u32> {
        self.p.expect("label")?;
        self.p.ws();
        self.p.expect("%")?;
        let n = self.p.name()?;
        Ok(self.block(n))
    }
    fn skip_line(&mut self) {
        while self.p.i < self.p.s.len() && self.p.s[self.p.i] != b'\n' {
            self.p.i += 1;
        }
    }
    fn unsup(&mut self, m: String) {
        let i = self.f.msgs.len() as u32;
        self.f.msgs.push(m);
        self.emit(I::Unsup { m: i });
    }
    fn args(&mut self, v: &[Opd]) -> u32 {
        let s = self.f.args.len() as u32;
        self.f.args.extend_from_slice(v);
        s
    }

    fn run(&mut self) -> R<()> {
        // header
        self.p.expect("define")?;
        // skip to '@'
        while self.p.s[self.p.i] != b'@' {
            self.p.i += 1;
        }
        self.p.i += 1;
        self.p.name()?;
        self.p.expect("(")?;
        let mut np = 0;
        if self.p.peek() != b')' {
            loop {
                if self.p.eat("...") {
                    break;
                }
                let t = self.p.ty()?;
                self.p.attrs();
                if self.p.peek() == b'%' {
                    self.p.i += 1;
                    let n = self.p.name()?;
                    self.reg(n, &t);
                    np += t.nscalars() as u32;
                    if t.nscalars() == 0 {
                        np += 1;
                    }
                } else {
                    return self.p.err("unnamed param");
                }
                if !self.p.eat(",") {
                    break;
                }
            }
        }
        self.f.params = np;
        // move to the end of the header line
        self.skip_line();
        self.p.i += 1;
        let n = self.p.s.len();
        let mut first = true;
        let mut dead = false;
        while self.p.i < n {
            // a line
            let st = self.p.i;
            let c = self.p.s[st];
            if c == b'}' {
                break;
            }
            if c == b'\n' || c == b';' {
                self.skip_line();
                self.p.i += 1;
                continue;
            }
            if c != b' ' {
                // label
                let nm = self.p.name()?;
                let b = self.block(nm);
                self.cur = b;
                self.bstart[b as usize] = self.f.code.len() as u32;
                self.skip_line();
                self.p.i += 1;
                first = false;
                dead = false;
                continue;
            }
            if first {
                let b = self.block("\u{1}entry");
                self.cur = b;
                self.bstart[b as usize] = 0;
                first = false;
            }
            if dead {
                self.skip_line();
                self.p.i += 1;
                continue;
            }
            self.p.ws();
            if self.p.peek() == b';' {
                self.skip_line();
                self.p.i += 1;
                continue;
            }
            let save = self.p.i;
            if let Err(e) = self.instr() {
                // unsupported: only an error if executed
                let line_end = memchr(self.p.s, save);
                let line = String::from_utf8_lossy(&self.p.s[save..line_end]).to_string();
                self.unsup(format!("{e} in `{line}`"));
                if line.starts_with("invoke") || line.contains("= invoke") || line.contains("landingpad") || line.starts_with("switch") || line.starts_with("br ") {
                    dead = true;
                }
            }
            self.skip_line();
            self.p.i += 1;
        }
        // resolve edges
        for (e, pred, succ) in std::mem::take(&mut self.pend) {
            let t = self.bstart[succ as usize];
            if t == NO {
                return Err(format!("undefined block in {}", self.p.prog.fns[self.f.id as usize].name));
            }
            let mut moves = vec![];
            for (d, inc) in &self.phis[succ as usize] {
                let ops = inc.iter().find(|(p, _)| *p == pred).ok_or("phi without incoming")?;
                for (k, o) in ops.1.iter().enumerate() {
                    if *o != (*d + k as u32) as i32 {
                        moves.push((*d + k as u32, *o));
                    }
                }
            }
            self.f.edges[e as usize] = Edge { target: t, moves };
        }
        Ok(())
    }

    fn instr(&mut self) -> R<()> {
        let mut dst: Option<&'a str> = None;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name()?;
            dst = Some(n);
            self.p.expect("=")?;
        }
        let mut op = self.p.word();
        while matches!(op, "tail" | "musttail" | "notail") {
            op = self.p.word();
        }
        macro_rules! flags {
            ($($f:literal)*) => { while $(self.p.eat($f) ||)* false {} }
        }
        match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                flags!("nuw" "nsw" "exact" "disjoint");
                let t = self.p.ty()?;
                let a = self.val1(&t)?;
                self.p.expect(",")?;
                let b = self.val1(&t)?;
                let d = self.reg(dst.unwrap(), &t);
                let o = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                self.emit(I::Bin { op: o, w: t.bits() as u8, d, a, b });
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags!("nnan" "ninf" "nsz" "arcp" "contract" "afn" "reassoc" "fast");
                let t = self.p.ty()?;
                let a = self.val1(&t)?;
                self.p.expect(",")?;
                let b = self.val1(&t)?;
                let d = self.reg(dst.unwrap(), &t);
                let k = ["fadd", "fsub", "fmul", "fdiv", "frem"].iter().position(|x| *x == op).unwrap() as u8;
                self.emit(I::FBin { k, w: t.bits() as u8, d, a, b });
            }
            "fneg" => {
                flags!("nnan" "ninf" "nsz" "arcp" "contract" "afn" "reassoc" "fast");
                let t = self.p.ty()?;
                let a = self.val1(&t)?;
                let d = self.reg(dst.unwrap(), &t);
                let c = self.konst(1u128 << (t.bits() - 1));
                self.emit(I::Bin { op: Op::Xor, w: t.bits() as u8, d, a, b: c });
            }
            "icmp" => {
                flags!("samesign");
                let p = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    w => return Err(format!("icmp {w}")),
                };
                let t = self.p.ty()?;
                let a = self.val1(&t)?;
                self.p.expect(",")?;
                let b = self.val1(&t)?;
                let d = self.reg(dst.unwrap(), &Ty::Int(1));
                self.emit(I::Cmp { p, w: t.bits() as u8, d, a, b });
            }
            "fcmp" => {
                flags!("nnan" "ninf" "nsz" "arcp" "contract" "afn" "reassoc" "fast");
                let w = self.p.word();
                let k = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true"]
                    .iter()
                    .position(|x| *x == w)
                    .ok_or("fcmp")? as u8;
                let t = self.p.ty()?;
                let a = self.val1(&t)?;
                self.p.expect(",")?;
                let b = self.val1(&t)?;
                let d = self.reg(dst.unwrap(), &Ty::Int(1));
                self.emit(I::FCmp { k, w: t.bits() as u8, d, a, b });
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                flags!("nuw" "nsw" "nneg");
                let t = self.p.ty()?;
                let a = self.val1(&t)?;
                self.p.expect("to")?;
                let t2 = self.p.ty()?;
                let d = self.reg(dst.unwrap(), &t2);
                let k = match op {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::ZExt,
                    "sext" => CastK::SExt,
                    "fptoui" => CastK::FpToUi,
                    "fptosi" => CastK::FpToSi,
                    "uitofp" => CastK::UiToFp,
                    "sitofp" => CastK::SiToFp,
                    "fpext" => CastK::FpExt,
                    "fptrunc" => CastK::FpTrunc,
                    _ => {
                        if t2.bits() < t.bits() {
                            CastK::Trunc
                        } else if t2.bits() > t.bits() {
                            CastK::ZExt
                        } else {
                            CastK::Bit
                        }
                    }
                };
                self.emit(I::Cast { k, fw: t.bits() as u8, tw: t2.bits() as u8, d, a });
            }
            "freeze" => {
                let (t, v) = self.tval()?;
                let d = self.reg(dst.unwrap(), &t);
                for (k, a) in v.into_iter().enumerate() {
                    self.emit(I::Mov { d: d + k as u32, a });
                }
            }
            "select" => {
                flags!("nnan" "ninf" "nsz" "arcp" "contract" "afn" "reassoc" "fast");
                let (_, c) = self.tval()?;
                self.p.expect(",")?;
                let (t, a) = self.tval()?;
                self.p.expect(",")?;
                let (_, b) = self.tval()?;
                let d = self.reg(dst.unwrap(), &t);
                let mut fl = vec![];
                t.flatten(0, &mut fl);
                // d cannot alias a source in SSA
                for k in 0..a.len() {
                    self.emit(I::Sel { w: fl[k].1.bits() as u8, d: d + k as u32, c: c[0], a: a[k], b: b[k] });
                }
            }
            "extractvalue" => {
                let (t, v) = self.tval()?;
                let mut cur = &t;
                let mut lo = 0usize;
                while self.p.eat(",") {
                    let i = self.p.num()? as usize;
                    for j in 0..i {
                        lo += cur.field(j).nscalars();
                    }
                    cur = cur.field(i);
                    if self.p.peek() == b'!' {
                        break;
                    }
                }
                let n = cur.nscalars();
                let ct = cur.clone();
                let d = self.reg(dst.unwrap(), &ct);
                for k in 0..n {
                    self.emit(I::Mov { d: d + k as u32, a: v[lo + k] });
                }
            }
            "insertvalue" => {
                let (t, v) = self.tval()?;
                self.p.expect(",")?;
                let (_, e) = self.tval()?;
                let mut cur = &t;
                let mut lo = 0usize;
                while self.p.eat(",") {
                    let i = self.p.num()? as usize;
                    for j in 0..i {
                        lo += cur.field(j).nscalars();
                    }
                    cur = cur.field(i);
                }
                let d = self.reg(dst.unwrap(), &t);
                for k in 0..v.len() {
                    let a = if k >= lo && k < lo + e.len() { e[k - lo] } else { v[k] };
                    self.emit(I::Mov { d: d + k as u32, a });
                }
            }
            "load" => {
                flags!("atomic" "volatile");
                let t = self.p.ty()?;
                self.p.expect(",")?;
                let (_, p) = self.tval()?;
                let d = self.reg(dst.unwrap(), &t);
                let mut fl = vec![];
                t.flatten(0, &mut fl);
                for (k, (o, t)) in fl.into_iter().enumerate() {
                    let mut q = p[0];
                    if o != 0 {
                        let r = self.newregs(1);
                        self.emit(I::GepC { d: r, p: q, off: o as i64 });
                        q = r as i32;
                    }
                    self.emit(I::Load { w: t.bits() as u8, n: t.bytes() as u8, d: d + k as u32, p: q });
                }
            }
            "store" => {
                flags!("atomic" "volatile");
                let (t, v) = self.tval()?;
                self.p.expect(",")?;
                let (_, p) = self.tval()?;
                let mut fl = vec![];
                t.flatten(0, &mut fl);
                for (k, (o, t)) in fl.into_iter().enumerate() {
                    let mut q = p[0];
                    if o != 0 {
                        let r = self.newregs(1);
                        self.emit(I::GepC { d: r, p: q, off: o as i64 });
                        q = r as i32;
                    }
                    self.emit(I::Store { w: t.bits() as u8, n: t.bytes() as u8, v: v[k], p: q });
                }
            }
            "fence" => {}
            "getelementptr" => {
                flags!("inbounds" "nuw" "nusw");
                let t = self.p.ty()?;
                self.p.expect(",")?;
                let (_, p) = self.tval()?;
                let mut q = p[0];
                let mut cur = t;
                let mut first = true;
                let mut off = 0i64;
                let d = self.reg(dst.unwrap(), &Ty::Ptr);
                while self.p.eat(",") {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let (it, v) = self.tval()?;
                    let scale;
                    if first {
                        scale = cur.size() as i64;
                        first = false;
                    } else if matches!(cur, Ty::Struct(..)) {
                        let idx = self.f.consts[!v[0] as usize] as usize;
                        off += cur.field_off(idx) as i64;
                        cur = cur.field(idx).clone();
                        continue;
                    } else {
                        let e = cur.field(0).clone();
                        scale = e.size() as i64;
                        cur = e;
                    }
                    if v[0] < 0 {
                        let k = crate::expr::sext(self.f.consts[!v[0] as usize], it.bits()) as i64;
                        off = off.wrapping_add(k.wrapping_mul(scale));
                    } else {
                        let r = self.newregs(1);
                        self.emit(I::GepV { d: r, p: q, i: v[0], w: it.bits() as u8, scale });
                        q = r as i32;
                    }
                }
                if off != 0 {
                    self.emit(I::GepC { d, p: q, off });
                } else {
                    self.emit(I::Mov { d, a: q });
                }
            }
            "alloca" => {
                let t = self.p.ty()?;
                let mut n = 1;
                let mut al = t.align();
                while self.p.eat(",") {
                    if self.p.eat("align") {
                        al = self.p.num()?;
                    } else if self.p.peek() == b'!' {
                        break;
                    } else {
                        let it = self.p.ty()?;
                        let v = self.val1(&it)?;
                        if v >= 0 {
                            return Err("dynamic alloca".into());
                        }
                        n = self.f.consts[!v as usize] as u64;
                    }
                }
                let off = up(self.f.frame as u64, al.max(1)) as u32;
                // one byte of padding so that one-past-the-end of one alloca is not the next
                self.f.frame = off + (t.size() * n) as u32 + 16;
                let d = self.reg(dst.unwrap(), &Ty::Ptr);
                self.emit(I::Alloca { d, off });
            }
            "phi" => {
                flags!("nnan" "ninf" "nsz" "arcp" "contract" "afn" "reassoc" "fast");
                let t = self.p.ty()?;
                let d = self.reg(dst.unwrap(), &t);
                let mut inc = vec![];
                loop {
                    self.p.expect("[")?;
                    let v = self.val(&t)?;
                    self.p.expect(",")?;
                    self.p.ws();
                    self.p.expect("%")?;
                    let n = self.p.name()?;
                    let b = self.block(n);
                    inc.push((b, v));
                    self.p.expect("]")?;
                    if !self.p.eat(",") {
                        break;
                    }
                    if self.p.peek() == b'!' {
                        break;
                    }
                }
                let cur = self.cur as usize;
                self.phis[cur].push((d, inc));
            }
            "br" => {
                if self.p.peek_word() == "label" {
                    let b = self.label()?;
                    let e = self.edge(b);
                    self.emit(I::Br { e });
                } else {
                    let (_, c) = self.tval()?;
                    self.p.expect(",")?;
                    let t = self.label()?;
                    self.p.expect(",")?;
                    let f = self.label()?;
                    let t = self.edge(t);
                    let f = self.edge(f);
                    self.emit(I::CBr { c: c[0], t, f });
                }
            }
            "switch" => {
                let t = self.p.ty()?;
                let v = self.val1(&t)?;
                self.p.expect(",")?;
                let db = self.label()?;
                let default = self.edge(db);
                self.p.expect("[")?;
                let mut sw = Switch { default, ..Default::default() };
                loop {
                    while self.p.s[self.p.i].is_ascii_whitespace() {
                        self.p.i += 1;
                    }
                    if self.p.peek() == b']' {
                        break;
                    }
                    let ct = self.p.ty()?;
                    let k = self.p.cexpr(&ct)?.ok_or("case")?;
                    self.p.expect(",")?;
                    let b = self.label()?;
                    let e = self.edge(b);
                    sw.cases.push((k, e));
                    sw.map.insert(k, e);
                }
                let s = self.f.switches.len() as u32;
                self.f.switches.push(sw);
                self.emit(I::Sw { v, w: t.bits() as u8, s });
            }
            "ret" => {
                let t = self.p.ty()?;
                let v = if t == Ty::Void { vec![] } else { self.val(&t)? };
                let args = self.args(&v);
                self.emit(I::Ret { args, n: v.len() as u16 });
            }
            "unreachable" => self.emit(I::Unreach),
            "atomicrmw" => {
                flags!("volatile");
                let k = match self.p.word() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "nand" => Rmw::Nand,
                    w => return Err(format!("atomicrmw {w}")),
                };
                let (_, p) = self.tval()?;
                self.p.expect(",")?;
                let (t, v) = self.tval()?;
                let d = match dst {
                    Some(n) => self.reg(n, &t),
                    None => self.newregs(1),
                };
                self.emit(I::ARmw { k, w: t.bits() as u8, d, p: p[0], v: v[0] });
            }
            "cmpxchg" => {
                flags!("weak" "volatile");
                let (_, p) = self.tval()?;
                self.p.expect(",")?;
                let (t, c) = self.tval()?;
                self.p.expect(",")?;
                let (_, n) = self.tval()?;
                let d = self.reg(dst.unwrap(), &Ty::Struct(false, vec![t.clone(), Ty::Int(1)]));
                let ci = self.args(&[c[0]]);
                let ni = self.args(&[n[0]]);
                self.emit(I::CmpXchg { w: t.bits() as u8, d, p: p[0], c: ci, n: ni });
            }
            "call" => self.call(dst)?,
            _ => return Err(format!("instruction {op}")),
        }
        Ok(())
    }

    fn call(&mut self, dst: Option<&'a str>) -> R<()> {
        self.p.attrs();
        let rt = self.p.ty()?;
        if self.p.peek() == b'(' {
            // function type
            self.p.balanced();
        }
        if self.p.eat("asm") {
            if rt == Ty::Void {
                return Ok(());
            }
            return Err("inline asm".into());
        }
        enum C<'b> {
            Direct(&'b str),
            Ind(Opd),
        }
        let callee = match self.p.peek() {
            b'@' => {
                self.p.i += 1;
                C::Direct(self.p.name()?)
            }
            _ => C::Ind(self.val1(&Ty::Ptr)?),
        };
        self.p.expect("(")?;
        let mut args: Vec<Opd> = vec![];
        let mut tys = vec![];
        if self.p.peek() != b')' {
            loop {
                let t = self.p.ty()?;
                self.p.attrs();
                if t == Ty::Other {
                    // metadata operand: skip to , or )
                    while !matches!(self.p.peek(), b',' | b')') {
                        self.p.i += 1;
                    }
                } else {
                    let v = self.val(&t)?;
                    if t.nscalars() == 0 {
                        args.push(-1);
                        let z = self.konst(0);
                        *args.last_mut().unwrap() = z;
                    }
                    args.extend(v);
                    tys.push(t);
                }
                if !self.p.eat(",") {
                    break;
                }
            }
        }
        self.p.expect(")")?;
        let d = if rt == Ty::Void {
            NO
        } else {
            match dst {
                Some(n) => self.reg(n, &rt),
                None => self.newregs(rt.nscalars().max(1)),
            }
        };
        match callee {
            C::Direct(n) => {
                if let Some(r) = n.strip_prefix("llvm.") {
                    return self.intrinsic(r, d, &rt, &args, &tys);
                }
                match self.p.prog.resolve(self.p.module, n) {
                    Some(Sym::F(f)) => {
                        let a = self.args(&args);
                        self.emit(I::Call { f, args: a, n: args.len() as u16, d });
                    }
                    Some(Sym::Null) => self.unsup(format!("call of null weak symbol {n}")),
                    _ => return Err(format!("unresolved callee {n}")),
                }
            }
            C::Ind(p) => {
                let a = self.args(&args);
                self.emit(I::CallI { p, args: a, n: args.len() as u16, d });
            }
        }
        Ok(())
    }

    fn intrinsic(&mut self, n: &str, d: u32, rt: &Ty, args: &[Opd], tys: &[Ty]) -> R<()> {
        let base = |s: &str| n == s || n.starts_with(&format!("{s}."));
        let nop = ["lifetime", "experimental.noalias.scope.decl", "assume", "dbg", "donothing", "sideeffect", "prefetch", "va_start", "va_end", "invariant"];
        if nop.iter().any(|x| base(x)) {
            return Ok(());
        }
        let tab: &[(&str, Intr)] = &[
            ("memcpy", Intr::Memcpy),
            ("memmove", Intr::Memcpy),
            ("memset", Intr::Memset),
            ("trap", Intr::Trap),
            ("ubsantrap", Intr::Trap),
            ("uadd.with.overflow", Intr::UAddO),
            ("usub.with.overflow", Intr::USubO),
            ("umul.with.overflow", Intr::UMulO),
            ("sadd.with.overflow", Intr::SAddO),
            ("ssub.with.overflow", Intr::SSubO),
            ("smul.with.overflow", Intr::SMulO),
            ("umax", Intr::UMax),
            ("umin", Intr::UMin),
            ("smax", Intr::SMax),
            ("smin", Intr::SMin),
            ("fshl", Intr::Fshl),
            ("fshr", Intr::Fshr),
            ("ctpop", Intr::Ctpop),
            ("ctlz", Intr::Ctlz),
            ("cttz", Intr::Cttz),
            ("bswap", Intr::Bswap),
            ("bitreverse", Intr::Bitrev),
            ("abs", Intr::Abs),
            ("usub.sat", Intr::USubSat),
            ("uadd.sat", Intr::UAddSat),
            ("ssub.sat", Intr::SSubSat),
            ("sadd.sat", Intr::SAddSat),
            ("ucmp", Intr::UCmp),
            ("scmp", Intr::SCmp),
            ("threadlocal.address", Intr::Ident),
            ("expect", Intr::Ident),
            ("fabs", Intr::FAbs),
            ("copysign", Intr::CopySign),
            ("floor", Intr::FFloor),
            ("ceil", Intr::FCeil),
            ("trunc", Intr::FTrunc),
            ("round", Intr::FRound),
            ("rint", Intr::FRint),
            ("nearbyint", Intr::FRint),
            ("roundeven", Intr::FRint),
            ("sqrt", Intr::FSqrt),
            ("minnum", Intr::FMin),
            ("maxnum", Intr::FMax),
            ("minimumnum", Intr::FMin),
            ("maximumnum", Intr::FMax),
            ("fma", Intr::FMa),
            ("fmuladd", Intr::FMa),
            ("fptoui.sat", Intr::FpToUiSat),
            ("fptosi.sat", Intr::FpToSiSat),
            ("is.constant", Intr::IsConst),
        ];
        for (s, k) in tab {
            if base(s) {
                let w = match k {
                    Intr::Memcpy | Intr::Memset | Intr::Trap => 8,
                    _ => tys.first().map(|t| if matches!(t, Ty::Int(_) | Ty::Ptr | Ty::F(_)) { t.bits() } else { 0 }).unwrap_or(0),
                };
                let _ = rt;
                let a = self.args(args);
                if matches!(k, Intr::UCmp | Intr::SCmp | Intr::FpToSiSat | Intr::FpToUiSat) {
                    // result width in an extra constant
                    let c = self.konst(rt.bits() as u128);
                    self.f.args.push(c);
                }
                self.emit(I::Intr { k: *k, w: w as u8, args: a, n: args.len() as u8, d });
                return Ok(());
            }
        }
        Err(format!("intrinsic {n}"))
    }
}
