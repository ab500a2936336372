//! Path-forking symbolic interpreter for the lowered IR.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, Default)]
pub struct Val {
    pub lo: u64,
    pub hi: u64,
    pub sym: E,
}
impl Val {
    #[inline]
    fn c(v: u128) -> Val {
        Val { lo: v as u64, hi: (v >> 64) as u64, sym: 0 }
    }
    #[inline]
    fn k(&self) -> u128 {
        self.lo as u128 | (self.hi as u128) << 64
    }
}

#[derive(Clone, Default)]
pub struct Obj {
    data: Vec<u8>,
    sym: Option<Box<[E]>>,
}

const CH: usize = 64;
#[derive(Clone, Default)]
struct Heap {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    len: u32,
}
impl Heap {
    fn push(&mut self, o: Obj) -> u32 {
        let id = self.len;
        self.len += 1;
        if id as usize % CH == 0 {
            self.chunks.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(self.chunks.last_mut().unwrap()).push(Some(Rc::new(o)));
        id
    }
    #[inline]
    fn get(&self, id: u32) -> Option<&Obj> {
        self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_deref()
    }
    #[inline]
    fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let c = self.chunks.get_mut(id as usize / CH)?;
        Rc::make_mut(c).get_mut(id as usize % CH)?.as_mut().map(Rc::make_mut)
    }
    fn free(&mut self, id: u32) -> bool {
        match self.chunks.get_mut(id as usize / CH) {
            Some(c) => Rc::make_mut(c).get_mut(id as usize % CH).map_or(false, |o| o.take().is_some()),
            None => false,
        }
    }
}

#[derive(Clone, Copy)]
struct Frame {
    f: &'static Func,
    pc: u32,
    base: u32,
    ret: u32,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum D {
    B(bool),
    S(u32),
    Eq(u128),
    Ne(u128),
}

#[derive(Clone, Default)]
struct Group {
    vars: VarSet,
    es: Vec<E>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    stack: Vec<Option<Rc<Obj>>>,
    heap: Heap,
    globals: BTreeMap<u32, Rc<Obj>>,
    groups: Vec<Rc<Group>>,
    model: Vec<u128>,
    widths: Vec<u16>,
    fixed: VarSet,
    decisions: Vec<D>,
    replay: Rc<Vec<D>>,
    rpos: usize,
    steps: u64,
    obs: Vec<Val>,
    covers: BTreeSet<u64>,
}

pub enum End {
    Ok,
    Assume,
    Retry,
    Violation(&'static str, String),
    Error(String),
}
type X<T> = Result<T, End>;

pub struct Job {
    decisions: Vec<D>,
    model: Vec<u128>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub vals: Vec<(u16, u64)>,
    pub steps: u64,
    pub count: u64,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub vals: Vec<(u16, u64)>,
    pub obs: Vec<u64>,
    pub covers: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub entry: u32,
    pub threads: usize,
    pub time: f64,
    pub fuel: u64,
    pub depth: usize,
    pub samples: usize,
    pub max_viol: usize,
    pub verbose: bool,
    pub solver_timeout_ms: u32,
    pub max_paths: u64,
}

#[derive(Default)]
pub struct Totals {
    pub ok: u64,
    pub pruned: u64,
    pub violating: u64,
    pub forks: u64,
    pub decisions: u64,
    pub steps: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_time: f64,
    pub max_query: f64,
    pub asserts: u64,
    pub assert_queries: u64,
    pub max_vars: usize,
    pub max_steps: u64,
    pub fns: HashSet<u32>,
    pub sites: HashSet<(u32, u32)>,
    pub covers: BTreeMap<u64, u64>,
    pub viols: Vec<Viol>,
    pub errors: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub timed_out: bool,
    pub wall: f64,
    pub nodes: u64,
}

pub struct Shared {
    q: Mutex<(VecDeque<Job>, usize)>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    timeout: AtomicBool,
    nviol: AtomicU64,
    npaths: AtomicU64,
    start: Instant,
}

pub struct Worker<'s> {
    prog: &'static Prog,
    cfg: Cfg,
    ar: Arena,
    sv: Solver,
    sh: &'s Shared,
    work: VecDeque<State>,
    t: Totals,
    ginit: HashMap<u32, Rc<Obj>>,
    funcs: HashMap<u32, &'static Func>,
    last_site: (u32, u32),
}

fn msk(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl State {
    fn new(cfgm: Vec<u128>, replay: Vec<D>) -> State {
        State {
            frames: vec![],
            regs: vec![],
            stack: vec![],
            heap: Heap::default(),
            globals: BTreeMap::new(),
            groups: vec![],
            model: cfgm,
            widths: vec![],
            fixed: VarSet::default(),
            decisions: vec![],
            replay: Rc::new(replay),
            rpos: 0,
            steps: 0,
            obs: vec![],
            covers: BTreeSet::new(),
        }
    }
    #[inline]
    fn get(&self, f: &Func, base: u32, o: Opd) -> Val {
        if o >= 0 {
            self.regs[(base + o as u32) as usize]
        } else {
            Val::c(f.consts[!o as usize])
        }
    }
    fn replaying(&self) -> bool {
        self.rpos < self.replay.len()
    }
    fn pop(&mut self) -> D {
        let d = self.replay[self.rpos];
        self.rpos += 1;
        self.decisions.push(d);
        d
    }
}

fn verr<T>(m: impl Into<String>) -> X<T> {
    Err(End::Error(m.into()))
}

impl<'s> Worker<'s> {
    fn new(prog: &'static Prog, cfg: Cfg, sh: &'s Shared) -> Self {
        let to = cfg.solver_timeout_ms;
        Worker {
            prog,
            cfg,
            ar: Arena::new(),
            sv: Solver::new(to),
            sh,
            work: VecDeque::new(),
            t: Totals::default(),
            ginit: HashMap::new(),
            funcs: HashMap::new(),
            last_site: (0, 0),
        }
    }

    fn func(&mut self, id: u32) -> X<&'static Func> {
        if let Some(f) = self.funcs.get(&id) {
            return Ok(f);
        }
        let f = self.prog.func(id).map_err(End::Error)?;
        self.funcs.insert(id, f);
        self.t.fns.insert(id);
        Ok(f)
    }

    // ---------- memory ----------
    fn global(&mut self, g: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.ginit.get(&g) {
            return Ok(o.clone());
        }
        if g as usize >= self.prog.globals.len() {
            return verr(format!("bad address (object {g})"));
        }
        let d = self.prog.global_init(g).map_err(End::Error)?;
        let o = Rc::new(Obj { data: d.clone(), sym: None });
        self.ginit.insert(g, o.clone());
        Ok(o)
    }
    #[inline]
    fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> X<&'a Obj> {
        if id >= STACK_BASE {
            match st.stack.get((id - STACK_BASE) as usize) {
                Some(Some(o)) => Ok(o),
                _ => verr("dangling stack pointer"),
            }
        } else if id >= HEAP_BASE && id < FN_BASE {
            match st.heap.get(id - HEAP_BASE) {
                Some(o) => Ok(o),
                None => verr("use after free or wild pointer"),
            }
        } else if id >= GLOBAL_BASE && id < HEAP_BASE {
            let g = id - GLOBAL_BASE;
            if let Some(o) = st.globals.get(&g) {
                return Ok(o);
            }
            if !self.ginit.contains_key(&g) {
                self.global(g)?;
            }
            Ok(&self.ginit[&g])
        } else {
            verr(format!("access through invalid pointer (object {id:#x})"))
        }
    }
    #[inline]
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> X<&'a mut Obj> {
        if id >= STACK_BASE {
            match st.stack.get_mut((id - STACK_BASE) as usize) {
                Some(Some(o)) => Ok(Rc::make_mut(o)),
                _ => verr("dangling stack pointer"),
            }
        } else if id >= HEAP_BASE && id < FN_BASE {
            match st.heap.get_mut(id - HEAP_BASE) {
                Some(o) => Ok(o),
                None => verr("use after free or wild pointer"),
            }
        } else if id >= GLOBAL_BASE && id < HEAP_BASE {
            let g = id - GLOBAL_BASE;
            if self.prog.globals.get(g as usize).map_or(true, |x| x.constant) {
                return verr("write to constant memory");
            }
            if !st.globals.contains_key(&g) {
                let o = self.global(g)?;
                st.globals.insert(g, o);
            }
            Ok(Rc::make_mut(st.globals.get_mut(&g).unwrap()))
        } else {
            verr(format!("write through invalid pointer (object {id:#x})"))
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64) -> X<u64> {
        if size > (1 << 27) {
            return Err(End::Violation("alloc", format!("allocation of {size} bytes")));
        }
        let id = st.heap.push(Obj { data: vec![0; size as usize], sym: None }) + HEAP_BASE;
        Ok((id as u64) << 32)
    }
    #[inline]
    fn load(&mut self, st: &State, addr: u64, w: u8, n: u8) -> X<Val> {
        let id = (addr >> 32) as u32;
        let off = addr as u32 as usize;
        let n = n as usize;
        let o = self.obj(st, id)?;
        if off + n > o.data.len() {
            return verr(format!("out-of-bounds read of {n} at {off} (object size {})", o.data.len()));
        }
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|e| *e != 0) {
                let bytes: Vec<(u8, E)> = (0..n).map(|k| (o.data[off + k], s[off + k])).collect();
                return Ok(self.join(st, &bytes, w));
            }
        }
        let d = &o.data[off..off + n];
        let mut v = match n {
            1 => Val { lo: d[0] as u64, hi: 0, sym: 0 },
            2 => Val { lo: u16::from_le_bytes([d[0], d[1]]) as u64, hi: 0, sym: 0 },
            4 => Val { lo: u32::from_le_bytes([d[0], d[1], d[2], d[3]]) as u64, hi: 0, sym: 0 },
            8 => Val { lo: u64::from_le_bytes(d.try_into().unwrap()), hi: 0, sym: 0 },
            _ => {
                let mut x = 0u128;
                for k in 0..n {
                    x |= (d[k] as u128) << (8 * k);
                }
                Val::c(x)
            }
        };
        if (w as usize) < 8 * n {
            v = Val::c(v.k() & mask(w as u16));
        }
        Ok(v)
    }
    fn join(&mut self, st: &State, bytes: &[(u8, E)], w: u8) -> Val {
        let mut e: E = 0;
        for (k, (b, s)) in bytes.iter().enumerate() {
            let x = if *s != 0 { *s } else { self.ar.c(8, *b as u128) };
            e = if k == 0 { x } else { self.ar.concat(x, e) };
        }
        if (w as u16) < self.ar.w(e) {
            e = self.ar.extract(e, 0, w as u16);
        }
        self.mk(st, e)
    }
    #[inline]
    fn store(&mut self, st: &mut State, addr: u64, v: Val, w: u8, n: u8) -> X<()> {
        let id = (addr >> 32) as u32;
        let off = addr as u32 as usize;
        let n = n as usize;
        let mut parts: [E; 16] = [0; 16];
        if v.sym != 0 {
            let mut e = v.sym;
            if (self.ar.w(e) as usize) < 8 * n {
                e = self.ar.zext(e, 8 * n as u16);
            }
            let _ = w;
            for k in 0..n {
                parts[k] = self.ar.extract(e, 8 * k as u16, 8);
            }
            // constant parts
            let consts: Vec<Option<u128>> = (0..n).map(|k| self.ar.konst(parts[k])).collect();
            let o = self.obj_mut(st, id)?;
            if off + n > o.data.len() {
                return verr(format!("out-of-bounds write of {n} at {off} (object size {})", o.data.len()));
            }
            let len = o.data.len();
            let s = o.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
            for k in 0..n {
                match consts[k] {
                    Some(c) => {
                        o.data[off + k] = c as u8;
                        s[off + k] = 0;
                    }
                    None => s[off + k] = parts[k],
                }
            }
            return Ok(());
        }
        let o = self.obj_mut(st, id)?;
        if off + n > o.data.len() {
            return verr(format!("out-of-bounds write of {n} at {off} (object size {})", o.data.len()));
        }
        if n <= 8 {
            o.data[off..off + n].copy_from_slice(&v.lo.to_le_bytes()[..n]);
        } else {
            o.data[off..off + n].copy_from_slice(&v.k().to_le_bytes()[..n]);
        }
        if let Some(s) = &mut o.sym {
            for k in 0..n {
                s[off + k] = 0;
            }
        }
        Ok(())
    }
    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = {
            let o = self.obj(st, (s >> 32) as u32)?;
            let off = s as u32 as usize;
            if off + n > o.data.len() {
                return verr(format!("out-of-bounds read of {n} at {off} (object size {})", o.data.len()));
            }
            let sy = match &o.sym {
                Some(s) if s[off..off + n].iter().any(|e| *e != 0) => Some(s[off..off + n].to_vec()),
                _ => None,
            };
            (o.data[off..off + n].to_vec(), sy)
        };
        let o = self.obj_mut(st, (d >> 32) as u32)?;
        let off = d as u32 as usize;
        if off + n > o.data.len() {
            return verr(format!("out-of-bounds write of {n} at {off} (object size {})", o.data.len()));
        }
        o.data[off..off + n].copy_from_slice(&data);
        match sym {
            Some(v) => {
                let len = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
                s[off..off + n].copy_from_slice(&v);
            }
            None => {
                if let Some(s) = &mut o.sym {
                    s[off..off + n].fill(0);
                }
            }
        }
        Ok(())
    }
    fn bytes(&mut self, st: &State, a: u64, n: usize) -> X<Vec<(u8, E)>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(st, (a >> 32) as u32)?;
        let off = a as u32 as usize;
        if off + n > o.data.len() {
            return verr("out-of-bounds read");
        }
        Ok((0..n).map(|k| (o.data[off + k], o.sym.as_ref().map_or(0, |s| s[off + k]))).collect())
    }

    // ---------- symbolic values ----------
    fn mk(&mut self, st: &State, e: E) -> Val {
        if let Some(k) = self.ar.konst(e) {
            return Val::c(k);
        }
        let v = self.ar.vars[e as usize];
        if v.0[0] & !st.fixed.0[0] == 0 && v.0[1] & !st.fixed.0[1] == 0 {
            return Val::c(self.ar.eval(e, &st.model));
        }
        Val { lo: 0, hi: 0, sym: e }
    }
    #[inline]
    fn ex(&mut self, v: Val, w: u8) -> E {
        if v.sym != 0 {
            v.sym
        } else {
            self.ar.c(w as u16, v.k())
        }
    }
    fn add(&mut self, st: &mut State, e: E) {
        let n = self.ar.n(e);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And {
            self.add(st, n.a);
            self.add(st, n.b);
            return;
        }
        let vars = self.ar.vars[e as usize];
        let mut hit: Vec<usize> = vec![];
        for (i, g) in st.groups.iter().enumerate() {
            if g.vars.meets(vars) {
                if g.es.contains(&e) {
                    return;
                }
                hit.push(i);
            }
        }
        if hit.is_empty() {
            st.groups.push(Rc::new(Group { vars, es: vec![e] }));
        } else {
            let first = hit[0];
            let mut g = (*st.groups[first]).clone();
            for i in hit[1..].iter().rev() {
                let o = st.groups.remove(*i);
                g.vars = g.vars.or(o.vars);
                g.es.extend_from_slice(&o.es);
            }
            g.vars = g.vars.or(vars);
            g.es.push(e);
            st.groups[first] = Rc::new(g);
        }
        if n.op == Op::Eq && self.ar.konst(n.b).is_some() {
            let mut x = n.a;
            loop {
                let m = self.ar.n(x);
                match m.op {
                    Op::ZExt | Op::SExt => x = m.a,
                    Op::Add | Op::Xor if self.ar.konst(m.b).is_some() => x = m.a,
                    Op::Var => {
                        st.fixed = st.fixed.or(VarSet::one(m.k as usize));
                        break;
                    }
                    _ => break,
                }
            }
        } else if n.op == Op::Var && n.w == 1 {
            st.fixed = st.fixed.or(VarSet::one(n.k as usize));
        }
    }
    fn solve(&mut self, st: &State, c: E) -> Result<Option<Vec<u128>>, End> {
        if let Some(k) = self.ar.konst(c) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        let vars = self.ar.vars[c as usize];
        let mut key = vec![c];
        for g in &st.groups {
            if g.vars.meets(vars) {
                key.extend_from_slice(&g.es);
            }
        }
        match self.sv.check(&self.ar, key, &st.widths) {
            Res::Sat(vals) => {
                let mut m = st.model.clone();
                for (i, v) in vals {
                    m[i as usize] = v as u128;
                }
                Ok(Some(m))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => Err(End::Error("solver returned unknown".into())),
        }
    }
    fn has(&self, st: &State, e: E) -> bool {
        let v = self.ar.vars[e as usize];
        st.groups.iter().any(|g| g.vars.meets(v) && g.es.contains(&e))
    }
    /// Decide a width-1 condition; the alternative state (if feasible) is returned with its
    /// constraint added; its pc must be set by the caller.
    fn decide(&mut self, st: &mut State, c: E) -> X<(bool, Option<State>)> {
        self.t.decisions += 1;
        self.t.sites.insert(self.last_site);
        if st.replaying() {
            let b = match st.pop() {
                D::B(b) => b,
                d => return verr(format!("replay mismatch {d:?}")),
            };
            let k = if b { c } else { self.ar.not(c) };
            self.add(st, k);
            return Ok((b, None));
        }
        let side = self.ar.eval(c, &st.model) & 1 == 1;
        let (yes, no) = {
            let n = self.ar.not(c);
            if side {
                (c, n)
            } else {
                (n, c)
            }
        };
        let mut alt = None;
        if !self.has(st, yes) {
            if let Some(m) = self.solve(st, no)? {
                let mut o = st.clone();
                o.model = m;
                o.decisions.push(D::B(!side));
                self.add(&mut o, no);
                self.t.forks += 1;
                alt = Some(o);
            }
        }
        st.decisions.push(D::B(side));
        self.add(st, yes);
        Ok((side, alt))
    }
    fn concretize(&mut self, st: &mut State, v: Val, w: u8) -> X<u128> {
        if v.sym == 0 {
            return Ok(v.k());
        }
        let e = v.sym;
        let vs = self.ar.vars[e as usize];
        if vs.0[0] & !st.fixed.0[0] == 0 && vs.0[1] & !st.fixed.0[1] == 0 {
            return Ok(self.ar.eval(e, &st.model));
        }
        self.t.decisions += 1;
        self.t.sites.insert(self.last_site);
        if st.replaying() {
            match st.pop() {
                D::Eq(k) => {
                    let kc = self.ar.c(w as u16, k);
                    let c = self.ar.bin(Op::Eq, e, kc);
                    self.add(st, c);
                    return Ok(k);
                }
                D::Ne(k) => {
                    let kc = self.ar.c(w as u16, k);
                    let c = self.ar.bin(Op::Eq, e, kc);
                    let c = self.ar.not(c);
                    self.add(st, c);
                    st.frames.last_mut().unwrap().pc -= 1;
                    return Err(End::Retry);
                }
                d => return verr(format!("replay mismatch {d:?}")),
            }
        }
        let k = self.ar.eval(e, &st.model);
        let kc = self.ar.c(w as u16, k);
        let eq = self.ar.bin(Op::Eq, e, kc);
        let ne = self.ar.not(eq);
        if !self.has(st, eq) {
            if let Some(m) = self.solve(st, ne)? {
                let mut o = st.clone();
                o.model = m;
                o.decisions.push(D::Ne(k));
                o.frames.last_mut().unwrap().pc -= 1;
                self.add(&mut o, ne);
                self.t.forks += 1;
                self.work.push_back(o);
            }
        }
        st.decisions.push(D::Eq(k));
        self.add(st, eq);
        Ok(k)
    }
    fn conc64(&mut self, st: &mut State, v: Val) -> X<u64> {
        if v.sym == 0 {
            return Ok(v.lo);
        }
        self.concretize(st, v, 64).map(|x| x as u64)
    }

    /// Load through a symbolic address: table read inside one object, or fork on the address.
    fn sym_load(&mut self, st: &mut State, a: E, w: u8, n: u8) -> X<Option<Val>> {
        let nd = self.ar.n(a);
        if nd.op != Op::Add {
            return Ok(None);
        }
        let k = match self.ar.konst(nd.b) {
            Some(k) => k as u64,
            None => return Ok(None),
        };
        let id = (k >> 32) as u32;
        let size = match self.obj(st, id) {
            Ok(o) => o.data.len() as u64,
            Err(_) => return Ok(None),
        };
        if size > 16384 || size < n as u64 {
            return Ok(None);
        }
        let may = self.ar.may(nd.a, 12);
        let stride = if may == 0 { 1 } else { 1u64 << may.trailing_zeros().min(12) };
        let k0 = k as u32 as u64;
        let base = self.ar.c(64, (id as u128) << 32);
        let off = self.ar.bin(Op::Sub, a, base);
        let last = self.ar.c(64, (size - n as u64) as u128);
        let inb = self.ar.bin(Op::Ule, off, last);
        if self.ar.konst(inb).is_none() {
            let o = self.ar.not(inb);
            if !st.replaying() {
                if self.solve(st, o)?.is_some() {
                    return Ok(None);
                }
            }
        }
        let lo = k0 % stride;
        let mut hi = size - n as u64;
        let mut start = lo;
        if may < 1 << 31 {
            hi = hi.min(k0 + may as u64);
            start = k0;
        }
        // runs of equal values
        let mut runs: Vec<(u64, Val)> = vec![];
        let mut o = start;
        while o <= hi {
            let v = self.load(st, ((id as u64) << 32) + o, w, n)?;
            match runs.last() {
                Some((_, l)) if l.sym == v.sym && l.k() == v.k() => {}
                _ => runs.push((o, v)),
            }
            o += stride;
        }
        if runs.is_empty() || runs.len() > 600 {
            return Ok(None);
        }
        let es: Vec<(u64, E)> = runs.iter().map(|(o, v)| (*o, self.ex(*v, w))).collect();
        let e = self.tree(off, &es);
        Ok(Some(self.mk(st, e)))
    }
    fn tree(&mut self, off: E, r: &[(u64, E)]) -> E {
        if r.len() == 1 {
            return r[0].1;
        }
        let m = r.len() / 2;
        let a = self.tree(off, &r[..m]);
        let b = self.tree(off, &r[m..]);
        let k = self.ar.c(64, r[m].0 as u128);
        let c = self.ar.bin(Op::Ult, off, k);
        self.ar.ite(c, a, b)
    }

    // ---------- calls ----------
    fn enter(&mut self, st: &mut State, f: &'static Func, args: &[Val], ret: u32) -> X<()> {
        if st.frames.len() >= self.cfg.depth {
            return Err(End::Violation("stack", format!("call depth {} exceeded", self.cfg.depth)));
        }
        let base = st.regs.len() as u32;
        st.regs.extend_from_slice(args);
        st.regs.resize((base + f.nregs) as usize, Val::default());
        st.stack.push(if f.frame > 0 { Some(Rc::new(Obj { data: vec![0; f.frame as usize], sym: None })) } else { None });
        st.frames.push(Frame { f, pc: 0, base, ret });
        Ok(())
    }
    fn set(&mut self, st: &mut State, base: u32, d: u32, v: Val) {
        if d != NO {
            st.regs[(base + d) as usize] = v;
        }
    }
    fn cstr(&mut self, st: &State, p: u64, n: u64) -> String {
        match self.bytes(st, p, n.min(400) as usize) {
            Ok(b) => String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>()).to_string(),
            Err(_) => "?".into(),
        }
    }
    fn loc(&mut self, st: &State, p: u64) -> String {
        let f = |w: &mut Self, o: u64, n: u8| w.load(st, p + o, n * 8, n).map(|v| v.lo).unwrap_or(0);
        let (fp, fl, line, col) = (f(self, 0, 8), f(self, 8, 8), f(self, 16, 4), f(self, 20, 4));
        if fl > 400 {
            return "?".into();
        }
        format!("{}:{}:{}", self.cstr(st, fp, fl), line, col)
    }
    fn panic_msg(&mut self, st: &State, a: &[Val]) -> String {
        let mut msg = "<formatted>".to_string();
        if a.len() >= 3 && a[1].lo & 1 == 1 {
            msg = self.cstr(st, a[0].lo, a[1].lo >> 1);
        }
        let l = a.last().map(|v| v.lo).unwrap_or(0);
        let loc = self.loc(st, l);
        format!("{msg} @ {loc}")
    }

    /// Calls a modelled function.
    fn model(&mut self, st: &mut State, m: Model, a: &[Val], base: u32, d: u32, fid: u32) -> X<()> {
        let _ = fid;
        match m {
            Model::None | Model::Undefined => {
                return verr(format!("call of undefined function {}", self.prog.fns[fid as usize].name));
            }
            Model::Alloc | Model::AllocZeroed => {
                let n = self.conc64(st, a[0])?;
                let p = self.alloc(st, n)?;
                self.set(st, base, d, Val::c(p as u128));
            }
            Model::Dealloc => {
                let p = self.conc64(st, a[0])?;
                let id = (p >> 32) as u32;
                if p == 0 && a.len() == 1 {
                    return Ok(());
                }
                if p as u32 != 0 || id < HEAP_BASE || !st.heap.free(id - HEAP_BASE) {
                    return verr("invalid dealloc");
                }
            }
            Model::Realloc => {
                let p = self.conc64(st, a[0])?;
                let old = self.conc64(st, a[1])?;
                let new = self.conc64(st, a[3])?;
                let q = self.alloc(st, new)?;
                self.copy(st, q, p, old.min(new) as usize)?;
                let id = (p >> 32) as u32;
                if p as u32 != 0 || id < HEAP_BASE || !st.heap.free(id - HEAP_BASE) {
                    return verr("invalid realloc");
                }
                self.set(st, base, d, Val::c(q as u128));
            }
            Model::Nop | Model::ThreadAtexit => self.set(st, base, d, Val::c(0)),
            Model::Zero => self.set(st, base, d, Val::c(0)),
            Model::One => self.set(st, base, d, Val::c(1)),
            Model::Fail => self.set(st, base, d, Val::c(u32::MAX as u128)),
            Model::Errno => {
                let p = self.alloc(st, 4)?;
                self.set(st, base, d, Val::c(p as u128));
            }
            Model::KeyCreate => {
                let p = self.conc64(st, a[0])?;
                self.store(st, p, Val::c(1), 32, 4)?;
                self.set(st, base, d, Val::c(0));
            }
            Model::Syscall => {
                let n = self.conc64(st, a[0])?;
                if n != 178 {
                    return verr(format!("system call {n}"));
                }
                // gettid
                self.set(st, base, d, Val::c(1));
            }
            Model::PanicFmt => {
                let m = self.panic_msg(st, a);
                return Err(End::Violation("panic", m));
            }
            Model::PanicNounwind => {
                let mut m = "<formatted>".to_string();
                if a.len() >= 2 && a[1].lo & 1 == 1 {
                    m = self.cstr(st, a[0].lo, a[1].lo >> 1);
                }
                return Err(End::Violation("panic", format!("nounwind: {m}")));
            }
            Model::SymDone => return Err(End::Ok),
            Model::Abort => return Err(End::Violation("abort", self.prog.fns[fid as usize].name.clone())),
            Model::Memcmp => {
                let p = self.conc64(st, a[0])?;
                let q = self.conc64(st, a[1])?;
                let n = self.conc64(st, a[2])?;
                let x = self.bytes(st, p, n as usize)?;
                let y = self.bytes(st, q, n as usize)?;
                let eq_only = self.prog.fns[fid as usize].name == "bcmp";
                if x.iter().chain(y.iter()).all(|b| b.1 == 0) {
                    let mut r = 0i32;
                    for (u, v) in x.iter().zip(&y) {
                        if u.0 != v.0 {
                            r = if u.0 < v.0 { -1 } else { 1 };
                            break;
                        }
                    }
                    self.set(st, base, d, Val::c(r as u32 as u128));
                } else {
                    let mut r = self.ar.c(32, 0);
                    let one = self.ar.c(32, 1);
                    let m1 = self.ar.c(32, u32::MAX as u128);
                    let mut all = self.ar.c(1, 1);
                    for (u, v) in x.iter().zip(&y).rev() {
                        let ue = self.ex(Val { lo: u.0 as u64, hi: 0, sym: u.1 }, 8);
                        let ve = self.ex(Val { lo: v.0 as u64, hi: 0, sym: v.1 }, 8);
                        let eq = self.ar.bin(Op::Eq, ue, ve);
                        if eq_only {
                            all = self.ar.bin(Op::And, eq, all);
                        } else {
                            let lt = self.ar.bin(Op::Ult, ue, ve);
                            let s = self.ar.ite(lt, m1, one);
                            r = self.ar.ite(eq, r, s);
                        }
                    }
                    if eq_only {
                        let z = self.ar.c(32, 0);
                        r = self.ar.ite(all, z, one);
                    }
                    let v = self.mk(st, r);
                    self.set(st, base, d, v);
                }
            }
            Model::Memcpy => {
                let p = self.conc64(st, a[0])?;
                let q = self.conc64(st, a[1])?;
                let n = self.conc64(st, a[2])?;
                self.copy(st, p, q, n as usize)?;
                self.set(st, base, d, Val::c(p as u128));
            }
            Model::Memset => {
                let p = self.conc64(st, a[0])?;
                let n = self.conc64(st, a[2])?;
                let mut b = a[1];
                if b.sym != 0 {
                    let e = self.ar.extract(b.sym, 0, 8);
                    b = self.mk(st, e);
                }
                self.memset(st, p, b, n as usize)?;
                self.set(st, base, d, Val::c(p as u128));
            }
            Model::Strlen => {
                let p = self.conc64(st, a[0])?;
                let mut n = 0;
                while self.load(st, p + n, 8, 1)?.lo != 0 {
                    n += 1;
                }
                self.set(st, base, d, Val::c(n as u128));
            }
            Model::HashKeys => {
                self.set(st, base, d, Val::c(0x0123_4567_89ab_cdef));
                self.set(st, base, d + 1, Val::c(0xfedc_ba98_7654_3210));
            }
            Model::SymU8 | Model::SymU32 | Model::SymU64 => {
                let w = match m {
                    Model::SymU8 => 8,
                    Model::SymU32 => 32,
                    _ => 64,
                };
                let i = st.widths.len();
                if i >= MAX_VARS {
                    return verr("too many symbolic variables");
                }
                st.widths.push(w);
                if st.model.len() <= i {
                    st.model.push(0);
                }
                let e = self.ar.var(w, i);
                self.set(st, base, d, Val { lo: 0, hi: 0, sym: e });
            }
            Model::SymAssume => {
                let v = a[0];
                if v.sym == 0 {
                    if v.lo & 1 == 0 {
                        return Err(End::Assume);
                    }
                } else {
                    let c = self.ar.extract(v.sym, 0, 1);
                    if !st.replaying() && self.ar.eval(c, &st.model) & 1 == 0 {
                        match self.solve(st, c)? {
                            Some(m) => st.model = m,
                            None => return Err(End::Assume),
                        }
                    }
                    self.add(st, c);
                }
            }
            Model::SymAssert => {
                let v = a[0];
                if !st.replaying() {
                    self.t.asserts += 1;
                }
                let msg = |w: &mut Self, st: &State| {
                    let p = a[1].lo;
                    w.cstr(st, p, a[2].lo)
                };
                if v.sym == 0 {
                    if v.lo & 1 == 0 {
                        let m = msg(self, st);
                        return Err(End::Violation("assert", m));
                    }
                } else {
                    let c = self.ar.extract(v.sym, 0, 1);
                    if !st.replaying() {
                        self.t.assert_queries += 1;
                        let n = self.ar.not(c);
                        if let Some(m) = self.solve(st, n)? {
                            let mm = msg(self, st);
                            let mut o = st.clone();
                            o.model = m;
                            self.violation(&o, "assert", mm);
                        }
                        if self.ar.eval(c, &st.model) & 1 == 0 {
                            match self.solve(st, c)? {
                                Some(m) => st.model = m,
                                None => return Err(End::Assume),
                            }
                        }
                    }
                    self.add(st, c);
                }
            }
            Model::SymCover => {
                st.covers.insert(a[0].lo);
                *self.t.covers.entry(a[0].lo).or_insert(0) += 1;
            }
            Model::SymConcretize => {
                let k = self.concretize(st, a[0], 64)?;
                self.set(st, base, d, Val::c(k));
            }
            Model::SymObserve => st.obs.push(a[0]),
            Model::SymIsFeasible => {
                self.set(st, base, d, Val::c(1));
            }
            Model::SymNote => {
                if self.cfg.verbose {
                    let s = self.cstr(st, a[0].lo, a[1].lo);
                    eprintln!("note: {s}");
                }
            }
        }
        Ok(())
    }
    fn memset(&mut self, st: &mut State, p: u64, b: Val, n: usize) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let o = self.obj_mut(st, (p >> 32) as u32)?;
        let off = p as u32 as usize;
        if off + n > o.data.len() {
            return verr("out-of-bounds memset");
        }
        if b.sym == 0 {
            o.data[off..off + n].fill(b.lo as u8);
            if let Some(s) = &mut o.sym {
                s[off..off + n].fill(0);
            }
        } else {
            let len = o.data.len();
            let s = o.sym.get_or_insert_with(|| vec![0; len].into_boxed_slice());
            s[off..off + n].fill(b.sym);
        }
        Ok(())
    }

    fn take(&mut self, st: &mut State, e: u32) {
        let fr = *st.frames.last().unwrap();
        let ed = &fr.f.edges[e as usize];
        let base = fr.base;
        match ed.moves.len() {
            0 => {}
            1 => {
                let (d, o) = ed.moves[0];
                let v = st.get(fr.f, base, o);
                st.regs[(base + d) as usize] = v;
            }
            2 => {
                let (d, o) = ed.moves[0];
                let (d2, o2) = ed.moves[1];
                let v = st.get(fr.f, base, o);
                let v2 = st.get(fr.f, base, o2);
                st.regs[(base + d) as usize] = v;
                st.regs[(base + d2) as usize] = v2;
            }
            _ => {
                let tmp: Vec<Val> = ed.moves.iter().map(|(_, o)| st.get(fr.f, base, *o)).collect();
                for ((d, _), v) in ed.moves.iter().zip(tmp) {
                    st.regs[(base + *d) as usize] = v;
                }
            }
        }
        st.frames.last_mut().unwrap().pc = ed.target;
    }

    fn intr(&mut self, st: &mut State, k: Intr, w: u8, a: &[Val], extra: u8, base: u32, d: u32) -> X<()> {
        let w16 = w as u16;
        macro_rules! ret {
            ($e:expr) => {{
                let v = $e;
                self.set(st, base, d, v);
                return Ok(());
            }};
        }
        match k {
            Intr::Nop => return Ok(()),
            Intr::Trap => return Err(End::Violation("abort", "llvm.trap".into())),
            Intr::Ident => ret!(a[0]),
            Intr::Expect => ret!(a[0]),
            Intr::IsConst => ret!(Val::c(0)),
            Intr::Memcpy => {
                let p = self.conc64(st, a[0])?;
                let q = self.conc64(st, a[1])?;
                let n = self.conc64(st, a[2])?;
                return self.copy(st, p, q, n as usize);
            }
            Intr::Memset => {
                let p = self.conc64(st, a[0])?;
                let n = self.conc64(st, a[2])?;
                return self.memset(st, p, a[1], n as usize);
            }
            _ => {}
        }
        let conc = a.iter().all(|v| v.sym == 0);
        if matches!(k, Intr::FAbs | Intr::CopySign | Intr::FpToUiSat | Intr::FpToSiSat | Intr::FFloor | Intr::FCeil | Intr::FTrunc | Intr::FRound | Intr::FRint | Intr::FSqrt | Intr::FMin | Intr::FMax | Intr::FMa) {
            let mut x = vec![];
            for v in a {
                x.push(self.concretize(st, *v, w)?);
            }
            let top = 1u128 << (w - 1);
            let r = match k {
                Intr::FAbs => x[0] & !top,
                Intr::CopySign => (x[0] & !top) | (x[1] & top),
                Intr::FpToUiSat | Intr::FpToSiSat => {
                    let f = if w == 64 { f64::from_bits(x[0] as u64) } else { f32::from_bits(x[0] as u32) as f64 };
                    let m = mask(extra as u16);
                    if k == Intr::FpToUiSat {
                        (f as u128).min(m)
                    } else {
                        let hi = (m >> 1) as i128;
                        ((f as i128).clamp(-hi - 1, hi)) as u128 & m
                    }
                }
                _ if w == 64 => {
                    let f = |i: usize| f64::from_bits(x[i] as u64);
                    match k {
                        Intr::FFloor => f(0).floor(),
                        Intr::FCeil => f(0).ceil(),
                        Intr::FTrunc => f(0).trunc(),
                        Intr::FRound => f(0).round(),
                        Intr::FRint => f(0).round_ties_even(),
                        Intr::FSqrt => f(0).sqrt(),
                        Intr::FMin => f(0).min(f(1)),
                        Intr::FMax => f(0).max(f(1)),
                        Intr::FMa => f(0).mul_add(f(1), f(2)),
                        _ => return verr("float intrinsic"),
                    }
                    .to_bits() as u128
                }
                _ if w == 32 => {
                    let f = |i: usize| f32::from_bits(x[i] as u32);
                    match k {
                        Intr::FFloor => f(0).floor(),
                        Intr::FCeil => f(0).ceil(),
                        Intr::FTrunc => f(0).trunc(),
                        Intr::FRound => f(0).round(),
                        Intr::FRint => f(0).round_ties_even(),
                        Intr::FSqrt => f(0).sqrt(),
                        Intr::FMin => f(0).min(f(1)),
                        Intr::FMax => f(0).max(f(1)),
                        Intr::FMa => f(0).mul_add(f(1), f(2)),
                        _ => return verr("float intrinsic"),
                    }
                    .to_bits() as u128
                }
                _ => return verr("float intrinsic"),
            };
            ret!(Val::c(r));
        }
        // Build expressions generically; constants fold.
        let x: Vec<E> = a
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let ww = if (matches!(k, Intr::Ctlz | Intr::Cttz | Intr::Abs)) && i == 1 { 1 } else { w };
                self.ex(*v, ww)
            })
            .collect();
        let _ = conc;
        let ar = &mut self.ar;
        let zero = ar.c(w16, 0);
        match k {
            Intr::UAddO | Intr::USubO | Intr::SAddO | Intr::SSubO | Intr::UMulO | Intr::SMulO => {
                let (p, q) = (x[0], x[1]);
                let (r, o) = match k {
                    Intr::UAddO => {
                        let r = ar.bin(Op::Add, p, q);
                        let o = ar.bin(Op::Ult, r, p);
                        (r, o)
                    }
                    Intr::USubO => {
                        let r = ar.bin(Op::Sub, p, q);
                        let o = ar.bin(Op::Ult, p, q);
                        (r, o)
                    }
                    Intr::SAddO | Intr::SSubO => {
                        let add = k == Intr::SAddO;
                        let r = ar.bin(if add { Op::Add } else { Op::Sub }, p, q);
                        let u = ar.bin(Op::Xor, p, r);
                        let v = if add { ar.bin(Op::Xor, q, r) } else { ar.bin(Op::Xor, p, q) };
                        let t = ar.bin(Op::And, u, v);
                        let o = ar.bin(Op::Slt, t, zero);
                        (r, o)
                    }
                    _ => {
                        let signed = k == Intr::SMulO;
                        if let (Some(pk), Some(qk)) = (ar.konst(p), ar.konst(q)) {
                            let (rk, ok) = if signed {
                                let (s, t) = (sext(pk, w16), sext(qk, w16));
                                match s.checked_mul(t) {
                                    Some(m) => (m as u128 & mask(w16), sext(m as u128 & mask(w16), w16) != m),
                                    None => (s.wrapping_mul(t) as u128 & mask(w16), true),
                                }
                            } else {
                                match pk.checked_mul(qk) {
                                    Some(m) => (m & mask(w16), m > mask(w16)),
                                    None => (pk.wrapping_mul(qk) & mask(w16), true),
                                }
                            };
                            let r = ar.c(w16, rk);
                            let o = ar.c(1, ok as u128);
                            (r, o)
                        } else {
                            if w > 64 {
                                return verr("symbolic 128-bit mul overflow");
                            }
                            let (wp, wq) = if signed { (ar.sext(p, 2 * w16), ar.sext(q, 2 * w16)) } else { (ar.zext(p, 2 * w16), ar.zext(q, 2 * w16)) };
                            let m = ar.bin(Op::Mul, wp, wq);
                            let r = ar.bin(Op::Mul, p, q);
                            let back = if signed { ar.sext(r, 2 * w16) } else { ar.zext(r, 2 * w16) };
                            let e = ar.bin(Op::Eq, back, m);
                            let o = ar.not(e);
                            (r, o)
                        }
                    }
                };
                let v = self.mk(st, r);
                let o = self.mk(st, o);
                self.set(st, base, d, v);
                self.set(st, base, d + 1, o);
                return Ok(());
            }
            _ => {}
        }
        let r = match k {
            Intr::UMax | Intr::UMin | Intr::SMax | Intr::SMin => {
                let c = ar.bin(if matches!(k, Intr::UMax | Intr::UMin) { Op::Ult } else { Op::Slt }, x[0], x[1]);
                if matches!(k, Intr::UMin | Intr::SMin) {
                    ar.ite(c, x[0], x[1])
                } else {
                    ar.ite(c, x[1], x[0])
                }
            }
            Intr::Fshl | Intr::Fshr => {
                let wk = ar.c(w16, w as u128);
                let s = ar.bin(Op::URem, x[2], wk);
                let inv = ar.bin(Op::Sub, wk, s);
                // shift by w gives 0 in SMT semantics, which is what is needed
                if k == Intr::Fshl {
                    let h = ar.bin(Op::Shl, x[0], s);
                    let l = ar.bin(Op::LShr, x[1], inv);
                    ar.bin(Op::Or, h, l)
                } else {
                    let h = ar.bin(Op::Shl, x[0], inv);
                    let l = ar.bin(Op::LShr, x[1], s);
                    ar.bin(Op::Or, h, l)
                }
            }
            Intr::Ctpop | Intr::Ctlz | Intr::Cttz | Intr::Bitrev => {
                if let Some(v) = ar.konst(x[0]) {
                    let r = match k {
                        Intr::Ctpop => v.count_ones() as u128,
                        Intr::Ctlz => {
                            if v == 0 {
                                w as u128
                            } else {
                                (v.leading_zeros() - (128 - w as u32)) as u128
                            }
                        }
                        Intr::Cttz => {
                            if v == 0 {
                                w as u128
                            } else {
                                v.trailing_zeros() as u128
                            }
                        }
                        _ => v.reverse_bits() >> (128 - w as u32),
                    };
                    ar.c(w16, r)
                } else {
                    match k {
                        Intr::Ctpop => {
                            let mut s = zero;
                            for i in 0..w16 {
                                let b = ar.extract(x[0], i, 1);
                                let b = ar.zext(b, w16);
                                s = ar.bin(Op::Add, s, b);
                            }
                            s
                        }
                        Intr::Ctlz => {
                            let mut r = ar.c(w16, w as u128);
                            for i in 0..w16 {
                                let b = ar.extract(x[0], i, 1);
                                let v = ar.c(w16, (w16 - 1 - i) as u128);
                                r = ar.ite(b, v, r);
                            }
                            r
                        }
                        Intr::Cttz => {
                            let mut r = ar.c(w16, w as u128);
                            for i in (0..w16).rev() {
                                let b = ar.extract(x[0], i, 1);
                                let v = ar.c(w16, i as u128);
                                r = ar.ite(b, v, r);
                            }
                            r
                        }
                        _ => {
                            let mut r = ar.extract(x[0], 0, 1);
                            for i in 1..w16 {
                                let b = ar.extract(x[0], i, 1);
                                r = ar.concat(r, b);
                            }
                            r
                        }
                    }
                }
            }
            Intr::Bswap => {
                let mut r = ar.extract(x[0], 0, 8);
                for i in 1..w16 / 8 {
                    let b = ar.extract(x[0], 8 * i, 8);
                    r = ar.concat(r, b);
                }
                r
            }
            Intr::Abs => {
                let c = ar.bin(Op::Slt, x[0], zero);
                let n = ar.bin(Op::Sub, zero, x[0]);
                ar.ite(c, n, x[0])
            }
            Intr::USubSat => {
                let c = ar.bin(Op::Ult, x[0], x[1]);
                let r = ar.bin(Op::Sub, x[0], x[1]);
                ar.ite(c, zero, r)
            }
            Intr::UAddSat => {
                let r = ar.bin(Op::Add, x[0], x[1]);
                let c = ar.bin(Op::Ult, r, x[0]);
                let m = ar.c(w16, mask(w16));
                ar.ite(c, m, r)
            }
            Intr::UCmp | Intr::SCmp => {
                let rw = extra as u16;
                let lt = ar.bin(if k == Intr::UCmp { Op::Ult } else { Op::Slt }, x[0], x[1]);
                let eq = ar.bin(Op::Eq, x[0], x[1]);
                let m1 = ar.c(rw, mask(rw));
                let z = ar.c(rw, 0);
                let one = ar.c(rw, 1);
                let t = ar.ite(eq, z, one);
                ar.ite(lt, m1, t)
            }
            _ => return verr(format!("intrinsic {k:?}")),
        };
        let v = self.mk(st, r);
        self.set(st, base, d, v);
        Ok(())
    }

    // ---------- main loop ----------
    fn run(&mut self, st: &mut State) -> End {
        loop {
            match self.steps(st) {
                Ok(()) => return End::Ok,
                Err(End::Retry) => continue,
                Err(e) => return e,
            }
        }
    }
    fn steps(&mut self, st: &mut State) -> X<()> {
        let mut fr = *st.frames.last().unwrap();
        loop {
            let f = fr.f;
            let base = fr.base;
            let pc = fr.pc as usize;
            let ins = f.code[pc];
            fr.pc += 1;
            st.steps += 1;
            macro_rules! g {
                ($o:expr) => {
                    st.get(f, base, $o)
                };
            }
            macro_rules! sync {
                () => {{
                    st.frames.last_mut().unwrap().pc = fr.pc;
                    self.last_site = (f.id, pc as u32);
                }};
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {
                    st.regs[(base + $d) as usize] = $v
                };
            }
            match ins {
                I::Bin { op, w, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    if x.sym | y.sym == 0 {
                        let v = if w <= 64 {
                            let m = msk(w);
                            let r = match op {
                                Op::Add => x.lo.wrapping_add(y.lo) & m,
                                Op::Sub => x.lo.wrapping_sub(y.lo) & m,
                                Op::And => x.lo & y.lo,
                                Op::Or => x.lo | y.lo,
                                Op::Xor => x.lo ^ y.lo,
                                Op::Mul => x.lo.wrapping_mul(y.lo) & m,
                                _ => {
                                    if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && y.lo == 0 {
                                        sync!();
                                        return verr("division by zero reached");
                                    }
                                    bin(op, w as u16, x.lo as u128, y.lo as u128) as u64
                                }
                            };
                            Val { lo: r, hi: 0, sym: 0 }
                        } else {
                            Val::c(bin(op, w as u16, x.k(), y.k()))
                        };
                        set!(d, v);
                    } else {
                        let (p, q) = (self.ex(x, w), self.ex(y, w));
                        let e = self.ar.bin(op, p, q);
                        let v = self.mk(st, e);
                        set!(d, v);
                    }
                }
                I::Cmp { p, w, d, a, b } => {
                    let (x, y) = (g!(a), g!(b));
                    if x.sym | y.sym == 0 {
                        let r = if w <= 64 {
                            let (u, v) = (x.lo, y.lo);
                            match p {
                                Pred::Eq => u == v,
                                Pred::Ne => u != v,
                                Pred::Ult => u < v,
                                Pred::Ule => u <= v,
                                Pred::Ugt => u > v,
                                Pred::Uge => u >= v,
                                _ => {
                                    let s = 64 - w as u32;
                                    let (u, v) = (((u << s) as i64) >> s, ((v << s) as i64) >> s);
                                    match p {
                                        Pred::Slt => u < v,
                                        Pred::Sle => u <= v,
                                        Pred::Sgt => u > v,
                                        _ => u >= v,
                                    }
                                }
                            }
                        } else {
                            let (u, v) = (x.k(), y.k());
                            let (i, j) = (sext(u, w as u16), sext(v, w as u16));
                            match p {
                                Pred::Eq => u == v,
                                Pred::Ne => u != v,
                                Pred::Ult => u < v,
                                Pred::Ule => u <= v,
                                Pred::Ugt => u > v,
                                Pred::Uge => u >= v,
                                Pred::Slt => i < j,
                                Pred::Sle => i <= j,
                                Pred::Sgt => i > j,
                                Pred::Sge => i >= j,
                            }
                        };
                        set!(d, Val { lo: r as u64, hi: 0, sym: 0 });
                    } else {
                        let (u, v) = (self.ex(x, w), self.ex(y, w));
                        let e = match p {
                            Pred::Eq => self.ar.bin(Op::Eq, u, v),
                            Pred::Ne => {
                                let t = self.ar.bin(Op::Eq, u, v);
                                self.ar.not(t)
                            }
                            Pred::Ult => self.ar.bin(Op::Ult, u, v),
                            Pred::Ule => self.ar.bin(Op::Ule, u, v),
                            Pred::Ugt => self.ar.bin(Op::Ult, v, u),
                            Pred::Uge => self.ar.bin(Op::Ule, v, u),
                            Pred::Slt => self.ar.bin(Op::Slt, u, v),
                            Pred::Sle => self.ar.bin(Op::Sle, u, v),
                            Pred::Sgt => self.ar.bin(Op::Slt, v, u),
                            Pred::Sge => self.ar.bin(Op::Sle, v, u),
                        };
                        let v = self.mk(st, e);
                        set!(d, v);
                    }
                }
                I::Mov { d, a } => {
                    let v = g!(a);
                    set!(d, v);
                }
                I::GepC { d, p, off } => {
                    let x = g!(p);
                    if x.sym == 0 {
                        set!(d, Val { lo: x.lo.wrapping_add(off as u64), hi: 0, sym: 0 });
                    } else {
                        let k = self.ar.c(64, off as u64 as u128);
                        let e = self.ar.bin(Op::Add, x.sym, k);
                        let v = self.mk(st, e);
                        set!(d, v);
                    }
                }
                I::GepV { d, p, i, w, scale } => {
                    let (x, y) = (g!(p), g!(i));
                    if x.sym | y.sym == 0 {
                        let idx = if w < 64 { sext(y.lo as u128, w as u16) as i64 } else { y.lo as i64 };
                        set!(d, Val { lo: x.lo.wrapping_add((idx.wrapping_mul(scale)) as u64), hi: 0, sym: 0 });
                    } else {
                        let mut ie = self.ex(y, w);
                        if w < 64 {
                            ie = self.ar.sext(ie, 64);
                        }
                        let k = self.ar.c(64, scale as u64 as u128);
                        let m = self.ar.bin(Op::Mul, ie, k);
                        let pe = self.ex(x, 64);
                        let e = self.ar.bin(Op::Add, pe, m);
                        let v = self.mk(st, e);
                        set!(d, v);
                    }
                }
                I::Load { w, n, d, p } => {
                    let x = g!(p);
                    let v = if x.sym == 0 {
                        match self.load(st, x.lo, w, n) {
                            Ok(v) => v,
                            Err(e) => {
                                sync!();
                                return Err(e);
                            }
                        }
                    } else {
                        sync!();
                        match self.sym_load(st, x.sym, w, n)? {
                            Some(v) => v,
                            None => {
                                let a = self.conc64(st, x)?;
                                self.load(st, a, w, n)?
                            }
                        }
                    };
                    set!(d, v);
                }
                I::Store { w, n, v, p } => {
                    let x = g!(p);
                    let val = g!(v);
                    let a = if x.sym == 0 {
                        x.lo
                    } else {
                        sync!();
                        self.conc64(st, x)?
                    };
                    if let Err(e) = self.store(st, a, val, w, n) {
                        sync!();
                        return Err(e);
                    }
                }
                I::Alloca { d, off } => {
                    let id = STACK_BASE + (st.frames.len() as u32 - 1);
                    set!(d, Val { lo: ((id as u64) << 32) + off as u64, hi: 0, sym: 0 });
                }
                I::Cast { k, fw, tw, d, a } => {
                    let x = g!(a);
                    if matches!(k, CastK::Trunc | CastK::ZExt | CastK::SExt | CastK::Bit) {
                        if x.sym == 0 {
                            let v = match k {
                                CastK::Trunc => Val::c(x.k() & mask(tw as u16)),
                                CastK::SExt => Val::c(sext(x.k(), fw as u16) as u128 & mask(tw as u16)),
                                _ => x,
                            };
                            set!(d, v);
                        } else {
                            let e = match k {
                                CastK::Trunc => self.ar.extract(x.sym, 0, tw as u16),
                                CastK::ZExt => self.ar.zext(x.sym, tw as u16),
                                CastK::SExt => self.ar.sext(x.sym, tw as u16),
                                _ => x.sym,
                            };
                            let v = self.mk(st, e);
                            set!(d, v);
                        }
                    } else {
                        sync!();
                        let v = self.concretize(st, x, fw)?;
                        let asf = |v: u128, w: u8| if w == 64 { f64::from_bits(v as u64) } else { f32::from_bits(v as u32) as f64 };
                        let ofs = |x: f64, w: u8| if w == 64 { x.to_bits() as u128 } else { (x as f32).to_bits() as u128 };
                        if (fw != 32 && fw != 64 && matches!(k, CastK::FpToUi | CastK::FpToSi | CastK::FpExt | CastK::FpTrunc)) || (tw != 32 && tw != 64 && matches!(k, CastK::UiToFp | CastK::SiToFp | CastK::FpExt | CastK::FpTrunc)) {
                            return verr("float width");
                        }
                        let r = match k {
                            CastK::FpToUi => asf(v, fw) as u128 & mask(tw as u16),
                            CastK::FpToSi => asf(v, fw) as i128 as u128 & mask(tw as u16),
                            CastK::UiToFp => {
                                if tw == 64 {
                                    (v as f64).to_bits() as u128
                                } else {
                                    (v as f32).to_bits() as u128
                                }
                            }
                            CastK::SiToFp => {
                                let s = sext(v, fw as u16);
                                if tw == 64 {
                                    (s as f64).to_bits() as u128
                                } else {
                                    (s as f32).to_bits() as u128
                                }
                            }
                            _ => ofs(asf(v, fw), tw),
                        };
                        set!(d, Val::c(r));
                    }
                }
                I::Sel { w, d, c, a, b } => {
                    let cc = g!(c);
                    if cc.sym == 0 {
                        let v = if cc.lo & 1 == 1 { g!(a) } else { g!(b) };
                        set!(d, v);
                    } else {
                        let (x, y) = (g!(a), g!(b));
                        let (x, y) = (self.ex(x, w), self.ex(y, w));
                        let e = self.ar.ite(cc.sym, x, y);
                        let v = self.mk(st, e);
                        set!(d, v);
                    }
                }
                I::Br { e } => {
                    let ed = &f.edges[e as usize];
                    if ed.moves.is_empty() {
                        fr.pc = ed.target;
                    } else {
                        self.take(st, e);
                        fr.pc = ed.target;
                    }
                    if st.steps > self.cfg.fuel {
                        sync!();
                        return Err(End::Violation("fuel", format!("more than {} instructions on one path", self.cfg.fuel)));
                    }
                }
                I::CBr { c, t, f: fe } => {
                    let cc = g!(c);
                    if st.steps > self.cfg.fuel {
                        sync!();
                        return Err(End::Violation("fuel", format!("more than {} instructions on one path", self.cfg.fuel)));
                    }
                    let side = if cc.sym == 0 {
                        cc.lo & 1 == 1
                    } else {
                        sync!();
                        let (side, alt) = self.decide(st, cc.sym)?;
                        if let Some(mut o) = alt {
                            self.take(&mut o, if side { fe } else { t });
                            self.work.push_back(o);
                        }
                        side
                    };
                    let e = if side { t } else { fe };
                    let ed = &f.edges[e as usize];
                    if !ed.moves.is_empty() {
                        self.take(st, e);
                    }
                    fr.pc = ed.target;
                }
                I::Sw { v, w, s } => {
                    let x = g!(v);
                    let sw = &f.switches[s as usize];
                    let e = if x.sym == 0 {
                        *sw.map.get(&x.k()).unwrap_or(&sw.default)
                    } else {
                        sync!();
                        self.switch(st, x.sym, w, sw)?
                    };
                    let ed = &f.edges[e as usize];
                    if !ed.moves.is_empty() {
                        self.take(st, e);
                    }
                    fr.pc = ed.target;
                }
                I::Ret { args, n } => {
                    let depth = st.frames.len();
                    let ret = fr.ret;
                    if depth == 1 {
                        return Ok(());
                    }
                    let pf = st.frames[depth - 2];
                    if ret != NO {
                        for k in 0..n as usize {
                            let v = g!(f.args[args as usize + k]);
                            st.regs[pf.base as usize + ret as usize + k] = v;
                        }
                    }
                    st.frames.pop();
                    st.stack.pop();
                    st.regs.truncate(base as usize);
                    fr = pf;
                }
                I::Call { f: callee, args, n, d } => {
                    let fi = &self.prog.fns[callee as usize];
                    let a: smallvec::SV = smallvec::SV::new(&f.args[args as usize..(args + n as u32) as usize], |o| g!(o));
                    if fi.model != Model::None {
                        sync!();
                        self.t.fns.insert(callee);
                        self.model(st, fi.model, a.as_slice(), base, d, callee)?;
                    } else {
                        sync!();
                        let nf = self.func(callee)?;
                        self.enter(st, nf, a.as_slice(), d)?;
                        fr = *st.frames.last().unwrap();
                    }
                }
                I::CallI { p, args, n, d } => {
                    let x = g!(p);
                    sync!();
                    let a0 = self.conc64(st, x)?;
                    let id = (a0 >> 32) as u32;
                    if a0 as u32 != 0 || id < FN_BASE || (id - FN_BASE) as usize >= self.prog.fns.len() {
                        return verr(format!("indirect call of {a0:#x}"));
                    }
                    let callee = id - FN_BASE;
                    let fi = &self.prog.fns[callee as usize];
                    let a: smallvec::SV = smallvec::SV::new(&f.args[args as usize..(args + n as u32) as usize], |o| g!(o));
                    if fi.model != Model::None {
                        self.model(st, fi.model, a.as_slice(), base, d, callee)?;
                    } else {
                        let nf = self.func(callee)?;
                        self.enter(st, nf, a.as_slice(), d)?;
                        fr = *st.frames.last().unwrap();
                    }
                }
                I::Intr { k, w, args, n, d } => {
                    let a: smallvec::SV = smallvec::SV::new(&f.args[args as usize..(args + n as u32) as usize], |o| g!(o));
                    let extra = if matches!(k, Intr::UCmp | Intr::SCmp | Intr::FpToSiSat | Intr::FpToUiSat) {
                        let o = f.args[args as usize + n as usize];
                        f.consts[!o as usize] as u8
                    } else {
                        0
                    };
                    sync!();
                    self.intr(st, k, w, a.as_slice(), extra, base, d)?;
                }
                I::ARmw { k, w, d, p, v } => {
                    sync!();
                    let a = self.conc64(st, g!(p))?;
                    let n = (w + 7) / 8;
                    let old = self.load(st, a, w, n)?;
                    let val = g!(v);
                    let (x, y) = (self.ex(old, w), self.ex(val, w));
                    let ar = &mut self.ar;
                    let e = match k {
                        Rmw::Xchg => y,
                        Rmw::Add => ar.bin(Op::Add, x, y),
                        Rmw::Sub => ar.bin(Op::Sub, x, y),
                        Rmw::And => ar.bin(Op::And, x, y),
                        Rmw::Or => ar.bin(Op::Or, x, y),
                        Rmw::Xor => ar.bin(Op::Xor, x, y),
                        _ => return verr("atomicrmw op"),
                    };
                    let nv = self.mk(st, e);
                    self.store(st, a, nv, w, n)?;
                    set!(d, old);
                }
                I::CmpXchg { w, d, p, c, n } => {
                    sync!();
                    let a = self.conc64(st, g!(p))?;
                    let nb = (w + 7) / 8;
                    let old = self.load(st, a, w, nb)?;
                    let old = Val::c(self.concretize(st, old, w)?);
                    let cmp = g!(f.args[c as usize]);
                    let cmp = self.concretize(st, cmp, w)?;
                    let new = g!(f.args[n as usize]);
                    let ok = old.k() == cmp;
                    if ok {
                        self.store(st, a, new, w, nb)?;
                    }
                    set!(d, old);
                    set!(d + 1, Val::c(ok as u128));
                }
                I::FBin { k, w, d, a, b } => {
                    sync!();
                    let x = g!(a);
                    let y = g!(b);
                    let x = self.concretize(st, x, w)?;
                    let y = self.concretize(st, y, w)?;
                    let r = match w {
                        64 => {
                            let (u, v) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                            match k {
                                0 => u + v,
                                1 => u - v,
                                2 => u * v,
                                3 => u / v,
                                _ => u % v,
                            }
                            .to_bits() as u128
                        }
                        32 => {
                            let (u, v) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                            match k {
                                0 => u + v,
                                1 => u - v,
                                2 => u * v,
                                3 => u / v,
                                _ => u % v,
                            }
                            .to_bits() as u128
                        }
                        _ => return verr("float width"),
                    };
                    set!(d, Val::c(r));
                }
                I::FCmp { k, w, d, a, b } => {
                    sync!();
                    let x = g!(a);
                    let y = g!(b);
                    let x = self.concretize(st, x, w)?;
                    let y = self.concretize(st, y, w)?;
                    let (u, v) = match w {
                        64 => (f64::from_bits(x as u64), f64::from_bits(y as u64)),
                        32 => (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64),
                        _ => return verr("float width"),
                    };
                    let un = u.is_nan() || v.is_nan();
                    let r = match k {
                        0 => false,
                        1 => u == v,
                        2 => u > v,
                        3 => u >= v,
                        4 => u < v,
                        5 => u <= v,
                        6 => !un && u != v,
                        7 => !un,
                        8 => un || u == v,
                        9 => un || u > v,
                        10 => un || u >= v,
                        11 => un || u < v,
                        12 => un || u <= v,
                        13 => un || u != v,
                        14 => un,
                        _ => true,
                    };
                    set!(d, Val::c(r as u128));
                }
                I::Unreach => {
                    sync!();
                    return Err(End::Violation("unreachable", "`unreachable` executed".into()));
                }
                I::Unsup { m } => {
                    sync!();
                    return verr(format!("unsupported: {}", f.msgs[m as usize]));
                }
            }
        }
    }
    fn switch(&mut self, st: &mut State, e: E, w: u8, sw: &'static Switch) -> X<u32> {
        self.t.decisions += 1;
        self.t.sites.insert(self.last_site);
        // group by edge
        let mut order: Vec<u32> = vec![];
        let mut conds: HashMap<u32, E> = HashMap::new();
        let mut none = self.ar.c(1, 1);
        for (k, ed) in &sw.cases {
            let kc = self.ar.c(w as u16, *k);
            let c = self.ar.bin(Op::Eq, e, kc);
            let nc = self.ar.not(c);
            none = self.ar.bin(Op::And, none, nc);
            if *ed == sw.default {
                continue;
            }
            match conds.get(ed).copied() {
                Some(o) => {
                    let o = self.ar.bin(Op::Or, o, c);
                    conds.insert(*ed, o);
                }
                None => {
                    order.push(*ed);
                    conds.insert(*ed, c);
                }
            }
        }
        // default: not any of the other edges' conditions
        let mut dc = self.ar.c(1, 1);
        for ed in &order {
            let n = self.ar.not(conds[ed]);
            dc = self.ar.bin(Op::And, dc, n);
        }
        order.push(sw.default);
        conds.insert(sw.default, dc);
        if st.replaying() {
            let ed = match st.pop() {
                D::S(x) => x,
                d => return verr(format!("replay mismatch {d:?}")),
            };
            self.add(st, conds[&ed]);
            return Ok(ed);
        }
        let chosen = order.iter().copied().find(|ed| self.ar.eval(conds[ed], &st.model) & 1 == 1).unwrap();
        for ed in order {
            if ed == chosen {
                continue;
            }
            let c = conds[&ed];
            if let Some(m) = self.solve(st, c)? {
                let mut o = st.clone();
                o.model = m;
                o.decisions.push(D::S(ed));
                self.add(&mut o, c);
                self.take(&mut o, ed);
                self.t.forks += 1;
                self.work.push_back(o);
            }
        }
        st.decisions.push(D::S(chosen));
        self.add(st, conds[&chosen]);
        Ok(chosen)
    }

    fn vals(&self, st: &State) -> Vec<(u16, u64)> {
        st.widths.iter().enumerate().map(|(i, w)| (*w, st.model[i] as u64)).collect()
    }
    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        let stack: Vec<String> = st
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| {
                let fi = &self.prog.fns[f.f.id as usize];
                if fi.demangled.is_empty() {
                    fi.name.clone()
                } else {
                    fi.demangled.clone()
                }
            })
            .collect();
        self.t.violating += 1;
        let known = msg.starts_with("KNOWN:");
        if let Some(v) = self.t.viols.iter_mut().filter(|v| v.kind == kind && v.msg == msg).nth(2) {
            v.count += 1;
        } else {
            let vals = self.vals(st);
            self.t.viols.push(Viol { kind: kind.into(), msg, stack, vals, steps: st.steps, count: 1 });
        }
        if known {
            return;
        }
        let n = self.sh.nviol.fetch_add(1, Ordering::Relaxed) + 1;
        if n as usize >= self.cfg.max_viol {
            self.sh.stop.store(true, Ordering::Relaxed);
            self.sh.cv.notify_all();
        }
    }
    fn finish(&mut self, st: &mut State, e: End) {
        self.t.steps += st.steps;
        self.t.max_steps = self.t.max_steps.max(st.steps);
        self.t.max_vars = self.t.max_vars.max(st.widths.len());
        match e {
            End::Ok => {
                self.t.ok += 1;
                let n = self.sh.npaths.fetch_add(1, Ordering::Relaxed) + 1;
                if self.cfg.max_paths > 0 && n >= self.cfg.max_paths {
                    self.sh.timeout.store(true, Ordering::Relaxed);
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.sh.cv.notify_all();
                }
                let per = (self.cfg.samples / self.cfg.threads).max(1);
                // reservoir-like spread: always keep the first ones, then exponentially sparser
                if self.t.samples.len() < per || self.t.ok.is_power_of_two() || self.t.ok % 997 == 0 {
                    if self.t.samples.len() < 4 * per {
                        let vals = self.vals(st);
                        let mut obs = vec![];
                        for v in &st.obs {
                            obs.push(if v.sym == 0 { v.lo } else { self.ar.eval(v.sym, &st.model) as u64 });
                        }
                        self.t.samples.push(Sample { vals, obs, covers: st.covers.iter().copied().collect() });
                    }
                }
            }
            End::Assume => self.t.pruned += 1,
            End::Violation(k, m) => self.violation(st, k, m),
            End::Error(m) => {
                let stack: Vec<String> = st
                    .frames
                    .iter()
                    .rev()
                    .take(8)
                    .map(|f| {
                        let fi = &self.prog.fns[f.f.id as usize];
                        if fi.demangled.is_empty() { fi.name.clone() } else { fi.demangled.clone() }
                    })
                    .collect();
                *self.t.errors.entry(format!("{m} in {}", stack.join(" < "))).or_insert(0) += 1;
                if self.t.errors.len() > 20 {
                    self.sh.stop.store(true, Ordering::Relaxed);
                    self.sh.cv.notify_all();
                }
            }
            End::Retry => unreachable!(),
        }
    }

    fn start(&mut self, j: Job) -> Result<State, String> {
        let mut st = State::new(j.model, j.decisions);
        let f = match self.func(self.cfg.entry) {
            Ok(f) => f,
            Err(End::Error(e)) => return Err(e),
            Err(_) => return Err("entry".into()),
        };
        let _ = self.enter(&mut st, f, &[], NO);
        Ok(st)
    }

    fn worker(mut self) -> Totals {
        loop {
            if self.sh.stop.load(Ordering::Relaxed) {
                break;
            }
            if self.sh.start.elapsed().as_secs_f64() > self.cfg.time {
                self.sh.timeout.store(true, Ordering::Relaxed);
                self.sh.stop.store(true, Ordering::Relaxed);
                self.sh.cv.notify_all();
                break;
            }
            // share work
            if self.sh.idle.load(Ordering::Relaxed) > 0 && self.work.len() > 1 {
                let st = self.work.pop_front().unwrap();
                let mut q = self.sh.q.lock().unwrap();
                // states still replaying keep the rest of their prefix
                let mut d = st.decisions.clone();
                d.extend_from_slice(&st.replay[st.rpos..]);
                q.0.push_back(Job { decisions: d, model: st.model.clone() });
                self.sh.cv.notify_one();
            }
            let mut st = match self.work.pop_back() {
                Some(s) => s,
                None => {
                    let mut q = self.sh.q.lock().unwrap();
                    let j = loop {
                        if let Some(j) = q.0.pop_front() {
                            break Some(j);
                        }
                        if self.sh.stop.load(Ordering::Relaxed) {
                            break None;
                        }
                        q.1 += 1;
                        self.sh.idle.store(q.1, Ordering::Relaxed);
                        if q.1 == self.cfg.threads {
                            self.sh.stop.store(true, Ordering::Relaxed);
                            self.sh.cv.notify_all();
                            break None;
                        }
                        let (g, _) = self.sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap();
                        q = g;
                        q.1 -= 1;
                        self.sh.idle.store(q.1, Ordering::Relaxed);
                    };
                    drop(q);
                    match j {
                        None => break,
                        Some(j) => match self.start(j) {
                            Ok(s) => s,
                            Err(e) => {
                                self.t.errors.insert(e, 1);
                                break;
                            }
                        },
                    }
                }
            };
            let e = self.run(&mut st);
            self.finish(&mut st, e);
        }
        self.t.queries = self.sv.queries;
        self.t.cache_hits = self.sv.cache_hits;
        self.t.sat = self.sv.sat;
        self.t.unsat = self.sv.unsat;
        self.t.unknown = self.sv.unknown;
        self.t.solver_time = self.sv.time;
        self.t.max_query = self.sv.max_time;
        self.t.nodes = self.ar.nodes.len() as u64;
        self.t
    }
}

mod smallvec {
    use super::*;
    /// Small argument buffer.
    pub struct SV {
        n: usize,
        a: [Val; 10],
        big: Vec<Val>,
    }
    impl SV {
        #[inline]
        pub fn new(o: &[Opd], f: impl Fn(Opd) -> Val) -> SV {
            let mut s = SV { n: o.len(), a: [Val::default(); 10], big: vec![] };
            if o.len() <= 10 {
                for (k, x) in o.iter().enumerate() {
                    s.a[k] = f(*x);
                }
            } else {
                s.big = o.iter().map(|x| f(*x)).collect();
            }
            s
        }
        #[inline]
        pub fn as_slice(&self) -> &[Val] {
            if self.n <= 10 {
                &self.a[..self.n]
            } else {
                &self.big
            }
        }
    }
}

pub fn explore(prog: &'static Prog, cfg: &Cfg) -> Totals {
    let sh = Shared {
        q: Mutex::new((VecDeque::from([Job { decisions: vec![], model: vec![] }]), 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        timeout: AtomicBool::new(false),
        nviol: AtomicU64::new(0),
        npaths: AtomicU64::new(0),
        start: Instant::now(),
    };
    let parts: Vec<Totals> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..cfg.threads)
            .map(|_| {
                let sh = &sh;
                let cfg = cfg.clone();
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, move || Worker::new(prog, cfg, sh).worker()).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut t = Totals::default();
    for p in parts {
        t.ok += p.ok;
        t.pruned += p.pruned;
        t.violating += p.violating;
        t.forks += p.forks;
        t.decisions += p.decisions;
        t.steps += p.steps;
        t.queries += p.queries;
        t.cache_hits += p.cache_hits;
        t.sat += p.sat;
        t.unsat += p.unsat;
        t.unknown += p.unknown;
        t.solver_time += p.solver_time;
        t.max_query = t.max_query.max(p.max_query);
        t.asserts += p.asserts;
        t.assert_queries += p.assert_queries;
        t.max_vars = t.max_vars.max(p.max_vars);
        t.max_steps = t.max_steps.max(p.max_steps);
        t.fns.extend(p.fns);
        t.sites.extend(p.sites);
        t.nodes += p.nodes;
        for (k, v) in p.covers {
            *t.covers.entry(k).or_insert(0) += v;
        }
        for (k, v) in p.errors {
            *t.errors.entry(k).or_insert(0) += v;
        }
        t.viols.extend(p.viols);
        t.samples.extend(p.samples);
    }
    t.timed_out = sh.timeout.load(Ordering::Relaxed);
    t.wall = sh.start.elapsed().as_secs_f64();
    t
}
