//! Hash-consed bit-vector expressions (QF_BV), widths 1..=128.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    /// k = low bit
    Extract,
    /// a high, b low
    Concat,
}

pub type E = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

/// Set of symbolic variables (by index), up to 256.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct VarSet(pub [u128; 2]);
impl VarSet {
    pub fn one(i: usize) -> Self {
        let mut s = VarSet::default();
        s.0[i >> 7] |= 1u128 << (i & 127);
        s
    }
    pub fn or(self, o: Self) -> Self {
        VarSet([self.0[0] | o.0[0], self.0[1] | o.0[1]])
    }
    pub fn meets(self, o: Self) -> bool {
        (self.0[0] & o.0[0]) | (self.0[1] & o.0[1]) != 0
    }
    pub fn has(self, i: usize) -> bool {
        self.0[i >> 7] >> (i & 127) & 1 == 1
    }
}
pub const MAX_VARS: usize = 256;

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    memo: Vec<u128>,
    stamp: Vec<u32>,
    cur: u32,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = 0u64;
            for (i, y) in c.iter().enumerate() {
                x |= (*y as u64) << (8 * i);
            }
            self.write_u64(x)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        ((v << (128 - w)) as i128) >> (128 - w)
    }
}

/// Concrete semantics of binary operators (operands already masked).
pub fn bin(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        // SMT-LIB semantics for division by zero.
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            (s >> (b.min(127).min(w as u128 - 1) as u32)) as u128 & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            vars: vec![],
            map: HashMap::default(),
            memo: vec![],
            stamp: vec![],
            cur: 0,
        };
        // id 0 is reserved ("concrete")
        a.push(Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0 });
        a
    }
    fn push(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let vs = match n.op {
            Op::Const => VarSet::default(),
            Op::Var => VarSet::one(n.k as usize),
            Op::Ite => self.vars[n.a as usize].or(self.vars[n.b as usize]).or(self.vars[n.c as usize]),
            Op::ZExt | Op::SExt | Op::Extract => self.vars[n.a as usize],
            _ => self.vars[n.a as usize].or(self.vars[n.b as usize]),
        };
        self.nodes.push(n);
        self.vars.push(vs);
        self.memo.push(0);
        self.stamp.push(0);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    pub fn konst(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn c(&mut self, w: u16, k: u128) -> E {
        self.push(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, w: u16, i: usize) -> E {
        self.push(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.c(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn is_bool_const(&self, e: E) -> Option<bool> {
        self.konst(e).map(|k| k & 1 == 1)
    }

    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ka, kb) = (self.konst(a), self.konst(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            let v = bin(op, w, x, y);
            return self.c(rw, v);
        }
        // canonicalise: constant on the right for commutative ops
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (mut ka, mut kb) = (ka, kb);
        if comm && (ka.is_some() || (kb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let m = mask(w);
        let na = self.n(a);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let (Some(k), Op::Add) = (kb, na.op) {
                    if let Some(k2) = self.konst(na.b) {
                        let kk = self.c(w, k.wrapping_add(k2));
                        return self.bin(Op::Add, na.a, kk);
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(k) = kb {
                    let kk = self.c(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    // and with low mask of zext: narrow when possible
                    if na.op == Op::And {
                        if let Some(k2) = self.konst(na.b) {
                            let kk = self.c(w, k & k2);
                            return self.bin(Op::And, na.a, kk);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k & mask(iw) == mask(iw) {
                            return a;
                        }
                        let kk = self.c(iw, k);
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                    // low mask = zext(extract)
                    let t = (k + 1).trailing_zeros() as u16;
                    if w < 128 && k.wrapping_add(1).is_power_of_two() && t < w {
                        let x = self.extract(a, 0, t);
                        return self.zext(x, w);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                // (zext x) | (y << k)  with x narrower than k : concat
                if let Some(r) = self.or_concat(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(w, 0);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.konst(na.b) {
                            let kk = self.c(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if w == 1 && k == 1 {
                        // not of comparison
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Shl => {
                if kb == Some(0) || ka == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let lo = self.extract(a, 0, w - k);
                    let z = self.c(k, 0);
                    return self.concat(lo, z);
                }
            }
            Op::LShr => {
                if kb == Some(0) || ka == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.c(w, 0);
                    }
                    let k = k as u16;
                    let hi = self.extract(a, k, w - k);
                    return self.zext(hi, w);
                }
            }
            Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.c(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.c(1, 0);
                            }
                            let kk = self.c(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let low = k & mask(iw);
                            if sext(low, iw) as u128 & m != k {
                                return self.c(1, 0);
                            }
                            let kk = self.c(iw, low);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = w - lw;
                            let hk = self.c(hw, k >> lw);
                            let lk = self.c(lw, k);
                            let h = self.bin(Op::Eq, na.a, hk);
                            let l = self.bin(Op::Eq, na.b, lk);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Xor => {
                            if let Some(k2) = self.konst(na.b) {
                                let kk = self.c(w, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Add => {
                            if let Some(k2) = self.konst(na.b) {
                                let kk = self.c(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Ite => {
                            let (t, f) = (self.konst(na.b), self.konst(na.c));
                            if t.is_some() || f.is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n(b);
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) {
                    return self.c(1, 0);
                }
                if ka == Some(m) {
                    return self.c(1, 0);
                }
                if kb == Some(1) {
                    let z = self.c(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(k) = kb {
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) {
                            return self.c(1, 1);
                        }
                        let kk = self.c(iw, k);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() {
                        let x = self.bin(Op::Ult, na.b, b);
                        let y = self.bin(Op::Ult, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(k) = ka {
                    let nb = self.n(b);
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k >= mask(iw) {
                            return self.c(1, 0);
                        }
                        let kk = self.c(iw, k);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ult, na.a, nb.a);
                }
            }
            Op::Ule => {
                if a == b || ka == Some(0) || kb == Some(m) {
                    return self.c(1, 1);
                }
                // canonicalise constants to Ult
                if let Some(k) = kb {
                    let kk = self.c(w, k + 1);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ka {
                    let kk = self.c(w, k - 1);
                    return self.bin(Op::Ult, kk, b);
                }
                let nb = self.n(b);
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Ule, na.a, nb.a);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.c(1, 0);
                }
                if let Some(k) = kb {
                    if na.op == Op::ZExt {
                        if k >> (w - 1) & 1 == 1 {
                            return self.c(1, 0);
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                    if na.op == Op::Ite && self.konst(na.b).is_some() && self.konst(na.c).is_some() {
                        let x = self.bin(Op::Slt, na.b, b);
                        let y = self.bin(Op::Slt, na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                if let Some(k) = ka {
                    if self.n(b).op == Op::ZExt {
                        if k >> (w - 1) & 1 == 1 {
                            return self.c(1, 1);
                        }
                        return self.bin(Op::Ult, a, b);
                    }
                }
            }
            Op::Sle => {
                if a == b {
                    return self.c(1, 1);
                }
                if let Some(k) = kb {
                    if na.op == Op::ZExt {
                        if k >> (w - 1) & 1 == 1 {
                            return self.c(1, 0);
                        }
                        return self.bin(Op::Ule, a, b);
                    }
                }
                if let Some(k) = ka {
                    if self.n(b).op == Op::ZExt {
                        if k >> (w - 1) & 1 == 1 {
                            return self.c(1, 1);
                        }
                        return self.bin(Op::Ule, a, b);
                    }
                }
            }
            _ => {}
        }
        // operations on ite with constant branches and a constant operand
        if kb.is_some() && na.op == Op::Ite && matches!(op, Op::Add | Op::And | Op::Or | Op::Xor) {
            if self.konst(na.b).is_some() && self.konst(na.c).is_some() {
                let x = self.bin(op, na.b, b);
                let y = self.bin(op, na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        self.push(Node { op, w: rw, a, b, c: 0, k: 0 })
    }

    /// Bits of `e` that may be nonzero.
    pub fn may(&self, e: E, depth: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => {
                if depth == 0 {
                    mask(self.w(n.a))
                } else {
                    self.may(n.a, depth - 1)
                }
            }
            Op::Concat if depth > 0 => {
                (self.may(n.a, depth - 1) << self.w(n.b)) | self.may(n.b, depth - 1)
            }
            _ => m,
        }
    }

    fn or_concat(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (ma, mb) = (self.may(a, 4), self.may(b, 4));
        if ma & mb != 0 || ma == 0 || mb == 0 {
            return None;
        }
        // find split so that one owns all high bits, the other all low bits
        let (hi, lo, ml) = if ma > mb { (a, b, mb) } else { (b, a, ma) };
        let mh = if ma > mb { ma } else { mb };
        let split = mh.trailing_zeros() as u16;
        if 128 - ml.leading_zeros() as u16 <= split && split > 0 {
            let h = self.extract(hi, split, w - split);
            let l = self.extract(lo, 0, split);
            return Some(self.concat(h, l));
        }
        None
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        debug_assert_eq!(self.w(c), 1);
        if let Some(k) = self.konst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.konst(a), self.konst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        // normalise negated conditions
        let nc = self.n(c);
        if nc.op == Op::Xor && self.konst(nc.b) == Some(1) {
            return self.ite(nc.a, b, a);
        }
        self.push(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => self.c(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.konst(n.b).is_some() && self.konst(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            Op::Concat if self.konst(n.a) == Some(0) => self.zext(n.b, w),
            _ => self.push(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(w, sext(n.k, n.w) as u128),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            Op::Ite if self.konst(n.b).is_some() && self.konst(n.c).is_some() => {
                let x = self.sext(n.b, w);
                let y = self.sext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.push(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.c(w, n.k >> lo),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - lw);
                let l = self.extract(n.b, lo, lw - lo);
                return self.concat(h, l);
            }
            Op::Ite if self.konst(n.b).is_some() || self.konst(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::And | Op::Or | Op::Xor if self.konst(n.b).is_some() => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && self.konst(n.b).is_some() => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.push(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (h, l) = (self.n(hi), self.n(lo));
        let w = h.w + l.w;
        if let (Op::Const, Op::Const) = (h.op, l.op) {
            return self.c(w, (h.k << l.w) | l.k);
        }
        if h.op == Op::Const && h.k == 0 {
            return self.zext(lo, w);
        }
        // adjacent extracts
        if h.op == Op::Extract {
            let hl = h.k as u16;
            if l.op == Op::Extract && l.a == h.a && l.k as u16 + l.w == hl {
                return self.extract(h.a, l.k as u16, w);
            }
            if l.op == Op::Concat {
                let lh = self.n(l.a);
                if lh.op == Op::Extract && lh.a == h.a && lh.k as u16 + lh.w == hl {
                    let top = self.extract(h.a, lh.k as u16, lh.w + h.w);
                    return self.concat(top, l.b);
                }
            }
            // hi is the top part of an expression whose low part is `lo` itself
        }
        if h.op == Op::Concat {
            // right-associate
            let inner = self.concat(h.b, lo);
            return self.concat(h.a, inner);
        }
        if h.op == Op::ZExt {
            // zext(x) ++ lo = zext(x ++ lo)
            let x = self.concat(h.a, lo);
            return self.zext(x, w);
        }
        self.push(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.cur += 1;
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, model: &[u128]) -> u128 {
        let i = e as usize;
        let n = self.nodes[i];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if self.stamp[i] == self.cur {
            return self.memo[i];
        }
        let v = match n.op {
            Op::Ite => {
                if self.ev(n.a, model) == 1 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Op::ZExt => self.ev(n.a, model),
            Op::SExt => {
                let iw = self.w(n.a);
                sext(self.ev(n.a, model), iw) as u128 & mask(n.w)
            }
            Op::Extract => (self.ev(n.a, model) >> n.k as u32) & mask(n.w),
            Op::Concat => {
                let lw = self.w(n.b);
                (self.ev(n.a, model) << lw) | self.ev(n.b, model)
            }
            _ => {
                let w = self.w(n.a);
                let x = self.ev(n.a, model);
                let y = self.ev(n.b, model);
                bin(n.op, w, x, y)
            }
        };
        self.stamp[i] = self.cur;
        self.memo[i] = v;
        v
    }

    pub fn show(&self, e: E) -> String {
        self.show_d(e, 6)
    }
    fn show_d(&self, e: E, d: u32) -> String {
        if d == 0 {
            return "..".into();
        }
        let n = self.n(e);
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}", n.k),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show_d(n.a, d - 1),
                self.show_d(n.b, d - 1),
                self.show_d(n.c, d - 1)
            ),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show_d(n.a, d - 1)),
            Op::Extract => format!("{}[{}+{}]", self.show_d(n.a, d - 1), n.k, n.w),
            _ => format!("{:?}({},{})", n.op, self.show_d(n.a, d - 1), self.show_d(n.b, d - 1)),
        }
    }
}

/// Differential self-test of the simplifier against the concrete semantics.
pub fn selftest(seed: u64, rounds: u32) -> Result<u64, String> {
    let mut s = seed | 1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut checked = 0u64;
    for _ in 0..rounds {
        let mut ar = Arena::new();
        let model: Vec<u128> = (0..3).map(|_| match rnd() % 3 { 0 => (rnd() % 4) as u128, 1 => rnd() as u128, _ => ((rnd() as u128) << 64) | rnd() as u128 }).collect();
        // pool of (expr, value)
        let mut pool: Vec<(E, u128)> = vec![];
        for i in 0..3 {
            let w = [1u16, 8, 32, 64][(rnd() % 4) as usize];
            let e = ar.var(w, i);
            pool.push((e, model[i] & mask(w)));
            let k = match rnd() % 3 { 0 => 0u128, 1 => rnd() as u128 % 9, _ => rnd() as u128 };
            let e = ar.c(w, k);
            pool.push((e, k & mask(w)));
        }
        for _ in 0..40 {
            let (a, va) = pool[(rnd() % pool.len() as u64) as usize];
            let (mut b, mut vb) = pool[(rnd() % pool.len() as u64) as usize];
            let w = ar.w(a);
            let (r, v) = match rnd() % 8 {
                0..=3 => {
                    if ar.w(b) > w {
                        b = ar.extract(b, 0, w);
                        vb &= mask(w);
                    } else if ar.w(b) < w {
                        b = ar.zext(b, w);
                    }
                    let ops = [Op::Add, Op::Sub, Op::Mul, Op::UDiv, Op::SDiv, Op::URem, Op::SRem, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::Eq, Op::Ult, Op::Ule, Op::Slt, Op::Sle];
                    let op = ops[(rnd() % ops.len() as u64) as usize];
                    (ar.bin(op, a, b), bin(op, w, va, vb))
                }
                4 => {
                    if w == 128 { continue; }
                    let nw = w + 1 + (rnd() % (128 - w) as u64) as u16;
                    if rnd() % 2 == 0 { (ar.zext(a, nw), va) } else { (ar.sext(a, nw), sext(va, w) as u128 & mask(nw)) }
                }
                5 => {
                    let lo = (rnd() % w as u64) as u16;
                    let nw = 1 + (rnd() % (w - lo) as u64) as u16;
                    (ar.extract(a, lo, nw), (va >> lo) & mask(nw))
                }
                6 => {
                    if w + ar.w(b) > 128 { continue; }
                    let lw = ar.w(b);
                    (ar.concat(a, b), (va << lw) | vb)
                }
                _ => {
                    let (c, vc) = pool[(rnd() % pool.len() as u64) as usize];
                    let c1 = ar.extract(c, 0, 1);
                    if ar.w(b) != w { continue; }
                    (ar.ite(c1, a, b), if vc & 1 == 1 { va } else { vb })
                }
            };
            let got = ar.eval(r, &model);
            checked += 1;
            if got != v {
                return Err(format!("simplifier mismatch: {} = {:x}, want {:x}; model {:x?}", ar.show(r), got, v, model));
            }
            pool.push((r, v));
        }
    }
    Ok(checked)
}
