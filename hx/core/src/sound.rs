//! Typed grammars against the languages they denote.
use crate::ast::*;
use chomp::chomp::name::Name;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::{Alt, Cat, Epsilon, Fix, Literal, Type, TypeInfer, Typed, Variable};
use chomp::chomp::visit::Visitable;
use proc_macro2::Span;
use sym::*;

/// The language of a term, restricted to the substrings of one word: bit i*8+j stands for w[i..j].
type M = u64;
fn bit(i: usize, j: usize) -> M {
    1 << (i * 8 + j)
}
fn diag(n: usize) -> M {
    (0..=n).fold(0, |m, i| m | bit(i, i))
}

/// Denotation; `unique` additionally requires that no substring has two derivations.
fn lang(t: &T, w: &[char], env: &mut Vec<M>, unique: bool) -> M {
    let n = w.len();
    match t {
        T::Eps => diag(n),
        T::Lit(s) => {
            let mut m = 0;
            for i in 0..=n {
                if i + s.len() <= n && w[i..i + s.len()] == s[..] {
                    m |= bit(i, i + s.len());
                }
            }
            m
        }
        T::Var(i) => env[env.len() - 1 - i],
        T::Alt(v) => {
            let mut m = 0;
            for e in v {
                let l = lang(e, w, env, unique);
                if unique {
                    check(m & l == 0, "no word is matched by two branches of a typed alternative");
                }
                m |= l;
            }
            m
        }
        T::Cat(v) => {
            let mut m = diag(n);
            for e in v {
                let l = lang(e, w, env, unique);
                let mut r = 0;
                for i in 0..=n {
                    for j in i..=n {
                        if m & bit(i, j) != 0 {
                            for k in j..=n {
                                if l & bit(j, k) != 0 {
                                    if unique {
                                        check(r & bit(i, k) == 0, "no word is split in two ways by a typed concatenation");
                                    }
                                    r |= bit(i, k);
                                }
                            }
                        }
                    }
                }
                m = r;
            }
            m
        }
        T::Fix(_, b) => {
            let mut m = 0;
            loop {
                env.push(m);
                let r = lang(b, w, env, false);
                env.pop();
                if r == m {
                    break;
                }
                m = r;
            }
            if unique {
                env.push(m);
                lang(b, w, env, true);
                env.pop();
            }
            m
        }
        _ => unreachable!(),
    }
}

/// A predictive parser read off the typed tree, through the backend interface.
#[derive(Debug)]
enum Node {
    Eps,
    Lit(Vec<char>),
    Cat(Vec<usize>),
    Alt(Vec<(usize, Vec<char>, bool)>),
    Fix(usize),
    Var(usize),
}
#[derive(Debug, Default)]
struct Interp {
    nodes: Vec<Node>,
    ctx: Vec<usize>,
}
impl Interp {
    fn push(&mut self, n: Node) -> usize {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    /// `None`: the parser reports an error.
    fn take(&self, id: usize, w: &[char], mut at: usize) -> Option<usize> {
        match &self.nodes[id] {
            Node::Eps => Some(at),
            Node::Lit(s) => {
                for c in s {
                    if at < w.len() && w[at] == *c {
                        at += 1;
                    } else {
                        return None;
                    }
                }
                Some(at)
            }
            Node::Cat(v) => {
                for e in v {
                    at = self.take(*e, w, at)?;
                }
                Some(at)
            }
            Node::Alt(v) => {
                let mut null = None;
                for (e, first, nullable) in v {
                    if at < w.len() && first.iter().any(|c| *c == w[at]) {
                        return self.take(*e, w, at);
                    }
                    if *nullable {
                        null = Some(*e);
                    }
                }
                self.take(null?, w, at)
            }
            Node::Fix(e) | Node::Var(e) => self.take(*e, w, at),
        }
    }
}
fn firsts(t: &Type) -> Vec<char> {
    t.first_set().clone().into_iter().collect()
}
impl Backend for Interp {
    type Id = usize;
    type Code = ();
    fn gen_epsilon(&mut self, _: Option<Name>, _: Span, _: Epsilon) -> usize {
        self.push(Node::Eps)
    }
    fn gen_literal(&mut self, _: Option<Name>, _: Span, lit: Literal) -> usize {
        self.push(Node::Lit(lit.inner().chars().collect()))
    }
    fn gen_cat(&mut self, _: Option<Name>, _: Span, cat: Cat) -> usize {
        let v = cat.into_iter().map(|e| e.gen(self)).collect();
        self.push(Node::Cat(v))
    }
    fn gen_alt(&mut self, _: Option<Name>, _: Span, alt: Alt) -> usize {
        let v = alt
            .into_iter()
            .map(|e| {
                let ty = e.get_type().clone();
                (e.gen(self), firsts(&ty), ty.nullable())
            })
            .collect();
        self.push(Node::Alt(v))
    }
    fn gen_fix(&mut self, _: Option<Name>, _: Span, fix: Fix) -> usize {
        let id = self.push(Node::Eps);
        self.ctx.push(id);
        let e = fix.unwrap().gen(self);
        self.ctx.pop();
        self.nodes[id] = Node::Fix(e);
        id
    }
    fn gen_variable(&mut self, _: Option<Name>, _: Span, var: Variable) -> usize {
        let f = self.ctx[self.ctx.len() - 1 - var.index()];
        self.push(Node::Var(f))
    }
    fn emit_code(self, _: Option<Name>, _: Span, _: usize) {}
}

fn sound(t: &T, letters: u8, max: usize) {
    let typed = match build(t).fold(&mut TypeInfer { context: &mut Context::default() }) {
        Ok(e) => e,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let ty = typed.get_type().clone();
    let n = choose(max + 1);
    let w: Vec<char> = (0..n).map(|_| (b'a' + below(letters)) as char).collect();
    let l = lang(t, &w, &mut vec![], true);
    check(ty.nullable() == (l & bit(0, 0) != 0), "nullable exactly if the empty word is in the language");
    let (first, flast) = (firsts(&ty), ty.flast_set().clone().into_iter().collect::<Vec<_>>());
    let member = l & bit(0, n) != 0;
    for i in 1..=n {
        if l & bit(0, i) != 0 {
            check(first.iter().any(|c| *c == w[0]), "the first set holds the first character of every word");
            for j in i + 1..=n {
                if l & bit(0, j) != 0 {
                    cover(3);
                    check(flast.iter().any(|c| *c == w[i]), "the flast set holds every character that can extend a word");
                }
            }
        }
    }
    let mut b = Interp::default();
    let id = typed.gen(&mut b);
    let end = b.take(id, &w, 0);
    check((end == Some(n)) == member, "the predictive parser accepts exactly the language");
    if member {
        cover(if n > 0 { 1 } else { 2 });
    }
    observe(member as u64);
    observe(end.map_or(99, |x| x as u64));
}

fn cfg(lit: usize, ternary: bool, chars: u8) -> Cfg {
    Cfg { lit, empty: false, ternary, free: false, fun: false, chars }
}
#[no_mangle]
pub extern "C" fn h_sound_small() {
    let n = 1 + choose(5);
    sound(&term(cfg(2, true, 2), n, 0), 2, 3);
}
#[no_mangle]
pub extern "C" fn h_sound6() {
    sound(&term(cfg(1, true, 3), 6, 0), 3, 3);
}
#[no_mangle]
pub extern "C" fn h_sound7() {
    sound(&term(cfg(1, false, 3), 7, 0), 3, 4);
}
#[no_mangle]
pub extern "C" fn h_sound8() {
    sound(&term(cfg(1, false, 3), 8, 0), 3, 4);
}
#[no_mangle]
pub extern "C" fn h_sound9() {
    sound(&term(cfg(1, false, 3), 9, 0), 3, 4);
}
#[no_mangle]
pub extern "C" fn h_sound_chain() {
    let n = 2 + choose(2);
    sound(&chain(n, 4, 3), 3, 4);
}
#[no_mangle]
pub extern "C" fn h_sound_branches() {
    sound(&branches(2, 3), 3, 4);
}
/// A choice of four, or a sequence of `a`, `c`, `c`, `b`, with two parts replaced by leaves.
#[no_mangle]
pub extern "C" fn h_sound_wide() {
    fn same(t: T) -> T {
        match t {
            T::Cat(v) if v.len() > 2 => T::Cat(v.into_iter().map(|e| if e == T::Lit(vec!['d']) || e == T::Lit(vec!['e']) { T::Lit(vec!['c']) } else { e }).collect()),
            T::Fix(n, b) => T::Fix(n, Box::new(same(*b))),
            T::Cat(v) => T::Cat(v.into_iter().map(same).collect()),
            T::Alt(v) => T::Alt(v.into_iter().map(same).collect()),
            t => t,
        }
    }
    let t = same(wide(cfg(1, false, 3), 4, 1, 0));
    sound(&t, 3, 4);
}

/// Recursion behind a letter, once or twice.
#[no_mangle]
pub extern "C" fn h_sound_rec() {
    let n = 1 + choose(3);
    sound(&rec(cfg(1, false, 2), n), 2, 5);
}
