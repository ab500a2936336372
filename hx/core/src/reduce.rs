//! Reduction (call by name, capture avoiding) against an environment machine.
use crate::ast::*;
use chomp::chomp::ast::error::ReductionError;
use chomp::chomp::ast::substitute::{Reduce, Substitute};
use chomp::chomp::ast::{Expression, NamedExpression};
use chomp::chomp::visit::Visitable;
use std::rc::Rc;
use sym::*;

/// Translates the crate's AST back.
pub fn back(e: &NamedExpression) -> T {
    match &e.expr {
        Expression::Epsilon(_) => T::Eps,
        Expression::Literal(s) => T::Lit(s.chars().collect()),
        Expression::Cat(c) => T::Cat(std::iter::once(back(&c.first)).chain(c.rest.iter().map(|(_, e)| back(e))).collect()),
        Expression::Alt(c) => T::Alt(std::iter::once(back(&c.first)).chain(c.rest.iter().map(|(_, e)| back(e))).collect()),
        Expression::Fix(f) => match back(&f.inner) {
            T::Lam(n, b) => T::Fix(n, b),
            b => T::BadFix(Box::new(b)),
        },
        Expression::Variable(v) => T::Var(v.index),
        Expression::Call(c) => T::Call(Box::new(back(&c.on)), c.args.iter().map(back).collect()),
        Expression::Lambda(l) => T::Lam(l.args.len(), Box::new(back(&l.inner))),
        Expression::Let(l) => T::Let(Box::new(back(&l.bound)), Box::new(back(&l.body))),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    NotAFunction,
    ArgCount,
}

/// What a variable stands for.
#[derive(Clone)]
enum Slot<'a> {
    /// A binder that stays; the number is its level.
    Rigid(isize),
    Thunk(&'a T, Env<'a>),
}
type Env<'a> = Option<Rc<Cell<'a>>>;
struct Cell<'a> {
    slot: Slot<'a>,
    next: Env<'a>,
}
fn push<'a>(env: &Env<'a>, slot: Slot<'a>) -> Env<'a> {
    Some(Rc::new(Cell { slot, next: env.clone() }))
}
/// The value of variable `i`; free variables get negative levels.
fn get<'a>(env: &Env<'a>, i: usize) -> Slot<'a> {
    let mut e = env;
    let mut i = i;
    loop {
        match e {
            None => return Slot::Rigid(-1 - i as isize),
            Some(c) if i == 0 => return c.slot.clone(),
            Some(c) => {
                i -= 1;
                e = &c.next;
            }
        }
    }
}

enum V<'a> {
    Lam(usize, &'a T, Env<'a>),
    /// A term in normal form, with levels turned into indices for the current depth.
    T(T),
}

fn index(level: isize, depth: usize) -> usize {
    (depth as isize - 1 - level) as usize
}

struct Machine {
    fuel: usize,
}
impl Machine {
    fn tick(&mut self) {
        // Terms whose reduction is longer than this are outside the bounds.
        assume(self.fuel > 0);
        self.fuel -= 1;
    }
    /// Reduces; `depth` rigid binders are in force.
    fn eval<'a>(&mut self, t: &'a T, env: &Env<'a>, depth: usize) -> Result<V<'a>, Bad> {
        self.tick();
        Ok(match t {
            T::Eps | T::Lit(_) => V::T(t.clone()),
            T::Cat(v) => V::T(T::Cat(v.iter().map(|e| self.norm(e, env, depth)).collect::<Result<_, _>>()?)),
            T::Alt(v) => V::T(T::Alt(v.iter().map(|e| self.norm(e, env, depth)).collect::<Result<_, _>>()?)),
            T::Fix(n, b) => {
                let mut e = env.clone();
                for k in (0..*n).rev() {
                    e = push(&e, Slot::Rigid((depth + (n - 1 - k)) as isize));
                }
                V::T(T::Fix(*n, Box::new(self.norm(b, &e, depth + n)?)))
            }
            T::BadFix(b) => match self.eval(b, env, depth)? {
                V::Lam(n, body, env) => {
                    let mut e = env.clone();
                    for k in 0..n {
                        e = push(&e, Slot::Rigid((depth + k) as isize));
                    }
                    V::T(T::Fix(n, Box::new(self.norm(body, &e, depth + n)?)))
                }
                V::T(t) => V::T(T::BadFix(Box::new(t))),
            },
            T::Var(i) => match get(env, *i) {
                Slot::Rigid(l) => V::T(T::Var(index(l, depth))),
                Slot::Thunk(t, e) => return self.eval(t, &e, depth),
            },
            T::Call(f, a) => match self.eval(f, env, depth)? {
                V::Lam(n, body, fenv) => {
                    if n != a.len() {
                        return Err(Bad::ArgCount);
                    }
                    let mut e = fenv;
                    for x in a.iter() {
                        e = push(&e, Slot::Thunk(x, env.clone()));
                    }
                    return self.eval(body, &e, depth);
                }
                V::T(_) => return Err(Bad::NotAFunction),
            },
            T::Lam(n, b) => V::Lam(*n, b, env.clone()),
            T::Let(b, e) => {
                let env = push(env, Slot::Thunk(b, env.clone()));
                return self.eval(e, &env, depth);
            }
        })
    }
    fn norm<'a>(&mut self, t: &'a T, env: &Env<'a>, depth: usize) -> Result<T, Bad> {
        let v = self.eval(t, env, depth)?;
        Ok(self.quote(v, depth))
    }
    fn quote(&mut self, v: V<'_>, depth: usize) -> T {
        match v {
            V::T(t) => t,
            V::Lam(n, b, env) => {
                let mut e = env;
                for k in 0..n {
                    e = push(&e, Slot::Rigid((depth + k) as isize));
                }
                T::Lam(n, Box::new(self.subst(b, &e, depth + n)))
            }
        }
    }
    /// Closes an unapplied function body over its environment without reducing it.
    fn subst<'a>(&mut self, t: &'a T, env: &Env<'a>, depth: usize) -> T {
        self.tick();
        let under = |env: &Env<'a>, n: usize| {
            let mut e = env.clone();
            for k in 0..n {
                e = push(&e, Slot::Rigid((depth + k) as isize));
            }
            e
        };
        match t {
            T::Eps | T::Lit(_) => t.clone(),
            T::Cat(v) => T::Cat(v.iter().map(|e| self.subst(e, env, depth)).collect()),
            T::Alt(v) => T::Alt(v.iter().map(|e| self.subst(e, env, depth)).collect()),
            T::Fix(n, b) => T::Fix(*n, Box::new(self.subst(b, &under(env, *n), depth + n))),
            T::BadFix(b) => match self.subst(b, env, depth) {
                T::Lam(n, b) => T::Fix(n, b),
                b => T::BadFix(Box::new(b)),
            },
            T::Var(i) => match get(env, *i) {
                Slot::Rigid(l) => T::Var(index(l, depth)),
                Slot::Thunk(t, e) => self.subst(t, &e, depth),
            },
            T::Call(f, a) => T::Call(Box::new(self.subst(f, env, depth)), a.iter().map(|e| self.subst(e, env, depth)).collect()),
            T::Lam(n, b) => T::Lam(*n, Box::new(self.subst(b, &under(env, *n), depth + n))),
            T::Let(b, e) => T::Let(Box::new(self.subst(b, env, depth)), Box::new(self.subst(e, &under(env, 1), depth + 1))),
        }
    }
}

fn size(t: &T) -> usize {
    1 + match t {
        T::Eps | T::Lit(_) | T::Var(_) => 0,
        T::Cat(v) | T::Alt(v) => v.iter().map(size).sum(),
        T::Fix(_, b) | T::BadFix(b) | T::Lam(_, b) => size(b),
        T::Call(f, a) => size(f) + a.iter().map(size).sum::<usize>(),
        T::Let(a, b) => size(a) + size(b),
    }
}

fn compare(t: &T) {
    let want = Machine { fuel: 400 }.norm(t, &None, 0);
    let got = build(t).fold(&mut Reduce);
    match (got, want) {
        (Ok(g), Ok(w)) => {
            let g = back(&g);
            observe(size(&g) as u64);
            cover(1);
            check(g == w, "reduction gives the normal form");
        }
        (Err(e), Err(w)) => {
            let k = match e {
                ReductionError::CallNotAFunction { .. } => Bad::NotAFunction,
                ReductionError::WrongArgCount { .. } => Bad::ArgCount,
            };
            cover(2 + (w == Bad::ArgCount) as u64);
            check(k == w, "the reason of the failure");
        }
        (Ok(_), Err(_)) => check(false, "a stuck term is reported"),
        (Err(_), Ok(_)) => check(false, "a term with a normal form reduces"),
    }
}

fn cfg(free: bool) -> Cfg {
    Cfg { lit: 1, empty: false, ternary: false, free, fun: true, chars: 3 }
}
#[no_mangle]
pub extern "C" fn h_reduce4() {
    let n = 1 + choose(4);
    compare(&term(cfg(true), n, 0));
}
#[no_mangle]
pub extern "C" fn h_reduce5() {
    compare(&term(cfg(true), 5, 0));
}
#[no_mangle]
pub extern "C" fn h_reduce6() {
    compare(&term(cfg(true), 6, 0));
}
#[no_mangle]
pub extern "C" fn h_reduce7() {
    compare(&term(Cfg { lit: 1, ..cfg(false) }, 7, 0));
}
#[no_mangle]
pub extern "C" fn h_reduce8() {
    compare(&term(Cfg { lit: 0, ..cfg(false) }, 8, 0));
}

/// Substitution for one variable, of an arbitrary term into an arbitrary term.
#[no_mangle]
pub extern "C" fn h_subst() {
    let c = cfg(true);
    let (n, m) = (1 + choose(4), 1 + choose(3));
    let t = term(c, n, 1);
    let s = term(c, m, 1);
    let i = choose(2);
    let got = back(&build(&t).fold(&mut Substitute { index: i, expr: build(&s) }));
    // Reference: variable i becomes s; higher free variables move down.
    let env: Env<'_> = if i == 0 {
        push(&None, Slot::Thunk(&s, None))
    } else {
        push(&push(&None, Slot::Thunk(&s, None)), Slot::Rigid(-1))
    };
    let want = Machine { fuel: 1000 }.subst(&t, &env, 0);
    // Index 0 of a substitution at 1 stays index 0, which is the free variable 0.
    cover(1 + i as u64);
    observe(size(&got) as u64);
    check(got == want, "substitution replaces exactly the variable, without capture");
}

/// Functions of three and four parameters: `(/x, y, z/ body) a b c`, under binders and with free variables,
/// whose body uses any parameters and what surrounds it.
#[no_mangle]
pub extern "C" fn h_reduce_args() {
    let c = cfg(true);
    let n = 3 + choose(2);
    let body = {
        let m = 1 + choose(if n == 3 { 3 } else { 2 });
        term(c, m, n + 1)
    };
    let at = choose(n);
    let args = (0..n).map(|i| if i == at { small(c, 2, 1) } else { T::Lit(vec![(b'p' + i as u8) as char]) }).collect();
    let call = T::Call(Box::new(T::Lam(n, Box::new(body))), args);
    let t = match choose(3) {
        0 => T::Fix(1, Box::new(call)),
        1 => T::Let(Box::new(small(c, 1, 0)), Box::new(call)),
        _ => T::Lam(1, Box::new(call)),
    };
    compare(&t);
}
/// Wide sequences, choices and calls.
#[no_mangle]
pub extern "C" fn h_reduce_wide() {
    let parts = 4 + choose(3);
    compare(&wide(Cfg { lit: 0, ..cfg(true) }, parts, 2, 0));
}
/// Chains of bindings, each of which uses those before.
#[no_mangle]
pub extern "C" fn h_reduce_chain() {
    fn chain(c: Cfg, left: usize, scope: usize) -> T {
        if left == 0 {
            return small(c, 2, scope);
        }
        let b = small(c, 2, scope);
        T::Let(Box::new(b), Box::new(chain(c, left - 1, scope + 1)))
    }
    compare(&chain(Cfg { lit: 0, ..cfg(false) }, 3, 0));
}
/// Many parameters, bindings and functions.
#[no_mangle]
pub extern "C" fn h_reduce_many() {
    compare(&crate::ast::long(&[5, 6, 8, 9, 12, 16, 17]));
}
