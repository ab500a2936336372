//! The names that parts of a grammar carry after its functions and bindings are expanded.
use crate::ast::{ne, small, Cfg, T};
use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::ast::*;
use chomp::chomp::name::Name;
use chomp::chomp::visit::Visitable;
use proc_macro2::Span;
use std::rc::Rc;
use sym::*;

/// A name: 2 for labels, 1 for bindings, 0 for variables and parameters; and a number.
type Nm = (u8, u8);
fn name((kind, n): Nm) -> Name {
    let s = format!("n{n}");
    match kind {
        2 => Name::new_label(s),
        1 => Name::new_let(s),
        _ => Name::new_variable(s),
    }
}

/// A term with names.
#[derive(Clone, Debug)]
struct N {
    name: Option<Nm>,
    kind: K,
}
#[derive(Clone, Debug)]
enum K {
    Eps,
    Lit(char),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Fix(Box<N>),
    Lam(Vec<Nm>, Box<N>),
    Var(usize),
    Call(Box<N>, Vec<N>),
    Let(Nm, Box<N>, Box<N>),
}

/// Names a term: parameters, bindings and uses as they are written, and labels where chosen.
struct Namer {
    next: u8,
    labels: usize,
}
impl Namer {
    fn fresh(&mut self, kind: u8) -> Nm {
        self.next += 1;
        (kind, self.next)
    }
    fn go(&mut self, t: &T, scope: &mut Vec<Nm>) -> N {
        let label = self.labels > 0 && choose(2) == 1;
        let label = if label {
            self.labels -= 1;
            Some(self.fresh(2))
        } else {
            None
        };
        let mut own = None;
        let kind = match t {
            T::Eps => K::Eps,
            T::Lit(s) => K::Lit(s[0]),
            T::Cat(v) => K::Cat(v.iter().map(|e| self.go(e, scope)).collect()),
            T::Alt(v) => K::Alt(v.iter().map(|e| self.go(e, scope)).collect()),
            T::Fix(n, b) => K::Fix(Box::new(self.lam(*n, b, scope))),
            T::BadFix(b) => K::Fix(Box::new(self.go(b, scope))),
            T::Var(i) => {
                own = Some((0, scope[scope.len() - 1 - i].1));
                K::Var(*i)
            }
            T::Call(f, a) => K::Call(Box::new(self.go(f, scope)), a.iter().map(|e| self.go(e, scope)).collect()),
            T::Lam(n, b) => self.lam(*n, b, scope).kind,
            T::Let(b, e) => {
                let x = self.fresh(1);
                let mut b = self.go(b, scope);
                // As the front ends do.
                b.name = Some(x);
                scope.push(x);
                let e = self.go(e, scope);
                scope.pop();
                K::Let(x, Box::new(b), Box::new(e))
            }
        };
        N { name: label.or(own), kind }
    }
    fn lam(&mut self, n: usize, b: &T, scope: &mut Vec<Nm>) -> N {
        let ps: Vec<Nm> = (0..n).map(|_| self.fresh(0)).collect();
        scope.extend(&ps);
        let b = self.go(b, scope);
        scope.truncate(scope.len() - n);
        N { name: None, kind: K::Lam(ps, Box::new(b)) }
    }
}

fn build(n: &N) -> NamedExpression {
    let many = |v: &[N]| -> (Box<NamedExpression>, Vec<(Span, NamedExpression)>) {
        let mut it = v.iter().map(build);
        (Box::new(it.next().unwrap()), it.map(|e| (Span::call_site(), e)).collect())
    };
    let mut e = match &n.kind {
        K::Eps => ne(Epsilon),
        K::Lit(c) => ne(c.to_string()),
        K::Cat(v) => {
            let (first, rest) = many(v);
            ne(Cat { first, rest })
        }
        K::Alt(v) => {
            let (first, rest) = many(v);
            ne(Alt { first, rest })
        }
        K::Fix(b) => ne(Fix { inner: Box::new(build(b)) }),
        K::Lam(ps, b) => ne(Lambda { args: ps.iter().map(|p| name(*p)).collect(), inner: Box::new(build(b)) }),
        K::Var(i) => ne(Variable { index: *i }),
        K::Call(f, a) => ne(Call { on: Box::new(build(f)), args: a.iter().map(build).collect() }),
        K::Let(x, b, e) => ne(Let { name: name(*x), bound: Box::new(build(b)), body: Box::new(build(e)) }),
    };
    e.name = n.name.map(name);
    e
}

#[derive(Clone)]
enum Slot<'a> {
    Rigid,
    /// An argument or a bound term, where it is from, and the parameter it is bound to.
    Thunk(&'a N, Env<'a>, Option<Nm>),
}
type Env<'a> = Option<Rc<Cell<'a>>>;
struct Cell<'a>(Slot<'a>, Env<'a>);
fn get<'a>(env: &Env<'a>, i: usize) -> Slot<'a> {
    let mut e = env.as_ref().unwrap();
    for _ in 0..i {
        e = e.1.as_ref().unwrap();
    }
    e.0.clone()
}
fn rigid<'a>(env: &Env<'a>, n: usize) -> Env<'a> {
    (0..n).fold(env.clone(), |e, _| Some(Rc::new(Cell(Slot::Rigid, e))))
}
fn carries(names: &[Nm], got: &NamedExpression) {
    let top = names.iter().map(|n| n.0).max();
    if let Some(top) = top {
        cover(10 + top as u64);
    }
    if names.len() > 1 {
        cover(3);
    }
    let ok = match &got.name {
        None => names.is_empty(),
        Some(g) => names.iter().any(|n| Some(n.0) == top && name(*n) == *g),
    };
    check(ok, "a part carries the most significant of its names");
}
struct Walk {
    fuel: usize,
}
/// What a term evaluates to: the names that met on the way, the term it ends at, and its variables.
type Val<'a> = (Vec<Nm>, &'a N, Env<'a>);
impl Walk {
    /// Evaluates a term up to its outermost constructor; nothing if it is stuck.
    fn eval<'a>(&mut self, n: &'a N, env: &Env<'a>) -> Option<Val<'a>> {
        assume(self.fuel > 0);
        self.fuel -= 1;
        let mut names: Vec<Nm> = n.name.into_iter().collect();
        match &n.kind {
            K::Var(i) => match get(env, *i) {
                Slot::Rigid => Some((names, n, env.clone())),
                Slot::Thunk(t, e, param) => {
                    let (more, n, env) = self.eval(t, &e)?;
                    names.extend(param);
                    names.extend(more);
                    Some((names, n, env))
                }
            },
            K::Call(f, a) => {
                let (more, f, fenv) = self.eval(f, env)?;
                names.extend(more);
                let K::Lam(ps, b) = &f.kind else { return None };
                if ps.len() != a.len() {
                    return None;
                }
                let inner = a.iter().zip(ps).fold(fenv, |e, (a, p)| Some(Rc::new(Cell(Slot::Thunk(a, env.clone(), Some(*p)), e))));
                let (more, n, env) = self.eval(b, &inner)?;
                names.extend(more);
                Some((names, n, env))
            }
            K::Let(_, b, e) => {
                let inner = Some(Rc::new(Cell(Slot::Thunk(b, env.clone(), None), env.clone())));
                let (more, n, env) = self.eval(e, &inner)?;
                names.extend(more);
                Some((names, n, env))
            }
            _ => Some((names, n, env.clone())),
        }
    }
    /// The expanded term carries one of the most significant names that met at each part.
    fn check<'a>(&mut self, n: &'a N, env: &Env<'a>, got: &NamedExpression) {
        let Some((names, n, env)) = self.eval(n, env) else { return check(false, "a stuck term is reported") };
        carries(&names, got);
        let (k, g) = (&n.kind, &got.expr);
        match (k, g) {
            (K::Cat(v), Expression::Cat(Cat { first, rest })) | (K::Alt(v), Expression::Alt(Alt { first, rest })) if v.len() == 1 + rest.len() => {
                for (n, g) in v.iter().zip(std::iter::once(&**first).chain(rest.iter().map(|r| &r.1))) {
                    self.check(n, &env, g);
                }
            }
            (K::Fix(b), Expression::Fix(f)) => {
                let Some((names, l, env)) = self.eval(b, &env) else { return check(false, "a stuck term is reported") };
                carries(&names, &f.inner);
                if let (K::Lam(ps, b), Expression::Lambda(g)) = (&l.kind, &f.inner.expr) {
                    check(g.args.len() == ps.len() && g.args.iter().zip(ps).all(|(g, p)| *g == name(*p)), "a function keeps the names of its parameters");
                    self.check(b, &rigid(&env, ps.len()), &g.inner);
                }
            }
            // Functions that are not called are not expanded.
            (K::Lam(..), Expression::Lambda(_)) => (),
            (K::Eps, Expression::Epsilon(_)) | (K::Lit(_), Expression::Literal(_)) | (K::Var(_), Expression::Variable(_)) => (),
            _ => check(false, "the expanded term has the shape of the term"),
        }
    }
}
fn kept(t: &T, labels: usize) {
    let n = Namer { next: 0, labels }.go(t, &mut vec![]);
    match build(&n).fold(&mut Reduce) {
        Err(_) => cover(9),
        Ok(g) => {
            cover(1);
            Walk { fuel: 400 }.check(&n, &None, &g);
        }
    }
    observe(n.name.map_or(0, |n| n.1 as u64));
}
fn cfg() -> Cfg {
    Cfg { lit: 1, empty: false, ternary: false, free: false, fun: true, chars: 1 }
}
#[no_mangle]
pub extern "C" fn h_labels4() {
    let n = 1 + choose(4);
    kept(&crate::code::fix_letters(crate::ast::term(cfg(), n, 0)), 4)
}
#[no_mangle]
pub extern "C" fn h_labels5() {
    kept(&crate::code::fix_letters(crate::ast::term(cfg(), 5, 0)), 2)
}
#[no_mangle]
pub extern "C" fn h_labels6() {
    kept(&crate::code::fix_letters(crate::ast::term(cfg(), 6, 0)), 1)
}
#[no_mangle]
pub extern "C" fn h_labels7() {
    kept(&crate::code::fix_letters(crate::ast::term(cfg(), 7, 0)), 0)
}
/// Functions of three and four parameters, called where they are written or by name.
#[no_mangle]
pub extern "C" fn h_labels_args() {
    let n = 3 + choose(2);
    let c = Cfg { lit: 0, ..cfg() };
    let bound = choose(2) == 1;
    let scope = n;
    let body = match choose(3) {
        0 => small(c, 1, scope),
        1 => T::Cat((0..n).map(|i| T::Var(n - 1 - i)).collect()),
        _ => T::Alt((0..n).map(|i| T::Var(i)).collect()),
    };
    let at = choose(n);
    let arg = |i: usize| if i == at { small(c, 2, bound as usize) } else { T::Lit(vec![(b'p' + i as u8) as char]) };
    let args = (0..n).map(arg).collect();
    let f = Box::new(T::Lam(n, Box::new(body)));
    let t = if bound { T::Let(f, Box::new(T::Call(Box::new(T::Var(0)), args))) } else { T::Call(f, args) };
    let around = choose(3);
    kept(
        &crate::code::fix_letters(match around {
            0 => t,
            1 => T::Cat(vec![T::Lit(vec!['a']), t]),
            _ => T::Alt(vec![t, T::Lit(vec!['a'])]),
        }),
        2,
    )
}
/// Wide sequences and choices.
#[no_mangle]
pub extern "C" fn h_labels_wide() {
    let parts = 4 + choose(3);
    kept(&crate::code::fix_letters(crate::ast::wide(Cfg { lit: 0, ..cfg() }, parts, 2, 0)), 1)
}
/// Chains of bindings, each of which uses those before.
#[no_mangle]
pub extern "C" fn h_labels_chain() {
    fn chain(c: Cfg, left: usize, scope: usize) -> T {
        if left == 0 {
            return small(c, 2, scope);
        }
        let b = small(c, 2, scope);
        T::Let(Box::new(b), Box::new(chain(c, left - 1, scope + 1)))
    }
    kept(&crate::code::fix_letters(chain(Cfg { lit: 0, ..cfg() }, 3, 0)), 1)
}
/// Many parameters, bindings, functions and parts.
#[no_mangle]
pub extern "C" fn h_labels_many() {
    let t = match choose(2) {
        0 => crate::ast::long(&[5, 8, 9, 12]),
        _ => crate::ast::many(&[8, 10, 17], 0),
    };
    kept(&crate::code::fix_letters(t), 0)
}
