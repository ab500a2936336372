//! Symbolic grammar terms, built both as the crate's AST and as the reference's own tree.
use chomp::chomp::ast::{Alt, Call, Cat, Epsilon, Expression, Fix, Lambda, Let, NamedExpression, Variable};
use chomp::chomp::name::Name;
use proc_macro2::Span;
use sym::*;

/// The reference's own term language.
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Eps,
    Lit(Vec<char>),
    Cat(Vec<T>),
    Alt(Vec<T>),
    /// Body of `!`, with the number of arguments of the lambda in it (usually 1).
    Fix(usize, Box<T>),
    /// A `!` whose body is not a lambda.
    BadFix(Box<T>),
    Var(usize),
    Call(Box<T>, Vec<T>),
    Lam(usize, Box<T>),
    Let(Box<T>, Box<T>),
}

pub fn ne(e: impl Into<Expression>) -> NamedExpression {
    NamedExpression { name: None, expr: e.into(), span: Span::call_site() }
}

pub fn arg(i: usize) -> Name {
    Name::new_variable(["x", "y", "z", "w"][i & 3].to_owned())
}

/// Translates a reference term into the crate's AST.
pub fn build(t: &T) -> NamedExpression {
    match t {
        T::Eps => ne(Epsilon),
        T::Lit(s) => ne(s.iter().collect::<String>()),
        T::Cat(v) => {
            let mut it = v.iter().map(build);
            ne(Cat { first: Box::new(it.next().unwrap()), rest: it.map(|e| (Span::call_site(), e)).collect() })
        }
        T::Alt(v) => {
            let mut it = v.iter().map(build);
            ne(Alt { first: Box::new(it.next().unwrap()), rest: it.map(|e| (Span::call_site(), e)).collect() })
        }
        T::Fix(n, b) => ne(Fix { inner: Box::new(ne(Lambda { args: (0..*n).map(arg).collect(), inner: Box::new(build(b)) })) }),
        T::BadFix(b) => ne(Fix { inner: Box::new(build(b)) }),
        T::Var(i) => ne(Variable { index: *i }),
        T::Call(f, a) => ne(Call { on: Box::new(build(f)), args: a.iter().map(build).collect() }),
        T::Lam(n, b) => ne(Lambda { args: (0..*n).map(arg).collect(), inner: Box::new(build(b)) }),
        T::Let(a, b) => ne(Let { name: Name::new_let("l".to_owned()), bound: Box::new(build(a)), body: Box::new(build(b)) }),
    }
}

/// What a symbolic term may be made of.
#[derive(Clone, Copy)]
pub struct Cfg {
    /// Longest literal.
    pub lit: usize,
    /// An empty literal is allowed.
    pub empty: bool,
    /// Terms with three parts are allowed.
    pub ternary: bool,
    /// Variables may be free (one above the scope).
    pub free: bool,
    /// Call, lambda and let are allowed.
    pub fun: bool,
    /// Literal characters are arbitrary (otherwise the letters a, b, ... in any assignment).
    pub chars: u8,
}

pub fn lit_char(c: Cfg) -> char {
    if c.chars == 0 {
        any_char()
    } else {
        (b'a' + below(c.chars)) as char
    }
}

/// An arbitrary term of exactly `n` nodes under `scope` binders.
pub fn term(c: Cfg, n: usize, scope: usize) -> T {
    if n == 1 {
        let lits = c.lit + c.empty as usize;
        let vars = scope + c.free as usize;
        let k = choose(1 + lits + vars);
        if k == 0 {
            return T::Eps;
        }
        if k <= lits {
            let len = if c.empty { k - 1 } else { k };
            return T::Lit((0..len).map(|_| lit_char(c)).collect());
        }
        return T::Var(k - 1 - lits);
    }
    // Kinds available with n nodes.
    let mut kinds: [u8; 10] = [0; 10];
    let mut m = 0;
    let mut add = |k| {
        kinds[m] = k;
        m += 1;
    };
    add(0); // fix
    if n >= 3 {
        add(1); // cat
        add(2); // alt
    }
    if n >= 4 && c.ternary {
        add(3);
        add(4);
    }
    if c.fun {
        add(5); // lambda
        if n >= 3 {
            add(6); // call with one argument
            add(7); // let
        }
        if n >= 4 {
            add(8); // call with two arguments
        }
        add(9); // call without arguments
    }
    let k = kinds[choose(m)];
    let split = |parts: usize, total: usize| -> Vec<usize> {
        let mut v = vec![];
        let mut left = total;
        for i in 0..parts - 1 {
            let max = left - (parts - 1 - i);
            let s = 1 + choose(max);
            v.push(s);
            left -= s;
        }
        v.push(left);
        v
    };
    match k {
        0 => {
            if c.fun {
                // The body of a fix point may be anything; a lambda counts as a node of its own.
                let b = term(c, n - 1, scope);
                match b {
                    T::Lam(k, b) => T::Fix(k, b),
                    b => T::BadFix(Box::new(b)),
                }
            } else {
                T::Fix(1, Box::new(term(c, n - 1, scope + 1)))
            }
        }
        1 | 2 | 3 | 4 => {
            let parts = if k <= 2 { 2 } else { 3 };
            let v = split(parts, n - 1).into_iter().map(|m| term(c, m, scope)).collect();
            if k & 1 == 1 {
                T::Cat(v)
            } else {
                T::Alt(v)
            }
        }
        5 => {
            let args = choose(3);
            T::Lam(args, Box::new(term(c, n - 1, scope + args)))
        }
        6 | 8 | 9 => {
            let parts = match k {
                6 => 2,
                8 => 3,
                _ => 1,
            };
            let mut v: Vec<T> = split(parts, n - 1).into_iter().map(|m| term(c, m, scope)).collect();
            let f = v.remove(0);
            T::Call(Box::new(f), v)
        }
        _ => {
            let s = split(2, n - 1);
            let b = term(c, s[0], scope);
            let e = term(c, s[1], scope + 1);
            T::Let(Box::new(b), Box::new(e))
        }
    }
}

/// A sequence or choice of `parts` parts, distinct literals (the first is `a`, the last `b`) but for two
/// arbitrary terms of up to `special` nodes at arbitrary places; on its own, inside of a fixed point, after or before another term.
pub fn wide(c: Cfg, parts: usize, special: usize, scope: usize) -> T {
    let cat = choose(2) == 0;
    let around = choose(4);
    let i = choose(parts - 1);
    let j = i + 1 + choose(parts - 1 - i);
    let inner = scope + (around == 1) as usize;
    let (mut x, mut y) = (Some(small(c, special, inner)), Some(small(c, special, inner)));
    let v = (0..parts)
        .map(|k| if k == i { x.take().unwrap() } else if k == j { y.take().unwrap() } else { T::Lit(vec![plain(k, parts)]) })
        .collect();
    let t = if cat { T::Cat(v) } else { T::Alt(v) };
    match around {
        0 => t,
        1 => T::Fix(1, Box::new(t)),
        2 => T::Cat(vec![t, small(c, 1, scope)]),
        _ => T::Alt(vec![small(c, 1, scope), t]),
    }
}
pub fn small(c: Cfg, max: usize, scope: usize) -> T {
    let n = 1 + choose(max);
    term(c, n, scope)
}
fn plain(k: usize, parts: usize) -> char {
    if k == 0 {
        'a'
    } else if k + 1 == parts {
        'b'
    } else {
        (b'c' + k as u8) as char
    }
}

fn letter(letters: u8) -> T {
    T::Lit(vec![(b'a' + below(letters)) as char])
}
/// A sequence of a letter and `n` parts, each a letter, an optional one (either way around) or any number of one.
pub fn chain(n: usize, kinds: usize, letters: u8) -> T {
    let part = || match choose(kinds) {
        0 => letter(letters),
        1 => T::Alt(vec![T::Eps, letter(letters)]),
        2 => T::Alt(vec![letter(letters), T::Eps]),
        _ => T::Fix(1, Box::new(T::Alt(vec![T::Eps, T::Cat(vec![letter(letters), T::Var(0)])]))),
    };
    let mut v = vec![letter(letters)];
    v.extend((0..n).map(|_| part()));
    T::Cat(v)
}
/// A choice of `n` branches that start with different letters and may end in one more, and a letter after it.
pub fn branches(n: usize, letters: u8) -> T {
    let tail = || match choose(3) {
        0 => T::Eps,
        1 => letter(letters),
        _ => T::Alt(vec![T::Eps, letter(letters)]),
    };
    let mut v: Vec<T> = (0..n).map(|k| T::Cat(vec![T::Lit(vec![(b'a' + k as u8) as char]), tail()])).collect();
    match choose(3) {
        0 => T::Cat(vec![T::Alt(v), letter(letters)]),
        1 => {
            v.push(T::Eps);
            T::Cat(vec![T::Lit(vec!['c']), T::Alt(v), letter(letters)])
        }
        _ => {
            v.push(T::Cat(vec![T::Lit(vec!['c']), T::Var(0), letter(letters)]));
            T::Fix(1, Box::new(T::Alt(v)))
        }
    }
}

/// Recursion behind a letter, once or twice, where what is behind it is any expression.
pub fn rec(c: Cfg, nodes: usize) -> T {
    let l = || T::Lit(vec![lit_char(c)]);
    let shape = choose(6);
    let e = Box::new(term(c, nodes, if shape < 4 { 1 } else { 2 }));
    let opt = |e: Box<T>| T::Alt(vec![T::Eps, *e]);
    let fix = |b: T| T::Fix(1, Box::new(b));
    match shape {
        0 => fix(T::Cat(vec![l(), *e])),
        1 => fix(T::Cat(vec![l(), opt(e)])),
        2 => fix(T::Alt(vec![l(), T::Cat(vec![l(), *e])])),
        3 => fix(T::Cat(vec![l(), T::Var(0), *e])),
        4 => fix(T::Cat(vec![l(), fix(T::Cat(vec![l(), opt(e)]))])),
        _ => fix(T::Cat(vec![l(), fix(T::Alt(vec![T::Eps, T::Cat(vec![l(), *e])]))])),
    }
}

fn nth(k: usize) -> char {
    (if k < 26 { b'a' + k as u8 } else { b'A' + (k - 26) as u8 }) as char
}
/// A sequence or choice of many different letters with one part replaced, in four contexts.
pub fn many(sizes: &[usize], scope: usize) -> T {
    let parts = sizes[choose(sizes.len())];
    let cat = choose(2) == 0;
    let fix = choose(2) == 1;
    let at = choose(parts);
    let lit = |k: usize| T::Lit(vec![nth(k)]);
    let z = || T::Lit(vec!['Z']);
    let opt = |t: T| T::Alt(vec![T::Eps, t]);
    let mut special = Some(match choose(if fix || scope > 0 { 8 } else { 7 }) {
        0 => T::Eps,
        1 => lit((at + 1) % parts),
        2 => lit(0),
        3 => opt(lit(parts - 1)),
        4 => T::Fix(1, Box::new(opt(T::Cat(vec![z(), T::Var(0)])))),
        5 => T::Cat(vec![lit(at), z()]),
        6 => T::Cat(vec![z(), opt(lit((at + 1) % parts))]),
        _ => T::Var(choose(scope + fix as usize)),
    });
    let v = (0..parts).map(|k| if k == at { special.take().unwrap() } else { lit(k) }).collect();
    let t = if cat { T::Cat(v) } else { T::Alt(v) };
    if fix {
        T::Fix(1, Box::new(t))
    } else {
        t
    }
}
/// Fixed points inside of each other, all but possibly one behind a letter, with a use of any of them inside.
pub fn deep(depth: usize, free: bool) -> T {
    let loose = choose(depth + 1);
    let lit = |k: usize| T::Lit(vec![nth(k)]);
    let mut t = T::Alt(vec![T::Var(choose(depth + free as usize)), T::Lit(vec!['Z'])]);
    for k in (0..depth).rev() {
        t = T::Fix(1, Box::new(if k == loose { t } else { T::Cat(vec![lit(k), t]) }));
    }
    t
}

/// A function of many parameters with as many arguments, one fewer or one more; or a chain of many bindings,
/// one of which uses another; or functions inside of each other, called one after another.
pub fn long(sizes: &[usize]) -> T {
    let n = sizes[choose(sizes.len())];
    let lit = |k: usize| T::Lit(vec![nth(k)]);
    let body = |scope: usize| match choose(3) {
        0 => T::Var(choose(scope)),
        1 => T::Cat((0..scope).map(T::Var).collect()),
        _ => T::Cat(vec![T::Fix(1, Box::new(T::Alt(vec![T::Var(1 + choose(scope)), lit(40)]))), lit(41)]),
    };
    match choose(3) {
        0 => {
            let given = n + choose(3) - 1;
            let f = T::Lam(n, Box::new(body(n)));
            T::Call(Box::new(f), (0..given).map(lit).collect())
        }
        1 => {
            let (k, j) = (choose(n), choose(n));
            let mut t = body(n);
            for i in (0..n).rev() {
                // The binding of place `i` sees the `i` ones before it.
                let b = if i == k && j < i { T::Cat(vec![lit(i), T::Var(j)]) } else { lit(i) };
                t = T::Let(Box::new(b), Box::new(t));
            }
            t
        }
        _ => {
            let n = n.min(9);
            let mut t = body(n);
            for _ in 0..n {
                t = T::Lam(1, Box::new(t));
            }
            let given = n + choose(3) - 1;
            for k in 0..given {
                t = T::Call(Box::new(t), vec![lit(k)]);
            }
            t
        }
    }
}
