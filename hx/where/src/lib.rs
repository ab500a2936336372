//! Where errors are reported: the spans of errors against the places of their causes.
use chomp::chomp::ast::error::ReductionError;
use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::error::{AltError, CatError, TypeError};
use chomp::chomp::typed::TypeInfer;
use chomp::chomp::visit::Visitable;
use chomp::nibble::convert::{self, Convert, ConvertError};
use chomp::nibble::Statement;
use proc_macro2::Span;
use syn::spanned::Spanned;
use sym::*;

sym::table!(TABLE: h_where_type4, h_where_type5, h_where_type6, h_where_type7, h_where_fun4, h_where_fun5, h_where_name, h_where_call, h_where_result, h_where_kinds, h_where_wide);

/// Line and column of the start and of the end.
type At = ((usize, usize), (usize, usize));

#[derive(Clone, Debug)]
enum P {
    Eps,
    Lit(char),
    Var(usize, At),
    /// `!(/x/ b)`
    Fix(usize, Box<P>),
    /// `!b` where `b` is not a function.
    BadFix(Box<P>, At),
    Cat(Vec<P>, Vec<At>),
    Alt(Vec<P>, Vec<At>),
    /// A call of a name.
    Call(usize, Vec<P>, At, At),
    /// A function in parentheses.
    Lam(usize, Box<P>, At),
}
const NO: At = ((0, 0), (0, 0));
const NAMES: [&str; 4] = ["x", "y", "f", "g"];

struct Out {
    s: String,
    at: (usize, usize),
    /// The end of the last token.
    end: (usize, usize),
    lines: bool,
}
impl Out {
    fn raw(&mut self, t: &str) -> At {
        let from = self.at;
        self.s.push_str(t);
        self.at.1 += t.chars().count();
        (from, self.at)
    }
    fn gap(&mut self) {
        if self.lines {
            self.s.push('\n');
            self.at = (self.at.0 + 1, 0);
        } else {
            self.raw(" ");
        }
    }
    fn tok(&mut self, t: &str) -> At {
        let a = self.raw(t);
        self.end = a.1;
        self.gap();
        a
    }
    fn join(&mut self, v: &mut [P], at: &mut Vec<At>, p: &str, level: u8) {
        for (i, e) in v.iter_mut().enumerate() {
            if i > 0 {
                let a = self.tok(p);
                at.push(a);
            }
            self.expr(e, level);
        }
    }
    /// Writes an expression, and where its parts are into it; returns where it is itself.
    fn expr(&mut self, e: &mut P, level: u8) -> At {
        let needs = match e {
            P::Alt(..) => 1,
            P::Cat(..) => 2,
            P::Call(..) => 3,
            _ => 4,
        };
        if needs < level {
            let (from, _) = self.tok("(");
            self.expr(e, 0);
            let (_, to) = self.tok(")");
            return (from, to);
        }
        match e {
            P::Eps => self.tok("_"),
            P::Lit(c) => self.tok(&format!("\"{c}\"")),
            P::Var(x, at) => {
                *at = self.tok(NAMES[*x]);
                *at
            }
            P::Fix(x, b) => {
                let (from, _) = self.tok("!");
                self.tok("(");
                self.tok("/");
                self.tok(NAMES[*x]);
                self.tok("/");
                self.expr(b, 0);
                let (_, to) = self.tok(")");
                (from, to)
            }
            P::BadFix(b, at) => {
                let (from, _) = self.tok("!");
                let (_, to) = self.expr(b, 4);
                *at = (from, to);
                *at
            }
            P::Cat(v, at) => {
                at.clear();
                let from = self.at;
                self.join(v, at, ".", 3);
                (from, self.end)
            }
            P::Alt(v, at) => {
                at.clear();
                let from = self.at;
                self.join(v, at, "|", 2);
                (from, self.end)
            }
            P::Call(f, v, fat, at) => {
                *fat = self.tok(NAMES[*f]);
                let mut to = fat.1;
                for e in v {
                    to = self.expr(e, 4).1;
                }
                *at = (fat.0, to);
                *at
            }
            P::Lam(x, b, at) => {
                let (from, _) = self.tok("(");
                let (lam, _) = self.tok("/");
                self.tok(NAMES[*x]);
                self.tok("/");
                self.expr(b, 0);
                *at = (lam, self.end);
                let (_, to) = self.tok(")");
                (from, to)
            }
        }
    }
}

/// Bindings `let name params = body;` and a goal.
struct Prog {
    lets: Vec<(usize, Vec<usize>, P)>,
    goal: P,
    /// From the parameters of each binding to the end of its expression.
    at: Vec<At>,
}
fn write(p: &mut Prog, lines: bool) -> String {
    let mut o = Out { s: String::new(), at: (1, 0), end: (1, 0), lines };
    p.at.clear();
    for (x, a, b) in &mut p.lets {
        o.tok("let");
        o.tok(NAMES[*x]);
        let from = o.at;
        for a in a {
            o.tok(NAMES[*a]);
        }
        o.tok("=");
        o.expr(b, 0);
        p.at.push((from, o.end));
        o.tok(";");
    }
    o.tok("match");
    o.expr(&mut p.goal, 0);
    o.tok(";");
    o.s
}

#[derive(Clone, Copy, PartialEq, Default, Debug)]
struct Ty {
    null: bool,
    first: u32,
    flast: u32,
}
fn cat(a: Ty, b: Ty) -> Ty {
    Ty {
        null: a.null && b.null,
        first: a.first | if a.null { b.first } else { 0 },
        flast: b.flast | if b.null { b.first | a.flast } else { 0 },
    }
}
fn alt(a: Ty, b: Ty) -> Ty {
    Ty { null: a.null || b.null, first: a.first | b.first, flast: a.flast | b.flast }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Why {
    FirstNullable,
    FlastOverlap,
    BothNullable,
    FirstOverlap,
    Guarded,
    Fix,
    Lambda,
    Free,
    NotFun,
    Count,
}
#[derive(Clone)]
enum Bind {
    /// A recursion variable, and whether it is guarded.
    Rec(Ty, bool),
    Ty(Ty),
    Fun(usize),
}
type Env = Vec<(usize, Bind)>;
type Bad = Vec<(Why, At)>;

/// The type at the final fixed point, and every place where a rule is broken.
fn judge(e: &P, env: &Env, p: &Prog, bad: &mut Bad) -> Ty {
    match e {
        P::Eps => Ty { null: true, ..Ty::default() },
        P::Lit(c) => Ty { first: 1 << (*c as u8 - b'a'), ..Ty::default() },
        P::Var(x, at) => match env.iter().rev().find(|b| b.0 == *x) {
            Some((_, Bind::Rec(t, guarded))) => {
                if *guarded {
                    bad.push((Why::Guarded, *at));
                }
                *t
            }
            Some((_, Bind::Ty(t))) => *t,
            Some((_, Bind::Fun(i))) => {
                // At the use or where the function is written.
                bad.push((Why::Lambda, *at));
                bad.push((Why::Lambda, p.at[*i]));
                Ty::default()
            }
            None => {
                bad.push((Why::Free, *at));
                Ty::default()
            }
        },
        P::Fix(x, b) => {
            let mut t = Ty::default();
            loop {
                let mut env = env.clone();
                env.push((*x, Bind::Rec(t, true)));
                let mut found = vec![];
                let u = judge(b, &env, p, &mut found);
                if u == t {
                    bad.extend(found);
                    return t;
                }
                t = u;
            }
        }
        P::BadFix(b, at) => {
            bad.push((Why::Fix, *at));
            judge(b, env, p, &mut vec![])
        }
        P::Cat(v, at) => {
            let mut t = judge(&v[0], env, p, bad);
            if t.null {
                bad.push((Why::FirstNullable, at[0]));
            }
            let open: Env = env.iter().map(|(x, b)| (*x, if let Bind::Rec(t, _) = b { Bind::Rec(*t, false) } else { b.clone() })).collect();
            for (e, at) in v[1..].iter().zip(at) {
                let u = judge(e, &open, p, bad);
                if t.flast & u.first != 0 {
                    bad.push((Why::FlastOverlap, *at));
                }
                t = cat(t, u);
            }
            t
        }
        P::Alt(v, at) => {
            let mut t = judge(&v[0], env, p, bad);
            for (e, at) in v[1..].iter().zip(at) {
                let u = judge(e, env, p, bad);
                if t.null && u.null {
                    bad.push((Why::BothNullable, *at));
                }
                if t.first & u.first != 0 {
                    bad.push((Why::FirstOverlap, *at));
                }
                t = alt(t, u);
            }
            t
        }
        P::Call(f, v, fat, at) => match env.iter().rev().find(|b| b.0 == *f) {
            Some((_, Bind::Fun(i))) => {
                let (_, params, body) = &p.lets[*i];
                if params.len() != v.len() {
                    bad.push((Why::Count, *at));
                    return Ty::default();
                }
                let mut inner = outer(p, *i);
                // What is wrong with an argument matters only if it is used.
                for (x, a) in params.iter().zip(v) {
                    let used = uses(body, *x, p, *i);
                    let mut found = vec![];
                    let t = judge(a, env, p, &mut found);
                    if used {
                        bad.extend(found);
                    }
                    inner.push((*x, Bind::Ty(t)));
                }
                if matches!(body, P::Lam(..)) {
                    // The call stands for a function.
                    bad.push((Why::Lambda, *at));
                    return Ty::default();
                }
                judge(body, &inner, p, bad)
            }
            Some(_) => {
                bad.push((Why::NotFun, *at));
                Ty::default()
            }
            None => {
                bad.push((Why::Free, *fat));
                Ty::default()
            }
        },
        P::Lam(_, _, at) => {
            bad.push((Why::Lambda, *at));
            Ty::default()
        }
    }
}
fn occurs(e: &P, x: usize) -> bool {
    match e {
        P::Eps | P::Lit(_) => false,
        P::Var(y, _) => *y == x,
        P::Fix(y, b) | P::Lam(y, b, _) => *y != x && occurs(b, x),
        P::BadFix(b, _) => occurs(b, x),
        P::Cat(v, _) | P::Alt(v, _) => v.iter().any(|e| occurs(e, x)),
        P::Call(f, v, ..) => *f == x || v.iter().any(|e| occurs(e, x)),
    }
}
/// Whether a parameter is used in the body of binding `i`; bodies call nothing that drops it.
fn uses(body: &P, x: usize, _p: &Prog, _i: usize) -> bool {
    occurs(body, x)
}
/// What is bound before binding `i`.
fn outer(p: &Prog, i: usize) -> Env {
    (0..i)
        .map(|k| {
            let (x, a, b) = &p.lets[k];
            (*x, if a.is_empty() { Bind::Ty(judge(b, &outer(p, k), p, &mut vec![])) } else { Bind::Fun(k) })
        })
        .collect()
}

fn at(s: Span) -> At {
    let (a, b) = (s.start(), s.end());
    ((a.line, a.column), (b.line, b.column))
}
/// The error that a grammar is rejected with: its kind, its place, and the place in what the
/// compiler shows.
fn compile(text: &str) -> Option<Result<(), (Why, At, At, [String; 2])>> {
    let s = syn::parse_str::<Statement>(text).ok()?;
    let e = match s.convert(&mut convert::Context::default()) {
        Ok(e) => e,
        Err(e) => {
            let a = match &e {
                ConvertError::UndeclaredName(n) => at(n.span()),
                _ => NO,
            };
            let m = e.to_string();
            let e = syn::Error::from(e);
            return Some(Err((Why::Free, a, at(e.span()), [m, e.to_string()])));
        }
    };
    let e = match e.fold(&mut Reduce) {
        Ok(e) => e,
        Err(e) => {
            let (w, a) = match &e {
                ReductionError::CallNotAFunction { span, .. } => (Why::NotFun, at(*span)),
                ReductionError::WrongArgCount { span, .. } => (Why::Count, at(*span)),
            };
            let m = e.to_string();
            let e = syn::Error::from(e);
            return Some(Err((w, a, at(e.span()), [m, e.to_string()])));
        }
    };
    let r = e.fold(&mut TypeInfer { context: &mut Context::default() });
    Some(match r {
        Ok(_) => Ok(()),
        Err(e) => {
            let w = match &e {
                TypeError::Cat(CatError::FirstNullable { .. }) => Why::FirstNullable,
                TypeError::Cat(CatError::FirstFlastOverlap { .. }) => Why::FlastOverlap,
                TypeError::Alt(AltError::BothNullable { .. }) => Why::BothNullable,
                TypeError::Alt(AltError::FirstOverlap { .. }) => Why::FirstOverlap,
                TypeError::Variable(_) => Why::Guarded,
                TypeError::ExpectedLambda { .. } => Why::Fix,
                TypeError::UnexpectedLambda { .. } => Why::Lambda,
                _ => Why::Free,
            };
            let a = at(e.span());
            let m = e.to_string();
            let e = syn::Error::from(e);
            Err((w, a, at(e.span()), [m, e.to_string()]))
        }
    })
}

/// Shows what a replay is about.
fn show(text: &str, bad: &Bad) {
    #[cfg(not(target_arch = "riscv64"))]
    eprintln!("{text}\n{bad:?}\n{:?}", compile(text));
    #[cfg(target_arch = "riscv64")]
    let _ = (text, bad);
}
/// The text from one place to another, without what may stand around the whole of it.
fn within(text: &str, (from, to): At) -> Vec<&str> {
    let mut v = vec![];
    let mut at = (1, 0);
    for t in text.split([' ', '\n']) {
        let end = (at.0, at.1 + t.chars().count());
        if at >= from && end <= to && !t.is_empty() {
            v.push(t);
        }
        at = match text[..].chars().find(|c| *c == '\n') {
            Some(_) => (at.0 + 1, 0),
            None => (at.0, end.1 + 1),
        };
    }
    if let Some(i) = v.iter().position(|t| *t == "match") {
        v.drain(..=i);
    }
    while matches!(v.first(), Some(&"(")) {
        v.remove(0);
    }
    while matches!(v.last(), Some(&(")" | ";"))) {
        v.pop();
    }
    v
}
/// Whether an error at `a` is at its cause `b`: names and operators are marked as such, and
/// anything else with nothing but the parentheses or the statement around it.
fn at_cause(text: &str, w: Why, a: At, b: At) -> bool {
    match w {
        Why::Lambda | Why::Fix | Why::NotFun | Why::Count => a.0 <= b.0 && b.1 <= a.1 && within(text, a) == within(text, b),
        _ => a == b,
    }
}
/// The message names what is at `a` if it is about a name, and counts arguments if it is about a call.
fn said(text: &str, p: &Prog, w: Why, a: At, m: &[String; 2]) {
    check(m[0] == m[1], "the compiler shows the same message");
    match w {
        Why::Free | Why::Guarded => {
            let name = within(text, a);
            let quoted = |n: &str| m[0].contains(&format!("`{n}`"));
            // A use that is all there is of a function goes by the function's name, too.
            let also = w == Why::Guarded && p.lets.iter().any(|l| quoted(NAMES[l.0]) && matches!(&l.2, P::Fix(_, b) if matches!(**b, P::Var(..) | P::Fix(..))));
            check(name.len() == 1 && (quoted(name[0]) || also), "the message names what is undeclared or used too early");
        }
        Why::Count => {
            let n: Vec<&str> = m[0].split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
            let params = p.lets[0].1.len();
            check(n == [params.to_string(), (3 - params).to_string()], "the message counts the arguments");
        }
        _ => check(!m[0].is_empty(), "there is a message"),
    }
}
/// The messages for any two kinds of mistakes differ.
#[no_mangle]
pub extern "C" fn h_where_kinds() {
    const T: [&str; 10] = [
        "match _ . \"a\";",
        "match \"a\" . !(/x/ _ | \"a\" . x) . \"a\";",
        "match _ | _;",
        "match \"a\" | \"a\";",
        "match !(/x/ x);",
        "match !\"a\";",
        "match /x/ x;",
        "match x;",
        "match \"a\" \"b\";",
        "let f x = x; match f \"a\" \"b\";",
    ];
    let (i, j) = (choose(T.len()), choose(T.len()));
    assume(i < j);
    let said = |k: usize| match compile(T[k]) {
        Some(Err((_, _, _, m))) => m[0].clone(),
        _ => String::new(),
    };
    let (a, b) = (said(i), said(j));
    check(!a.is_empty() && !b.is_empty(), "the grammar is rejected");
    check(a != b, "the message tells what is wrong");
    cover(1);
}
fn verdict(mut p: Prog) {
    let lines = choose(2) == 1;
    let text = write(&mut p, lines);
    let mut bad = vec![];
    let env = outer(&p, p.lets.len());
    judge(&p.goal, &env, &p, &mut bad);
    show(&text, &bad);
    match compile(&text) {
        None => check(false, "the grammar is read"),
        Some(Ok(())) => {
            cover(9);
            check(bad.is_empty(), "a grammar that breaks a rule is rejected");
        }
        Some(Err((w, a, shown, m))) => {
            cover(w as u64 + 10);
            said(&text, &p, w, a, &m);
            check(bad.iter().any(|(v, b)| *v == w && at_cause(&text, w, a, *b)), "an error is reported at its cause");
            check(shown == a, "the compiler shows the error where it is");
        }
    }
    observe(text.len() as u64);
}

fn split(n: usize, f: &dyn Fn(usize) -> P) -> Vec<P> {
    if n >= 3 && choose(2) == 1 {
        let k = 1 + choose(n - 2);
        let l = 1 + choose(n - k - 1);
        if n - k - l == 0 {
            return vec![f(k), f(l)];
        }
        return vec![f(k), f(l), f(n - k - l)];
    }
    let k = 1 + choose(n - 1);
    vec![f(k), f(n - k)]
}
/// An expression of `n` nodes over the names below `names` (`x` and `y` may be bound by `!`).
fn term(n: usize, names: usize) -> P {
    if n == 1 {
        return match choose(3 + names) {
            0 => P::Eps,
            1 => P::Lit('a'),
            2 => P::Lit('b'),
            k => P::Var(k - 3, NO),
        };
    }
    match choose(if n == 2 { 1 } else { 3 }) {
        0 => {
            // Another name, so that every use is of the innermost binder of that name or of an outer one.
            if names >= 2 {
                let x = choose(2);
                P::Fix(x, Box::new(term(n - 1, names)))
            } else {
                P::Fix(names, Box::new(term(n - 1, names + 1)))
            }
        }
        1 => P::Cat(split(n - 1, &|k| term(k, names)), vec![]),
        _ => P::Alt(split(n - 1, &|k| term(k, names)), vec![]),
    }
}
fn typed(n: usize) {
    verdict(Prog { lets: vec![], goal: term(n, 0), at: vec![] });
}
#[no_mangle]
pub extern "C" fn h_where_type4() {
    let n = 1 + choose(4);
    typed(n)
}
#[no_mangle]
pub extern "C" fn h_where_type5() {
    typed(5)
}
#[no_mangle]
pub extern "C" fn h_where_type6() {
    typed(6)
}
#[no_mangle]
pub extern "C" fn h_where_type7() {
    typed(7)
}

/// Sequences and choices of up to seven letters, three of them in a row replaced by anything of
/// the kind that can be wrong there.
#[no_mangle]
pub extern "C" fn h_where_wide() {
    // Not 'h', which is what is repeated.
    let nth = |k: usize| (b'a' + (if k < 7 { k } else { k + 1 }) as u8) as char;
    let n: usize = [2, 3, 4, 5, 6, 7, 10, 17, 21][choose(9)];
    let from = if n < 8 { choose(n.saturating_sub(2).max(1)) } else { [0, n / 2, n - 3][choose(3)] };
    let part = |k: usize| {
        if k < from || k >= from + 3 {
            return P::Lit(nth(k));
        }
        match choose(5) {
            0 => P::Lit(nth(k)),
            1 => P::Lit('h'),
            2 => P::Alt(vec![P::Eps, P::Lit('h')], vec![]),
            3 => P::Alt(vec![P::Lit(nth(k)), P::Eps], vec![]),
            _ => P::Eps,
        }
    };
    let v = (0..n).map(part).collect();
    let e = if choose(2) == 1 { P::Cat(v, vec![]) } else { P::Alt(v, vec![]) };
    verdict(Prog { lets: vec![], goal: e, at: vec![] });
}

/// A function of one parameter called in one or two places, with closed arguments.
fn fun(n: usize) {
    let body = term(n, 1);
    let arg = || match choose(4) {
        0 => P::Eps,
        1 => P::Lit('a'),
        2 => P::Lit('c'),
        _ => P::Alt(vec![P::Lit('b'), P::Eps], vec![]),
    };
    let call = || P::Call(2, vec![arg()], NO, NO);
    let goal = match choose(4) {
        0 => call(),
        1 => P::Cat(vec![P::Lit('d'), call(), P::Lit('a')], vec![]),
        2 => P::Alt(vec![call(), call()], vec![]),
        _ => P::Fix(1, Box::new(P::Alt(vec![P::Eps, P::Cat(vec![call(), P::Var(1, NO)], vec![])], vec![]))),
    };
    verdict(Prog { lets: vec![(2, vec![0], body)], goal, at: vec![] });
}
#[no_mangle]
pub extern "C" fn h_where_fun4() {
    let n = 1 + choose(4);
    fun(n)
}
#[no_mangle]
pub extern "C" fn h_where_fun5() {
    fun(5)
}

/// Undeclared names, misplaced functions and fixed points.
fn loose(n: usize) -> P {
    if n == 1 {
        return match choose(4) {
            0 => P::Lit('a'),
            k => P::Var(k - 1, NO),
        };
    }
    match choose(if n == 2 { 3 } else { 5 }) {
        0 => P::Fix(choose(2), Box::new(loose(n - 1))),
        1 => P::BadFix(Box::new(loose(n - 1)), NO),
        2 => P::Lam(choose(2), Box::new(loose(n - 1)), NO),
        3 => {
            let k = 1 + choose(n - 2);
            P::Cat(vec![loose(k), loose(n - 1 - k)], vec![])
        }
        _ => {
            let k = 1 + choose(n - 2);
            P::Alt(vec![loose(k), loose(n - 1 - k)], vec![])
        }
    }
}
/// Every undeclared use.
fn free(e: &P, env: &mut Vec<usize>, out: &mut Vec<At>) {
    match e {
        P::Eps | P::Lit(_) => (),
        P::Var(x, at) => {
            if !env.contains(x) {
                out.push(*at);
            }
        }
        P::Fix(x, b) | P::Lam(x, b, _) => {
            env.push(*x);
            free(b, env, out);
            env.pop();
        }
        P::BadFix(b, _) => free(b, env, out),
        P::Cat(v, _) | P::Alt(v, _) => v.iter().for_each(|e| free(e, env, out)),
        P::Call(f, v, fat, _) => {
            if !env.contains(f) {
                out.push(*fat);
            }
            v.iter().for_each(|e| free(e, env, out));
        }
    }
}
#[no_mangle]
pub extern "C" fn h_where_name() {
    let n = 1 + choose(5);
    let lets = if choose(2) == 1 { vec![(choose(2), vec![], P::Lit('b'))] } else { vec![] };
    let mut p = Prog { lets, goal: loose(n), at: vec![] };
    let lines = choose(2) == 1;
    let text = write(&mut p, lines);
    let mut bad = vec![];
    free(&p.goal, &mut p.lets.iter().map(|l| l.0).collect(), &mut bad);
    let mut kinds = vec![];
    wrong(&p.goal, &mut kinds);
    show(&text, &kinds);
    match compile(&text) {
        None => check(false, "the grammar is read"),
        Some(Err((Why::Free, a, shown, m))) => {
            said(&text, &p, Why::Free, a, &m);
            cover(1);
            check(bad.contains(&a), "an undeclared name is reported at a use out of scope");
            check(shown == a, "the compiler shows the error where it is");
        }
        Some(r) => {
            cover(2);
            check(bad.is_empty(), "a grammar with an undeclared name is rejected for it");
            if let Err((w, a, shown, m)) = r {
                said(&text, &p, w, a, &m);
                check(shown == a, "the compiler shows the error where it is");
                match w {
                    Why::Fix | Why::Lambda => {
                        cover(3);
                        check(kinds.iter().any(|(v, b)| *v == w && at_cause(&text, w, a, *b)), "a misplaced function or fixed point is reported where it is");
                    }
                    _ => (),
                }
            }
        }
    }
    observe(text.len() as u64);
}
/// Every function and every `!`.
fn wrong(e: &P, out: &mut Bad) {
    match e {
        P::Eps | P::Lit(_) | P::Var(..) => (),
        P::Fix(_, b) => wrong(b, out),
        P::BadFix(b, at) => {
            out.push((Why::Fix, *at));
            wrong(b, out);
        }
        P::Lam(_, b, at) => {
            out.push((Why::Lambda, *at));
            wrong(b, out);
        }
        P::Cat(v, _) | P::Alt(v, _) | P::Call(_, v, ..) => v.iter().for_each(|e| wrong(e, out)),
    }
}

/// Calls whose result is a function, and uses of functions, in many places.
#[no_mangle]
pub extern "C" fn h_where_result() {
    let inner = match choose(4) {
        0 => P::Var(1, NO),
        1 => P::Var(0, NO),
        2 => P::Cat(vec![P::Lit('a'), P::Var(1, NO)], vec![]),
        _ => P::Alt(vec![P::Lit('a'), P::Eps], vec![]),
    };
    let lets = vec![(2, vec![0], P::Lam(1, Box::new(inner), NO)), (3, vec![0], P::Alt(vec![P::Lit('c'), P::Var(0, NO)], vec![]))];
    let arg = || match choose(3) {
        0 => P::Lit('b'),
        1 => P::Alt(vec![P::Lit('a'), P::Lit('b')], vec![]),
        _ => P::Lam(1, Box::new(P::Lit('a')), NO),
    };
    let part = || match choose(5) {
        0 => P::Call(2, vec![arg()], NO, NO),
        1 => P::Call(3, vec![arg()], NO, NO),
        2 => P::Var(2 + choose(2), NO),
        3 => P::Lam(1, Box::new(P::Var(1, NO)), NO),
        _ => P::Lit('d'),
    };
    let goal = match choose(5) {
        0 => part(),
        1 => P::Cat(vec![part(), part()], vec![]),
        2 => P::Alt(vec![part(), part()], vec![]),
        3 => P::Cat(vec![P::Lit('e'), P::Alt(vec![part(), P::Lit('f')], vec![])], vec![]),
        _ => P::Fix(0, Box::new(P::Alt(vec![P::Lit('e'), P::Cat(vec![part(), P::Var(0, NO)], vec![])], vec![]))),
    };
    verdict(Prog { lets, goal, at: vec![] });
}
/// Calls with the wrong number of arguments and of what is not a function, in many places.
#[no_mangle]
pub extern "C" fn h_where_call() {
    let lets = vec![(2, if choose(2) == 1 { vec![0, 1] } else { vec![0] }, P::Cat(vec![P::Lit('a'), P::Var(0, NO)], vec![])), (3, vec![], P::Lit('b'))];
    let call = |k: usize| {
        let f = 2 + choose(2);
        P::Call(f, (0..1 + choose(2)).map(|_| if choose(2) == 1 { P::Lit('a') } else { P::Alt(vec![P::Lit('c'), P::Lit('d')], vec![]) }).collect(), NO, (NO.0, (k, 0)))
    };
    let goal = match choose(4) {
        0 => call(0),
        1 => P::Cat(vec![call(0), call(1)], vec![]),
        2 => P::Alt(vec![P::Lit('e'), call(0), P::Lit('f')], vec![]),
        _ => P::Fix(1, Box::new(P::Alt(vec![P::Eps, P::Cat(vec![call(0), P::Var(1, NO)], vec![])], vec![]))),
    };
    verdict(Prog { lets, goal, at: vec![] });
}
