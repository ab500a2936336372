//! Every grammar of a size, written out and read back.
use super::*;

const NAMES: [&str; 3] = ["x", "y", "z"];
fn name() -> String {
    NAMES[choose(2)].to_owned()
}

/// An arbitrary expression of `n` nodes; `top`: it may be a function.
fn expr(n: usize) -> E {
    if n == 1 {
        return match choose(4) {
            0 => E::Eps,
            1 => E::Lit(vec!['a']),
            2 => E::Var("x".into()),
            _ => E::Var("y".into()),
        };
    }
    let split = |n: usize| -> (E, E) {
        let k = 1 + choose(n - 2);
        (expr(k), expr(n - 1 - k))
    };
    match choose(if n == 2 { 3 } else { 6 }) {
        0 => E::Fix(Box::new(expr(n - 1))),
        1 => E::Lam(vec![name()], Box::new(expr(n - 1))),
        2 => E::Lam(vec![name(), name()], Box::new(expr(n - 1))),
        3 => {
            let (a, b) = split(n);
            E::Cat(vec![a, b])
        }
        4 => {
            let (a, b) = split(n);
            let l = match choose(3) {
                0 => (None, None),
                1 => (Some("x".to_owned()), None),
                _ => (None, Some("l".to_owned())),
            };
            E::Alt(vec![(a, l.0), (b, l.1)])
        }
        _ => {
            let (a, b) = split(n);
            E::Call(Box::new(a), vec![b])
        }
    }
}
/// Bindings, functions of one parameter among them, around expressions; `n` nodes in all.
fn stmt(n: usize) -> E {
    if n >= 3 && choose(2) == 1 {
        let k = 1 + choose(n - 2);
        let x = name();
        let b = expr(k);
        return E::Let(x, Box::new(b), Box::new(stmt(n - 1 - k)));
    }
    expr(n)
}

pub struct Printer {
    pub out: String,
    /// Single spaces between all tokens, or only where they are needed.
    pub loose: bool,
}
impl Printer {
    fn tok(&mut self, s: &str) {
        self.out.push_str(s);
        if self.loose {
            self.out.push(' ');
        }
    }
    fn word(&mut self, s: &str, last: bool) {
        self.out.push_str(s);
        if self.loose || !last {
            self.out.push(' ');
        }
    }
    /// 0: anything; 1: no function; 2: no choice; 3: no sequence; 4: no call.
    pub fn expr(&mut self, e: &E, level: u8, last: bool) {
        let needs = match e {
            E::Lam(..) => 0,
            E::Alt(..) => 1,
            E::Cat(_) => 2,
            E::Call(..) => 3,
            _ => 4,
        };
        if needs < level {
            self.tok("(");
            self.expr(e, 0, true);
            self.word(")", last);
            return;
        }
        match e {
            E::Eps => self.word("_", last),
            E::Lit(s) => {
                let s: String = s.iter().collect();
                self.word(&format!("\"{s}\""), last)
            }
            E::Var(x) => self.word(x, last),
            E::Fix(b) => {
                self.tok("!");
                self.expr(b, 4, last);
            }
            E::Call(f, a) => {
                self.expr(f, 4, false);
                for (i, x) in a.iter().enumerate() {
                    self.expr(x, 4, i + 1 == a.len() && last);
                }
            }
            E::Cat(v) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.tok(".");
                    }
                    self.expr(x, 3, i + 1 < v.len() || last);
                }
            }
            E::Alt(v) => {
                for (i, (x, l)) in v.iter().enumerate() {
                    if i > 0 {
                        self.tok("|");
                    }
                    self.expr(x, 2, true);
                    if let Some(l) = l {
                        self.tok(":");
                        self.word(l, true);
                    }
                }
            }
            E::Lam(a, b) => {
                self.tok("/");
                for (i, x) in a.iter().enumerate() {
                    self.word(x, i + 1 == a.len());
                }
                self.tok("/");
                self.expr(b, 1, true);
            }
            E::Let(..) => unreachable!(),
        }
    }
    pub fn stmt(&mut self, e: &E, sugar: bool) {
        match e {
            E::Let(x, b, r) => {
                self.word("let", false);
                match &**b {
                    E::Lam(a, b) if sugar => {
                        self.word(x, false);
                        for (i, x) in a.iter().enumerate() {
                            self.word(x, i + 1 == a.len());
                        }
                        self.tok("=");
                        self.expr(b, 0, true);
                    }
                    b => {
                        self.word(x, true);
                        self.tok("=");
                        self.expr(b, 0, true);
                    }
                }
                self.tok(";");
                self.stmt(r, sugar);
            }
            e => {
                self.word("match", false);
                self.expr(e, 0, true);
                self.tok(";");
            }
        }
    }
}
fn layout() -> (bool, bool) {
    let sugar = choose(2) == 1;
    (sugar, choose(2) == 1)
}
/// `sugar`: parameters go before the `=` of a binding; `loose`: see `Printer`.
fn write(e: &E, (sugar, loose): (bool, bool)) -> String {
    let mut p = Printer { out: String::new(), loose };
    p.stmt(e, sugar);
    p.out
}

fn judge(e: &E, got: &Result<NamedExpression, ConvertError>) {
    let bad = undeclared(e, &mut vec![], None);
    match got {
        Ok(ne) => {
            cover(1);
            check(!bad, "a grammar with an undeclared name is rejected");
            let w = if matches!(e, E::Let(..)) { Want::None } else { Want::Any };
            check(resolved(e, ne, &mut vec![], w), "every name means its innermost binder, and everything else is kept");
        }
        Err(ConvertError::UndeclaredName(n)) => {
            cover(2);
            check(bad, "a grammar whose names are all declared is accepted");
            let s = n.to_string();
            check(undeclared(e, &mut vec![], Some(&s)), "the name reported is undeclared");
        }
        Err(_) => check(false, "no other error"),
    }
}
fn scope(n: usize) {
    let e = stmt(n);
    let layout = layout();
    scope_of(e, layout)
}
fn scope_of(e: E, layout: (bool, bool)) {
    let text = write(&e, layout);
    match nibble(&text) {
        Some(r) => judge(&e, &r),
        None => check(false, "every grammar of the notation is read"),
    }
    observe(text.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_scope5() {
    let n = 1 + choose(5);
    scope(n)
}
#[no_mangle]
pub extern "C" fn h_scope6() {
    scope(6)
}
#[no_mangle]
pub extern "C" fn h_scope7() {
    scope(7)
}
fn both(n: usize) {
    let e = stmt(n);
    let layout = layout();
    both_of(&e, layout)
}
fn both_of(e: &E, layout: (bool, bool)) {
    let text = write(e, layout);
    let (a, b) = (auto(&text), nibble(&text));
    check(a.is_some(), "the self-hosted front end reads every grammar of the notation");
    check(b.is_some(), "the macro's front end reads every grammar of the notation");
    if let (Some(a), Some(b)) = (a, b) {
        check(same(&a, &b), "both front ends give the same expression");
        cover(if a.is_ok() { 1 } else { 2 });
    }
    observe(text.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_both4() {
    let n = 1 + choose(4);
    let e = stmt(n);
    let layout = layout();
    check(tokens_kept(&write(&e, layout)), "the macro's syntax tree gives back the tokens");
    both_of(&e, layout)
}
#[no_mangle]
pub extern "C" fn h_both5() {
    both(5)
}
#[no_mangle]
pub extern "C" fn h_both6() {
    both(6)
}

fn var() -> E {
    E::Var(NAMES[choose(3)].into())
}
/// `n` bindings of literals, of names and, for `fun`, of functions, and a name as the goal.
fn spine(n: usize, names: usize, fun: bool) -> E {
    let any = |n: usize| NAMES[choose(n)].to_owned();
    if n == 0 {
        return E::Var(any(names));
    }
    let x = any(names);
    let b = match choose(if fun { 3 } else { 2 }) {
        0 => E::Lit(vec!['a']),
        1 => E::Var(any(names)),
        _ => E::Lam(vec![any(2)], Box::new(E::Var(any(names)))),
    };
    E::Let(x, Box::new(b), Box::new(spine(n - 1, names, fun)))
}
fn nest(n: usize) -> E {
    if n == 0 {
        return var();
    }
    let a = (0..1 + choose(2)).map(|_| NAMES[choose(3)].to_owned()).collect();
    E::Lam(a, Box::new(nest(n - 1)))
}
#[no_mangle]
pub extern "C" fn h_spine4() {
    scope_of(spine(4, 3, false), (true, true))
}
#[no_mangle]
pub extern "C" fn h_spine_fun() {
    let sugar = choose(2) == 1;
    scope_of(spine(3, 3, true), (sugar, true))
}
#[no_mangle]
pub extern "C" fn h_nest() {
    let n = 1 + choose(3);
    let mut e = nest(n);
    if choose(2) == 1 {
        e = E::Let("x".into(), Box::new(E::Lit(vec!['a'])), Box::new(E::Cat(vec![e, var()])));
    }
    scope_of(e, (true, true))
}
#[no_mangle]
pub extern "C" fn h_both_spine() {
    let e = spine(3, 2, true);
    let layout = (true, choose(2) == 1);
    check(tokens_kept(&write(&e, layout)), "the macro's syntax tree gives back the tokens");
    both_of(&e, layout)
}

/// Functions of 3 to 5 parameters and their calls, choices and sequences of up to 9 parts, with
/// one or two places changed.
fn wide(two: bool) -> E {
    const MANY: [&str; 6] = ["x", "y", "z", "u", "v", "w"];
    let some = |k: usize| -> E {
        match k {
            6 => E::Eps,
            7 => E::Lit(vec!['a']),
            8 => E::Cat(vec![E::Var("x".into()), E::Lit(vec!['b'])]),
            9 => E::Alt(vec![(E::Lit(vec!['b']), Some("m".into())), (E::Var("y".into()), None)]),
            10 => E::Fix(Box::new(E::Lam(vec!["z".into()], Box::new(E::Var("z".into()))))),
            11 => E::Call(Box::new(E::Var("v".into())), vec![E::Var("x".into())]),
            k => E::Var(MANY[k].into()),
        }
    };
    let kind = choose(4);
    let n = if kind == 0 { 3 + choose(3) } else { [3, 9, 5][choose(if two { 3 } else { 2 })] };
    match kind {
        0 => {
            // Parameters, two of which may have the same name, and a body that uses all of them.
            let mut a: Vec<String> = MANY[..n].iter().map(|s| s.to_string()).collect();
            let (i, j) = (choose(n), choose(n));
            a[i] = a[j].clone();
            let mut body: Vec<E> = MANY[..n].iter().map(|s| E::Var(s.to_string())).collect();
            let at = if two { choose(n) } else { 0 };
            body[at] = some(choose(6));
            let f = E::Lam(a, Box::new(E::Cat(body)));
            let outer = MANY[choose(if two { 6 } else { 2 }) * 4 % 5].to_owned();
            E::Let(outer, Box::new(E::Lit(vec!['o'])), Box::new(if any_bool() { f } else { E::Let("f".into(), Box::new(f), Box::new(E::Var("f".into()))) }))
        }
        1 => {
            let mut v: Vec<E> = (0..n).map(|_| E::Lit(vec!['c'])).collect();
            v[choose(n)] = some(choose(12));
            if two {
                v[choose(n)] = some(choose(12));
            }
            let f = v.remove(0);
            bound(E::Call(Box::new(f), v))
        }
        2 => {
            let mut v: Vec<E> = (0..n).map(|i| some(6 + i % 2)).collect();
            v[choose(n)] = some(choose(12));
            if two {
                v[choose(n)] = some([8, 9, 0][choose(3)]);
            }
            bound(E::Cat(v))
        }
        _ => {
            let mut v: Vec<(E, Option<String>)> = (0..n).map(|i| (some(6 + i % 2), None)).collect();
            v[choose(n)].0 = some(choose(12));
            v[choose(n)].1 = Some("l".into());
            if two {
                v[choose(n)].1 = Some("x".into());
            }
            bound(E::Alt(v))
        }
    }
}
/// With some of the names in it bound.
fn bound(e: E) -> E {
    let f = E::Lam(vec!["x".into(), "y".into()], Box::new(E::Var("y".into())));
    let e = E::Let("v".into(), Box::new(f), Box::new(e));
    let e = E::Let("y".into(), Box::new(E::Var("x".into())), Box::new(e));
    E::Let("x".into(), Box::new(E::Lit(vec!['a'])), Box::new(e))
}
#[no_mangle]
pub extern "C" fn h_scope_wide() {
    let e = wide(true);
    scope_of(e, (true, false))
}
#[no_mangle]
pub extern "C" fn h_both_wide() {
    let e = wide(false);
    let layout = (choose(2) == 1, false);
    check(tokens_kept(&write(&e, layout)), "the macro's syntax tree gives back the tokens");
    both_of(&e, layout)
}

/// Any sequence of scope operations.
#[no_mangle]
pub extern "C" fn h_context() {
    fn go(c: &mut Context, m: &mut Vec<usize>, left: usize) {
        let n = |i: usize| Name::new_variable(NAMES[i].to_owned());
        for i in 0..3 {
            check(c.lookup(&n(i)) == m.iter().rev().position(|k| *k == i), "a name is looked up at its innermost binder");
            check(c.lookup(&Name::new_let(NAMES[i].to_owned())) == c.lookup(&n(i)), "the kind of a name does not matter to its scope");
        }
        if left == 0 {
            cover(1);
            return;
        }
        let depth = m.len();
        match choose(3) {
            0 => {
                let i = choose(3);
                c.push_variable(n(i));
                m.push(i);
                go(c, m, left - 1);
            }
            1 => {
                let i = choose(3);
                m.push(i);
                let r = c.with_variable(n(i), |c| {
                    go(c, m, if left > 1 { choose(2) } else { 0 });
                    // Whatever is pushed inside is the callee's business to undo.
                    while m.len() > depth + 1 {
                        m.pop();
                    }
                    7
                });
                check(r == 7, "the result of the scope");
                m.truncate(depth);
            }
            _ => {
                let (i, j) = (choose(3), choose(3));
                m.extend([i, j]);
                let r = c.with_variables(vec![n(i), n(j)], |c| {
                    for k in 0..3 {
                        check(c.lookup(&n(k)) == m.iter().rev().position(|x| *x == k), "a name is looked up at its innermost binder");
                    }
                    9
                });
                check(r == 9, "the result of the scope");
                m.truncate(depth);
                go(c, m, left - 1);
            }
        }
    }
    go(&mut Context::new(), &mut vec![], 3);
}

/// Grammars with much of something: parameters, bindings, parts, brackets, characters of a name or a literal.
/// `all`: literals may have characters outside of ASCII.
fn much(all: bool) -> E {
    let nth = |k: usize| format!("{}{}", (b'a' + (k % 26) as u8) as char, (b'b' + (k / 26 + k % 3) as u8) as char);
    let v = |s: &str| E::Var(s.to_owned());
    let lit = |s: &str| E::Lit(s.chars().collect());
    match choose(7) {
        0 => {
            // Parameters, two of which may have the same name, a body that uses any of them, and a call.
            let n = [7, 9, 12, 17][choose(4)];
            let mut a: Vec<String> = (0..n).map(nth).collect();
            let (i, j) = (choose(n), [0, n / 2, n - 1][choose(3)]);
            a[i] = a[j].clone();
            let body = E::Cat(vec![v(&nth(choose(n))), v(&nth(i))]);
            let args = (0..n).map(|k| lit(&nth(k))).collect();
            E::Let("f".into(), Box::new(E::Lam(a, Box::new(body))), Box::new(E::Call(Box::new(v("f")), args)))
        }
        1 => {
            // Bindings, two of which may have the same name, the last of which uses any.
            let n = [6, 9, 12, 17][choose(4)];
            let (i, j) = (choose(n), [0, n / 2, n - 1][choose(3)]);
            let used = choose(n);
            let mut e = E::Cat(vec![v(&nth(used)), v(&nth(i))]);
            for k in (0..n).rev() {
                let b = if k == 0 { lit("a") } else { E::Cat(vec![lit("b"), v(&nth(k - 1))]) };
                let b = if k > 0 && k == i { v(&nth(j)) } else { b };
                e = E::Let(nth(if k == j { i } else { k }), Box::new(b), Box::new(e));
            }
            e
        }
        2 => {
            // Parts, one of which is something else.
            let n = [10, 16, 17, 33][choose(4)];
            let at = choose(n);
            let part = |k: usize| if k != at { lit(&nth(k)) } else {
                match choose(5) {
                    0 => E::Eps,
                    1 => v("f"),
                    2 => E::Call(Box::new(v("f")), vec![lit("a")]),
                    3 => E::Alt(vec![(lit("a"), Some("m".into())), (E::Eps, None)]),
                    _ => E::Cat(vec![lit("a"), v("q")]),
                }
            };
            bound_f(match choose(3) {
                0 => E::Cat((0..n).map(part).collect()),
                1 => E::Alt((0..n).map(|k| (part(k), if k == (at + 1) % n { Some("l".to_owned()) } else { None })).collect()),
                _ => E::Call(Box::new(v("f")), (0..n).map(part).collect()),
            })
        }
        3 => {
            // Brackets inside of each other.
            let n = [4, 7, 8, 12, 16][choose(5)];
            let kind = choose(4);
            let mut e = if choose(2) == 0 { lit("a") } else { v(["f", "x", "q"][choose(3)]) };
            for k in 0..n {
                e = match (kind, k % 2) {
                    (0, _) => E::Fix(Box::new(E::Lam(vec!["x".into()], Box::new(e)))),
                    (1, 0) => E::Alt(vec![(e, None), (E::Eps, if k == 2 { Some("l".into()) } else { None })]),
                    (1, _) => E::Cat(vec![e, lit("b")]),
                    (2, 0) => E::Cat(vec![lit("b"), e]),
                    (2, _) => E::Call(Box::new(v("f")), vec![e, lit("c")]),
                    (_, 0) => E::Fix(Box::new(e)),
                    _ => E::Call(Box::new(e), vec![lit("c")]),
                };
            }
            bound_f(e)
        }
        4 => {
            // Functions inside of each other, all of whose parameters are in scope.
            let n = [4, 7, 9, 12][choose(4)];
            let mut e = v(&nth(choose(n + 1)));
            for k in (0..n).rev() {
                e = E::Lam(vec![nth(k)], Box::new(e));
                e = if choose_once(k == n / 2) { E::Fix(Box::new(e)) } else { e };
            }
            e
        }
        5 => {
            // Long names that differ in one place or in length.
            let n = [8, 15, 16, 17, 31, 32, 33, 40][choose(8)];
            let a: String = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect();
            let mut b = a.clone().into_bytes();
            match choose(3) {
                0 => b[[1, n / 2, n - 1][choose(3)]] = b'_',
                1 => b.push(b'_'),
                _ => {
                    b.pop();
                }
            }
            let b = String::from_utf8(b).unwrap();
            let used = if choose(2) == 0 { &a } else { &b };
            let goal = E::Alt(vec![(v(used), Some(a.clone())), (lit("c"), Some(b.clone()))]);
            if choose(2) == 0 {
                return E::Let(a, Box::new(lit("a")), Box::new(goal));
            }
            E::Let(a, Box::new(lit("a")), Box::new(E::Let(b, Box::new(lit("b")), Box::new(goal))))
        }
        _ => {
            // Long literals.
            let n = [8, 16, 17, 33, 64, 65, 100][choose(7)];
            let one = |c: char| E::Lit((0..n).map(|k| if k + 1 == n { c } else { (b'a' + (k % 26) as u8) as char }).collect());
            E::Cat(vec![one('A'), one(if all { '\u{e9}' } else { '~' }), one(if all { '\u{1f600}' } else { '{' }), E::Alt(vec![(one('B'), None), (one('C'), Some("l".into()))])])
        }
    }
}
fn choose_once(b: bool) -> bool {
    b && choose(2) == 1
}
fn bound_f(e: E) -> E {
    E::Let("f".into(), Box::new(E::Lam(vec!["x".into(), "y".into()], Box::new(E::Var("y".into())))), Box::new(e))
}
#[no_mangle]
pub extern "C" fn h_scope_much() {
    let e = much(true);
    let layout = layout();
    scope_of(e, layout)
}
#[no_mangle]
pub extern "C" fn h_both_much() {
    let e = much(false);
    let layout = (choose(2) == 1, false);
    check(tokens_kept(&write(&e, layout)), "the macro's syntax tree gives back the tokens");
    both_of(&e, layout)
}

/// A goal goes by its label, by its name if it is but a name, and by that of the root otherwise.
#[no_mangle]
pub extern "C" fn h_goal() {
    let n = 1 + choose(4);
    let e = stmt(n);
    let layout = layout();
    let mut text = write(&e, layout);
    let mut goal = &e;
    while let E::Let(_, _, r) = goal {
        goal = r;
    }
    if matches!(goal, E::Lam(..)) {
        return;
    }
    let label = !matches!(goal, E::Alt(_)) && choose(2) == 1;
    if label {
        while text.ends_with([' ', ';']) {
            text.pop();
        }
        text.push_str(" : l;");
    }
    match nibble(&text) {
        Some(Ok(ne)) => {
            let mut at = &ne;
            while let Expression::Let(l) = &at.expr {
                at = &l.body;
            }
            let want = match goal {
                _ if label => {
                    cover(2);
                    Name::new_label("l".to_owned())
                }
                E::Var(x) => {
                    cover(3);
                    Name::new_variable(x.clone())
                }
                _ => {
                    cover(1);
                    Name::new_variable("Ast".to_owned())
                }
            };
            check(at.name == Some(want), "a goal goes by its label or name, or by that of the root");
        }
        Some(Err(_)) => cover(9),
        None => check(false, "every grammar of the notation is read"),
    }
    observe(text.len() as u64);
}
