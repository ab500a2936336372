//! Equality of expressions, and what error messages name.
use crate::ast::*;
use chomp::chomp::ast::error::ReductionError;
use chomp::chomp::ast::{Expression, Lambda, NamedExpression, Variable};
use chomp::chomp::name::Name;
use chomp::chomp::typed::context::{Context, GetVariableError};
use chomp::chomp::typed::error::{TypeError, VariableError};
use chomp::chomp::typed::{TypeInfer, TypedExpression};
use chomp::chomp::visit::Visitable;
use chomp::nibble::convert::ConvertError;
use proc_macro2::Span;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use sym::*;

fn cfg(fun: bool) -> Cfg {
    Cfg { lit: 1, empty: true, ternary: true, free: fun, fun, chars: 2 }
}
/// The same with some parts labelled.
fn tag(e: &mut NamedExpression, left: &mut usize) {
    if *left > 0 && any_bool() {
        *left -= 1;
        e.name = Some(if any_bool() { Name::new_label("p".to_owned()) } else { Name::new_let("q".to_owned()) });
    }
    let mut parts: Vec<&mut NamedExpression> = vec![];
    match &mut e.expr {
        Expression::Cat(c) => {
            parts.push(&mut c.first);
            parts.extend(c.rest.iter_mut().map(|x| &mut x.1));
        }
        Expression::Alt(c) => {
            parts.push(&mut c.first);
            parts.extend(c.rest.iter_mut().map(|x| &mut x.1));
        }
        Expression::Fix(f) => parts.push(&mut f.inner),
        Expression::Lambda(l) => parts.push(&mut l.inner),
        Expression::Call(c) => {
            parts.push(&mut c.on);
            parts.extend(c.args.iter_mut());
        }
        Expression::Let(l) => {
            parts.push(&mut l.bound);
            parts.push(&mut l.body);
        }
        _ => (),
    }
    for p in parts {
        tag(p, left);
    }
}
fn alike(c: Cfg, n: usize, m: usize, labels: usize) {
    let (a, b) = (term(c, n, 0), term(c, m, 0));
    let (mut x, mut y) = (build(&a), build(&b));
    let mut left = labels;
    tag(&mut x, &mut left);
    tag(&mut y, &mut left);
    check((x == y) == (a == b), "expressions are equal exactly if they are built alike");
    check((y == x) == (a == b), "equality is symmetric");
    check(x.expr == y.expr || a != b, "labels do not matter");
    check(x == x.clone(), "a copy is equal");
    cover(conc(1 + (a == b) as u64));
}
#[no_mangle]
pub extern "C" fn h_alike3() {
    let (n, m) = (1 + choose(3), 1 + choose(3));
    alike(cfg(true), n, m, 1);
}
#[no_mangle]
pub extern "C" fn h_alike4() {
    alike(Cfg { lit: 1, empty: false, ternary: true, free: false, fun: true, chars: 1 }, 4, 4, 0);
}

/// Expressions of different sizes.
#[no_mangle]
pub extern "C" fn h_alike34() {
    let c = Cfg { lit: 1, empty: false, ternary: true, free: false, fun: true, chars: 1 };
    alike(c, 3, 4 + choose(2), 0);
}
/// Sequences, choices, calls and functions of up to six parts, parameters or arguments.
#[no_mangle]
pub extern "C" fn h_alike_wide() {
    let kind = choose(4);
    let one = |kind: usize| {
        let n = choose(7);
        if kind == 3 {
            return (n, T::Lam(n, Box::new(T::Lit(vec!['a']))));
        }
        let parts: Vec<T> = (0..1 + n).map(|_| T::Lit(vec![(b'a' + below(2)) as char])).collect();
        (n, match kind {
            0 => T::Cat(parts),
            1 => T::Alt(parts),
            _ => T::Call(Box::new(T::Var(0)), parts[1..].to_vec()),
        })
    };
    let ((n, a), (m, b)) = (one(kind), one(kind));
    let (x, y) = (build(&a), build(&b));
    check((x == y) == (a == b), "expressions are equal exactly if they are built alike");
    check((y == x) == (x == y), "equality is symmetric");
    cover(conc(1 + (a == b) as u64));
    if kind < 2 && n > 0 && m > 0 {
        let c = |t: &T| match t {
            T::Cat(v) => T::Alt(v.clone()),
            T::Alt(v) => T::Cat(v.clone()),
            t => t.clone(),
        };
        check(x != build(&c(&a)) && build(&c(&b)) != y, "a sequence and a choice are different");
        cover(3);
    }
}

fn names(e: &NamedExpression) -> Vec<Option<String>> {
    let mut v = vec![e.name.as_ref().map(|n| n.to_string())];
    match &e.expr {
        Expression::Cat(c) => {
            v.extend(names(&c.first));
            c.rest.iter().for_each(|x| v.extend(names(&x.1)));
        }
        Expression::Alt(c) => {
            v.extend(names(&c.first));
            c.rest.iter().for_each(|x| v.extend(names(&x.1)));
        }
        Expression::Fix(f) => v.extend(names(&f.inner)),
        Expression::Lambda(l) => v.extend(names(&l.inner)),
        _ => (),
    }
    v
}
/// With one character for each letter at a time: hashes are computed of it.
fn picked(t: T) -> T {
    match t {
        T::Lit(v) => T::Lit(v.into_iter().map(|c| conc(c as u64) as u8 as char).collect()),
        T::Cat(v) => T::Cat(v.into_iter().map(picked).collect()),
        T::Alt(v) => T::Alt(v.into_iter().map(picked).collect()),
        T::Fix(n, b) => T::Fix(n, Box::new(picked(*b))),
        t => t,
    }
}
fn fixed(t: &T) -> bool {
    match t {
        T::Fix(..) => true,
        T::Cat(v) | T::Alt(v) => v.iter().any(fixed),
        _ => false,
    }
}
fn infer(e: NamedExpression) -> Option<TypedExpression> {
    e.fold(&mut TypeInfer { context: &mut Context::default() }).ok()
}
fn hash(e: &TypedExpression) -> u64 {
    let mut h = DefaultHasher::new();
    e.hash(&mut h);
    h.finish()
}
fn typed(n: usize, m: usize, labels: usize) {
    let (a, b) = (picked(term(cfg(false), n, 0)), picked(term(cfg(false), m, 0)));
    let (mut x, mut y) = (build(&a), build(&b));
    if a == b {
        tag(&mut x, &mut { labels });
        tag(&mut y, &mut { labels });
    }
    let same = a == b && names(&x) == names(&y);
    // The body of a fixed point takes on its name, which can hide a difference.
    let simple = !fixed(&a);
    let (Some(s), Some(t)) = (infer(x), infer(y)) else {
        return cover(9);
    };
    if same {
        check(s == t, "expressions built and labelled alike are equal");
        check(hash(&s) == hash(&t), "equal expressions hash alike");
        cover(1);
    } else if a != b || simple {
        check(s != t && t != s, "expressions built otherwise are different");
        cover(2);
    }
    check(s == s.clone() && hash(&s) == hash(&s.clone()), "a copy is equal");
}
#[no_mangle]
pub extern "C" fn h_alike_typed3() {
    let (n, m) = (1 + choose(3), 1 + choose(3));
    typed(n, m, 2);
}
#[no_mangle]
pub extern "C" fn h_alike_typed4() {
    typed(4, 4, 0);
}

/// Digits of a number that stand on their own, in order.
fn numbers(m: &str) -> Vec<String> {
    m.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).map(|s| s.to_owned()).collect()
}
#[no_mangle]
pub extern "C" fn h_msg_count() {
    let (m, n) = (choose(13), choose(13));
    assume(m != n);
    let lambda = Lambda { args: (0..m).map(arg).collect(), inner: Box::new(build(&T::Eps)) };
    let e = ReductionError::WrongArgCount { lambda, args: (0..n).map(|_| build(&T::Eps)).collect(), span: Span::call_site() };
    let s = e.to_string();
    check(numbers(&s) == [m.to_string(), n.to_string()], "the message says how many arguments a function takes and how many were supplied");
    check(syn::Error::from(e).to_string() == s, "the compiler shows the same message");
    cover(1);
    observe(s.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_msg_name() {
    let n = 1 + choose(3);
    let mut w: String = (0..n).map(|_| (b'a' + below(26)) as char).collect();
    if n == 1 {
        const TAIL: &str = "_Name_of_quite_some_length_with_2_or_more_parts_and_rather_more_than_eighty_letters_in_all_of_it";
        w.push_str(&TAIL[..[0, 4, 7, 8, 9, 15, 16, 31, 32, 40, 63, 64, 80, TAIL.len()][choose(14)]]);
    }
    let quoted = format!("`{w}`");
    let span = Span::call_site();
    let name = Name::new_variable(w.clone());
    let var = Variable { index: choose(3) };
    let quotes = |s: &str| s.as_bytes().windows(quoted.len()).any(|x| x == quoted.as_bytes());
    let (s, shown) = match choose(4) {
        0 => {
            let e = ConvertError::UndeclaredName(Box::new(name));
            (e.to_string(), syn::Error::from(e).to_string())
        }
        1 => {
            let e = TypeError::from(VariableError { inner: GetVariableError::GuardedVariable, var, span, name: Some(name) });
            (e.to_string(), syn::Error::from(e).to_string())
        }
        2 => {
            let e = TypeError::from(VariableError { inner: GetVariableError::FreeVariable, var, span, name: Some(name) });
            (e.to_string(), syn::Error::from(e).to_string())
        }
        _ => {
            let e = TypeError::from(VariableError { inner: GetVariableError::GuardedVariable, var, span, name: None });
            let s = e.to_string();
            check(numbers(&s) == [var.index.to_string()], "a variable without a name is shown by its number");
            check(syn::Error::from(e).to_string() == s, "the compiler shows the same message");
            return cover(2);
        }
    };
    check(quotes(&s), "the message gives the name");
    check(s == shown, "the compiler shows the same message");
    cover(1);
    observe(s.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_msg_escape() {
    let c: u32 = any_u32();
    assume(char::from_u32(c).is_none());
    let e = ConvertError::InvalidEscape(Span::call_site(), c);
    let s = e.to_string();
    let hex = s.as_bytes().windows(3).position(|w| w == b"\\u{").map(|i| s[i + 3..].bytes().take_while(|b| b.is_ascii_hexdigit()).fold(0u64, |n, b| n * 16 + (b as char).to_digit(16).unwrap_or(0) as u64));
    check(hex == Some(c as u64), "the message gives the escape that is no character");
    cover(1);
}
/// Many parts, parameters or arguments, all but one or two the same.
#[no_mangle]
pub extern "C" fn h_alike_many() {
    let n = [7, 8, 9, 12, 15, 16, 17, 26, 33][choose(9)];
    let kind = choose(4);
    let v: Vec<char> = (0..n).map(|k| (b'A' + k as u8) as char).collect();
    let mut w = v.clone();
    let i = choose(n);
    match choose(4) {
        0 => (),
        1 => w[i] = '!',
        2 => w.swap(i, (i + 1) % n),
        _ => {
            w.remove(i);
        }
    }
    let one = |v: &[char]| {
        let parts: Vec<T> = v.iter().map(|c| T::Lit(vec![*c])).collect();
        build(&match kind {
            0 => T::Cat(parts),
            1 => T::Alt(parts),
            2 => T::Call(Box::new(T::Var(0)), parts),
            _ => T::Lit(v.to_vec()),
        })
    };
    let (x, y) = (one(&v), one(&w));
    check((x == y) == (v == w), "expressions are equal exactly if they are built alike");
    check((y == x) == (x == y), "equality is symmetric");
    if kind != 2 {
        let (Some(s), Some(t)) = (infer(x), infer(y)) else { return cover(9) };
        check((s == t) == (v == w) && (t == s) == (s == t), "typed expressions are equal exactly if they are built alike");
        check(v != w || hash(&s) == hash(&t), "equal expressions hash alike");
        cover(conc(3 + (v == w) as u64));
    }
    cover(conc(1 + (v == w) as u64));
}
