//! The generated code, read back as a set of type definitions.
use crate::ast::*;
use chomp::chomp::ast::{Expression, NamedExpression};
use chomp::chomp::name::Name;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::TypeInfer;
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use proc_macro2::{Delimiter, Span, TokenStream, TokenTree};
use sym::*;

#[derive(Clone, Debug)]
pub enum Def {
    /// A unit struct; the string its parser consumes.
    Unit(Option<String>),
    /// Parts of a struct, in order, and their names if it has any.
    Struct(Vec<String>, Option<Vec<String>>),
    /// Variant names, their contents, and the arms of its parser (first characters per variant,
    /// and the variant taken otherwise) if these could be read.
    Enum(Vec<(String, String)>, Vec<(char, String)>, Option<String>),
    Alias(String),
}

fn ident(t: Option<&TokenTree>) -> Option<String> {
    match t {
        Some(TokenTree::Ident(i)) => Some(i.to_string()),
        _ => None,
    }
}
fn is_punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
fn group(t: Option<&TokenTree>, d: Delimiter) -> Option<Vec<TokenTree>> {
    match t {
        Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.stream().into_iter().collect()),
        // Interpolated groups without delimiters are transparent.
        _ => None,
    }
}
fn split(v: &[TokenTree]) -> Vec<Vec<TokenTree>> {
    let mut out = vec![vec![]];
    for t in v {
        if is_punct(Some(t), ',') {
            out.push(vec![]);
        } else {
            out.last_mut().unwrap().push(t.clone());
        }
    }
    if out.last().unwrap().is_empty() {
        out.pop();
    }
    out
}
/// The identifiers and brackets of a type, without spaces.
fn ty(v: &[TokenTree]) -> String {
    let mut s = String::new();
    for t in v {
        match t {
            TokenTree::Ident(i) => s.push_str(&i.to_string()),
            TokenTree::Punct(p) => s.push(p.as_char()),
            TokenTree::Group(g) => s.push_str(&ty(&g.stream().into_iter().collect::<Vec<_>>())),
            TokenTree::Literal(_) => s.push('?'),
        }
    }
    s
}
fn strip(s: &str) -> &str {
    s.strip_prefix("pub").unwrap_or(s)
}

/// The text of a literal between quotes.
fn unescape(s: &str, quote: char) -> Option<String> {
    let s = s.strip_prefix(quote)?.strip_suffix(quote)?;
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        out.push(match c {
            '\\' => match it.next()? {
                'n' => '\n',
                'r' => '\r',
                't' => '\t',
                '0' => '\0',
                'x' => u32::from_str_radix(it.as_str().get(..2)?, 16).ok().and_then(|n| {
                    it.nth(1);
                    char::from_u32(n)
                })?,
                'u' => {
                    let (n, rest) = it.as_str().strip_prefix('{')?.split_once('}')?;
                    it = rest.chars();
                    char::from_u32(u32::from_str_radix(n, 16).ok()?)?
                }
                c => c,
            },
            c => c,
        });
    }
    Some(out)
}

fn find_call(v: &[TokenTree], name: &str) -> Option<String> {
    for (i, t) in v.iter().enumerate() {
        if ident(Some(t)).as_deref() == Some(name) {
            if let Some(g) = group(v.get(i + 1), Delimiter::Parenthesis) {
                if let [TokenTree::Literal(l)] = &g[..] {
                    return unescape(&l.to_string(), '"');
                }
            }
        }
        if let TokenTree::Group(g) = t {
            let r = find_call(&g.stream().into_iter().collect::<Vec<_>>(), name);
            if r.is_some() {
                return r;
            }
        }
    }
    None
}

/// Reads `Some('a') | Some('b') => Ok(Self::V(..)), _ => Ok(Self::W(..))`.
fn arms(v: &[TokenTree]) -> Option<(Vec<(char, String)>, Option<String>)> {
    for (i, t) in v.iter().enumerate() {
        if let TokenTree::Group(g) = t {
            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
            let is_match = g.delimiter() == Delimiter::Brace && v[..i].iter().any(|t| ident(Some(t)).as_deref() == Some("match"));
            if is_match {
                let mut out = vec![];
                let mut default = None;
                for arm in split(&inner) {
                    let at = arm.iter().position(|t| is_punct(Some(t), '='))?;
                    let mut cs = vec![];
                    chars_of(&arm[..at], &mut cs);
                    let under = arm.first().and_then(|t| ident(Some(t))).as_deref() == Some("_");
                    let to = variant(&arm[at..]);
                    if under {
                        default = to;
                    } else if let Some(to) = to {
                        for c in cs {
                            out.push((c, to.clone()));
                        }
                    }
                }
                return Some((out, default));
            }
            if let Some(r) = arms(&inner) {
                return Some(r);
            }
        }
    }
    None
}
fn chars_of(v: &[TokenTree], out: &mut Vec<char>) {
    for t in v {
        match t {
            TokenTree::Literal(l) => {
                if let Some(s) = unescape(&l.to_string(), '\'') {
                    out.extend(s.chars());
                }
            }
            TokenTree::Group(g) => chars_of(&g.stream().into_iter().collect::<Vec<_>>(), out),
            _ => (),
        }
    }
}
fn variant(v: &[TokenTree]) -> Option<String> {
    for (i, t) in v.iter().enumerate() {
        if ident(Some(t)).as_deref() == Some("Self") && is_punct(v.get(i + 1), ':') {
            return ident(v.get(i + 3));
        }
        if let TokenTree::Group(g) = t {
            let r = variant(&g.stream().into_iter().collect::<Vec<_>>());
            if r.is_some() {
                return r;
            }
        }
    }
    None
}

/// Reads the definitions; checks that nothing is defined twice.
pub fn read(code: TokenStream) -> Vec<(String, Def)> {
    let v: Vec<TokenTree> = code.into_iter().collect();
    let mut defs: Vec<(String, Def)> = vec![];
    let mut i = 0;
    while i < v.len() {
        let kw = ident(v.get(i));
        match kw.as_deref() {
            Some("struct") | Some("enum") | Some("type") => {
                if let Some(name) = ident(v.get(i + 1)) {
                    check(defs.iter().all(|d| d.0 != name), "no two generated types have the same name");
                    let def = if kw.as_deref() == Some("type") {
                        let end = v[i..].iter().position(|t| is_punct(Some(t), ';')).map_or(v.len(), |e| i + e);
                        let d = Def::Alias(ty(&v[i + 3..end]));
                        i = end;
                        d
                    } else if kw.as_deref() == Some("enum") {
                        let mut vs = vec![];
                        for p in split(&group(v.get(i + 2), Delimiter::Brace).unwrap_or_default()) {
                            let n = ident(p.first()).unwrap_or_default();
                            check(vs.iter().all(|x: &(String, String)| x.0 != n), "no two branches have the same name");
                            let inner = group(p.get(1), Delimiter::Parenthesis).unwrap_or_default();
                            vs.push((n, ty(&inner)));
                        }
                        Def::Enum(vs, vec![], None)
                    } else if let Some(g) = group(v.get(i + 2), Delimiter::Brace) {
                        let mut names: Vec<String> = vec![];
                        let mut tys = vec![];
                        for p in split(&g) {
                            let at = p.iter().position(|t| is_punct(Some(t), ':')).unwrap_or(p.len() - 1);
                            let n = ident(p.get(at.wrapping_sub(1))).unwrap_or_default();
                            check(!names.contains(&n), "no two parts have the same name");
                            names.push(n);
                            tys.push(ty(&p[at + 1..]));
                        }
                        Def::Struct(tys, Some(names))
                    } else if let Some(g) = group(v.get(i + 2), Delimiter::Parenthesis) {
                        Def::Struct(split(&g).iter().map(|p| strip(&ty(p)).to_owned()).collect(), None)
                    } else {
                        Def::Unit(None)
                    };
                    defs.push((name, def));
                }
            }
            Some("impl") if ident(v.get(i + 1)).as_deref() == Some("Parse") => {
                let name = ident(v.get(i + 3)).unwrap_or_default();
                let body = group(v.get(i + 4), Delimiter::Brace).unwrap_or_default();
                if let Some(d) = defs.iter_mut().find(|d| d.0 == name) {
                    match &mut d.1 {
                        Def::Unit(s) => *s = find_call(&body, "consume_str"),
                        Def::Enum(_, a, n) => {
                            if let Some((x, y)) = arms(&body) {
                                *a = x;
                                *n = y;
                            }
                        }
                        _ => (),
                    }
                }
            }
            _ => (),
        }
        i += 1;
    }
    defs
}

/// All types and fields can be used from outside.
pub fn public(code: &TokenStream) {
    let v: Vec<TokenTree> = code.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match ident(Some(t)).as_deref() {
            Some(k @ ("struct" | "enum" | "type")) => {
                check(i > 0 && ident(v.get(i - 1)).as_deref() == Some("pub"), "types are public");
                let fields = group(v.get(i + 2), Delimiter::Brace).or_else(|| group(v.get(i + 2), Delimiter::Parenthesis));
                if let (Some(g), "struct") = (fields, k) {
                    cover(6);
                    check(split(&g).iter().all(|p| p.iter().any(|t| ident(Some(t)).as_deref() == Some("pub"))), "fields are public");
                }
            }
            _ => (),
        }
    }
}

fn lookup<'a>(defs: &'a [(String, Def)], name: &str) -> Option<&'a Def> {
    defs.iter().find(|d| d.0 == name).map(|d| &d.1)
}
/// Unfolds aliases and boxes.
fn resolve<'a>(defs: &'a [(String, Def)], name: &'a str) -> (&'a str, Option<&'a Def>) {
    let mut n = name;
    for _ in 0..64 {
        if let Some(b) = n.strip_prefix("Box<").and_then(|s| s.strip_suffix('>')) {
            n = b;
            continue;
        }
        match lookup(defs, n) {
            Some(Def::Alias(t)) => n = t,
            d => return (n, d),
        }
    }
    check(false, "no type is an alias of itself");
    (n, None)
}

/// The environment of a term: what each variable unfolds to.
#[derive(Clone)]
enum Env<'a> {
    Nil,
    Cons(&'a T, std::rc::Rc<Env<'a>>),
}
fn unfold<'a>(t: &'a T, env: &std::rc::Rc<Env<'a>>) -> (&'a T, std::rc::Rc<Env<'a>>) {
    let mut t = t;
    let mut env = env.clone();
    loop {
        match t {
            T::Fix(_, b) => {
                env = std::rc::Rc::new(Env::Cons(t, env));
                t = b;
            }
            T::Var(i) => {
                let mut i = *i;
                loop {
                    let next = match &*env {
                        Env::Nil => unreachable!(),
                        Env::Cons(f, rest) => {
                            if i == 0 {
                                t = f;
                            }
                            rest.clone()
                        }
                    };
                    env = next;
                    if i == 0 {
                        break;
                    }
                    i -= 1;
                }
            }
            _ => return (t, env),
        }
    }
}

fn first_chars(t: &T, env: &std::rc::Rc<Env<'_>>, out: &mut Vec<char>) -> bool {
    let (t, env) = unfold(t, env);
    match t {
        T::Eps => true,
        T::Lit(s) => {
            out.extend(s.first());
            s.is_empty()
        }
        T::Cat(v) => first_chars(&v[0], &env, out),
        T::Alt(v) => v.iter().fold(false, |n, e| first_chars(e, &env, out) | n),
        _ => unreachable!(),
    }
}

fn ptr(t: &T, env: &std::rc::Rc<Env<'_>>) -> Vec<usize> {
    // Identity of a closed subterm: the node and those its variables stand for.
    let mut v = vec![t as *const T as usize];
    let mut e = env.clone();
    loop {
        let n = match &*e {
            Env::Nil => return v,
            Env::Cons(f, r) => {
                v.push(*f as *const T as usize);
                r.clone()
            }
        };
        e = n;
    }
}

/// The type must have the shape of the term; pairs met before are taken for granted.
fn same<'a>(t: &'a T, env: &std::rc::Rc<Env<'a>>, name: &str, defs: &[(String, Def)], seen: &mut Vec<(Vec<usize>, String)>) {
    let (t, env) = unfold(t, env);
    let (name, def) = resolve(defs, name);
    let key = (ptr(t, &env), name.to_owned());
    if seen.contains(&key) {
        return;
    }
    seen.push(key);
    match (t, def) {
        (T::Eps, None) => check(name == "Epsilon", "the empty string is parsed as such"),
        (T::Lit(s), Some(Def::Unit(l))) => {
            if let Some(l) = l {
                cover(2);
                check(l.chars().eq(s.iter().copied()), "a literal's type parses that literal");
            }
        }
        (T::Cat(v), Some(Def::Struct(p, _))) => {
            check(v.len() == p.len(), "a sequence's type has its parts");
            for (e, p) in v.iter().zip(p) {
                same(e, &env, p, defs, seen);
            }
        }
        (T::Alt(v), Some(Def::Enum(b, arms, default))) => {
            check(v.len() == b.len(), "a choice's type has its branches");
            for (e, (bn, p)) in v.iter().zip(b) {
                same(e, &env, p, defs, seen);
                if !arms.is_empty() || default.is_some() {
                    let mut f = vec![];
                    let null = first_chars(e, &env, &mut f);
                    cover(3);
                    for c in &f {
                        check(arms.iter().any(|(a, n)| a == c && n == bn), "each first character selects its branch");
                    }
                    check(arms.iter().all(|(a, n)| n != bn || f.contains(a)), "only first characters select a branch");
                    check((default.as_ref() == Some(bn)) == null, "the nullable branch is the default");
                }
            }
        }
        _ => check(false, "the generated type has the kind of the term"),
    }
}

pub fn generate(e: NamedExpression, name: Option<Name>) -> Option<TokenStream> {
    let typed = e.fold(&mut TypeInfer { context: &mut Context::default() }).ok()?;
    let mut b = RustBackend::default();
    let id = typed.gen(&mut b);
    Some(b.emit_code(name, Span::call_site(), id))
}

fn structure(t: &T) {
    match generate(build(t), None) {
        None => cover(9),
        Some(code) => {
            let defs = read(code);
            let nil = std::rc::Rc::new(Env::Nil);
            same(t, &nil, "Ast", &defs, &mut vec![]);
            cover(1);
            observe(defs.len() as u64);
        }
    }
}

/// Concrete letters: generated code hashes and prints them.
pub fn fix_letters(t: T) -> T {
    match t {
        T::Lit(s) => T::Lit(s.into_iter().map(|c| conc(c as u64) as u8 as char).collect()),
        T::Cat(v) => T::Cat(v.into_iter().map(fix_letters).collect()),
        T::Alt(v) => T::Alt(v.into_iter().map(fix_letters).collect()),
        T::Fix(n, b) => T::Fix(n, Box::new(fix_letters(*b))),
        t => t,
    }
}
fn cfg(ternary: bool, chars: u8) -> Cfg {
    Cfg { lit: 1, empty: false, ternary, free: false, fun: false, chars }
}
#[no_mangle]
pub extern "C" fn h_code5() {
    let n = 1 + choose(5);
    structure(&fix_letters(term(Cfg { lit: 2, empty: true, ..cfg(true, 3) }, n, 0)));
}
#[no_mangle]
pub extern "C" fn h_code7() {
    structure(&fix_letters(term(cfg(false, 3), 7, 0)));
}
#[no_mangle]
pub extern "C" fn h_code8() {
    structure(&fix_letters(term(cfg(false, 3), 8, 0)));
}

/// Two nested fixed points under different outer ones:
/// `"p" . !(/r/ "a" . "1" . I) | "q" . !(/r/ "a" . "2" . I)` with one arbitrary inner term `I`.
#[no_mangle]
pub extern "C" fn h_code_shared() {
    let n = 1 + choose(6);
    let i = fix_letters(term(cfg(false, 2), n, 1));
    let l = |c: char| T::Lit(vec![c]);
    let outer = |c: char| T::Fix(1, Box::new(T::Cat(vec![l('s'), l(c), i.clone()])));
    structure(&T::Alt(vec![T::Cat(vec![l('p'), outer('1')]), T::Cat(vec![l('q'), outer('2')])]));
}

const NAMES: [&str; 6] = ["lit", "part", "branch", "alt", "lit1", "ast"];
fn decorate(e: &mut NamedExpression, labels: usize) {
    let k = choose(labels + 1);
    if k > 0 {
        e.name = Some(Name::new_label(NAMES[k - 1].to_owned()));
    }
    match &mut e.expr {
        Expression::Cat(c) => {
            decorate(&mut c.first, labels);
            c.rest.iter_mut().for_each(|(_, e)| decorate(e, labels));
        }
        Expression::Alt(c) => {
            decorate(&mut c.first, labels);
            c.rest.iter_mut().for_each(|(_, e)| decorate(e, labels));
        }
        Expression::Fix(f) => {
            if let Expression::Lambda(l) = &mut f.inner.expr {
                decorate(&mut l.inner, labels);
            }
        }
        _ => (),
    }
}
fn named(n: usize, labels: usize) {
    let mut next = 0;
    fn letters(t: T, next: &mut u8) -> T {
        match t {
            T::Lit(_) => {
                *next += 1;
                T::Lit(vec![(b'a' + *next) as char])
            }
            T::Cat(v) => T::Cat(v.into_iter().map(|t| letters(t, next)).collect()),
            T::Alt(v) => T::Alt(v.into_iter().map(|t| letters(t, next)).collect()),
            T::Fix(n, b) => T::Fix(n, Box::new(letters(*b, next))),
            t => t,
        }
    }
    let t = letters(term(Cfg { lit: 1, empty: false, ternary: true, free: false, fun: false, chars: 1 }, n, 0), &mut next);
    let mut e = build(&t);
    decorate(&mut e, labels);
    match generate(e, None) {
        None => cover(9),
        Some(code) => {
            let defs = read(code);
            let nil = std::rc::Rc::new(Env::Nil);
            same(&t, &nil, "Ast", &defs, &mut vec![]);
            cover(1);
            observe(defs.len() as u64);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_code_names3() {
    let n = 1 + choose(3);
    named(n, 6);
}
#[no_mangle]
pub extern "C" fn h_code_names5() {
    named(5, 3);
}
#[no_mangle]
pub extern "C" fn h_code_names4() {
    named(4, 3);
}

/// Names as they are written, in snake case and in camel case.
const CASES: [(&str, &str, &str); 7] = [
    ("foo", "foo", "Foo"),
    ("foo_bar", "foo_bar", "FooBar"),
    ("FooBar", "foo_bar", "FooBar"),
    ("foo1", "foo1", "Foo1"),
    ("_", "_", "_"),
    ("part", "part", "Part"),
    ("branch", "branch", "Branch"),
];
fn case(n: &Option<Name>) -> Option<(&'static str, &'static str)> {
    n.as_ref().map(|n| {
        let n = n.to_string();
        CASES.iter().find(|c| c.0 == n).map(|c| (c.1, c.2)).unwrap()
    })
}
/// The names of parts: those called alike are numbered from one on, in order, past numbers in use.
fn numbered<'a>(v: impl Iterator<Item = Option<&'a str>>, default: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let mut met: Vec<&str> = vec![];
    for (i, n) in v.enumerate() {
        let mut k = match n {
            None => i + 1,
            Some(n) => {
                met.push(n);
                met.iter().filter(|m| **m == n).count()
            }
        };
        let base = n.unwrap_or(default);
        while out.contains(&format!("{}{}", base, k)) {
            k += 1;
        }
        out.push(format!("{}{}", base, k));
    }
    out
}
fn called_type(got: &str, name: &Option<Name>, default: &str) {
    let base = case(name).map_or(default, |c| c.1);
    check(
        got.strip_prefix(base).map_or(false, |d| !d.is_empty() && d.bytes().all(|c| c.is_ascii_digit())),
        "a type is called after the name of its part, or after its kind",
    );
}
/// Whether the two are of one structure, and of one structure with the same labels. Variables are
/// the same if they stand for the same fixed point.
fn alike(a: &NamedExpression, ea: &[String], b: &NamedExpression, eb: &[String], depth: usize) -> (bool, bool) {
    let named = a.name == b.name;
    let all = |x: Vec<&NamedExpression>, y: Vec<&NamedExpression>| {
        if x.len() != y.len() {
            return (false, false);
        }
        x.iter().zip(y).fold((true, named), |(s, n), (x, y)| {
            let (t, m) = alike(x, ea, y, eb, depth);
            (s && t, n && m)
        })
    };
    let is = |x: bool| (x, x && named);
    match (&a.expr, &b.expr) {
        (Expression::Epsilon(_), Expression::Epsilon(_)) => is(true),
        (Expression::Literal(x), Expression::Literal(y)) => is(x == y),
        (Expression::Cat(_), Expression::Cat(_)) | (Expression::Alt(_), Expression::Alt(_)) => all(parts(a), parts(b)),
        (Expression::Variable(x), Expression::Variable(y)) => {
            let of = |i: usize, e: &[String]| if i < depth { Err(i) } else { Ok(e[e.len() - 1 - (i - depth)].clone()) };
            is(of(x.index, ea) == of(y.index, eb))
        }
        (Expression::Fix(x), Expression::Fix(y)) => match (&x.inner.expr, &y.inner.expr) {
            (Expression::Lambda(x), Expression::Lambda(y)) => {
                let (s, n) = alike(&x.inner, ea, &y.inner, eb, depth + 1);
                (s, n && named)
            }
            _ => (false, false),
        },
        _ => (false, false),
    }
}
fn parts(e: &NamedExpression) -> Vec<&NamedExpression> {
    match &e.expr {
        Expression::Cat(c) => std::iter::once(&*c.first).chain(c.rest.iter().map(|x| &x.1)).collect(),
        Expression::Alt(c) => std::iter::once(&*c.first).chain(c.rest.iter().map(|x| &x.1)).collect(),
        _ => vec![],
    }
}
fn has_empty(e: &NamedExpression) -> bool {
    match &e.expr {
        Expression::Epsilon(_) => true,
        Expression::Fix(f) => has_empty(&f.inner),
        Expression::Lambda(l) => has_empty(&l.inner),
        _ => parts(e).into_iter().any(has_empty),
    }
}
/// A part of a grammar with the types of the fixed points around it, and its own.
struct Met {
    e: NamedExpression,
    env: Vec<String>,
    ty: String,
}
/// The names of the type generated for `e` and of its parts.
fn called(e: &NamedExpression, env: &mut Vec<String>, got: &str, defs: &[(String, Def)], met: &mut Vec<Met>, apart: &mut bool) {
    match &e.expr {
        Expression::Epsilon(_) => return check(got == "Epsilon", "the empty string is parsed as such"),
        Expression::Variable(v) => {
            let want = &env[env.len() - 1 - v.index];
            return check(got == format!("Box<{}>", want), "a recursive use is its definition, boxed");
        }
        _ => (),
    }
    // Equal parts share one type, which is called after the first of them.
    let mut first = true;
    for m in met.iter() {
        let (same, labels) = alike(e, env, &m.e, &m.env, 0);
        if got == m.ty {
            first = false;
            cover(4);
            check(same, "different parts have different types");
        } else {
            if same && labels && has_empty(e) {
                *apart = true;
            } else {
                check(!same || !labels, "equal parts share a type");
            }
            if same {
                cover(5);
            }
        }
    }
    if first {
        met.push(Met { e: e.clone(), env: env.clone(), ty: got.to_owned() });
    }
    let parts = parts(e);
    match (&e.expr, lookup(defs, got)) {
        (Expression::Literal(_), Some(Def::Unit(_))) => {
            if first {
                called_type(got, &e.name, "Lit");
            }
        }
        (Expression::Cat(_), Some(Def::Struct(tys, names))) => {
            check(tys.len() == parts.len(), "a sequence's type has its parts");
            if first {
                called_type(got, &e.name, "Cat");
                if parts.iter().any(|p| p.name.is_some()) {
                    let want = numbered(parts.iter().map(|p| case(&p.name).map(|c| c.0)), "part");
                    cover(2);
                    check(names.as_ref() == Some(&want), "fields are called after the names of the parts, and numbered");
                } else {
                    check(names.is_none(), "without names there are no named fields");
                }
            }
            for (p, t) in parts.iter().zip(tys) {
                called(p, env, t, defs, met, apart);
            }
        }
        (Expression::Alt(_), Some(Def::Enum(v, _, _))) => {
            check(v.len() == parts.len(), "a choice's type has its branches");
            if first {
                called_type(got, &e.name, "Alt");
                let want = numbered(parts.iter().map(|p| case(&p.name).map(|c| c.1)), "Branch");
                cover(3);
                check(v.iter().map(|x| &x.0).eq(want.iter()), "variants are called after the names of the branches, and numbered");
            }
            for (p, t) in parts.iter().zip(v) {
                called(p, env, &t.1, defs, met, apart);
            }
        }
        (Expression::Fix(f), Some(Def::Alias(t))) => {
            if first {
                called_type(got, &e.name, "Fix");
            } else {
                return;
            }
            if let Expression::Lambda(l) = &f.inner.expr {
                // The body goes by the name of the fixed point unless its own is at least as significant.
                let mut body = (*l.inner).clone();
                if rank(&e.name) > rank(&body.name) {
                    body.name = e.name.clone();
                }
                env.push(got.to_owned());
                called(&body, env, t, defs, met, apart);
                env.pop();
            }
        }
        _ => check(false, "the generated type has the kind of the term"),
    }
}
fn rank(n: &Option<Name>) -> usize {
    n.as_ref().map_or(0, |n| {
        let s = n.to_string();
        if *n == Name::new_label(s.clone()) {
            3
        } else if *n == Name::new_let(s) {
            2
        } else {
            1
        }
    })
}
fn called_all(e: NamedExpression) {
    let Some(code) = generate(e.clone(), None) else {
        return cover(9);
    };
    public(&code);
    let defs = read(code);
    let mut apart = false;
    match lookup(&defs, "Ast") {
        Some(Def::Alias(root)) => called(&e, &mut vec![], root, &defs, &mut vec![], &mut apart),
        _ => check(false, "the root is called Ast"),
    }
    cover(1);
    observe(defs.len() as u64);
    check(!apart, "KNOWN:equal parts with the empty string in them");
}
fn some_label(labels: usize) -> Option<Name> {
    let k = choose(labels + 1);
    (k > 0).then(|| match k % 3 {
        0 => Name::new_label(CASES[k - 1].0.to_owned()),
        1 => Name::new_let(CASES[k - 1].0.to_owned()),
        _ => Name::new_variable(CASES[k - 1].0.to_owned()),
    })
}
fn label(e: &mut NamedExpression, labels: usize) {
    e.name = some_label(labels);
    match &mut e.expr {
        Expression::Cat(c) => {
            label(&mut c.first, labels);
            c.rest.iter_mut().for_each(|(_, e)| label(e, labels));
        }
        Expression::Alt(c) => {
            label(&mut c.first, labels);
            c.rest.iter_mut().for_each(|(_, e)| label(e, labels));
        }
        Expression::Fix(f) => {
            if let Expression::Lambda(l) = &mut f.inner.expr {
                label(&mut l.inner, labels);
            }
        }
        _ => (),
    }
}
fn distinct(t: T, next: &mut u8) -> T {
    match t {
        T::Lit(_) => {
            *next += 1;
            T::Lit(vec![(b'a' + *next) as char])
        }
        T::Cat(v) => T::Cat(v.into_iter().map(|t| distinct(t, next)).collect()),
        T::Alt(v) => T::Alt(v.into_iter().map(|t| distinct(t, next)).collect()),
        T::Fix(n, b) => T::Fix(n, Box::new(distinct(*b, next))),
        t => t,
    }
}
fn called_term(n: usize, labels: usize) {
    let t = term(Cfg { lit: 1, empty: false, ternary: true, free: false, fun: false, chars: 1 }, n, 0);
    let mut e = build(&distinct(t, &mut 0));
    label(&mut e, labels);
    called_all(e)
}
#[no_mangle]
pub extern "C" fn h_called3() {
    let n = 1 + choose(3);
    called_term(n, 7);
}
#[no_mangle]
pub extern "C" fn h_called4() {
    called_term(4, 4);
}
#[no_mangle]
pub extern "C" fn h_called5() {
    called_term(5, 2);
}
/// Terms over few letters, so that parts are equal, with up to `k` labels.
fn called_shared(t: &T, k: usize) {
    let mut e = build(t);
    let mut n = 0;
    count(&mut e, &mut |_| n += 1);
    let mut from = 0;
    for _ in 0..k {
        if from >= n || choose(2) == 0 {
            break;
        }
        let at = from + choose(n - from);
        from = at + 1;
        let name = match choose(3) {
            0 => Name::new_label("foo".to_owned()),
            1 => Name::new_label("FooBar".to_owned()),
            _ => Name::new_let("foo".to_owned()),
        };
        let mut i = 0;
        count(&mut e, &mut |e| {
            if i == at {
                e.name = Some(name.clone());
            }
            i += 1;
        });
    }
    called_all(e)
}
fn count(e: &mut NamedExpression, f: &mut impl FnMut(&mut NamedExpression)) {
    f(e);
    match &mut e.expr {
        Expression::Cat(c) => {
            count(&mut c.first, f);
            c.rest.iter_mut().for_each(|(_, e)| count(e, f));
        }
        Expression::Alt(c) => {
            count(&mut c.first, f);
            c.rest.iter_mut().for_each(|(_, e)| count(e, f));
        }
        Expression::Fix(x) => {
            if let Expression::Lambda(l) = &mut x.inner.expr {
                count(&mut l.inner, f);
            }
        }
        _ => (),
    }
}
#[no_mangle]
pub extern "C" fn h_called_shared5() {
    let n = 1 + choose(5);
    called_shared(&fix_letters(term(cfg(false, 2), n, 0)), 2)
}
#[no_mangle]
pub extern "C" fn h_called_shared7() {
    called_shared(&fix_letters(term(cfg(false, 3), 7, 0)), 0)
}
/// `"p" . I . "s" | "q" . J . "t"`, also within a fixed point; `J` is `I` or another.
#[no_mangle]
pub extern "C" fn h_called_twice() {
    let l = |c: char| T::Lit(vec![c]);
    let free = choose(2);
    let n = 1 + choose(4);
    let i = fix_letters(term(cfg(false, 2), n, free));
    let j = if n > 2 || choose(2) == 0 { i.clone() } else { fix_letters(term(cfg(false, 2), n, free)) };
    let t = T::Alt(vec![T::Cat(vec![l('p'), i, l('s')]), T::Cat(vec![l('q'), j, l('t')])]);
    let t = if free == 1 { T::Fix(1, Box::new(t)) } else { t };
    if n > 3 {
        return called_shared(&t, 0);
    }
    // A label anywhere, the same one or another at the same place of the other part.
    let mut e = build(&t);
    let at = choose(2 * n + 7 + free);
    let name = some_label(2);
    let twin = if n < 3 && choose(2) == 1 { some_label(2) } else { name.clone() };
    let start = 3 + free;
    let mut k = 0;
    count(&mut e, &mut |e| {
        if k == at {
            e.name = name.clone();
        } else if at >= start && at < start + n && k == at + n + 3 {
            e.name = twin.clone();
        }
        k += 1;
    });
    called_all(e)
}
/// One part under the same and under different fixed points.
#[no_mangle]
pub extern "C" fn h_called_under() {
    let l = |c: char| T::Lit(vec![c]);
    let n = 1 + choose(5);
    let i = fix_letters(term(cfg(false, 2), n, 1));
    let last = ['1', '2'][choose(2)];
    let outer = |c: char| T::Fix(1, Box::new(T::Cat(vec![l('s'), l(c), i.clone()])));
    called_shared(&T::Alt(vec![T::Cat(vec![l('p'), outer('1')]), T::Cat(vec![l('q'), outer(last)])]), if n < 3 { 1 } else { 0 })
}
/// Up to twelve parts, each called `foo`, or `foo` and nothing in turns, but for two with any name.
#[no_mangle]
pub extern "C" fn h_called_wide() {
    let parts = [3, 5, 11][choose(3)];
    let turns = choose(3);
    let v = (0..parts).map(|k| T::Lit(vec![(b'a' + k as u8) as char])).collect();
    let mut e = build(&if choose(2) == 0 { T::Cat(v) } else { T::Alt(v) });
    let i = choose(parts - 1);
    let j = i + 1 + choose(parts - 1 - i);
    let mut k = 0;
    let mut name = |e: &mut NamedExpression| {
        e.name = if k == i || k == j {
            some_label(4)
        } else if turns == 0 || turns == 1 && k % 2 == 0 {
            Some(Name::new_label("foo".to_owned()))
        } else {
            None
        };
        k += 1;
    };
    match &mut e.expr {
        Expression::Cat(c) => {
            name(&mut c.first);
            c.rest.iter_mut().for_each(|(_, e)| name(e));
        }
        Expression::Alt(c) => {
            name(&mut c.first);
            c.rest.iter_mut().for_each(|(_, e)| name(e));
        }
        _ => (),
    }
    called_all(e)
}

/// The text of the code generated for a term, or of the error, after `skip` hash tables have been made.
fn written(e: NamedExpression, root: Option<Name>, skip: usize) -> String {
    for _ in 0..skip {
        let _ = std::collections::hash_map::RandomState::new();
    }
    match e.fold(&mut TypeInfer { context: &mut Context::default() }) {
        Err(e) => {
            cover(9);
            e.to_string()
        }
        Ok(typed) => {
            cover(1);
            let mut b = RustBackend::default();
            let id = typed.gen(&mut b);
            b.emit_code(root, Span::call_site(), id).to_string()
        }
    }
}
/// The same code again, whatever the hash tables are seeded with and was generated before.
fn again(e: NamedExpression, root: Option<Name>, other: Option<NamedExpression>) {
    let first = written(e.clone(), root.clone(), 0);
    let skip = choose(4);
    if let Some(o) = other {
        let _ = written(o, None, 0);
    }
    let second = written(e, root, skip);
    check(first == second, "the same code is generated again");
    observe(first.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_again5() {
    let n = 1 + choose(5);
    again(build(&fix_letters(term(cfg(true, 3), n, 0))), None, None);
}
fn again_names(n: usize) {
    let mut e = build(&fix_letters(term(cfg(false, 2), n, 0)));
    decorate(&mut e, 3);
    again(e, if choose(2) == 1 { Some(Name::new_let("ast".to_owned())) } else { None }, None);
}
#[no_mangle]
pub extern "C" fn h_again_names() {
    let n = 1 + choose(3);
    again_names(n)
}
#[no_mangle]
pub extern "C" fn h_again_names4() {
    again_names(4)
}
#[no_mangle]
pub extern "C" fn h_again_after() {
    let (n, m) = (1 + choose(3), 1 + choose(3));
    let a = build(&fix_letters(term(cfg(false, 2), n, 0)));
    let b = build(&fix_letters(term(cfg(false, 2), m, 0)));
    again(a, None, Some(b));
}
/// `n` literals in sequence and choice, so that every table holds many entries.
#[no_mangle]
pub extern "C" fn h_again_wide() {
    let n = 2 + choose(5);
    let l = |c: u8| T::Lit(vec![c as char]);
    let t = T::Alt((0..n as u8).map(|i| T::Cat(vec![l(b'a' + i), l(b'a' + (i + 1) % n as u8), T::Fix(1, Box::new(T::Alt(vec![T::Eps, T::Cat(vec![l(b'a' + i), T::Var(0)])])))])).collect());
    again(build(&t), None, None);
}
/// Wide terms, with and without labels that meet.
#[no_mangle]
pub extern "C" fn h_code_wide() {
    let parts = 4 + choose(5);
    structure(&fix_letters(wide(cfg(false, 3), parts, 1, 0)));
}

/// Literals that agree in length, in their first, last or all but one of their characters, or as sets.
#[no_mangle]
pub extern "C" fn h_code_lits() {
    const LITS: [&str; 17] = ["'", "\n", "\u{2028}x", "true", "trim", "rtue", "tree", "trues", "tru", "t", "T", "ab", "ba", "\u{e9}", "e\u{301}", "\"", "\\\""];
    let lit = || T::Lit(LITS[choose(LITS.len())].chars().collect());
    let branch = |c: char| T::Cat(vec![T::Lit(vec![c]), lit()]);
    structure(&match choose(3) {
        0 => T::Cat(vec![lit(), lit(), lit()]),
        1 => T::Alt(vec![lit(), lit(), lit()]),
        _ => T::Alt(vec![branch('x'), branch('y'), branch('z')]),
    });
}
/// Two sequences or choices that are equal, or differ in one part or the order of two.
#[no_mangle]
pub extern "C" fn h_code_twins() {
    let n = 2 + choose(8);
    let a: Vec<u8> = (0..n as u8).map(|i| b'a' + i).collect();
    let mut b = a.clone();
    let (i, j) = (choose(n), choose(n));
    match choose(3) {
        0 => b.swap(i, j),
        1 => b[i] = b'x' - j as u8,
        _ => {
            b.remove(i);
        }
    }
    let cat = choose(2) == 0;
    let twin = |v: Vec<u8>| {
        let v: Vec<T> = v.into_iter().map(|c| T::Lit(vec![c as char])).collect();
        if cat || v.len() == 1 { T::Cat(v) } else { T::Alt(v) }
    };
    if b.len() == 1 {
        return;
    }
    let branch = |c: char, t: T| T::Cat(vec![T::Lit(vec![c]), t]);
    structure(&T::Alt(vec![branch('y', twin(a)), branch('z', twin(b))]));
}
/// Many parts, and many fixed points inside of each other.
#[no_mangle]
pub extern "C" fn h_code_many() {
    structure(&match choose(4) {
        0 => crate::ast::deep(5 + choose(3), false),
        _ => crate::ast::many(&[10, 16, 21], 0),
    });
}
/// Many parts with a name for all but two of them, which have any.
#[no_mangle]
pub extern "C" fn h_called_many() {
    let parts = [12, 17, 26][choose(3)];
    let v = (0..parts).map(|k| T::Lit(vec![(b'A' + k as u8) as char])).collect();
    let mut e = build(&if choose(2) == 0 { T::Cat(v) } else { T::Alt(v) });
    let all = choose(2) == 0;
    let i = choose(parts);
    let j = [0, parts - 1][choose(2)];
    let mut k = 0;
    let mut name = |e: &mut NamedExpression| {
        e.name = if k == i || k == j {
            some_label(2)
        } else if all {
            Some(Name::new_label("foo".to_owned()))
        } else {
            None
        };
        k += 1;
    };
    match &mut e.expr {
        Expression::Cat(c) => {
            name(&mut c.first);
            c.rest.iter_mut().for_each(|(_, e)| name(e));
        }
        Expression::Alt(c) => {
            name(&mut c.first);
            c.rest.iter_mut().for_each(|(_, e)| name(e));
        }
        _ => (),
    }
    called_all(e)
}
/// Many branches: the same code again, whatever the tables are seeded with.
#[no_mangle]
pub extern "C" fn h_again_many() {
    let n = [9, 16, 20][choose(3)];
    let l = |c: u8| T::Lit(vec![c as char]);
    let t = T::Alt((0..n).map(|i| T::Cat(vec![l(b'A' + i), l(b'A' + (i + 1) % n), T::Fix(1, Box::new(T::Alt(vec![T::Eps, T::Cat(vec![l(b'A' + i), T::Var(0)])])))])).collect());
    again(build(&t), None, None);
}
