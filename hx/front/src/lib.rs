//! The two front ends (the macro's and the self-hosted one) against each other and against an
//! independent reading of scoping.
use autonibble::Ast as Auto;
use chewed::{IterWrapper, Parser};
use chomp::chomp::ast::{Expression, NamedExpression};
use chomp::chomp::name::Name;
use chomp::nibble::convert::{Context, Convert, ConvertError};
use chomp::nibble::Statement;
use proc_macro2::TokenStream;
use quote::ToTokens;
use refnib::E;
use sym::*;

pub mod sentence;
pub mod text;
pub mod tokens;
sym::table!(TABLE: sentence::h_scope5, sentence::h_scope6, sentence::h_scope7, sentence::h_both4, sentence::h_both5, sentence::h_both6, sentence::h_context, text::h_match5, text::h_match6, text::h_match7, text::h_let5, text::h_let6, text::h_lambda5, text::h_literal5, text::h_escape, text::h_prefix, tokens::h_tokens5, tokens::h_tokens6, tokens::h_tokens7, tokens::h_tokens8, tokens::h_params, tokens::h_back4, tokens::h_back5, tokens::h_name, tokens::h_printable, tokens::h_hex, tokens::h_space, sentence::h_spine4, sentence::h_spine_fun, sentence::h_nest, sentence::h_both_spine, sentence::h_scope_wide, sentence::h_both_wide, sentence::h_scope_much, sentence::h_both_much, tokens::h_edit, sentence::h_goal);

pub fn nibble(text: &str) -> Option<Result<NamedExpression, ConvertError>> {
    syn::parse_str::<Statement>(text).ok().map(|s| s.convert(&mut Context::default()))
}
/// Whether the macro's syntax tree gives back the tokens that it was read from; whether they are
/// set apart does not matter.
pub fn tokens_kept(text: &str) -> bool {
    match (syn::parse_str::<Statement>(text), text.parse::<TokenStream>()) {
        (Ok(s), Ok(t)) => s.into_token_stream().to_string().replace(' ', "") == t.to_string().replace(' ', ""),
        _ => true,
    }
}
pub fn auto(text: &str) -> Option<Result<NamedExpression, ConvertError>> {
    IterWrapper::new(text.chars()).parse::<Auto>().ok().map(|s| s.convert(&mut Context::default()))
}
pub fn same(a: &Result<NamedExpression, ConvertError>, b: &Result<NamedExpression, ConvertError>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a == b && alike(a, b, true),
        (Err(ConvertError::UndeclaredName(a)), Err(ConvertError::UndeclaredName(b))) => a == b,
        (Err(ConvertError::UndeclaredName(_)), _) | (_, Err(ConvertError::UndeclaredName(_))) => false,
        (a, b) => a.is_err() == b.is_err(),
    }
}

/// Whether two equal expressions carry the same names; `goal`: whether this is the goal, or a
/// binding around it. The name of the goal is that of the generated type, which only the macro fixes.
fn alike(a: &NamedExpression, b: &NamedExpression, goal: bool) -> bool {
    let all = |a: &[NamedExpression], b: &[NamedExpression]| a.len() == b.len() && a.iter().zip(b).all(|(a, b)| alike(a, b, false));
    (goal || a.name == b.name)
        && match (&a.expr, &b.expr) {
            (Expression::Cat(a), Expression::Cat(b)) => alike(&a.first, &b.first, false) && a.rest.len() == b.rest.len() && a.rest.iter().zip(&b.rest).all(|(a, b)| alike(&a.1, &b.1, false)),
            (Expression::Alt(a), Expression::Alt(b)) => alike(&a.first, &b.first, false) && a.rest.len() == b.rest.len() && a.rest.iter().zip(&b.rest).all(|(a, b)| alike(&a.1, &b.1, false)),
            (Expression::Fix(a), Expression::Fix(b)) => alike(&a.inner, &b.inner, false),
            (Expression::Call(a), Expression::Call(b)) => alike(&a.on, &b.on, false) && all(&a.args, &b.args),
            (Expression::Lambda(a), Expression::Lambda(b)) => alike(&a.inner, &b.inner, false),
            (Expression::Let(a), Expression::Let(b)) => alike(&a.bound, &b.bound, false) && alike(&a.body, &b.body, goal),
            _ => a == b,
        }
}

/// The name a node should carry.
#[derive(Clone, Copy, PartialEq)]
pub enum Want<'a> {
    Any,
    None,
    Var(&'a str),
    Let(&'a str),
    Label(&'a str),
}
fn named(n: &Option<Name>, w: Want<'_>) -> bool {
    match w {
        Want::Any => true,
        Want::None => n.is_none(),
        Want::Var(s) => *n == Some(Name::new_variable(s.to_owned())),
        Want::Let(s) => *n == Some(Name::new_let(s.to_owned())),
        Want::Label(s) => *n == Some(Name::new_label(s.to_owned())),
    }
}
/// Whether `ne` is the source `e` with its names resolved to the innermost binder.
pub fn resolved<'a>(e: &'a E, ne: &NamedExpression, scope: &mut Vec<&'a str>, want: Want<'a>) -> bool {
    if let E::Var(x) = e {
        let w = if want == Want::None { Want::Var(x) } else { want };
        let at = scope.iter().rev().position(|y| y == x);
        return named(&ne.name, w) && matches!(&ne.expr, Expression::Variable(v) if Some(v.index) == at);
    }
    if !named(&ne.name, want) {
        return false;
    }
    match (e, &ne.expr) {
        (E::Eps, Expression::Epsilon(_)) => true,
        (E::Lit(s), Expression::Literal(l)) => l.chars().eq(s.iter().copied()),
        (E::Fix(b), Expression::Fix(f)) => resolved(b, &f.inner, scope, Want::None),
        (E::Call(f, a), Expression::Call(c)) => resolved(f, &c.on, scope, Want::None) && a.len() == c.args.len() && a.iter().zip(&c.args).all(|(a, b)| resolved(a, b, scope, Want::None)),
        (E::Cat(v), Expression::Cat(c)) => {
            v.len() == 1 + c.rest.len() && resolved(&v[0], &c.first, scope, Want::None) && v[1..].iter().zip(&c.rest).all(|(a, b)| resolved(a, &b.1, scope, Want::None))
        }
        (E::Alt(v), Expression::Alt(c)) => {
            let w = |x: &'a (E, Option<String>)| x.1.as_deref().map_or(Want::None, Want::Label);
            v.len() == 1 + c.rest.len() && resolved(&v[0].0, &c.first, scope, w(&v[0])) && v[1..].iter().zip(&c.rest).all(|(a, b)| resolved(&a.0, &b.1, scope, w(a)))
        }
        (E::Lam(a, b), Expression::Lambda(l)) => {
            if a.len() != l.args.len() || !a.iter().zip(&l.args).all(|(a, b)| *b == Name::new_variable(a.clone())) {
                return false;
            }
            let n = scope.len();
            scope.extend(a.iter().map(|s| s.as_str()));
            let r = resolved(b, &l.inner, scope, Want::None);
            scope.truncate(n);
            r
        }
        (E::Let(x, b, r), Expression::Let(l)) => {
            if l.name != Name::new_let(x.clone()) || !resolved(b, &l.bound, scope, Want::Let(x)) {
                return false;
            }
            scope.push(x);
            let r = resolved(r, &l.body, scope, if matches!(**r, E::Let(..)) { Want::None } else { Want::Any });
            scope.pop();
            r
        }
        _ => false,
    }
}
/// Whether some use of `x` (any name if `None`) is outside of every binder of it.
pub fn undeclared<'a>(e: &'a E, scope: &mut Vec<&'a str>, x: Option<&str>) -> bool {
    match e {
        E::Eps | E::Lit(_) => false,
        E::Var(y) => !scope.contains(&y.as_str()) && x.map_or(true, |x| x == y),
        E::Fix(b) => undeclared(b, scope, x),
        E::Call(f, a) => undeclared(f, scope, x) || a.iter().any(|a| undeclared(a, scope, x)),
        E::Cat(v) => v.iter().any(|a| undeclared(a, scope, x)),
        E::Alt(v) => v.iter().any(|a| undeclared(&a.0, scope, x)),
        E::Lam(a, b) => {
            let n = scope.len();
            scope.extend(a.iter().map(|s| s.as_str()));
            let r = undeclared(b, scope, x);
            scope.truncate(n);
            r
        }
        E::Let(y, b, r) => {
            if undeclared(b, scope, x) {
                return true;
            }
            scope.push(y);
            let r = undeclared(r, scope, x);
            scope.pop();
            r
        }
    }
}
