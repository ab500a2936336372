//! The macro: what it expands to, against the library.
use crate::grammar;
use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::TypeInfer;
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use chomp::nibble::convert::{self, Convert};
use chomp::nibble::Statement;
use proc_macro2::{Delimiter, LineColumn, Span, TokenStream, TokenTree};
use sym::*;

fn want(t: TokenStream) -> syn::Result<TokenStream> {
    let s = syn::parse2::<Statement>(t)?;
    let e = s.convert(&mut convert::Context::default())?;
    let e = e.fold(&mut Reduce)?;
    let t = e.fold(&mut TypeInfer { context: &mut Context::default() })?;
    let mut b = RustBackend::default();
    let id = t.gen(&mut b);
    Ok(b.emit_code(None, Span::call_site(), id))
}

fn same(a: TokenStream, b: TokenStream) -> bool {
    let (mut a, mut b) = (a.into_iter(), b.into_iter());
    loop {
        let ok = match (a.next(), b.next()) {
            (None, None) => return true,
            (Some(TokenTree::Group(a)), Some(TokenTree::Group(b))) => a.delimiter() == b.delimiter() && same(a.stream(), b.stream()),
            (Some(TokenTree::Ident(a)), Some(TokenTree::Ident(b))) => a == b,
            (Some(TokenTree::Punct(a)), Some(TokenTree::Punct(b))) => a.as_char() == b.as_char(),
            (Some(TokenTree::Literal(a)), Some(TokenTree::Literal(b))) => a.to_string() == b.to_string(),
            _ => false,
        };
        if !ok {
            return false;
        }
    }
}
fn key(l: LineColumn) -> (usize, usize) {
    (l.line, l.column)
}
/// The places of all tokens, and the message.
fn message(t: TokenStream) -> Option<(String, Vec<Span>)> {
    let mut places = vec![];
    let mut text = None;
    for t in t {
        places.push(t.span());
        match t {
            TokenTree::Ident(i) if ["core", "std", "compile_error"].iter().any(|n| i == n) => (),
            TokenTree::Punct(p) if [':', '!', ';'].contains(&p.as_char()) => (),
            TokenTree::Group(g) => {
                if text.is_some() {
                    return None;
                }
                text = Some(syn::parse2::<syn::LitStr>(g.stream()).ok()?.value());
            }
            _ => return None,
        }
    }
    Some((text?, places))
}
fn expand(t: TokenStream) {
    let got = crate::programs::the_macro::nibble(t.clone());
    match want(t) {
        Ok(code) => {
            cover(1);
            check(same(got, code), "the macro expands to the code generated for its grammar");
        }
        Err(e) => {
            let Some((text, places)) = message(got) else {
                return check(false, "the macro expands to one error for a grammar that is rejected");
            };
            cover(2);
            check(text == e.to_string(), "the message is that of the error");
            // The compiler's message spans from the first to the last token.
            let (from, to) = (key(e.span().start()), key(e.span().end()));
            observe(from.0 as u64);
            observe(from.1 as u64);
            check(places.iter().all(|p| from <= key(p.start()) && key(p.end()) <= to), "the error is at its place");
            check(places.first().map_or(false, |p| key(p.start()) == from), "the error starts where its cause does");
        }
    }
}
fn text(s: &str) {
    if let Ok(t) = s.parse::<TokenStream>() {
        expand(t);
    }
}
#[no_mangle]
pub extern "C" fn h_macro_tree3() {
    let n = 1 + choose(3);
    text(&grammar(n));
}
#[no_mangle]
pub extern "C" fn h_macro_tree4() {
    text(&grammar(4));
}
#[no_mangle]
pub extern "C" fn h_macro_tree5() {
    text(&grammar(5));
}
const TOKENS: [&str; 13] = ["\"a\"", "_", "x", "!", "/x/", "|", ".", ";", ":", "=", "match", "let", "(x)"];
fn tokens(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(TOKENS[choose(TOKENS.len())]);
        s.push(if choose(2) == 0 { ' ' } else { '\n' });
    }
    s
}
/// A few tokens in place of the goal.
#[no_mangle]
pub extern "C" fn h_macro_tokens() {
    let n = choose(4);
    text(&format!("let x = \"x\";\nmatch {};", tokens(n)));
}
/// A few tokens and nothing else, or tokens of other kinds.
#[no_mangle]
pub extern "C" fn h_macro_tokens_any() {
    if choose(2) == 0 {
        let n = choose(4);
        text(&tokens(n));
    } else {
        let mut t: Vec<TokenTree> = "match \"a\" . \"b\" ;".parse::<TokenStream>().unwrap().into_iter().collect();
        let at = choose(t.len() + 1);
        let other: TokenTree = match choose(6) {
            0 => proc_macro2::Literal::i32_suffixed(1).into(),
            1 => proc_macro2::Literal::byte_string(b"a").into(),
            2 => proc_macro2::Literal::character('a').into(),
            3 => proc_macro2::Group::new(Delimiter::None, "_".parse().unwrap()).into(),
            4 => proc_macro2::Group::new(Delimiter::Brace, TokenStream::new()).into(),
            _ => proc_macro2::Ident::new("type", Span::call_site()).into(),
        };
        if at < t.len() && choose(2) == 0 {
            t[at] = other;
        } else {
            t.insert(at, other);
        }
        expand(t.into_iter().collect());
    }
}
/// Grammars of many lines with one mistake of any kind somewhere, or none.
#[no_mangle]
pub extern "C" fn h_macro_much() {
    const MISTAKES: [&str; 11] = ["", "undeclared", "opt", "!_", "!(/r/ r)", "(opt \"a\" \"b\")", "(_ | _)", "(opt \"a\" . \"a\")", "(\"a\"", "opt opt", "\"\""];
    let n = [3, 12, 26][choose(3)];
    let at = [0, n / 2, n - 1][choose(3)];
    let m = MISTAKES[choose(MISTAKES.len())];
    let lets = choose(2) == 0;
    let mut s = String::from("let opt x =\n  _ | x;\n");
    for k in 0..n {
        let part = format!("\"{}\" . {}", (b'A' + k as u8) as char, if k == at && !m.is_empty() { m } else { "opt (\".\" . \"x\")" });
        s.push_str(&match (lets, k) {
            (true, _) => format!("let n{k} =\n    {part};\n"),
            (false, 0) => format!("match {part}\n"),
            _ => format!("  | {part} : L{k}\n"),
        });
    }
    s.push_str(&if lets { format!("match n{at};\n") } else { ";\n".to_owned() });
    text(&s);
}
