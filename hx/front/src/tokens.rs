//! Arbitrary sequences of tokens, through both front ends.
use super::*;
use std::cell::RefCell;

const TOKENS: [&str; 16] = ["_", "\"a\"", "!", "(", ")", ".", "|", ":", "/", "=", ";", "a", "b", "type", "let", "match"];

struct Lazy<'a> {
    now: std::str::Chars<'a>,
    left: usize,
    tail: &'a str,
    seen: &'a RefCell<String>,
}
impl Iterator for Lazy<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        loop {
            if let Some(c) = self.now.next() {
                self.seen.borrow_mut().push(c);
                return Some(c);
            }
            if self.left > 0 {
                self.left -= 1;
                self.now = TOKENS[choose(TOKENS.len())].chars();
                self.seen.borrow_mut().push(' ');
                return Some(' ');
            }
            if self.tail.is_empty() {
                return None;
            }
            self.now = std::mem::take(&mut self.tail).chars();
        }
    }
}
fn forth(head: &str, n: usize, tail: &str) {
    let seen = RefCell::new(String::new());
    let a = IterWrapper::new(Lazy { now: head.chars(), left: n, tail, seen: &seen }).parse::<Auto>();
    let s = seen.borrow().clone();
    match a {
        Err(_) => cover(9),
        Ok(a) => {
            check(a.to_string() == s, "the syntax tree prints as the text it was parsed from");
            let a = a.convert(&mut Context::default());
            match nibble(&s) {
                None => check(false, "the macro's front end reads what the self-hosted one reads"),
                Some(b) => {
                    cover(if a.is_ok() { 1 } else { 2 });
                    check(same(&a, &b), "both front ends give the same expression");
                }
            }
        }
    }
    observe(s.len() as u64);
}
const HEAD: &str = "let a=_;";
#[no_mangle]
pub extern "C" fn h_tokens5() {
    let n = choose(6);
    forth(HEAD, n, " ;")
}
#[no_mangle]
pub extern "C" fn h_tokens6() {
    forth(HEAD, 6, " ;")
}
#[no_mangle]
pub extern "C" fn h_tokens7() {
    forth(HEAD, 7, " ;")
}
#[no_mangle]
pub extern "C" fn h_tokens8() {
    forth(HEAD, 8, " ;")
}
/// The names of bindings and of parameters.
#[no_mangle]
pub extern "C" fn h_params() {
    let n = choose(5);
    if choose(2) == 1 {
        forth("let a", n, " = type b ; match a _ ;")
    } else {
        forth("let a = _; match /", n, " / type b ;")
    }
}

/// Whatever the macro reads, the self-hosted front end reads; `_` as a name is the macro's alone.
fn back(n: usize) {
    let mut s = String::from("let a = _ ; match");
    let mut last = "match";
    for _ in 0..n {
        let t = TOKENS[choose(TOKENS.len())];
        assume(!(t == "_" && (last == ":" || last == "let")));
        s.push(' ');
        s.push_str(t);
        last = t;
    }
    s.push_str(" ;");
    match nibble(&s) {
        None => {
            check(auto(&s).map_or(true, |a| matches!(a, Err(e) if !matches!(e, ConvertError::UndeclaredName(_)))), "the macro's front end reads what the self-hosted one reads");
            cover(9)
        }
        Some(b) => match auto(&s) {
            _ if !tokens_kept(&s) => check(false, "the macro's syntax tree gives back the tokens"),
            None => check(false, "the self-hosted front end reads what the macro's one reads"),
            Some(a) => {
                cover(if a.is_ok() { 1 } else { 2 });
                check(same(&a, &b), "both front ends give the same expression");
            }
        },
    }
    observe(s.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_back4() {
    let n = choose(5);
    back(n)
}
#[no_mangle]
pub extern "C" fn h_back5() {
    back(5)
}

/// The name of a binding, and a use of a name: any letters, digits and underscores.
fn ident(n: usize) -> String {
    let mut s = String::new();
    for i in 0..n {
        let c = any_u8();
        assume(if i == 0 { c.is_ascii_alphabetic() } else { c.is_ascii_alphanumeric() || c == b'_' });
        s.push(c as char);
    }
    s
}
fn agree(s: &str) {
    match (nibble(s), auto(s)) {
        (None, None) => cover(9),
        (Some(a), Some(b)) => {
            cover(if a.is_ok() { 1 } else { 2 });
            check(same(&a, &b), "both front ends give the same expression");
        }
        // An escape that is not a character is an error of the token to the macro.
        (None, Some(a)) => check(matches!(a, Err(e) if !matches!(e, ConvertError::UndeclaredName(_))), "the macro's front end reads what the self-hosted one reads"),
        (Some(_), None) => check(false, "the self-hosted front end reads what the macro's one reads"),
    }
    observe(s.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_name() {
    let n = 1 + choose(2);
    let (a, b) = match choose(3) {
        0 => {
            let a = ident(n);
            (a.clone(), a)
        }
        1 => (ident(n), "a9".to_owned()),
        _ => ("Z_".to_owned(), ident(n)),
    };
    let s = format!("let {a} = \"x\" ; match {b} : {a} ;");
    check(tokens_kept(&s), "the macro's syntax tree gives back the tokens");
    agree(&s)
}
/// Printable characters and escapes inside of a literal.
#[no_mangle]
pub extern "C" fn h_printable() {
    let mut s = String::from("match \"");
    for _ in 0..1 + choose(2) {
        let c = any_u8();
        assume((b' '..=b'~').contains(&c));
        s.push(c as char);
    }
    s.push_str("\" ;");
    // Nothing but the macro reads an empty literal.
    assume(!s.contains("\"\""));
    agree(&s)
}
#[no_mangle]
pub extern "C" fn h_hex() {
    let mut s = String::from("match \"");
    let u = choose(2) == 1;
    s.push_str(if u { "\\u{" } else { "\\x" });
    for _ in 0..if u { 1 + choose(3) } else { 2 } {
        let c = any_u8();
        assume(c.is_ascii_hexdigit() || c == b'g' || c == b'"');
        s.push(c as char);
    }
    s.push_str(if u { "}\" ;" } else { "\" ;" });
    agree(&s)
}
/// White space between tokens.
#[no_mangle]
pub extern "C" fn h_space() {
    let c = any_char();
    assume(c < '\u{80}' || matches!(c, '\u{85}' | '\u{200e}' | '\u{200f}' | '\u{2028}' | '\u{2029}'));
    let mut s = String::new();
    for (i, t) in ["", "let", "a", "=", "\"x\"", ";", "match", "/", "b", "/", "a", ":", "a", ";", ""].iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(t);
    }
    let at: Vec<usize> = s.match_indices(' ').map(|(i, _)| i).collect();
    let at = at[choose(at.len())];
    // The tokens are no longer set apart if it is part of one.
    assume(!c.is_ascii_alphanumeric() && c != '_' && c != '/');
    let t: String = s[..at].chars().chain(Some(c)).chain(s[at + 1..].chars()).collect();
    agree(&t)
}

/// A long grammar with one of its tokens replaced, left out, doubled, or swapped with the next.
#[no_mangle]
pub extern "C" fn h_edit() {
    const LONG: &str = "let a = _ ; let b x y z = x . y . ( z a | \"p\" : type ) ; let type f = ! ( / r / f . ( a | r : l ) ) ; match b ( type \"q\" ) ! ( / s t / s ) a . / u / u \"a\\n\\x41\" | \"\\u{e9}\" ! a : b ;";
    let text: String = LONG.replace("a . / u / u", "a . ( / u / u )");
    let mut t: Vec<&str> = text.split(' ').collect();
    let at = choose(t.len());
    match choose(TOKENS.len() + 4) {
        0 => {
            t.remove(at);
        }
        1 => t.insert(at, t[at]),
        2 => {
            assume(at + 1 < t.len());
            t.swap(at, at + 1);
        }
        3 => t.truncate(at),
        k => t[at] = TOKENS[k - 4],
    }
    for w in t.windows(2) {
        // A name of the macro's alone, which is not one of the other.
        assume(!(w[1] == "_" && matches!(w[0], ":" | "let")));
    }
    let s = t.join(" ");
    check(tokens_kept(&s), "the macro's syntax tree gives back the tokens");
    agree(&s)
}
