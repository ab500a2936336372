//! Arbitrary texts: whatever the self-hosted front end reads, the macro's reads alike.
use super::*;
use std::cell::RefCell;

/// Hands out characters as they are asked for, so that a text is cut off where it is rejected.
struct Lazy<'a> {
    head: std::str::Chars<'a>,
    left: usize,
    tail: std::str::Chars<'a>,
    alphabet: &'a [char],
    seen: &'a RefCell<String>,
}
impl Iterator for Lazy<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = if let Some(c) = self.head.next() {
            c
        } else if self.left > 0 {
            self.left -= 1;
            self.alphabet[choose(self.alphabet.len())]
        } else {
            self.tail.next()?
        };
        self.seen.borrow_mut().push(c);
        Some(c)
    }
}

fn text(head: &str, n: usize, tail: &str, alphabet: &str) {
    let alphabet: Vec<char> = alphabet.chars().collect();
    let seen = RefCell::new(String::new());
    let it = Lazy { head: head.chars(), left: n, tail: tail.chars(), alphabet: &alphabet, seen: &seen };
    let a = IterWrapper::new(it).parse::<Auto>();
    let s = seen.borrow().clone();
    match a {
        Err(_) => cover(9),
        Ok(a) => {
            check(a.to_string() == s, "the syntax tree prints as the text it was parsed from");
            let a = a.convert(&mut Context::default());
            match nibble(&s) {
                // An escape that is not a character is an error of the token to the macro.
                None => check(matches!(&a, Err(e) if !matches!(e, ConvertError::UndeclaredName(_))), "the macro's front end reads what the self-hosted one reads"),
                Some(b) => {
                    cover(if a.is_ok() { 1 } else { 2 });
                    check(same(&a, &b), "both front ends give the same expression");
                }
            }
        }
    }
    observe(s.len() as u64);
}
const ALL: &str = "_ab\"!().|:/; ";
#[no_mangle]
pub extern "C" fn h_match5() {
    let n = choose(6);
    text("match ", n, ";", ALL);
}
#[no_mangle]
pub extern "C" fn h_match6() {
    text("match ", 6, ";", ALL);
}
#[no_mangle]
pub extern "C" fn h_match7() {
    text("match ", 7, ";", ALL);
}
#[no_mangle]
pub extern "C" fn h_let5() {
    let n = choose(6);
    text("let ", n, "; match a;", "_ab= !(/.");
}
#[no_mangle]
pub extern "C" fn h_let6() {
    text("let ", 6, ";match a;", "_ab= !(/.");
}
#[no_mangle]
pub extern "C" fn h_lambda5() {
    let n = choose(6);
    text("let a=_;match /", n, ";", "_ab/ !(.)");
}
#[no_mangle]
pub extern "C" fn h_literal5() {
    let n = choose(6);
    text("match \"", n, "\";", "a\"\\nxu{}04D\n;é");
}
#[no_mangle]
pub extern "C" fn h_escape() {
    let n = choose(7);
    text("match \"\\u{", n, "}\";", "01D8Ff_");
}
/// Keywords and the space before the first one.
#[no_mangle]
pub extern "C" fn h_prefix() {
    let n = choose(4);
    text("", n, "match \"a\";", " \n\t\r\u{b}\u{c}\u{85}\u{200e}\u{200f}\u{2028}\u{2029}\u{a0}m/");
}
