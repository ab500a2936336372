//! The parsers that LALRPOP generates.
use super::*;
use chomp_bench::{arith, json};

/// `head`, then `n` characters of the alphabet, then `tail`.
fn text(head: &str, n: usize, tail: &str, alphabet: &str) -> String {
    let a: Vec<char> = alphabet.chars().collect();
    let mut s = head.to_owned();
    s.extend((0..n).map(|_| a[choose(a.len())]));
    s + tail
}
/// The tables of the lexer are made before anything is chosen.
fn arith_parser() -> arith::lalr::ExpressionParser {
    let p = arith::lalr::ExpressionParser::new();
    check(p.parse("(1 + 20)*-3/2-1").ok() == Some(-32), "an expression of every token");
    p
}
fn json_parser() -> json::lalr::ValueParser {
    let p = json::lalr::ValueParser::new();
    check(p.parse(" [null,{\"a\":-1.5e1,\"\":true},[false],{ }]").is_ok(), "a value of every token");
    p
}
fn expression(p: &arith::lalr::ExpressionParser, s: &str) {
    let c: Vec<char> = s.chars().collect();
    match super::arith::read(&c) {
        Err(()) => cover(2),
        Ok(Some(v)) => {
            cover(1);
            check(p.parse(s).ok() == Some(v), "the generated parser gives the value of every expression");
        }
        Ok(None) => {
            cover(9);
            check(p.parse(s).is_err(), "the generated parser rejects what is no expression");
        }
    }
}
fn value(p: &json::lalr::ValueParser, s: &str) {
    let c: Vec<char> = s.chars().collect();
    match super::json::read(&c) {
        Some(Some(v)) => {
            cover(1);
            check(p.parse(s).map_or(false, |w| super::json::same(&v, &w)), "the generated parser gives the value that was written");
        }
        Some(None) => cover(2),
        None => {
            cover(9);
            // Strings may panic.
            if !s.contains('"') {
                check(p.parse(s).is_err(), "the generated parser rejects what is not JSON");
            }
        }
    }
}
#[no_mangle]
pub extern "C" fn h_lalr_arith5() {
    let p = arith_parser();
    let n = choose(6);
    expression(&p, &text("", n, "", "07 (+-*/)x"))
}
#[no_mangle]
pub extern "C" fn h_lalr_arith6() {
    let p = arith_parser();
    expression(&p, &text("", 6, "", "7 (+-*/)"))
}
/// Long numbers and operators on them.
#[no_mangle]
pub extern "C" fn h_lalr_long() {
    const NUMBERS: [&str; 9] = ["9223372036854775807", "-9223372036854775807", "4294967296", "2147483648", "-2147483648", "10000000000", "7", "- 1", "(29)"];
    const OPS: [&str; 5] = ["+", "-", "*", "/", " - "];
    let p = arith_parser();
    let mut s = NUMBERS[choose(NUMBERS.len())].to_owned();
    for _ in 0..2 {
        s.push_str(OPS[choose(OPS.len())]);
        s.push_str(NUMBERS[choose(NUMBERS.len())]);
    }
    expression(&p, &s)
}
#[no_mangle]
pub extern "C" fn h_lalr_shape5() {
    let p = json_parser();
    let n = choose(6);
    value(&p, &text("", n, "", "[]{},: \"0"))
}
#[no_mangle]
pub extern "C" fn h_lalr_object() {
    let p = json_parser();
    let n = choose(6);
    value(&p, &text("{\"\":0", n, "}", "{},: \"a0"))
}
#[no_mangle]
pub extern "C" fn h_lalr_number() {
    let p = json_parser();
    let n = choose(6);
    value(&p, &text("", n, "", "-019.eE+"))
}
#[no_mangle]
pub extern "C" fn h_lalr_string() {
    let p = json_parser();
    let n = choose(5);
    value(&p, &text("\"", n, "\"", "\\\"/bfnrtua0\n\u{7f}é😀"))
}
#[no_mangle]
pub extern "C" fn h_lalr_unicode() {
    let p = json_parser();
    let n = choose(5);
    value(&p, &text("\"\\u", n, "\"", "0179abdefABDEF"))
}
#[no_mangle]
pub extern "C" fn h_lalr_pair() {
    let p = json_parser();
    value(&p, &text(["\"\\uD8", "\"\\ud9", "\"\\uDB", "\"\\uDF"][choose(4)], 2, ["\\uDC00\"", "\\udfff\"", "\\uDBff\"", "\\n\"", "\""][choose(5)], "09aF"))
}
#[no_mangle]
pub extern "C" fn h_lalr_words() {
    let p = json_parser();
    let w = ["null", "true", "false"][choose(3)];
    let k = choose(w.len());
    let n = choose(3);
    value(&p, &text(&w[..k], n, &w[k + 1..], "nulltrefas "))
}
/// Much of something, with one character at some place that is anything of a few.
#[no_mangle]
pub extern "C" fn h_lalr_much() {
    const C: [&str; 12] = ["", "0", "(", ")", "-", "/", "[", "]", "{", "}", ",", "\n"];
    let (a, j) = (arith_parser(), json_parser());
    let n = [3, 9, 17, 40][choose(4)];
    let kind = choose(9);
    let mut s = match kind {
        0 => "(".repeat(n) + "7" + &")".repeat(n),
        1 => (0..n).fold("100".to_owned(), |s, k| s + ["-7", " / 2", "+3", "*4"][k % 4]),
        2 => " ".repeat(n) + "1" + &" ".repeat(n) + "+0" + &"0".repeat(n),
        3 => "[".repeat(n) + &"]".repeat(n),
        4 => "[1,{\"k\":".repeat(n) + "0" + &"}]".repeat(n),
        5 => (0..n).fold("[0".to_owned(), |s, k| s + ["\n,null", ",\"s\"", " , [ ]", ",{ }", ",-1.5e3", ",false"][k % 6]) + "]",
        6 => (0..n).fold("{\"a\":0".to_owned(), |s, k| s + &format!(",\"{}\" : {}", (b'a' + (k % 23) as u8) as char, k)) + "}",
        7 => "\"".to_owned() + &"text \\n\\u00e9\\ud83d\\ude00é".repeat(n) + "\"",
        _ => "1".to_owned() + &"0".repeat(n) + "." + &"25".repeat(n) + "e-1" + &"0".repeat(n / 17),
    };
    let mut at = s.len() * choose(5) / 4;
    while !s.is_char_boundary(at) {
        at += 1;
    }
    let c = C[choose(C.len())];
    s.insert_str(at, if kind < 3 && c == "\n" { "+1 " } else { c });
    if kind < 3 {
        expression(&a, &s)
    } else {
        value(&j, &s)
    }
}
