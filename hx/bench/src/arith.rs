//! Arithmetic.
use super::*;
use chomp_bench::arith::{nibble, parse_expr};

/// Recursive descent over the text.
struct Ref<'a> {
    s: &'a [char],
    at: usize,
    /// Some part divides by zero or leaves the range of the integers.
    undefined: bool,
}
struct No;
impl Ref<'_> {
    fn ws(&mut self) {
        while self.s.get(self.at) == Some(&' ') {
            self.at += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        if self.s.get(self.at) == Some(&c) {
            self.at += 1;
            self.ws();
            true
        } else {
            false
        }
    }
    fn fit(&mut self, n: i128) -> i128 {
        if n < i64::MIN as i128 || n > i64::MAX as i128 {
            self.undefined = true;
        }
        if self.undefined { 1 } else { n }
    }
    fn number(&mut self, sign: i128) -> Result<i128, No> {
        let mut n = 0i128;
        let start = self.at;
        while let Some(d) = self.s.get(self.at).filter(|c| c.is_ascii_digit()) {
            n = self.fit(n * 10 + (*d as u32 - '0' as u32) as i128);
            self.at += 1;
        }
        if start == self.at {
            return Err(No);
        }
        self.ws();
        Ok(sign * n)
    }
    fn term(&mut self) -> Result<i128, No> {
        if self.eat('-') {
            self.number(-1)
        } else if self.eat('(') {
            let v = self.sum()?;
            if self.eat(')') { Ok(v) } else { Err(No) }
        } else {
            self.number(1)
        }
    }
    fn product(&mut self) -> Result<i128, No> {
        let mut v = self.term()?;
        loop {
            if self.eat('*') {
                let w = self.term()?;
                v = self.fit(v * w);
            } else if self.eat('/') {
                let w = self.term()?;
                self.undefined |= w == 0;
                v = if self.undefined { 1 } else { self.fit(v / w) };
            } else {
                return Ok(v);
            }
        }
    }
    fn sum(&mut self) -> Result<i128, No> {
        let mut v = self.product()?;
        loop {
            if self.eat('+') {
                let w = self.product()?;
                v = self.fit(v + w);
            } else if self.eat('-') {
                let w = self.product()?;
                v = self.fit(v - w);
            } else {
                return Ok(v);
            }
        }
    }
}

/// The value of a text, `None` if it is no expression; `Err` if some part has none.
pub fn read(s: &[char]) -> Result<Option<i64>, ()> {
    let mut r = Ref { s, at: 0, undefined: false };
    r.ws();
    let v = r.sum().ok().filter(|_| r.at == s.len());
    if r.undefined { Err(()) } else { Ok(v.map(|v| v as i64)) }
}
/// Whether `e` reports that the expression `s[..far]` cannot go on as the text does.
fn fault(e: &ParseError, s: &[char], far: usize) {
    let at = |p: &LineCol| p.line == 1 && p.col == far;
    let can = |c: char| {
        let v: Vec<char> = s[..far].iter().copied().chain([c]).collect();
        let mut r = Ref { s: &v, at: 0, undefined: false };
        r.ws();
        let _ = r.sum();
        r.at > far
    };
    match e {
        ParseError::TakeError(TakeError::EndOfStream(p)) => {
            check(far == s.len() && at(p), "an unexpected end is reported at the end");
        }
        ParseError::TakeError(TakeError::BadBranch(p, c, want)) => {
            check(far < s.len() && at(p) && s[far] == *c, "an error is at the first character that fits no expression");
            let digit = want.iter().find(|c| c.is_ascii_digit());
            check(want.iter().filter(|c| !c.is_ascii_digit()).chain(digit).all(|c| can(*c)), "each expected character could have gone on");
        }
        ParseError::TakeError(TakeError::BadString(p, got, want)) => {
            check(far < s.len() && at(p) && got.chars().last() == Some(s[far]), "an error is at the first character that fits no expression");
            check(want.chars().next().map_or(false, can), "the expected text could have gone on");
        }
        ParseError::InputContinues(p) => {
            check(far < s.len() && at(p), "left-over text is reported where it starts");
            let mut r = Ref { s: &s[..far], at: 0, undefined: false };
            r.ws();
            check(r.sum().is_ok(), "text is left over after an expression only");
        }
    }
}
fn judge(head: &str, n: usize, tail: &str, alphabet: &str) {
    let alphabet: Vec<char> = alphabet.chars().collect();
    let seen = RefCell::new(vec![]);
    let mut it = Lazy { head: head.chars(), left: n, tail: tail.chars(), alphabet: &alphabet, seen: &seen };
    let g = IterWrapper::new(&mut it).parse::<nibble::Ast>();
    // Where it was rejected early, the part that was read stands for all of its continuations.
    let s = seen.borrow().clone();
    let mut r = Ref { s: &s, at: 0, undefined: false };
    r.ws();
    let v = r.sum().ok().filter(|_| r.at == s.len());
    check(g.is_ok() == v.is_some(), "the generated parser accepts exactly the expressions");
    check(v.is_some() || r.at < s.len() || it.done(), "the generated parser rejects only what is not the start of an expression");
    if let (Err(e), None) = (&g, &v) {
        fault(e, &s, r.at);
    }
    if r.undefined {
        cover(2);
        return;
    }
    let h = parse_expr(&mut IterWrapper::new(Again { at: 0, it: &mut it }));
    match v {
        None => {
            // No text that goes on from the part that was read is an expression.
            check(h.is_err(), "the hand-written parser rejects what is no expression");
            if let Err(e) = &h {
                fault(e, &s, r.at);
            }
            cover(9);
        }
        Some(v) => {
            let v = v as i64;
            check(g.map_or(false, |g| i64::from(g) == v), "the generated parser gives the value of every expression");
            check(h.map_or(false, |w| w == v), "the hand-written parser gives the value of every expression");
            cover(1);
            observe(v as u64);
        }
    }
}
#[no_mangle]
pub extern "C" fn h_arith3() {
    let n = choose(4);
    judge("", n, "", "")
}
#[no_mangle]
pub extern "C" fn h_arith4() {
    judge("", 4, "", "")
}
#[no_mangle]
pub extern "C" fn h_arith5() {
    let n = choose(6);
    judge("", n, "", "07 (+-*/)")
}
#[no_mangle]
pub extern "C" fn h_arith6() {
    judge("", 6, "", "07 (+-*/)")
}
#[no_mangle]
pub extern "C" fn h_arith7() {
    judge("", 7, "", "07 (+-*/)")
}
#[no_mangle]
pub extern "C" fn h_arith8() {
    judge("", 7 + choose(2), "", "7 (+-*/)")
}
#[no_mangle]
pub extern "C" fn h_arith9() {
    judge("", 9, "", "7(+-*/)")
}
#[no_mangle]
pub extern "C" fn h_arith10() {
    judge("", 10, "", "7(+-*/)")
}
#[no_mangle]
pub extern "C" fn h_any5() {
    judge("", 5, "", "")
}
/// Every sequence of operators between given numbers.
#[no_mangle]
pub extern "C" fn h_ops() {
    const OPS: [&str; 5] = ["+", "-", "*", "/", "- -"];
    let spaced = choose(2) == 1;
    let mut s = String::new();
    for (i, d) in ["29", "7", "2", "3"].iter().enumerate() {
        if i > 0 {
            s.push_str(OPS[choose(OPS.len())]);
            if spaced {
                s.push(' ');
            }
        }
        let open = i < 3 && choose(2) == 1;
        if open {
            s.push('(');
        }
        s.push_str(d);
        if spaced {
            s.push(' ');
        }
        if !open && i > 0 && s.matches('(').count() > s.matches(')').count() && choose(2) == 1 {
            s.push(')');
        }
    }
    while s.matches('(').count() > s.matches(')').count() {
        s.push(')');
    }
    judge(&s, 0, "", "")
}
/// Numbers about as long as those of 16, 32 and 64 bits, whose last two characters are arbitrary.
#[no_mangle]
pub extern "C" fn h_long() {
    const HEADS: [&str; 14] = [
        "1234567", "655", "-327", "21474836", "-21474836", "42949672", "-42949672", "92233720368547758", "-92233720368547758",
        "184467440737095516", "00000000000000000000", "9223372036854775807-9223372036854775", "-9223372036854775807-", "3037000499*30370004",
    ];
    judge(HEADS[choose(HEADS.len())], 2, "", "")
}
/// Arithmetic on long numbers.
#[no_mangle]
pub extern "C" fn h_long_ops() {
    const NUMBERS: [&str; 8] = ["9223372036854775807", "-9223372036854775807", "4294967296", "2147483647", "-2147483648", "10000000000", "7", "-1"];
    const OPS: [&str; 4] = ["+", "-", "*", "/"];
    let mut s = NUMBERS[choose(NUMBERS.len())].to_owned();
    for _ in 0..2 {
        s.push_str(OPS[choose(OPS.len())]);
        s.push_str(NUMBERS[choose(NUMBERS.len())]);
    }
    judge(&s, 0, "", "")
}
/// Much of something: brackets, terms of any operators in turns, digits, white space; one character anywhere is anything.
#[no_mangle]
pub extern "C" fn h_arith_much() {
    let s = match choose(4) {
        0 => {
            let n = [5, 8, 9, 16, 17, 33][choose(6)];
            let (a, b) = [("(", ")"), ("3-(", ")"), ("(", "*2)"), ("2 * ( ", " ) "), ("(-1)+(", ")-1")][choose(5)];
            a.repeat(n) + "7" + &b.repeat(n)
        }
        1 => {
            let n = [5, 8, 9, 16, 17, 33, 50][choose(7)];
            let (p, q) = (["+", "-", "*1/"][choose(3)], ["+", "- ", "*", "/"][choose(4)]);
            let mut s = "100".to_owned();
            for k in 0..n {
                s.push_str(if k % 2 == 0 { p } else { q });
                s.push_str(["7", "3", "12"][k % 3]);
            }
            s
        }
        2 => {
            let n = [5, 16, 17, 64, 300][choose(5)];
            let w = " ".repeat(n);
            let mut s = "1+(2*-3)".to_owned();
            s.insert_str(choose(s.len() + 1), &w);
            s
        }
        _ => {
            let n = [20, 33, 64, 300][choose(4)];
            let z = "0".repeat(n);
            ["1+Z7", "-Z12", "(Z9)/3", "4*Z", "Z-1"][choose(5)].replace('Z', &z)
        }
    };
    // Any character instead of one, before it or after, or the end of the text.
    let at = match choose(6) {
        k @ 0..=3 => s.len() * k / 4,
        4 => s.len() - 1,
        _ => s.len(),
    };
    match choose(3) {
        0 => judge(&s[..at], 1, &s[at..], ""),
        1 => judge(&s[..at], 1, s.get(at + 1..).unwrap_or(""), ""),
        _ => judge(&s[..at], 0, "", ""),
    }
}
