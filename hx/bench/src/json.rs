//! JSON.
use super::*;
use chomp_bench::json::{nibble, Value};
use std::collections::HashMap;

/// JSON as RFC 8259 has it, with strings of printable ASCII characters.
enum J {
    Null,
    Bool(bool),
    Number(String),
    String(Vec<u16>),
    Array(Vec<J>),
    Object(Vec<(Vec<u16>, J)>),
}
struct Ref<'a> {
    s: &'a [char],
    at: usize,
    /// Strings may have any characters but control characters, numbers may end in a point.
    lax: bool,
}
impl Ref<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.at).copied()
    }
    fn ws(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.at += 1;
        }
    }
    fn eat(&mut self, c: char) -> Option<()> {
        (self.peek()? == c).then(|| self.at += 1)
    }
    fn word(&mut self, w: &str) -> Option<()> {
        w.chars().try_for_each(|c| self.eat(c).ok_or(())).ok()
    }
    fn digits(&mut self) -> Option<()> {
        let from = self.at;
        while self.peek().map_or(false, |c| c.is_ascii_digit()) {
            self.at += 1;
        }
        (self.at > from).then_some(())
    }
    fn number(&mut self) -> Option<J> {
        let from = self.at;
        let _ = self.eat('-');
        if self.eat('0').is_none() {
            self.digits()?;
        }
        if self.eat('.').is_some() {
            self.digits().or(self.lax.then_some(()))?;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.at += 1;
            if matches!(self.peek(), Some('+' | '-')) {
                self.at += 1;
            }
            self.digits()?;
        }
        Some(J::Number(self.s[from..self.at].iter().collect()))
    }
    fn string(&mut self) -> Option<Vec<u16>> {
        self.eat('"')?;
        let mut out = vec![];
        loop {
            let c = self.peek()?;
            if !matches!(c, ' '..='~') && (!self.lax || c < ' ') {
                return None;
            }
            self.at += 1;
            let c = match c {
                '"' => return Some(out),
                '\\' => {
                    let c = self.peek()?;
                    if !matches!(c, '"' | '\\' | '/' | 'b' | 't' | 'n' | 'f' | 'r' | 'u') {
                        return None;
                    }
                    self.at += 1;
                    match c {
                        '"' | '\\' | '/' => c as u16,
                        'b' => 8,
                        't' => 9,
                        'n' => 10,
                        'f' => 12,
                        'r' => 13,
                        _ => {
                            let mut n = 0;
                            for _ in 0..4 {
                                n = n << 4 | self.peek()?.to_digit(16)? as u16;
                                self.at += 1;
                            }
                            n
                        }
                    }
                }
                _ => {
                    out.extend_from_slice(c.encode_utf16(&mut [0; 2]));
                    continue;
                }
            };
            out.push(c);
        }
    }
    fn value(&mut self) -> Option<J> {
        match self.peek()? {
            'n' => self.word("null").map(|_| J::Null),
            't' => self.word("true").map(|_| J::Bool(true)),
            'f' => self.word("false").map(|_| J::Bool(false)),
            '"' => self.string().map(J::String),
            '[' => {
                self.at += 1;
                let mut v = vec![];
                self.ws();
                if self.eat(']').is_some() {
                    return Some(J::Array(v));
                }
                loop {
                    self.ws();
                    v.push(self.value()?);
                    self.ws();
                    if self.eat(',').is_none() {
                        self.eat(']')?;
                        return Some(J::Array(v));
                    }
                }
            }
            '{' => {
                self.at += 1;
                let mut v = vec![];
                self.ws();
                if self.eat('}').is_some() {
                    return Some(J::Object(v));
                }
                loop {
                    self.ws();
                    let k = self.string()?;
                    self.ws();
                    self.eat(':')?;
                    self.ws();
                    v.push((k, self.value()?));
                    self.ws();
                    if self.eat(',').is_none() {
                        self.eat('}')?;
                        return Some(J::Object(v));
                    }
                }
            }
            _ => self.number(),
        }
    }
}
/// The value, unless it has strings that are not made of characters.
fn value(j: &J) -> Option<Value> {
    Some(match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::Number(s) => Value::Number(s.parse().unwrap()),
        J::String(s) => Value::String(String::from_utf16(s).ok()?),
        J::Array(v) => Value::Array(v.iter().map(value).collect::<Option<_>>()?),
        J::Object(v) => {
            let mut m = HashMap::new();
            for (k, v) in v {
                m.insert(String::from_utf16(k).ok()?, value(v)?);
            }
            Value::Object(m)
        }
    })
}
/// The same value; `Err` if some number of `a` is not finite.
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::Number(a), Value::Number(b)) => a.to_bits() == b.to_bits(),
        (Value::String(a), Value::String(b)) => a == b,
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, a)| b.get(k).map_or(false, |b| same(a, b))),
        _ => false,
    }
}
fn finite(a: &Value) -> bool {
    match a {
        Value::Number(a) => a.is_finite(),
        Value::Array(a) => a.iter().all(finite),
        Value::Object(a) => a.values().all(finite),
        _ => true,
    }
}
fn ascii(a: &Value) -> bool {
    let s = |s: &str| s.chars().all(|c| c < '\u{7f}');
    match a {
        Value::String(a) => s(a),
        Value::Array(a) => a.iter().all(ascii),
        Value::Object(a) => a.iter().all(|(k, v)| s(k) && ascii(v)),
        _ => true,
    }
}

/// What a text denotes: `None` if it is no JSON, `Some(None)` if it has strings that are not made of characters.
pub fn read(s: &[char]) -> Option<Option<Value>> {
    let mut r = Ref { s, at: 0, lax: true };
    r.ws();
    let j = r.value()?;
    r.ws();
    (r.at == s.len()).then(|| value(&j))
}
/// Whether every number of `s` is one of JSON, every string is one or the start of one, up to the
/// digits of an escape, and all escapes denote characters by themselves.
fn tame(s: &[char]) -> bool {
    let at = |i: usize| s.get(i).copied();
    let mut i = 0;
    while let Some(c) = at(i) {
        if c == '"' {
            i += 1;
            loop {
                i += match (at(i), at(i + 1)) {
                    (None, _) | (Some('\\'), None) => return true,
                    (Some('"'), _) => break,
                    (Some('\\'), Some('"' | '\\' | '/' | 'b' | 't' | 'n' | 'f' | 'r')) => 2,
                    (Some('\\'), Some('u')) => {
                        let digits: Option<Vec<u32>> = (i + 2..i + 6).map(|k| at(k)?.to_digit(16)).collect();
                        match digits {
                            // Whether it is rejected there decides the rest.
                            None => return true,
                            Some(d) if d[0] == 13 && d[1] >= 8 => return false,
                            Some(_) => 6,
                        }
                    }
                    (Some('\\'), _) | (Some('\0'..='\x1f'), _) => return false,
                    _ => 1,
                };
            }
            i += 1;
        } else if matches!(c, '0'..='9' | '-' | '+' | '.' | 'e' | 'E') {
            let from = i;
            while matches!(at(i), Some('0'..='9' | '-' | '+' | '.' | 'e' | 'E')) {
                i += 1;
            }
            let mut r = Ref { s, at: from, lax: false };
            if matches!(c, '0'..='9' | '-') && (r.number().is_none() || r.at != i) {
                return false;
            }
        } else {
            i += 1;
        }
    }
    true
}
/// Whether `e` reports that the text cannot go on at `far`.
fn fault(e: &ParseError, s: &[char], far: usize) {
    let p = match e {
        ParseError::TakeError(TakeError::EndOfStream(p)) => {
            check(far == s.len(), "an unexpected end is reported at the end");
            p
        }
        ParseError::TakeError(TakeError::BadBranch(p, c, _)) => {
            check(far < s.len() && s[far] == *c, "an error is at the first character that fits no JSON text");
            p
        }
        ParseError::TakeError(TakeError::BadString(p, got, _)) => {
            check(far < s.len() && got.chars().last() == Some(s[far]), "an error is at the first character that fits no JSON text");
            p
        }
        ParseError::InputContinues(p) => {
            check(far < s.len(), "left-over text is reported where it starts");
            p
        }
    };
    let mut before = IterWrapper::new(s[..far].iter().copied());
    before.skip_while(|_| true);
    check(*p == before.pos(), "an error is located where the text cannot go on");
}
fn judge(head: &str, n: usize, tail: &str, alphabet: &str) {
    let alphabet: Vec<char> = alphabet.chars().collect();
    let seen = RefCell::new(vec![]);
    let mut it = Lazy { head: head.chars(), left: n, tail: tail.chars(), alphabet: &alphabet, seen: &seen };
    let g = IterWrapper::new(&mut it).parse::<nibble::Ast>();
    // Where it was rejected early, the part that was read stands for all of its continuations.
    let s = seen.borrow().clone();
    let mut r = Ref { s: &s, at: 0, lax: false };
    r.ws();
    let j = r.value();
    if j.is_some() {
        r.ws();
    }
    let j = j.filter(|_| r.at == s.len());
    check(g.is_ok() == j.is_some(), "the generated parser accepts exactly JSON");
    check(j.is_some() || r.at < s.len() || it.done(), "the generated parser rejects only what is not the start of a JSON text");
    let (g, j) = match (g, j) {
        (Ok(g), Some(j)) => (g, j),
        (g, _) => {
            if let Err(e) = &g {
                fault(e, &s, r.at);
            }
            if tame(&s) {
                let mut r = Ref { s: &s, at: 0, lax: true };
                r.ws();
                if r.value().is_some() {
                    r.ws();
                    if r.at == s.len() {
                        return;
                    }
                }
                match IterWrapper::new(s.iter().copied()).parse::<Value>() {
                    Ok(_) => check(false, "the hand-written parser rejects what is not JSON"),
                    Err(e) => fault(&e, &s, r.at),
                }
                cover(10);
            }
            return cover(9);
        }
    };
    let v = match value(&j) {
        None => return cover(2),
        Some(v) => v,
    };
    cover(1);
    let g = Value::from(g);
    check(same(&v, &g), "the generated parser gives the value that was written");
    let h = IterWrapper::new(s.iter().copied()).parse::<Value>();
    check(h.as_ref().map_or(false, |h| same(&v, h)), "the hand-written parser gives the value that was written");
    if finite(&v) {
        let p = g.to_string();
        check(IterWrapper::new(p.chars()).parse::<Value>().map_or(false, |w| same(&v, &w)), "a printed value is read back by the hand-written parser");
        if ascii(&v) {
            check(IterWrapper::new(p.chars()).parse::<nibble::Ast>().map_or(false, |w| same(&v, &w.into())), "a printed value is read back by the generated parser");
        }
    } else {
        cover(3);
    }
    observe(s.len() as u64);
}
#[no_mangle]
pub extern "C" fn h_any2() {
    let n = choose(3);
    judge("", n, "", "")
}
#[no_mangle]
pub extern "C" fn h_any3() {
    judge("", 3, "", "")
}
#[no_mangle]
pub extern "C" fn h_any4() {
    judge("", 4, "", "")
}
#[no_mangle]
pub extern "C" fn h_number8() {
    judge("", 7 + choose(2), "", "-019.eE+")
}
#[no_mangle]
pub extern "C" fn h_shape6() {
    let n = choose(7);
    judge("", n, "", "[]{},: \"0")
}
#[no_mangle]
pub extern "C" fn h_shape8() {
    judge("", 7 + choose(2), "", "[]{},: \"0")
}
#[no_mangle]
pub extern "C" fn h_object() {
    let n = choose(6);
    judge("{\"\":0", n, "}", "{},: \"a0")
}
#[no_mangle]
pub extern "C" fn h_number6() {
    let n = choose(7);
    judge("", n, "", "-019.eE+")
}
#[no_mangle]
pub extern "C" fn h_string4() {
    let n = choose(5);
    judge("\"", n, "\"", "\\\"/bfnrtua0\n\u{7f}é")
}
#[no_mangle]
pub extern "C" fn h_unicode() {
    let n = choose(5);
    judge("\"\\u", n, "\"", "0123456789abcdefABCDEFg")
}
#[no_mangle]
pub extern "C" fn h_pair() {
    judge(["\"\\uD8", "\"\\ud9", "\"\\uDB", "\"\\uDF"][choose(4)], 2, ["\\uDC00\"", "\\udfff\"", "\\uDBff\"", "\\n\"", "\""][choose(5)], "09aF")
}
#[no_mangle]
pub extern "C" fn h_words() {
    let w = ["null", "true", "false"][choose(3)];
    let k = choose(w.len());
    let n = choose(3);
    judge(&w[..k], n, &w[k + 1..], "nulltrefas")
}

fn reread(v: &Value) {
    let p = v.to_string();
    let h = IterWrapper::new(p.chars()).parse::<Value>();
    check(h.map_or(false, |w| same(v, &w)), "a printed value is read back by the hand-written parser");
    if ascii(v) {
        let g = IterWrapper::new(p.chars()).parse::<nibble::Ast>();
        check(g.map_or(false, |w| same(v, &w.into())), "a printed value is read back by the generated parser");
        cover(1);
    } else {
        cover(2);
    }
    observe(p.len() as u64);
}
/// Every string of up to 2 characters.
#[no_mangle]
pub extern "C" fn h_print_string() {
    let n = choose(3);
    reread(&Value::String((0..n).map(|_| any_char()).collect()))
}
/// Keys of up to 2 characters.
#[no_mangle]
pub extern "C" fn h_print_key() {
    const SOME: [char; 12] = ['\0', '\u{8}', '\t', '\n', '\u{c}', '\r', '\u{1f}', '"', '\\', '/', 'u', 'é'];
    let n = choose(3);
    let mut m = HashMap::new();
    m.insert((0..n).map(|_| SOME[choose(12)]).collect(), Value::Null);
    reread(&Value::Object(m))
}
fn times(x: f64, base: f64, e: i32) -> f64 {
    (0..e.unsigned_abs()).fold(x, |x, _| if e < 0 { x / base } else { x * base })
}
/// Numbers of many magnitudes and signs, alone and in a list.
#[no_mangle]
pub extern "C" fn h_print_number() {
    const M: [f64; 7] = [1.0, 1.5, 9.999999999999999, 1.2345678901234567, 3.3333333333333335, 4.503599627370497, 7.0];
    const E: [i32; 8] = [-308, -100, -45, 45, 99, 100, 300, 307];
    let k = choose(3);
    let x = if k == 0 {
        let b = choose(70) as i32;
        // About the powers of two, where the integers end.
        times(1.0, 2.0, b) + [-1.0, 0.0, 1.0, 0.5][choose(4)]
    } else {
        let m = M[choose(7)];
        let e = if k == 1 { choose(51) as i32 - 25 } else { E[choose(8)] };
        times(m, 10.0, e)
    };
    let x = if choose(2) == 1 { -x } else { x };
    let v = Value::Number(x);
    reread(&if choose(2) == 1 { Value::Array(vec![v, Value::Number(1.0)]) } else { v })
}
fn tree(n: usize) -> Value {
    if n == 1 {
        return match choose(7) {
            0 => Value::Null,
            1 => Value::Bool(choose(2) == 1),
            2 => Value::String("a".to_owned()),
            3 => Value::Array(vec![]),
            4 => Value::Object(HashMap::new()),
            5 => Value::String("\u{1}\"".to_owned()),
            _ => Value::Number([0.0, -0.0, 1.0, -1.5, 1e21, 5e-324, f64::MAX, 0.1, -123456789.0][choose(9)]),
        };
    }
    let mut left = n - 1;
    let mut v = vec![];
    while left > 0 {
        let k = 1 + choose(left);
        v.push(tree(k));
        left -= k;
    }
    if choose(2) == 1 {
        let keys = ["k", "", "\\", "\n"];
        Value::Object(v.into_iter().enumerate().map(|(i, v)| (keys[i].to_owned(), v)).collect())
    } else {
        Value::Array(v)
    }
}
/// Every value of up to 4 nodes.
#[no_mangle]
pub extern "C" fn h_print_tree3() {
    let n = 1 + choose(3);
    reread(&tree(n))
}
#[no_mangle]
pub extern "C" fn h_print_tree4() {
    reread(&tree(4))
}
/// Long arrays and objects and deep nestings, with two arbitrary characters at some place.
#[no_mangle]
pub extern "C" fn h_lists() {
    let k = [0, 1, 5, 11][choose(4)];
    let m = [0, 1, 6][choose(3)];
    let kind = choose(5);
    let item = |i: usize| match kind {
        0 => "1".to_owned(),
        1 => ["null", "\"s\"", "[ ]", "{ }", "-1.5e3", "false", " true "][i % 7].to_owned(),
        2 => format!("\"{}\":{}", (b'a' + i as u8) as char, i),
        // Keys that were used before.
        3 => format!(" \"{}\" : {} ", i % 3, i),
        _ => String::new(),
    };
    let (open, close) = ["[]", "[]", "{}", "{}", "[]"][kind].split_at(1);
    let (mut head, mut tail) = (String::new(), String::new());
    if kind == 4 {
        for i in 0..k {
            head.push_str(["[", "{\"k\":", "[0,"][i % 3]);
            tail.insert_str(0, ["]", "}", "]"][i % 3]);
        }
    } else {
        head.push_str(open);
        for i in 0..k {
            head.push_str(&item(i));
            head.push(',');
        }
        if kind >= 2 {
            head.push_str("\"x\":");
        }
        for i in 0..m {
            tail.push(',');
            tail.push_str(&item(k + i));
        }
        tail.push_str(close);
    }
    let n = 1 + choose(2);
    judge(&head, n, &tail, "")
}
/// Long strings, with an arbitrary character at some place.
#[no_mangle]
pub extern "C" fn h_long_string() {
    const PARTS: [&str; 5] = ["a long text with no escapes ", "\\u00e9\\n", "\\ud83d\\ude00", "", "\\\\"];
    let part = || PARTS[choose(5)].repeat([1, 9][choose(2)]);
    let head = format!("\"{}", part());
    judge(&head, 1, &format!("{}\"", part()), "")
}
/// Long numbers, with two arbitrary characters at some place.
#[no_mangle]
pub extern "C" fn h_long_number() {
    const HEADS: [&str; 8] = ["12345678901234567890", "-9007199254740993", "0.", "0.0000000000000000000000001", "17976931348623157", "1e", "-1E-", "4.9406564584124654e-"];
    const TAILS: [&str; 5] = ["", "0000000000000000000000000", "e292", "5", ".25"];
    let head = HEADS[choose(8)];
    judge(head, 2, TAILS[choose(5)], "")
}
