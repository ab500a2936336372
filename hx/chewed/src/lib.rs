//! Harnesses over the parser runtime (`chewed`).
use chewed::{Epsilon, IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};
use std::fmt;
use sym::*;

sym::table!(TABLE: h_message, h_message_long, h_message_parse, h_pos, h_pos_deep, h_consume, h_consume_deep, h_chars, h_skip, h_iter, h_iter_deep, h_parse, h_parse_long, h_errors, h_pos_far, h_pos_many, h_consume_long, h_chars_long, h_chars_many, h_skip_long, h_iter_long, h_stream);

/// Reference newline rule (Unicode line terminators, CRLF counts once).
fn reference(text: &[char], upto: usize) -> LineCol {
    let (mut line, mut col) = (1usize, 0usize);
    for i in 0..upto {
        let c = text[i];
        let nl = match c {
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => !(i + 1 < text.len() && text[i + 1] == '\n'),
            _ => false,
        };
        if nl {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    LineCol { line, col }
}

fn text<const N: usize>() -> ([char; N], usize) {
    let t: [char; N] = std::array::from_fn(|_| any_char());
    (t, choose(N + 1))
}

fn obs_pos(p: LineCol) {
    observe(p.line as u64);
    observe(p.col as u64);
}

fn pos<const N: usize>() {
    let (text, len) = text::<N>();
    let text = &text[..len];
    let mut w = IterWrapper::new(text.iter().copied());
    check(w.pos() == LineCol { line: 1, col: 0 }, "the position starts at 1:0");
    let mut k = 0;
    for _ in 0..N + 2 {
        let before = w.pos();
        if any_bool() {
            let p = w.peek();
            check(p == text.get(k).copied(), "peek returns the next character");
            check(w.pos() == before, "peek does not move");
        }
        let n = w.next();
        check(n == text.get(k).copied(), "next returns the next character");
        if n.is_some() {
            k += 1;
        } else {
            cover(2);
        }
        check(w.pos() == reference(text, k), "the position is that of the next character");
    }
    if w.pos().line > 2 {
        cover(3);
    }
    obs_pos(w.pos());
    cover(1);
}

#[no_mangle]
pub extern "C" fn h_pos() {
    pos::<3>()
}
#[no_mangle]
pub extern "C" fn h_pos_deep() {
    pos::<5>()
}

fn leak(s: &[char]) -> &'static str {
    let s: String = s.iter().collect();
    Box::leak(s.into_boxed_str())
}

fn consume<const N: usize, const M: usize>() {
    let (text, len) = text::<N>();
    let text = &text[..len];
    let pat: [char; M] = std::array::from_fn(|_| any_char());
    let pat = &pat[..choose(M + 1)];
    // Keeps line breaks out except for '\n'; the newline rule has its own harness.
    let s = leak(pat);
    let mut w = IterWrapper::new(text.iter().copied());
    let pre = if any_bool() {
        if w.next().is_some() {
            1
        } else {
            0
        }
    } else {
        0
    };
    let rest = &text[pre..];
    let mut m = 0;
    while m < pat.len() && m < rest.len() && pat[m] == rest[m] {
        m += 1;
    }
    let r = w.consume_str(s);
    check(w.pos() == reference(text, pre + m), "consume_str consumes exactly the matching prefix");
    match r {
        Ok(()) => {
            cover(1);
            observe(1);
            check(m == pat.len(), "consume_str accepts only the string");
        }
        Err(TakeError::EndOfStream(p)) => {
            cover(2);
            observe(2);
            check(m < pat.len() && m == rest.len(), "end of stream is reported only at the end");
            check(p == w.pos(), "end of stream position");
        }
        Err(TakeError::BadString(p, got, exp)) => {
            cover(3);
            observe(3);
            observe(got.len() as u64);
            check(m < pat.len() && m < rest.len(), "a mismatch is reported only for a mismatch");
            check(p == w.pos(), "mismatch position");
            check(exp == s, "the expected string is reported");
            check(got.chars().eq(rest[..=m].iter().copied()), "the string read so far is reported");
        }
        Err(_) => check(false, "consume_str reports no other error"),
    }
    check(w.peek() == rest.get(m).copied(), "the next character is the first unconsumed one");
}
#[no_mangle]
pub extern "C" fn h_consume() {
    consume::<3, 2>()
}
#[no_mangle]
pub extern "C" fn h_consume_deep() {
    consume::<4, 4>()
}

#[no_mangle]
pub extern "C" fn h_chars() {
    let (text, len) = text::<4>();
    let text = &text[..len];
    let set: &'static [char] = Box::leak(Box::new([any_char(), any_char()]));
    let mut w = IterWrapper::new(text.iter().copied());
    let mut buf = ['\0'; 3];
    let n = choose(4);
    let r = w.take_chars_from(set, &mut buf[..n]);
    let mut m = 0;
    while m < n && m < text.len() && (text[m] == set[0] || text[m] == set[1]) {
        check(buf[m] == text[m], "the characters are stored in order");
        m += 1;
    }
    check(w.pos() == reference(text, m), "only characters of the set are consumed");
    match r {
        Ok(()) => {
            cover(1);
            check(m == n, "accepts only a full buffer");
        }
        Err(TakeError::EndOfStream(p)) => {
            cover(2);
            check(m < n && m == text.len(), "end of stream only at the end");
            check(p == reference(text, m), "end of stream position");
        }
        Err(TakeError::BadBranch(p, c, s)) => {
            cover(3);
            check(m < n && m < text.len(), "mismatch only on a character");
            check(c == text[m], "the offending character is reported");
            check(p == reference(text, m), "mismatch position is that of the offending character");
            check(s == set, "the set is reported");
        }
        Err(_) => check(false, "no other error"),
    }
    obs_pos(w.pos());
}

#[no_mangle]
pub extern "C" fn h_skip() {
    let (text, len) = text::<4>();
    let text = &text[..len];
    let (a, b) = (any_char(), any_char());
    let mut w = IterWrapper::new(text.iter().copied());
    w.skip_while(|c| c == a || c == b);
    let m = text.iter().take_while(|c| **c == a || **c == b).count();
    check(w.pos() == reference(text, m), "skip_while consumes exactly the matching prefix");
    check(w.peek() == text.get(m).copied(), "and leaves the first other character");
    if m == 4 {
        cover(1);
    }
    obs_pos(w.pos());
}

/// Items are single characters out of `FIRST`; a failing item parser is also modelled.
fn iter<const N: usize>() {
    let (text, len) = text::<N>();
    list_of(&text[..len]);
}
fn list_of(text: &[char]) {
    // Neither in order nor without repetition.
    const FIRST: &[char] = &['b', 'e', 'a', 'b', 'c'];
    let len = text.len();
    let (sep, stop) = (',', ']');
    const TAIL: &[char] = &[']', ','];
    let mut w = IterWrapper::new(text.iter().copied());
    let mut got = Vec::new();
    let mut err = None;
    for r in w.iter_strict(
        |p: &mut IterWrapper<_>| {
            let mut b = ['\0'];
            p.take_chars_from(FIRST, &mut b)?;
            Ok(b[0])
        },
        sep,
        stop,
        TAIL,
        FIRST,
    ) {
        match r {
            Ok(c) => got.push(c),
            Err(e) => {
                err = Some(e);
                break;
            }
        }
    }
    // Reference.
    let mut k = 0;
    let mut want: Vec<char> = vec![];
    let mut werr = None;
    if k < len && text[k] != stop {
        loop {
            // item
            if k == len {
                werr = Some(TakeError::EndOfStream(reference(text, k)));
                break;
            }
            if !FIRST.contains(&text[k]) {
                werr = Some(TakeError::BadBranch(reference(text, k), text[k], FIRST));
                break;
            }
            let item = text[k];
            k += 1;
            if k == len {
                werr = Some(TakeError::EndOfStream(reference(text, k)));
                break;
            }
            if text[k] == sep {
                k += 1;
                if k == len {
                    werr = Some(TakeError::EndOfStream(reference(text, k)));
                    break;
                }
                if !FIRST.contains(&text[k]) {
                    werr = Some(TakeError::BadBranch(reference(text, k), text[k], FIRST));
                    break;
                }
                want.push(item);
            } else if text[k] == stop {
                want.push(item);
                break;
            } else {
                werr = Some(TakeError::BadBranch(reference(text, k), text[k], TAIL));
                break;
            }
        }
    }
    check(got == want, "the items are those of the separated list");
    check(err == werr, "the error names what was wrong and where");
    check(w.pos() == reference(text, k), "the stop character is not consumed");
    if werr.is_none() && want.len() >= 2 {
        cover(1);
    }
    if werr.is_some() {
        cover(2);
    }
    observe(got.len() as u64);
    obs_pos(w.pos());
}
#[no_mangle]
pub extern "C" fn h_iter() {
    iter::<4>()
}
#[no_mangle]
pub extern "C" fn h_iter_deep() {
    iter::<6>()
}

/// Takes one `a`, one `b` or nothing, failing on 'x'.
#[derive(Clone, Debug, PartialEq)]
struct Item(Option<char>);
impl fmt::Display for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.iter().try_for_each(|c| write!(f, "{}", c))
    }
}
impl Parse for Item {
    fn take<P: Parser + ?Sized>(input: &mut P) -> Result<Self, TakeError> {
        match input.peek() {
            Some(c @ 'a') | Some(c @ '\n') => {
                input.next();
                Ok(Item(Some(c)))
            }
            Some('x') => Err(TakeError::BadBranch(input.pos(), 'x', &[])),
            _ => Ok(Item(None)),
        }
    }
}

#[no_mangle]
pub extern "C" fn h_parse() {
    let (text, len) = text::<2>();
    let text = &text[..len];
    let s = leak(text);
    let item = match text.first() {
        Some(c @ 'a') | Some(c @ '\n') => Some(*c),
        _ => None,
    };
    let used = item.is_some() as usize;
    let taken = if text.first() == Some(&'x') {
        Err(TakeError::BadBranch(LineCol::default(), 'x', &[]))
    } else {
        Ok(Item(item))
    };
    let want = match &taken {
        Err(e) => Err(ParseError::TakeError(e.clone())),
        Ok(_) if used < len => Err(ParseError::InputContinues(reference(text, used))),
        Ok(i) => Ok(i.clone()),
    };
    if want.is_ok() {
        cover(1);
    } else {
        cover(2);
    }
    check(Item::take_str(s) == taken, "take_str takes a prefix");
    check(Item::parse_str(s) == want, "parse_str accepts exactly a full parse");
    check(Item::parse(IterWrapper::new(s.chars())) == want, "Parse::parse accepts exactly a full parse");
    check(IterWrapper::new(s.chars()).parse() == want, "Parser::parse accepts exactly a full parse");
    check(Box::<Item>::parse_str(s).map(|b| *b) == want, "Box parses as its contents");
    check(Box::<Item>::take_str(s).map(|b| *b) == taken, "Box takes as its contents");
    check(Box::<Box<Item>>::parse_str(s).map(|b| **b) == want, "Box<Box> parses as its contents");
    let mut w = IterWrapper::new(s.chars());
    let t: Result<Item, _> = w.take();
    check(t == taken, "Parser::take takes a prefix");
    check(w.pos() == reference(text, if taken.is_ok() { used } else { 0 }), "and leaves the rest");
    check(Epsilon::take_str(s) == Ok(Epsilon), "Epsilon takes nothing");
    let e = if len == 0 {
        Ok(Epsilon)
    } else {
        Err(ParseError::InputContinues(LineCol::default()))
    };
    check(Epsilon::parse_str(s) == e, "Epsilon parses only the empty input");
    observe(want.is_ok() as u64);
}

/// What `Run` does: how many characters it takes, what it looks at, and how it ends.
static PLAN: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// Takes as many characters as planned, and then fails or not.
#[derive(Clone, Debug, PartialEq)]
struct Run(String);
impl fmt::Display for Run {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
const RUN_SET: &[char] = &['q', '\u{e9}'];
fn run_end(end: usize, pos: LineCol, out: String) -> Result<Run, TakeError> {
    match end {
        0 => Ok(Run(out)),
        1 => Err(TakeError::BadBranch(pos, 'q', RUN_SET)),
        2 => Err(TakeError::BadString(pos, out, "run")),
        _ => Err(TakeError::EndOfStream(pos)),
    }
}
impl Parse for Run {
    fn take<P: Parser + ?Sized>(input: &mut P) -> Result<Self, TakeError> {
        let plan = PLAN.load(std::sync::atomic::Ordering::Relaxed);
        let (n, end, look) = (plan / 8, plan % 8 / 2, plan % 2 == 1);
        let mut out = String::new();
        for _ in 0..n {
            match input.next() {
                Some(c) => out.push(c),
                None => return Err(TakeError::EndOfStream(input.pos())),
            }
        }
        if look {
            input.peek();
        }
        run_end(end, input.pos(), out)
    }
}
/// Texts of up to 30 characters, of which any number is taken.
#[no_mangle]
pub extern "C" fn h_parse_long() {
    const LENS: [usize; 5] = [0, 1, 3, 4, 30];
    let len = LENS[choose(LENS.len())];
    let mut text: Vec<char> = (0..len).map(|i| ['k', '\n', '\u{e9}', ' '][i % 4]).collect();
    // An arbitrary character at one of the ends or in the middle, and a line break or none after it.
    if len > 0 {
        let at = [0, len - 1, len / 2, len.saturating_sub(2)][choose(4)];
        text[at] = any_char();
        if at + 1 < len && any_bool() {
            text[at + 1] = '\n';
        }
    }
    let left = choose(4);
    let n = if left == 3 { len + 1 } else { len.saturating_sub(left) };
    let end = if left < 3 { choose(4) } else { 0 };
    let look = any_bool();
    PLAN.store(n * 8 + end * 2 + look as usize, std::sync::atomic::Ordering::Relaxed);
    let s = leak(&text);
    let used = n.min(len);
    let at = reference(&text, used);
    let taken = if n > len {
        Err(TakeError::EndOfStream(at))
    } else {
        run_end(end, at, text[..n].iter().collect())
    };
    let want = match &taken {
        Err(e) => Err(ParseError::TakeError(e.clone())),
        Ok(_) if used < len => Err(ParseError::InputContinues(at)),
        Ok(r) => Ok(r.clone()),
    };
    match &want {
        Ok(_) => cover(1),
        Err(ParseError::InputContinues(_)) => cover(2),
        Err(_) => cover(3),
    }
    check(Run::take_str(s) == taken, "take_str takes a prefix");
    check(Run::parse_str(s) == want, "parse_str accepts exactly a full parse");
    check(Run::parse(IterWrapper::new(s.chars())) == want, "Parse::parse accepts exactly a full parse");
    check(IterWrapper::new(s.chars()).parse() == want, "Parser::parse accepts exactly a full parse");
    check(Box::<Run>::take_str(s).map(|b| *b) == taken, "Box takes as its contents");
    check(Box::<Box<Run>>::parse_str(s).map(|b| **b) == want, "Box<Box> parses as its contents");
    let mut w = IterWrapper::new(s.chars());
    // Something may have looked at the text before.
    if any_bool() {
        w.peek();
    }
    let t: Result<Box<Run>, _> = w.take();
    check(t.map(|b| *b) == taken, "Parser::take takes a prefix");
    check(w.pos() == at, "and leaves the rest");
    check(w.next() == text.get(used).copied(), "which is what comes next");
    observe(used as u64);
}

/// The messages of the errors carry the position, for any position.
#[no_mangle]
pub extern "C" fn h_errors() {
    let l = below(100) as usize;
    let c = below(100) as usize;
    let p = LineCol { line: l, col: c };
    let want = format!("{}:{}: ", l, c);
    let set: &'static [char] = match choose(3) {
        0 => &[],
        1 => &['a'],
        _ => &['a', 'b'],
    };
    let k = choose(4);
    let m = match k {
        0 => TakeError::BadBranch(p, 'q', set).to_string(),
        1 => TakeError::EndOfStream(p).to_string(),
        2 => TakeError::BadString(p, "q".into(), "a").to_string(),
        _ => ParseError::InputContinues(p).to_string(),
    };
    check(m.starts_with(&want), "the message starts with the position");
    cover(1);
}

/// Far into a text: columns and lines beyond what fits a byte, and beyond 16 bits.
fn far(n: usize, step: char) {
    let tail: [char; 3] = std::array::from_fn(|_| any_char());
    let mut w = IterWrapper::new((0..n).map(|_| step).chain(tail));
    let mut p = LineCol { line: 1, col: 0 };
    for _ in 0..n {
        check(w.next() == Some(step), "next returns the next character");
        if step == 'x' {
            p.col += 1;
        } else {
            p.line += 1;
        }
    }
    check(w.pos() == p, "the position after many characters");
    for k in 0..tail.len() {
        check(w.next() == Some(tail[k]), "next returns the next character");
        let r = reference(&tail, k + 1);
        let want = if r.line == 1 { LineCol { line: p.line, col: p.col + r.col } } else { LineCol { line: p.line + r.line - 1, col: r.col } };
        check(w.pos() == want, "the position is that of the next character");
    }
    check(w.next().is_none() && w.peek().is_none(), "then the text ends");
    cover(1);
    obs_pos(w.pos());
}
#[no_mangle]
pub extern "C" fn h_pos_far() {
    let n = [250, 300, 65600][choose(3)];
    let step = ['x', '\n'][choose(2)];
    far(n, step);
}
/// Texts of 12 characters out of line breaks and others.
#[no_mangle]
pub extern "C" fn h_pos_many() {
    const C: [char; 4] = ['\r', '\n', 'x', '\u{2028}'];
    let text: [char; 8] = std::array::from_fn(|_| C[choose(4)]);
    let peeks = choose(3);
    let mut w = IterWrapper::new(text.iter().copied());
    for k in 0..text.len() {
        check(w.pos() == reference(&text, k), "the position is that of the next character");
        for _ in 0..peeks {
            check(w.peek() == Some(text[k]), "peek returns the next character");
        }
        check(w.next() == Some(text[k]), "next returns the next character");
    }
    check(w.pos() == reference(&text, text.len()), "the position is that of the end");
    cover(1);
    obs_pos(w.pos());
}

const LONG: &str = "a\u{e9}b\u{20ac}c\u{1f600}deaab\r\nab\u{e9}\u{e9}zyxwvutsrqponmlkjihgfedcba0123456789a";
/// A long literal of characters of all widths against texts that differ from it in one or two
/// places, stop early or go on.
#[no_mangle]
pub extern "C" fn h_consume_long() {
    let size = [17, LONG.chars().count(), 64, 65, 140][choose(5)];
    let lit: Vec<char> = LONG.chars().cycle().take(size.max(24)).collect();
    let s = leak(&lit[..size]);
    let n = s.chars().count();
    let at = choose(n);
    let mut text: Vec<char> = lit.clone();
    text[at] = any_char();
    if at + 1 < n {
        text[at + 1] = any_char();
    }
    text.truncate(lit.len() - choose(3) * 7);
    let m = text.iter().zip(s.chars()).take_while(|(a, b)| **a == *b).count();
    let mut w = IterWrapper::new(text.iter().copied());
    let r = w.consume_str(s);
    check(w.pos() == reference(&text, m), "consume_str consumes exactly the matching prefix");
    check(w.peek() == text.get(m).copied(), "the next character is the first unconsumed one");
    match r {
        Ok(()) => {
            cover(1);
            check(m == n, "consume_str accepts only the string");
        }
        Err(TakeError::EndOfStream(p)) => {
            cover(2);
            check(m < n && m == text.len() && p == w.pos(), "end of stream is reported only at the end");
        }
        Err(TakeError::BadString(p, got, exp)) => {
            cover(3);
            check(m < n && m < text.len() && p == w.pos(), "a mismatch is reported only for a mismatch");
            check(exp == s, "the expected string is reported");
            check(got.chars().eq(text[..=m].iter().copied()), "the string read so far is reported");
        }
        Err(_) => check(false, "consume_str reports no other error"),
    }
    observe(m as u64);
}

/// Sets of up to nine characters, in any of three orders, and buffers of up to eight.
#[no_mangle]
pub extern "C" fn h_chars_long() {
    let mut set = vec!['q', 'a', '\u{e9}', 'z', 'b', '\u{1f600}', 'm', 'c'];
    match choose(3) {
        0 => set.sort(),
        1 => set.reverse(),
        _ => (),
    }
    set.insert(choose(9), any_char());
    set.truncate(1 + choose(9));
    let set: &'static [char] = Box::leak(set.into_boxed_slice());
    let mut text: Vec<char> = "abcmqz\u{e9}\u{1f600}".chars().collect();
    for c in text.iter_mut() {
        if !set.contains(c) {
            *c = set[0];
        }
    }
    text[choose(8)] = any_char();
    let n = choose(9);
    let mut buf = ['\0'; 8];
    let mut w = IterWrapper::new(text.iter().copied());
    let r = w.take_chars_from(set, &mut buf[..n]);
    let m = text[..n].iter().take_while(|c| set.iter().any(|x| x == *c)).count();
    check(buf[..m] == text[..m], "the characters are stored in order");
    check(w.pos() == reference(&text, m), "only characters of the set are consumed");
    if m == n {
        cover(1);
        check(r == Ok(()), "accepts only a full buffer");
    } else {
        cover(2);
        check(r == Err(TakeError::BadBranch(reference(&text, m), text[m], set)), "the offending character is reported");
    }
    observe(m as u64);
}
/// Sets of up to 40 characters and buffers of up to 33, one character of which is anything.
#[no_mangle]
pub extern "C" fn h_chars_many() {
    let size = [10, 15, 16, 17, 26, 33, 40][choose(7)];
    let turned = choose(2) == 1;
    let mut set: Vec<char> = (0..size).map(|k| (b'A' + k as u8) as char).collect();
    if turned {
        set.reverse();
    }
    set[choose(3) * (size - 1) / 2] = '\u{1f600}';
    let set: &'static [char] = Box::leak(set.into_boxed_slice());
    let n = [1, 9, 16, 17, 33][choose(5)];
    let at = [0, n / 2, n - 1][choose(3)];
    let text: Vec<char> = (0..n).map(|k| if k == at { any_char() } else { set[k * 7 % size] }).collect();
    let mut buf = vec!['\0'; n];
    let mut w = IterWrapper::new(text.iter().copied());
    let r = w.take_chars_from(set, &mut buf);
    let m = text.iter().take_while(|c| set.iter().any(|x| x == *c)).count();
    check(buf[..m] == text[..m], "the characters are stored in order");
    check(w.pos() == reference(&text, m), "only characters of the set are consumed");
    if m == n {
        cover(1);
        check(r == Ok(()), "accepts only a full buffer");
    } else {
        cover(2);
        check(r == Err(TakeError::BadBranch(reference(&text, m), text[m], set)), "the offending character is reported");
    }
    observe(m as u64);
}
/// Long runs.
#[no_mangle]
pub extern "C" fn h_skip_long() {
    let n = [0, 1, 15, 40, 300][choose(5)];
    let (a, b) = (any_char(), any_char());
    let text: Vec<char> = (0..n).map(|i| if i % 3 == 1 { a } else { 'k' }).chain([b, 'k']).collect();
    let mut w = IterWrapper::new(text.iter().copied());
    let mut calls = 0;
    w.skip_while(|c| {
        calls += 1;
        c == 'k' || c == 'q'
    });
    let m = text.iter().take_while(|c| **c == 'k' || **c == 'q').count();
    check(w.pos() == reference(&text, m), "skip_while consumes exactly the matching prefix");
    check(w.peek() == text.get(m).copied(), "and leaves the first other character");
    cover(1);
    observe(m as u64);
}
/// Lists of up to 33 items with one arbitrary character anywhere, or cut off anywhere.
#[no_mangle]
pub extern "C" fn h_iter_long() {
    let items = [1, 2, 3, 4, 5, 6, 7, 9, 12, 17, 33][choose(11)];
    let mut text: Vec<char> = (0..items).flat_map(|i| [if i % 2 == 0 { 'a' } else { 'b' }, ',']).collect();
    text.pop();
    text.extend([']', 'a']);
    let at = choose(text.len());
    if any_bool() {
        text[at] = any_char();
    } else {
        text.truncate(at);
    }
    list_of(&text);
}

/// A text that counts how much of it has been asked for.
struct Counted<'a> {
    text: &'a [char],
    read: &'a std::cell::Cell<usize>,
}
impl Iterator for Counted<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.text.get(self.read.get()).copied();
        if c.is_some() {
            self.read.set(self.read.get() + 1);
        }
        c
    }
}
/// Whatever is done with a text, it is read once, in order, and at most one character ahead.
#[no_mangle]
pub extern "C" fn h_stream() {
    const SET: &[char] = &['a', '\u{e9}'];
    const TAIL: &[char] = &[',', ']'];
    let (text, len) = text::<4>();
    let text = &text[..len];
    let read = std::cell::Cell::new(0);
    let mut w = IterWrapper::new(Counted { text, read: &read });
    for _ in 0..2 {
        let before = (0..=len).find(|k| reference(text, *k) == w.pos()).unwrap_or(0);
        let known = read.get();
        let op = choose(7);
        match op {
            0 => {
                w.next();
            }
            1 => {
                w.peek();
            }
            2 => {
                let _ = w.consume_str("a\u{e9}b");
            }
            3 => w.skip_while(|c| SET.contains(&c)),
            4 => {
                let _ = w.take_chars_from(SET, &mut ['\0'; 2]);
            }
            5 => {
                let item = |p: &mut IterWrapper<_>| p.take_chars_from(SET, &mut ['\0']);
                let _ = w.iter_strict(item, ',', ']', TAIL, SET).take_while(|r| r.is_ok()).count();
            }
            _ => {
                let _ = w.take::<Box<Item>>();
            }
        }
        let used = (0..=len).find(|k| reference(text, *k) == w.pos());
        check(used.is_some(), "the position is one of the text");
        let used = used.unwrap_or(0);
        check(read.get() <= used + 1, "at most one character is read ahead");
        let full = op == 0 && used == before + 1 || op == 2 && used == before + 3 || op == 4 && used == before + 2;
        let done = full && text[used - 1] != '\r';
        check(!done || read.get() <= used.max(known), "nothing is read beyond what was asked for");
        cover(1);
        observe(read.get() as u64);
    }
    let used = (0..=len).find(|k| reference(text, *k) == w.pos()).unwrap_or(0);
    check(w.next() == text.get(used).copied(), "reading goes on where it stopped");
}

/// The quoted forms appear in the message, one after the other.
fn quotes(m: &str, from: &str, parts: &[String]) -> bool {
    let mut rest = match m.strip_prefix(from) {
        Some(r) => r,
        None => return false,
    };
    parts.iter().all(|p| match rest.find(&**p) {
        Some(i) => {
            rest = &rest[i + p.len()..];
            true
        }
        None => false,
    })
}
/// What was found and everything that was expected is in the message.
#[no_mangle]
pub extern "C" fn h_message() {
    const SETS: [&[char]; 7] = [&[], &['a'], &['b', 'a'], &['\'', '"', '\\'], &['\n', '\r', '\t', '\0'], &['\u{e9}', '\u{20ac}', '\u{1f600}', '.', ','], &['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l']];
    const TEXTS: [&str; 5] = ["a", "ab\u{e9}", "\n", "\"q\" \\", "\u{1f600}\r"];
    const FOUND: [char; 8] = ['a', 'q', '\n', '\'', '"', '\\', '\u{e9}', '\u{7f}'];
    let p = LineCol { line: [1, 2, 1000][choose(3)], col: [0, 7, 70000][choose(3)] };
    let at = format!("{}:{}", p.line, p.col);
    let (e, want) = match choose(4) {
        0 => {
            let (f, s) = (FOUND[choose(8)], SETS[choose(7)]);
            (ParseError::TakeError(TakeError::BadBranch(p, f, s)), [f].iter().chain(s).map(|c| format!("{c:?}")).collect())
        }
        1 => {
            let (f, s) = (TEXTS[choose(5)], TEXTS[choose(5)]);
            (ParseError::TakeError(TakeError::BadString(p, f.to_owned(), s)), vec![format!("{f:?}"), format!("{s:?}")])
        }
        2 => (ParseError::TakeError(TakeError::EndOfStream(p)), vec!["end".to_owned()]),
        _ => (ParseError::InputContinues(p), vec!["end".to_owned()]),
    };
    let m = e.to_string();
    check(quotes(&m, &at, &want), "the message gives the position, what was found and all that was expected");
    match &e {
        ParseError::TakeError(t) => {
            check(t.to_string() == m, "an error has the same message either way");
            if let TakeError::BadBranch(_, _, []) = t {
                check(m.contains("end"), "the end of the text is expected if nothing else is");
            }
        }
        ParseError::InputContinues(_) => check(m != TakeError::EndOfStream(p).to_string(), "too much and too little text are told apart"),
    }
    cover(1);
    observe(m.len() as u64);
}
/// Long sets and texts are given in full.
#[no_mangle]
pub extern "C" fn h_message_long() {
    const SET: [char; 40] = ['q', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M', 'N', 'O', '0', '1', '2', '3', '4', '5', '6', '\u{e9}'];
    const LONG: &str = "the quick brown fox jumps over the lazy dog, and so on and on for rather more than eighty characters; \u{e9} or \"so\"";
    let p = LineCol { line: 1, col: choose(2) };
    let at = format!("{}:{}", p.line, p.col);
    let (e, want) = if choose(2) == 0 {
        let s = &SET[..choose(41)];
        (TakeError::BadBranch(p, 'z', s), ['z'].iter().chain(s).map(|c| format!("{c:?}")).collect::<Vec<_>>())
    } else {
        let cut = |n: usize| LONG.char_indices().nth(n).map_or(LONG, |(i, _)| &LONG[..i]);
        let lens = [0, 1, 7, 8, 9, 15, 16, 17, 20, 24, 25, 31, 32, 33, 50, 63, 64, 65, 80, 81, 100, 106, 112];
        let (f, s) = (cut(lens[choose(lens.len())]), cut(lens[choose(lens.len())]));
        (TakeError::BadString(p, f.to_owned(), s), vec![format!("{f:?}"), format!("{s:?}")])
    };
    check(quotes(&e.to_string(), &at, &want), "the message gives the position, what was found and all that was expected");
    check(ParseError::TakeError(e.clone()).to_string() == e.to_string(), "an error has the same message either way");
    cover(1);
}
/// A parse that fails says where it failed, at which character, and what it would have taken.
#[no_mangle]
pub extern "C" fn h_message_parse() {
    const SET: &[char] = &['a', 'c', 'z'];
    struct One;
    impl std::fmt::Display for One {
        fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            Ok(())
        }
    }
    impl chewed::Parse for One {
        fn take<P: Parser + ?Sized>(p: &mut P) -> Result<Self, TakeError> {
            p.consume_str("xa")?;
            p.take_chars_from(SET, &mut ['\0']).map(|_| One)
        }
    }
    const C: [char; 6] = ['x', 'a', 'z', '\n', '\'', '\u{e9}'];
    let n = choose(5);
    let text: Vec<char> = (0..n).map(|_| C[choose(6)]).collect();
    let s: String = text.iter().collect();
    let m = match One::parse_str(&s) {
        Ok(_) => {
            check(n == 3 && text[0] == 'x' && text[1] == 'a' && SET.contains(&text[2]), "only the words are accepted");
            return cover(9);
        }
        Err(e) => e.to_string(),
    };
    let good = (0..n).take_while(|i| *i < 3 && (*i == 0 && text[0] == 'x' || *i == 1 && text[1] == 'a' || *i == 2 && SET.contains(&text[2]))).count();
    let p = reference(&text, good);
    let at = format!("{}:{}", p.line, p.col);
    let want = if good == n {
        vec!["end".to_owned()]
    } else if good < 2 {
        vec![format!("{:?}", text[..=good].iter().collect::<String>()), "\"xa\"".to_owned()]
    } else if good == 2 {
        vec![format!("{:?}", text[2]), "'a'".to_owned(), "'c'".to_owned(), "'z'".to_owned()]
    } else {
        vec!["end".to_owned()]
    };
    check(quotes(&m, &at, &want), "the message gives the position, what was found and all that was expected");
    cover(1);
    observe(m.len() as u64);
}
