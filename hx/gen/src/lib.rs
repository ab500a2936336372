//! Parsers generated by the real macro against an independent reading of their grammars.
use chewed::{IterWrapper, LineCol, Parse, ParseError, Parser, TakeError};
use refnib::Grammar;
use std::fmt::Display;
use sym::*;

pub mod corpus;
pub mod random;

fn text<const N: usize>() -> ([char; N], usize) {
    let t: [char; N] = std::array::from_fn(|_| any_char());
    (t, choose(N + 1))
}
fn at(p: LineCol, w: &[char], far: usize) -> bool {
    (p.line, p.col) == refnib::position(w, far)
}

/// Every text of up to `N` characters: accepted exactly if the grammar derives it, and otherwise
/// an error at the first character that cannot be part of a word.
pub fn decide<T: Parse, const N: usize>(src: &str) {
    let g = Grammar::new(src);
    let (w, len) = text::<N>();
    let w = &w[..len];
    let r = IterWrapper::new(w.iter().copied()).parse::<T>();
    let (member, far) = g.run(w);
    observe(member as u64);
    observe(far as u64);
    match r {
        Ok(_) => {
            cover(1);
            check(member, "only words of the grammar are accepted");
        }
        Err(e) => {
            check(!member, "every word of the grammar is accepted");
            match e {
                ParseError::TakeError(TakeError::EndOfStream(p)) => {
                    cover(2);
                    check(far == len, "an unexpected end is reported at the end");
                    check(at(p, w, far), "the position of an unexpected end");
                }
                ParseError::TakeError(TakeError::BadBranch(p, c, want)) => {
                    cover(3);
                    check(far < len && at(p, w, far), "an error is at the first character that fits no word");
                    check(far < len && c == w[far], "the character reported is the one that does not fit");
                    check(!want.is_empty(), "something is expected");
                    let mut v = w[..far].to_vec();
                    for x in want {
                        v.push(*x);
                        check(g.run(&v).1 == far + 1, "each expected character could have continued a word");
                        v.pop();
                    }
                    check(g.choices(w).iter().all(|c| want.contains(c)), "everything the choice can start with is expected");
                }
                ParseError::TakeError(TakeError::BadString(p, got, want)) => {
                    cover(4);
                    check(far < len && at(p, w, far), "an error is at the first character that fits no word");
                    if far < len {
                        // What matched of the literal, and the character that did not.
                        let mut last = [0; 4];
                        let last = w[far].encode_utf8(&mut last).as_bytes();
                        let m = got.len().wrapping_sub(last.len());
                        let matched = want.get(..m).unwrap_or(want);
                        let n = matched.chars().count();
                        check(m < want.len() && got.as_bytes()[..m] == *matched.as_bytes(), "all but the last character matched");
                        check(got.as_bytes()[m..] == *last, "the text reported ends with the character that does not fit");
                        check(n <= far && matched.chars().eq(w[far - n..far].iter().copied()), "the text reported is what was read");
                    }
                }
                ParseError::InputContinues(p) => {
                    cover(5);
                    check(far < len && at(p, w, far), "left-over text starts at the first character that fits no word");
                    check(g.run(&w[..far]).0, "text is left over only after a word");
                }
            }
        }
    }
}

/// A plain sum of what is hashed.
#[derive(Default)]
struct Sum(u64);
impl std::hash::Hasher for Sum {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*x as u64);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    let mut h = Sum::default();
    t.hash(&mut h);
    std::hash::Hasher::finish(&h)
}

/// Two texts: their trees are equal exactly if the texts are.
pub fn equal<T: Parse + Eq + Clone + std::hash::Hash, const N: usize>() {
    let (a, n) = text::<N>();
    let (b, m) = text::<N>();
    let x = IterWrapper::new(a[..n].iter().copied()).parse::<T>();
    let Ok(x) = x else { return };
    let Ok(y) = IterWrapper::new(b[..m].iter().copied()).parse::<T>() else { return };
    cover(1);
    let same = a[..n] == b[..m];
    check((x == y) == same, "trees are equal exactly if they were parsed from equal texts");
    check(x.clone() == x, "a copy of a tree equals it");
    if same {
        cover(2);
        check(hash(&x) == hash(&y), "equal trees hash alike");
    }
    observe(same as u64);
}

/// Finds out whether there is a conversion to a character.
pub struct Conv<T>(pub std::cell::RefCell<Option<T>>);
pub trait Converts {
    fn convert(&self) -> Option<char>;
}
impl<T: Into<char>> Converts for Conv<T> {
    fn convert(&self) -> Option<char> {
        self.0.borrow_mut().take().map(Into::into)
    }
}
pub trait DoesNotConvert {
    fn convert(&self) -> Option<char>;
}
impl<T> DoesNotConvert for &Conv<T> {
    fn convert(&self) -> Option<char> {
        None
    }
}
/// Grammars of single characters: the tree converts to the character.
pub fn character<T: Parse>(convert: impl Fn(T) -> Option<char>) {
    let c = any_char();
    if let Ok(t) = IterWrapper::new(std::iter::once(c)).parse::<T>() {
        cover(1);
        match convert(t) {
            Some(d) => {
                check(c == d, "a one-character tree converts to its character");
                observe(d as u64);
            }
            None => check(false, "a tree of single characters converts to a character"),
        }
    }
}

/// Every accepted text of up to `N` characters is what its tree prints.
pub fn tree<T: Parse + Display, const N: usize>() {
    let (w, len) = text::<N>();
    let w = &w[..len];
    if let Ok(t) = IterWrapper::new(w.iter().copied()).parse::<T>() {
        cover(1);
        let s = t.to_string();
        observe(s.len() as u64);
        check(s.chars().eq(w.iter().copied()), "a syntax tree prints as the text it was parsed from");
    }
}

/// A text that counts how much of it has been asked for, and ends for good.
struct Counted<'a> {
    text: &'a [char],
    read: &'a std::cell::Cell<usize>,
}
impl Iterator for Counted<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.text.get(self.read.get()).copied();
        self.read.set(self.read.get() + c.is_some() as usize);
        c
    }
}
/// At no time is more than one character asked for beyond the text that could still be accepted.
pub fn stream<T: Parse, const N: usize>(src: &str) {
    let g = Grammar::new(src);
    let (w, len) = text::<N>();
    let w = &w[..len];
    let read = std::cell::Cell::new(0);
    let mut p = IterWrapper::new(Counted { text: w, read: &read });
    let r = p.take::<T>();
    let mut taken = 0;
    while taken < len && refnib::position(w, taken) != (p.pos().line, p.pos().col) {
        taken += 1;
    }
    check(at(p.pos(), w, taken), "the position is one of the text");
    check(read.get() <= taken + 1, "at most one character is read ahead");
    let (far, open) = g.open(w);
    check(taken == far, "everything before the first character that fits no word is consumed, and nothing else");
    observe(taken as u64);
    observe(read.get() as u64);
    match r {
        Ok(_) => {
            cover(1);
            check(g.run(&w[..taken]).0, "what is consumed is a word");
            let over = !open && (taken == 0 || w[taken - 1] != '\r');
            check(!over || read.get() <= taken, "nothing is read after the last character of a word that cannot go on");
            if over {
                cover(3);
            }
            check(p.next() == w.get(taken).copied(), "what follows is left");
        }
        Err(_) => {
            cover(2);
            check(p.peek() == w.get(taken).copied(), "a failure leaves the character that does not fit");
        }
    }
}
