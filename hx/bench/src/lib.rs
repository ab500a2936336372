//! The benchmark parsers: hand-written against generated, and against an independent reading.
use chewed::{IterWrapper, LineCol, ParseError, Parser, TakeError};
use sym::*;
use std::cell::RefCell;

pub mod arith;
pub mod json;
pub mod lalr;
sym::table!(TABLE: arith::h_arith3, arith::h_arith4, arith::h_arith5, arith::h_arith6, arith::h_arith7, arith::h_arith8, arith::h_arith9, arith::h_arith10, arith::h_any5, arith::h_ops, arith::h_long, arith::h_long_ops, arith::h_arith_much, lalr::h_lalr_arith5, lalr::h_lalr_arith6, lalr::h_lalr_long, lalr::h_lalr_shape5, lalr::h_lalr_object, lalr::h_lalr_number, lalr::h_lalr_string, lalr::h_lalr_unicode, lalr::h_lalr_pair, lalr::h_lalr_words, lalr::h_lalr_much, json::h_any2, json::h_lists, json::h_long_string, json::h_long_number, json::h_any3, json::h_any4, json::h_number8, json::h_shape6, json::h_shape8, json::h_object, json::h_number6, json::h_string4, json::h_unicode, json::h_pair, json::h_words, json::h_print_string, json::h_print_number, json::h_print_key, json::h_print_tree3, json::h_print_tree4);

/// Hands out characters as they are asked for, so that a text is cut off where it is rejected.
pub struct Lazy<'a> {
    pub head: std::str::Chars<'a>,
    pub left: usize,
    pub tail: std::str::Chars<'a>,
    /// Any character if empty.
    pub alphabet: &'a [char],
    pub seen: &'a RefCell<Vec<char>>,
}
impl Lazy<'_> {
    /// Whether all of the text has been read.
    pub fn done(&self) -> bool {
        self.left == 0 && self.head.as_str().is_empty() && self.tail.as_str().is_empty()
    }
}
impl Iterator for Lazy<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = if let Some(c) = self.head.next() {
            c
        } else if self.left > 0 {
            self.left -= 1;
            if self.alphabet.is_empty() {
                any_char()
            } else {
                self.alphabet[choose(self.alphabet.len())]
            }
        } else {
            self.tail.next()?
        };
        self.seen.borrow_mut().push(c);
        Some(c)
    }
}

/// The same text once more, going on where the first reader stopped.
pub struct Again<'a, 'b> {
    pub at: usize,
    pub it: &'b mut Lazy<'a>,
}
impl Iterator for Again<'_, '_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let c = self.it.seen.borrow().get(self.at).copied();
        self.at += 1;
        c.or_else(|| self.it.next())
    }
}
