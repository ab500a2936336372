//! Names: equality, hashing, merging and case conversion.
use chomp::chomp::name::{Content, Name};
use heck::{CamelCase, SnakeCase};
use proc_macro2::{Ident, Span};
use std::hash::{Hash, Hasher};
use sym::*;

/// Records what is hashed instead of mixing it.
#[derive(Default, PartialEq)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
fn rec(h: &impl Hash) -> Rec {
    let mut r = Rec::default();
    h.hash(&mut r);
    r
}

fn word(max: usize) -> String {
    let n = 1 + choose(max);
    (0..n).map(|_| (b'a' + below(2)) as char).collect()
}
fn content() -> (Content, String, usize) {
    let w = word(2);
    let k = choose(3);
    let c = match k {
        0 => Content::Spanless(w.clone()),
        1 => Ident::new(&w, Span::call_site()).into(),
        _ => Ident::new_raw(&w, Span::call_site()).into(),
    };
    (c, w, k)
}
fn mk(c: impl Into<Content>, kind: usize) -> Name {
    match kind {
        0 => Name::new_variable(c),
        1 => Name::new_let(c),
        _ => Name::new_label(c),
    }
}

#[no_mangle]
pub extern "C" fn h_name_eq() {
    let (a, wa, ka) = content();
    let (b, wb, kb) = content();
    let e = a == b;
    check(e == (wa == wb), "two names are equal exactly if they spell the same identifier");
    check((b == a) == e, "equality is symmetric");
    check(a == a.clone(), "equality is reflexive");
    check(a == wa && b == wb, "a name equals its spelling");
    check((a == wb) == (wa == wb), "comparison with a string agrees");
    if e {
        check(rec(&a) == rec(&b), "equal names hash alike");
        cover(1 + (ka != kb) as u64);
    } else {
        cover(4);
    }
    let (i, j) = (choose(3), choose(3));
    let (x, y) = (mk(a, i), mk(b, j));
    check((x == y) == (e && i == j), "names differ in kind or content");
    if x == y {
        check(rec(&x) == rec(&y), "equal names hash alike");
    }
    observe(e as u64);
}

#[no_mangle]
pub extern "C" fn h_name_merge() {
    let names: Vec<(Option<Name>, usize)> = (0..3)
        .map(|i| {
            let k = choose(4);
            let n = if k == 3 { None } else { Some(mk(["p", "q", "r"][i].to_owned(), k)) };
            (n, if k == 3 { 0 } else { k + 1 })
        })
        .collect();
    // Labels win over lets, lets over variables, the earlier one among equals.
    let mut best = 0;
    for i in 1..3 {
        if names[i].1 > names[best].1 {
            best = i;
        }
    }
    let n: Vec<Option<Name>> = names.iter().map(|x| x.0.clone()).collect();
    let all = Name::merge_all(n.clone());
    check(all == n[best], "merging keeps the most significant name");
    let l = Name::merge(Name::merge(n[0].clone(), n[1].clone()), n[2].clone());
    let r = Name::merge(n[0].clone(), Name::merge(n[1].clone(), n[2].clone()));
    check(l == r && l == all, "merging is associative");
    check(Name::merge(n[0].clone(), None) == n[0] && Name::merge(None, n[0].clone()) == n[0], "no name is neutral");
    cover(1 + best as u64);
}

/// Every identifier of up to four characters out of `_aB1`.
#[no_mangle]
pub extern "C" fn h_name_case() {
    let n = 1 + choose(4);
    let s: String = (0..n)
        .map(|i| {
            let k = choose(if i == 0 { 3 } else { 4 });
            ['_', 'a', 'B', '1'][k]
        })
        .collect();
    assume(s != "_");
    let raw = choose(2) == 1;
    let name = mk(if raw { Ident::new_raw(&s, Span::call_site()) } else { Ident::new(&s, Span::call_site()) }, choose(3));
    // These must not panic, and what they give must be identifiers.
    let camel: Ident = name.to_camel_case().into();
    let snake: Ident = name.to_snake_case().into();
    for i in [camel.to_string(), snake.to_string()] {
        let mut c = i.chars();
        let f = c.next();
        check(f.map_or(false, |f| f == '_' || f.is_ascii_alphabetic()), "a generated name starts as an identifier");
        check(c.all(|c| c == '_' || c.is_ascii_alphanumeric()), "a generated name is an identifier");
        observe(i.len() as u64);
    }
    let spanless = Name::new_let(s);
    let c: Ident = spanless.to_camel_case().into();
    check(c == camel, "the spelling decides the generated name");
    cover(1);
}

/// Long names: equal, or different in one place or in length; each with its own way of being written.
#[no_mangle]
pub extern "C" fn h_name_long() {
    let n = [6, 8, 15, 16, 17, 31, 32, 33, 64, 65, 100][choose(11)];
    let v: Vec<u8> = (0..n).map(|k| b'a' + (k % 26) as u8).collect();
    let mut w = v.clone();
    let i = [0, 7 % n, n / 2, n - 1][choose(4)];
    match choose(5) {
        0 => (),
        1 => w[i] = if w[i] == b'q' { b'r' } else { b'q' },
        2 => w[i] = b'_',
        3 => w.push(b'x'),
        _ => {
            w.pop();
        }
    }
    let content = |v: &[u8]| -> Content {
        let s = String::from_utf8(v.to_vec()).unwrap();
        match choose(3) {
            0 => Content::Spanless(s),
            1 => Ident::new(&s, Span::call_site()).into(),
            _ => Ident::new_raw(&s, Span::call_site()).into(),
        }
    };
    let (a, b) = (content(&v), content(&w));
    check((a == b) == (v == w), "two names are equal exactly if they spell the same identifier");
    check((b == a) == (a == b), "equality is symmetric");
    check(v != w || rec(&a) == rec(&b), "equal names hash alike");
    let s = String::from_utf8(w.clone()).unwrap();
    check(b == s && (a == s) == (v == w), "comparison with a string agrees");
    cover(conc(1 + (v == w) as u64));
    let name = mk(b, choose(3));
    let printed = name.to_string();
    check(printed.strip_prefix("r#").unwrap_or(&printed) == s, "a name is printed as it is written");
    // A name of one word is the same in both cases, but for its first letter.
    let (camel, snake): (Ident, Ident) = (name.to_camel_case().into(), name.to_snake_case().into());
    if !w.contains(&b'_') {
        check(snake == s, "a name in lower case stays as it is");
        let mut c = w.clone();
        c[0] = c[0].to_ascii_uppercase();
        check(camel == String::from_utf8(c).unwrap(), "a name of one word gets an upper case letter");
        cover(3);
    } else if !w.starts_with(b"_") && !w.ends_with(b"_") {
        check(snake == s, "words in lower case stay as they are");
        let k = w.iter().position(|c| *c == b'_').unwrap();
        let mut c = w.clone();
        c[0] = c[0].to_ascii_uppercase();
        c[k + 1] = c[k + 1].to_ascii_uppercase();
        c.remove(k);
        check(camel == String::from_utf8(c).unwrap(), "every word gets an upper case letter");
        cover(4);
    }
}

/// Names with an arbitrary character of any script: what they are converted to is an identifier.
fn script(c: char, shape: usize, raw: bool) {
    assume(unicode_ident::is_xid_continue(c));
    let s: String = match shape {
        0 => [c].iter().collect(),
        1 => ['a', c].iter().collect(),
        2 => ['_', c].iter().collect(),
        3 => ['_', c, 'b'].iter().collect(),
        4 => [c, 'B', '_'].iter().collect(),
        5 => ['a', '_', c].iter().collect(),
        _ => ['_', '_', c, 'B'].iter().collect(),
    };
    let first = s.chars().next().unwrap();
    assume(first == '_' || unicode_ident::is_xid_start(first));
    assume(s != "_");
    let name = mk(if raw { Ident::new_raw(&s, Span::call_site()) } else { Ident::new(&s, Span::call_site()) }, 2);
    let camel: Ident = name.to_camel_case().into();
    let snake: Ident = name.to_snake_case().into();
    for i in [camel.to_string(), snake.to_string()] {
        let mut c = i.chars();
        let f = c.next();
        check(f.map_or(false, |f| f == '_' || unicode_ident::is_xid_start(f)), "a generated name starts as an identifier");
        check(c.all(unicode_ident::is_xid_continue), "a generated name is an identifier");
        observe(i.len() as u64);
    }
    let spanless = mk(s, 1);
    let (c, d): (Ident, Ident) = (spanless.to_camel_case().into(), spanless.to_snake_case().into());
    check(c == camel && d == snake, "the spelling decides the generated name");
    cover(1);
}
const SCRIPTS: [char; 48] = [
    'é', 'É', 'ß', 'ŉ', 'ǆ', 'ǅ', 'Ǆ', 'İ', 'ı', 'ﬁ', 'ς', 'σ', 'Σ', 'ΐ', 'ᾳ', 'ᾼ', '漢', 'か', 'カ', '한', '\u{93e}', '\u{93f}', '\u{345}', '\u{301}',
    '٣', '०', '·', '℘', '℮', 'ª', 'º', 'ʰ', '\u{e33}', 'ก', '‿', '︳', '𝐀', '𐐀', '𐐨', 'ა', 'Ა', 'Ⅰ', 'ⅷ', '\u{1885}', '\u{387}', '\u{9be}', '\u{1d165}', 'א',
];
#[no_mangle]
pub extern "C" fn h_name_script() {
    let c = SCRIPTS[choose(SCRIPTS.len())];
    let shape = choose(7);
    script(c, shape, choose(2) == 1);
}
/// Every character of the first two planes, which hold the scripts, after an underscore.
#[no_mangle]
pub extern "C" fn h_name_block() {
    let n = (0..4).fold(choose(2), |n, _| n * 16 + choose(16));
    let c = char::from_u32(n as u32);
    assume(c.is_some());
    script(c.unwrap(), 2 + choose(2), false);
}
