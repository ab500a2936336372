//! The command-line programs: what they print and how they end, against the library.
use chewed::{IterWrapper, Parser};
use chomp::chomp::ast::substitute::Reduce;
use chomp::chomp::ast::NamedExpression;
use chomp::chomp::typed::context::Context;
use chomp::chomp::typed::lower::{Backend, GenerateCode};
use chomp::chomp::typed::TypeInfer;
use chomp::chomp::visit::Visitable;
use chomp::lower::RustBackend;
use chomp::nibble::convert::{self, Convert};
use chomp::nibble::Statement;
use proc_macro2::Span;
use std::sync::Mutex;
use sym::*;

#[allow(unused_imports, unused_macros)]
#[macro_use]
mod macros {
    macro_rules! eprintln {
        ($($t:tt)*) => {{
            use $crate::fake::io::Write as _;
            let _ = ::std::writeln!($crate::fake::io::stderr(), $($t)*);
        }};
    }
    macro_rules! eprint {
        ($($t:tt)*) => {{
            use $crate::fake::io::Write as _;
            let _ = ::std::write!($crate::fake::io::stderr(), $($t)*);
        }};
    }
    macro_rules! println {
        ($($t:tt)*) => {{
            use $crate::fake::io::Write as _;
            ::std::writeln!($crate::fake::io::stdout(), $($t)*).unwrap();
        }};
    }
    macro_rules! print {
        ($($t:tt)*) => {{
            use $crate::fake::io::Write as _;
            ::std::write!($crate::fake::io::stdout(), $($t)*).unwrap();
        }};
    }
}
pub mod fake;
#[allow(warnings)]
mod programs {
    include!(concat!(env!("OUT_DIR"), "/programs.rs"));
}
mod macros_test;
use fake::{world, World};
/// What the macro has around it, as it is outside of the compiler.
pub mod fake_macro {
    pub use proc_macro2::*;
    pub mod syn {
        pub use ::syn::*;
        pub fn parse<T: ::syn::parse::Parse>(t: proc_macro2::TokenStream) -> Result<T> {
            parse2(t)
        }
    }
}

sym::table!(TABLE: h_cli_tree3, h_cli_tree4, h_cli_tree5, h_cli_text, h_cli_bytes, h_cli_read, h_cli_write, h_cli_large, macros_test::h_macro_tree3, macros_test::h_macro_tree4, macros_test::h_macro_tree5, macros_test::h_macro_tokens, macros_test::h_macro_tokens_any, macros_test::h_macro_much);

/// What the program should do.
enum Want {
    Code(String),
    Message(String),
    /// Any message.
    Fail,
}
static WANT: Mutex<Option<Want>> = Mutex::new(None);

fn compile(e: NamedExpression) -> Want {
    let e = match e.fold(&mut Reduce) {
        Ok(e) => e,
        Err(e) => return Want::Message(e.to_string()),
    };
    let t = match e.fold(&mut TypeInfer { context: &mut Context::default() }) {
        Ok(t) => t,
        Err(e) => return Want::Message(e.to_string()),
    };
    let mut b = RustBackend::default();
    let id = t.gen(&mut b);
    Want::Code(b.emit_code(None, Span::call_site(), id).to_string())
}
fn want(auto: bool, text: &str) -> Want {
    let mut c = convert::Context::default();
    let e = if auto {
        match IterWrapper::new(text.chars()).parse::<autonibble::Ast>() {
            Ok(a) => a.convert(&mut c),
            Err(e) => return Want::Message(e.to_string()),
        }
    } else {
        match syn::parse_str::<Statement>(text) {
            Ok(s) => s.convert(&mut c),
            Err(e) => return Want::Message(e.to_string()),
        }
    };
    match e {
        Ok(e) => compile(e),
        Err(e) => Want::Message(e.to_string()),
    }
}

/// Whether the two are the same but for white space.
fn same(a: &[u8], b: &[u8]) -> bool {
    fn solid<'a>(s: &'a [u8]) -> impl Iterator<Item = &'a u8> {
        s.iter().filter(|c| !c.is_ascii_whitespace())
    }
    solid(a).eq(solid(b))
}
fn contains(text: &[u8], part: &[u8]) -> bool {
    part.len() <= text.len() && (0..=text.len() - part.len()).any(|i| text[i..i + part.len()] == *part)
}

/// The process has ended.
pub(crate) fn judge() {
    let w = world(|w| std::mem::replace(w, World::new()));
    let Some(want) = WANT.lock().unwrap().take() else { return };
    let code = w.code.unwrap_or(-1);
    observe(code as u64);
    observe(w.out.len() as u64);
    observe(w.err.len() as u64);
    match want {
        Want::Code(c) => {
            cover(1);
            if w.room >= c.len() + 2 {
                check(code == 0, "an accepted grammar is compiled with success");
                check(same(&w.out, c.as_bytes()), "the output is the code generated for the grammar");
                check(w.err.is_empty(), "there is no message if there is no error");
            } else {
                check(code == 0 || code == 1, "the status is 0 or 1");
                if code == 0 {
                    check(same(&w.out, c.as_bytes()), "there is no success if the output could not be written");
                } else {
                    cover(3);
                    check(!w.err.is_empty(), "an error has a message");
                }
            }
        }
        Want::Message(m) => {
            cover(2);
            check(code == 1, "an error ends the program with status 1");
            check(w.out.is_empty(), "no code is written for a grammar that is rejected");
            check(contains(&w.err, m.as_bytes()), "the message is that of the error");
        }
        Want::Fail => {
            cover(4);
            check(code == 1, "an error ends the program with status 1");
            check(w.out.is_empty(), "no code is written if the input cannot be read");
            check(!w.err.is_empty(), "an error has a message");
        }
    }
}

/// Runs one of the programs in a world.
fn go(auto: bool, w: World, expected: Want) {
    world(|x| *x = w);
    *WANT.lock().unwrap() = Some(expected);
    let main = if auto { programs::auto_main::run } else { programs::chomp_main::run };
    #[cfg(target_arch = "riscv64")]
    {
        let code = main();
        fake::ended(code);
        judge();
    }
    #[cfg(not(target_arch = "riscv64"))]
    {
        std::thread::spawn(move || {
            let code = main();
            fake::ended(code);
        });
        while world(|w| w.code.is_none()) {
            std::thread::sleep(std::time::Duration::from_micros(50));
        }
        judge();
    }
}
fn run(auto: bool, text: &str) {
    go(auto, World { input: text.as_bytes().to_vec(), ..World::new() }, want(auto, text));
}

/// An expression of `n` nodes with `k` names bound (the names of others are undeclared).
fn tree(n: usize, s: &mut String, level: u8) {
    let leaf = n == 1;
    match if leaf { choose(5) } else { 5 + choose(if n > 2 { 5 } else { 2 }) } {
        0 => s.push_str("\"a\""),
        1 => s.push_str("\"bc\""),
        2 => s.push('_'),
        3 => s.push('x'),
        4 => s.push('f'),
        5 => {
            s.push_str("!(/x/ ");
            tree(n - 1, s, 0);
            s.push(')');
        }
        6 => {
            s.push_str("(/x/ ");
            tree(n - 1, s, 0);
            s.push(')');
        }
        k => {
            let (op, l) = match k {
                7 => (" | ", 1),
                8 => (" . ", 2),
                _ => (" ", 3),
            };
            if l <= level {
                s.push('(');
            }
            let m = 1 + choose(n - 2);
            tree(m, s, l);
            s.push_str(op);
            tree(n - 1 - m, s, l);
            if l <= level {
                s.push(')');
            }
        }
    }
}
fn grammar(n: usize) -> String {
    let mut s = String::new();
    if n > 1 && choose(2) == 1 {
        s.push_str("let f = ");
        let m = 1 + choose(n - 1);
        tree(m, &mut s, 0);
        s.push_str("; match ");
        if n > m {
            tree(n - m, &mut s, 0);
        } else {
            s.push('f');
        }
    } else {
        s.push_str("match ");
        tree(n, &mut s, 0);
    }
    s.push_str(";");
    s
}
fn program(n: usize) {
    let auto = choose(2) == 1;
    let s = grammar(n);
    run(auto, &s);
}
#[no_mangle]
pub extern "C" fn h_cli_tree3() {
    program(1 + choose(3));
}
#[no_mangle]
pub extern "C" fn h_cli_tree4() {
    program(4);
}

#[no_mangle]
pub extern "C" fn h_cli_tree5() {
    program(5);
}

/// A few characters in place of the goal, or of everything.
#[no_mangle]
pub extern "C" fn h_cli_text() {
    const CHARS: &[u8] = b"\"a_ .|;(!/x\\\n";
    let auto = choose(2) == 1;
    let whole = choose(2) == 1;
    let mut s = String::from(if whole { "" } else { "match " });
    for _ in 0..choose(4) {
        s.push(CHARS[choose(CHARS.len())] as char);
    }
    if !whole {
        s.push(';');
    }
    run(auto, &s);
}

/// Bytes instead of input, at its end or inside of a literal.
#[no_mangle]
pub extern "C" fn h_cli_bytes() {
    let auto = choose(2) == 1;
    let mut v = Vec::new();
    let inside = choose(2) == 1;
    v.extend_from_slice(if inside { b"match \"" } else { b"match \"a\";" });
    // Letters, and the bytes of characters of each length, whole or not.
    const BYTES: &[u8] = b"a\" \n\x80\xA9\xC3\xE2\x82\xAC\xED\xA0\xF0\x9F\xFF\0";
    for _ in 0..choose(4) {
        v.push(BYTES[choose(BYTES.len())]);
    }
    if inside {
        v.extend_from_slice(b"\";");
    }
    let want = match std::str::from_utf8(&v) {
        Ok(s) => want(auto, s),
        Err(_) => Want::Fail,
    };
    go(auto, World { input: v, ..World::new() }, want);
}

/// Input that comes in pieces, is interrupted, or breaks off with an error.
#[no_mangle]
pub extern "C" fn h_cli_read() {
    let auto = choose(2) == 1;
    let text = "match \"é€😀\" . \"a\";";
    let whole = text.as_bytes();
    let broken = choose(2) == 1;
    let len = if broken { choose(whole.len() + 1) } else { whole.len() };
    let chunk = 1 + choose(7);
    let interrupted = choose(2) == 1;
    // The self-hosted parser takes ASCII only.
    let want = if broken { Want::Fail } else { want(auto, text) };
    go(auto, World { input: whole[..len].to_vec(), chunk, broken, interrupted, ..World::new() }, want);
}

/// Output with room for a part of the code only, or that takes it in pieces.
#[no_mangle]
pub extern "C" fn h_cli_write() {
    let auto = choose(2) == 1;
    let text = ["match _;", "match \"a\";", "match \"a\" . \"b\";"][choose(3)];
    let want = want(auto, text);
    let Want::Code(c) = &want else { return };
    let room = match choose(9) {
        0 => 0,
        1 => 1,
        2 => c.len() / 2,
        3 => c.len() - 1,
        4 => c.len(),
        5 => 1023.min(c.len()),
        6 => 1024.min(c.len()),
        7 => 1025.min(c.len()),
        _ => usize::MAX,
    };
    let piece = [1 << 20, 7, 1000][choose(3)];
    go(auto, World { input: text.as_bytes().to_vec(), room, piece, ..World::new() }, want);
}
/// Grammars of some size, longer than the buffers.
#[no_mangle]
pub extern "C" fn h_cli_large() {
    let auto = choose(2) == 1;
    let n = [5, 20, 24][choose(3)];
    let twice = choose(2) == 1;
    let mut s = String::from("let opt x = _ | x; match !(/r/ ");
    for k in 0..n {
        if k > 0 {
            s.push_str(" | ");
        }
        s.push_str(&format!("\"{}\" . opt (\".\" . r)", if twice && k + 1 == n { 'A' } else { (b'A' + k as u8) as char }));
    }
    s.push_str(");\n");
    run(auto, &s);
}
