//! Symbolic-input API.  In the IR build these are interpreted by the engine; in the native build
//! they are implemented by the replay crate, which reads the values from a file.
mod ffi {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, msg: *const u8, len: usize);
        pub fn sym_cover(id: u64);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_observe(v: u64);
        #[cfg(target_arch = "riscv64")]
        pub fn sym_done() -> !;
    }
}
pub fn any_u8() -> u8 {
    unsafe { ffi::sym_u8() }
}
pub fn any_u32() -> u32 {
    unsafe { ffi::sym_u32() }
}
pub fn any_u64() -> u64 {
    unsafe { ffi::sym_u64() }
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c as u32) }
}
#[inline(always)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { ffi::sym_assert(c as u32, msg.as_ptr(), msg.len()) }
}
pub fn cover(id: u64) {
    unsafe { ffi::sym_cover(id) }
}
/// Forks over every feasible value.
pub fn conc(v: u64) -> u64 {
    unsafe { ffi::sym_concretize(v) }
}
pub fn observe(v: u64) {
    unsafe { ffi::sym_observe(v) }
}
/// Ends the path here (for code that leaves the process).
#[cfg(target_arch = "riscv64")]
pub fn done() -> ! {
    unsafe { ffi::sym_done() }
}
/// An arbitrary value below `n`.
pub fn below(n: u8) -> u8 {
    let x = any_u8();
    assume(x < n);
    x
}
/// An arbitrary value below `n`, forked to a concrete number.
pub fn choose(n: usize) -> usize {
    conc(below(n as u8) as u64) as usize
}
pub fn any_bool() -> bool {
    let x = any_u8();
    assume(x < 2);
    x == 1
}
/// An arbitrary Unicode scalar value.
pub fn any_char() -> char {
    let x = any_u32();
    assume(x < 0x110000);
    assume(!(0xD800..0xE000).contains(&x));
    unsafe { char::from_u32_unchecked(x) }
}
/// The two sides of a differential check must agree.  `known` names an entry of the
/// known-findings file that excuses exactly the inputs for which `excused` is true.
#[inline(always)]
pub fn check_known(c: bool, excused: bool, known: &'static str, msg: &'static str) {
    if !c {
        if excused {
            check(false, known);
        } else {
            check(false, msg);
        }
    }
}

pub type Table = &'static [(&'static str, extern "C" fn())];

#[cfg(not(target_arch = "riscv64"))]
mod native {
    //! Native replay: values come from a file, in the order in which they were created.
    use std::cell::RefCell;
    #[derive(Default)]
    struct St {
        vals: Vec<u64>,
        at: usize,
        obs: Vec<u64>,
        covers: Vec<u64>,
    }
    thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));
    fn get() -> u64 {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            let v = s.vals.get(s.at).copied().unwrap_or(0);
            s.at += 1;
            v
        })
    }
    #[no_mangle]
    extern "C" fn sym_u8() -> u8 {
        get() as u8
    }
    #[no_mangle]
    extern "C" fn sym_u32() -> u32 {
        get() as u32
    }
    #[no_mangle]
    extern "C" fn sym_u64() -> u64 {
        get()
    }
    #[no_mangle]
    extern "C" fn sym_assume(c: u32) {
        if c & 1 == 0 {
            println!("ASSUME-FALSE");
            std::process::exit(77);
        }
    }
    #[no_mangle]
    unsafe extern "C" fn sym_assert(c: u32, msg: *const u8, len: usize) {
        if c & 1 == 0 {
            let m = std::str::from_utf8_unchecked(std::slice::from_raw_parts(msg, len));
            println!("ASSERT-FAIL {m}");
            if std::env::var_os("SYM_KEEP_GOING").is_none() {
                std::process::exit(101);
            }
        }
    }
    #[no_mangle]
    extern "C" fn sym_cover(id: u64) {
        ST.with(|s| s.borrow_mut().covers.push(id));
    }
    #[no_mangle]
    extern "C" fn sym_concretize(v: u64) -> u64 {
        v
    }
    #[no_mangle]
    extern "C" fn sym_observe(v: u64) {
        ST.with(|s| s.borrow_mut().obs.push(v));
    }
    /// Each line of the file: `name v v v ...`.  Prints `OBS o o o | c c c` per line.
    pub fn main(tables: &[super::Table]) {
        let file = std::env::args().nth(1).expect("usage: replay FILE");
        let text = std::fs::read_to_string(file).unwrap();
        for line in text.lines() {
            let mut it = line.split_whitespace();
            let Some(name) = it.next() else { continue };
            let vals = it.map(|x| x.parse().unwrap()).collect();
            ST.with(|s| *s.borrow_mut() = St { vals, ..St::default() });
            let f = match tables.iter().flat_map(|t| t.iter()).find(|x| x.0.rsplit("::").next().map(str::trim) == Some(name)) {
                Some(f) => f.1,
                None => {
                    println!("NO-HARNESS {name}");
                    std::process::exit(2);
                }
            };
            f();
            ST.with(|s| {
                let mut s = s.borrow_mut();
                s.covers.sort();
                s.covers.dedup();
                let j = |v: &Vec<u64>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
                println!("OBS {} | {}", j(&s.obs), j(&s.covers));
            });
        }
    }
}
#[cfg(not(target_arch = "riscv64"))]
pub use native::main as native_main;

/// Declares the harness table of a crate.
#[macro_export]
macro_rules! table {
    ($name:ident: $($f:path),* $(,)?) => {
        pub const $name: $crate::Table = &[$((stringify!($f), $f as extern "C" fn())),*];
    };
}
