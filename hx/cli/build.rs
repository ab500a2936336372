//! The two programs' `main.rs` as modules of this crate, with `std` replaced by `fake`, which has
//! input, output and the end of the process in the harness's hands; and the macro, with
//! `proc_macro` replaced by `proc_macro2` and `syn::parse` by `syn::parse2`.
use std::{env, fs, path::Path};

fn faked(text: &str, krate: &str, with: &str) -> String {
    let mut out = String::new();
    let mut rest = text;
    let found = format!("{krate}::");
    while let Some(i) = rest.find(&found) {
        let before = &rest[..i];
        let inside = before.chars().next_back().map_or(false, |c| c.is_alphanumeric() || c == '_');
        if inside {
            out.push_str(&rest[..i + found.len()]);
        } else {
            out.push_str(before.strip_suffix("::").unwrap_or(before));
            out.push_str(with);
        }
        rest = &rest[i + found.len()..];
    }
    out.push_str(rest);
    out
}

fn main() {
    let mut all = String::new();
    for (name, path) in [("chomp_main", "/repo/src/main.rs"), ("auto_main", "/repo/autonibble/src/main.rs")] {
        println!("cargo:rerun-if-changed={path}");
        let text = fs::read_to_string(path).unwrap();
        all += &format!("pub mod {name} {{\n{}\npub fn run() -> i32 {{ crate::fake::Outcome::status(main()) }}\n}}\n", faked(&text, "std", "crate::fake::"));
    }
    let path = "/repo/chomp-macro/src/lib.rs";
    println!("cargo:rerun-if-changed={path}");
    let text = fs::read_to_string(path).unwrap().replace("#[proc_macro]", "").replace("extern crate proc_macro;", "");
    let text = faked(&faked(&text, "proc_macro", "crate::fake_macro::"), "syn", "crate::fake_macro::syn::");
    all += &format!("pub mod the_macro {{\n{text}\n}}\n");
    fs::write(Path::new(&env::var_os("OUT_DIR").unwrap()).join("programs.rs"), all).unwrap();
}
