//! The grammars.  Only macro invocations live here: if this file does not compile, the macro
//! rejected or miscompiled a grammar.
#[macro_export]
macro_rules! corpus {
    ($($name:ident $n:literal { $($t:tt)* })*) => {
        $(
            pub mod $name {
                pub const SRC: &str = stringify!($($t)*);
                chomp_macro::nibble! { $($t)* }
                pub mod harness {
                    #[export_name = concat!("g_", stringify!($name))]
                    pub extern "C" fn decide() {
                        $crate::decide::<super::Ast, $n>(super::SRC)
                    }
                    #[export_name = concat!("d_", stringify!($name))]
                    pub extern "C" fn deep() {
                        $crate::decide::<super::Ast, {$n + 3}>(super::SRC)
                    }
                    #[export_name = concat!("s_", stringify!($name))]
                    pub extern "C" fn stream() {
                        $crate::stream::<super::Ast, $n>(super::SRC)
                    }
                    #[export_name = concat!("t_", stringify!($name))]
                    pub extern "C" fn tree() {
                        $crate::tree::<super::Ast, $n>()
                    }
                }
            }
        )*
        pub const TABLE: sym::Table = &[$(
            (concat!("g_", stringify!($name)), $name::harness::decide as extern "C" fn()),
            (concat!("d_", stringify!($name)), $name::harness::deep as extern "C" fn()),
            (concat!("s_", stringify!($name)), $name::harness::stream as extern "C" fn()),
            (concat!("t_", stringify!($name)), $name::harness::tree as extern "C" fn()),
        )*];
    };
}
corpus! {
    // The trivial ones.
    eps 2 { match _; }
    lit 4 { match "a"; }
    long 6 { match "abc"; }
    wide 6 { match "aé€😀"; }
    wides 4 { match "é" | "ê" . "😀" | "€"; }
    esc 4 { match "\n" | "\t" . "\"" | "\\" | "\u{1F600}" . "\x41" | "{" . "}" | "'" | "\0"; }
    lines 7 { match !(/r/ _ | ("a" | "\n" | "\r") . r); }
    // Nullable parts in every place.
    opt1 5 { let opt x = _ | x; match "b" . opt "a" | "c" . "b"; }
    opt2 5 { let opt x = _ | x; match "a" . (opt ("b" . opt "c")); }
    opt3 6 { let opt x = x | _; match "a" . opt ("b" . opt ("c" . opt "d")); }
    opt4 5 { match "x" . ("c" . "d" | _ | "e") | _; }
    empty 4 { match "a" . "" | "b" . ("" | "c") | ""; }
    // Choices.
    alt3 6 { match "ab" . "c" | "b" . ("c" | "d") | "cab"; }
    alts 6 { match ("a" | "b") . ("a" | "b") . (("c" | "a") | "b"); }
    // Sequences with shared and repeated parts.
    shared 7 { let x = "a" . ("b" | _); match x . "c" . x; }
    // Recursion.
    star 9 { let star x = !(/r/ _ | x . r); match star "a"; }
    plus 9 { let opt x = _ | x; let plus x = !(/r/ x . opt r); match plus ("a" | "b" . "c"); }
    nest 9 { match !(/r/ "(" . r . ")" | "x"); }
    dyck 10 { match !(/r/ _ | "(" . r . ")" . r); }
    pal 9 { match !(/r/ "a" . r . "a" | "b" . r . "b" | "c"); }
    // Fixed points in fixed points: the inner one mentions the outer, or not, or both.
    inner 9 { match !(/e/ "x" | "[" . !(/l/ "]" | e . l)); }
    inner2 9 { match !(/e/ "x" . !(/l/ _ | "," . e) | "(" . e . ")"); }
    inner3 9 { match !(/a/ "a" . !(/b/ "b" . a | "c" . b | "d" . !(/c/ "e" . a | "f" . b | "g" . c | "h"))); }
    twice 10 { match "p" . !(/r/ "a" . "1" . !(/i/ "x" . r | "y" . i | "z") | "e") | "q" . !(/r/ "a" . "2" . !(/i/ "x" . r | "y" . i | "z") | "f"); }
    same 9 { let l = !(/r/ _ | "a" . r); match "x" . l . "y" . l | "z" . l; }
    mutual 9 { let odd even = "a" . even; match !(/even/ _ | odd ("b" . even)); }
    deep 10 { match !(/a/ "1" | "2" . !(/b/ "3" . a | "4" . !(/c/ "5" . a . b . c | "6"))); }
    // The standard library of the grammars in the repository.
    arith 9 {
        let opt some = _ : None | some;
        let list inner sep = !(/list/ inner . opt (sep . list));
        match !(/expr/ list (list ("1" | "(" . expr . ")") "*") "+");
    }
    regex 6 {
        let opt some = _ : None | some;
        let plus iter = !(/plus/ iter . opt plus);
        let star iter = opt (plus iter);
        let alpha = "a" | "b";
        let atom rec = alpha | "(" . rec . ")";
        match !(/rec/ plus (atom rec . opt ("*" | "+")) . opt ("|" . rec));
    }
    church 9 {
        let zero = /zero suc/ zero;
        let suc n = /zero suc/ suc (n zero suc);
        let two = suc (suc zero);
        let three = suc two;
        let bot = "z";
        match two "e" (/rec/ "a" . rec) | "b" . three bot (/rec/ "c" . rec);
    }
    upto 8 {
        let opt some = _ : None | some;
        let zero = /zero suc/ zero;
        let suc n = /zero suc/ suc (n zero suc);
        let up_to x n = n "." (/rec/ x . opt rec);
        match up_to ("a" | "b") (suc (suc (suc zero)));
    }
    // Shadowing, argument order, functions as arguments and results.
    shadow 7 { let x = "a"; let f x = x . "b"; let x = f (x . "c"); match x . !(/x/ _ | "d" . x); }
    order 6 { let f a b c = c . a . b; match f "1" "2" "3" | "x" . f "3" "2" "1"; }
    higher 8 { let twice f x = f (f x); let wrap x = "(" . x . ")"; match twice wrap "x" | "y" . (/a b/ b . a) "1" "2"; }
    capture 8 { let k x = /y/ x . y; match !(/y/ "a" . (k "b") "c" . ("." | y)); }
    capture2 9 { let f x = !(/r/ "s" | x . r); match !(/r/ "e" | "[" . f (r . ",") . "]"); }
    // Many branches, many parts, long literals, many fixed points.
    many 4 { match "a" | "b" . "1" | "c" . ("1" | "2") | "d" | "e" : x | ("f" | "g" . "3" | "h") | "i" . "j" . "k" | "l" | _ | "m" | "n" . "o" | "p" | "é" | "€" . "x" | "😀"; }
    letters 2 { match "a" | "b" | "c" | "d" | "e" | "f" | "g" | "h" | "i" | "j" | "k" | "l" | "m" | "n" | "o" | "p" | "q" | "r" | "s" | "t" | "u" | "v" | "w" | "x" | "y" | "z" | "A" | "Z" | "0" | "9" | "_" | "-"; }
    row 13 { match "a" . "b" . "c" . "d" . "e" . "f" . "g" . "h" . "i" . "j" . "k" . "l"; }
    row2 12 { match ("a" : x) . "b" . ("c" : x) . "d" . ("e" : x) . ("f" : x1) . "g" . ("h" : x) . "i" . "j" . ("k" : y); }
    row3 12 { match "a" . ("b" | "c") . "aa" . ("b" | "c" . "d") . "a" . ("c" | "b") . ("x" . ("b" | "c")) . "a"; }
    opts 8 { let opt x = _ | x; match "a" . opt "b" . opt "c" . opt "d" . opt "e" . opt "f" . opt "g"; }
    phrase 25 { match "the quick brown fox jump" | "a lazy dog's"; }
    phrase2 20 { match "naïve café — 日本語 😀 é" . "

	x" | "ñ"; }
    prefixes 9 { match "ab" . ("abc" | "ba") . ("cabab" | "abab") | "bab" . "ab"; }
    towers 11 { match !(/a/ "1" . !(/b/ "2" . !(/c/ "3" . !(/d/ "4" . !(/e/ "5" | "a" . a | "b" . b | "c" . c | "d" . d | "e" . e)))) | "0"); }
    list 11 { let list x sep = !(/l/ x . (_ | sep . l)); match "[" . list (list ("a" | "b") ",") ";" . "]"; }
    rounds 9 { match !(/a/ "x" . !(/b/ "y" . a | "n" . b | ".") | "z" . !(/b/ "y" . b | "n" . a | ".") | "-"); }
    pads 6 { match "a " . " b" | "  " | "\t\t" . ("\n" | " \n") | "\u{a0}" . (_ | "\u{3000} ") | "\u{feff}"; }
    esc2 6 { match "a\"b" . "\\n" | "\u{7f}" | "\r\n" . "\0\0" | "{}" . "{{a}}" | "'" . "\\\"" | "\u{301}" . ("e\u{301}" | _); }
    menu 5 { let two x y = x . y; match "a" . "1" | "b" . ("1" | "2" . "3") | "c" | two "d" ("x" | "y") | "e" | "f" . (_ | "f") | "g" | "h" . "h" | "i" . ("j" : i) | two "k" "k" | "l" | !(/r/ "m" . (_ | r)) | "n" . "é" | "o" | "€" . "€" . "€" | "p" | "q" . ("r" | "s" | "t" . "u") | "v"; }
    ends 7 { match !(/r/ "a" . (r | "b" . (_ | "b")) | "c" . (_ | "d" . r)); }
    // Labels, including ones that collide with generated names and with each other.
    labels 5 { match (("a" : lit1) . ("b" : part2) | "c" : Lit | "d" . (("e" : cat | "f" : alt1) : ast)) : root | "g" : branch1; }
    labels2 5 { match ("a" : x) . ("b" : x) . ("c" : x) | ("d" : X | "e" : x | "f" : x1); }
    labels3 7 { let part1 = "a"; let Fix1 = !(/rec/ _ | "b" . rec); match part1 . Fix1 : box | "c" . ("d" . part1) : match | "e" : self_; }
    keyword 4 { let r#type = "a"; let fn = "b"; match r#type : r#struct | (fn : enum) . "c"; }
}
macro_rules! both {
    ($($name:ident $h:ident $n:literal),* $(,)?) => {
        $(
            #[no_mangle]
            pub extern "C" fn $h() {
                crate::equal::<$name::Ast, $n>()
            }
        )*
        sym::table!(EQ: $($h),*);
    };
}
both! { opt3 q_opt3 3, inner q_inner 4, twice q_twice 4, regex q_regex 3, deep q_deep 3, alts q_alts 3, labels q_labels 2, esc q_esc 2, wides q_wides 2, arith q_arith 3, dyck q_dyck 4, many q_many 2, row3 q_row3 11, opts q_opts 4, list q_list 5, rounds q_rounds 4, menu q_menu 3, pads q_pads 3 }

macro_rules! chars {
    ($($name:ident $h:ident { $($t:tt)* })*) => {
        $(
            pub mod $name {
                chomp_macro::nibble! { $($t)* }
            }
            #[no_mangle]
            pub extern "C" fn $h() {
                #[allow(unused_imports)]
                use crate::{Converts, DoesNotConvert};
                crate::character::<$name::Ast>(|t| (&crate::Conv(std::cell::RefCell::new(Some(t)))).convert())
            }
        )*
        sym::table!(CHARS: $($h),*);
    };
}
chars! {
    one c_one { match "a"; }
    digits c_digits { match "0" | "1" | "2" | "3" | "4" | "5" | "6" | "7" | "8" | "9"; }
    nested c_nested { match "a" | ("b" | ("é" : Acute | "\n") : Inner) | "\u{10FFFF}" | "\0" | "€"; }
    bound c_bound { let d = "0" | "1"; let both x = x | d; let o = "a" : A | "b"; match both (o | "c") : Any | ("d" | ("e" | ("f" | "g"))); }
}
