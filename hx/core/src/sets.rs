//! The algebra of first sets, flast sets and types.
use chomp::chomp::set::{FirstSet, FlastSet};
use chomp::chomp::typed::Type;
use sym::*;

fn chars(max: usize) -> Vec<char> {
    let n = choose(max + 1);
    (0..n)
        .map(|_| {
            // One- and two-byte characters.
            let x = any_u32();
            assume(x < 0x100);
            char::from_u32(x).unwrap()
        })
        .collect()
}
fn first(v: &[char]) -> FirstSet {
    let mut s = FirstSet::new();
    for c in v {
        s.union(FirstSet::of_str(c.encode_utf8(&mut [0; 4])));
    }
    s
}
fn flast(v: &[char]) -> FlastSet {
    let mut s = FlastSet::new();
    s.union_first(first(v));
    s
}
fn has(v: &[char], c: char) -> bool {
    v.iter().any(|x| *x == c)
}
/// Arbitrary characters.
fn any(max: usize) -> Vec<char> {
    let n = choose(max + 1);
    (0..n).map(|_| any_char()).collect()
}
/// Exactly the characters of `a` and `b`, in increasing order.
fn is_union(got: &[char], a: &[char], b: &[char]) -> bool {
    got.windows(2).all(|w| w[0] < w[1]) && got.iter().all(|c| has(a, *c) || has(b, *c)) && a.iter().chain(b).all(|c| has(got, *c))
}
fn list(s: &FirstSet) -> Vec<char> {
    s.clone().into_iter().collect()
}
fn flist(s: &FlastSet) -> Vec<char> {
    s.clone().into_iter().collect()
}

#[no_mangle]
pub extern "C" fn h_sets() {
    sets(chars(2), chars(2));
}
#[no_mangle]
pub extern "C" fn h_sets_any() {
    sets(any(2), any(2));
}
/// Sets of many characters, one of them arbitrary, against sets with one in common or none.
#[no_mangle]
pub extern "C" fn h_sets_many() {
    const C: &str = "qa\u{e9}\u{1e9}z\u{100e9}b\u{1f600}m\u{0}c\u{10ffff}\u{ffff}d\u{d7ff}e\u{e000}f";
    let mut a: Vec<char> = C.chars().collect();
    a.truncate(3 + 5 * choose(4));
    let mut b: Vec<char> = "ABCDEFGHIJKLMNO".chars().collect();
    b.truncate(1 + 7 * choose(3));
    let (at, x) = (choose(b.len()), any_char());
    b[at] = x;
    if any_bool() {
        std::mem::swap(&mut a, &mut b);
    }
    sets(a, b);
}
fn sets(a: Vec<char>, b: Vec<char>) {
    let (mut s, t) = (first(&a), first(&b));
    let (mut l, m) = (flast(&a), flast(&b));
    let meets = a.iter().any(|c| has(&b, *c));
    check(s.is_empty() == a.is_empty() && l.is_empty() == a.is_empty(), "only the empty set is empty");
    check(is_union(&list(&s), &a, &[]), "a first set holds its characters, in order");
    check(s.disjoint(&t) == !meets, "first sets are disjoint exactly if they share nothing");
    check(t.disjoint(&s) == !meets, "disjointness is symmetric");
    check(l.disjoint(&t) == !meets, "a flast set is disjoint from a first set exactly if they share nothing");
    let mut k = l.clone();
    s.union(t.clone());
    l.union(m);
    k.union_first(t);
    check(is_union(&list(&s), &a, &b), "the union of first sets");
    check(is_union(&flist(&l), &a, &b), "the union of flast sets");
    check(is_union(&flist(&k), &a, &b), "the union of a flast and a first set");
    check(l == k, "sets are equal if their elements are");
    cover(if meets { 1 } else { 2 });
    observe(list(&s).len() as u64);
}

#[no_mangle]
pub extern "C" fn h_of_str() {
    let n = choose(3);
    let v: Vec<char> = (0..n).map(|_| any_char()).collect();
    let s: String = v.iter().collect();
    let f = list(&FirstSet::of_str(&s));
    check(f.len() == n.min(1) && f.first() == v.first(), "the first set of a string is its first character");
    let t = Type::of_str(&s);
    check(t.nullable() == (n == 0), "only the empty string is nullable");
    check(list(t.first_set()) == f, "the first set of the type of a string");
    check(t.flast_set().is_empty(), "a string has no flast set");
    cover(1 + n as u64);
    observe(f.len() as u64);
}

#[no_mangle]
pub extern "C" fn h_types() {
    types(chars(1), chars(1), chars(1), chars(1));
}
/// Types over sets of some of the given characters.
#[no_mangle]
pub extern "C" fn h_types_many() {
    let some = || -> Vec<char> {
        let v = ['x', '\u{178}', '\u{10078}', 'a'];
        let k = choose(16);
        (0..4).filter(|i| k >> i & 1 == 1).map(|i| v[i]).collect()
    };
    types(some(), some(), some(), vec!['b', '\u{178}']);
}
fn types(fa: Vec<char>, la: Vec<char>, fb: Vec<char>, lb: Vec<char>) {
    let (n, m) = (any_bool(), any_bool());
    let t = Type::new(n, first(&fa), flast(&la));
    let u = Type::new(m, first(&fb), flast(&lb));
    let none: &[char] = &[];
    if choose(2) == 0 {
        let mut c = t.clone();
        c.cat(u);
        check(c.nullable() == (n && m), "a sequence is nullable if both parts are");
        check(is_union(&list(c.first_set()), &fa, if n { &fb } else { none }), "first set of a sequence");
        let mut rest = lb.clone();
        if m {
            rest.extend(&fb);
        }
        check(is_union(&flist(c.flast_set()), &rest, if m { &la } else { none }), "flast set of a sequence");
        cover(1);
        observe(flist(c.flast_set()).len() as u64);
    } else {
        let mut c = t.clone();
        c.alt(u.clone());
        check(c.nullable() == (n || m), "a choice is nullable if a branch is");
        check(is_union(&list(c.first_set()), &fa, &fb), "first set of a choice");
        check(is_union(&flist(c.flast_set()), &la, &lb), "flast set of a choice");
        let mut d = u;
        d.alt(t);
        check(c == d, "choice commutes");
        cover(2);
    }
}
/// Sets of up to eight characters each that lie among each other, one of them arbitrary.
#[no_mangle]
pub extern "C" fn h_sets_among() {
    let mut a: Vec<char> = "maczqeku".chars().collect();
    a.truncate(choose(9));
    let mut b: Vec<char> = "blydrfjv".chars().collect();
    b.truncate(1 + choose(8));
    let at = choose(2) * (b.len() - 1);
    b[at] = any_char();
    if any_bool() {
        std::mem::swap(&mut a, &mut b);
    }
    sets(a, b);
}
