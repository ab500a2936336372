//! Type inference against an independent statement of the typing judgement.
use crate::ast::*;
use chomp::chomp::typed::context::{Context, GetVariableError};
use chomp::chomp::typed::error::{AltError, CatError, TypeError};
use chomp::chomp::typed::{Type, TypeInfer, Typed};
use chomp::chomp::visit::Visitable;
use sym::*;

/// A type of the reference: sets are unordered lists without repetition.
#[derive(Clone, Debug)]
pub struct Ty {
    pub null: bool,
    pub first: Vec<char>,
    pub flast: Vec<char>,
}
fn has(s: &[char], c: char) -> bool {
    s.iter().any(|x| *x == c)
}
fn union(a: &mut Vec<char>, b: &[char]) {
    for c in b {
        if !has(a, *c) {
            a.push(*c);
        }
    }
}
fn meets(a: &[char], b: &[char]) -> bool {
    a.iter().any(|c| has(b, *c))
}
fn same_set(a: &[char], b: &[char]) -> bool {
    a.len() == b.len() && a.iter().all(|c| has(b, *c))
}
impl Ty {
    pub fn bottom() -> Ty {
        Ty { null: false, first: vec![], flast: vec![] }
    }
    fn same(&self, o: &Ty) -> bool {
        self.null == o.null && same_set(&self.first, &o.first) && same_set(&self.flast, &o.flast)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    CatNull,
    CatOverlap,
    AltNull,
    AltOverlap,
    Free,
    Guarded,
    NotLambda,
    Call,
    Lambda,
    Let,
}

/// The judgement Γ; Δ ⊢ t : τ of Krishnaswami and Yallop.  `vars` holds the types, innermost last;
/// variables below `open` are in Γ (usable), the others in Δ (guarded).
pub fn infer(t: &T, vars: &mut Vec<Ty>, open: usize) -> Result<Ty, Bad> {
    match t {
        T::Eps => Ok(Ty { null: true, ..Ty::bottom() }),
        T::Lit(s) => Ok(Ty { null: s.is_empty(), first: s.first().copied().into_iter().collect(), flast: vec![] }),
        T::Var(i) => {
            if *i >= vars.len() {
                return Err(Bad::Free);
            }
            let p = vars.len() - 1 - i;
            if p < open {
                Ok(vars[p].clone())
            } else {
                Err(Bad::Guarded)
            }
        }
        T::Cat(v) => {
            let mut acc = infer(&v[0], vars, open)?;
            if acc.null {
                return Err(Bad::CatNull);
            }
            let all = vars.len();
            for e in &v[1..] {
                let t = infer(e, vars, all)?;
                if meets(&acc.flast, &t.first) {
                    return Err(Bad::CatOverlap);
                }
                // acc is not nullable: its first set stands.
                let mut fl = t.flast;
                if t.null {
                    union(&mut fl, &t.first);
                    union(&mut fl, &acc.flast);
                }
                acc.flast = fl;
            }
            Ok(acc)
        }
        T::Alt(v) => {
            let mut acc = infer(&v[0], vars, open)?;
            for e in &v[1..] {
                let t = infer(e, vars, open)?;
                if acc.null && t.null {
                    return Err(Bad::AltNull);
                }
                if meets(&acc.first, &t.first) {
                    return Err(Bad::AltOverlap);
                }
                acc.null |= t.null;
                union(&mut acc.first, &t.first);
                union(&mut acc.flast, &t.flast);
            }
            Ok(acc)
        }
        T::Fix(1, b) => {
            let mut ty = Ty::bottom();
            loop {
                vars.push(ty.clone());
                let r = infer(b, vars, open);
                vars.pop();
                let r = r?;
                if r.same(&ty) {
                    return Ok(r);
                }
                ty = r;
            }
        }
        T::Fix(..) | T::BadFix(_) => Err(Bad::NotLambda),
        T::Call(..) => Err(Bad::Call),
        T::Lam(..) => Err(Bad::Lambda),
        T::Let(..) => Err(Bad::Let),
    }
}

fn kind(e: &TypeError) -> Bad {
    match e {
        TypeError::Cat(CatError::FirstNullable { .. }) => Bad::CatNull,
        TypeError::Cat(CatError::FirstFlastOverlap { .. }) => Bad::CatOverlap,
        TypeError::Alt(AltError::BothNullable { .. }) => Bad::AltNull,
        TypeError::Alt(AltError::FirstOverlap { .. }) => Bad::AltOverlap,
        TypeError::Variable(v) => match v.inner {
            GetVariableError::FreeVariable => Bad::Free,
            GetVariableError::GuardedVariable => Bad::Guarded,
        },
        TypeError::UnexpectedCall { .. } => Bad::Call,
        TypeError::UnexpectedLambda { .. } => Bad::Lambda,
        TypeError::UnexpectedLet { .. } => Bad::Let,
        TypeError::ExpectedLambda { .. } => Bad::NotLambda,
    }
}

pub fn agrees(ty: &Type, want: &Ty) -> bool {
    let first: Vec<char> = ty.first_set().clone().into_iter().collect();
    let flast: Vec<char> = ty.flast_set().clone().into_iter().collect();
    ty.nullable() == want.null && same_set(&first, &want.first) && same_set(&flast, &want.flast)
}

fn compare(t: &T) {
    let got = build(t).fold(&mut TypeInfer { context: &mut Context::default() });
    let want = infer(t, &mut vec![], 0);
    match (&got, &want) {
        (Ok(g), Ok(w)) => {
            cover(1);
            check(agrees(g.get_type(), w), "the inferred type is the one of the judgement");
            observe(w.first.len() as u64);
            observe(w.flast.len() as u64);
        }
        (Err(_), Ok(_)) => check(false, "a typable grammar is accepted"),
        (Ok(_), Err(_)) => check(false, "an untypable grammar is rejected"),
        (Err(g), Err(w)) => {
            cover(10 + *w as u64);
            check(kind(g) == *w, "the reason of the rejection");
        }
    }
}

/// All terms of up to four nodes, well scoped or not, with literals of up to two characters.
#[no_mangle]
pub extern "C" fn h_infer_small() {
    let c = Cfg { lit: 2, empty: true, ternary: true, free: true, fun: false, chars: 0 };
    let n = 1 + choose(4);
    compare(&term(c, n, 0));
}
/// Well-scoped terms of five or six nodes.
#[no_mangle]
pub extern "C" fn h_infer5() {
    let c = Cfg { lit: 1, empty: false, ternary: true, free: false, fun: false, chars: 0 };
    compare(&term(c, 5, 0));
}
#[no_mangle]
pub extern "C" fn h_infer6() {
    let c = Cfg { lit: 1, empty: false, ternary: true, free: false, fun: false, chars: 0 };
    compare(&term(c, 6, 0));
}
#[no_mangle]
pub extern "C" fn h_infer7() {
    let c = Cfg { lit: 1, empty: false, ternary: false, free: false, fun: false, chars: 4 };
    compare(&term(c, 7, 0));
}
#[no_mangle]
pub extern "C" fn h_infer8() {
    let c = Cfg { lit: 1, empty: false, ternary: false, free: false, fun: false, chars: 4 };
    compare(&term(c, 8, 0));
}
/// Terms with functions in them, which must be reported.
#[no_mangle]
pub extern "C" fn h_infer_fun() {
    let c = Cfg { lit: 1, empty: false, ternary: false, free: false, fun: true, chars: 0 };
    let n = 1 + choose(4);
    compare(&term(c, n, 0));
}
#[no_mangle]
pub extern "C" fn h_infer9() {
    let c = Cfg { lit: 1, empty: false, ternary: false, free: false, fun: false, chars: 4 };
    compare(&term(c, 9, 0));
}
#[no_mangle]
pub extern "C" fn h_infer10() {
    let c = Cfg { lit: 1, empty: false, ternary: false, free: false, fun: false, chars: 4 };
    compare(&term(c, 10, 0));
}

#[no_mangle]
pub extern "C" fn h_infer_chain() {
    let n = 2 + choose(4);
    compare(&chain(n, 4, 3));
}
#[no_mangle]
pub extern "C" fn h_infer_branches() {
    let n = 2 + choose(3);
    compare(&branches(n, 5));
}
const REC: Cfg = Cfg { lit: 1, empty: false, ternary: false, free: false, fun: false, chars: 3 };
#[no_mangle]
pub extern "C" fn h_infer_rec4() {
    compare(&rec(REC, 1 + choose(4)));
}
#[no_mangle]
pub extern "C" fn h_infer_rec5() {
    compare(&rec(REC, 5));
}
#[no_mangle]
pub extern "C" fn h_infer_rec6() {
    compare(&rec(REC, 6));
}
/// Wide terms: the typing of a part depends on all parts before it.
fn infer_wide(parts: usize, special: usize, chars: u8) {
    let c = Cfg { lit: 1, empty: false, ternary: false, free: false, fun: false, chars };
    compare(&wide(c, parts, special, 0));
}
#[no_mangle]
pub extern "C" fn h_infer_wide4() {
    infer_wide(4, 3, 3);
}
#[no_mangle]
pub extern "C" fn h_infer_wide6() {
    infer_wide(5 + choose(2), 2, 3);
}
#[no_mangle]
pub extern "C" fn h_infer_wide9() {
    infer_wide(7 + choose(3), 1, 3);
}

/// Any history of bindings and unguardings, nested and one after the other.
fn gamma(c: &mut Context, m: &mut Vec<char>, open: usize, left: &mut usize, next: &mut u8) {
    let look = |c: &Context, m: &[char]| {
        let i = any_u64() as usize;
        match c.get_variable_type(chomp::chomp::ast::Variable { index: i }) {
            Ok(t) => {
                cover(1);
                check(i < m.len() && m.len() - 1 - i < open, "only a variable bound outside of the guard may be used");
                let t: Vec<char> = t.first_set().clone().into_iter().collect();
                check(t == vec![m[m.len() - 1 - i]], "a variable has the type that it was bound with");
            }
            Err(GetVariableError::FreeVariable) => check(i >= m.len(), "a bound variable is not free"),
            Err(GetVariableError::GuardedVariable) => {
                cover(2);
                check(i < m.len() && m.len() - 1 - i >= open, "a variable bound outside of the guard is not guarded");
            }
        }
    };
    loop {
        check(c.depth() == m.len(), "the depth is the number of bindings in scope");
        if *left == 0 {
            look(c, m);
            return;
        }
        match choose(3) {
            0 => {
                *left -= 1;
                let ch = *next as char;
                *next += 1;
                m.push(ch);
                c.with_variable_type(Type::of_str(&ch.to_string()), |c| gamma(c, m, open, left, next));
                m.pop();
            }
            1 => {
                *left -= 1;
                let n = m.len();
                c.with_unguard(|c| gamma(c, m, n, left, next));
            }
            _ => break,
        }
    }
    if choose(2) == 1 {
        look(c, m);
    }
}
#[no_mangle]
pub extern "C" fn h_gamma4() {
    gamma(&mut Context::default(), &mut vec![], 0, &mut 4, &mut b'a');
}
#[no_mangle]
pub extern "C" fn h_gamma5() {
    gamma(&mut Context::default(), &mut vec![], 0, &mut 5, &mut b'a');
}

/// Many parts and many fixed points inside of each other.
#[no_mangle]
pub extern "C" fn h_infer_many() {
    compare(&many(&[10, 16, 17, 26, 33], 0));
}
#[no_mangle]
pub extern "C" fn h_infer_deep() {
    let n = 5 + choose(5);
    compare(&deep(n, true));
}
