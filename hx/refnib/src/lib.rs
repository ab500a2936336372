//! An independent reading of the nibble notation: tokens, syntax, scoping, expansion and language.
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Str(Vec<char>),
    P(char),
}

/// Reads the tokens of a well-formed source (as given by `stringify!` or written in a harness).
pub fn tokens(src: &str) -> Vec<Tok> {
    let s: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        let c = s[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '"' {
            i += 1;
            let mut v = vec![];
            while s[i] != '"' {
                if s[i] != '\\' {
                    v.push(s[i]);
                    i += 1;
                    continue;
                }
                let e = s[i + 1];
                i += 2;
                match e {
                    'n' => v.push('\n'),
                    'r' => v.push('\r'),
                    't' => v.push('\t'),
                    '0' => v.push('\0'),
                    'x' => {
                        v.push(char::from_u32(hex(&s[i..i + 2])).unwrap());
                        i += 2;
                    }
                    'u' => {
                        let end = (i..).find(|k| s[*k] == '}').unwrap();
                        v.push(char::from_u32(hex(&s[i + 1..end])).unwrap());
                        i = end + 1;
                    }
                    c => v.push(c),
                }
            }
            i += 1;
            out.push(Tok::Str(v));
        } else if c == '_' || c.is_alphabetic() {
            let mut w = String::new();
            while i < s.len() && (s[i] == '_' || s[i].is_alphanumeric() || (s[i] == '#' && w == "r")) {
                w.push(s[i]);
                i += 1;
            }
            if w == "_" {
                out.push(Tok::P('_'));
            } else {
                out.push(Tok::Id(w.strip_prefix("r#").unwrap_or(&w).to_owned()));
            }
        } else {
            out.push(Tok::P(c));
            i += 1;
        }
    }
    out
}
fn hex(s: &[char]) -> u32 {
    s.iter().filter(|c| **c != '_').fold(0, |a, c| a * 16 + c.to_digit(16).unwrap())
}

#[derive(Clone, Debug)]
pub enum E {
    Eps,
    Lit(Vec<char>),
    Var(String),
    Fix(Box<E>),
    Call(Box<E>, Vec<E>),
    Cat(Vec<E>),
    Alt(Vec<(E, Option<String>)>),
    Lam(Vec<String>, Box<E>),
    Let(String, Box<E>, Box<E>),
}

struct Reader {
    t: Vec<Tok>,
    i: usize,
}
impl Reader {
    fn is(&self, c: char) -> bool {
        self.t.get(self.i) == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) {
        assert!(self.is(c), "reference grammar: expected a symbol");
        self.i += 1;
    }
    fn id(&mut self) -> Option<String> {
        match self.t.get(self.i) {
            Some(Tok::Id(w)) => {
                self.i += 1;
                Some(w.clone())
            }
            _ => None,
        }
    }
    fn stmt(&mut self) -> E {
        let k = self.id().unwrap();
        if k == "match" {
            let e = self.expr();
            self.eat(';');
            return e;
        }
        let name = self.id().unwrap();
        let mut args = vec![];
        while let Some(a) = self.id() {
            args.push(a);
        }
        self.eat('=');
        let e = self.expr();
        self.eat(';');
        let rest = self.stmt();
        let bound = if args.is_empty() { e } else { E::Lam(args, Box::new(e)) };
        E::Let(name, Box::new(bound), Box::new(rest))
    }
    fn expr(&mut self) -> E {
        if self.is('/') {
            self.eat('/');
            let mut args = vec![];
            while let Some(a) = self.id() {
                args.push(a);
            }
            self.eat('/');
            let e = self.alt();
            return E::Lam(args, Box::new(e));
        }
        self.alt()
    }
    fn alt(&mut self) -> E {
        let mut v = vec![self.labelled()];
        while self.is('|') {
            self.eat('|');
            v.push(self.labelled());
        }
        if v.len() == 1 {
            v.pop().unwrap().0
        } else {
            E::Alt(v)
        }
    }
    fn labelled(&mut self) -> (E, Option<String>) {
        let mut v = vec![self.call()];
        while self.is('.') {
            self.eat('.');
            v.push(self.call());
        }
        let e = if v.len() == 1 { v.pop().unwrap() } else { E::Cat(v) };
        if self.is(':') {
            self.eat(':');
            return (e, self.id());
        }
        (e, None)
    }
    fn call(&mut self) -> E {
        let f = self.term().unwrap();
        let mut args = vec![];
        while let Some(a) = self.term() {
            args.push(a);
        }
        if args.is_empty() {
            f
        } else {
            E::Call(Box::new(f), args)
        }
    }
    fn term(&mut self) -> Option<E> {
        let t = self.t.get(self.i)?.clone();
        match t {
            Tok::P('_') => {
                self.i += 1;
                Some(E::Eps)
            }
            Tok::P('!') => {
                self.i += 1;
                Some(E::Fix(Box::new(self.term().unwrap())))
            }
            Tok::P('(') => {
                self.i += 1;
                let e = self.expr();
                self.eat(')');
                Some(e)
            }
            Tok::Str(v) => {
                self.i += 1;
                Some(E::Lit(v))
            }
            Tok::Id(w) => {
                self.i += 1;
                Some(E::Var(w))
            }
            Tok::P(_) => None,
        }
    }
}
pub fn read(src: &str) -> E {
    let mut r = Reader { t: tokens(src), i: 0 };
    let e = r.stmt();
    assert!(r.i == r.t.len(), "reference grammar: text left over");
    e
}

/// A node of the language graph.
#[derive(Clone, Debug)]
pub enum N {
    Lit(Vec<char>),
    Class(Vec<char>),
    Cat(Vec<usize>),
    Alt(Vec<usize>),
    Ref(usize),
}
#[derive(Clone)]
enum Val<'a> {
    Thunk(&'a E, Env<'a>),
    Node(usize),
}
type Env<'a> = Option<Rc<Bind<'a>>>;
struct Bind<'a>(String, Val<'a>, Env<'a>);
fn bind<'a>(name: &str, v: Val<'a>, env: &Env<'a>) -> Env<'a> {
    Some(Rc::new(Bind(name.to_owned(), v, env.clone())))
}
enum W<'a> {
    Lam(&'a [String], &'a E, Env<'a>),
    Lang(usize),
}

#[derive(Default)]
pub struct Grammar {
    nodes: Vec<N>,
    root: usize,
    /// Whether each node matches the empty text, and what else it can start with.
    starts: Vec<(bool, Vec<char>)>,
}
/// How much of a text some derivation matches, and how much of it (or beyond) some derivation asks for.
#[derive(Default)]
struct Far {
    matched: usize,
    asked: usize,
}

impl Grammar {
    pub fn new(src: &str) -> Self {
        let e = read(src);
        let mut g = Grammar::default();
        g.root = g.lang(&e, &None);
        g.starts = vec![(false, vec![]); g.nodes.len()];
        loop {
            let mut same = true;
            for n in (0..g.nodes.len()).rev() {
                let s = g.start(n);
                same &= s == g.starts[n];
                g.starts[n] = s;
            }
            if same {
                return g;
            }
        }
    }
    fn push(&mut self, n: N) -> usize {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    fn lang<'a>(&mut self, e: &'a E, env: &Env<'a>) -> usize {
        match self.whnf(e, env) {
            W::Lang(n) => n,
            W::Lam(..) => panic!("reference grammar: a function where a language is needed"),
        }
    }
    fn whnf<'a>(&mut self, e: &'a E, env: &Env<'a>) -> W<'a> {
        W::Lang(match e {
            E::Eps => self.push(N::Cat(vec![])),
            E::Lit(v) => self.push(N::Lit(v.clone())),
            E::Cat(v) => {
                let v = v.iter().map(|e| self.lang(e, env)).collect();
                self.push(N::Cat(v))
            }
            E::Alt(v) => {
                let v: Vec<usize> = v.iter().map(|(e, _)| self.lang(e, env)).collect();
                let mut class = vec![];
                let mut rest = vec![];
                for i in v {
                    match &self.nodes[i] {
                        N::Lit(s) if s.len() == 1 => class.push(s[0]),
                        N::Class(s) => class.extend(s),
                        _ => rest.push(i),
                    }
                }
                if class.is_empty() {
                    return W::Lang(self.push(N::Alt(rest)));
                }
                let c = self.push(N::Class(class));
                if rest.is_empty() {
                    c
                } else {
                    rest.push(c);
                    self.push(N::Alt(rest))
                }
            }
            E::Var(x) => {
                let mut at = env;
                loop {
                    let b = at.as_ref().expect("reference grammar: undeclared name");
                    if b.0 == *x {
                        let v = b.1.clone();
                        return match v {
                            Val::Thunk(e, env) => self.whnf(e, &env),
                            Val::Node(n) => W::Lang(n),
                        };
                    }
                    at = &b.2;
                }
            }
            E::Lam(a, b) => return W::Lam(a, b, env.clone()),
            E::Let(x, b, r) => {
                let env = bind(x, Val::Thunk(b, env.clone()), env);
                return self.whnf(r, &env);
            }
            E::Call(f, args) => match self.whnf(f, env) {
                W::Lam(names, body, at) => {
                    assert!(names.len() == args.len(), "reference grammar: argument count");
                    let mut e = at;
                    for (n, a) in names.iter().zip(args) {
                        e = bind(n, Val::Thunk(a, env.clone()), &e);
                    }
                    return self.whnf(body, &e);
                }
                W::Lang(_) => panic!("reference grammar: not a function"),
            },
            E::Fix(f) => match self.whnf(f, env) {
                W::Lam(names, body, at) => {
                    assert!(names.len() == 1, "reference grammar: fixed point of several");
                    let id = self.push(N::Alt(vec![]));
                    let e = bind(&names[0], Val::Node(id), &at);
                    let b = self.lang(body, &e);
                    self.nodes[id] = N::Ref(b);
                    id
                }
                W::Lang(_) => panic!("reference grammar: fixed point of no function"),
            },
        })
    }
    fn start(&self, n: usize) -> (bool, Vec<char>) {
        let (mut null, mut first) = (false, vec![]);
        match &self.nodes[n] {
            N::Lit(s) => match s.first() {
                Some(c) => first.push(*c),
                None => null = true,
            },
            N::Class(s) => first.extend(s),
            N::Cat(v) => {
                null = true;
                for e in v {
                    if null {
                        first.extend(&self.starts[*e].1);
                        null = self.starts[*e].0;
                    }
                }
            }
            N::Alt(v) => {
                for e in v {
                    null |= self.starts[*e].0;
                    first.extend(&self.starts[*e].1);
                }
            }
            N::Ref(b) => return self.starts[*b].clone(),
        }
        first.sort_unstable();
        first.dedup();
        (null, first)
    }
    /// What the choice can start with that is to be made where the first character comes that fits no word.
    pub fn choices(&self, w: &[char]) -> Vec<char> {
        match self.descend(self.root, w, 0) {
            Err(v) => v,
            Ok(_) => vec![],
        }
    }
    /// Chooses by the next character; `Err` is what a choice without a fitting branch starts with.
    fn descend(&self, n: usize, w: &[char], mut i: usize) -> Result<usize, Vec<char>> {
        match &self.nodes[n] {
            N::Lit(s) => {
                if i + s.len() <= w.len() && w[i..i + s.len()] == s[..] {
                    Ok(i + s.len())
                } else {
                    Err(vec![])
                }
            }
            N::Class(s) => {
                if i < w.len() && s.contains(&w[i]) {
                    Ok(i + 1)
                } else {
                    Err(s.clone())
                }
            }
            N::Cat(v) => {
                for e in v {
                    i = self.descend(*e, w, i)?;
                }
                Ok(i)
            }
            N::Alt(v) => {
                if i < w.len() {
                    if let Some(e) = v.iter().find(|e| self.starts[**e].1.contains(&w[i])) {
                        return self.descend(*e, w, i);
                    }
                }
                match v.iter().find(|e| self.starts[**e].0) {
                    Some(e) => self.descend(*e, w, i),
                    None => Err(self.starts[n].1.clone()),
                }
            }
            N::Ref(b) => self.descend(*b, w, i),
        }
    }
    /// Where words starting at `i` can end (a bit set), exploring every derivation; `far` becomes
    /// the longest prefix of the text that some derivation matches and asks for.
    fn ends(&self, n: usize, w: &[char], i: usize, far: &mut Far) -> u64 {
        match &self.nodes[n] {
            N::Lit(s) => {
                for (k, c) in s.iter().enumerate() {
                    far.asked = far.asked.max(i + k + 1);
                    if i + k >= w.len() || w[i + k] != *c {
                        return 0;
                    }
                    far.matched = far.matched.max(i + k + 1);
                }
                1 << (i + s.len())
            }
            N::Class(s) => {
                far.asked = far.asked.max(i + 1);
                if i >= w.len() || !s.iter().fold(false, |a, c| a | (w[i] == *c)) {
                    return 0;
                }
                far.matched = far.matched.max(i + 1);
                1 << (i + 1)
            }
            N::Cat(v) => {
                let mut at = 1u64 << i;
                for e in v {
                    let mut next = 0;
                    for k in i..=w.len() {
                        if at >> k & 1 == 1 {
                            next |= self.ends(*e, w, k, far);
                        }
                    }
                    at = next;
                }
                at
            }
            N::Alt(v) => v.iter().fold(0, |a, e| a | self.ends(*e, w, i, far)),
            N::Ref(b) => self.ends(*b, w, i, far),
        }
    }
    /// Whether `w` is a word, and the length of its longest prefix that starts some word.
    pub fn run(&self, w: &[char]) -> (bool, usize) {
        let mut far = Far::default();
        let e = self.ends(self.root, w, 0, &mut far);
        (e >> w.len() & 1 == 1, far.matched)
    }
    /// The length of the longest prefix of `w` that starts some word, and whether some word goes on after it.
    pub fn open(&self, w: &[char]) -> (usize, bool) {
        let mut far = Far::default();
        self.ends(self.root, w, 0, &mut far);
        (far.matched, far.asked > far.matched)
    }
}

/// The position after `upto` characters.
pub fn position(text: &[char], upto: usize) -> (usize, usize) {
    let (mut line, mut col) = (1usize, 0usize);
    for i in 0..upto {
        let nl = match text[i] {
            '\n' | '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}' => true,
            '\r' => !(i + 1 < text.len() && text[i + 1] == '\n'),
            _ => false,
        };
        if nl {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
    }
    (line, col)
}
