#!/usr/bin/env python3
"""Writes hx/gen/src/random.rs: grammars drawn at random (fixed seed) and kept if an independent
type checker accepts them and every part of them derives some word.  The committed file is what the
checks use; rerun only to change the corpus."""
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = random.Random(20240607)
LETTERS = ["a", "b", "c", "d", "e", "é", "€", "+", "\\n", "\\\\"]
NAMES = ["x", "y", "rec", "lit1", "part1", "Fix", "Cat1", "alt_2", "Box", "opt", "_p", "ast"]
LABELS = ["x", "part1", "branch2", "Lit", "lit1", "Alt", "Fix", "cat", "Box", "Ast", "_1", "fix_2"]


class Bad(Exception):
    pass


# Core terms: ("eps",) ("lit", s) ("cat", [..]) ("alt", [..]) ("fix", t) ("var", i) -- de Bruijn.
def infer(t, env, open_):
    k = t[0]
    if k == "eps":
        return (True, frozenset(), frozenset())
    if k == "lit":
        return (False, frozenset(t[1][:1]), frozenset()) if t[1] else (True, frozenset(), frozenset())
    if k == "var":
        n = len(env) - 1 - t[1]
        if n >= open_:
            raise Bad("guarded")
        return env[n]
    if k == "alt":
        acc = infer(t[1][0], env, open_)
        for e in t[1][1:]:
            u = infer(e, env, open_)
            if acc[0] and u[0] or acc[1] & u[1]:
                raise Bad("alt")
            acc = (acc[0] or u[0], acc[1] | u[1], acc[2] | u[2])
        return acc
    if k == "cat":
        acc = infer(t[1][0], env, open_)
        for e in t[1][1:]:
            u = infer(e, env, len(env))
            if acc[0] or acc[2] & u[1]:
                raise Bad("cat")
            acc = (False, acc[1], u[2] | ((u[1] | acc[2]) if u[0] else frozenset()))
        return acc
    ty = (False, frozenset(), frozenset())
    while True:
        u = infer(t[1], env + [ty], open_)
        if u == ty:
            return ty
        ty = u


def productive(t, env):
    k = t[0]
    if k in ("eps", "lit"):
        return True
    if k == "var":
        return env[len(env) - 1 - t[1]]
    if k == "cat":
        return all([productive(e, env) for e in t[1]])
    if k == "alt":
        return any([productive(e, env) for e in t[1]])
    return productive(t[1], env + [productive(t[1], env + [False])])


def all_productive(t, env):
    """Every subterm derives a word (so that every matched prefix starts some word)."""
    if not productive(t, env):
        return False
    k = t[0]
    if k in ("cat", "alt"):
        return all(all_productive(e, env) for e in t[1])
    if k == "fix":
        return all_productive(t[1], env + [True])
    return True


def clean(s):
    return s.replace("\\n", "\n").replace("\\\\", "\\")


class Gen:
    """Source text and core term, generated together.  Scope: list of (name, kind, payload, level)."""

    def __init__(self):
        self.budget = R.randint(6, 15)
        self.letters = R.sample(LETTERS, R.choice([5, 8, 10]))
        self.features = set()

    def lit(self):
        n = R.choice([1] * 12 + [2, 2, 3, 0])
        v = [R.choice(self.letters) for _ in range(n)]
        return '"%s"' % "".join(v), ("lit", clean("".join(v)))

    def shift(self, t, by, cut=0):
        k = t[0]
        if k == "var":
            return ("var", t[1] + by) if t[1] >= cut else t
        if k in ("cat", "alt"):
            return (k, [self.shift(e, by, cut) for e in t[1]])
        if k == "fix":
            return ("fix", self.shift(t[1], by, cut + 1))
        return t

    def visible(self, scope):
        seen, out = set(), []
        for b in reversed(scope):
            if b[0] not in seen:
                seen.add(b[0])
                out.append(b)
        return out

    # term(): text that can be an operand of a call; core; level = number of fixed points around
    def term(self, scope, level, guarded):
        self.budget -= 1
        vis = self.visible(scope)
        r = R.random()
        vals = [b for b in vis if b[1] == "val"]
        if vals and r < 0.45:
            b = R.choice(vals)
            self.features.add("use")
            return b[0], self.shift(b[2], level - b[3])
        if r < 0.55 and self.budget > 3:
            name = R.choice(NAMES)
            inner_level = level + 1
            s, t = self.alt(scope + [(name, "val", ("var", 0), inner_level)], inner_level)
            self.features.add("fix")
            return "!(/%s/ %s)" % (name, s), ("fix", t)
        if r < 0.62:
            return "_", ("eps",)
        if r < 0.75 and self.budget > 2:
            s, t = self.alt(scope, level)
            return "(%s)" % s, t
        return self.lit()

    def call(self, scope, level):
        funs = [b for b in self.visible(scope) if b[1] == "fun"]
        if funs and R.random() < 0.4:
            b = R.choice(funs)
            args = [self.term(scope, level, False) for _ in range(b[2][1])]
            self.features.add("call")
            # Re-expand the function's body for these arguments.
            s = " ".join([b[0]] + [a[0] for a in args])
            return s, self.subst(b[2][0], [a[1] for a in args], level, b[3])
        return self.term(scope, level, False)

    def subst(self, body, args, level, at):
        """body: core with ("arg", i) holes, written at fixed-point level `at`."""

        def go(t, d):
            k = t[0]
            if k == "arg":
                return self.shift(args[t[1]], d)
            if k == "var":
                return ("var", t[1] + (level - at)) if t[1] >= d else t
            if k in ("cat", "alt"):
                return (k, [go(e, d) for e in t[1]])
            if k == "fix":
                return ("fix", go(t[1], d + 1))
            return t

        return go(body, 0)

    def cat(self, scope, level):
        n = R.choice([1, 1, 2, 2, 2, 3])
        v = [self.call(scope, level) for _ in range(n)]
        if n == 1:
            return v[0]
        return " . ".join(x[0] for x in v), ("cat", [x[1] for x in v])

    def label(self):
        if R.random() < 0.3:
            self.features.add("label")
            return " : " + R.choice(LABELS)
        return ""

    def alt(self, scope, level):
        n = R.choice([1, 2, 2, 2, 3]) if self.budget > 0 else 1
        v = [self.cat(scope, level) for _ in range(n)]
        s = " | ".join(x[0] + self.label() for x in v)
        return s, (v[0][1] if n == 1 else ("alt", [x[1] for x in v]))

    def stmt(self, scope, depth):
        if depth > 0 and R.random() < 0.75:
            name = R.choice(NAMES)
            if R.random() < 0.35:
                n = R.randint(1, 2)
                args = R.sample(NAMES, n)
                inner = scope + [(a, "val", ("arg", i), 0) for i, a in enumerate(args)]
                s, t = self.alt(inner, 0)
                self.features.add("fun")
                rest, core = self.stmt(scope + [(name, "fun", (t, n), 0)], depth - 1)
                return "let %s %s = %s; %s" % (name, " ".join(args), s, rest), core
            s, t = self.alt(scope, 0)
            rest, core = self.stmt(scope + [(name, "val", t, 0)], depth - 1)
            return "let %s = %s; %s" % (name, s, rest), core
        s, t = self.alt(scope, 0)
        return "match %s;" % s, t


def has_arg(t):
    k = t[0]
    if k == "arg":
        return True
    if k in ("cat", "alt"):
        return any(has_arg(e) for e in t[1])
    return k == "fix" and has_arg(t[1])


def size(t):
    k = t[0]
    if k in ("cat", "alt"):
        return 1 + sum(map(size, t[1]))
    return 1 + (size(t[1]) if k == "fix" else 0)


def count(t, kind):
    return (t[0] == kind) + (sum(count(e, kind) for e in t[1]) if t[0] in ("cat", "alt") else count(t[1], kind) if t[0] == "fix" else 0)


def nested(t, level):
    """Uses of an outer fixed point inside an inner one."""
    k = t[0]
    if k == "var":
        return 1 if t[1] > 0 else 0
    if k in ("cat", "alt"):
        return min(3, sum(nested(e, level) for e in t[1]))
    return nested(t[1], level + 1) if k == "fix" else 0


def shortest(t, env):
    k = t[0]
    if k == "eps":
        return 0
    if k == "lit":
        return len(t[1])
    if k == "var":
        return env[len(env) - 1 - t[1]]
    v = [shortest(e, env) for e in t[1]] if k in ("cat", "alt") else []
    if k == "cat":
        return sum(v)
    if k == "alt":
        return min(v)
    return shortest(t[1], env + [shortest(t[1], env + [1000])])


def main():
    want = int(sys.argv[1]) if len(sys.argv) > 1 else 90
    out, seen, tries = [], set(), 0
    pool = []
    while len(out) < want:
        tries += 1
        g = Gen()
        try:
            s, t = g.stmt([], R.choice([0, 1, 2, 3]))
            if has_arg(t):
                continue
            infer(t, [], 0)
        except (Bad, RecursionError):
            continue
        sz = size(t)
        if sz < 6 or sz > 40 or repr(t) in seen or not all_productive(t, []):
            continue
        seen.add(repr(t))
        fixes = count(t, "fix")
        score = 2 * min(fixes, 4) + 2 * min(count(t, "var"), 4) + 2 * len(g.features) + 3 * nested(t, 0) - s.count("_ ") - s.count(". _") + R.random() * 4
        pool.append((score, s, max(7 if fixes else 6, shortest(t, []) + 2)))
        if len(pool) == 40:
            pool.sort(reverse=True)
            out.append(pool[0][1:])
            pool = []
    with open(os.path.join(HERE, "hx", "gen", "src", "random.rs"), "w") as f:
        f.write("//! Written by tools/gencorpus.py: random grammars that an independent type checker accepts.\n")
        f.write("use crate::corpus;\ncorpus! {\n")
        for i, (s, n) in enumerate(out):
            f.write("    r%02d %d { %s }\n" % (i, n, s))
        f.write("}\n")
    print(tries, "tries")


main()
