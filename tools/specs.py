"""What each property's check runs.  Entry: harness function; bounds: what it quantifies over."""

COMMON_ASSUMPTIONS = [
    "rustc's lowering of the source to LLVM IR (nightly, opt-level 2, overflow checks on, riscv64) is the semantics decided; sampled paths and every counterexample are replayed on an x86_64 build",
    "the symbolic interpreter for LLVM IR in /verif/engine and Z3 are trusted; the interpreter's expression simplifier is self-tested on every run",
    "allocation never fails; pointers are compared only for identity; hash seeds are fixed",
]


def R(crate, entry, bounds, **kw):
    return dict(crate=crate, entry=entry, bounds=bounds, **kw)


PROPS = {}

PROPS["C01"] = dict(
    quick=[
        R("chewed", "h_pos", "texts of up to 3 arbitrary characters, peek or not before each of 5 reads", covers=[1, 2, 3]),
        R("chewed", "h_pos_deep", "texts of up to 5 arbitrary characters, peek or not before each of 7 reads", covers=[1, 2, 3]),
        R("chewed", "h_pos_far", "3 arbitrary characters after 250, 300 or 65600 columns or lines", covers=[1]),
        R("chewed", "h_pos_many", "every text of 8 characters of 4", covers=[1]),
    ],
    bounds="texts of at most 5 arbitrary Unicode scalar values; any interleaving of peek and next, two reads past the end; 3 arbitrary ones after up to 65600 others",
    outside="longer texts (the position update looks at one character of lookahead only)",
)
CONSUME = [
    R("chewed", "h_consume", "texts of up to 3 and literals of up to 2 arbitrary characters, from position 0 or 1", covers=[1, 2, 3]),
    R("chewed", "h_consume_long", "literals of 17 to 140 characters, texts with two arbitrary characters anywhere", covers=[1, 2, 3]),
]
PROPS["C02"] = dict(
    quick=CONSUME,
    thorough=CONSUME
    + [
        R("chewed", "h_consume_deep", "texts of up to 4 and literals of up to 4 arbitrary characters", covers=[1, 2, 3], time=700),
    ],
    bounds="literals of at most 2 (thorough: 4) and texts of at most 3 (thorough: 4) arbitrary Unicode scalar values of every UTF-8 length; texts that differ from five literals of up to 140 characters in at most two neighbouring characters",
    outside="other literals and texts of more characters",
)
PROPS["C03"] = dict(
    quick=[
        R("chewed", "h_chars", "texts of up to 4 arbitrary characters, sets of 2 arbitrary characters, buffers of up to 3", covers=[1, 2, 3]),
        R("chewed", "h_skip", "texts of up to 4 arbitrary characters, predicates 'one of two arbitrary characters'", covers=[1]),
        R("chewed", "h_iter", "texts of up to 4 arbitrary characters", covers=[1, 2]),
        R("chewed", "h_iter_deep", "texts of up to 6 arbitrary characters", covers=[1, 2]),
        R("chewed", "h_chars_long", "sets of up to 9 characters, one of them arbitrary, in three orders; buffers of up to 8", covers=[1, 2]),
        R("chewed", "h_chars_many", "sets of 10 to 40 characters and buffers of up to 33, one arbitrary character in 3 places", covers=[1, 2]),
        R("chewed", "h_skip_long", "runs of up to 300 characters", covers=[1]),
        R("chewed", "h_iter_long", "lists of up to 33 items with one arbitrary character or cut off anywhere", covers=[1, 2]),
    ],
    bounds="texts of at most 4 (lists: 6) arbitrary Unicode scalar values; longer ones with one arbitrary character; sets of up to 40",
    outside="longer texts; item parsers other than a one-character choice",
)
PROPS["C04"] = dict(
    quick=[
        R("chewed", "h_parse", "texts of up to 2 arbitrary characters, an item parser of up to one character that can fail", covers=[1, 2]),
        R("chewed", "h_parse_long", "texts of up to 30 characters, one of them arbitrary, a parser that takes some, all or too many and ends in each way", covers=[1, 2, 3]),
        R("chewed", "h_errors", "positions below 100:100, error kinds", covers=[1]),
    ],
    bounds="texts of at most 2 arbitrary Unicode scalar values, of up to 30 with one; Epsilon, two item types, Box and Box<Box> of them",
    outside="longer texts; types defined elsewhere (the generated parsers have their own property)",
)

# ---- the compiler library (chomp), driven through its public AST ----
CORE_ASSUMPTIONS = ["spans are opaque and equal (proc_macro2's fallback, outside a procedural macro)"]
C05_SMALL = [
    R("core", "h_infer_small", "every expression of up to 4 nodes, well scoped or not, literals of up to 2 arbitrary characters", covers=[1, 10, 12, 13, 14, 15]),
    R("core", "h_infer5", "every well-scoped expression of 5 nodes, literals of 1 arbitrary character", covers=[1, 10, 12, 13, 15]),
    R("core", "h_infer6", "every well-scoped expression of 6 nodes, literals of 1 arbitrary character", covers=[1, 10, 11, 12, 13, 15]),
    R("core", "h_infer_fun", "every expression of up to 4 nodes with functions, calls and lets in it", covers=[1, 16, 17, 18, 19]),
    R("core", "h_infer7", "every well-scoped expression of 7 nodes over 4 characters, binary operators", covers=[1, 10, 11, 12, 13, 15]),
    R("core", "h_infer8", "every well-scoped expression of 8 nodes over 4 characters, binary operators", covers=[1, 10, 11, 12, 13, 15]),
    R("core", "h_gamma4", "every history of up to 4 bindings and unguardings, any variable looked up at any point", covers=[1, 2]),
    R("core", "h_gamma5", "every history of 5 bindings and unguardings, any variable looked up at any point", covers=[1, 2]),
    R("core", "h_infer_rec4", "recursion behind a letter in 6 shapes, once or twice, with any expression of up to 4 nodes behind it", covers=[1, 10, 11, 12, 13, 15]),
    R("core", "h_infer_rec5", "the same with any expression of 5 nodes", covers=[1, 10, 11, 12, 13, 15]),
    R("core", "h_infer_wide4", "sequences and choices of 4, bare and in a fixed point, three parts replaced by small expressions", covers=[1, 10, 11, 12, 13, 15]),
    R("core", "h_infer_wide6", "sequences and choices of 5 and 6, two parts replaced", covers=[1, 10, 12, 13, 15]),
    R("core", "h_infer_wide9", "sequences and choices of 7 to 9, one part replaced", covers=[1, 10, 12, 13, 15]),
    R("core", "h_infer_many", "sequences and choices of 10 to 33, bare and in a fixed point, one part of 8 kinds", covers=[1, 10, 11, 13, 15]),
    R("core", "h_infer_deep", "5 to 9 fixed points inside of each other, all but at most one behind a letter, with a use of any", covers=[1, 14, 15]),
    R("core", "h_infer_chain", "sequences of a letter and 2 to 5 parts, each a letter, an optional one or any number of one, 3 letters", covers=[1, 11]),
    R("core", "h_infer_branches", "choices of 2 to 4 branches that may end in one more letter, before a letter, optional, or recursive, 5 letters", covers=[1, 11, 13]),
]
PROPS["C05"] = dict(
    quick=C05_SMALL,
    thorough=C05_SMALL
    + [
        R("core", "h_infer_rec6", "recursion behind a letter with any expression of 6 nodes behind it", covers=[1, 10, 11, 12, 13, 15]),
        R("core", "h_infer9", "every well-scoped expression of 9 nodes over 4 characters, binary operators", covers=[1, 10, 11, 12, 13, 15], time=400),
        R("core", "h_infer10", "every well-scoped expression of 10 nodes over 4 characters, binary operators", covers=[1, 10, 11, 12, 13, 15], time=700),
    ],
    bounds="expressions of at most 8 nodes (thorough: 10), sequences and choices of up to 9 with up to 3 arbitrary small parts, sequences of 6 and choices of 4 in the shapes given, of up to 33 with one part of 8 kinds, 9 fixed points inside of each other; functions, calls and lets in expressions of at most 4; literals over arbitrary characters up to 6 nodes, over 4 characters above",
    outside="larger expressions; the wording of error messages",
    assumptions=CORE_ASSUMPTIONS,
)
SOUND = [
    R("core", "h_sound_small", "every expression of up to 5 nodes, literals of up to 2 of 2 letters; every word of up to 3 letters", covers=[1, 2, 3, 9]),
    R("core", "h_sound6", "every expression of 6 nodes, 3 letters; every word of up to 3 letters", covers=[1, 2, 3, 9]),
    R("core", "h_sound7", "every expression of 7 nodes, 3 letters, binary operators; every word of up to 4 letters", covers=[1, 2, 3, 9], time=400),
    R("core", "h_sound_wide", "sequences and choices of 4, two parts replaced by arbitrary leaves; every word of up to 4 letters", covers=[1, 2, 9], time=400),
    R("core", "h_sound_chain", "sequences of a letter and 2 or 3 parts, each a letter, an optional one or any number of one; every word of up to 4 letters", covers=[1, 3, 9], time=400),
    R("core", "h_sound_branches", "choices of 2 branches that may end in one more letter, before a letter, optional, or recursive; every word of up to 4 letters", covers=[1, 3, 9], time=240),
    R("core", "h_sound_rec", "recursion behind a letter in 6 shapes, once or twice, with any expression of up to 3 nodes behind it; every word of up to 5 of 2 letters", covers=[1, 3, 9]),
]
PROPS["C06"] = dict(
    quick=SOUND,
    thorough=SOUND + [R("core", "h_sound8", "every expression of 8 nodes, 3 letters, binary operators; every word of up to 4 letters", covers=[1, 2, 3, 9], time=1200)],
    bounds="well-typed expressions of at most 7 nodes (thorough: 8) and words of at most 4 letters over a 3-letter alphabet",
    outside="larger grammars, longer words, larger alphabets",
    assumptions=CORE_ASSUMPTIONS,
)
RED = [
    R("core", "h_subst", "every expression of up to 4 nodes, substituting every expression of up to 3 nodes", covers=[1, 2]),
    R("core", "h_reduce4", "every expression of up to 4 nodes, free variables included", covers=[1, 2, 3]),
    R("core", "h_reduce5", "every expression of 5 nodes, free variables included", covers=[1, 2, 3]),
    R("core", "h_reduce6", "every expression of 6 nodes, free variables included", covers=[1, 2, 3]),
    R("core", "h_reduce7", "every closed expression of 7 nodes", covers=[1, 2, 3]),
    R("core", "h_reduce_args", "calls of functions of 3 and 4 parameters with bodies of up to 3 nodes, in 3 contexts", covers=[1, 2, 3]),
    R("core", "h_reduce_wide", "sequences, choices and calls of 4 to 6, two parts replaced", covers=[1, 2]),
    R("core", "h_reduce_chain", "chains of 3 bindings of up to 2 nodes", covers=[1, 2, 3]),
    R("core", "h_reduce_many", "functions of 5 to 17 parameters, chains of 5 to 17 bindings and up to 9 functions inside of each other", covers=[1, 2, 3]),
]
PROPS["C07"] = dict(
    quick=RED,
    thorough=RED + [R("core", "h_reduce8", "every closed expression of 8 nodes that has a normal form", covers=[1, 2, 3], time=700)],
    bounds="expressions of at most 7 nodes (thorough: 8) over functions of up to 2 parameters, calls, lets, fixed points, sequences, choices; functions of up to 17 parameters, 6 parts, 17 bindings in the shapes given",
    outside="larger expressions; expressions without a normal form (self-application, from 8 nodes), on which reduction does not end",
    assumptions=CORE_ASSUMPTIONS,
)
PROPS["C08"] = dict(
    quick=[
        R("core", "h_name_eq", "pairs of names of up to 2 letters, plain, identifier or raw identifier, of each kind", covers=[1, 2, 4]),
        R("core", "h_name_merge", "triples of names of each kind or none", covers=[1, 2, 3]),
        R("core", "h_name_case", "identifiers of up to 4 characters over underscore, lower, upper, digit", covers=[1]),
        R("core", "h_name_long", "identifiers of 6 to 100 characters, equal or different in one place or in length, plain, identifier or raw", covers=[1, 2, 3, 4]),
        R("core", "h_name_script", "48 characters of many scripts in 7 surroundings, plain and raw", covers=[1]),
        R("core", "h_name_block", "every character of the first two planes after an underscore, alone or before a letter", covers=[1]),
    ],
    bounds="identifiers of at most 2 (case conversion: 4) characters; ones of up to 100 that differ in one place; ones with an arbitrary character of the first two planes or with one of 48 in other places",
    outside="longer identifiers; other characters outside of ASCII in other places",
    assumptions=CORE_ASSUMPTIONS,
)
PROPS["C09"] = dict(
    quick=[
        R("core", "h_sets", "pairs of sets of up to 2 arbitrary characters below U+0100", covers=[1, 2]),
        R("core", "h_of_str", "strings of up to 2 arbitrary characters", covers=[1, 2, 3]),
        R("core", "h_types", "pairs of types over sets of up to 1 arbitrary character below U+0100", covers=[1, 2]),
        R("core", "h_sets_any", "pairs of sets of up to 2 arbitrary characters", covers=[1, 2]),
        R("core", "h_sets_many", "sets of up to 18 characters against sets of up to 15 with one arbitrary character", covers=[1, 2]),
        R("core", "h_sets_among", "sets of up to 8 characters each that lie among each other, one of them arbitrary", covers=[1, 2]),
        R("core", "h_types_many", "types over every set of 4 given characters", covers=[1, 2]),
    ],
    bounds="sets of at most 2 arbitrary characters, strings of at most 2 arbitrary characters; sets of up to 18 with one arbitrary character, of up to 8 that lie among each other",
    outside="larger sets",
)
CODE = [
    R("core", "h_code5", "every expression of up to 5 nodes, literals of up to 2 of 3 letters", covers=[1, 2, 3, 9]),
    R("core", "h_code7", "every expression of 7 nodes, 3 letters, binary operators", covers=[1, 2, 3, 9]),
    R("core", "h_code_shared", "two nested fixed points around every inner expression of up to 6 nodes", covers=[1, 2, 9]),
    R("core", "h_code_names3", "every expression of up to 3 nodes, each node unlabelled or with one of 6 labels", covers=[1, 2]),
    R("core", "h_code_names4", "every expression of 4 nodes, each node unlabelled or with one of 3 labels", covers=[1, 2]),
    R("core", "h_code_wide", "sequences and choices of 4 to 6, two parts replaced", covers=[1, 2, 3, 9], time=240),
    R("core", "h_code_lits", "every three of 17 literals that are much alike or need escapes, in a sequence or choices", covers=[1, 2, 3, 9]),
    R("core", "h_code_twins", "two sequences or choices of 2 to 9 parts that are equal, or differ in one part or the order of two", covers=[1, 2, 3]),
    R("core", "h_code_many", "sequences and choices of 10 to 21, one part of 8 kinds; 5 to 7 fixed points inside of each other", covers=[1, 2, 3, 9], time=240),
]
PROPS["C10"] = dict(
    quick=CODE,
    thorough=CODE
    + [
        R("core", "h_code8", "every expression of 8 nodes, 3 letters, binary operators", covers=[1, 2, 3, 9], time=900),
        R("core", "h_code_names5", "every expression of 5 nodes, each node unlabelled or with one of 3 labels", covers=[1, 2], time=600),
    ],
    bounds="expressions of at most 7 nodes (thorough: 8); labelled ones of at most 4 nodes (thorough: 5); sequences and choices of up to 21 parts and literals with escapes in given shapes",
    outside="larger expressions; the bodies of the generated parsers (the generated-parser property runs them)",
    assumptions=CORE_ASSUMPTIONS,
)

# ---- parsers generated by the macro ----
import os as _os  # noqa: E402
import re as _re  # noqa: E402

_GEN = _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "hx", "gen", "src")


def _corpus(f):
    out = []
    for line in open(_os.path.join(_GEN, f)):
        m = _re.match(r"    ([a-z0-9]+) (\d+) \{", line)
        if m:
            out.append((m.group(1), int(m.group(2))))
    return out


CORPUS = _corpus("corpus.rs") + _corpus("random.rs")


def corpus_rejected(out):
    """Errors in the files that hold nothing but macro invocations mean the macro rejected a
    grammar of the corpus, all of which are well typed, or its output does not compile."""
    m = _re.search(r"^(error[^\n]*)\n\s+--> src/(corpus|random)\.rs:(\d+)", out, _re.M)
    return "%s (src/%s.rs:%s)" % m.groups() if m else None


def _gen(prefix, more, covers=(), **kw):
    return [R("gen", prefix + n, "grammar %s: every text of up to %d arbitrary characters" % (n, k + more), covers=list(covers), batch=True, samples=8, **kw) for n, k in CORPUS]


PROPS["C11"] = dict(
    quick=_gen("g_", 0, [1]),
    thorough=_gen("d_", 3, [1], time=120),
    bounds="%d grammars (written by hand and drawn at random; hx/gen/src), texts of at most 3 to 10 arbitrary characters each (thorough: 3 more)" % len(CORPUS),
    outside="other grammars (for which C05, C06, C07 and C10 decide the stages of the compiler) and longer texts",
    compile_violation=corpus_rejected,
)
EQ = [("opt3", 3), ("inner", 4), ("twice", 4), ("regex", 3), ("deep", 3), ("alts", 3), ("labels", 2), ("esc", 2), ("wides", 2), ("arith", 3), ("dyck", 4), ("many", 2), ("row3", 11), ("opts", 4), ("list", 5), ("rounds", 4), ("menu", 3), ("pads", 3)]
PROPS["C12"] = dict(
    quick=_gen("t_", 0, [1])
    + [R("gen", "q_" + n, "grammar %s: every pair of texts of up to %d arbitrary characters" % (n, k), covers=[1, 2], batch=True) for n, k in EQ]
    + [R("gen", "c_" + n, "grammar %s: every character" % n, covers=[1], batch=True) for n in ("one", "digits", "nested", "bound")],
    bounds="%d grammars (hx/gen/src), texts of at most 3 to 10 arbitrary characters each; pairs of texts of at most 4" % len(CORPUS),
    outside="other grammars and longer texts",
    compile_violation=corpus_rejected,
)

# ---- the two front ends ----
FRONT_ASSUMPTIONS = [
    "syn and proc_macro2 are executed too, with proc_macro2's fallback lexer: inside of rustc the macro gets its tokens from rustc's lexer instead",
    "names are told apart as text; spans are not compared",
]
BOTH = [
    R("front", "h_tokens5", "every sequence of up to 5 tokens of 16, after a binding and with a closing semicolon", covers=[1, 2, 9]),
    R("front", "h_tokens6", "every sequence of 6 tokens of 16, after a binding and with a closing semicolon", covers=[1, 2, 9]),
    R("front", "h_params", "every sequence of up to 4 tokens of 16 as names of a binding or of a function's parameters", covers=[1, 9]),
    R("front", "h_back4", "every sequence of up to 4 tokens of 16 as a goal, the macro's front end first", covers=[1, 2, 9]),
    R("front", "h_match5", "every text of up to 5 characters of 12 as a goal", covers=[1, 2, 9]),
    R("front", "h_match6", "every text of 6 characters of 12 as a goal", covers=[1, 2, 9]),
    R("front", "h_let6", "every text of 6 characters of 10 as a binding", covers=[1, 2, 9]),
    R("front", "h_lambda5", "every text of up to 5 characters of 10 as a function", covers=[1, 9]),
    R("front", "h_literal5", "every text of up to 5 characters of 14 inside of a literal", covers=[1, 9]),
    R("front", "h_escape", "every text of up to 6 characters of 7 inside of a Unicode escape", covers=[1, 9]),
    R("front", "h_prefix", "every text of up to 3 characters of 14 before a goal", covers=[1, 9]),
    R("front", "h_both4", "every grammar of up to 4 nodes, two layouts", covers=[1, 2]),
    R("front", "h_both5", "every grammar of 5 nodes, two layouts", covers=[1, 2], time=240),
    R("front", "h_both_spine", "every chain of 3 bindings of literals, names and functions over 2 names, two layouts", covers=[1, 2]),
    R("front", "h_both_wide", "functions of 3 to 5 parameters, calls, sequences and choices of up to 9 parts, one part changed, two layouts", covers=[1, 2]),
    R("front", "h_both_much", "up to 17 parameters or bindings, 33 parts, 16 brackets inside of each other, names of 40 and literals of 100 characters, two layouts", covers=[1, 2]),
    R("front", "h_edit", "a long grammar with one token replaced, left out, doubled or swapped, or cut off anywhere", covers=[1, 2, 9]),
    R("front", "h_name", "names of up to 2 arbitrary ASCII letters, digits and underscores, bound and used", covers=[1, 2]),
    R("front", "h_printable", "literals of 1 or 2 arbitrary printable ASCII characters", covers=[1, 9]),
    R("front", "h_hex", "hexadecimal and Unicode escapes of up to 3 arbitrary digits", covers=[1, 9]),
    R("front", "h_space", "any white-space or other character up to U+2029 in place of any space", covers=[1, 9]),
]
PROPS["C13"] = dict(
    quick=BOTH,
    thorough=BOTH
    + [
        R("front", "h_tokens7", "every sequence of 7 tokens of 16, after a binding and with a closing semicolon", covers=[1, 2, 9], time=600),
        R("front", "h_back5", "every sequence of 5 tokens of 16 as a goal, the macro's front end first", covers=[1, 2, 9], time=600),
        R("front", "h_match7", "every text of 7 characters of 12 as a goal", covers=[1, 2, 9], time=600),
    ],
    bounds="6 arbitrary tokens, 6 arbitrary characters of the alphabets given, grammars of 5 nodes (thorough: 7, 7 and 5); grammars of up to 33 parts, parameters, brackets or long names in given shapes",
    outside="longer grammars; what only the macro reads by design: comments, raw identifiers and strings, letters outside of ASCII, names that start with `_`, empty literals, suffixes of literals, underscores inside of escapes",
    assumptions=FRONT_ASSUMPTIONS,
)
SCOPE = [
    R("front", "h_context", "every sequence of 3 scope operations over 3 names", covers=[1]),
    R("front", "h_scope5", "every grammar of up to 5 nodes over 2 binders, two layouts", covers=[1, 2]),
    R("front", "h_spine4", "every chain of 4 bindings of literals and names over 3 names", covers=[1, 2]),
    R("front", "h_spine_fun", "every chain of 3 bindings of literals, names and functions over 3 names, with and without sugar", covers=[1, 2]),
    R("front", "h_nest", "up to 3 functions of 1 or 2 parameters inside of each other, over 3 names", covers=[1, 2]),
    R("front", "h_scope_wide", "functions of 3 to 5 parameters, calls, sequences and choices of up to 9 parts, two parts changed", covers=[1, 2]),
    R("front", "h_scope_much", "up to 17 parameters or bindings, 33 parts, 16 brackets inside of each other, names of 40 and literals of 100 characters, four layouts", covers=[1, 2]),
]
PROPS["C14"] = dict(
    quick=SCOPE,
    thorough=SCOPE + [R("front", "h_scope6", "every grammar of 6 nodes over 2 binders, two layouts", covers=[1, 2], time=850)],
    bounds="grammars of at most 5 nodes (thorough: 6) with names of two letters; grammars of up to 33 parts, parameters, brackets or long names in given shapes",
    outside="other larger grammars",
    assumptions=FRONT_ASSUMPTIONS,
)

# ---- the benchmark parsers ----
ARITH = [
    R("bench", "h_arith3", "every text of up to 3 arbitrary characters", covers=[1, 2, 9]),
    R("bench", "h_arith4", "every text of 4 arbitrary characters", covers=[1, 2, 9]),
    R("bench", "h_any5", "every text of 5 arbitrary characters", covers=[1, 2, 9]),
    R("bench", "h_arith5", "every text of up to 5 characters of 9", covers=[1, 2, 9]),
    R("bench", "h_arith6", "every text of 6 characters of 9", covers=[1, 2, 9]),
    R("bench", "h_arith8", "every text of 7 or 8 characters of 8", covers=[1, 9]),
    R("bench", "h_ops", "every sequence of operators and groupings of 4 given numbers", covers=[1]),
    R("bench", "h_long", "numbers near 16, 32 and 64 bits, the last 2 characters arbitrary", covers=[1, 2, 9]),
    R("bench", "h_long_ops", "every two operators between 8 long numbers", covers=[1, 2]),
    R("bench", "h_arith_much", "up to 33 brackets inside of each other, 50 operators, 300 spaces or digits, one arbitrary character at 6 places or cut off there", covers=[1, 2, 9]),
]
PROPS["C15"] = dict(
    quick=ARITH,
    thorough=ARITH
    + [
        R("bench", "h_arith7", "every text of up to 7 characters of 9", covers=[1, 2, 9]),
        R("bench", "h_arith9", "every text of 9 characters of 7", covers=[1, 9]),
        R("bench", "h_arith10", "every text of 10 characters of 7", covers=[1, 9], time=300),
    ],
    bounds="texts of up to 5 arbitrary characters, of up to 8 characters of a smaller alphabet (thorough: 10); numbers near the bounds of 16, 32 and 64 bits in given shapes; up to 33 brackets and 50 operators in given shapes",
    outside="longer texts; values of expressions that divide by zero or leave the 64-bit integers, on which both parsers panic",
)
JSON = [
    R("bench", "h_any2", "every text of up to 2 arbitrary characters", covers=[1, 9]),
    R("bench", "h_any3", "every text of 3 arbitrary characters", covers=[1, 9]),
    R("bench", "h_any4", "every text of 4 arbitrary characters", covers=[1, 9]),
    R("bench", "h_shape6", "every text of up to 6 characters of 9", covers=[1, 9]),
    R("bench", "h_object", "every text of up to 5 characters of 9 at the end of an object", covers=[1, 9]),
    R("bench", "h_number6", "every text of up to 6 characters of 8", covers=[1, 3, 9]),
    R("bench", "h_string4", "every text of up to 4 characters of 14 inside of a string", covers=[1, 9]),
    R("bench", "h_unicode", "every text of up to 4 characters of 23 in a Unicode escape", covers=[1, 2, 9]),
    R("bench", "h_pair", "pairs of escapes at the bounds of the surrogates", covers=[1, 2]),
    R("bench", "h_words", "the three literals with up to 2 characters in place of any", covers=[1, 9]),
    R("bench", "h_lists", "arrays and objects of up to 18 items, nestings of up to 11, up to 2 arbitrary characters among them", covers=[1, 9]),
    R("bench", "h_long_string", "strings of up to 500 characters, one of them arbitrary", covers=[1, 9]),
    R("bench", "h_long_number", "long numbers, 2 characters of them arbitrary", covers=[1, 3, 9]),
    R("bench", "h_print_string", "every string value of up to 2 arbitrary characters", covers=[1, 2]),
    R("bench", "h_print_key", "every key of up to 2 characters of 12", covers=[1, 2]),
    R("bench", "h_print_number", "2800 numbers of many magnitudes, about the powers of two and of ten, alone and in a list", covers=[1]),
    R("bench", "h_print_tree3", "every value of up to 3 nodes", covers=[1]),
    R("bench", "h_print_tree4", "every value of 4 nodes", covers=[1]),
]
PROPS["C16"] = dict(
    quick=JSON,
    thorough=JSON
    + [
        R("bench", "h_shape8", "every text of 7 or 8 characters of 9", covers=[1, 9], time=300),
        R("bench", "h_number8", "every text of 7 or 8 characters of 8", covers=[1, 9], time=300),
    ],
    bounds="texts of up to 4 arbitrary characters, of up to 6 characters of smaller alphabets (thorough: 8); long lists, nestings, strings and numbers with 1 or 2 arbitrary characters; values of up to 4 nodes",
    outside="longer texts; strings with unpaired surrogate escapes, on which both parsers panic or fail; the hand-written parser on malformed numbers, control characters in strings and escapes of other letters, where it accepts more or panics; printing numbers that are not finite",
    assumptions=["hash tables use fixed keys"],
)

AGAIN = [
    R("core", "h_again5", "every expression of up to 5 nodes, generated twice with hash seeds 0 to 3 apart", covers=[1, 9]),
    R("core", "h_again_names", "every expression of up to 3 nodes, each node unlabelled or with one of 3 labels, twice, with hash seeds 0 to 3 apart", covers=[1, 9]),
    R("core", "h_again_after", "every expression of up to 3 nodes before and after every other one", covers=[1, 9]),
    R("core", "h_again_wide", "choices of 2 to 6 branches with a sequence and a fixed point in each, twice", covers=[1]),
    R("core", "h_again_many", "choices of 9 to 20 branches with a sequence and a fixed point in each, twice", covers=[1]),
]
PROPS["C17"] = dict(
    quick=AGAIN,
    thorough=AGAIN + [R("core", "h_again_names4", "every expression of 4 nodes, each node unlabelled or with one of 3 labels, twice, with hash seeds 0 to 3 apart", covers=[1, 9], time=600)],
    bounds="expressions of at most 5 nodes (labelled: 3, thorough: 4), of up to 20 branches in one shape; two hash seeds of every hash table, at most 3 tables apart",
    outside="larger grammars; hash seeds in general (all seeds are successors of one fixed pair of keys); state outside of the process",
    assumptions=CORE_ASSUMPTIONS,
)
WHERE = [
    R("where", "h_where_type4", "every grammar of up to 4 nodes of the typed fragment over 2 letters, on one line and on many", covers=[9, 10, 12, 13, 14]),
    R("where", "h_where_type5", "every grammar of 5 nodes of the typed fragment over 2 letters, on one line and on many", covers=[9, 10, 12, 13, 14]),
    R("where", "h_where_type6", "every grammar of 6 nodes of the typed fragment over 2 letters, on one line and on many", covers=[9, 10, 11, 12, 13, 14]),
    R("where", "h_where_fun4", "every function of up to 4 nodes, called in 4 contexts with 4 arguments", covers=[9, 10, 12, 13]),
    R("where", "h_where_name", "every grammar of up to 5 nodes with undeclared names, misplaced functions and fixed points", covers=[1, 2, 3]),
    R("where", "h_where_call", "calls of functions and of others with one or two arguments, in 4 contexts", covers=[18, 19]),
    R("where", "h_where_result", "uses of functions and calls whose result is one, functions as arguments, in 5 contexts", covers=[9, 13, 16]),
    R("where", "h_where_wide", "sequences and choices of up to 21, three in a row of 5 kinds, on one line and on many", covers=[9, 10, 11, 12, 13]),
]
PROPS["C18"] = dict(
    quick=WHERE,
    thorough=WHERE
    + [
        R("where", "h_where_type7", "every grammar of 7 nodes of the typed fragment over 2 letters, on one line and on many", covers=[9, 10, 11, 12, 13, 14]),
        R("where", "h_where_fun5", "every function of 5 nodes, called in 4 contexts with 4 arguments", covers=[9, 10, 12, 13], time=600),
    ],
    bounds="grammars of at most 6 nodes (thorough: 7), functions of at most 4 (thorough: 5), sequences and choices of 21 in one shape",
    outside="larger grammars; which of several causes is reported; errors of syntax; the self-hosted front end, whose expressions carry no locations",
    assumptions=["syn and proc_macro2 are executed too, with proc_macro2's own locations instead of rustc's"],
)
KEPT = [
    R("core", "h_labels4", "every closed expression of up to 4 nodes, each node labelled or not", covers=[1, 3, 9, 10, 11, 12]),
    R("core", "h_labels5", "every closed expression of 5 nodes, up to 2 of them labelled", covers=[1, 3, 9, 10, 11, 12]),
    R("core", "h_labels6", "every closed expression of 6 nodes, up to one of them labelled", covers=[1, 3, 9, 10, 11, 12]),
    R("core", "h_labels_args", "functions of 3 or 4 parameters, called where they are written or by name, 2 labels", covers=[1, 3, 9, 10, 11, 12]),
    R("core", "h_labels_wide", "sequences and choices of 4 to 6, two parts replaced, one label", covers=[1, 9, 10, 12]),
    R("core", "h_labels_chain", "chains of 3 bindings, one label", covers=[1, 3, 9, 10, 11, 12]),
    R("core", "h_labels_many", "functions of 5 to 12 parameters, chains of as many bindings, up to 9 functions inside of each other, sequences and choices of 8 to 17", covers=[1, 3, 9, 10, 11]),
]
PROPS["C19"] = dict(
    quick=KEPT,
    thorough=KEPT + [R("core", "h_labels7", "every closed expression of 7 nodes without labels", covers=[1, 3, 9, 10, 11], time=600)],
    bounds="expressions of at most 6 nodes (thorough: 7) over functions of up to 2 parameters, calls, lets, fixed points, sequences, choices, with at most 4, 2 and 1 labels; up to 12 parameters, 17 parts and 12 bindings in given shapes",
    outside="larger expressions; which of several equally significant names is kept; the bodies of functions that are never called",
    assumptions=CORE_ASSUMPTIONS,
)

STREAM = R("chewed", "h_stream", "texts of up to 4 arbitrary characters, two operations out of all", covers=[1])
PROPS["C20"] = dict(
    quick=[STREAM] + _gen("s_", 0, [1]),
    bounds="texts of at most 4 arbitrary characters for the primitives; %d grammars (hx/gen/src), texts of at most 3 to 10 arbitrary characters each" % len(CORPUS),
    outside="other grammars and longer texts",
    compile_violation=corpus_rejected,
)
CALLED = [
    R("core", "h_called3", "every expression of up to 3 nodes, each node unlabelled or with one of 7 labels", covers=[1, 2, 3, 9]),
    R("core", "h_called4", "every expression of 4 nodes, each node unlabelled or with one of 4 labels", covers=[1, 2, 3, 9]),
    R("core", "h_called5", "every expression of 5 nodes, each node unlabelled or with one of 2 labels", covers=[1, 2, 3, 9]),
    R("core", "h_called_wide", "sequences and choices of 3, 5 and 11, alike and unlabelled parts in turns, two with any of 4 labels", covers=[1, 2, 3], time=240),
    R("core", "h_called_many", "sequences and choices of 12 to 26 parts, alike or unlabelled but for two with any of 2 labels", covers=[1, 2, 3, 6], time=240),
    R("core", "h_called_shared5", "every expression of up to 5 nodes over 2 letters, with up to 2 labels of 3", covers=[1, 2, 3, 4, 5, 6, 9]),
    R("core", "h_called_shared7", "every expression of 7 nodes over 3 letters", covers=[1, 3, 4, 6, 9]),
    R("core", "h_called_twice", "every part of up to 4 nodes twice, also within a fixed point, or with another of up to 2, a label anywhere", covers=[1, 2, 3, 4, 5, 6, 9]),
    R("core", "h_called_under", "every part of up to 5 nodes under equal and different fixed points", covers=[1, 2, 3, 4, 5, 6, 9]),
    R("front", "h_goal", "every grammar of up to 4 nodes, its goal with a label or without", covers=[1, 2, 3, 9]),
]
PROPS["C21"] = dict(
    quick=CALLED,
    bounds="labelled expressions of at most 5 nodes, unlabelled ones of 7, equal parts of up to 5 in one frame; sequences and choices of up to 26 in one shape",
    outside="larger expressions, other labels",
    assumptions=CORE_ASSUMPTIONS,
)
PROPS["C22"] = dict(
    quick=[
        R("chewed", "h_message", "every kind of error of 7 sets, 5 texts, 8 characters, 9 positions", covers=[1]),
        R("chewed", "h_message_long", "sets of up to 40 characters, found and expected texts of 23 lengths up to 112", covers=[1]),
        R("chewed", "h_message_parse", "every text of up to 4 characters of 6", covers=[1, 9]),
        R("core", "h_msg_count", "functions of up to 12 parameters, calls of up to 12 arguments", covers=[1]),
        R("core", "h_msg_name", "names of up to 3 arbitrary small letters, or of 1 and up to 98 more", covers=[1, 2]),
        R("core", "h_msg_escape", "every number that is no character", covers=[1]),
        R("where", "h_where_kinds", "pairs of 10 kinds of mistakes", covers=[1]),
        R("where", "h_where_fun4", "every function of up to 4 nodes, called in 4 contexts with 4 arguments", covers=[9, 10, 12, 13, 14]),
        R("where", "h_where_type5", "every grammar of 5 nodes of the typed fragment over 2 letters, on one line and on many", covers=[9, 10, 12, 13, 14]),
        R("where", "h_where_name", "every grammar of up to 5 nodes with undeclared names, misplaced functions and fixed points", covers=[1, 2, 3]),
        R("where", "h_where_call", "calls of functions and of others with one or two arguments, in 4 contexts", covers=[18, 19]),
        R("where", "h_where_result", "uses of functions and calls whose result is one, functions as arguments, in 5 contexts", covers=[9, 13, 16]),
        R("where", "h_where_wide", "sequences and choices of up to 21, three in a row of 5 kinds, on one line and on many", covers=[9, 10, 11, 12, 13]),
    ],
    bounds="the errors of parsers at 9 positions with sets of up to 40 and texts of up to 112 characters; rejected grammars of at most 5 nodes; numbers of arguments up to 12, names of up to 99 letters",
    outside="the wording apart from what is named, quoted and counted; errors of syntax, which syn or the self-hosted parser words",
    assumptions=["syn and proc_macro2 are executed too"],
)
PROPS["C23"] = dict(
    quick=[
        R("core", "h_alike3", "pairs of expressions of up to 3 nodes, one node labelled or none", covers=[1, 2]),
        R("core", "h_alike_wide", "pairs of sequences, choices, calls and functions of up to 7 parts, arguments or parameters", covers=[1, 2, 3]),
        R("core", "h_alike_many", "sequences, choices, calls and literals of 7 to 33 parts against ones that differ in one part, in the order of two or by one part less, typed as well", covers=[1, 2, 3, 4]),
        R("core", "h_alike34", "expressions of 3 nodes against expressions of 4 and 5", covers=[1]),
        R("core", "h_alike4", "pairs of expressions of 4 nodes", covers=[1, 2]),
        R("core", "h_alike_typed3", "pairs of well-typed expressions of up to 3 nodes, equal ones with up to 2 labels each", covers=[1, 2, 9]),
        R("core", "h_alike_typed4", "pairs of well-typed expressions of 4 nodes", covers=[1, 2, 9]),
    ],
    bounds="pairs of expressions of at most 4 nodes, of up to 33 parts that differ in one or two",
    outside="larger expressions; functions and bindings whose names of parameters differ",
    assumptions=CORE_ASSUMPTIONS,
)

PROPS["C24"] = dict(
    quick=[
        R("cli", "h_cli_tree3", "every grammar of up to 3 nodes, written out", covers=[1, 2]),
        R("cli", "h_cli_tree4", "grammars of 4 nodes with functions, bindings and undeclared names", covers=[1, 2]),
        R("cli", "h_cli_tree5", "grammars of 5 nodes likewise", covers=[1, 2]),
        R("cli", "h_cli_text", "up to 3 arbitrary characters of 12 in place of the goal", covers=[1, 2]),
        R("cli", "h_cli_read", "input that arrives in pieces, is interrupted or breaks off anywhere", covers=[1, 2, 4]),
        R("cli", "h_cli_bytes", "arbitrary bytes within the grammar, UTF-8 or not", covers=[1, 2, 4]),
        R("cli", "h_cli_write", "output that takes only a part, in pieces", covers=[1, 3]),
        R("cli", "h_cli_large", "grammars whose code exceeds every buffer", covers=[1, 2]),
    ],
    bounds="grammars of at most 5 nodes, or of a fixed frame with up to 3 characters or bytes replaced; input in pieces of 1 to 7 bytes; output that fails after any of a range of lengths",
    outside="larger grammars; failing standard error; command-line arguments (the programs take none)",
    assumptions=CORE_ASSUMPTIONS + ["standard input, output and error are line-buffered stand-ins that behave as the standard library documents (hx/cli/src/fake.rs)"],
)

PROPS["C26"] = dict(
    quick=[
        R("bench", "h_lalr_arith5", "every text of up to 5 characters of 10", covers=[1, 2, 9]),
        R("bench", "h_lalr_arith6", "every text of 6 characters of 8", covers=[1, 9]),
        R("bench", "h_lalr_long", "every two operators between 9 numbers, long ones among them", covers=[1, 2]),
        R("bench", "h_lalr_shape5", "every text of up to 5 characters of 9", covers=[1, 9]),
        R("bench", "h_lalr_object", "every text of up to 5 characters of 7 at the end of an object", covers=[1, 9]),
        R("bench", "h_lalr_number", "every text of up to 5 characters of 8", covers=[1, 9]),
        R("bench", "h_lalr_string", "every text of up to 4 characters of 15 inside of a string", covers=[1, 9]),
        R("bench", "h_lalr_unicode", "every text of up to 4 characters of 14 in a Unicode escape", covers=[1, 2, 9]),
        R("bench", "h_lalr_pair", "pairs of escapes at the bounds of the surrogates", covers=[1, 2]),
        R("bench", "h_lalr_words", "the three literals with up to 2 characters in place of any", covers=[1, 9]),
        R("bench", "h_lalr_much", "lists, nestings, strings and numbers of up to 40 parts in 9 shapes, with a character more at 5 places", covers=[1, 9]),
    ],
    bounds="texts of up to 6 characters of small alphabets; longer ones in given shapes",
    outside="longer texts, other characters; what is not JSON and has strings, on which the parser may panic; white space other than that of JSON",
    assumptions=["a system of one processor (the regex crate sizes its caches by it)"],
)

PROPS["C25"] = dict(
    quick=[
        R("cli", "h_macro_tree3", "every grammar of up to 3 nodes", covers=[1, 2]),
        R("cli", "h_macro_tree4", "grammars of 4 nodes with functions, bindings and undeclared names", covers=[1, 2]),
        R("cli", "h_macro_tree5", "grammars of 5 nodes likewise", covers=[1, 2]),
        R("cli", "h_macro_tokens", "up to 3 tokens of 13 on one line or many in place of the goal", covers=[1, 2]),
        R("cli", "h_macro_tokens_any", "up to 3 tokens of 13 and nothing else; tokens of other kinds anywhere", covers=[1, 2]),
        R("cli", "h_macro_much", "grammars of up to 26 lines, one of which has a mistake of any of 10 kinds or none", covers=[1, 2]),
    ],
    bounds="grammars of at most 5 nodes, or of a fixed frame with up to 3 tokens replaced, or of 26 lines with one mistake",
    outside="larger grammars; the compiler's own token type",
    assumptions=["the macro's source is built with proc_macro2's tokens (with locations) in place of the compiler's, which exist only within rustc"],
)
