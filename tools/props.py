#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below and tools/specs.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
import specs  # noqa: E402


def M(name, where):
    return {"name": name, "where": where}


P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": mech, "observe_at": observe, "hook_needed": None},
        }
    )


prop(
    "C01",
    "The reported position is the line and column of the next unread character",
    "While a generated parser reads a text, the position it reports is always the line and column of the next unread character: line 1 and column 0 before the first, the line counted by the line breaks read so far and the column by the characters read since the last one. Looking ahead never changes the position or the characters that follow, every character is delivered exactly once and in order, and reading at the end of the input changes nothing.",
    ["inputs", "histories"],
    "every text and every interleaving of looking ahead and reading, including reads past the end",
    "The tests check a handful of error positions in fixed inputs; no test reads past the end, looks ahead in other patterns or uses characters outside ASCII.",
    ["chewed/src/parse.rs", "chewed/src/position.rs"],
    [M("position update on each character read", "IterWrapper::next"), M("one-character lookahead", "IterWrapper::peek")],
    ["chewed::Parser::pos", "chewed::Parser::peek", "chewed::Parser::next"],
)
prop(
    "C02",
    "Matching a literal consumes exactly the literal or explains the mismatch",
    "Matching a literal against the input succeeds exactly if the remaining text starts with it, and then consumes the literal and nothing more. Otherwise it reports the first character that differs, with its position and the literal text expected, or an unexpected end if the input stops first. It never panics, whatever characters the literal and the text are made of.",
    ["inputs"],
    "every literal and every text, of characters of every encoded length",
    "Tests match ASCII literals only; a mismatch inside a literal with characters of more than one byte is never exercised.",
    ["chewed/src/parse.rs", "chewed/src/error.rs"],
    [M("character-wise comparison with the expected text", "Parser::consume_str")],
    ["chewed::Parser::consume_str", "chewed::error::TakeError"],
)
prop(
    "C03",
    "Character-set, skipping and repetition helpers take exactly what they describe",
    "Taking characters from a set fills the buffer with the next characters if all of them are in the set, and otherwise reports the first one that is not, at its position, without consuming it. Skipping removes the longest run of characters satisfying the predicate and nothing else. Repeated parsing of items set apart by a separator yields exactly the items up to the stop character, which it does not consume; anything else, a separator at the end included, is reported with what was found, what was expected and where.",
    ["inputs"],
    "every text, every character set, every buffer length, every item parser of one character",
    "Only the hand-written benchmark parsers use these helpers and no test calls them.",
    ["chewed/src/parse.rs"],
    [M("set check before consuming", "Parser::take_chars_from"), M("skipping", "Parser::skip_while"), M("repetition", "Parser::iter_strict, Iter")],
    ["chewed::Parser"],
)
prop(
    "C04",
    "Parsing a whole text accepts it only if nothing is left over",
    "A complete parse returns a value exactly if the type's parser succeeds on a prefix and that prefix is the whole text; a failure of the parser is returned unchanged and left-over text is reported with the position where it starts. The empty-string type consumes nothing, and boxing a type changes neither what it accepts nor what it consumes. Error messages start with the position of the error.",
    ["inputs"],
    "every text, for a type that can fail, the empty-string type and boxes of them; every error and position",
    "Tests parse a few complete inputs; left-over input, nested boxes and the text of errors are not checked over all inputs.",
    ["chewed/src/parse.rs", "chewed/src/error.rs", "chewed/src/position.rs"],
    [M("end-of-input check", "Parse::parse"), M("delegation", "impl Parse for Box<T>, impl Parse for Epsilon")],
    ["chewed::Parse::parse", "Display of chewed errors"],
)
prop(
    "C05",
    "A grammar is accepted exactly if the typing rules derive a type for it",
    "Type inference accepts a grammar exactly if the published typing rules for context-free expressions derive a type for it, and gives it exactly that type: whether it matches the empty string, which characters its words start with and which can extend them. A grammar that is not typable, including one with an unguarded recursive use, an undeclared variable, a function, call or binding left in it, or a fixed point over something other than a one-argument function, is rejected with the reason the rules give.",
    ["programs", "inputs"],
    "every grammar expression, of any shape and over any characters",
    "The test suite type-checks the grammars of a few examples; the rules must hold for every expression.",
    ["src/chomp/typed/infer.rs", "src/chomp/typed/context.rs", "src/chomp/typed/mod.rs", "src/chomp/set.rs", "src/chomp/ast/mod.rs"],
    [M("inference with guarded and unguarded contexts", "TypeInfer"), M("fixed-point iteration", "TypeInfer::fold_fix"), M("context", "Context::get_variable_type, with_unguard, with_variable_type")],
    ["chomp::chomp::visit::Folder for TypeInfer", "chomp::chomp::typed::Type"],
)
prop(
    "C06",
    "Accepted grammars are unambiguous and parsed by one character of lookahead",
    "For every accepted grammar, the inferred nullability and character sets cover the language the grammar denotes: the grammar is said to match the empty string exactly if it does, every word starts with a character of the first set, and every character that can extend a word to a longer one is in the follow-last set. No text has two derivations, and a parser that chooses branches only by those sets and one character of lookahead accepts exactly the words of the language.",
    ["programs", "inputs"],
    "every accepted grammar and every text over its alphabet",
    "Tests try a few grammars on a few texts; this is a theorem about all grammars and all texts on which the generated parsers rest.",
    ["src/chomp/typed/mod.rs", "src/chomp/typed/infer.rs", "src/chomp/typed/lower.rs", "src/chomp/set.rs"],
    [M("separability side conditions", "TypeInfer::fold_cat, TypeInfer::fold_alt"), M("types of sequences and choices", "Type::cat, Type::alt"), M("the typed tree handed to back ends", "TypedExpression::gen, Backend")],
    ["chomp::chomp::typed::Type", "chomp::chomp::typed::lower::Backend"],
)
prop(
    "C07",
    "Expanding function calls and bindings preserves the meaning of a grammar",
    "Reducing a grammar replaces every binding and every function call by its definition, substituting arguments without capturing variables and leaving everything else as it was, so that the result is the normal form of the expression. A call of something that is not a function and a call with the wrong number of arguments are reported as such, and nothing else is.",
    ["programs"],
    "every expression with functions, calls, bindings, fixed points and free variables, that has a normal form",
    "The tests expand the functions of three grammars; index arithmetic under several binders is only exercised where those grammars need it.",
    ["src/chomp/ast/mod.rs", "src/chomp/ast/substitute.rs", "src/chomp/ast/error.rs"],
    [M("call-by-name reduction", "Reduce"), M("capture-avoiding substitution", "Substitute, Translate")],
    ["chomp::chomp::visit::Folder for Reduce and Substitute"],
)
prop(
    "C08",
    "Names compare, hash, merge and convert consistently",
    "Two names are equal exactly if they are of the same kind and spell the same identifier, however that identifier was obtained, and equal names hash alike. Merging names keeps the most significant one (labels before bindings before variables, the earlier among equals) in any grouping. Converting a name for use in generated code always gives a valid identifier in the case asked for that depends only on the spelling.",
    ["inputs"],
    "every identifier, plain or raw, from source text or synthesised, and every combination of kinds",
    "Tests use ordinary names from one front end; raw identifiers, names of underscores and digits, and merging order are not sampled.",
    ["src/chomp/name.rs"],
    [M("equality and hashing", "impl PartialEq/Hash for Content"), M("merging", "Name::merge, Name::merge_all"), M("case conversion", "Name::to_camel_case, Name::to_snake_case")],
    ["chomp::chomp::name::Name"],
)
prop(
    "C09",
    "Character sets and types obey set algebra",
    "First sets and follow-last sets hold exactly the characters put into them, unions hold exactly the characters of both sides, disjointness means no character in common, and equality does not depend on how a set was built. The type of a literal, of a sequence and of a choice is computed from the parts by the published equations.",
    ["inputs"],
    "every set of characters and every pair of types",
    "No test looks at the sets; they are exercised only through a few grammars.",
    ["src/chomp/set.rs", "src/chomp/typed/mod.rs"],
    [M("sets", "FirstSet, FlastSet"), M("types", "Type::of_str, Type::cat, Type::alt")],
    ["chomp::chomp::set", "chomp::chomp::typed::Type"],
)
prop(
    "C10",
    "Generated code defines one consistent set of types shaped like the grammar",
    "For every accepted grammar the generated code never defines two types, fields or variants of one type under the same name, every type it mentions is defined, and the root type unfolds to exactly the shape of the grammar: sequences to structures with their parts in order, choices to enumerations of their branches, literals to the types of those literals, recursive uses to the type of their own fixed point. A branch is selected by exactly its first characters and only an empty-matching branch is the default.",
    ["programs", "inputs"],
    "every accepted grammar, including labelled and nested recursive ones with shared subexpressions",
    "Tests compile the code of a few grammars; name clashes and wrongly shared recursive types need particular combinations of labels and nesting.",
    ["src/lower/mod.rs", "src/chomp/typed/lower.rs", "src/chomp/name.rs"],
    [M("sharing of equal subexpressions", "RustBackend::get_or_create"), M("unique names", "RustBackend::emit_code"), M("branch selection", "Type definitions of alternations")],
    ["the token stream of RustBackend::emit_code"],
)

prop(
    "C11",
    "Generated parsers accept exactly the language of their grammar",
    "The parser generated from a grammar accepts a text exactly if the grammar derives it. Any other text is rejected with an error at the first character that no word continues with (or at the end of the text if more was needed), which names that character and lists as expected only characters that could have stood there, and all that the branches it had to choose among can start with. No text makes it panic.",
    ["inputs", "programs"],
    "every text, of any characters, for every grammar of a corpus written by hand and drawn at random",
    "No test runs a generated parser on a text it must reject, and the accepted ones are five files of one grammar.",
    ["src/lower/mod.rs", "src/nibble/convert.rs", "src/chomp/ast/substitute.rs", "src/chomp/typed/infer.rs", "chewed/src/parse.rs", "chomp-macro/src/lib.rs"],
    [M("take functions of generated types", "RustBackend::emit_code"), M("the whole pipeline of the macro", "chomp_macro::nibble"), M("lookahead and literals", "chewed::Parser")],
    ["Parse for the types the macro generates"],
)
prop(
    "C12",
    "Generated syntax trees are faithful to the text they were parsed from",
    "Printing the tree that a generated parser returns gives back the parsed text, character by character. Two trees of one grammar are equal exactly if they were parsed from equal texts, and a copy of a tree equals it. A tree of a grammar that is built from single-character literals with choices alone converts to the character that was parsed.",
    ["inputs", "programs"],
    "every accepted text, of any characters, for every grammar of a corpus written by hand and drawn at random",
    "No test prints or compares a tree.",
    ["src/lower/mod.rs", "chewed/src/parse.rs", "chomp-macro/src/lib.rs"],
    [M("Display, PartialEq and Clone of generated types", "RustBackend::emit_code"), M("conversion of one-character types", "From<...> for char in generated code")],
    ["Display, PartialEq, Clone and Into<char> of the types the macro generates"],
)
prop(
    "C13",
    "Both front ends read the same grammar notation and give the same expression",
    "Every text that the self-hosted front end accepts is accepted by the macro's front end, and conversely every grammar of tokens set apart by white space whose names are ASCII letters, digits and underscores that start with a letter, and whose literals are non-empty and hold printable ASCII characters and escapes without underscores. On such a text both give the same expression with the same labels and names, or both report the same undeclared name, and neither panics. Printing the self-hosted syntax tree gives the text it was read from, and the macro's syntax tree gives back its tokens.",
    ["inputs", "programs"],
    "every sequence of tokens or characters, and every grammar in several layouts",
    "The tests compare the two front ends on five files.",
    ["src/nibble/mod.rs", "src/nibble/convert.rs", "autonibble/src/lib.rs", "src/lower/mod.rs"],
    [M("recursive-descent parser over tokens", "Parse for Statement and its parts"), M("self-hosted grammar and its conversion", "autonibble::Ast"), M("escape sequences", "Contents1 and Escape1 in autonibble")],
    ["syn::parse of a grammar", "autonibble::Ast", "Convert::convert"],
)
prop(
    "C14",
    "Names in a grammar resolve lexically to their innermost binder",
    "Every use of a name in a grammar means the innermost enclosing binding or parameter of that name: a parameter is visible in the body of its function only, a binding in what follows it but not in its own definition. A grammar is rejected for an undeclared name exactly if some name is used outside of the scope of all of its binders, and the name reported is such a one. Everything else about the grammar (its shape, literals, labels, the names of bindings and parameters) is kept as written.",
    ["programs", "histories"],
    "every grammar with bindings, functions of one or two parameters, labels and shadowing, and every sequence of operations on a scope",
    "The tests convert five files that never shadow a name and never use an undeclared one.",
    ["src/nibble/convert.rs", "src/nibble/mod.rs"],
    [M("scopes", "Context::lookup, push_variable, with_variable, with_variables"), M("conversion to expressions", "impl Convert for ...")],
    ["chomp::nibble::convert::Convert", "chomp::nibble::convert::Context"],
)
prop(
    "C15",
    "The arithmetic parsers compute the value of every expression",
    "The generated and the hand-written arithmetic parser accept the same texts: numbers, negated numbers and parentheses combined by the four operators, with spaces between tokens. Both give the value of an accepted expression, with products before sums, operators grouped to the left and quotients rounded towards zero, whenever no part of it divides by zero or leaves the range of 64-bit integers. Both reject any other text at its first character that no expression continues with, or at its end if more was needed, and what they expected could have stood there.",
    ["inputs"],
    "every text",
    "No test runs these parsers; the benchmarks run them on accepted texts and ignore the value.",
    ["chomp-bench/src/arith/mod.rs", "chomp-bench/src/arith/nibble.rs", "chewed/src/parse.rs"],
    [M("hand-written recursive descent", "parse_expr, take_expr, take_product, take_term, take_number"), M("evaluation of the generated tree", "From<Ast> for i64")],
    ["chomp_bench::arith::parse_expr", "chomp_bench::arith::nibble::Ast"],
)
prop(
    "C16",
    "The JSON parsers read the value that was written and printing keeps it",
    "The generated JSON parser accepts exactly the JSON texts whose strings are of printable ASCII characters; both it and the hand-written parser give the value that such a text denotes, as long as every escape sequence denotes a character. A text without malformed numbers, strings or escapes that is not JSON is rejected by both, at the first character that no JSON text continues with, or at its end. A value printed and read back by either parser is the same value, if its numbers are finite and, for the generated parser, its strings are ASCII.",
    ["inputs"],
    "every text, and every value to be printed",
    "No test runs these parsers; the benchmarks run them on ten accepted texts and ignore the value.",
    ["chomp-bench/src/json/mod.rs", "chomp-bench/src/json/nibble.rs", "chewed/src/parse.rs"],
    [M("hand-written parser", "Parse for Value"), M("values of the generated tree", "From<Ast> for Value, Iterator for Opt5"), M("printing", "Display for Value"), M("surrogate pairs", "decode_pair")],
    ["chomp_bench::json::Value", "chomp_bench::json::nibble::Ast"],
)

prop(
    "C17",
    "The code generated for a grammar depends on nothing but the grammar",
    "Generating code for the same grammar again gives the same code, token for token, and rejecting it again gives the same error. Neither the grammars that were processed before nor the seeds of hash tables nor any other state of the process have an influence.",
    ["programs", "histories"],
    "every grammar, every grammar processed before, every seed",
    "The tests generate code once for a grammar and never compare two runs.",
    ["src/lower/mod.rs", "src/chomp/typed/infer.rs", "src/chomp/set.rs"],
    [M("order in which types are emitted", "RustBackend::emit_code"), M("sharing and numbering of types", "maps of RustBackend")],
    ["Backend::emit_code", "GenerateCode::gen"],
)
prop(
    "C18",
    "A rejected grammar is reported at the place of the cause",
    "The error for a grammar that breaks a rule carries the location of a place where that rule is broken: for a sequence the dot after a first part that can be empty or before a part that the text before it can run into, for a choice the bar before a branch that clashes with an earlier one, for an undeclared name or a premature recursive use that very use. A misplaced function or the call it results from, a fixed point over something that is not a function and a call that cannot be expanded are reported at a range of text that holds nothing but them, parentheses around them and the statements they are the goal of. The compiler's message is shown at that location.",
    ["programs"],
    "every grammar, in several layouts",
    "No test looks at the location of an error.",
    ["src/nibble/convert.rs", "src/nibble/mod.rs", "src/chomp/typed/error.rs", "src/chomp/typed/infer.rs", "src/chomp/ast/substitute.rs", "src/chomp/ast/error.rs", "src/chomp/name.rs"],
    [M("locations of dots and bars are paired with the part after them", "Convert for Cat and Alt"), M("locations kept through expansion", "Reduce and Substitute"), M("errors to compiler errors", "From<TypeError>, From<ReductionError>, From<ConvertError> for syn::Error")],
    ["TypeError::span", "ConvertError", "ReductionError", "syn::Error::span"],
)
prop(
    "C19",
    "Labels and names survive the expansion of a grammar",
    "When the functions and bindings of a grammar are expanded, each part of the result carries one of the names that met at it: those of the part itself, of the calls, uses and functions it came through, and of the parameters and bindings it was put in place of. The one it carries is among the most significant of them, labels before bindings before parameters, and it carries none only if none met. Recursive definitions keep the names of their parameters.",
    ["programs"],
    "every expression with functions, calls, bindings and any labels",
    "The names decide what the generated types and fields are called; tests compare expressions with a comparison that ignores them.",
    ["src/chomp/ast/substitute.rs", "src/chomp/name.rs"],
    [M("merging of names on substitution and on calls", "Reduce, Substitute"), M("significance of names", "Name::merge")],
    ["Reduce", "Substitute", "NamedExpression::name"],
)

prop(
    "C20",
    "A parser reads its text once, in order, at most one character ahead",
    "Whatever a parser does, it asks its input for the characters one after the other, and never for more than one beyond those it has consumed; for that one only if what it has consumed could go on, or ends in a carriage return. What it has consumed when it stops, successfully or not, is the longest start of the text that some word of the grammar starts with, and what comes after is left to be read. So parsers work on streams and can be put one after the other.",
    ["inputs"],
    "every input, every primitive and every generated parser",
    "Tests parse complete strings in memory, for which reading ahead cannot be told from reading.",
    ["chewed/src/parse.rs", "src/lower/mod.rs"],
    [M("one character of lookahead", "IterWrapper::next, IterWrapper::peek"), M("generated decisions", "RustBackend::emit_code: take of alternatives")],
    ["IterWrapper", "Parser::take", "Parse::take"],
)
prop(
    "C21",
    "Generated types, fields and variants are called after the grammar's names",
    "The root of the generated code is called `Ast`; it, all types and their fields are public. A type, field or variant is called after the label, binding or parameter that its part of the grammar goes by, in the case that is usual for it, and after its kind if there is none (after the root if it is the goal); fields and variants called alike are numbered from one on in order, past numbers that are in use, and unnamed ones by their place. Parts that are equal share a type, called after the first of them, and the body of a recursive definition goes by the definition's name unless its own is at least as significant.",
    ["programs"],
    "every grammar with any labels",
    "Users write these names in their code; tests compile a few grammars and use few of the names.",
    ["src/lower/mod.rs", "src/chomp/name.rs", "src/chomp/typed/infer.rs"],
    [M("naming of types", "RustBackend::gen_cat, gen_alt, gen_literal, gen_fix"), M("numbering of fields and variants", "RustBackend::emit_code")],
    ["chomp_macro::nibble", "Backend::emit_code"],
)
prop(
    "C22",
    "Error messages say what was found, what was expected and what it is about",
    "The message of a failed parse quotes the character or text that was found and, in order, every character or the text that would have been accepted there, or says that the text ended or should have. The message for a rejected grammar gives the name that is undeclared or used too early, and how many arguments a function takes and how many were supplied; the compiler shows the same message. Different kinds of mistakes have different messages.",
    ["inputs", "programs"],
    "every error",
    "No test looks at a message.",
    ["chewed/src/error.rs", "src/chomp/ast/error.rs", "src/chomp/typed/error.rs", "src/nibble/convert.rs"],
    [M("messages of parsers", "Display for TakeError and ParseError"), M("messages about grammars", "Display for ConvertError, ReductionError, TypeError")],
    ["ParseError", "TakeError", "ConvertError", "ReductionError", "TypeError"],
)
prop(
    "C23",
    "Expressions are equal exactly if they are built alike",
    "Two expressions of a grammar are equal exactly if they are made of equal parts in the same order, whatever labels and locations they carry. Two type-checked expressions of equal structure and equal labels are equal and have equal hashes, and those of different structure, or of different labels without recursion, are not equal. A copy equals its original.",
    ["inputs"],
    "every pair of expressions",
    "Tests compare a handful of expressions that are equal.",
    ["src/chomp/ast/mod.rs", "src/chomp/typed/mod.rs", "src/chomp/name.rs"],
    [M("equality of expressions", "PartialEq for NamedExpression, Cat, Alt"), M("equality and hash of typed expressions", "PartialEq, Hash for TypedExpression")],
    ["NamedExpression", "TypedExpression"],
)

prop(
    "C24",
    "The compilers write the code of accepted grammars or report an error",
    "The command-line compilers read a grammar from standard input and, if it is accepted, write the code generated for it, whole and nothing else, to standard output and succeed. If the grammar is rejected, the input cannot be read or is not UTF-8, or the output cannot be written, they write the message of that error to standard error and exit with status 1; nothing is written to standard output for a rejected grammar. They never panic.",
    ["inputs", "programs", "fault_sequences"],
    "every text on standard input, every way it arrives in pieces, every point where reading or writing fails",
    "No test runs the programs.",
    ["src/main.rs", "autonibble/src/main.rs"],
    [M("the chomp program", "main"), M("the self-hosted program", "main")],
    ["main"],
)

prop(
    "C25",
    "The macro expands to the grammar's code or to the compiler's error",
    "The `nibble!` macro expands to exactly the code that is generated for its grammar if the grammar is accepted. For any other input, a grammar or not, it expands to a single error with the message of what is wrong, at the place that it is reported at, and to no code. It never panics.",
    ["inputs", "programs"],
    "every sequence of tokens",
    "Tests expand a few grammars that are accepted and none that is rejected.",
    ["chomp-macro/src/lib.rs"],
    [M("the macro", "nibble")],
    ["nibble"],
)

prop(
    "C26",
    "The LALRPOP baselines of the benchmarks parse the same languages",
    "The arithmetic parser made by LALRPOP accepts the same texts as the other two, if their only white space is spaces, and gives the same value whenever that is defined. The JSON parser made by LALRPOP gives the value that a JSON text denotes, whatever characters its strings are of, as long as every escape sequence denotes a character. A text without strings that is not JSON is rejected, but for numbers that have nothing after their point.",
    ["inputs"],
    "every text",
    "The benchmarks run the parsers on a few files and ignore what they give, and there are no tests; a comparison of their speed means something only if they do the same.",
    ["chomp-bench/src/arith/lalr.lalrpop", "chomp-bench/src/json/lalr.lalrpop", "chomp-bench/src/json/mod.rs"],
    [M("the grammars and their actions", "ExpressionParser, ValueParser"), M("surrogate pairs", "decode_pair")],
    ["chomp_bench::arith::lalr::ExpressionParser", "chomp_bench::json::lalr::ValueParser"],
)

LEVEL_NOTE = {}
TECH = "symbolic execution of the compiled LLVM IR of the real code, deciding branches and assertions with Z3; counterexamples replayed natively"
NOT_APPLICABLE = []



def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if p["id"] not in specs.PROPS:
            continue
        s = specs.PROPS[p["id"]]
        checks.append(
            {
                "property": p["id"],
                "quick_cmd": "env VERIF_TIER=quick ./check %s" % p["id"],
                "thorough_cmd": "env VERIF_TIER=thorough ./check %s" % p["id"],
                "technique": TECH,
                "level": "model_checking",
                "level_note": "Decided for all values within: %s. Outside: %s. Trusted: rustc's lowering to LLVM IR, the interpreter in engine/, Z3." % (s["bounds"], s["outside"]),
            }
        )
    claimed = {c["property"] for c in checks}
    na = [x for x in NOT_APPLICABLE]
    missing = {p["id"] for p in P} - claimed - {x["property"] for x in na}
    assert not missing, missing
    m = {
        "version": 1,
        "setup_cmd": "cargo build --release --offline --manifest-path engine/Cargo.toml --target-dir build/engine",
        "checks": checks,
        "not_applicable": na,
        "notes": "See DESIGN.md. The checks need no hooks in /repo: harness crates under hx/ use its public API.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
