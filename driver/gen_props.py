#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (both are committed)."""
import json, os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "driver"))
from jobs import PROPS

L = []


def P(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    L.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


P("D01", "Matching decides exactly the language of the regex",
  "For every regex built from bytes, byte sets, concatenation, union, intersection, complement, repetition and the empty and never-matching regexes, and every byte string, matching from the beginning to the end of the string answers yes exactly when the string is in the language the regex denotes. The answer does not depend on simplification, alphabet compression, lazily built states or dead-state detection.",
  ["inputs", "programs"], "all regexes over the operators and all byte strings",
  "The tests match a few dozen strings against a few dozen regexes; a wrong rewrite shows only on particular combinations of operators and bytes.",
  ["src/simplify.rs", "src/deriv.rs", "src/regex.rs", "src/bytecompress.rs", "src/relevance.rs"],
  [("rewriting constructors", "src/simplify.rs mk_*"), ("derivatives", "src/deriv.rs"), ("lazy automaton", "src/regex.rs transition")],
  [("state table", "memoised transitions, MISSING until computed", "src/regex.rs state_table")],
  ["Regex::is_match_bytes", "Regex::is_match"])
P("D02", "The rewriting constructors preserve the language",
  "Building a union, an intersection or a concatenation from any list of arguments, in any order and with any repetitions, gives an expression denoting exactly the union, intersection or concatenation of the arguments' languages. This covers flattening, sorting, removal of duplicates and of absorbed or neutral arguments, merging of byte sets, and factoring of common prefixes. The order and repetition of the arguments of a union or intersection make no difference to what is built.",
  ["inputs", "programs"], "all lists of argument expressions and all words",
  "The rewrites fire on specific argument patterns (complements of each other, overlapping byte sets, shared prefixes of different lengths); tests use a handful of fixed ones.",
  ["src/simplify.rs"],
  [("mk_or with prefix trie", "src/simplify.rs mk_or, trie_rec"), ("mk_and", "src/simplify.rs mk_and"), ("mk_concat", "src/simplify.rs mk_concat")],
  observe=["raw::ExprSet::mk_or", "mk_and", "mk_concat"])
P("D03", "Byte-set operations are the set operations of the alphabet",
  "Union, intersection, difference, complement and complement of a union of byte sets, and the conversion of bit patterns to byte-set expressions, contain exactly the symbols that set algebra over the alphabet says, for every alphabet size up to 256. The results are canonical: the empty set is the never-matching expression, and equal sets are the same expression.",
  ["inputs", "configurations"], "all pairs of byte sets, all symbols, all alphabet sizes",
  "There are 2^256 byte sets, and tests use a few with the full alphabet; the alphabet after compression has any size.",
  ["src/simplify.rs", "src/ast.rs"],
  [("byte set constructors", "src/simplify.rs mk_byte_set*"), ("byteset_* helpers", "src/ast.rs")],
  observe=["raw::ExprSet::mk_byte_set", "mk_byte_set_not", "mk_byte_set_sub"])
P("D04", "The derivative of an expression is its left quotient",
  "For every expression and every symbol, the derivative denotes exactly the words that, after that symbol, are in the expression's language. This holds for every repetition count, bounded or not, and for iterated derivatives.",
  ["inputs", "programs"], "all expressions (with all repeat counts) and all words",
  "Tests take derivatives only implicitly, along a few strings; counts at 0, 1, the maximum and 'unbounded' and nullable prefixes in concatenations interact.",
  ["src/deriv.rs", "src/simplify.rs"],
  [("derivative rules", "src/deriv.rs derivative"), ("repeat counting", "src/simplify.rs mk_repeat")],
  observe=["raw::DerivCache::derivative"])
P("D05", "Nullability is exact and the non-empty mark is sound",
  "An expression is reported as accepting the empty word exactly when its language contains the empty word. An expression marked as known to be non-empty really has a word in its language, and so has everything derived from it that is so marked.",
  ["inputs", "programs"], "all expressions and their derivatives",
  "The flags are computed bottom-up through the rewriting constructors; a wrong flag shows only when a particular shape is rewritten or matched to its end.",
  ["src/ast.rs", "src/simplify.rs"],
  [("flags of each constructor", "src/simplify.rs mk_*"), ("flag encoding", "src/ast.rs ExprFlags")],
  observe=["raw::ExprSet::is_nullable", "raw::ExprSet::is_positive"])
P("D06", "The emptiness test is exact",
  "Without a limit on work, an expression is reported non-empty exactly when some word is in its language. The answer is the same whatever was asked before with the same caches.",
  ["inputs", "programs", "histories"], "all expressions, all earlier queries",
  "Emptiness of intersections and complements needs a search over symbolic derivatives that tests run on a few expressions.",
  ["src/relevance.rs"],
  [("symbolic derivatives", "src/relevance.rs deriv, make_disjoint"), ("search", "src/relevance.rs is_non_empty_limited")],
  [("relevance cache", "expressions known (non-)empty", "src/relevance.rs relevance_cache")],
  ["raw::RelevanceCache::is_non_empty"])
P("D07", "The dead state is entered exactly when no continuation can match",
  "After any input, the automaton is in the dead state exactly when no continuation of the input is accepted, and a regex is reported as always empty exactly when it accepts nothing. From the dead state every byte leads to the dead state, which accepts nothing.",
  ["inputs", "programs"], "all regexes, all inputs, all continuations",
  "It quantifies over all continuations; callers stop on the dead state, so a wrong one loses matches or loops.",
  ["src/regex.rs", "src/relevance.rs"],
  [("emptiness check of every new state", "src/regex.rs transition_inner, new_with_exprset")],
  [("StateID::DEAD", "row 0 of the state table", "src/regex.rs")],
  ["StateID::is_dead", "Regex::always_empty"])
P("D08", "Every expression has finitely many derivatives, and few for small ones",
  "Unions and intersections are identified up to the order and repetition of their arguments (intersections also up to grouping), so that derivatives do not multiply. Taking derivatives of an expression by all symbols repeatedly reaches a fixed, finite set of expressions, so the automaton is finite and every search through it ends. The simplifications keep that set small: for expressions with two or three operators it stays within the stated bounds.",
  ["inputs", "programs"], "all expressions",
  "A lost simplification leaves all answers right and makes particular expressions blow up; tests would only run longer or not touch them.",
  ["src/simplify.rs", "src/deriv.rs"],
  [("normal forms", "src/simplify.rs mk_or, mk_and, mk_concat")],
  observe=["raw::DerivCache::derivative", "raw::ExprSet::len"])
P("D09", "The containment check is exact",
  "One regex is reported to be contained in another exactly when every byte string the first accepts is accepted by the second. A limit on the work can turn the answer into an error but never into a wrong answer.",
  ["inputs", "programs"], "all pairs of regexes, all byte strings, all limits",
  "It quantifies over all strings and pairs; tests ask it about a few pairs.",
  ["src/regexbuilder.rs", "src/relevance.rs"],
  [("emptiness of small & ~big", "src/regexbuilder.rs is_contained_in")],
  observe=["RegexBuilder::is_contained_in"])
P("D10", "Work limits only ever turn answers into errors",
  "With any limit, a bounded emptiness test or regex construction either fails or gives the same answer as without a limit, and if it succeeds with some limit it succeeds with every larger one. Running out leaves the caches usable, the limit does bound the work done, and the spent cost never decreases.",
  ["inputs", "configurations", "histories"], "all expressions, all limits, queries after a failure",
  "Tests use one or two limits; the interesting ones are just where the search stops.",
  ["src/relevance.rs", "src/regexbuilder.rs", "src/regex.rs", "src/ast.rs"],
  [("cost accounting", "src/ast.rs pay, cost"), ("limit check", "src/relevance.rs is_non_empty_limited")],
  observe=["raw::RelevanceCache::is_non_empty_limited", "RegexBuilder::to_regex_limited"])
P("D11", "Next-byte information is sound",
  "When a state is reported to force a byte, no other byte leads on to a match; when it is reported to force the end of input, it accepts and no byte leads on to a match; when it is reported dead, it neither accepts nor leads on. Combining two such reports for the intersection or union of two states is sound in the same sense.",
  ["inputs", "programs"], "all regexes, all reachable states, all bytes",
  "It speaks of all the bytes not taken; tests look at a few states of a few regexes.",
  ["src/nextbyte.rs", "src/regex.rs", "src/ast.rs", "src/bytecompress.rs"],
  [("per-operator rules", "src/nextbyte.rs"), ("lattice", "src/ast.rs NextByte"), ("translation of compressed symbols back", "src/regex.rs next_byte, AlphabetInfo::inv_map")],
  observe=["Regex::next_byte", "raw::NextByteCache::next_byte"])
P("D12", "A look-ahead's reported length is that of its shortest match",
  "For a regex A followed by a final look-ahead B, a string is accepted exactly when it splits into a part matching A and a rest matching B, and the length reported is that of the shortest such rest. Without a look-ahead the reported length of a match is zero. The possible look-ahead length of an expression bounds what follows: a length reported k bytes later is at most that plus k.",
  ["inputs", "programs"], "all A and B without look-aheads, all byte strings",
  "All ways of splitting all strings matter; tests check one pair of expressions on a handful of strings.",
  ["src/ast.rs", "src/simplify.rs", "src/deriv.rs", "src/regex.rs", "src/syntax.rs"],
  [("offset in the look-ahead node", "src/deriv.rs Lookahead"), ("choice of the shortest", "src/ast.rs lookahead_len"), ("nested look-aheads in unions", "src/simplify.rs mk_or")],
  observe=["Regex::lookahead_len_bytes", "Regex::lookahead_len_for_state"])
P("D13", "The prefix operator accepts exactly the prefixes",
  "The prefixes of a regex are exactly the words that some continuation completes to a word of the regex, the words themselves and, if there are any, the empty word included.",
  ["inputs", "programs"], "all expressions, all words",
  "It quantifies over all continuations and expressions; the tests have none for expressions built by hand.",
  ["src/simplify.rs", "src/deriv.rs"],
  [("mk_prefixes", "src/simplify.rs"), ("derivative commutes", "src/deriv.rs Prefixes")],
  observe=["raw::ExprSet::mk_prefixes", "RegexAst::Prefixes"])
P("D14", "Answers do not depend on what was asked before",
  "Whatever was asked of a regex, its clones, its builder or other regexes sharing its expressions before, every later query gives the answer a fresh regex would give. Feeding a word in pieces, one byte at a time, or again from the start reaches the same state, and the same state is always named the same.",
  ["histories", "inputs"], "all histories of queries before all queries",
  "There are unboundedly many histories; caches, lazily filled tables and shared expression sets make wrong answers depend on them.",
  ["src/regex.rs", "src/deriv.rs", "src/relevance.rs", "src/nextbyte.rs", "src/ast.rs", "src/hashcons.rs"],
  [("memo tables", "src/deriv.rs, src/relevance.rs, src/nextbyte.rs"), ("state table growth", "src/regex.rs append_state")],
  [("state_table", "lazily computed transitions", "src/regex.rs"), ("state_descs", "lazily computed acceptance", "src/regex.rs")],
  ["Regex::transition", "Regex::is_match_bytes", "Regex::lookahead_len_bytes"])
P("D15", "The exported transition table is the automaton",
  "Walking the exported byte-class map and transition table from the initial row along any byte string reaches the dead row exactly when the automaton is dead there, and otherwise the row of the automaton's state. The table is complete: it names a row that exists for every row and every class.",
  ["inputs", "programs"], "all regexes the export accepts, all byte strings",
  "No test looks at the content of the export.",
  ["src/regex.rs"],
  [("exploration over representatives of the byte classes", "src/regex.rs dfa")],
  observe=["Regex::dfa"])
P("D16", "Alphabet compression never changes which bytes match",
  "Bytes are merged into one class only if the regex cannot tell them apart, for every number of classes from 1 to 256, and every byte has a class below the alphabet's size. Sets and bytes of the regex are translated to exactly the classes of their members.",
  ["inputs", "programs", "configurations"], "all collections of byte sets, all 256 bytes",
  "The merging depends on the whole collection of byte sets; tests have a few classes, never as many as 64 or 256.",
  ["src/bytecompress.rs", "src/regex.rs"],
  [("partition refinement", "src/bytecompress.rs compress"), ("mapping and its inverse", "src/regex.rs AlphabetInfo")],
  observe=["Regex::alpha", "AlphabetInfo::map", "AlphabetInfo::inv_map", "Regex::is_match_bytes"])
P("D17", "Regexes compressed together keep their own languages",
  "When several regexes share one compressed alphabet, each of them still accepts exactly its own language when run through the common byte classes.",
  ["inputs", "programs"], "all lists of regexes, all byte strings",
  "No test compresses more than one regex at a time.",
  ["src/regex.rs", "src/bytecompress.rs"],
  [("from_exprset with a list", "src/regex.rs AlphabetInfo::from_exprset")],
  observe=["AlphabetInfo::from_exprset"])
P("D18", "Hash-consing gives one number per distinct vector",
  "Inserting a vector of words gives the number of the earlier equal vector if there is one and otherwise the next free number, however the vector is handed over and whatever the hash values. Every vector ever inserted can be read back unchanged under its number.",
  ["inputs", "histories"], "all sequences of insertions of all vectors, all hash functions",
  "Failures need colliding hashes, equal prefixes, empty vectors or growth at a particular moment.",
  ["src/hashcons.rs"],
  [("finish_insert", "src/hashcons.rs"), ("backing vector", "src/hashcons.rs")],
  [("curr_elt", "vector being written", "src/hashcons.rs")],
  ["raw::VecHashCons::insert", "start_insert", "push_u32", "finish_insert", "get"])
P("D19", "JSON quoting accepts exactly the JSON spellings of the language",
  "The JSON-quoted form of a regex accepts exactly the JSON string spellings, with the given set of allowed escapes and with or without the surrounding quotes, of the strings the regex accepts, as far as they can be spelled; characters that have to be escaped are never accepted unescaped. Regexes that cannot be quoted are refused with an error.",
  ["inputs", "programs", "configurations"], "all regexes without complement and intersection, all sets of allowed escapes, all byte strings",
  "The escapes of each byte under each option set are a table with many corners; tests check a few strings under a few options.",
  ["src/regexbuilder.rs"],
  [("quote_byteset", "src/regexbuilder.rs"), ("json_quote", "src/regexbuilder.rs")],
  observe=["RegexBuilder::json_quote"])
P("D20", "Parsed patterns mean what regex syntax says",
  "Every supported pattern accepts exactly the byte strings the usual regex semantics gives it, matched against the whole input: classes, case folding, the dot and its newline option, anchors at the ends, bounded and unbounded, greedy and lazy repetition, groups, alternation, Unicode and byte mode. Anything that cannot be represented is refused with an error and never silently changed.",
  ["inputs", "programs", "configurations"], "all patterns of the supported syntax, all options, all byte strings",
  "The translation has a case per syntax node and option; tests cover a few patterns with few strings each.",
  ["src/syntax.rs", "src/regexbuilder.rs"],
  [("translation of the parsed pattern", "src/syntax.rs"), ("parser options", "src/regexbuilder.rs")],
  observe=["Regex::new", "RegexBuilder::mk_regex"])
P("D21", "Unicode classes accept exactly the UTF-8 encodings of their members",
  "A class of Unicode characters accepts exactly the UTF-8 encodings of its members and no other byte string: no overlong forms, no surrogates, nothing beyond the last code point, no truncated or extended sequences. This also holds when classes are repeated, joined, intersected and complemented.",
  ["inputs", "programs"], "all ranges of characters, all byte strings",
  "There are a million characters and far more ill-formed sequences; tests use a few characters.",
  ["src/syntax.rs", "src/simplify.rs"],
  [("range to byte sequences", "src/syntax.rs"), ("merging of byte sequences", "src/simplify.rs mk_or trie")],
  observe=["Regex::is_match_bytes"])
P("D22", "The builder refuses malformed input with an error",
  "A builder handed a reference to an expression it does not hold, a byte set of the wrong size or a pattern that cannot be parsed or represented returns an error, and never panics or builds something else. Afterwards it still works, and what it has built before is unchanged; a valid reference stands for exactly the expression it names.",
  ["inputs"], "all reference values, sizes of byte sets, patterns",
  "Tests do not try malformed input.",
  ["src/regexbuilder.rs", "src/ast.rs"],
  [("checks in mk", "src/regexbuilder.rs mk")],
  observe=["RegexBuilder::mk", "RegexBuilder::mk_regex"])
P("D23", "A forced prefix is only reported when it is forced",
  "When an expression is reported to match only strings that start with given bytes, every string it accepts does start with those bytes. The empty prefix is always reported as forced.",
  ["inputs", "programs"], "all expressions, all byte strings as prefix and as input",
  "It speaks of all accepted strings; no test calls it.",
  ["src/ast.rs"],
  [("syntactic check", "src/ast.rs has_simply_forced_bytes")],
  observe=["raw::ExprSet::has_simply_forced_bytes"])
P("D24", "The tree mapper visits every node once, children first",
  "Mapping over a tree of any shape calls the function exactly once per node, after all its children and with their results in order, and returns the result of the root. The first error ends it and is returned.",
  ["inputs", "programs"], "all finite trees, all functions",
  "All shapes of trees, and errors at every node; no test uses it directly.",
  ["src/mapper.rs"],
  [("explicit stack", "src/mapper.rs map_ast")],
  observe=["map_ast"])
P("D25", "Large and deeply nested regexes work like small ones",
  "Size does not change meaning: unions of hundreds of literals with long common prefixes, repetitions with counts in the hundreds and nestings hundreds deep accept exactly their language. Building and matching them needs no deep recursion.",
  ["inputs", "programs"], "all sizes and positions of differences",
  "Thresholds in the simplifications (recursion limits, arrays, counters) are crossed only by large input; tests are small.",
  ["src/simplify.rs", "src/regexbuilder.rs", "src/ast.rs", "src/deriv.rs"],
  [("depth limit of the prefix factoring", "src/simplify.rs trie_rec"), ("iterative mapping", "src/ast.rs map, src/mapper.rs")],
  observe=["Regex::is_match_bytes"])
P("D26", "Printed forms are complete and mean what they print",
  "Printing an expression or a syntax tree never fails, whatever the alphabet and the limit on the length. When nothing is cut off, what is printed, read back by the notation, denotes the language of the expression: every byte, byte set, literal, repetition count and operator is there, byte sets list exactly their members, and after compression the classes are listed with exactly their bytes. A limit the output fits in changes nothing.",
  ["inputs", "configurations"], "all expressions, byte sets, alphabet sizes and limits",
  "Printed forms serve debugging and error messages and no test looks at them; ranges at the ends of words, quoted characters, full and empty sets and small alphabets are the special cases.",
  ["src/pp.rs", "src/ast.rs", "src/regexbuilder.rs"],
  [("printing of expressions", "src/pp.rs write_expr"), ("ranges of byte sets", "src/pp.rs byteset_to_string, symbolset_to_string"), ("printing of trees", "src/regexbuilder.rs write_to_str")],
  observe=["raw::ExprSet::expr_to_string", "raw::ExprSet::expr_to_string_with_info", "RegexAst::write_to_str"])
P("D28", "The ways of asking the same question agree",
  "A pattern means the same whether it is compiled by Regex::new, with an explicit parser, through a builder, as a syntax tree node or by reference; a literal is the same as a string, as bytes, as single bytes, as singleton sets or in pieces. For a compiled regex, asking about text, about its bytes, byte by byte, in pieces or through states gives one answer, also in a clone; state numbers survive being numbered, tagged and compared. The classes of bytes are consistent: bytes of one class lead to the same state, and a class is said to stand for one byte exactly when it does. All ways of asking for containment agree.",
  ["inputs", "programs"], "all regexes, all strings, all bytes and states",
  "Each entry point is tested on its own examples, most of them only through is_match; agreement is about every input.",
  ["src/regex.rs", "src/regexbuilder.rs", "src/syntax.rs", "src/simplify.rs"],
  [("entry points", "src/regex.rs new, new_with_parser, is_match, transition_bytes, lookahead_len"), ("tree nodes", "src/regexbuilder.rs mk"), ("classes", "src/regex.rs AlphabetInfo map, map_state, inv_map")],
  observe=["Regex::*", "RegexBuilder::mk", "AlphabetInfo::*", "StateID::*"])
P("D29", "Accounting only ever goes forward and follows use",
  "The cost and the memory estimate of a regex never decrease while it is used, a compiled regex starts with at least the cost of the expressions it came from, asking again for what has been computed costs nothing and takes no memory, and the statistics can be printed at any point without failing.",
  ["inputs", "histories"], "all regexes and all histories of transitions",
  "Callers limit work by these numbers; the tests do not look at them.",
  ["src/regex.rs", "src/ast.rs", "src/hashcons.rs", "src/deriv.rs"],
  [("cost", "src/ast.rs pay, cost"), ("estimates", "num_bytes of regex.rs, ast.rs, hashcons.rs, deriv.rs, nextbyte.rs"), ("statistics", "src/regex.rs stats")],
  observe=["Regex::cost", "Regex::num_bytes", "Regex::stats"])
P("D27", "Without alphabet compression regexes behave the same",
  "Built without the feature `compress`, matching, dead states, next bytes, look-ahead lengths, containment and the exported table answer exactly what the language of the regex says, as they do with the feature: every byte is its own class.",
  ["configurations", "inputs", "programs"], "all regexes and byte strings, in the configuration without compression",
  "The tests are only run with the default features.",
  ["src/regex.rs", "src/bytecompress.rs", "Cargo.toml"],
  [("the uncompressed alphabet", "src/regex.rs AlphabetInfo::from_exprset, map, map_state")],
  observe=["Regex::is_match_bytes", "Regex::transition", "Regex::dfa"])


def main():
    ids = [x["id"] for x in L]
    assert len(set(ids)) == len(ids) and set(ids) == set(PROPS), (set(ids) ^ set(PROPS))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in L:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    checks = []
    for x in L:
        p = x["id"]
        checks.append({
            "property": p,
            "quick_cmd": "python3 driver/check.py %s quick" % p,
            "thorough_cmd": "python3 driver/check.py %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": "bounded symbolic execution of the compiled LLVM IR of the real code, decided by Z3 over all values of the symbolic inputs",
            "level": "model_checking",
            "level_note": "Holds for every value within the bounds: %s. Outside: %s. Trusted: rustc's translation to LLVM IR, the executor (cross-checked by running sampled paths and every counterexample natively), Z3; the allocator and the hash function are modelled." % (PROPS[p]["bounds"], PROPS[p]["outside"] or "nothing further claimed"),
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 driver/setup.py",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hook in /repo is needed. Known findings and fixed defects: known-findings.txt.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
