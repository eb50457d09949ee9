#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the list lives here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

S="src/parsers/sequence.rs"; E="src/parsers/either.rs"; R="src/parsers/repeat.rs"; L="src/parsers/lines.rs"
T="src/traits.rs"; M="src/macros.rs"; C="src/context.rs"; MP="src/parsers/map.rs"; RS="src/parsers/rule_set.rs"
D="src/parsers/dynamic.rs"; PR="src/parsers/primitive.rs"; RX="src/parsers/regex.rs"; CH="src/parsers/chars.rs"
EX="src/parsers/exact.rs"; ST="src/parsers/string.rs"; CO="src/parsers/collections.rs"; TY="src/types.rs"
ER="src/error.rs"; U="src/util.rs"; EM="src/parsers/empty.rs"

p("C01","The most preferred match of the whole input is found",
  "Parsing a text succeeds exactly when some way of matching the pattern consumes the entire text; leftover text is never silently ignored. The value returned is the one for the most preferred such way, deciding left to right: earlier alternatives before later ones, more repetitions before fewer, an optional part present before absent, with earlier choices reconsidered whenever what follows cannot match. Numbers, lines and sections are indivisible: once matched at a place they are not re-matched differently.",
  ["inputs","programs"],"for every pattern built from the documented pieces (any nesting) and every input text",
  "Backtracking correctness depends on the interaction of pattern structure and text; the tests run about a hundred fixed pattern/text pairs, nearly all of which match without reconsidering any choice.",
  [S,E,R,T,EM,ST,MP],
  [("top-level loop that rejects matches not reaching the end of input",T),("tail-then-head backtracking",S),("left-then-right backtracking",E),("greedy post-order walk of repetitions",R)],
  ["result of Parser::parse"])
p("C02","Result shape follows the pattern's structure",
  "The value a pattern produces has a shape fixed by its structure: literal text contributes nothing, and the other adjacent subpatterns contribute their values in written order to one flat tuple (a bare value if there is one, unit if none). A parenthesised group, an alternation of several arms, a named pattern (rule or stored parser) and a built-in function-style pattern each contribute exactly one value. Each label before a conversion arrow receives the value of its own subpattern, however many there are and in whatever order they are used.",
  ["programs","inputs"],"for every pattern accepted by the pattern macro (up to 8 values side by side) and every text it matches",
  "The shape is computed by macro expansion and a matrix of tuple implementations over all arities; the tests touch only a few arities and orders.",
  [M,TY,S,MP,E],
  [("term stack, label stack and their reversal",M),("tuple concatenation matrix",TY),("flat versus paired sequencing",S),("single-value wrapping of groups",MP)],
  ["static type and value of the parse result"])
p("C03","Repetition lists every occurrence once, in order",
  "A repeated pattern produces a list with exactly one entry per matched occurrence, in text order, with none lost, duplicated or merged, at every length from zero (one, for `+`) to very many; an optional pattern produces a present value exactly when its part of the text was matched. In a separated repetition separators may appear only strictly between occurrences and contribute no entries. When what follows the repetition needs it, occurrences are given back one at a time from the end, and a given-back occurrence is absent from the list.",
  ["inputs","programs"],"for all repeated and separator patterns (including ones with several ways to match), all texts and all repetition counts",
  "The tests repeat simple patterns at most a dozen times and seldom make a repetition give anything back.",
  [R,E],
  [("pattern/separator iterator stacks kept in lock step",R),("count and parity check before yielding",R),("optional as alternation with the empty pattern",E)],
  ["list returned by parse"],
  state=[("pattern and separator stacks","alternating matches of item and separator",R)])
p("C04","Integer patterns read exactly the number written",
  "Each integer pattern (every width and signedness, machine-size and big, in base 10, 2 and 16) matches the whole run of digits of its base at its position, preceded by at most one `+` or `-` and only for the signed kinds, and yields exactly the number written, whatever its length, leading zeros or letter case. A numeral whose value does not fit the type is rejected rather than wrapped, clipped or consumed in part. No other text (signs on unsigned kinds, underscores, blanks, base prefixes, non-ASCII digits) is accepted as part of a number.",
  ["inputs"],"for all 42 integer patterns and all texts",
  "Boundary values, lengths, bases and rejects are unbounded and multiply with the 42 patterns; tests sample a few values of four of them.",
  [PR,RX],
  [("anchored token expressions per base and sign",PR),("standard-library conversion of the token",PR),("no shorter fallback",RX)],
  ["parse result and the extent matched, seen by a following pattern"])
p("C05","Float and bool patterns agree with the standard format",
  "The float patterns match the longest decimal numeral in the standard library's float format at their position (optional sign; digits with optional point and exponent; or inf, infinity or nan in any letter case) and yield, bit for bit, the correctly rounded value of the requested width. Anything else (lone sign or point, hexadecimal, underscores, dangling exponent) is not accepted as part of the numeral. The boolean pattern matches exactly `true` or `false` and yields that value.",
  ["inputs"],"for all texts, for both float widths and bool",
  "The float format is an infinite language and rounding errors hit only special decimal strings; tests check nine.",
  [PR,RX],
  [("float token expression",PR),("bool token expression",PR)],
  ["bits of the returned float; extent matched"])
p("C06","Character and literal patterns match exactly their text",
  "Each character-class pattern matches exactly one Unicode scalar value and exactly those in its class (alphabetic, alphanumeric, upper, lower, any, ASCII digits of base 10, 2, 16), yielding that character, or the digit's numeric value. The one-of-these-characters pattern yields the 0-based position, counted in characters, of the first equal character in its list. A literal string or character matches exactly that text, case-sensitively, and consumes exactly it.",
  ["inputs"],"for all Unicode scalar values, all option lists and all literals",
  "There are 1.1 million characters and unboundedly many lists and literals; tests try about thirty.",
  [CH,EX],
  [("predicate on the next char, advance by its encoded length",CH),("position counted in chars",CH),("prefix comparison",EX)],
  ["parse result; extent matched"])
p("C07","A line pattern consumes exactly one line",
  "A line pattern matches only at the beginning of the text (or of the enclosing line or section) or right after a newline, and matches exactly one line: up to the next newline or, in a nonempty unterminated remainder, up to the end. The inner pattern sees only that line's content, must match all of it, and can neither see nor consume the newline or neighbouring lines; the newline, if there is one, is consumed and is not part of the value. Matching many lines yields one entry per line in order, blank lines included, with the last newline optional.",
  ["inputs","programs"],"for all inner patterns (including ones able to match newlines or to match in several ways) and all texts, with lines nested in sections and in other patterns",
  "Confinement, line-start and end-of-input rules must hold for any inner pattern and newline layout; tests use a few layouts with tame inner patterns.",
  [L,C],
  [("start-of-line check, end-of-line search",L),("inner match confined to a slice",C),("inner match required to cover the slice",L)],
  ["parse result"])
p("C08","A section pattern consumes exactly one section",
  "A section pattern matches only at the beginning of the text (or of an enclosing section) or right after a blank line, and covers the maximal run of nonblank lines there (possibly none) up to a blank line, which is consumed too, or up to the end of a nonempty remainder. The inner pattern must match exactly those nonblank lines: it never sees the blank line or anything beyond it. Matching many sections yields one entry per section in order.",
  ["inputs","programs"],"for all inner patterns and all texts, including leading, doubled and trailing blank lines and missing final newlines",
  "Blank-line layouts are combinatorial; tests only use single blank lines between nonempty sections.",
  [L,C],
  [("start-of-section check",L),("search for the end of the section",L),("slice confinement",C)],
  ["parse result"])
p("C09","string() returns exactly the matched text",
  "Wrapping a pattern in string() changes only the value: it matches the same texts, in the same order of preference, and yields exactly the characters of the input that the inner pattern matched at that place, unchanged. This holds at any position, inside lines, sections, repetitions and rules, and whatever the inner pattern would have produced.",
  ["inputs","programs"],"for all inner patterns, positions and (Unicode) texts",
  "Offset errors show only for particular nestings, positions and multi-byte characters; tests use ASCII words.",
  [ST,"src/lib.rs"],
  [("remembered start offset and slice of the source",ST)],
  ["parse result"])
p("C10","Conversions run once per match, and only on overall success",
  "User conversion code attached to a pattern runs only after the overall match has succeeded, exactly once for each occurrence of that pattern in the chosen match, and receives the values of that occurrence. It never runs for occurrences tried and then abandoned, for texts that fail to parse, for separators of a separated repetition, or inside a pattern whose value is replaced by its text.",
  ["inputs","programs","histories"],"for all patterns with conversions at any place and all texts, matching or not",
  "Needs the history of conversion calls for arbitrarily backtracking matches; tests have two fixed cases of a conversion that must not run.",
  [MP,T,S,R,E,ST],
  [("conversion phase after matching",T),("separators are not converted",R),("string() never converts its inner pattern",ST)],
  ["calls of user closures, in an event log"])
p("C11","Rules behave as their definitions at every use",
  "A pattern with named rules matches and yields what results from replacing each use of a rule by that rule's definition, for any number of rules, defined in any order, with direct or mutual recursion to any practical depth. This holds wherever rules are used (inside repetitions, alternatives, lines, sections, other rule sets), when several rule sets or several instances of one take part in a single parse, and after the parser has been moved or used before.",
  ["programs","inputs","histories"],"for all non-left-recursive rule sets, their combinations, and all texts",
  "Rule lookup is dynamic (identity and index based), so mix-ups appear only with several rule sets, rules or nestings together; tests use one rule set at a time.",
  [RS,D,C,M],
  [("registration of rule sets per parse and lookup by identity and index",C),("rule placeholders and erased parsers",RS),("rule splitting and assignment in the macro",M)],
  ["parse result"],
  state=[("registered rule sets","identity of rule set -> its parsers, for the current parse",C)])
p("C12","Errors point at the furthest place reached",
  "When parsing fails, the error carries the complete original text and a byte offset, always on a character boundary, of the furthest place at which any attempted way of matching got stuck or left text unmatched; this holds through any nesting of lines and sections. The displayed message gives that place as a 1-based line and column, counting columns in characters, or says it is the end of input when it is.",
  ["inputs","programs"],"for all patterns and all texts that do not match",
  "The furthest failure depends on the entire search; tests check about a dozen messages on small ASCII inputs.",
  [C,ER,L,T],
  [("keep the foremost error",C),("translate slice offsets to the whole text",ER),("line/column computation",ER)],
  ["ParseError::source, ParseError::location, Display"],
  state=[("foremost error","furthest failure seen so far",C)])
p("C13","Parsing any text never panics",
  "For every parser built from the documented pieces and every text, parsing either returns a value or returns an error, and that error can be displayed, debug-printed and cloned; nothing panics, aborts or overflows. This includes empty, very long, multi-byte, control-character and otherwise hostile text, and numerals of any magnitude.",
  ["inputs","programs"],"for all patterns (within ordinary nesting depth; patterns whose own user code panics excluded) and all valid UTF-8 texts",
  "Panics hide behind unusual characters, offsets and sizes; the tests feed well-formed puzzle inputs.",
  [T,C,ER,CH,RX,L,R],
  [("slicing at char boundaries only",CH),("an error is always recorded before failure is signalled",C)],
  ["panic hook, process exit"])
p("C14","Matching terminates with bounded effort",
  "Parsing terminates on every input for every pattern that is not left-recursive, including repetitions of items (and separators) that can match empty text. The number of times subpatterns are attempted stays within a small constant factor of an ordinary backtracking search of the same pattern, and for lists of records with no ambiguity it grows only linearly with the number of records, as does the memory in use.",
  ["inputs","programs"],"for all non-left-recursive patterns and all texts",
  "Non-termination and blow-up need specific combinations (empty-matching items, failing continuations, size); tests never repeat an empty-matching item and use tiny inputs.",
  [R,S,E,L,T],
  [("repetition advance/backtrack state machine",R),("no re-creation of exhausted choices",S)],
  ["count of attempts and retries at instrumented subpatterns; counting allocator; CPU time watchdog"])
p("C15","A parser is a pure, reusable, shareable value",
  "The outcome of a parse (value or error) depends only on the pattern and the text: not on what was parsed before, with this or another parser, successfully or not, nor on other parses running at the same time on other threads or from inside a conversion, nor on whether the parser was copied, moved, boxed or borrowed. Parsing leaves nothing behind: repeating a parse does not accumulate memory. A parser without named rules can be shared between threads or moved to another whenever its conversions and strings can, and an error can be too.",
  ["histories","schedules","inputs"],"for all sequences, nestings and concurrent interleavings of parses over shared and copied parsers",
  "Needs histories and schedules; each test parses a couple of texts with a fresh parser on one thread.",
  [T,C,PR,RS,D,RX],
  [("per-parse context",T),("lazily initialised global token expressions",PR),("Copy/Clone implementations",RX)],
  ["results of repeated, interleaved, re-entrant and concurrent parses; live heap bytes"])
p("C16","The puzzle-input helper only restores the final newline",
  "Parsing through the puzzle-input helper gives the same value or error as parsing, with the same pattern, the given text with one newline appended if it does not already end in a newline, and the unchanged text otherwise. The error is converted to the caller's error type and still carries the text that was parsed.",
  ["inputs","programs"],"for all patterns and texts (empty, with and without final newline, CRLF, several final newlines)",
  "The only coverage is a compile-only example.",
  [U],[("conditional append of a newline",U)],["result of aoc_parse"])
p("C17","Collection patterns hold exactly the produced items",
  "The set, map and deque patterns match the same texts as the pattern they wrap and produce a collection holding exactly the values that pattern yields: each distinct value once for sets, the last value for each key for maps, all values in text order for the deque. This holds for any number of items and with any item type meeting the collection's requirements.",
  ["inputs","programs"],"for all wrapped patterns producing iterables and all texts",
  "Duplicates, key collisions, sizes and nestings vary without bound; each collection has at most a couple of small tests.",
  [CO],[("collect from the iterable",CO)],["collection returned by parse"])
p("C18","The macro accepts the documented grammar and rejects misuse",
  "Every pattern formed according to the documented grammar compiles when the types agree (any mix of sequence, repetition, alternation, labels, conversions, groups, calls with any number of arguments, trailing commas, rules, constants and local parsers). Documented misuse (a label without a pattern, two labels in a row, non-greedy quantifiers, a quantifier with nothing before it, a rule set without a final pattern or with a missing semicolon, an empty alternation, stray tokens) is rejected at compile time, the specific mistakes with a message naming them, never accepted with a different meaning.",
  ["programs"],"for all token sequences given to the pattern macro",
  "The tests compile a fixed list of patterns, and the compile-fail examples pass for any compile error whatever.",
  [M],[("token munching per construct; explicit error arms",M)],["rustc exit status and diagnostics on generated programs"])
p("C19","User-written parsers are driven by the documented protocol",
  "Parsers written by users against the public traits are always asked to match at a character boundary inside the text, and after a match is rejected and no other is available that match object is not asked anything more. A match's value is requested only for matches that belong to the chosen overall match, and only after all matching is over; all matches a user's parser offers, in its own order, are considered before anything is given up. Conversely every built-in match object reports an end that is a character boundary, at or after its start, and stable until it is asked to backtrack.",
  ["programs","inputs","histories"],"for all user-defined parsers obeying the traits, placed anywhere in a pattern, and all texts",
  "Needs the call history of user-supplied objects under arbitrary backtracking; no test implements the traits.",
  [T,S,E,R,L,MP,ST,D],
  [("iterator contract",T),("exhausted iterators popped or replaced",R)],
  ["event log of trait calls on user-defined parsers and wrapped built-in ones"])
p("C20","The error message tells what was wrong there",
  "The message of a parse error describes a failure that actually occurred at the reported place: which literal, character class or type was expected there, that a token there could not be converted to its type (quoting the token, the type and the reason), that a line or section pattern did not cover its line or section or was not at the start of one, or that text was left over after a complete match. It never names an expectation that was not tried at that place.",
  ["inputs","programs"],"for all patterns and all texts that do not match",
  "Which failure is blamed depends on the whole search; tests check a dozen messages by substring.",
  [ER,C,CH,EX,RX,L],
  [("error reasons",ER),("keep the foremost error",C),("nouns of character classes",CH)],
  ["Display of ParseError"])
p("C21","Use through the safe API is free of undefined behaviour",
  "No use of the library through its safe API causes undefined behaviour, an invalid memory access or a data race, including parsers shared by several threads whose first uses coincide, recursive rule sets, parsers moved between uses, and values dropped in any order.",
  ["inputs","schedules"],"for all safe programs, inputs and thread schedules",
  "Undefined behaviour and races may not change any test's outcome; no test runs under a sanitizer or uses threads.",
  [RS,D,PR,RX,C],
  [("absence of unsafe code; self-contained erased rule parsers",RS),("synchronised lazy initialisation",PR)],
  ["Miri, AddressSanitizer and ThreadSanitizer reports"])
p("C22","Composition is transparent",
  "A subpattern means the same whether written in place, stored in a local parser first, passed through a function, borrowed or parenthesised (up to grouping of values), and a one-line or one-section combinator applied repeatedly is the same as its plural form. Regrouping a sequence or an alternation, or naming parts of it, does not change which texts match, which match is chosen, or where an error is reported.",
  ["programs","inputs"],"for all pairs of patterns related by these rewritings and all texts",
  "It relates pairs of programs; the tests check isolated patterns.",
  [T,MP,S,E,L,M,D],
  [("parsing through references",T),("grouping",MP),("plural forms defined by repetition",L)],
  ["results and errors of rewritten patterns, compared"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80, d["id"]
        f.write(json.dumps(d)+"\n")
print(len(P))
