"""What each check runs, what it counts, what it takes for granted."""

MODEL = ("the reference matcher in harness/src/model.rs says what the documentation says",
         "the monitored wrappers (user-written parsers over the public traits) are faithful")
STD = ("the Rust standard library and num-bigint are correct",)

PATTERN_RULE = ("seeded pattern trees are built out of the real combinators with every subpattern wrapped in a monitor, and run on "
                "texts derived from the pattern, mutations of those and random texts; a case is (pattern, text); it is non-trivial "
                "when a non-empty text matches or a failure lies beyond the first byte; distinct by hash of (pattern, text)")


def simple(rule, assumes, **kw):
    def run(c, pid, res):
        c.worker(pid, res, **kw)
    return dict(run=run, rule=rule, assumes=list(assumes))



def c15(c, pid, res):
    import share
    res.coverage["shareability"] = share.probe(res)
    try:
        c.build()
    except c.Inconclusive:
        if res.violations:
            return
        raise
    c.worker(pid, res)
    # first uses can only coincide once per process: many short processes
    runs = 40 if c.TIER == "quick" else 600
    total = 0
    for i in range(runs):
        total += c.worker_once("C15-first-use", c.SEED * 1000 + i, res)
    res.coverage["first_use_processes"] = runs
    res.coverage["first_use_parses"] = total


def c02(c, pid, res):
    import typed
    typed.c02(c, pid, res)


def c18(c, pid, res):
    import snippets
    snippets.c18(c, pid, res)


def c21(c, pid, res):
    import sanitize
    sanitize.c21(c, pid, res)


def nothing():
    pass


PLANS = {
    "C02": dict(run=c02, build=nothing, rule="programs over parser! made from a target type: a fixed part (every split of up to 8 values over two neighbours, "
                "0 to 12 labels in three orders, equal and different types) and random nested ones (groups, alternations with equal types, "
                "conversions with shuffled labels, local parsers, functions returning parsers, constants, rule sets, lists, options, strings, lines); the result type is ascribed, so rustc is the monitor of "
                "types; the values are compared with those the reference computes; texts are derived from the pattern and distinct within a program",
                assumes=list(MODEL[:1] + STD) + ["rustc's type checker is correct"]),
    "C01": simple(PATTERN_RULE, MODEL),
    "C18": dict(run=c18, build=nothing, rule="whole programs given to rustc: fixed valid ones covering every construct (also run, with assertions), fixed misuses "
                "each with a valid near-miss, and random valid programs with the same program after one documented mistake at a random place in it; the "
                "monitor is rustc's exit status and diagnostics; distinct by program text",
                assumes=["rustc reports errors of the macro's expansion faithfully"]),
    "C03": simple("lists of known contents at many lengths through every repeating construct, plus " + PATTERN_RULE, MODEL + STD),
    "C04": simple("(integer pattern, text) pairs: enumerations of short texts, bands around every power of two, random numerals, foreign "
                  "digits; each probed as the whole parser, followed by any text (to see what was consumed), after another character, in a "
                  "list and on lines; non-trivial when the text starts with a numeral of that pattern, in range or not", STD),
    "C05": simple("(float or bool pattern, text) pairs: structured numerals, midpoints of adjacent floats, words, enumerations of short "
                  "texts; values compared bitwise; non-trivial when the text starts with a numeral", STD),
    "C06": simple("every Unicode scalar value against every class; random and very long char_of lists; random, long and written-out "
                  "literals with near-miss texts; every case (pattern, text) counts once", STD),
    "C07": simple(PATTERN_RULE, MODEL),
    "C08": simple(PATTERN_RULE, MODEL),
    "C09": simple(PATTERN_RULE, MODEL),
    "C10": simple(PATTERN_RULE + "; conversions log an event with a hash of their arguments, user-written parsers log one with the place", MODEL),
    "C11": simple(PATTERN_RULE + "; also typed rule sets (calculators, nested lists) whose expected value is known from how the text was made", MODEL + STD),
    "C12": simple(PATTERN_RULE + "; also big texts whose failing place is known by construction", MODEL),
    "C13": simple("hostile texts and numerals against random patterns and every built-in; a panic hook, the process's exit status and a "
                  "use of every error value are the monitors; non-trivial when the text is not empty; distinct by hash of (pattern, text)", STD),
    "C14": simple(PATTERN_RULE + "; attempts and retries are counted by the monitors and compared with those of the reference search; a "
                  "watchdog bounds CPU time and heap per parse", MODEL),
    "C15": dict(run=c15, build=nothing, rule="histories of parses over several parsers and texts (reused buffers, moved and rebuilt parsers, parses inside "
                "conversions, abandoned parses), the same on several threads, parsers shared by threads, first uses raced in many processes, "
                "heap bytes before and after batches of parses; non-trivial: " + PATTERN_RULE, assumes=list(MODEL + STD)),
    "C16": simple("aoc_parse against parse on the text with its newline restored, for random patterns and texts with many endings; "
                  "distinct by hash of (pattern, text)", MODEL),
    "C17": simple("every collection around random item patterns, and lists of known contents of many sizes; " + PATTERN_RULE, MODEL + STD),
    "C19": simple(PATTERN_RULE + "; every subpattern is a user-written parser with a typestate automaton per match object, many of them "
                  "offering several matches", MODEL),
    "C20": simple(PATTERN_RULE, MODEL),
    "C21": dict(run=c21, build=nothing, rule="whole processes under Miri, AddressSanitizer and ThreadSanitizer (small hostile programs, and the workloads of other "
                "checks under the two compiled ones), every claim of Send or Sync put to use, and programs that must not pass the borrow checker; "
                "an evaluation is one process (Miri: one schedule), one case of a workload or one program",
                assumes=["Miri, AddressSanitizer and ThreadSanitizer report what they are built to report (each is checked on a control in every run)",
                         "the compiler and the standard library are sound"]),
    "C22": simple("pairs of patterns related by 1 to 5 rewritings at random places, run on the same texts; and patterns written in place "
                  "against the same reached by seven other routes; non-trivial when both match or both fail beyond the first byte", MODEL[1:]),
}

REF = "runtime monitoring: "
TECH = {
    "C01": REF + "every subpattern wrapped in an online monitor; values and acceptance compared with an executable reference matcher",
    "C02": REF + "generated programs, rustc as the monitor of result types, values compared with the reference",
    "C03": REF + "lists and choices observed through monitored items, compared with the reference and with known contents",
    "C04": REF + "independent digit-by-digit oracle over the values, extents and errors observed",
    "C05": REF + "hand-written recogniser of the format plus bitwise comparison of values",
    "C06": REF + "exhaustive sweep of Unicode scalars against std predicates; prefix oracle for literals",
    "C07": REF + "reference matcher with regions over line-heavy patterns and newline layouts",
    "C08": REF + "reference matcher with regions over section-heavy patterns and blank-line layouts",
    "C09": REF + "string() values compared with the slice of the input the reference match covers",
    "C10": REF + "offline checker over the log of conversion events (multiset, order, arguments, none on failure)",
    "C11": REF + "rule sets compared with a reference that substitutes definitions",
    "C12": REF + "monitors record every place an attempt got stuck; the error's place and text are compared with the record",
    "C13": REF + "panic hook, process status and heap watchdog over hostile texts",
    "C14": REF + "attempt and retry counters compared with the reference search; CPU and heap watchdog",
    "C15": REF + "histories, re-entrant and concurrent parses compared with isolated ones; live-heap accounting; raced first uses",
    "C16": REF + "paired executions compared (helper against direct parse)",
    "C17": REF + "collections compared with ones built independently from the monitored items",
    "C18": REF + "rustc observed on valid programs and on near-miss invalid ones",
    "C19": REF + "typestate automaton per match object of user-written parsers",
    "C20": REF + "monitors record every reason given at each place; the message must be one of those at the reported place",
    "C21": "sanitizers: Miri (many seeds), AddressSanitizer and ThreadSanitizer over safe-API workloads; borrow-checker probes confirmed under Miri",
    "C22": REF + "paired executions of equivalent patterns compared",
}
