"""Writes /verif/properties.jsonl (kept as code so that the file stays schema-valid)."""
import json, os

C = "src/reparsec/core/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


GI = "every parser that can be built from the library's primitives and combinators, every input, every start position"
prop("C01", "Recovery mode accepts the same inputs with the same value",
     "For every parser and every input: if parsing without recovery succeeds, parsing with recovery enabled succeeds too, with the same value and the same amount of input consumed. If parsing without recovery fails, parsing with recovery enabled does not report success.",
     ["programs", "inputs"], GI + ", every insertion limit",
     "Tests run a few dozen fixed grammars and strings in both modes; the claim is about all grammars, and every combinator has two hand-written implementations that must agree.",
     [C + f for f in ("combinators.py", "primitive.py", "sequence.py", "scannerless.py", "layout.py")] + ["src/reparsec/parser.py"],
     [("two sibling functions per combinator/primitive", C + "*.py: _x_fast / _x"), ("mode dispatch", "src/reparsec/parser.py:Parser.parse")],
     observe=["Parser.parse(...).unwrap()"])
prop("C02", "Choice, maybe, many and attempt commit exactly on consumed input",
     "p | q runs q only when p failed without consuming input, and otherwise the outcome of p is the outcome of the choice; p.maybe() and p.many() treat a failure of p as 'absent' / 'end of list' only when p consumed nothing, and pass a failure after consumption on. A failure of p.attempt() counts as one that consumed nothing wherever such a decision is made. This holds with and without recovery.",
     ["programs", "inputs"], GI,
     "Needs all combinations of (success/failure) x (consumed/unconsumed) of arbitrary sub-parsers in both modes and in nested repairs; tests hit a handful.",
     [C + "combinators.py", C + "result.py", "src/reparsec/parser.py"],
     [("consumed flag of results", C + "result.py"), ("choice/maybe/many/attempt", C + "combinators.py")],
     [("consumed", "whether any input was consumed when the result was produced", C + "result.py")])
prop("C03", "Sequencing threads position, order and values",
     "In every sequential combination (+, <<, >>, then, bind, between and the function forms) the next parser is applied exactly where the previous one stopped and only if the previous one produced a value (a parsed one, or the value of a repair); the combined value holds the parts in the documented order and the sequence counts as having consumed input exactly when one of its parts did. This holds for each repair during recovery as well.",
     ["programs", "inputs"], GI,
     "Quantifies over all sub-parsers and over all repairs of the first part, tests use single-character parsers.",
     [C + "combinators.py", C + "recovery.py", C + "result.py", "src/reparsec/parser.py"],
     [("seq/bind/tuple", C + "combinators.py"), ("continuation of repairs", C + "recovery.py:continue_parse")])
prop("C04", "Repetition always makes progress",
     "many(), sep_by(), chainl1() and chainr1() never iterate without advancing: a repetition of a parser that succeeds without consuming input raises RuntimeError in both modes, every other iteration moves the position forward. Each primitive that reports having consumed input has advanced the position, and one that reports no consumption has not moved.",
     ["programs", "inputs"], GI,
     "Termination and the exactness of the consumed flag are statements about all inputs; a test of one looping grammar cannot show them (and would hang).",
     [C + "combinators.py", C + "sequence.py", C + "scannerless.py", C + "primitive.py"],
     [("empty-match guard", C + "combinators.py:_many*"), ("consumed computation", C + "scannerless.py:_regexp*, _literal*; " + C + "sequence.py")])
prop("C05", "Errors list everything expected at the failure position, in grammar order",
     "When a parse fails, the reported descriptions are those of every alternative tried at that point and of every optional or repeated part that was skipped right before it, in grammar order, each source contributing its list exactly once, and nothing that precedes the last consumed input. label() replaces the list exactly when the labelled parser failed (or succeeded) without consuming input.",
     ["programs", "inputs"], GI,
     "The list is accumulated across arbitrary nesting of choice, sequence, repetition and label; tests check few messages.",
     [C + "result.py", C + "repair.py", C + "combinators.py", C + "recovery.py", C + "chain.py"],
     [("set_expected / prepend_expected", C + "result.py"), ("Append", C + "chain.py")])
prop("C06", "Every error and repair is located where the failing parser was applied",
     "The location attached to an error, and to each insertion or skip of a repair, is the location of the input position at which the parser that failed was applied; combinators never change it.",
     ["programs", "inputs"], GI + ", every location function",
     "Positions flow through all combinators and every repair; tests look at few positions, mostly on one line.",
     [C + f for f in ("sequence.py", "scannerless.py", "primitive.py", "layout.py", "combinators.py", "recovery.py", "repair.py", "types.py")],
     [("Ctx.get_loc / update_loc", C + "types.py"), ("make_insert / make_skip", C + "repair.py")])
prop("C07", "Tracked line and column are those of the source text",
     "With the scannerless or the lexer entry point, a position reported as line:column is the one-based line (number of newlines before it plus one) and column (distance from the last newline before it plus one) of that position in the source text, however the location was reached incrementally. Token locations made by the lexer obey the same rule.",
     ["inputs"], "every source text, every sequence of intermediate positions at which the location was updated, every lexer specification",
     "Incremental computation over arbitrary texts; tests use a few short multi-line strings.",
     [C + "scannerless.py", C + "types.py", "src/reparsec/scannerless.py", "src/reparsec/lexer.py"],
     [("get_loc", C + "scannerless.py"), ("iter_tokens, _loc_from_stream", "src/reparsec/lexer.py")],
     [("Loc", "pos, line, col of the last update", C + "types.py")])
prop("C08", "fmap maps exactly the produced values and nothing else",
     "Mapping a parser or a parse result with a function changes only the produced value: the function is applied exactly once to the value of a success, once to the value of each repair, never on failure, and position, errors, repair costs, order and number of repairs stay the same. This is true for Parser.fmap, the function form, Tuple apply() and ParseResult.fmap.",
     ["programs", "inputs"], GI + ", every function",
     "A functor law over all parsers, results and lists of repairs.",
     [C + "result.py", C + "combinators.py", "src/reparsec/types.py", "src/reparsec/parser.py"],
     [("Ok/Error/Recovered.fmap", C + "result.py"), ("ResultWrapper.fmap", "src/reparsec/types.py")])
prop("C09", "unwrap returns a value or raises a complete, ordered error list",
     "unwrap() returns a value only for an error-free parse, or when called with recover=True and a repair exists; in every other case it raises ParseError with at least one item. For a repaired parse the items are exactly the operations of the selected repair, in order, each with its location, formatted location, expected descriptions and operation; for an unrepairable one, the single failure. Calling unwrap repeatedly, with either flag, gives the same answers.",
     ["inputs", "histories"], "every parse result (success, failure, any number of repairs with any number of operations), every sequence of unwrap calls",
     "Tests call unwrap on results with one to four operations and mostly once.",
     ["src/reparsec/types.py", C + "chain.py"],
     [("ResultWrapper.unwrap", "src/reparsec/types.py")])
prop("C10", "The selected repair is the cheapest, then furthest, then explicit one",
     "Among all repairs found for an input, the one used for the value and for the error report has minimal cost; among those it has the furthest end position, and among those a skip or user-declared recovery is preferred over one starting with an automatic insertion; remaining ties go to the earliest found. No repair is left out of the comparison.",
     ["inputs"], "every list of repairs of any length with any costs, positions and priorities",
     "The ordering must hold for all lists of repairs; tests exercise small lists where several criteria agree.",
     ["src/reparsec/types.py"], [("min over repairs", "src/reparsec/types.py:ResultWrapper.unwrap")])
prop("C11", "Repair cost and operations account for exactly what was changed",
     "The cost of a repair equals one per insertion plus the number of skipped elements over the operations it reports. When repaired parts are combined, costs add up and the operations are concatenated in input order, none lost, duplicated or altered, and a repair followed by an error-free parse keeps its cost and operations.",
     ["programs", "inputs"], GI + ", every combination of repairs",
     "Holds across arbitrary nesting of repairs; tests check a few final messages and never the cost.",
     [C + "repair.py", C + "recovery.py", C + "combinators.py", C + "result.py"],
     [("make_* constructors", C + "repair.py"), ("continue_parse/_join_ops", C + "recovery.py")])
prop("C12", "Never more than max_insertions insertions in a row",
     "During recovery at most max_insertions values are inserted in a row, that is without consuming or skipping input in between; with a limit of zero nothing is inserted. The full budget is available again after any input has been consumed or skipped.",
     ["programs", "inputs", "configurations"], GI + ", every insertion limit",
     "No test sets the limit, and the budget is threaded through every combinator and every repair.",
     [C + "combinators.py", C + "recovery.py", C + "repair.py", C + "sequence.py", C + "scannerless.py", "src/reparsec/parser.py"],
     [("ins/rem parameters", C + "*.py")],
     [("rem", "insertions still allowed at this position", C + "parser.py:ParseFn"), ("ins", "the full budget", C + "parser.py:ParseFn")])
prop("C13", "Skips are exact and stop at the nearest match",
     "A reported skip of n elements means that exactly the n elements from the error position on were passed over and that the parser then matched right behind them; n is the smallest positive number for which it matches, and a skip is offered whenever one exists before the end of the input. Skipping to the end of the input skips exactly what is left.",
     ["inputs"], "every input, every symbol, predicate, literal and pattern, every position",
     "Scanning loops over inputs of any length; tests skip one or two elements.",
     [C + "sequence.py", C + "scannerless.py", C + "repair.py"],
     [("scanning loops", C + "sequence.py:_sym,_satisfy,_eof; " + C + "scannerless.py:_literal,_regexp")])
prop("C14", "Parsers are reusable and results share no mutable state",
     "Running a parser changes neither the parser, its parts, the input nor results of earlier or concurrent runs, so a parser gives the same answers however often, re-entrantly or concurrently it is used. Lists handed to the user (parsed lists, error lists, expected lists) are fresh for each run, and alternative repairs of one result do not share operations that later steps modify.",
     ["histories", "schedules", "inputs"], "every sequence or interleaving of runs of the same parser, every input",
     "Tests build a parser and use it once or twice; hidden state would need specific histories.",
     [C + "result.py", C + "repair.py", C + "recovery.py", C + "combinators.py", "src/reparsec/parser.py", "src/reparsec/types.py"],
     [("in-place updates of results", C + "result.py: set_expected, prepend_expected, set_ctx"), ("_join_ops copies", C + "recovery.py")])
prop("C15", "Delay behaves as its definition once defined, and fails loudly before",
     "A Delay used anywhere before or after define() behaves exactly like the parser it was defined as, in both modes; running it before it is defined raises RuntimeError, and defining it a second time raises RuntimeError and leaves the first definition in force.",
     ["histories", "programs"], "every order of using, combining, defining and running a Delay",
     "The tests define each Delay once and use it afterwards; orders of use are histories.",
     ["src/reparsec/parser.py"], [("Delay", "src/reparsec/parser.py:Delay")])
prop("C16", "Method, operator and function forms build the same parser",
     "For every combinator, the method, the operator alias and the function of the same name build parsers that behave identically on all inputs in both modes, with operands in the documented roles.",
     ["programs", "inputs"], GI + ", every pair of equivalent forms",
     "There are some twenty pairs; most function forms are never called by a test.",
     ["src/reparsec/parser.py", "src/reparsec/__init__.py"],
     [("delegation", "src/reparsec/parser.py")])
prop("C17", "sep_by, chainl1, chainr1, many and then build values of the right shape",
     "many and sep_by return exactly the values of the items, in input order; chainl1 combines operands and operators left-associatively and chainr1 right-associatively, each operator applied once to its own two neighbours; then() yields a flat tuple of all parts in order, and apply() passes them in that order.",
     ["inputs", "programs"], "every number of items, every item and operator parser",
     "Tests use up to three operands and never count applications.",
     ["src/reparsec/parser.py", C + "combinators.py"],
     [("reducers", "src/reparsec/parser.py: chainl1, chainr1, sep_by"), ("tuple3..tuple8", C + "combinators.py")])
prop("C18", "The layout mark is lexically scoped",
     "A column mark set by block() or indented() is in force exactly for the wrapped parser: whatever follows, including every continuation after a repair, sees the mark that was in force before; no other combinator or primitive changes the mark.",
     ["programs", "inputs"], GI,
     "Depends on every path by which a context leaves a combinator, including repairs; layout is never tested in recovery with nested blocks.",
     [C + "layout.py", C + "types.py", C + "result.py", C + "recovery.py"],
     [("set_mark/set_ctx", C + "layout.py")], [("mark", "column mark in force", C + "types.py:Ctx")])
prop("C19", "block, aligned and indented test the column of the current position",
     "block(p) runs p with the mark set to the current column; aligned(p) runs p exactly when the current column equals the mark; indented(d, p) runs p, with the mark set to the current column, exactly when the current column is the mark plus d; otherwise they fail there with 'indentation' without running p. 'Current column' is the column of the position at which they are applied, for strings and for token streams.",
     ["programs", "inputs"], "every input (string or token stream), mark, delta and wrapped parser",
     "Needs all relations between column, mark and delta, and stream positions that differ from source offsets; tests use two columns and never tokens.",
     [C + "layout.py", C + "types.py", "src/reparsec/layout.py", "src/reparsec/lexer.py"],
     [("column tests", C + "layout.py"), ("update_loc", C + "types.py")])
prop("C20", "The lexer tiles the source, always terminates, and reports the first bad spot",
     "split_tokens() splits the whole source into consecutive matches of the specification: each returned token has the group's name and text, starts where the previous match ended and ends where its own match ends, unnamed matches are dropped, and nothing else is lost or repeated. If no non-empty match exists at some point, LexError with that location is raised instead of a partial result; the call always terminates.",
     ["inputs"], "every source text and every specification, including ones that can match the empty string",
     "All texts and specifications; tests use one specification and only valid text.",
     ["src/reparsec/lexer.py"], [("iter_tokens", "src/reparsec/lexer.py")])
prop("C21", "Primitive parsers accept exactly what they describe and insert what they denote",
     "sym(x) accepts exactly an element equal to x, satisfy(f) one for which f holds, literal(s) exactly the text s, regexp a match at the current position whose group took part, eof only the end, token(k) a token of kind k; each returns that element, text or group and advances by exactly what it matched. A value inserted in recovery is the denoted one: x, s, or a token of the given kind and value located at the insertion point, reported under its label.",
     ["inputs"], "every input, position, symbol, predicate, literal, pattern, group, kind",
     "All inputs and all arguments (groups that did not take part, labels that are empty, end of input).",
     [C + "sequence.py", C + "scannerless.py", C + "primitive.py", "src/reparsec/sequence.py", "src/reparsec/scannerless.py", "src/reparsec/lexer.py", "src/reparsec/primitive.py"],
     [("primitives", C + "sequence.py, scannerless.py, primitive.py"), ("token, token_ins", "src/reparsec/lexer.py")])
prop("C22", "User-declared recovery is used exactly on unconsumed failure in recovery",
     "recover_with(x) and recover_with_fn(f) behave like the wrapped parser, except that when recovery is enabled, an insertion is still allowed and the parser failed without consuming input, they offer one more repair, before all others: the value x (or the result of one call of f on the input and position), reported as one insertion under the given label or the value's repr. The repairs of the wrapped parser are kept, and f is never called otherwise.",
     ["programs", "inputs"], GI + ", every fallback value, function and label",
     "All outcomes of the wrapped parser in all modes; tests use two simple wrapped parsers.",
     [C + "combinators.py", C + "repair.py"],
     [("recover_with, recover_with_fn", C + "combinators.py"), ("make_user_insert", C + "repair.py")])
prop("C23", "Choice keeps the repairs of its alternatives by priority",
     "When both alternatives of a choice can be repaired at a point where neither consumed input, every repair of the first is considered, in order, followed by exactly those of the second that do not start with an automatic insertion; recover() makes the repairs of its parser count as not starting with one and changes nothing else. If only one alternative can be repaired, all its repairs are considered.",
     ["programs", "inputs"], GI,
     "All lists of repairs and priorities of both alternatives.",
     [C + "recovery.py", C + "combinators.py"],
     [("join_repairs", C + "recovery.py"), ("recover", C + "combinators.py")],
     [("prio", "None for repairs starting with an automatic insertion", C + "repair.py:Repair")])
prop("C24", "Repetition of any length runs in constant stack depth",
     "Parsing or lexing an error-free input with many, sep_by, chainl1, chainr1 or split_tokens uses stack depth independent of the number of items, in both modes, so a long flat input never fails with RecursionError.",
     ["inputs"], "every number of repetitions",
     "Tests repeat at most a few items; a recursive implementation passes them all.",
     [C + "combinators.py", "src/reparsec/parser.py", "src/reparsec/lexer.py", C + "chain.py"],
     [("loops instead of recursion", C + "combinators.py:_many*; src/reparsec/parser.py reducers; src/reparsec/lexer.py:iter_tokens")])
prop("C25", "Recovery is strictly opt-in",
     "Without recover=True no input is skipped, nothing is inserted, no fallback function is called and unwrap(recover=True) behaves exactly like unwrap(); the wrappers in the scannerless and lexer modules pass the flag on unchanged. With recovery enabled, parts run inside maybe(), many() or a choice whose other branch can still succeed are not repaired before they consumed input.",
     ["programs", "inputs", "configurations"], GI,
     "A negative over all programs: no path of the plain mode reaches a repair.",
     [C + "combinators.py", "src/reparsec/parser.py", "src/reparsec/scannerless.py", "src/reparsec/lexer.py", C + "sequence.py", C + "scannerless.py"],
     [("separate plain implementation", C + "*_fast"), ("rem is None", C + "*.py")])
prop("C26", "No input makes a primitive read out of bounds or crash",
     "No primitive, location function or combinator of the library raises an exception of its own (IndexError, TypeError, AttributeError, ...) for any input and any position in it, including the empty input and the end of input; exceptions raised by user callbacks propagate unchanged.",
     ["inputs", "programs"], GI + ", streams that are empty or at their end",
     "Every access must be guarded on every path; tests do not reach all of them.",
     [C + f for f in ("sequence.py", "scannerless.py", "layout.py", "combinators.py", "recovery.py", "result.py", "types.py")] + ["src/reparsec/lexer.py", "src/reparsec/types.py"],
     [("pos < len(stream) guards", C + "sequence.py; src/reparsec/lexer.py:_loc_from_stream")])
prop("C27", "Error messages contain every item, expectation and repair",
     "The text of a ParseError has one entry per error item, in order; each entry names its location, all expected descriptions in order (or says 'unexpected input' if there are none) and its repair: the number of skipped tokens, or the label of the inserted value.",
     ["inputs"], "every list of error items with any number of expected descriptions and any operation",
     "Lists of any length; tests see at most three expectations and four items.",
     ["src/reparsec/types.py"], [("ErrorItem.msg, ParseError.__str__", "src/reparsec/types.py")])
prop("C28", "The first error reported in recovery is the error reported without it",
     "For every parser built without attempt() and every input it rejects, the first item reported with recovery enabled has the same location and the same expected descriptions as the error reported without recovery, whichever repair is selected, and if recovery finds no repair the report is the same error.",
     ["programs", "inputs"], GI + " without attempt",
     "Relates two modes on every failing input and every candidate repair.",
     [C + "combinators.py", C + "recovery.py", C + "result.py", C + "repair.py", C + "sequence.py", C + "scannerless.py"],
     [("expected/loc carried by Recovered and by the first operation", C + "recovery.py, result.py")])
prop("C29", "The repaired input is one the grammar accepts",
     "For every parser built from sym, satisfy, eof, literal, labels, sequencing and choice: carrying out the operations of the selected repair on the input (inserting and removing elements at the reported locations) gives an input that the grammar describes, with the value that unwrap(recover=True) returned.",
     ["programs", "inputs"], GI + " of the listed forms",
     "Relates the parse of one input to derivations of another one, for every grammar.",
     [C + "recovery.py", C + "combinators.py"], [("repairs are combined with what follows them", C + "recovery.py:continue_parse")])
prop("C30", "Recovery terminates",
     "If a parser finishes on every input without recovery, it finishes on every input with recovery enabled.",
     ["programs", "inputs"], GI,
     "A negative over all grammars, including recursive ones, and all inputs.",
     [C + "recovery.py", C + "combinators.py"], [("insertion budget, positions", C + "recovery.py:continue_parse")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
