#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

add("C01", "Simple lexer: longest match, earliest rule on ties, no byte lost",
    "For every rule set and input, the simple lexer scans left to right: at each position the rule with the longest non-empty match wins (ties go to the rule defined first; in priority mode the first-defined rule with a non-empty match wins), and its lexeme carries that rule's kind and exactly the matched text. Lexemes of discard rules are left out, every maximal run of bytes that no rule matches becomes exactly one error lexeme holding those bytes, and the configured start and end lexemes bracket the output. So, discards aside, the lexeme values concatenate to exactly the input.",
    ["inputs", "configurations"], "all rule sets (regular expressions without assertions about what precedes the match) and all input strings, in both match modes",
    "The tests lex about five short ASCII strings with three fixed rules; cached next-match offsets, tie breaking, error-run coalescing and priority mode interact in ways that only show for particular rule/input combinations.",
    ["lexer/simplelexer/lexer.go", "lexer/simplelexer/construct.go"],
    [("cached next match per rule, refreshed as the cursor moves", "lexer/simplelexer/lexer.go: populateNext/updateNext"), ("match choice", "lexer/simplelexer/lexer.go: findNextMatch, lengthThenPriority, priorityThenLength"), ("error runs", "lexer/simplelexer/lexer.go: checkError")],
    ["Lexer.Lex return value"], [("next", "cached next match offset of each rule", "lexer/simplelexer/lexer.go: lexOp")])

add("C02", "Lexeme positions point at the text they came from",
    "Every lexeme produced from input text by either lexer, error lexemes included, reports the line and column where its text starts: the column is one plus the number of bytes since the last newline before it, and the line is the lexer's first line number (0 for the simple lexer, 1 for the stack lexer) plus the number of newlines before it. This holds whatever discarded text, error text or multi-line matches precede it.",
    ["inputs", "configurations"], "all rule sets, sub-lexer stacks and inputs, with newlines inside matched, discarded and unmatched text",
    "Tests check positions for three stack-lexer inputs and never for the simple lexer, and none has a newline next to or inside an error run.",
    ["lexer/simplelexer/lexer.go", "lexer/stacklexer/lex.go"],
    [("running line counter / column from last newline", "lexer/stacklexer/lex.go: handleLineCol; lexer/simplelexer/lexer.go: findNextMatch"), ("error position", "checkError in both lexers")],
    ["Lexeme.Pos of each returned lexeme"])

add("C03", "Stack lexer follows its sub-lexer stack, inheritance and group rules",
    "The stack lexer always matches with the rules of the current sub-lexer under the same choice rule as the simple lexer; a push rule switches to the named sub-lexer, a rule with n carets returns n levels (stopping at the bottom of the stack), and when nothing matches in a pushed sub-lexer it falls back one level and retries at the same place before reporting an error. An inherited sub-lexer contributes its rules in their own order at the place where it is named, a kind already present is not redefined, and the result never depends on anything but the definition text. A rule with a group list reports the concatenation of the listed groups (empty when a group took no part) and quoted literals, while consuming the whole match.",
    ["inputs", "configurations", "histories"], "all sub-lexer definitions (push, multi-pop, inheritance, groups, discard), both match modes and all inputs",
    "Tests cover six fixed definitions with one input each; stack depth, inheritance order, stale cached matches after a push, pop or error, and unmatched groups vary with the definition and input.",
    ["lexer/stacklexer/construct.go", "lexer/stacklexer/lex.go"],
    [("stack push/pop", "lexer/stacklexer/lex.go: lex, pop"), ("inheritance", "lexer/stacklexer/construct.go: addHeir, addRule"), ("groups", "lexer/stacklexer/lex.go: findNextMatch"), ("cached matches with base offset", "lexer/stacklexer/lex.go: populateNext, updateNext")],
    ["StackLexer.Lex return value"], [("stack", "saved sub-lexers", "lexer/stacklexer/lex.go: lexOp")])

add("C04", "Lexer definitions: bad ones are refused, good ones survive printing",
    "A lexer constructor either returns a lexer implementing every rule of its definition or returns an error and no lexer: an invalid regular expression, a duplicate kind in a simple lexer, and in a stack lexer cyclic inheritance, a push to an undefined sub-lexer, a group number the expression does not have, or the absence of any sub-lexer are all refused. Printing a simple lexer built from a definition and constructing a new lexer from that text gives a lexer that prints identically and produces identical lexemes for every input.",
    ["configurations", "inputs"], "all definition texts, valid and malformed, and all inputs to the original and the re-read lexer",
    "One printed definition is re-read in the tests and its lexing is not compared; no malformed definition is tested.",
    ["lexer/simplelexer/construct.go", "lexer/stacklexer/construct.go"],
    [("line parsing", "lexer/*/construct.go: ruleFromLine, parse, addMatch"), ("printing", "lexer/simplelexer/construct.go: String"), ("cycle detection", "lexer/stacklexer/construct.go: parse")],
    ["New return values", "Lexer.String", "Lex on original and copy"])

add("C05", "Grammar text, printing and Add denote exactly the written productions",
    "Reading a grammar text yields exactly the productions written, in order: lines without a left side continue the previous non-terminal (or START if there is none), repeated left sides accumulate, an empty right side is an empty production, the first left side is the start symbol, and a line with more than one arrow is refused. Building the same productions one at a time gives an equal grammar, and printing any grammar, which aligns the arrows, and reading it back gives an equal grammar that prints identically. Looking up a symbol that is not a non-terminal reports none and changes nothing. What a caller does with the list of non-terminals it was given does not change the grammar.",
    ["configurations", "histories"], "all grammar texts and all sequences of additions and lookups, over arbitrary symbol names without white space or arrows",
    "Tests read three small grammars; order, accumulation, index growth and round-trips for arbitrary names, sizes and interleavings of additions and lookups are not reached.",
    ["grammar/grammar.go", "symbol/setsymbol/set.go"],
    [("line parsing", "grammar/grammar.go: productionFromLine, trimAndSplit"), ("index-addressed production table", "grammar/grammar.go: New, Add, Productions"), ("printing", "grammar/grammar.go: String")],
    ["NonTerminals, Productions, String of the grammar"], [("productions", "production table indexed by symbol number", "grammar/grammar.go: Grammar")])

add("C06", "The packrat parser accepts exactly the language of its grammar",
    "For every context-free grammar - left-recursive, mutually recursive, with empty productions, ambiguous, even cyclic - and every lexeme sequence, the packrat parser returns a tree if and only if the sequence of lexeme kinds is derivable from the start symbol, and returns nil otherwise (the empty sequence and sequences with kinds unknown to the grammar or named like a non-terminal included).",
    ["inputs", "programs"], "all grammars and all lexeme sequences",
    "Tests parse six inputs that should succeed and none that should fail; completeness of the left-recursion bookkeeping depends on the discovery order that each grammar/input pair produces.",
    ["parser/packrat/packrat.go", "symbol/setsymbol/set.go"],
    [("agenda of partial trees and completed spans", "parser/packrat/packrat.go: addPartial, addToMemo, update"), ("acceptance test", "parser/packrat/packrat.go: Parse")],
    ["Parse return value nil / non-nil"], [("partials, markers, memo", "waiting partial productions, completed spans and chosen trees", "parser/packrat/packrat.go: prOp")])

add("C07", "Every parse tree is a derivation of exactly the input lexemes",
    "Whenever either parser returns a tree, its root is the start symbol, the children of every inner node spell one production of that node's symbol, and the leaves read left to right are exactly the input lexemes: same number, order, kinds, values and positions, each once. Inner nodes have no value, and in a packrat tree one with children has the position of its first child. The result is a proper tree: no node occurs twice, none shares its lexeme with another node or with the input, each child's parent is the node holding it, the root has no parent, and neither the input lexemes nor the grammar are altered by parsing.",
    ["inputs", "programs"], "all grammars and all accepted lexeme sequences, both parsers",
    "Tests compare the printed form of eight trees; positions, parent links, node sharing and preservation of the input are never checked.",
    ["parser/packrat/packrat.go", "parser/topdown/topdown.go", "tree/parsetree.go"],
    [("tree construction", "parser/packrat/packrat.go: toPN; parser/topdown/topdown.go: acceptProd, resp"), ("lexeme copies", "symbol/setsymbol/set.go: LoadLexemes")],
    ["ParseNode tree returned by Parse"])

add("C08", "Packrat resolves ambiguity by earliest production, leftmost first",
    "For every grammar in which no non-terminal can derive itself, the packrat parser returns the one derivation whose production choices, read in pre-order, are lexicographically smallest by position in the grammar: each node uses the earliest listed production that can cover its span, and among divisions of the span the one whose leftmost child can make the earlier choice. In particular a rule of the form E -> E op E groups to the left, and operators in earlier productions bind more loosely.",
    ["inputs", "programs"], "all grammars without self-derivation and all accepted inputs",
    "Four ambiguous inputs are tested; whether the best candidate survives depends on the order in which spans are completed.",
    ["parser/packrat/packrat.go"],
    [("priority comparison and replacement in the memo", "parser/packrat/packrat.go: comparePriority, addToMemo, createsCircularDep")],
    ["ParseNode tree returned by Parse"])

add("C09", "The top-down parser is ordered choice and never leaves the language",
    "The top-down parser tries the productions of a symbol in order and commits to the first that matches at a position, except that the start symbol tries its productions until one consumes the whole input; it returns the tree these choices determine, and nil if there is none. It therefore never accepts a sequence outside the grammar's language, and on grammars where the first matching production is always the right one it accepts the whole language.",
    ["inputs", "programs"], "all grammars that are not left-recursive and all lexeme sequences",
    "Three accepted inputs are tested, one tree compared and no rejected input; memoisation and commitment effects depend on grammar and input.",
    ["parser/topdown/topdown.go"],
    [("ordered choice with memo", "parser/topdown/topdown.go: accept, tryAccept, acceptProd")],
    ["Parse return value"], [("memo", "result per symbol and position", "parser/topdown/topdown.go: tdOp")])

add("C10", "Left recursion is detected exactly",
    "The left-recursion test answers yes exactly when some non-terminal can derive a sequence beginning with itself, taking into account symbols that can vanish directly or through other non-terminals, however the non-terminals are ordered. The top-down parser's constructor refuses exactly those grammars with its left-recursion error and accepts all others, so parsing with a constructed top-down parser always terminates.",
    ["programs", "configurations"], "all grammars, with their non-terminals listed in any order",
    "The tests of this function do not run here and cover three grammars; hidden left recursion depends on nullability through chains and on visiting order.",
    ["leftrecursion.go", "parser/topdown/topdown.go"],
    [("search over left-most symbols", "leftrecursion.go: IsLeftRecursive, check"), ("constructor guard", "parser/topdown/topdown.go: New")],
    ["IsLeftRecursive result", "topdown.New error"])

add("C11", "Removing left recursion gives a non-left-recursive, equivalent grammar",
    "For every grammar, the grammar returned by left-recursion removal is not left recursive, has the same start symbol (if it has any production at all), and derives exactly the same sequences of terminals as the original, which itself is left unchanged.",
    ["programs"], "all grammars: direct, indirect and hidden left recursion, empty productions, cycles, unproductive symbols",
    "Two grammars are transformed in the tests and only the printed text is compared; equivalence is over all sequences.",
    ["grammar/left_recursion.go", "grammar/grammar.go"],
    [("substitution and tail non-terminals", "grammar/left_recursion.go: RemoveLeftRecursion")],
    ["productions of the returned grammar"])

add("C12", "Grammar analysis answers membership, first-symbol and leftmost-empty exactly",
    "For every grammar, the analysis reports a symbol as contained exactly when it occurs in the grammar and as a non-terminal exactly when it has productions; reports a terminal as a possible first symbol of a non-terminal exactly when some sequence derived from that non-terminal can begin with it, and as the only first symbol of itself; and reports an empty production as reachable from a symbol exactly when some chain of leftmost children leads to one.",
    ["programs", "configurations"], "all grammars (recursive, mutually recursive, nullable) and all symbol pairs",
    "One non-recursive grammar in two variants is tested; results for recursive grammars depend on visiting order.",
    ["analyze/analysis.go", "symbol/setsymbol/set.go"],
    [("first sets", "analyze/analysis.go: Analyze, firsts")],
    ["Contains, NonTerminal, HasFirst, HasNilInFirst"])

add("C13", "Regex-grammar operators denote the right language and flatten cleanly",
    "A regex grammar accepts exactly the sequences its operators describe - optional, repetition, alternation (binding tighter than juxtaposition), nested groups, empty groups and continuation lines - for every nesting, and two different repeated groups are never confused. After the reducer returned with the grammar is applied to a parse tree, no helper node introduced for a repetition remains, and the children of each written non-terminal are, in order, exactly the symbols its right side matched. Comment lines are ignored and malformed text gives an error.",
    ["programs", "inputs"], "all regex-grammar texts and all lexeme sequences",
    "Tests compare the expansion of about ten productions and one reduced tree; operator nesting and the sequences derived are unbounded.",
    ["grammar/regexgram/regexgram.go"],
    [("expansion of operators", "grammar/regexgram/regexgram.go: evalSymbol, mergeRules, addRepeatAsProduction, getName"), ("flattening reducer", "grammar/regexgram/regexgram.go: bludgeon")],
    ["regexgram.New results, packrat parses under the returned grammar, reduced trees"])

add("C14", "Reduce works on a copy, bottom-up, once per node",
    "Reducing a tree never changes the tree it is given; it returns a new tree, sharing no nodes with the original, in which the reduction registered for a node's kind has been applied exactly once to each node, children before parents and left before right, while kinds without a reduction are copied unchanged with kind, value and position. In the result every child's parent is the node that holds it and the root has none. Merging two reducers acts on every node like the first reducer's reduction followed by the second's, and adding to one of the three reducers later changes neither of the others. Reducing no tree gives no tree.",
    ["inputs", "programs"], "all trees and all reducers built from the provided reductions and from user functions",
    "Tests reduce a dozen small trees and never inspect the input tree afterwards, the order of application or parent links.",
    ["tree/reducer.go", "tree/chain_reductions.go"],
    [("copying traversal", "tree/reducer.go: RawReduce, Reduce"), ("merge", "tree/reducer.go: Merge; tree/chain_reductions.go: Chain, If")],
    ["input tree before/after, result tree, order of reduction calls"])

add("C15", "Tree edits do exactly what they document and keep the tree linked",
    "Each tree editing operation (remove by index, indexes or kinds; promote a child, its value, its children, the grandchildren or a single child; replace by a child; and their conditional and chained forms) changes the node's kind, value, position and child list exactly as documented, relative order preserved and nothing else touched. Negative indexes count from the end, and an index that is out of range either way changes nothing; the operations that report whether they acted report it truly. After any sequence of edits every child's parent is the node that holds it, the edited node's own parent is unchanged, and no node occurs twice.",
    ["inputs", "histories"], "all trees and all sequences of edits with all indexes, in and out of range",
    "Each operation is tested on one or two trees with one or two in-range indexes; slice aliasing and parent links after sequences of edits are not checked.",
    ["tree/node_reductions.go", "tree/chain_reductions.go", "tree/parsetree.go"],
    [("in-place slice edits", "tree/node_reductions.go"), ("index conversion", "tree/node_reductions.go: GetIdx")],
    ["the edited tree"], [("C, P", "child slice and parent link", "tree/parsetree.go: PN")])

add("C16", "Tree text round-trips and malformed tree text is refused",
    "Printing any tree whose kinds are non-empty and free of white space, quotes, colons and braces, and reading the text back, gives a tree with the same shape, kinds and values, whatever bytes the values contain, and with correct parent links. Text that is not a balanced, non-empty tree definition is refused with an error. Size counts the nodes and cloning gives an equal, fully independent tree.",
    ["inputs"], "all trees with such kinds and arbitrary byte-string values; all texts",
    "Two trees are round-tripped, one with a quoted value; escapes for arbitrary bytes and unbalanced texts are not reached.",
    ["tree/parsetree.go"],
    [("printing", "tree/parsetree.go: String"), ("line parser", "tree/parsetree.go: New, reTreeLine")],
    ["tree.New, String, Size, Clone"])

add("C17", "Reducer text behaves like the same reductions written in code",
    "A reducer read from its text form transforms every tree exactly like the reducer built in code from the same rules: each rule's chain applied in order with its literal arguments (negative indexes included), conditionals choosing the written branch, Nil doing nothing, comments and white space ignored, and a later rule for the same kind replacing the earlier one. Text outside the language is refused with an error.",
    ["programs", "inputs"], "all reducer texts and all trees",
    "Each operation is tested once with one argument; chains, nested conditionals, layout and their combination are unbounded.",
    ["tree/reducer/reducer.go", "grammar/regexgram/regexgram.go", "parser/packrat/packrat.go"],
    [("reducer language and evaluation", "tree/reducer/reducer.go: Parse, evalReduction")],
    ["reduced trees"])

add("C18", "Shared lexers, parsers, reducers and runners are safe under concurrency",
    "Once built, a lexer, grammar, parser, reducer, analysis or runner can be used from any number of goroutines at once, as can the package-level text readers and everything that is written out, without data races; every call returns the same result as it would alone.",
    ["schedules", "inputs"], "all interleavings of concurrent calls on shared components, including first uses and inputs with lexing errors",
    "No test uses two goroutines on one component, and none runs under the race detector.",
    ["lexer/simplelexer/lexer.go", "lexer/stacklexer/lex.go", "grammar/grammar.go", "symbol/setsymbol/set.go", "parser/packrat/packrat.go", "parser/topdown/topdown.go", "grammar/regexgram/regexgram.go", "tree/reducer/reducer.go", "parlex.go"],
    [("per-call operation state", "lexOp, prOp, tdOp, evalOp"), ("shared symbol sets", "symbol/setsymbol/set.go: Set")],
    ["race detector reports", "results of concurrent versus sequential calls"], [("symbol set", "name/number table shared by a lexer or grammar and its users", "symbol/setsymbol/set.go: Set")])

add("C19", "Earlier inputs never influence later results",
    "What a lexer, parser, reducer, runner or text reader returns depends only on its definition and the current input, never on what it processed before: after any history of successful, failing or erroneous uses, lookups and rule additions it returns what a freshly built one with the same definition returns. Results handed out earlier are not changed by later uses.",
    ["histories", "inputs"], "all sequences of calls, rule additions, mode changes and lookups on one instance",
    "Tests use each instance for one or two inputs; state leaking through symbol tables, memos or shared slices needs particular call sequences.",
    ["lexer/simplelexer/lexer.go", "lexer/simplelexer/construct.go", "lexer/stacklexer/lex.go", "grammar/grammar.go", "parser/packrat/packrat.go", "parser/topdown/topdown.go", "symbol/setsymbol/set.go"],
    [("per-call operation state", "lexOp, prOp, tdOp"), ("rule tables indexed by symbol number", "lexer/simplelexer/construct.go: addRule")],
    ["results of reused versus fresh instances; earlier results re-read later"])

add("C20", "The pipeline reports the first failing stage and nothing else",
    "Running a pipeline returns a tree and no error, or an error and no tree: the lex error if the lexer returns nil, the first error lexeme if there is any (then the parser is not called), the parse error if the parser returns nil, the reduce error if a reducer returns nil, and otherwise the parser's tree passed through the non-nil reducers in order. A stored runner behaves the same as the direct call, and each stage is called at most once with the exact output of the stage before.",
    ["inputs", "fault_sequences", "configurations"], "all combinations of stage outcomes, reducer lists with nil entries, and inputs",
    "The root package has no running test of the pipeline; examples cover one success and two failures.",
    ["parlex.go", "helpers.go", "errors.go"],
    [("stage sequencing", "parlex.go: Run, Runner.Run"), ("error collection", "helpers.go: LexErrors")],
    ["return values and recorded stage calls"])

add("C21", "Symbol sets number names one-to-one; conversions keep productions intact",
    "In a symbol set each distinct string gets one number, numbers are assigned consecutively and never change, number and name convert back and forth, out-of-range numbers give no symbol, and membership tests add nothing. Converting symbols, productions and production lists between sets or symbol implementations preserves length, order and names, iterators visit each element exactly once in order, and extending one production never changes another. The text of a production is its symbols with spaces between; that of a set's production list shows every production's symbols in order, as {[A, B] [C]}.",
    ["histories"], "all sequences of operations on one or several sets and all productions",
    "One test builds three symbols and two productions.",
    ["symbol/setsymbol/set.go", "symbol/stringsymbol/symbol.go", "helpers.go"],
    [("two-way table", "symbol/setsymbol/set.go: Set, Str, Idx, ByIdx"), ("casts", "CastProduction(s) in both packages"), ("iterators", "helpers.go: ProductionIterator, ProductionsIterator")],
    ["results of the exported operations"], [("str2sym, symb2str", "the two directions of the table", "symbol/setsymbol/set.go: Set")])

add("C22", "Parsing work stays bounded: no re-expansion, no runaway",
    "Both parsers always finish, and while parsing n lexemes neither looks up the productions of a symbol more than a small constant number of times per input position, whatever backtracking, recursion or ambiguity the grammar has. The packrat parser's total steps stay polynomial in n (of a degree set by the length of the longest production) and the top-down parser's proportional to grammar size times input length.",
    ["inputs", "programs"], "all grammars (nested, ambiguous, left-recursive, cyclic) and all input lengths",
    "Tests use inputs of at most a dozen lexemes, where an exponential parser is still instant.",
    ["parser/packrat/packrat.go", "parser/topdown/topdown.go"],
    [("queued set per symbol and position", "parser/packrat/packrat.go: addProds"), ("memo per symbol and position", "parser/topdown/topdown.go: accept")],
    ["calls the parser makes on the grammar interface"])

add("C23", "JSON formatting and arithmetic built on the library keep their meaning",
    "Formatting a JSON document made of objects, arrays, strings, unsigned numbers, booleans and null never changes it except for white space between tokens, formatting twice gives the same text as formatting once, every such document is accepted and malformed ones are refused with an error. The arithmetic evaluator returns the value of every expression of numbers (each with at most one sign), + - * / and parentheses with the usual precedence and left grouping, and an error for text that is not one. The programs print exactly what the library computes for their joined arguments, or a message and no result.",
    ["inputs"], "all documents and all expressions",
    "One document and nine expressions are tested; these runs go through lexer, regex grammar, both parsers and reducers together.",
    ["examples/parlexjson/json.go", "examples/parlexmath/math.go", "grammar/regexgram/regexgram.go", "parser/topdown/topdown.go", "parser/packrat/packrat.go", "tree/reducer/reducer.go", "lexer/simplelexer/lexer.go"],
    [("whole pipeline", "examples/parlexjson/json.go: Format; examples/parlexmath/math.go: Eval")],
    ["Format and Eval results"])

add("C24", "No text makes the library crash or hang",
    "Whatever text is given to the readers (grammar, regex grammar, both lexer definitions, tree, reducer) they return a value or an error; and whatever text is then given to a lexer so built, and whatever lexemes to a parser for a grammar so built, the call returns normally. No panic, fatal error, stack overflow or endless loop. (The optional parts and alternatives of one line of a regex grammar expand to all their combinations by design, so their number is assumed to be small.)",
    ["inputs", "fault_sequences"], "all byte strings as definitions and as inputs",
    "Tests feed well-formed definitions almost exclusively.",
    ["grammar/grammar.go", "grammar/regexgram/regexgram.go", "lexer/simplelexer/construct.go", "lexer/stacklexer/construct.go", "lexer/stacklexer/lex.go", "tree/parsetree.go", "tree/reducer/reducer.go", "parser/packrat/packrat.go", "parser/topdown/topdown.go"],
    [("error returns of the readers", "New / Parse functions"), ("bounds and nil checks in the lexers", "lexer/stacklexer/lex.go: pop, populateNext")],
    ["return versus panic, crash or resource exhaustion of the process"])

add("C25", "The stack calculator evaluates postfix texts, groups and conditionals",
    "Every postfix text of signed decimal numbers, unary (--, abs) and binary (+ - * / ^ % > < = cmpr) operators evaluates to the stack of its values in order, each with the documented operator applied to the nearest complete operands before it, and with the largest number of decimals among its operands. A stack operator (len, sum, avg, min, max, first, last) that ends the text or a parenthesised group consumes all values of that text or group and leaves one value there; a conditional that makes up the whole text picks the second of its two values or operators when the condition is positive and the first otherwise. One stack manipulation at the end of the text swaps the last two values, drops the last one or clears them all. A value is written with exactly its number of decimals. The interactive program evaluates each line of its input behind the stack it showed last, keeps that stack if it refuses a line, and ends when told to or when its input ends. Text with an unknown word, unbalanced parentheses or missing operands is refused.",
    ["inputs"], "all postfix texts (without swap, drop and clear, and with conditionals only as the whole text)",
    "About fifty short texts are tested; the grammar is highly ambiguous and left recursive, so the result rests on the lexer's choice, the packrat parser's resolution of ambiguity and the tree edits at once.",
    ["examples/scalc/scalc.go", "parser/packrat/packrat.go", "tree/node_reductions.go", "lexer/simplelexer/lexer.go"],
    [("earliest production, leftmost first", "parser/packrat/packrat.go"), ("promotion of operators", "examples/scalc/scalc.go: rdcr, evalE")],
    ["Eval results"])

add("C26", "Diagnostics show every lexeme and error as it is",
    "The error lexemes of a lexeme list are exactly those selected by LexErrors, in order, and the text of an error of either lexer reads \"Lex Error LINE:COLUMN) TEXT\" with that lexeme's own position and bytes. The renderings of a lexeme list show every lexeme once, in order: in one line as kind, and value if it is not empty, or one per line with kind, quoted value and, where line or column is positive, the position; a single lexeme prints its kind, quoted value and any position that was set. The Must helpers return exactly what the constructor returned, or panic with exactly its error.",
    ["inputs"], "all lexeme lists and all inputs with errors",
    "The tests of these helpers do not even build here, and the lexer tests check one error message.",
    ["helpers.go", "lexeme/lexeme.go", "lexer/simplelexer/lexer.go", "lexer/stacklexer/construct.go"],
    [("renderings", "helpers.go: LexemeString, LexemeList, LexErrors, Must*"), ("error text", "lexer/*/: errLexeme.Error")],
    ["returned strings, selections and panics"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
