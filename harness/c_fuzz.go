package main

import (
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

func init() {
	register(&Prop{
		ID:       "C24",
		Rule:     "texts for each reader: valid ones, mutated and spliced ones, sequences of the tokens of the notation, random bytes and structured extremes (deep, long, repeated); whatever is built is used on further such texts and lexemes; a panic, a fatal error or more than 100 s of CPU time or 3 GB in one case is a violation; non-trivial: distinct text",
		Quick:    160000,
		Thorough: 4000000,
		Run:      runC24,
		Floors:   map[string]int64{"accepted": 20000, "refused": 10000, "lexed": 10000, "parsed": 20000, "reduced": 3000},
		Assume:   []string{"texts of regex grammars have few enough optional parts and alternatives, which expand to all their combinations; grammars are small enough for the packrat parser"},
	})
}

var fuzzTokens = [][]string{
	{"A", "B", "->", "->", "\n", " ", "\t", "|", "a", "b", "START", "'", "\r\n", "-", ">", "é", "\x00", "\n\n", "//", "nil"},
	{"A", "B", "->", "\n", " ", "(", ")", "*", "+", "?", "|", "a", "b", "//", "( )", "(A)*", "(B C)?", "((a))", "\t", "()*", "*?", "A*"},
	{"a", "b", "/", "/a/", "/a*/", "/[ab]+/", "/(a)(b)?/", " -", "-", "\n", " ", "/./", "/\\s+/", "/", "\\", "(1)", "(", ")", "/\\//", "//", "/^a/", "/a$/", "/\\b/", "/(?i)a/", "/()/", "/x|/"},
	{"== Main ==\n", "== B ==\n", "==C\n", "== Main\n", "a", "b", "/a/", "/a*/", "/(a)(b)?/", " (1)", " (0|1)", " (\"x\"|2)", " (9)", " (99999999999999999999)", " (-1)", " ()", " ^", " ^^", " ^^^^^^^^", " B", " Main", " -", "\n", "\n", " ", "Main", "B", "/./", "==", "/[/", "/", "/()/"},
	{"A", "B", "{", "}", ":", "\"", "\"v\"", "\\", "\\n", "\n", " ", "{\n", "}\n", ": \"x\"", ": \"\"", "\"\"", "\n\t", "\\\"", "\x00", "é", "\xff"},
	{"A", "B", "Nil", ".", "(", ")", ",", "If", "If(ChildIs(0, \"x\"), Nil, Nil)", "RemoveChild(0)", "RemoveChild(-1)", "RemoveChild(99999999999999999999)", "RemoveChildren(0, -99999999999999999999)", "If(ChildIs(99999999999999999999, \"x\"), Nil, Nil)", "PromoteSingleChild()", "RemoveChildren(0, -1)", "RemoveAll(\"A\")", "1", "-1", "\"x\"", "\n", " ", "//c\n", "PromoteChildrenOf(9)", "ReplaceWithChild(0)", "PromoteGrandChildren()", "PromoteChildValue(-9223372036854775808)", "ChildIs", "PromoteChild(1)", "1.5", "-", "\"\"", "RemoveAll(\"\")", "RemoveAll(\"x\", \"\")", "If(ChildIs(0, \"\"), Nil, Nil)", "A ", "\"\\\"\"", "\"\\", "\"\n\"", "\"é\"", "\xff"},
}

var digitsRe = regexp.MustCompile(`\d+`)
var wordsRe = regexp.MustCompile(`\w+|[^\w\s]+`)

// fuzzText makes a text for the reader with the number.
func (t *T) fuzzText(k int) string {
	valid := func() string {
		al := t.lexAlpha()
		switch k {
		case 0:
			return t.smallCFG().text()
		case 1:
			return ebText(t, t.ebGrammar())
		case 2:
			return t.simpleDef(al).text(t)
		case 3:
			return t.stackDef(al).text(t)
		case 4:
			return t.pn(t.randTree(12, oddKinds, nil)).String()
		}
		var lines []string
		for i := t.Range(0, 4); i > 0; i-- {
			lines = append(lines, pick(t, treeKinds)+" "+dslChain(t, t.edits(append([]string{"", "x y", "\n"}, treeKinds...), 2), func() string { return pick(t, []string{"", " ", "// c\n"}) }))
		}
		return strings.Join(lines, "\n")
	}
	toks := fuzzTokens[k]
	var s string
	switch m := t.IntN(20); {
	case m < 4:
		s = valid()
	case m < 11: // mutated
		s = valid()
		for n := t.Range(1, 4); n > 0; n-- {
			i := t.IntN(len(s) + 1)
			j := i + t.IntN(len(s)+1-i)
			if j > i+12 {
				j = i + 12
			}
			switch t.IntN(8) {
			case 6: // another number
				if ds := digitsRe.FindAllStringIndex(s, -1); len(ds) > 0 {
					d := pick(t, ds)
					s = s[:d[0]] + pick(t, []string{"99999999999999999999", "9223372036854775807", "9223372036854775808", "2147483648", "4294967296", "65536", "256", "00", "-1", "1.5", "1e9", "0x1", ""}) + s[d[1]:]
				}
			case 7: // a word of the text for another
				if ws := wordsRe.FindAllStringIndex(s, -1); len(ws) > 1 {
					d, w := pick(t, ws), pick(t, ws)
					s = s[:d[0]] + s[w[0]:w[1]] + s[d[1]:]
				}
			case 0:
				s = s[:i] + s[j:]
			case 1:
				s = s[:i] + pick(t, toks) + s[i:]
			case 2:
				s = s[:i] + pick(t, toks) + s[j:]
			case 3:
				s = s[:j] + s[i:]
			case 4:
				if i < len(s) {
					b := []byte(s)
					b[i] = byte(t.IntN(256))
					s = string(b)
				}
			case 5:
				s = s[:i]
			}
		}
	case m < 17: // tokens
		var b strings.Builder
		for n := t.IntN(24); n > 0; n-- {
			b.WriteString(pick(t, toks))
		}
		s = b.String()
	case m < 18: // bytes
		var b strings.Builder
		for n := t.IntN(40); n > 0; n-- {
			b.WriteByte(byte(t.IntN(256)))
		}
		s = b.String()
	default:
		s = t.extreme(k)
	}
	return s
}

// extreme makes a long, deep or repetitive text.
func (t *T) extreme(k int) string {
	n := pick(t, []int{10, 40, 150})
	rep := strings.Repeat
	switch k {
	case 0:
		return pick(t, []string{
			"A -> " + rep("a ", n*10), rep("A -> a\n", n), "A" + rep("A", n*20) + " -> b", rep("\n", n*20), rep("->", n), rep(" ", n*20) + "A -> a",
			rep("-> a\n", n), "A -> " + rep("A ", 6) + "\n-> a", "A -> B\n" + rep("B -> B\n", n) + "B -> b", rep("\t", n), "A ->" + rep("\n->", 20),
		})
	case 1:
		if n > 40 {
			n = 40
		}
		return pick(t, []string{
			"A -> " + rep("(", n/2) + "a" + rep(")", n/2), "A -> " + rep("(", n/2) + "a" + rep(")*", n/2), "A -> " + rep("a ", n), "A -> " + rep("(a)", n/2),
			"A -> a" + rep("*", n/4), rep("A -> a\n", n/2), rep("// c\n", n) + "A -> a", "A -> " + rep("(", n), "A -> " + rep("()", n/2), "A -> (a " + rep("b ", n/2) + ")*",
			"A -> " + rep("(", 6) + "a b" + rep(")+", 6), "A -> (()*)*", "A -> (a*)*", "A -> ((a*)*)*", "A -> (a* b*)*",
		})
	case 2:
		return pick(t, []string{
			rep("/a/ ", n), "a /" + rep("(", n) + rep(")", n) + "/", "a /" + rep("a?", 20) + rep("a", 20) + "/", rep("a\n", n), rep("x", n*50), "a /(a*)*/\nb /(a|a)*b/", rep("\n", n*10),
			"a /a{1000}/", "a /(a{30}){30}/", "a /()*/", "a /(|a)+/",
		})
	case 3:
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString("== L" + suffix(i) + " ==\na /a/ L" + suffix(i+1) + "\nb /b/ ^\n")
		}
		b.WriteString("== L" + suffix(n) + " ==\nc /./ " + rep("^", n))
		return pick(t, []string{
			b.String(), rep("== Main ==\n", 3), "== Main ==\na /a/ " + rep("^", n*10), "== A ==\nB\n== B ==\nA\n", "== A ==\nA\n", "== A ==\na /a/ A\n", "== A ==\n" + rep("B\n", n) + "== B ==\nx /x/\n",
			"== Main ==\na /a/ (" + rep("0|", n) + "0)", "== Main ==\na /()/ ^", "== Main ==\na /a*/ Main\nb /b*/ ^", "==\n", "== ==\n", "== 1 ==\na\n",
		})
	case 4:
		n *= 20
		return pick(t, []string{
			rep("A {\n", n) + rep("}\n", n), rep("A {\n", n), rep("}\n", n), "A {\n" + rep("B\n", n) + "}", "A: \"" + rep("x", n*5) + "\"", rep("\n", n), "A: \"" + rep("\\", n) + "\"", rep("A", n*5), rep("A\n", n),
			"A {\n" + rep("B {\n}\n", n) + "}", rep("A { ", n), "A {\n} {\n} {\n}",
		})
	}
	if n > 40 {
		n = 40
	}
	ifs := "Nil"
	for i := 0; i < n/8; i++ {
		ifs = "If(ChildIs(0, \"A\"), " + ifs + ", Nil)"
	}
	return pick(t, []string{
		"A " + ifs, "A Nil" + rep(".Nil", n), rep("A Nil\n", n), "A RemoveChildren(" + rep("1, ", n) + "1)", "A RemoveAll(" + rep("\"x\", ", n) + "\"x\")", rep("(", n), "A RemoveChild(" + rep("9", n) + ")", rep("// c\n", n*10), rep("A", n*20) + " Nil",
		"A " + rep("If(", n), "A RemoveChild(" + rep("-", n) + "1)",
	})
}

func (t *T) fuzzInput() string {
	al := t.lexAlpha()
	switch t.IntN(6) {
	case 0:
		return strings.Repeat(pick(t, []string{"a", "ab", "\n", "x\n", " ", "aab", "é"}), t.IntN(300))
	case 1:
		var b strings.Builder
		for n := t.IntN(60); n > 0; n-- {
			b.WriteByte(byte(t.IntN(256)))
		}
		return b.String()
	}
	return t.lexInput(al, t.frags())
}

func runC24(t *T) {
	k := t.IntN(6)
	text := t.fuzzText(k)
	what := []string{"grammar", "regex grammar", "simple lexer", "stack lexer", "tree", "reducer"}[k]
	t.Desc("%s: %q", what, trunc(text, 4000))
	note := func(ok, isNil bool, err error) bool {
		t.Eval()
		t.Seen(what, text)
		t.Max("text_bytes", len(text))
		if ok != (err == nil) || ok == isNil {
			t.Fail("result", "the reader returned a value: %v, error: %v", !isNil, err)
		}
		if ok {
			t.Count("accepted", 1)
		} else {
			t.Count("refused", 1)
		}
		return ok
	}
	switch k {
	case 0:
		g, err := grammar.New(text)
		if note(err == nil, g == nil, err) {
			t.useGrammar(g)
		}
	case 1:
		if strings.Count(text, "?")+strings.Count(text, "|") > 9 {
			t.Count("too_many_options", 1)
			return
		}
		g, r, err := regexgram.New(text)
		if note(err == nil, g == nil, err) {
			t.useGrammar(g)
			t.useReducer(r)
		}
	case 2:
		l, err := simplelexer.New(text)
		if note(err == nil, l == nil, err) {
			if t.Chance(0.3) {
				l.ByPriority()
			}
			t.useLexer(l)
			if s, err := simplelexer.New(l.String()); err == nil {
				t.useLexer(s)
			}
		}
	case 3:
		l, err := stacklexer.New(text)
		if note(err == nil, l == nil, err) {
			if t.Chance(0.3) {
				l.ByPriority()
			}
			t.useLexer(l)
		}
	case 4:
		p, err := tree.New(text)
		if note(err == nil, p == nil, err) {
			p.Size()
			tree.Clone(p)
			if len(text) < 5000 {
				_ = p.String()
			}
			r := tree.Reducer{"A": tree.PromoteGrandChildren, "B": tree.PromoteSingleChild}
			r.Reduce(p)
			t.Count("reduced", 1)
		}
	case 5:
		r, err := reducer.Parse(text)
		if note(err == nil, err != nil, err) {
			t.useReducer(r)
		}
	}
	t.Sample("%s: %q", what, trunc(text, 300))
}

func (t *T) useLexer(l parlex.Lexer) {
	base := t.desc[0]
	for i := t.Range(1, 3); i > 0; i-- {
		in := t.fuzzInput()
		t.Desc("%s\ninput: %q", base, trunc(in, 2000))
		for _, lx := range l.Lex(in) {
			_ = lx.Kind().String() + lx.Value()
			lx.Pos()
			if e, ok := lx.(parlex.LexError); ok {
				_ = e.Error()
			}
		}
		t.Eval()
		t.Count("lexed", 1)
	}
}

func (t *T) useReducer(r tree.Reducer) {
	base := t.desc[0]
	for i := 0; i < 3; i++ {
		m := t.randTree(14, append([]string{}, treeKinds...), nil)
		p := t.pn(m)
		t.Desc("%s\ntree: %s", base, m.shape())
		r.Can(p)
		r.Reduce(p)
		t.Eval()
		t.Count("reduced", 1)
	}
}

func (t *T) useGrammar(g *grammar.Grammar) {
	base := t.desc[0]
	_ = g.String()
	m := readCFG(g)
	if len(m.NT) == 0 {
		packrat.New(g).Parse(t.lexemes([]string{"a"}))
		packrat.New(g).Parse(nil)
		if td, err := topdown.New(g); err == nil {
			td.Parse(nil)
			td.Parse(t.lexemes([]string{"a"}))
		}
		t.Count("without_productions", 1)
		return
	}
	lr := parlex.IsLeftRecursive(g)
	a := analyze.Analyze(g)
	for _, s := range t.symbolsFor(m) {
		a.Contains(s)
		a.NonTerminal(s)
		a.HasNilInFirst(s)
		a.HasFirst(s, s)
	}
	if m.size() > 60 || m.nullBlowup() > 2000 || maxProd(m) > 40 {
		t.Count("too_large_to_parse", 1)
		return
	}
	ps := []parlex.Parser{packrat.New(g)}
	if td, err := topdown.New(g); err == nil {
		ps = append(ps, td)
	} else if !lr {
		t.Fail("result", "topdown.New refused a grammar that is not left recursive: %v", err)
	}
	max := 10
	if maxProd(m) > 5 {
		max = 6
	}
	ins := t.inputs(m, 4, 3, max)
	for _, in := range ins {
		if len(in) > max {
			in = in[:max]
		}
		lxs := t.lexemes(in)
		t.Desc("%s\nkinds: %q", base, in)
		for _, p := range ps {
			p.Parse(lxs)
			t.Eval()
			t.Count("parsed", 1)
		}
	}
	for _, p := range ps {
		p.Parse(nil)
	}
}
