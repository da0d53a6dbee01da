package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

func init() {
	register(&Prop{
		ID:       "C26",
		Rule:     "lexeme lists of both lexers on texts with errors, and random lists of own and library lexemes: listings, error texts and the selection of errors compared with what the lexemes say; the Must helpers on good and bad definitions; non-trivial: distinct list of at least 2 lexemes",
		Quick:    400000,
		Thorough: 2000000,
		Run:      runC26,
		Floors:   map[string]int64{"lexer_errors": 50000, "listed": 100000, "must_value": 1000, "must_panic": 1000, "positions_shown": 20000, "positions_unknown": 5000},
	})
}

func runC26(t *T) {
	switch {
	case t.Chance(0.1):
		runC26must(t)
	case t.Chance(0.5):
		runC26lexer(t)
	default:
		var ls []parlex.Lexeme
		n := t.IntN(6)
		if t.Chance(0.02) {
			n = t.Size(6, 100)
		}
		for ; n > 0; n-- {
			k := pick(t, []string{"int", "op", "", "a b", "é", "K:", "%d", "Error"})
			v := pick(t, []string{"", "1", "a b", "\n", "\"", "%s", "é", "\xff", ", ", "\x00", ": "})
			if t.Chance(0.05) {
				k, v = strings.Repeat(pick(t, []string{"k", "é"}), t.Size(1, 60)), strings.Repeat(pick(t, []string{"v", "é", "\n"}), t.Size(1, 60))
			}
			l, c := t.Range(-1, 3), t.Range(-1, 12)
			if t.Chance(0.1) {
				l, c = t.Size(1, 5000), t.Size(1, 5000)
			}
			switch t.IntN(4) {
			case 0:
				x := lexeme.New(&mySym{k})
				if t.Bool() {
					x = lexeme.String(k)
				}
				bare := "Lexeme{" + k + "}"
				if l, _ := x.Pos(); x.String() != bare || x.Value() != "" || l > 0 || x.Kind().String() != k {
					t.Desc("a new lexeme of kind %q", k)
					t.Fail("lexeme", "a new lexeme prints %q with the value %q on line %d", x.String(), x.Value(), l)
				}
				x.Set(v)
				if t.Bool() {
					x.At(l, c)
				}
				y := lexeme.Copy(x)
				if y == x || y.String() != x.String() || *y != *x {
					t.Desc("the lexeme %v", x)
					t.Fail("lexeme", "its copy is %v", y)
				}
				ls = append(ls, pick(t, []parlex.Lexeme{x, y}))
			case 1:
				ls = append(ls, lexeme.String(k).Set(v).At(l, c))
			case 2:
				ls = append(ls, &errLx{myLexeme{&mySym{k}, v, l, c}, "m"})
			case 3:
				ls = append(ls, &myLexeme{&mySym{k}, v, l, c})
			}
		}
		t.Desc("lexemes:")
		t.listing(ls)
	}
}

// listing compares the renderings of a list with what the lexemes say.
func (t *T) listing(ls []parlex.Lexeme) {
	var inline, lines, descr []string
	var errs []parlex.Lexeme
	for _, l := range ls {
		k, v := l.Kind().String(), l.Value()
		line, col := l.Pos()
		descr = append(descr, fmt.Sprintf("%q %q %d %d", k, v, line, col))
		if v == "" {
			inline = append(inline, k)
		} else {
			inline = append(inline, k+": "+v)
		}
		s := k + ": " + strconv.Quote(v)
		if line > 0 || col > 0 {
			s += " (" + strconv.Itoa(line) + ", " + strconv.Itoa(col) + ")"
			t.Count("positions_shown", 1)
		} else {
			t.Count("positions_unknown", 1)
		}
		lines = append(lines, s)
		if _, ok := l.(interface{ Error() string }); ok {
			errs = append(errs, l)
		}
		if x, ok := l.(*lexeme.Lexeme); ok {
			want := "Lexeme{" + k
			if v != "" {
				want += ":" + strconv.Quote(v)
			}
			if line != -1 {
				want += " (" + strconv.Itoa(line) + ", " + strconv.Itoa(col) + ")"
			}
			want += "}"
			if got := x.String(); got != want {
				t.Fail("lexeme", "the lexeme prints %q, expected %q", got, want)
			}
		}
	}
	t.More("%s", strings.Join(descr, "\n"))
	t.Eval()
	t.Count("listed", len(ls))
	want := "[" + strings.Join(inline, ", ") + "]"
	switch len(ls) {
	case 0:
		want = ""
	case 1:
		want = inline[0]
	}
	if got := parlex.LexemeString(ls...); got != want {
		t.Fail("string", "LexemeString gives %q, expected %q", got, want)
	}
	if got, want := parlex.LexemeList(ls), strings.Join(lines, "\n"); got != want {
		t.Fail("list", "LexemeList gives %q, expected %q", got, want)
	}
	got := parlex.LexErrors(ls)
	if len(got) != len(errs) {
		t.Fail("errors", "LexErrors gives %d errors, the list has %d", len(got), len(errs))
	}
	for i, e := range got {
		if parlex.Lexeme(e) != errs[i] {
			t.Fail("errors", "error %d of LexErrors is %q %q", i, e.Kind().String(), e.Value())
		}
	}
	if len(ls) > 1 {
		t.Seen(descr...)
	}
	t.Sample("%s", strings.Join(lines, " "))
}

func runC26lexer(t *T) {
	al := t.lexAlpha()
	var l parlex.Lexer
	if t.Bool() {
		d := t.simpleDef(al)
		t.Desc("simple lexer")
		l = d.buildSimple(t, 0)
	} else {
		d := t.stackDef(al)
		t.Desc("stack lexer")
		l = d.buildStack(t)
	}
	desc := strings.Join(t.desc, "\n")
	for i := t.Range(1, 3); i > 0; i-- {
		in := t.lexInput(al, 12)
		t.Desc("%s\ninput: %q", desc, in)
		ls := l.Lex(in)
		for _, x := range ls {
			e, ok := x.(parlex.LexError)
			if !ok {
				continue
			}
			line, col := x.Pos()
			want := fmt.Sprintf("Lex Error %d:%d) %s", line, col, x.Value())
			if got := e.Error(); got != want {
				t.Fail("message", "the error at %d:%d on %q reads %q", line, col, x.Value(), got)
			}
			t.Count("lexer_errors", 1)
		}
		t.listing(ls)
	}
}

// must calls f and returns what it panics with.
func must(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

func runC26must(t *T) {
	check := func(what string, got, want interface{}, err error, p interface{}) {
		t.Desc("%s of a constructor that returned the error %v", what, err)
		t.Eval()
		if err == nil {
			t.Count("must_value", 1)
			if p != nil {
				t.Fail("must", "it panics with %v", p)
			}
			if got != want {
				t.Fail("must", "it returns %v, not what the constructor returned", got)
			}
			return
		}
		t.Count("must_panic", 1)
		if pe, ok := p.(error); !ok || pe != err {
			t.Fail("must", "it panics with %v", p)
		}
	}
	if t.Chance(0.4) {
		t.mustReaders()
		return
	}
	switch t.IntN(4) {
	case 0:
		l, err := simplelexer.New(pick(t, []string{"a /b/", "a /(/", "a /b/\na /c/", "a\nb -", "x /\\/\\d+/ -"}))
		var pl parlex.Lexer = l
		if err == nil && t.Chance(0.3) {
			pl = nil
		}
		var got parlex.Lexer
		p := must(func() { got = parlex.MustLexer(pl, err) })
		check("MustLexer", got, pl, err, p)
	case 1:
		l, err := stacklexer.New(pick(t, []string{"== A ==\na /b/", "== A ==\na /(/", "", "== A ==\na /b/ B"}))
		var pl parlex.Lexer = l
		var got parlex.Lexer
		p := must(func() { got = parlex.MustLexer(pl, err) })
		check("MustLexer", got, pl, err, p)
	case 2:
		g, err := grammar.New(pick(t, []string{"A -> a", "A -> a -> b", "A", "A -> A a\n ->"}))
		var pg parlex.Grammar = g
		var got parlex.Grammar
		p := must(func() { got = parlex.MustGrammar(pg, err) })
		check("MustGrammar", got, pg, err, p)
	case 3:
		g, err := grammar.New(pick(t, []string{"A -> a", "A -> A a\n->", "A -> B A\nB -> ", "A -> a A\n ->"}))
		if err != nil {
			t.Fail("refused", "a valid grammar was refused: %v", err)
		}
		x, err := topdown.New(g)
		var px parlex.Parser = x
		var got parlex.Parser
		p := must(func() { got = parlex.MustParser(px, err) })
		check("MustParser", got, px, err, p)
	}
}

// mustReaders compares the Must functions of the packages with the functions
// they are made from: the same result in every use, or a panic with the error.
func (t *T) mustReaders() {
	same := func(what string, err error, p interface{}, want, got func() string) {
		t.Desc("%s\nerror %v", what, err)
		t.Eval()
		if err != nil {
			pe, ok := p.(error)
			if !ok || pe.Error() != err.Error() {
				t.Fail("must", "Must panics with %v", p)
			}
			t.Count("must_panic", 1)
			return
		}
		if p != nil {
			t.Fail("must", "Must panics with %v", p)
		}
		if w, g := want(), got(); w != g {
			t.Fail("must", "Must gives something else\n got %s\nwant %s", g, w)
		}
		t.Count("must_value", 1)
	}
	switch t.IntN(3) {
	case 0:
		text := pick(t, []string{"A -> b c*", "A -> b? | (c d)+", "A -> (b", "", "A b", "A -> b\nB -> A{2}", "A -> b*\nC -> A c?", "A -> (b c)* d", "-> a", "A -> | b"})
		g, r, err := regexgram.New(text)
		var mg *grammar.Grammar
		var mr tree.Reducer
		p := must(func() { mg, mr = regexgram.Must(text) })
		in := t.pn(t.randTree(10, []string{"A", "b", "c", "b*", "c*", "d", "c?"}, nil))
		show := func(g *grammar.Grammar, r tree.Reducer) func() string {
			return func() string {
				x := packrat.New(g)
				s := g.String() + "\n" + linkedShape(r.Reduce(in))
				for _, in := range [][]string{{"b"}, {"b", "c"}, {"b", "c", "c"}, {"c", "d"}, {}} {
					n := x.Parse(kindLexemes(in))
					s += shape(n)
					if n != nil {
						s += linkedShape(r.Reduce(n))
					}
				}
				return s
			}
		}
		same(fmt.Sprintf("regexgram.Must(%q)", text), err, p, show(g, r), show(mg, mr))
	case 1:
		text := pick(t, []string{"A PromoteSingleChild()", "A Nil", "A RemoveChild(0).PromoteChild(-1)", "A Unknown()", "A", "A RemoveAll(\"B\")\nB PromoteGrandChildren()", "(", "A If(ChildIs(0, \"B\"), RemoveChild(0), Nil)", ""})
		r, err := reducer.Parse(text)
		var mr tree.Reducer
		p := must(func() { mr = reducer.Must(text) })
		m := t.pn(t.randTree(10, treeKinds, nil))
		show := func(r tree.Reducer) func() string {
			return func() string { return fmt.Sprint(len(r)) + linkedShape(r.Reduce(m)) }
		}
		same(fmt.Sprintf("reducer.Must(%q)", text), err, p, show(r), show(mr))
	case 2:
		text := pick(t, [][]string{{"== A ==\na /a/\nb /b/ B", "== B ==\nc /c/ ^"}, {"== A ==\na /(/"}, {}, {"== A ==\na /a/ B"}, {"== A ==\na /a/\nw /\\s+/ -"}, {"a /a/"}})
		l, err := stacklexer.New(text...)
		var ml *stacklexer.StackLexer
		p := must(func() { ml = stacklexer.Must(text...) })
		in := pick(t, []string{"", "a", "abca", "a a", "bccca?", "abba", "caa"})
		show := func(l *stacklexer.StackLexer) func() string { return func() string { return lexStrings(l.Lex(in)) } }
		same(fmt.Sprintf("stacklexer.Must(%q)", text), err, p, show(l), show(ml))
	}
}

func kindLexemes(kinds []string) []parlex.Lexeme {
	out := []parlex.Lexeme{}
	for _, k := range kinds {
		out = append(out, lexeme.String(k))
	}
	return out
}
