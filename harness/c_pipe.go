package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
)

func init() {
	register(&Prop{
		ID:       "C20",
		Rule:     "pipelines of stages that record their calls and yield nothing, errors or results at random, and pipelines of real lexers, parsers and reducers, run directly and with a Runner, several times; non-trivial: distinct configuration of stages",
		Quick:    500000,
		Thorough: 8000000,
		Run:      runC20,
		Floors:   map[string]int64{"lex_error": 5000, "error_lexeme": 10000, "parse_error": 10000, "reduce_error": 10000, "trees": 20000, "real": 5000},
	})
}

// call is an event of a stage.
type call struct {
	stage string // "lex", "parse", "reduce0"...
	in    interface{}
}

type recLexer struct {
	log *[]call
	out []parlex.Lexeme
}

func (l *recLexer) Lex(s string) []parlex.Lexeme {
	*l.log = append(*l.log, call{"lex", s})
	return l.out
}

type recParser struct {
	log *[]call
	out parlex.ParseNode
}

func (p *recParser) Parse(ls []parlex.Lexeme) parlex.ParseNode {
	*p.log = append(*p.log, call{"parse", ls})
	return p.out
}

type recReducer struct {
	log *[]call
	n   int
	out parlex.ParseNode
	id  bool // returns what it is given
	can bool
}

func (r *recReducer) Reduce(n parlex.ParseNode) parlex.ParseNode {
	*r.log = append(*r.log, call{fmt.Sprintf("reduce%d", r.n), n})
	if r.id {
		return n
	}
	return r.out
}
func (r *recReducer) Can(parlex.ParseNode) bool { return r.can }

type errLx struct {
	myLexeme
	msg string
}

func (e *errLx) Error() string { return e.msg }

func sameLexemes(a, b []parlex.Lexeme) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC20(t *T) {
	if t.Chance(0.1) {
		runC20real(t)
		return
	}
	var log []call
	lex := &recLexer{log: &log}
	var firstErr parlex.LexError
	var conf []string
	switch {
	case t.Chance(0.12):
		conf = append(conf, "lexer: nil")
	default:
		lex.out = []parlex.Lexeme{}
		n := t.IntN(6)
		many := t.Chance(0.02)
		if many {
			n = t.Size(7, 600)
		}
		pErr := pick(t, []float64{0, 0, 0.2, 0.6})
		var d []string
		for i := 0; i < n; i++ {
			if t.Chance(pErr) && (!many || i > n/2) {
				l := pick(t, []int{i, i, 0, -1})
				e := &errLx{myLexeme{&mySym{pick(t, []string{"Error", "a", ""})}, pick(t, []string{fmt.Sprintf("e%d", i), "", "\n"}), l, l}, pick(t, []string{"", "bad", "Could Not Parse"})}
				if firstErr == nil {
					firstErr = e
				}
				lex.out = append(lex.out, e)
				d = append(d, "E")
			} else {
				lex.out = append(lex.out, &myLexeme{&mySym{pick(t, []string{"Error", "a", ""})}, pick(t, []string{fmt.Sprintf("v%d", i), "", "v"}), i, i})
				d = append(d, "l")
			}
		}
		conf = append(conf, "lexer: "+strings.Join(d, " "))
	}
	node := func(s string) parlex.ParseNode { return (&mt{kind: "K", val: s}).my() }
	par := &recParser{log: &log}
	if t.Chance(0.75) {
		par.out = node("parsed")
		conf = append(conf, "parser: tree")
	} else {
		conf = append(conf, "parser: nil")
	}
	var reds []parlex.Reducer
	nReds := t.IntN(5)
	pNil := 0.15
	if t.Chance(0.03) {
		nReds = t.Size(5, 70)
		pNil = pick(t, []float64{0, 0.02})
	}
	for i := nReds; i > 0; i-- {
		switch {
		case t.Chance(0.2):
			reds = append(reds, nil)
			conf = append(conf, "reducer: none")
			continue
		case len(reds) > 0 && t.Chance(0.15):
			// the same reducer once more
			k := t.IntN(len(reds))
			if t.Bool() {
				k = len(reds) - 1
			}
			reds = append(reds, reds[k])
			conf = append(conf, fmt.Sprintf("reducer: as %d", k))
			continue
		}
		r := &recReducer{log: &log, n: len(reds), can: t.Chance(0.7)}
		switch {
		case t.Chance(pNil):
			conf = append(conf, "reducer: nil")
		case t.Chance(0.2):
			r.id = true
			conf = append(conf, "reducer: same")
		default:
			r.out = node(fmt.Sprintf("reduced%d", len(reds)))
			conf = append(conf, "reducer: tree")
		}
		reds = append(reds, r)
	}
	input := pick(t, []string{"", "x", "some text", "a\nb", "\xff"})

	// what has to happen
	var calls []call
	var want parlex.ParseNode
	var wantErr error
	func() {
		calls = append(calls, call{"lex", input})
		if lex.out == nil {
			wantErr = parlex.ErrCouldNotLex
			t.Count("lex_error", 1)
			return
		}
		if firstErr != nil {
			wantErr = firstErr
			t.Count("error_lexeme", 1)
			return
		}
		calls = append(calls, call{"parse", lex.out})
		if want = par.out; want == nil {
			wantErr = parlex.ErrCouldNotParse
			t.Count("parse_error", 1)
			return
		}
		for _, r := range reds {
			if r == nil {
				continue
			}
			rr := r.(*recReducer)
			calls = append(calls, call{fmt.Sprintf("reduce%d", rr.n), want})
			if !rr.id {
				want = rr.out
			}
			if want == nil {
				wantErr = parlex.ErrCouldNotReduce
				t.Count("reduce_error", 1)
				return
			}
		}
		t.Count("trees", 1)
	}()

	desc := strings.Join(conf, "; ")
	runner := parlex.New(lex, par, reds...)
	for round := t.Range(1, 3); round > 0; round-- {
		for k, run := range []func() (parlex.ParseNode, error){
			func() (parlex.ParseNode, error) { return parlex.Run(input, lex, par, reds...) },
			func() (parlex.ParseNode, error) { return runner.Run(input) },
		} {
			what := []string{"Run", "Runner.Run"}[k]
			t.Desc("%s of %q with %s", what, input, desc)
			log = nil
			got, err := run()
			t.Eval()
			if wantErr != nil {
				if got != nil {
					t.Fail("result", "%s returned a tree, expected the error %v", what, wantErr)
				}
				if err != wantErr {
					t.Fail("result", "%s returned the error %v, expected %v", what, err, wantErr)
				}
			} else if err != nil || got != want {
				t.Fail("result", "%s returned %v and the error %v, expected %v", what, got, err, want)
			}
			if len(log) != len(calls) {
				t.Fail("calls", "%s: %d calls of stages, expected %d", what, len(log), len(calls))
			}
			for i, c := range calls {
				ok := log[i].stage == c.stage
				if ok {
					if ls, isLs := c.in.([]parlex.Lexeme); isLs {
						in, isLs := log[i].in.([]parlex.Lexeme)
						ok = isLs && sameLexemes(in, ls)
					} else {
						ok = log[i].in == c.in
					}
				}
				if !ok {
					t.Fail("calls", "%s: call %d was %s with %v, expected %s with %v", what, i, log[i].stage, log[i].in, c.stage, c.in)
				}
				t.Count("calls", 1)
			}
		}
	}
	t.Seen(desc)
	t.Sample("%s", desc)
}

// runC20real composes real stages by hand and compares.
func runC20real(t *T) {
	lx, err := simplelexer.New("space /\\s+/ -\nint /\\d+/\nop /[+*]/\n( /\\(/\n) /\\)/\n")
	if err != nil {
		t.Fail("build", "the lexer was refused: %v", err)
	}
	g, err := grammar.New("E -> T op E\n-> T\nT -> ( E )\n-> int")
	if err != nil {
		t.Fail("build", "the grammar was refused: %v", err)
	}
	var p parlex.Parser = packrat.New(g)
	if t.Bool() {
		if p, err = topdown.New(g); err != nil {
			t.Fail("build", "the parser was refused: %v", err)
		}
	}
	var reds []parlex.Reducer
	for i := t.IntN(3); i > 0; i-- {
		switch t.IntN(4) {
		case 0:
			reds = append(reds, nil)
		case 1:
			reds = append(reds, tree.Reducer{"E": tree.PromoteSingleChild})
		case 2:
			reds = append(reds, tree.Reducer{"T": tree.RemoveAll("(", ")")})
		case 3:
			reds = append(reds, tree.Reducer{"E": tree.PromoteChild(1), "T": tree.PromoteSingleChild})
		}
	}
	runner := parlex.New(lx, p, reds...)
	for i := 0; i < 3; i++ {
		var b strings.Builder
		for j := t.IntN(12); j > 0; j-- {
			b.WriteString(pick(t, []string{"1", "23", "+", "*", "(", ")", " ", "\n", "1+2", "(1)", "1 * 2 + "}))
		}
		if t.Chance(0.2) {
			b.WriteString(pick(t, []string{"?", "x", "é", "1 ? 2 !"}))
		}
		in := b.String()
		t.Desc("real stages, %d reducers, input %q", len(reds), in)
		var want parlex.ParseNode
		var wantErr string
		ls := lx.Lex(in)
		if ls == nil {
			wantErr = parlex.ErrCouldNotLex.Error()
		}
		for _, l := range ls {
			if e, ok := l.(parlex.LexError); ok && wantErr == "" {
				wantErr = e.Error()
			}
		}
		if wantErr == "" {
			want = p.Parse(ls)
			if want == nil {
				wantErr = parlex.ErrCouldNotParse.Error()
			}
			for _, r := range reds {
				if r != nil && want != nil {
					want = r.Reduce(want)
				}
			}
		}
		a, aerr := parlex.Run(in, lx, p, reds...)
		c, cerr := runner.Run(in)
		t.Eval()
		for k, r := range []struct {
			n   parlex.ParseNode
			err error
		}{{a, aerr}, {c, cerr}} {
			what := []string{"Run", "Runner.Run"}[k]
			if wantErr != "" {
				if r.n != nil || r.err == nil || r.err.Error() != wantErr {
					t.Fail("result", "%s returned %v and the error %v, expected the error %s", what, r.n, r.err, wantErr)
				}
			} else if r.err != nil || r.n == nil || shape(r.n) != shape(want) {
				t.Fail("result", "%s returned %s and the error %v, expected %s", what, shape(r.n), r.err, shape(want))
			}
		}
		t.Count("real", 1)
		if wantErr == "" {
			t.Seen("real", in, fmt.Sprint(len(reds)))
		}
	}
}
