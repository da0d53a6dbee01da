package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/examples/scalc"
)

func init() {
	register(&Prop{
		ID:       "C25",
		Rule:     "random postfix texts of the stack calculator: numbers, unary and binary operators, conditional values and operators, groups closed by a stack operator; the oracle walks the expression as generated; texts with a planted fault; the program as a process, and its interactive sessions with good, bad, blank and ending lines, against a model that evaluates each line behind the stack shown last; non-trivial: distinct text of at least 3 tokens",
		Quick:    200000,
		Thorough: 400000,
		Run:      runC25,
		Floors:   map[string]int64{"texts": 5000, "refused": 1000, "conditionals": 1500, "groups": 1500, "stack_operators": 2000, "manipulations": 2000, "sessions": 2000, "session_lines": 10000, "bad_lines": 1000, "program_texts": 500},
		Assume:   []string{"the first argument of the program does not start with a dash, which its flag library would read as an option", "stack manipulation (swap, drop, clear) stands once, at the end: the documentation says that it is known to fail otherwise", "a group holds one value or ends in a stack operator; a conditional is the whole text (inside others the example evaluates it to 0 or mistakes it for stack manipulation)"},
	})
}

type pf struct {
	v float64
	p int
}

// rpn is one value: n number, u unary, b binary, ? conditional value, o
// conditional operator, g group.
type rpn struct {
	kind byte
	text string
	num  pf
	kids []*rpn
	ops  []string // of a conditional operator
}

func (t *T) rpnNum() *rpn {
	s := pick(t, []string{"0", "1", "2", "3", "4", "7", "10", "12", "100", "007"})
	if t.Chance(0.3) {
		s = pick(t, []string{"-", "+"}) + s
	}
	p := 0
	if t.Chance(0.3) {
		d := pick(t, []string{".5", ".25", ".0", ".125", ".50", ".000"})
		s += d
		p = len(d) - 1
	}
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return &rpn{kind: 'n', text: s, num: pf{v, p}}
}

var (
	rpnUops = []string{"--", "abs"}
	rpnBops = []string{"+", "-", "*", "/", "^", "%", ">", "<", "=", "cmpr"}
	rpnSops = []string{"len", "sum", "avg", "min", "max", "first", "last"}
)

func (t *T) rpnE(depth int) *rpn {
	if depth == 0 || t.Chance(0.25) {
		return t.rpnNum()
	}
	switch t.IntN(10) {
	case 0, 1:
		return &rpn{kind: 'u', text: pick(t, rpnUops), kids: []*rpn{t.rpnE(depth - 1)}}
	}
	return &rpn{kind: 'b', text: pick(t, rpnBops), kids: []*rpn{t.rpnE(depth - 1), t.rpnE(depth - 1)}}
}

// rpnCond is a conditional operator.
func (t *T) rpnCond() *rpn {
	t.Count("conditional_operators", 1)
	e := &rpn{kind: 'o'}
	n, ops := 1, rpnUops
	if t.Bool() {
		n, ops = 2, rpnBops
	}
	e.ops = []string{pick(t, ops), pick(t, ops)}
	for i := 0; i <= n; i++ {
		e.kids = append(e.kids, t.rpnE(t.IntN(2)))
	}
	return e
}

// ambiguous reports whether two operators stand before a condition that is not
// theirs.
func (e *rpn) ambiguous() bool {
	for _, k := range e.kids {
		if k.ambiguous() {
			return true
		}
	}
	if e.kind != '?' {
		return false
	}
	k := e.kids[1].tokens(nil)
	n := len(k)
	return n > 2 && (contains(rpnUops, k[n-1]) && contains(rpnUops, k[n-2]) || contains(rpnBops, k[n-1]) && contains(rpnBops, k[n-2]))
}

// rpnStack is a list of values, and maybe a stack operator at its end.
func (t *T) rpnStack(depth, n int, sop bool) *rpn {
	g := &rpn{kind: 'g'}
	for i := 0; i < n; i++ {
		if depth > 0 && t.Chance(0.2) {
			t.Count("groups", 1)
			if t.Chance(0.3) {
				g.kids = append(g.kids, t.rpnStack(depth-1, 1, false))
			} else {
				g.kids = append(g.kids, t.rpnStack(depth-1, t.Range(1, 4), true))
			}
			continue
		}
		g.kids = append(g.kids, t.rpnE(t.IntN(3)))
	}
	if sop {
		t.Count("stack_operators", 1)
		g.text = pick(t, rpnSops)
	}
	return g
}

func rpnOp(op string, a []pf) pf {
	if len(a) == 1 {
		x := a[0]
		if op == "--" || x.v < 0 {
			x.v = -x.v
		}
		return x
	}
	x, y := a[0].v, a[1].v
	p := a[0].p
	if a[1].p > p {
		p = a[1].p
	}
	truth := func(b bool) float64 {
		if b {
			return 1
		}
		return 0
	}
	var v float64
	switch op {
	case "+":
		v = x + y
	case "-":
		v = x - y
	case "*":
		v = x * y
	case "/":
		v = x / y
	case "^":
		v = math.Pow(x, y)
	case "%":
		v = math.Mod(x, y)
	case ">":
		v = truth(x > y)
	case "<":
		v = truth(x < y)
	case "=":
		v = truth(x == y)
	case "cmpr":
		v = truth(x > y) - truth(x < y)
	}
	return pf{v, p}
}

func (e *rpn) eval() pf {
	var a []pf
	for _, k := range e.kids {
		if k.kind == 'g' {
			a = append(a, k.stack()...)
		} else {
			a = append(a, k.eval())
		}
	}
	last := len(a) - 1
	switch e.kind {
	case 'n':
		return e.num
	case '?':
		if a[2].v > 0 {
			return a[1]
		}
		return a[0]
	case 'o':
		if a[last].v > 0 {
			return rpnOp(e.ops[1], a[:last])
		}
		return rpnOp(e.ops[0], a[:last])
	}
	return rpnOp(e.text, a)
}

// stack evaluates a group.
func (e *rpn) stack() []pf {
	var a []pf
	for _, k := range e.kids {
		if k.kind == 'g' {
			a = append(a, k.stack()...)
		} else {
			a = append(a, k.eval())
		}
	}
	if e.text == "" {
		return a
	}
	r := pf{}
	switch e.text {
	case "len":
		r.v = float64(len(a))
	case "sum", "avg":
		for _, x := range a {
			r.v += x.v
			if x.p > r.p {
				r.p = x.p
			}
		}
		if e.text == "avg" {
			r.v /= float64(len(a))
		}
	case "min", "max":
		r = a[0]
		for _, x := range a[1:] {
			if e.text == "min" && x.v < r.v || e.text == "max" && x.v > r.v {
				r = x
			}
		}
	case "last":
		r = a[0]
	case "first":
		r = a[len(a)-1]
	}
	return []pf{r}
}

func (e *rpn) tokens(out []string) []string {
	if e.kind == 'o' {
		n := len(e.kids) - 1
		for _, k := range e.kids[:n] {
			out = k.tokens(out)
		}
		out = append(out, e.ops...)
		return append(e.kids[n].tokens(out), "?")
	}
	for _, k := range e.kids {
		if k.kind == 'g' {
			out = append(out, "(")
			out = k.tokens(out)
			out = append(out, ")")
		} else {
			out = k.tokens(out)
		}
	}
	switch e.kind {
	case '?':
		out = append(out, "?")
	case 'g':
		if e.text != "" {
			out = append(out, e.text)
		}
	default:
		out = append(out, e.text)
	}
	return out
}

func (t *T) rpnLayout(toks []string) string {
	sp := pick(t, [][]string{{" "}, {" ", "  ", "\n", "\t"}})
	tight := t.Chance(0.3)
	var b strings.Builder
	for i, k := range toks {
		if i > 0 && !(tight && (strings.ContainsAny(k, "()?") || strings.ContainsAny(toks[i-1], "()?"))) {
			b.WriteString(pick(t, sp))
		}
		b.WriteString(k)
	}
	return b.String()
}

func runC25(t *T) {
	if t.Idx < 2 {
		t.piped([]string{"1 2\n+\nexit\n", "1 2\n"}[t.Idx])
		return
	}
	if t.Chance(0.025) {
		if t.Chance(0.25) {
			t.calcProgram()
		} else {
			t.session()
		}
		return
	}
	if t.Chance(0.1) {
		v := scalc.Pfloat{V: pick(t, []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 2.5, 1e15, 123456789.987654321, 1e-9, -0.004, 99.995, t.Float64(), (t.Float64() - 0.5) * 1e6}), P: t.IntN(21)}
		if s := strconv.FormatFloat(v.V, 'f', v.P, 64); s != v.String() {
			t.Desc("a value")
			t.Fail("text", "%v with %d decimals is written %q instead of %q", v.V, v.P, v.String(), s)
		}
	}
	n := t.Range(1, 4)
	if t.Chance(0.02) {
		n = t.Size(5, 40)
	}
	e := t.rpnStack(2, n, t.Chance(0.3))
	switch {
	case t.Chance(0.1):
		e = &rpn{kind: 'g', kids: []*rpn{t.rpnCond()}}
	case t.Chance(0.15):
		t.Count("conditionals", 1)
		e = &rpn{kind: 'g', kids: []*rpn{{kind: '?', kids: []*rpn{t.rpnE(2), t.rpnE(2), t.rpnE(2)}}}}
	}
	toks := e.tokens(nil)
	if len(toks) > 24 || e.ambiguous() {
		t.Count("left_out", 1)
		return
	}
	if t.Chance(0.2) {
		bad := append([]string(nil), toks...)
		i := t.IntN(len(bad) + 1)
		ins := ""
		switch t.IntN(4) {
		case 0:
			ins = pick(t, []string{"x", "sums", "é", "$", ",", "1e5x", "&", "[", "\"", "ab", "swapp"})
			if ins == "sums" || ins == "swapp" { // a word and a rest
				t.Count("rest", 1)
			}
		case 1:
			ins = pick(t, []string{"(", ")"})
		case 2:
			i = 0
			ins = pick(t, append(append([]string{"?"}, rpnUops...), rpnBops...))
		case 3:
			i = 0
			ins = "1 " + pick(t, append([]string{"?", "-- ?"}, rpnBops...))
		}
		bad = append(bad[:i:i], append([]string{ins}, bad[i:]...)...)
		text := strings.Join(bad, " ")
		t.Desc("malformed stack text: %q", text)
		got := scalc.Eval(text)
		t.Eval()
		if got != nil {
			t.Fail("refuse", "the text is accepted and gives %v", got)
		}
		t.Count("refused", 1)
		return
	}
	want := e.stack()
	if e.text == "" && e.kids[0].kind != '?' && e.kids[0].kind != 'o' && t.Chance(0.15) {
		op := pick(t, []string{"swap", "drop", "clear"})
		toks = append(toks, op)
		n := len(want)
		switch {
		case op == "clear":
			want = nil
		case op == "drop":
			want = want[:n-1]
		case n > 1:
			want[n-2], want[n-1] = want[n-1], want[n-2]
		}
		t.Count("manipulations", 1)
	}
	text := t.rpnLayout(toks)
	t.Desc("stack text: %q", text)
	got := scalc.Eval(text)
	t.Eval()
	if got == nil {
		t.Fail("accept", "the text is refused")
	}
	same := len(got) == len(want)
	for i := 0; same && i < len(got); i++ {
		g, w := got[i], want[i]
		same = g.P == w.p && (g.V == w.v || math.IsNaN(g.V) && math.IsNaN(w.v))
		if s := strconv.FormatFloat(g.V, 'f', g.P, 64); s != g.String() {
			t.Fail("text", "%v with %d decimals is written %q instead of %q", g.V, g.P, g.String(), s)
		}
	}
	if !same {
		t.Fail("value", "the stack is %v, expected %v", fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want))
	}
	t.Count("texts", 1)
	t.Count("values", len(got))
	t.Max("tokens", len(toks))
	if len(toks) > 2 {
		t.Seen("scalc", strings.Join(toks, " "))
	}
	t.Sample("%q -> %v", text, got)
}
