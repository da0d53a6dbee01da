package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/parser/topdown"
)

// bigFamily is a grammar for which long inputs are cheap to make and judge.
type bigFamily struct {
	name   string
	g      *CFG
	max    int // length of the inputs, about
	make   func(t *T, n int) []string
	member func(in []string) bool
}

func item(in []string) int {
	switch {
	case len(in) > 0 && in[0] == "a":
		return 1
	case len(in) > 1 && in[0] == "b" && in[1] == "c":
		return 2
	}
	return 0
}

// listOf judges lists of items with an optional separator.
func listOf(in []string, sep string) bool {
	for {
		k := item(in)
		if k == 0 {
			return false
		}
		in = in[k:]
		if len(in) == 0 {
			return true
		}
		if sep != "" {
			if in[0] != sep {
				return false
			}
			in = in[1:]
		}
	}
}

func makeList(t *T, n int, sep string) []string {
	var out []string
	for len(out) == 0 || len(out) < n {
		if sep != "" && len(out) > 0 {
			out = append(out, sep)
		}
		if t.Chance(0.7) {
			out = append(out, "a")
		} else {
			out = append(out, "b", "c")
		}
	}
	return out
}

func nested(in []string, open, end, leaf string) bool {
	d := 0
	for d < len(in) && in[d] == open {
		d++
	}
	if len(in) != 2*d+1 || in[d] != leaf {
		return false
	}
	for _, s := range in[d+1:] {
		if s != end {
			return false
		}
	}
	return true
}

// bigFamilies: some are left recursive and some are not.
func (t *T) bigFamily(noLR bool) *bigFamily {
	list := func(left bool, sep string, max int) *bigFamily {
		g := newCFG()
		body := []string{"I"}
		if sep != "" {
			body = append(body, sep)
		}
		if left {
			l := []string{"L"}
			if sep != "" {
				l = append(l, sep)
			}
			g.add("L", append(l, "I")...)
		} else {
			g.add("L", append(body, "L")...)
		}
		g.add("L", "I")
		g.add("I", "a")
		g.add("I", "b", "c")
		return &bigFamily{
			name: fmt.Sprintf("list left %v sep %q", left, sep), g: g, max: max,
			make:   func(t *T, n int) []string { return makeList(t, n, sep) },
			member: func(in []string) bool { return listOf(in, sep) },
		}
	}
	nest := func() *bigFamily {
		g := newCFG()
		g.add("P", "(", "P", ")")
		g.add("P", "x")
		return &bigFamily{
			name: "nested", g: g, max: 1500,
			make: func(t *T, n int) []string {
				var out []string
				for i := 0; i < n/2; i++ {
					out = append(out, "(")
				}
				out = append(out, "x")
				for i := 0; i < n/2; i++ {
					out = append(out, ")")
				}
				return out
			},
			member: func(in []string) bool { return nested(in, "(", ")", "x") },
		}
	}
	sep := pick(t, []string{"", ","})
	switch t.IntN(3) {
	case 0:
		if !noLR {
			return list(true, sep, 2500)
		}
		return list(false, sep, 900)
	case 1:
		if noLR {
			return list(false, sep, 900)
		}
		return list(false, sep, 300)
	default:
		return nest()
	}
}

func (t *T) bigInputs(f *bigFamily) [][]string {
	n := f.max/4 + t.IntN(f.max*3/4)
	in := f.make(t, n)
	out := [][]string{in}
	for i := 0; i < 2; i++ {
		out = append(out, t.mutateSeq(in, f.g.terminals(), f.g.NT))
	}
	// the error is at the very end, or the input stops early
	out = append(out, append(in[:len(in):len(in)], pick(t, f.g.terminals())), in[:len(in)-1])
	return out
}

func short(in []string) string {
	if len(in) <= 12 {
		return fmt.Sprintf("%q", in)
	}
	return fmt.Sprintf("%q ... %q (%d)", in[:6], in[len(in)-6:], len(in))
}

// bigC06 decides long inputs of simple languages.
func bigC06(t *T) {
	f := t.bigFamily(false)
	p := constructPackrat(t, f.g.build(t, t.IntN(grammarImpls)))
	for _, in := range t.bigInputs(f) {
		t.Desc("%s\ngrammar:\n%s\nkinds: %s", f.name, f.g.text(), short(in))
		want := f.member(in)
		got := p.Parse(t.lexemes(in)) != nil
		t.Eval()
		if got != want {
			t.Fail("language", "packrat accepts: %v, the sequence is in the language: %v\nkinds: %q", got, want, in)
		}
		t.Count("big_inputs", 1)
		t.Max("length", len(in))
	}
}

// bigC07 checks the trees of long inputs.
func bigC07(t *T) {
	td := t.Bool()
	f := t.bigFamily(td)
	gr := f.g.build(t, t.IntN(grammarImpls))
	for _, in := range t.bigInputs(f) {
		lxs := t.lexemes(in)
		t.Desc("%s\ntopdown %v grammar:\n%s\nkinds: %s", f.name, td, f.g.text(), short(in))
		pn := constructPackrat(t, gr).Parse(lxs)
		if td {
			p, err := topdown.New(gr)
			if err != nil {
				t.Fail("grammar", "topdown.New: %v", err)
			}
			pn = p.Parse(lxs)
		}
		t.Eval()
		if pn == nil {
			continue
		}
		t.checkDerivation(f.g, pn, lxs)
		n := t.checkLinks("parse tree", pn)
		t.Count("nodes", n)
		t.Max("nodes", n)
		t.Count("big_inputs", 1)
	}
}

// bigC09 compares with ordered choice on long inputs.
func bigC09(t *T) {
	f := t.bigFamily(true)
	gr := f.g.build(t, t.IntN(grammarImpls))
	p, err := topdown.New(gr)
	if err != nil {
		t.Fail("constructor", "topdown.New refused a grammar that is not left recursive: %v", err)
	}
	c := f.g.compile()
	for _, in := range t.bigInputs(f) {
		t.Desc("%s\ngrammar:\n%s\nkinds: %s", f.name, f.g.text(), short(in))
		pn := p.Parse(t.lexemes(in))
		t.Eval()
		want := f.member(in)
		if (pn != nil) != want {
			t.Fail("ordered", "the parser accepts: %v, ordered choice: %v", pn != nil, want)
		}
		t.Count("big_inputs", 1)
		t.Max("length", len(in))
		if pn == nil {
			continue
		}
		var b strings.Builder
		c.ordered(in).writeShape(c, &b)
		if got := kindShape(pn); got != b.String() {
			t.Fail("ordered", "the parser chose another tree than ordered choice")
		}
	}
}

// huge is a list that is longer than a 16 bit number can count.
func (t *T) huge(left bool) (*CFG, []string) {
	g := newCFG()
	if left {
		g.add("L", "L", "I")
	} else {
		g.add("L", "I", "L")
	}
	if left {
		g.add("L", "I")
	} else {
		g.add("L")
	}
	g.add("I", "a")
	g.add("I", "b")
	n := t.Range(66000, 70000)
	in := make([]string, n)
	for i := range in {
		in[i] = pick(t, []string{"a", "b"})
	}
	return g, in
}

// hugeParse parses the list, with the item at one place replaced, if bad is
// not negative.
func (t *T) hugeParse(td bool, bad int) {
	g, in := t.huge(!td)
	if bad >= len(in) {
		bad = len(in) - 1
	}
	if bad >= 0 {
		in[bad] = pick(t, []string{"c", "I", "L"})
	}
	gr := g.build(t, t.IntN(grammarImpls))
	t.Desc("topdown %v grammar:\n%s\nkinds: %s wrong at %d", td, g.text(), short(in), bad)
	var p parlex.Parser
	if td {
		q, err := topdown.New(gr)
		if err != nil {
			t.Fail("grammar", "topdown.New: %v", err)
		}
		p = q
	} else {
		p = constructPackrat(t, gr)
	}
	lxs := t.lexemes(in)
	pn := p.Parse(lxs)
	t.Eval()
	if (pn != nil) != (bad < 0) {
		t.Fail("language", "the parser accepts: %v, the sequence is in the language: %v", pn != nil, bad < 0)
	}
	t.Max("length", len(in))
	t.Count("huge_inputs", 1)
	if pn == nil {
		return
	}
	// follow the spine
	node := func(n parlex.ParseNode, up parlex.ParseNode, kind string, kids int) {
		if isNilNode(n) || n.Kind().String() != kind || n.Children() != kids {
			t.Fail("tree", "a node of kind %q with %d children was expected, not %v", kind, kids, n)
		}
		if n.Parent() != up {
			t.Fail("tree", "the parent of a node %q is not the node that holds it", kind)
		}
	}
	item := func(n, up parlex.ParseNode, i int) {
		node(n, up, "I", 1)
		leaf := n.Child(0)
		node(leaf, n, in[i], 0)
		if a, b := leaf.Pos(); true {
			if c, d := lxs[i].Pos(); leaf.Value() != lxs[i].Value() || a != c || b != d {
				t.Fail("tree", "leaf %d is %q at %d:%d instead of %q at %d:%d", i, leaf.Value(), a, b, lxs[i].Value(), c, d)
			}
		}
	}
	cur := pn
	var up parlex.ParseNode
	if td {
		for i := range in {
			node(cur, up, "L", 2)
			item(cur.Child(0), cur, i)
			cur, up = cur.Child(1), cur
		}
		node(cur, up, "L", 0)
		return
	}
	for i := len(in) - 1; i > 0; i-- {
		node(cur, up, "L", 2)
		item(cur.Child(1), cur, i)
		cur, up = cur.Child(0), cur
	}
	node(cur, up, "L", 1)
	item(cur.Child(0), cur, 0)
}

// hugeCase runs for a few cases of every run.
func (t *T) hugeCase(td bool) bool {
	if t.Idx > 2000 || t.Idx%500 != 250 {
		return false
	}
	t.hugeParse(td, []int{-1, 1 << 20, 65536, 32768}[t.Idx/500])
	return true
}
