package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
)

// own implementations of the interfaces of parlex

type mySym struct{ s string }

func (m *mySym) String() string { return m.s }

type myProd []*mySym

func (p myProd) Symbols() int { return len(p) }
func (p myProd) Symbol(i int) parlex.Symbol {
	if i < 0 || i >= len(p) {
		return nil
	}
	return p[i]
}
func (p myProd) Iter() *parlex.ProductionIterator { return &parlex.ProductionIterator{Production: p} }

type myProds []myProd

func (p myProds) Productions() int { return len(p) }
func (p myProds) Production(i int) parlex.Production {
	if i < 0 || i >= len(p) {
		return nil
	}
	return p[i]
}
func (p myProds) Iter() *parlex.ProductionsIterator {
	return &parlex.ProductionsIterator{Productions: p}
}

type myGrammar struct {
	nts   []parlex.Symbol
	prods map[string]myProds
	calls map[string]int // Productions lookups by symbol, if not nil
	steps *int64         // symbols read from productions, if not nil
}

func (g *myGrammar) Productions(s parlex.Symbol) parlex.Productions {
	if g.calls != nil {
		g.calls[s.String()]++
	}
	p, ok := g.prods[s.String()]
	if !ok {
		return nil
	}
	if g.steps != nil {
		return &countProds{p, g.steps}
	}
	return p
}
func (g *myGrammar) NonTerminals() []parlex.Symbol {
	return append([]parlex.Symbol(nil), g.nts...)
}

type countProds struct {
	myProds
	steps *int64
}

func (p *countProds) Production(i int) parlex.Production {
	*p.steps++
	if i < 0 || i >= len(p.myProds) {
		return nil
	}
	return &countProd{p.myProds[i], p.steps}
}
func (p *countProds) Iter() *parlex.ProductionsIterator {
	return &parlex.ProductionsIterator{Productions: p}
}

type countProd struct {
	myProd
	steps *int64
}

func (p *countProd) Symbol(i int) parlex.Symbol {
	*p.steps++
	return p.myProd.Symbol(i)
}
func (p *countProd) Iter() *parlex.ProductionIterator {
	return &parlex.ProductionIterator{Production: p}
}

func (g *CFG) custom() *myGrammar {
	m := &myGrammar{prods: map[string]myProds{}}
	for _, nt := range g.NT {
		m.nts = append(m.nts, &mySym{nt})
		for _, p := range g.Prods[nt] {
			q := myProd{}
			for _, s := range p {
				q = append(q, &mySym{s})
			}
			m.prods[nt] = append(m.prods[nt], q)
		}
	}
	return m
}

const grammarImpls = 6

// build makes a parlex.Grammar for the model in one of several ways.
func (g *CFG) build(t *T, impl int) parlex.Grammar {
	switch impl % grammarImpls {
	case 1:
		out := grammar.Empty()
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				q := stringsymbol.Production{}
				for _, s := range p {
					q = append(q, stringsymbol.Symbol(s))
				}
				out.Add(stringsymbol.Symbol(nt), q)
			}
		}
		return out
	case 2:
		out := grammar.Empty()
		set := setsymbol.New()
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				q := set.Production()
				for _, s := range p {
					q.AddSymbols(set.Str(s))
				}
				out.Add(set.Str(nt), q)
			}
		}
		return out
	case 3:
		return g.custom()
	case 4:
		gr, err := grammar.New(g.text())
		if err != nil {
			t.Fail("grammar", "grammar.New refused a valid grammar: %v", err)
		}
		return analyze.Analyze(gr)
	case 5:
		gr, err := grammar.New(g.text())
		if err != nil {
			t.Fail("grammar", "grammar.New refused a valid grammar: %v", err)
		}
		gr, err = grammar.New(gr.String())
		if err != nil {
			t.Fail("grammar", "grammar.New refused a printed grammar: %v", err)
		}
		return gr
	}
	gr, err := grammar.New(g.text())
	if err != nil {
		t.Fail("grammar", "grammar.New refused a valid grammar: %v", err)
	}
	return gr
}

// readCFG reads a parlex.Grammar into the model through the interface.
func readCFG(gr parlex.Grammar) *CFG {
	g := newCFG()
	for _, nt := range gr.NonTerminals() {
		ps := gr.Productions(nt)
		if ps == nil {
			continue
		}
		if _, ok := g.Prods[nt.String()]; ok {
			continue
		}
		for i := 0; i < ps.Productions(); i++ {
			p := ps.Production(i)
			var q []string
			for j := 0; j < p.Symbols(); j++ {
				q = append(q, p.Symbol(j).String())
			}
			g.add(nt.String(), q...)
		}
	}
	return g
}

func (g *CFG) equal(o *CFG) bool { return g.text() == o.text() }

// lexemes

type myLexeme struct {
	k    parlex.Symbol
	v    string
	l, c int
}

func (l *myLexeme) Kind() parlex.Symbol { return l.k }
func (l *myLexeme) Value() string       { return l.v }
func (l *myLexeme) Pos() (int, int)     { return l.l, l.c }

// lexemes makes lexemes for the kinds with values and positions that identify
// each of them.
func (t *T) lexemes(kinds []string) []parlex.Lexeme {
	impl := t.IntN(4)
	first := t.IntN(2) // the first line
	set := setsymbol.New()
	if t.Bool() {
		for i := 0; i < 5; i++ { // make the indexes differ from those of other sets
			set.Str(fmt.Sprintf("pad%d", i))
		}
	}
	out := make([]parlex.Lexeme, len(kinds))
	odd := t.Chance(0.25)
	same := t.IntN(6) // 0: equal values, 1: also equal positions
	for i, k := range kinds {
		v := fmt.Sprintf("v%d", i)
		switch {
		case i%7 == 3:
			v = ""
		case i%5 == 2:
			v = k
		}
		l, c := first+i/4, 1+i%4*3
		if i%9 == 8 {
			l, c = -1, 0 // without a position
		}
		if odd && t.Chance(0.3) {
			l = pick(t, []int{0, 0, -1, -2, 1, 7, 100000, 1 << 40})
			c = pick(t, []int{0, 0, -1, 1, 3, 100000, 1 << 40})
			if t.Chance(0.1) {
				v = pick(t, []string{"\x00", "\xff", "a\nb", " ", "é", "\"", "0", strings.Repeat("x", 300)})
			}
		}
		if same < 2 {
			v = pick(t, []string{"v", "v", ""})
		}
		if same == 1 {
			l, c = first, 1
		}
		switch impl {
		case 0:
			out[i] = lexeme.String(k).Set(v).At(l, c)
		case 1:
			out[i] = lexeme.New(stringsymbol.Symbol(k)).Set(v).At(l, c)
		case 2:
			out[i] = &myLexeme{&mySym{k}, v, l, c}
		case 3:
			out[i] = lexeme.New(set.Str(k)).Set(v).At(l, c)
		}
	}
	return out
}

func lexString(l parlex.Lexeme) string {
	line, col := l.Pos()
	return fmt.Sprintf("%q:%q@%d:%d", l.Kind().String(), l.Value(), line, col)
}

func lexStrings(ls []parlex.Lexeme) string {
	s := make([]string, len(ls))
	for i, l := range ls {
		s[i] = lexString(l)
		if e, ok := l.(parlex.LexError); ok {
			s[i] += "!" + e.Error()
		}
	}
	return strings.Join(s, " ")
}

func kindsOf(ls []parlex.Lexeme) []string {
	s := make([]string, len(ls))
	for i, l := range ls {
		s[i] = l.Kind().String()
	}
	return s
}

// trees

// shape writes a tree completely: kinds, values, positions, structure.
func shape(n parlex.ParseNode) string {
	var b strings.Builder
	var w func(n parlex.ParseNode)
	w = func(n parlex.ParseNode) {
		l, c := n.Pos()
		fmt.Fprintf(&b, "%q:%q@%d:%d", n.Kind().String(), n.Value(), l, c)
		if n.Children() > 0 {
			b.WriteString("(")
			for i := 0; i < n.Children(); i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				w(n.Child(i))
			}
			b.WriteString(")")
		}
	}
	if isNilNode(n) {
		return "nil"
	}
	w(n)
	return b.String()
}

// kindShape writes only the kinds and the structure.
func kindShape(n parlex.ParseNode) string {
	var b strings.Builder
	var w func(n parlex.ParseNode)
	w = func(n parlex.ParseNode) {
		b.WriteString(n.Kind().String())
		if n.Children() > 0 {
			b.WriteString("(")
			for i := 0; i < n.Children(); i++ {
				if i > 0 {
					b.WriteString(" ")
				}
				w(n.Child(i))
			}
			b.WriteString(")")
		}
	}
	if isNilNode(n) {
		return "nil"
	}
	w(n)
	return b.String()
}

func isNilNode(n parlex.ParseNode) bool {
	if n == nil {
		return true
	}
	p, ok := n.(*tree.PN)
	return ok && p == nil
}

// checkLinks checks that every child's parent is the node that holds it, that
// the root has the given parent and that no node occurs twice. It returns the
// number of nodes.
func (t *T) checkLinks(what string, root parlex.ParseNode) int {
	seen := map[parlex.ParseNode]bool{}
	if root.Parent() != nil {
		t.Fail("links", "%s: the root has a parent", what)
	}
	n := 0
	var walk func(p parlex.ParseNode)
	walk = func(p parlex.ParseNode) {
		n++
		if seen[p] {
			t.Fail("links", "%s: node %s occurs twice in the tree", what, lexString(p))
		}
		seen[p] = true
		for i := 0; i < p.Children(); i++ {
			c := p.Child(i)
			if isNilNode(c) {
				t.Fail("links", "%s: child %d of %s is nil", what, i, lexString(p))
			}
			if c.Parent() != p {
				t.Fail("links", "%s: the parent of child %d (%s) of %s is not that node", what, i, lexString(c), lexString(p))
			}
			walk(c)
		}
	}
	walk(root)
	return n
}

// checkDerivation checks that a tree is a derivation of the lexemes.
func (t *T) checkDerivation(g *CFG, root parlex.ParseNode, lxs []parlex.Lexeme) {
	if got := root.Kind().String(); got != g.NT[0] {
		t.Fail("tree", "the root is %q and not the start symbol %q", got, g.NT[0])
	}
	pos := 0
	var walk func(n parlex.ParseNode, kind string)
	walk = func(n parlex.ParseNode, kind string) {
		if !g.isNT(kind) {
			if n.Children() != 0 {
				t.Fail("tree", "the terminal %q has children", kind)
			}
			if pos >= len(lxs) {
				t.Fail("tree", "the tree has more leaves than there are lexemes, %s", lexString(n))
			}
			if got, want := lexString(n), lexString(lxs[pos]); got != want {
				t.Fail("tree", "leaf %d is %s, the lexeme is %s", pos, got, want)
			}
			pos++
			return
		}
		var kinds []string
		for i := 0; i < n.Children(); i++ {
			kinds = append(kinds, n.Child(i).Kind().String())
		}
		ok := false
		for _, p := range g.Prods[kind] {
			ok = ok || equalStrings(p, kinds)
		}
		if !ok {
			t.Fail("tree", "the children of %q are %q, which is not a production", kind, kinds)
		}
		for i := range kinds {
			walk(n.Child(i), kinds[i])
		}
	}
	walk(root, g.NT[0])
	if pos != len(lxs) {
		t.Fail("tree", "the tree has %d leaves for %d lexemes", pos, len(lxs))
	}
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func snapshot(ls []parlex.Lexeme) []string {
	s := make([]string, len(ls))
	for i, l := range ls {
		s[i] = lexString(l)
	}
	return s
}
