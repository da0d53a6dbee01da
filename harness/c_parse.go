package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/tree"
)

func init() {
	register(&Prop{
		ID:       "C06",
		Rule:     "a random or structured grammar and sequences of kinds (all short ones, derived, mutated, unknown kinds, kinds named like non-terminals); non-trivial: distinct grammar and sequence with at least one recursive, empty or alternative production involved",
		Quick:    45000,
		Thorough: 900000,
		Run:      runC06,
		Floors:   map[string]int64{"accepted": 20000, "rejected": 20000, "cyclic_grammars": 200},
	})
	register(&Prop{
		ID:       "C07",
		Rule:     "as C06 with both parsers, several grammar, symbol and lexeme implementations; non-trivial: distinct tree with more than one node that was checked",
		Quick:    25000,
		Thorough: 900000,
		Run:      runC07,
		Floors:   map[string]int64{"packrat_trees": 20000, "topdown_trees": 2000, "nodes": 100000},
	})
	register(&Prop{
		ID:       "C08",
		Rule:     "grammars without cycles and accepted sequences; non-trivial: distinct grammar and sequence with more than one derivation",
		Quick:    80000,
		Thorough: 1000000,
		Run:      runC08,
		Floors:   map[string]int64{"ambiguous": 5000, "trees": 20000},
	})
	register(&Prop{
		ID:       "C09",
		Rule:     "grammars that are not left recursive and sequences; non-trivial: distinct grammar and sequence where the parser had to try more than one production",
		Quick:    100000,
		Thorough: 1200000,
		Run:      runC09,
		Floors:   map[string]int64{"accepted": 5000, "rejected": 5000, "in_language_but_not_chosen": 200},
	})
}

func constructPackrat(t *T, gr parlex.Grammar) parlex.Parser {
	if t.Bool() {
		return packrat.New(gr)
	}
	p, err := packrat.Constructor(gr)
	if err != nil {
		t.Fail("constructor", "packrat.Constructor returned an error: %v", err)
	}
	return p
}

func runC06(t *T) {
	if t.hugeCase(false) {
		return
	}
	if t.Chance(0.004) {
		bigC06(t)
		return
	}
	if t.Chance(0.002) {
		t.noProductions("packrat", func(g parlex.Grammar) (parlex.Parser, error) { return constructPackrat(t, g), nil })
		return
	}
	g, kind := t.anyCFG()
	if t.Chance(0.2) {
		g = t.shuffled(g)
	}
	gr := g.build(t, t.IntN(grammarImpls))
	c := g.compile()
	p := constructPackrat(t, gr)
	cyc := g.cyclic()
	if cyc {
		t.Count("cyclic_grammars", 1)
	}
	if g.leftRecursive() {
		t.Count("left_recursive_grammars", 1)
	}
	maxLen := 10
	if t.Chance(0.05) {
		maxLen = g.fit(40)
	}
	text := g.text()
	for _, in := range t.inputs(g, 16, 8, maxLen) {
		t.Desc("grammar:\n%s\nkinds: %q", text, in)
		want := c.accepts(in)
		lxs := t.lexemes(in)
		pn := p.Parse(lxs)
		t.Eval()
		got := pn != nil
		if got != want {
			t.Fail("language", "packrat accepts: %v, the sequence is in the language: %v", got, want)
		}
		if got && isNilNode(pn) {
			t.Fail("language", "packrat returned a nil node that is not nil")
		}
		if want {
			t.Count("accepted", 1)
			t.Seen("C06", text, strings.Join(in, " "))
		} else {
			t.Count("rejected", 1)
		}
		t.Max("length", len(in))
	}
	t.Max("productions", g.size())
	t.Sample("%s grammar:\n%s", kind, text)
}

// checkInner checks what an inner node of a tree shows of itself.
func (t *T) checkInner(g *CFG, pn parlex.ParseNode, positions bool) {
	if _, nt := g.Prods[pn.Kind().String()]; !nt {
		return
	}
	if pn.Value() != "" {
		t.Fail("value", "the node of %q has the value %q", pn.Kind().String(), pn.Value())
	}
	n := pn.Children()
	if n > 0 && positions {
		l, c := pn.Pos()
		if fl, fc := pn.Child(0).Pos(); l != fl || c != fc {
			t.Fail("position", "the node of %q with %d children is at %d:%d, its first child at %d:%d", pn.Kind().String(), n, l, c, fl, fc)
		}
		t.Count("inner_positions", 1)
	}
	for i := 0; i < n; i++ {
		t.checkInner(g, pn.Child(i), positions)
	}
}

func runC07(t *T) {
	if t.hugeCase(t.Idx%1000 < 500) {
		return
	}
	if t.Chance(0.008) {
		bigC07(t)
		return
	}
	g, kind := t.anyCFG()
	gr := g.build(t, t.IntN(grammarImpls))
	before := readCFG(gr).text()
	if before != g.text() {
		t.Desc("grammar:\n%s", g.text())
		t.Fail("grammar", "the grammar was built differently:\n%s", before)
	}
	parsers := []parlex.Parser{constructPackrat(t, gr)}
	if td, err := topdown.New(gr); err == nil {
		parsers = append(parsers, td)
	}
	maxLen := 10
	if t.Chance(0.05) {
		maxLen = g.fit(60)
	}
	for _, in := range t.inputs(g, 8, 10, maxLen) {
		lxs := t.lexemes(in)
		snap := snapshot(lxs)
		same := append([]parlex.Lexeme(nil), lxs...)
		kinds := make([]parlex.Symbol, len(lxs))
		for i, lx := range lxs {
			kinds[i] = lx.Kind()
		}
		for i, p := range parsers {
			t.Desc("parser: %d (0 packrat, 1 topdown)\ngrammar:\n%s\nkinds: %q", i, g.text(), in)
			pn := p.Parse(lxs)
			t.Eval()
			for j := range lxs {
				if lxs[j] != same[j] || lexString(lxs[j]) != snap[j] || lxs[j].Kind() != kinds[j] {
					t.Fail("input", "parsing changed lexeme %d", j)
				}
			}
			if pn == nil {
				continue
			}
			t.checkDerivation(g, pn, lxs)
			t.checkInner(g, pn, i == 0)
			n := t.checkLinks("parse tree", pn)
			t.Count("nodes", n)
			t.Max("nodes", n)
			t.Count([]string{"packrat_trees", "topdown_trees"}[i], 1)
			if n > 1 {
				t.Seen(fmt.Sprint(i), g.text(), kindShape(pn))
			}
			if t.Chance(0.3) {
				t.ownLexemes(pn)
				for j := range lxs {
					if lexString(lxs[j]) != snap[j] {
						t.Fail("input", "editing the lexemes of the tree changed the input lexeme %d", j)
					}
				}
			}
		}
	}
	if after := readCFG(gr).text(); after != before {
		t.Fail("grammar", "parsing changed the grammar to\n%s", after)
	}
	t.Sample("%s grammar:\n%s", kind, g.text())
}

// noProductions parses with grammars that have no productions, whose language
// is empty: not even the empty sequence is in it.
func (t *T) noProductions(name string, construct parlex.ParserConstructor) {
	var gr parlex.Grammar = grammar.Empty()
	if k := t.IntN(3); k > 0 {
		g, err := grammar.New([]string{"", " \n\t\n"}[k-1])
		if err != nil {
			t.Fail("language", "a grammar without productions is refused: %v", err)
		}
		gr = g
	}
	p, err := construct(gr)
	if err != nil || p == nil {
		t.Fail("language", "%s refuses a grammar without productions: %v", name, err)
	}
	for n := 0; n < 4; n++ {
		var in []string
		for len(in) < n {
			in = append(in, pick(t, []string{"START", "a", "", "S", "nil"}))
		}
		t.Desc("%s, a grammar without productions, kinds: %q", name, in)
		pn := p.Parse(t.lexemes(in))
		t.Eval()
		if pn != nil {
			t.Fail("language", "the result is not nil")
		}
		t.Count("no_productions", 1)
	}
}

// ownLexemes edits the lexeme of every node and checks that it is the lexeme of
// no other node.
func (t *T) ownLexemes(root parlex.ParseNode) {
	var nodes []parlex.ParseNode
	var walk func(n parlex.ParseNode)
	walk = func(n parlex.ParseNode) {
		if p, ok := n.(*tree.PN); ok {
			if lx, ok := p.Lexeme.(*lexeme.Lexeme); ok {
				lx.Set(fmt.Sprint("edited ", len(nodes)))
				nodes = append(nodes, n)
			}
		}
		for i := 0; i < n.Children(); i++ {
			walk(n.Child(i))
		}
	}
	walk(root)
	for i, n := range nodes {
		if w := fmt.Sprint("edited ", i); n.Value() != w {
			t.Fail("tree", "editing the lexeme of one node of the tree changed another's, %s, from %q", lexString(n), w)
		}
	}
	t.Count("lexemes_edited", len(nodes))
}

// countDerivations counts derivations up to a cap, for grammars without cycles.
func (s *spans) countDerivations(max int) int {
	memo := map[[3]int]int{}
	var count func(sym, i, j int) int
	count = func(sym, i, j int) int {
		if !s.c.nt[sym] {
			if s.derives(sym, i, j) {
				return 1
			}
			return 0
		}
		if !s.derives(sym, i, j) {
			return 0
		}
		k := [3]int{sym, i, j}
		if n, ok := memo[k]; ok {
			return n
		}
		total := 0
		for _, p := range s.c.prods[sym] {
			can := s.reaching(p, i, j)
			if !can[0].has(i) {
				continue
			}
			ways := map[int]int{i: 1}
			for n, x := range p {
				next := map[int]int{}
				for at, w := range ways {
					for e := at; e <= j; e++ {
						if can[n+1].has(e) && s.derives(x, at, e) {
							if n := next[e] + w*count(x, at, e); n > max {
								next[e] = max
							} else {
								next[e] = n
							}
						}
					}
				}
				ways = next
			}
			total += ways[j]
			if total > max {
				total = max
			}
		}
		memo[k] = total
		return total
	}
	return count(0, 0, len(s.in))
}

func runC08(t *T) {
	var g *CFG
	var kind string
	for {
		g, kind = t.anyCFG()
		if !g.cyclic() {
			break
		}
	}
	gr := g.build(t, t.IntN(grammarImpls))
	p := constructPackrat(t, gr)
	c := g.compile()
	maxLen := 9
	if t.Chance(0.04) {
		maxLen = g.fit(24)
	}
	text := g.text()
	for _, in := range t.inputs(g, 8, 10, maxLen) {
		s := c.span(in)
		if !s.accepts() {
			continue
		}
		t.Desc("grammar:\n%s\nkinds: %q", text, in)
		pn := p.Parse(t.lexemes(in))
		t.Eval()
		if pn == nil {
			t.Fail("choice", "packrat rejects a sequence of the language")
		}
		t.Count("trees", 1)
		var b strings.Builder
		d := s.best()
		d.writeShape(c, &b)
		if got := kindShape(pn); got != b.String() {
			t.Fail("choice", "packrat chose\n%s\nthe earliest productions give\n%s", got, b.String())
		}
		if s.countDerivations(2) > 1 {
			t.Count("ambiguous", 1)
			t.Seen("C08", text, strings.Join(in, " "))
		}
	}
	t.Sample("%s grammar:\n%s", kind, text)
}

// writeShape writes the derivation like kindShape writes a tree.
func (d *deriv) writeShape(c *cg, b *strings.Builder) {
	b.WriteString(c.names[d.sym])
	if len(d.kids) > 0 {
		b.WriteString("(")
		for i, k := range d.kids {
			if i > 0 {
				b.WriteString(" ")
			}
			k.writeShape(c, b)
		}
		b.WriteString(")")
	}
}

func runC09(t *T) {
	if t.hugeCase(true) {
		return
	}
	if t.Chance(0.002) {
		bigC09(t)
		return
	}
	if t.Chance(0.002) {
		t.noProductions("topdown", func(g parlex.Grammar) (parlex.Parser, error) { return topdown.New(g) })
		return
	}
	var g *CFG
	var kind string
	for {
		if t.Chance(0.6) {
			kind = "lfree"
			g = t.randCFG(kind)
			if g.nullBlowup() > 2000 {
				continue
			}
		} else {
			g, kind = t.anyCFG()
		}
		if !g.leftRecursive() {
			break
		}
	}
	gr := g.build(t, t.IntN(grammarImpls))
	t.Desc("grammar:\n%s", g.text())
	p, err := topdown.New(gr)
	if err != nil || p == nil {
		t.Fail("constructor", "topdown.New refused a grammar that is not left recursive: %v", err)
	}
	c := g.compile()
	maxLen := 12
	if t.Chance(0.05) {
		maxLen = 200
	}
	text := g.text()
	for _, in := range t.inputs(g, 10, 12, maxLen) {
		t.Desc("grammar:\n%s\nkinds: %q", text, in)
		lxs := t.lexemes(in)
		pn := p.Parse(lxs)
		t.Eval()
		d := c.ordered(in)
		inLang := len(in) <= 60 && c.accepts(in)
		if d == nil {
			if pn != nil {
				t.Fail("ordered", "the parser accepts, ordered choice does not; in the language: %v; tree %s", inLang, kindShape(pn))
			}
			t.Count("rejected", 1)
			if inLang {
				t.Count("in_language_but_not_chosen", 1)
				t.Seen("C09r", text, strings.Join(in, " "))
			}
			continue
		}
		if pn == nil || isNilNode(pn) {
			t.Fail("ordered", "the parser rejects, ordered choice accepts")
		}
		var b strings.Builder
		d.writeShape(c, &b)
		if got := kindShape(pn); got != b.String() {
			t.Fail("ordered", "the parser chose\n%s\nordered choice gives\n%s", got, b.String())
		}
		if len(in) <= 60 && !inLang {
			t.Fail("ordered", "accepted a sequence outside of the language")
		}
		t.Count("accepted", 1)
		t.Seen("C09", text, strings.Join(in, " "))
		t.Max("length", len(in))
	}
	t.Sample("%s grammar:\n%s", kind, text)
}
