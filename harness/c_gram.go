package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

func init() {
	register(&Prop{
		ID:       "C05",
		Rule:     "a list of productions written as text in a random layout, built with Add in several symbol implementations, looked up, printed and read back; non-trivial: distinct text with at least two productions",
		Quick:    200000,
		Thorough: 2000000,
		Run:      runC05,
		Floors:   map[string]int64{"productions": 100000, "round_trips": 10000, "refused": 1000, "lookups": 50000, "continuations": 10000},
	})
	register(&Prop{
		ID:       "C10",
		Rule:     "random and structured grammars with their non-terminals in several orders and implementations; non-trivial: distinct grammar",
		Quick:    100000,
		Thorough: 3000000,
		Run:      runC10,
		Floors:   map[string]int64{"left_recursive": 10000, "not_left_recursive": 10000, "only_hidden": 1000, "parses": 20000},
	})
	register(&Prop{
		ID:       "C11",
		Rule:     "random and structured grammars; languages compared on all short sequences and on sentences derived from either grammar; non-trivial: distinct left recursive grammar",
		Quick:    120000,
		Thorough: 1000000,
		Run:      runC11,
		Floors:   map[string]int64{"left_recursive": 4000, "members": 20000, "non_members": 20000},
	})
	register(&Prop{
		ID:       "C12",
		Rule:     "random and structured grammars, every pair of symbols and unknown symbols asked; non-trivial: distinct grammar",
		Quick:    400000,
		Thorough: 2000000,
		Run:      runC12,
		Floors:   map[string]int64{"firsts_yes": 20000, "firsts_no": 20000, "nil_yes": 5000, "nil_no": 5000},
	})
}

// sameGrammar compares a grammar with the model, also through the iterators.
func (t *T) sameGrammar(what string, gr parlex.Grammar, g *CFG) {
	nts := gr.NonTerminals()
	if len(nts) != len(g.NT) {
		t.Fail("grammar", "%s: %d non-terminals, expected %q", what, len(nts), g.NT)
	}
	for i, nt := range nts {
		if nt.String() != g.NT[i] {
			t.Fail("grammar", "%s: non-terminal %d is %q, expected %q", what, i, nt.String(), g.NT[i])
		}
		want := g.Prods[g.NT[i]]
		var arg parlex.Symbol = nt
		switch t.IntN(3) {
		case 0:
			arg = stringsymbol.Symbol(g.NT[i])
		case 1:
			arg = &mySym{g.NT[i]}
		}
		ps := gr.Productions(arg)
		if ps == nil || ps.Productions() != len(want) {
			t.Fail("grammar", "%s: productions of %q: %v, expected %q", what, g.NT[i], ps, want)
		}
		it := ps.Iter()
		for j, w := range want {
			if !it.Next() {
				t.Fail("grammar", "%s: the iterator over %q ends before production %d", what, g.NT[i], j)
			}
			for _, p := range []parlex.Production{ps.Production(j), it.Production} {
				var got []string
				for k := 0; k < p.Symbols(); k++ {
					got = append(got, p.Symbol(k).String())
				}
				if !equalStrings(got, w) {
					t.Fail("grammar", "%s: production %d of %q is %q, expected %q", what, j, g.NT[i], got, w)
				}
			}
		}
		if it.Next() {
			t.Fail("grammar", "%s: the iterator over %q does not end", what, g.NT[i])
		}
		t.Count("productions", len(want))
	}
}

// prodLine is one production as written.
type prodLine struct {
	nt   string // "" to continue
	prod []string
}

func runC05(t *T) {
	// names
	nNT, nT, n := t.Range(1, 6), t.Range(1, 6), t.Range(0, 10)
	switch {
	case t.Chance(0.05):
		n = t.Size(10, 200)
	case t.Chance(0.02):
		n, nNT = t.Size(10, 200), t.Size(7, 80)
	case t.Chance(0.02):
		nT = t.Size(7, 80)
	}
	nts := t.names(nNT, true)
	syms := append(append([]string{}, nts...), t.names(nT, false)...)
	var lines []prodLine
	for i := 0; i < n; i++ {
		l := prodLine{nt: pick(t, nts)}
		if t.Chance(0.4) {
			l.nt = ""
		}
		if !t.Chance(0.2) {
			k := t.Range(1, 5)
			if t.Chance(0.01) {
				k = t.Size(6, 300)
			}
			for ; k > 0; k-- {
				l.prod = append(l.prod, pick(t, syms))
			}
		}
		lines = append(lines, l)
	}
	// the model
	g := newCFG()
	cur := ""
	var resolved []prodLine
	for _, l := range lines {
		if l.nt != "" {
			cur = l.nt
		} else if cur == "" {
			cur = "START"
		}
		g.add(cur, l.prod...)
		resolved = append(resolved, prodLine{cur, l.prod})
	}
	// as text
	sps, opts := []string{" ", "  ", "\t", " \t"}, []string{"", " ", "    ", "\t"}
	if t.Chance(0.1) {
		// any white space will do
		odd := []string{"\u00a0", "\u2003", "\v", "\f", "\u0085", "\u3000 ", "\r"}
		sps, opts = append(sps, odd...), append(opts, odd...)
		t.Count("odd_space", 1)
	}
	sp := func() string { return pick(t, sps) }
	opt := func() string { return pick(t, opts) }
	nl := "\n"
	if t.Chance(0.1) {
		nl = "\r\n"
	}
	var b strings.Builder
	for _, l := range lines {
		if t.Chance(0.1) {
			b.WriteString(opt() + nl)
		}
		rhs := ""
		for i, s := range l.prod {
			if i > 0 {
				rhs += sp()
			}
			rhs += s
		}
		switch {
		case l.nt != "":
			b.WriteString(opt() + l.nt + sp() + "->" + opt() + rhs)
		case rhs != "" && t.Chance(0.4):
			b.WriteString(opt() + rhs) // a line without an arrow
			t.Count("continuations", 1)
		default:
			b.WriteString(opt() + "->" + opt() + rhs)
			t.Count("continuations", 1)
		}
		b.WriteString(opt() + nl)
	}
	text := b.String()
	if t.Bool() {
		text = strings.TrimRight(text, "\r\n")
	}
	t.Desc("text: %q", text)
	gr, err := grammar.New(text)
	t.Eval()
	if err != nil {
		t.Fail("refused", "a valid grammar was refused: %v", err)
	}
	t.sameGrammar("read from text", gr, g)
	if n > 1 {
		t.Seen(text)
	}

	// lookups that find nothing
	known := append([]string{}, syms...)
	for i := 0; i < 6; i++ {
		s := pick(t, append(known, "nothing", "", "START", " ", "->"))
		if g.isNT(s) {
			continue
		}
		var arg parlex.Symbol = stringsymbol.Symbol(s)
		if t.Bool() {
			arg = setsymbol.New().Str(s)
		}
		if ps := gr.Productions(arg); ps != nil {
			t.Fail("lookup", "the grammar has productions for %q: %v", s, ps)
		}
		t.Count("lookups", 1)
	}
	t.sameGrammar("after lookups", gr, g)

	// the list of non-terminals belongs to the caller
	for _, how := range []string{"reversed", "cut", "changed"} {
		nts := gr.NonTerminals()
		switch how {
		case "reversed":
			for i, j := 0, len(nts)-1; i < j; i, j = i+1, j-1 {
				nts[i], nts[j] = nts[j], nts[i]
			}
		case "cut":
			if len(nts) > 0 {
				_ = append(nts[:t.IntN(len(nts))], stringsymbol.Symbol("other"))
			}
		default:
			for i := range nts {
				nts[i] = stringsymbol.Symbol("other")
			}
		}
		t.sameGrammar("after a list of non-terminals was "+how, gr, g)
	}

	// one at a time
	add := grammar.Empty()
	if t.Chance(0.3) { // the first half from text
		k := t.IntN(len(resolved) + 1)
		half := newCFG()
		for _, l := range resolved[:k] {
			half.add(l.nt, l.prod...)
		}
		// keep the order of the original list
		var hb strings.Builder
		for _, l := range resolved[:k] {
			fmt.Fprintf(&hb, "%s -> %s\n", l.nt, strings.Join(l.prod, " "))
		}
		add, err = grammar.New(hb.String())
		if err != nil {
			t.Fail("refused", "a valid grammar was refused: %v", err)
		}
		t.addAll(add, resolved[k:])
	} else {
		t.addAll(add, resolved)
	}
	t.sameGrammar("built with Add", add, g)
	t.Eval()

	// printing
	for _, x := range []*grammar.Grammar{gr, add} {
		printed := x.String()
		t.Desc("text: %q\nprinted: %q", text, printed)
		column := -1
		for _, line := range strings.Split(printed, "\n") {
			i := strings.Index(line, "->")
			if i < 0 {
				break // no productions
			}
			if c := len([]rune(line[:i])); column < 0 {
				column = c
			} else if c != column {
				t.Fail("aligned", "the arrows are not aligned")
			}
		}
		back, err := grammar.New(printed)
		t.Eval()
		if err != nil {
			t.Fail("printed", "the printed grammar is refused: %v", err)
		}
		t.sameGrammar("printed and read", back, g)
		if got := back.String(); got != printed {
			t.Fail("printed", "printed again it is %q", got)
		}
		t.Count("round_trips", 1)
	}
	if a, b := gr.String(), add.String(); a != b {
		t.Fail("printed", "equal grammars print as %q and %q", a, b)
	}

	// more than one arrow
	if t.Chance(0.3) {
		bad := strings.Split(strings.TrimRight(text, "\r\n"), "\n")
		i := t.IntN(len(bad) + 1)
		l := pick(t, []string{"A -> b -> c", "-> ->", "A ->-> b", "A -> B -> ", "a -> b\t->\tc -> d", "->x->"})
		bad = append(bad[:i:i], append([]string{l}, bad[i:]...)...)
		text = strings.Join(bad, "\n")
		t.Desc("text: %q", text)
		gr, err := grammar.New(text)
		t.Eval()
		if err == nil || gr != nil {
			t.Fail("accepted", "a line with several arrows: grammar %v, error %v", gr, err)
		}
		t.Count("refused", 1)
	}
	t.Sample("%q", text)
}

func (t *T) addAll(gr *grammar.Grammar, lines []prodLine) {
	set := setsymbol.New()
	impl := t.IntN(4)
	for _, l := range lines {
		switch {
		case len(l.prod) == 0 && t.Bool():
			gr.Add(stringsymbol.Symbol(l.nt), nil)
		case impl == 0 || impl == 3 && t.Bool():
			q := stringsymbol.Production{}
			for _, s := range l.prod {
				q = append(q, stringsymbol.Symbol(s))
			}
			gr.Add(stringsymbol.Symbol(l.nt), q)
			for i := range q { // the caller may use its production again
				q[i] = "changed"
			}
		case impl == 1:
			q := set.Production()
			for _, s := range l.prod {
				q.AddSymbols(set.Str(s))
			}
			gr.Add(set.Str(l.nt), q)
		default:
			q := myProd{}
			for _, s := range l.prod {
				q = append(q, &mySym{s})
			}
			gr.Add(&mySym{l.nt}, q)
		}
		if t.Chance(0.1) {
			gr.Productions(stringsymbol.Symbol(pick(t, []string{"other", "x", "A"})))
		}
		if t.Chance(0.05) { // looking at it on the way changes nothing
			_ = gr.String()
			gr.NonTerminals()
			if p := gr.Productions(stringsymbol.Symbol(l.nt)); p != nil {
				it := p.Iter()
				for it.Next() {
				}
			}
		}
	}
}

// directLR reports left recursion that does not need vanishing symbols.
func (g *CFG) directLR() bool {
	e := map[string]map[string]bool{}
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			if len(p) > 0 {
				edge(e, nt, p[0])
			}
		}
	}
	r := g.reach(e)
	for _, nt := range g.NT {
		if r[nt][nt] {
			return true
		}
	}
	return false
}

func runC10(t *T) {
	var g *CFG
	if t.Chance(0.5) {
		g, _ = t.anyCFG()
	} else {
		g = t.lrCFG()
	}
	orders := 3
	if t.Chance(0.02) {
		g = t.padded(g, t.Range(50, 400))
		orders = 2
		t.Count("large", 1)
	}
	want := g.leftRecursive()
	text := g.text()
	t.Seen(text)
	for i := 0; i < orders; i++ {
		o := g
		if i > 0 {
			o = t.shuffledAll(g)
		}
		gr := o.build(t, t.IntN(grammarImpls))
		t.Desc("grammar:\n%s", o.text())
		got := parlex.IsLeftRecursive(gr)
		t.Eval()
		if got != want {
			t.Fail("detect", "IsLeftRecursive is %v, a non-terminal can derive itself first: %v", got, want)
		}
		p, err := topdown.New(gr)
		t.Eval()
		if want {
			if err != topdown.ErrLeftRecursion || p != nil {
				t.Fail("constructor", "topdown.New returned %v, %v for a left recursive grammar", p, err)
			}
			continue
		}
		if err != nil || p == nil {
			t.Fail("constructor", "topdown.New refused a grammar that is not left recursive: %v", err)
		}
		if i == 0 {
			// parsing terminates
			for _, in := range t.inputs(o, 4, 3, 12) {
				t.Desc("grammar:\n%s\nkinds: %q", o.text(), in)
				p.Parse(t.lexemes(in))
				t.Count("parses", 1)
			}
		}
	}
	switch {
	case !want:
		t.Count("not_left_recursive", 1)
	case g.directLR():
		t.Count("left_recursive", 1)
	default:
		t.Count("left_recursive", 1)
		t.Count("only_hidden", 1)
	}
	t.Sample("left recursive %v:\n%s", want, text)
}

// padded adds non-terminals that are not left recursive, in a chain that can
// lead to the non-terminals of g.
func (t *T) padded(g *CFG, n int) *CFG {
	out := newCFG()
	name := func(i int) string { return fmt.Sprintf("Pad%d", i) }
	where := t.IntN(3) // before, after, on both sides
	var mid bool
	for i := 0; i < n; i++ {
		if !mid && (where == 1 || where == 2 && i == n/2) {
			mid = true
			for _, nt := range g.NT {
				for _, p := range g.Prods[nt] {
					out.add(nt, p...)
				}
			}
		}
		switch t.IntN(4) {
		case 0:
			out.add(name(i), "p", name(t.IntN(n)))
		case 1:
			out.add(name(i))
		}
		if i+1 < n {
			out.add(name(i), name(i+1), "q")
		} else {
			out.add(name(i), g.NT[0])
		}
	}
	if !mid {
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				out.add(nt, p...)
			}
		}
	}
	return out
}

// lrCFG makes a grammar close to the edge: a chain of leftmost symbols with
// prefixes that can or cannot vanish, directly or through others.
func (t *T) lrCFG() *CFG {
	n := t.Range(1, 6)
	m := t.Range(1, 5)
	nts := []string{}
	for i := 0; i < n; i++ {
		nts = append(nts, fmt.Sprintf("N%d", i))
	}
	opt := []string{}
	for i := 0; i < m; i++ {
		opt = append(opt, fmt.Sprintf("O%d", i))
	}
	g := newCFG()
	for i, nt := range nts {
		for k := t.Range(1, 2); k > 0; k-- {
			var p []string
			for j := t.IntN(3); j > 0; j-- {
				p = append(p, pick(t, opt))
			}
			if t.Chance(0.3) {
				p = append(p, "t")
			}
			if i+1 < n {
				p = append(p, nts[i+1])
			} else if t.Chance(0.5) {
				p = append(p, pick(t, nts))
			}
			if t.Bool() {
				p = append(p, "u")
			}
			g.add(nt, p...)
		}
		if t.Bool() {
			g.add(nt, "x")
		}
	}
	// O_i vanishes directly, through later ones, or not at all
	for i, o := range opt {
		switch {
		case t.Chance(0.35):
			g.add(o, "o")
			if t.Chance(0.05) {
				for k := t.Range(5, 40); k > 0; k-- {
					g.add(o, fmt.Sprintf("o%d", k))
				}
			}
			g.add(o)
		case i+1 < m:
			p := []string{opt[i+1]}
			if t.Bool() {
				p = append(p, pick(t, opt[i+1:]))
			}
			if t.Chance(0.5) {
				g.add(o, "o")
			}
			g.add(o, p...)
		default:
			g.add(o, "o")
		}
	}
	return g
}

// shuffledAll reorders the non-terminals and the productions.
func (t *T) shuffledAll(g *CFG) *CFG {
	out := newCFG()
	for _, i := range t.Perm(len(g.NT)) {
		nt := g.NT[i]
		ps := g.Prods[nt]
		for _, j := range t.Perm(len(ps)) {
			out.add(nt, ps[j]...)
		}
	}
	return out
}

// wideLR makes a cycle of leftmost symbols that pass through non-terminals
// with many productions, so that what has to be put in their place is long.
func (t *T) wideLR() *CFG {
	g := newCFG()
	n := t.Range(1, 3)
	hidden := t.Bool()
	for i := 0; i < n; i++ {
		nt := fmt.Sprintf("N%d", i)
		k := pick(t, []int{1, 2, 3, 8, 20, 60})
		at := t.IntN(k + 1)
		for j := 0; j <= k; j++ {
			if j == at {
				p := []string{fmt.Sprintf("N%d", (i+1)%n)}
				if hidden {
					p = append([]string{"O"}, p...)
				}
				if t.Bool() {
					p = append(p, fmt.Sprintf("c%d", i))
				}
				g.add(nt, p...)
			}
			if j < k {
				p := []string{fmt.Sprintf("t%d_%d", i, j)}
				if t.Chance(0.1) {
					p = append(p, pick(t, []string{"N0", "u"}))
				}
				g.add(nt, p...)
			}
		}
	}
	if hidden {
		g.add("O", "o")
		g.add("O")
	}
	return g
}

func runC11(t *T) {
	var g *CFG
	for {
		switch {
		case t.Chance(0.02):
			g = t.wideLR()
		case t.Chance(0.3):
			g = t.lrCFG()
		case t.Chance(0.25):
			g = gramFamilies[t.IntN(len(gramFamilies))](t)
		default:
			g = t.randCFG(pick(t, []string{"tiny", "tiny", "small", "null", "unit", "long", "many", "medium"}))
		}
		if g.size() <= 400 {
			break
		}
	}
	if t.Chance(0.3) {
		g = t.shuffled(g)
	}
	if t.Chance(0.005) {
		t.Desc("the empty grammar")
		t.Eval()
		if h := readCFG(grammar.RemoveLeftRecursion(grammar.Empty())); len(h.NT) != 0 {
			t.Fail("language", "the empty grammar becomes\n%s", h.text())
		}
	}
	h := t.removeLR(g)

	// the names that were made up can also be in the grammar that is given
	if !t.Chance(0.3) {
		return
	}
	used := map[string]bool{}
	syms := append(append([]string{}, g.NT...), g.terminals()...)
	for _, s := range syms {
		used[s] = true
	}
	to := map[string]string{}
	for _, s := range h.NT {
		if !used[s] && t.Chance(0.7) {
			if o := pick(t, syms); to[o] == "" {
				to[o] = s
			}
		}
	}
	if len(to) == 0 {
		return
	}
	t.Count("names_taken", len(to))
	t.removeLR(g.renamed(to))
}

// renamed gives symbols other names.
func (g *CFG) renamed(to map[string]string) *CFG {
	name := func(s string) string {
		if n, ok := to[s]; ok {
			return n
		}
		return s
	}
	out := newCFG()
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			var q []string
			for _, s := range p {
				q = append(q, name(s))
			}
			out.add(name(nt), q...)
		}
	}
	return out
}

// removeLR checks the removal of left recursion from g.
func (t *T) removeLR(g *CFG) *CFG {
	text := g.text()
	t.Desc("grammar:\n%s", text)
	gr := g.build(t, t.IntN(grammarImpls))
	out := grammar.RemoveLeftRecursion(gr)
	t.Eval()
	if got := readCFG(gr).text(); got != text {
		t.Fail("input", "the grammar given was changed to\n%s", got)
	}
	h := readCFG(out)
	t.More("without left recursion:\n%s", h.text())
	t.Max("productions_out", h.size())
	if h.leftRecursive() {
		t.Fail("leftrec", "the result is left recursive")
	}
	if parlex.IsLeftRecursive(out) {
		t.Fail("leftrec", "IsLeftRecursive says that the result is left recursive")
	}
	if len(h.NT) > 0 && h.NT[0] != g.NT[0] {
		t.Fail("start", "the start symbol is %q instead of %q", h.NT[0], g.NT[0])
	}
	// terminals of the original must not have become non-terminals
	terms := g.terminals()
	isTerm := map[string]bool{}
	for _, s := range terms {
		isTerm[s] = true
	}
	for _, nt := range h.NT {
		if isTerm[nt] {
			t.Fail("language", "the terminal %q has productions in the result", nt)
		}
	}
	base := strings.Join(t.desc, "\n")
	cg, ch := g.compile(), h.compile()
	ins := t.inputs(g, 60, 6, 10)
	for i := 0; i < 4; i++ {
		if s := h.sentence(t, 10); s != nil {
			ins = append(ins, s)
		}
	}
	if len(terms) > 8 {
		for _, s := range terms {
			ins = append(ins, []string{s}, []string{s, pick(t, terms)})
		}
	}
	for _, in := range ins {
		a := cg.accepts(in)
		b := len(h.NT) > 0 && ch.accepts(in)
		t.Eval()
		if a != b {
			t.Desc("%s\nkinds: %q", base, in)
			t.Fail("language", "in the original language: %v, in the new one: %v", a, b)
		}
		if a {
			t.Count("members", 1)
		} else {
			t.Count("non_members", 1)
		}
	}
	if g.leftRecursive() {
		t.Count("left_recursive", 1)
		t.Seen(text)
	}
	if g.cyclic() {
		t.Count("cyclic", 1)
	}
	t.Sample("%s", base)
	return h
}

func runC12(t *T) {
	var g *CFG
	if t.Chance(0.75) {
		g, _ = t.anyCFG()
	} else {
		g = t.lrCFG()
	}
	if g.size() > 300 && t.Chance(0.8) {
		g = t.randCFG("medium")
	}
	if t.Chance(0.3) {
		g = t.shuffledAll(g)
	}
	impl := t.IntN(grammarImpls)
	gr := g.build(t, impl)
	t.Desc("grammar:\n%s", g.text())
	a := analyze.Analyze(gr)
	syms := append(append([]string{}, g.NT...), g.terminals()...)
	in := map[string]bool{}
	for _, s := range syms {
		in[s] = true
	}
	asked := syms
	if len(syms) > 40 {
		asked = nil
		for i := 0; i < 40; i++ {
			asked = append(asked, pick(t, syms))
		}
	}
	for _, s := range []string{"unknown", "", "START", "nil"} {
		if !in[s] {
			asked = append(asked, s)
		}
	}
	foreign := setsymbol.New()
	foreign.Str("pad")
	sym := func(s string) parlex.Symbol {
		switch t.IntN(3) {
		case 0:
			return &mySym{s}
		case 1:
			return foreign.Str(s)
		}
		return stringsymbol.Symbol(s)
	}
	firsts, nils := g.firsts(), g.leftmostEmpty()
	for _, s := range asked {
		if got := a.Contains(sym(s)); got != in[s] {
			t.Fail("contains", "Contains(%q) is %v", s, got)
		}
		if got := a.NonTerminal(sym(s)); got != g.isNT(s) {
			t.Fail("nonterminal", "NonTerminal(%q) is %v", s, got)
		}
		if got := a.HasNilInFirst(sym(s)); got != nils[s] {
			t.Fail("nil", "HasNilInFirst(%q) is %v", s, got)
		}
		if nils[s] {
			t.Count("nil_yes", 1)
		} else {
			t.Count("nil_no", 1)
		}
		for _, f := range asked {
			if g.isNT(f) {
				continue // only terminals are specified
			}
			if !in[f] || !in[s] {
				if a.HasFirst(sym(s), sym(f)) {
					t.Fail("first", "HasFirst(%q, %q) is true for a symbol that is not in the grammar", s, f)
				}
				continue
			}
			want := firsts[s][f]
			if !g.isNT(s) {
				want = s == f
			}
			got := a.HasFirst(sym(s), sym(f))
			if got != want {
				t.Fail("first", "HasFirst(%q, %q) is %v", s, f, got)
			}
			if want {
				t.Count("firsts_yes", 1)
			} else {
				t.Count("firsts_no", 1)
			}
		}
	}
	t.Eval()
	// the analysis is also the grammar
	t.sameGrammar("analysis", a, g)
	if b := analyze.Analyze(a); b == nil || readCFG(b).text() != g.text() {
		t.Fail("again", "analysing the analysis changed the grammar")
	}
	t.Seen(g.text())
	t.Sample("%s", g.text())
}
