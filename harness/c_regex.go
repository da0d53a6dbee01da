package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
)

func init() {
	register(&Prop{
		ID:       "C13",
		Rule:     "regex grammars from random operator trees in a random layout; languages compared on all short sequences and sentences, trees of both parsers reduced and matched against the written right sides; planted faults; non-trivial: distinct text with an operator",
		Quick:    25000,
		Thorough: 700000,
		Run:      runC13,
		Floors:   map[string]int64{"members": 20000, "non_members": 20000, "reduced_trees": 20000, "repeats": 5000, "nested_repeats": 1000, "refused": 700},
		Assume:   []string{"the number of alternatives that one right side expands to is bounded (64), the expansion is exponential by design"},
	})
}

// eb is a node of a right side: s symbol, g group, o optional, r repeat,
// | alternatives.
type eb struct {
	op   byte
	sym  string
	kids []*eb
}

type ebProd struct {
	nt    string
	items []*eb
}

// alts counts the productions it expands to.
func (e *eb) alts() int {
	switch e.op {
	case 'o':
		return e.kids[0].alts() + 1
	case 'g':
		n := 1
		for _, k := range e.kids {
			n *= k.alts()
		}
		return n
	case '|':
		n := 0
		for _, k := range e.kids {
			n += k.alts()
		}
		return n
	}
	return 1
}

func (e *eb) maxAlts() int {
	m := e.alts()
	for _, k := range e.kids {
		if n := k.maxAlts(); n > m {
			m = n
		}
	}
	return m
}

func (t *T) ebItem(syms []string, depth int) *eb {
	base := func() *eb {
		if depth > 0 && t.Chance(0.35) {
			g := &eb{op: 'g'}
			n := t.Range(1, 3)
			switch {
			case t.Chance(0.06):
				n = 0
			case t.Chance(0.02):
				n = t.Size(4, 20)
			}
			for i := 0; i < n; i++ {
				g.kids = append(g.kids, t.ebItem(syms, depth-1))
			}
			return g
		}
		return &eb{op: 's', sym: pick(t, syms)}
	}
	one := func() *eb {
		switch {
		case t.Chance(0.2):
			return &eb{op: 'o', kids: []*eb{base()}}
		case t.Chance(0.25):
			return &eb{op: 'r', kids: []*eb{base()}}
		}
		return base()
	}
	if t.Chance(0.2) {
		e := &eb{op: '|'}
		n := t.Range(2, 4)
		if t.Chance(0.03) {
			n = t.Size(5, 24)
		}
		for i := n; i > 0; i-- {
			e.kids = append(e.kids, one())
		}
		return e
	}
	return one()
}

func (e *eb) text(t *T) string {
	opt := func() string { return pick(t, []string{"", "", " ", "\t"}) }
	switch e.op {
	case 's':
		return e.sym
	case 'g':
		return "(" + opt() + ebTexts(t, e.kids) + opt() + ")"
	case 'o':
		return e.kids[0].text(t) + opt() + "?"
	case 'r':
		return e.kids[0].text(t) + opt() + "*"
	}
	var s []string
	for _, k := range e.kids {
		s = append(s, k.text(t))
	}
	return strings.Join(s, opt()+"|"+opt())
}

func ebTexts(t *T, items []*eb) string {
	var b strings.Builder
	for i, e := range items {
		if i > 0 {
			b.WriteString(pick(t, []string{" ", "  ", "\t"}))
		}
		b.WriteString(e.text(t))
	}
	return b.String()
}

func (e *eb) count(op byte, inside bool) (n, nested int) {
	if e.op == op {
		n++
		if inside {
			nested++
		}
		inside = true
	}
	for _, k := range e.kids {
		a, b := k.count(op, inside)
		n += a
		nested += b
	}
	return
}

// toCFG adds the productions to g, with helper non-terminals whose names cannot
// be written.
func toCFG(g *CFG, nt string, items []*eb, fresh *int) {
	// helpers are added after nt, so that nt comes first in the grammar
	type pending struct {
		name string
		e    *eb
	}
	var todo []pending
	sym := func(e *eb) string {
		if e.op == 's' {
			return e.sym
		}
		*fresh++
		name := fmt.Sprintf("# %d", *fresh)
		todo = append(todo, pending{name, e})
		return name
	}
	list := func(items []*eb) []string {
		var p []string
		for _, e := range items {
			p = append(p, sym(e))
		}
		return p
	}
	g.add(nt, list(items)...)
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		switch x.e.op {
		case 'g':
			g.add(x.name, list(x.e.kids)...)
		case 'o':
			g.add(x.name, sym(x.e.kids[0]))
			g.add(x.name)
		case 'r':
			g.add(x.name, sym(x.e.kids[0]), x.name)
			g.add(x.name)
		case '|':
			for _, k := range x.e.kids {
				g.add(x.name, sym(k))
			}
		}
	}
}

var ebNames = [][]string{
	{"S", "A", "B", "C", "D"},
	{"A", "A_B", "B", "A_", "_"},
	{"E", "EE", "e", "E1", "1E"},
	{"Rule", "symbol", "Production", "Group", "nl"},
	{"Xs", "X", "Xss", "x", "_X"},
	longNames,
}

var ebTerms = [][]string{
	{"a", "b", "c", "d"},
	{"a", "a_b", "b", "a_b_c"},
	{"x", "xx", "x1", "1"},
	{"a", "b"},
	{"A1", "A2", "optional", "repeats"},
}

// ebGrammar makes the productions of a regex grammar.
func (t *T) ebGrammar() []ebProd {
	nts := append([]string{}, pick(t, ebNames)[:t.Range(1, 4)]...)
	var terms []string
	for _, s := range pick(t, ebTerms) {
		if !contains(nts, s) {
			terms = append(terms, s)
		}
	}
	terms = append(terms, "z")
	if t.Chance(0.03) {
		// the names matter for those of the repeats
		k := t.Size(1, 60)
		for i := range nts {
			nts[i] += strings.Repeat("_n", k)
		}
		for i := range terms {
			terms[i] += strings.Repeat("t", t.Size(1, k))
		}
	}
	var prods []ebProd
	cur := nts[0]
	depth := t.Range(1, 3)
	for i, nt := range nts {
		for k := t.Range(1, 2); k > 0; k-- {
			p := ebProd{nt: nt}
			syms := append([]string{}, terms...)
			// fewer recursive references than terminals
			if i+1 < len(nts) {
				syms = append(syms, nts[i+1:]...)
				syms = append(syms, nts[i+1:]...)
			}
			if t.Chance(0.4) {
				syms = append(syms, pick(t, nts))
			}
			for {
				p.items = nil
				n := t.Range(1, 4)
				switch {
				case t.Chance(0.05):
					n = 0
				case t.Chance(0.01):
					n = t.Size(5, 40)
				}
				max := 1
				for j := 0; j < n; j++ {
					e := t.ebItem(syms, depth)
					p.items = append(p.items, e)
					if m := e.maxAlts(); m > max {
						max = m
					}
				}
				if (&eb{op: 'g', kids: p.items}).alts() <= 64 && max <= 64 {
					break
				}
			}
			prods = append(prods, p)
		}
	}
	// repeated left sides later on
	if t.Chance(0.2) {
		prods = append(prods, ebProd{nt: cur, items: []*eb{t.ebItem(terms, 1)}})
	}
	// repeats of groups whose symbols join to the same text
	if t.Chance(0.25) {
		i := t.IntN(len(prods))
		n := t.Range(2, 3)
		splits := ebSplits
		if t.Chance(0.3) {
			// several of the same kind
			splits = [][]string{{"a", "b", "c"}, {"a_b", "c"}, {"a", "b_c"}, {"a_b_c"}}
			n = t.Range(3, 5)
		}
		var reps []*eb
		for j := 0; j < n; j++ {
			reps = append(reps, t.ebLookalike(splits))
		}
		if t.Bool() {
			prods = append(prods, ebProd{nt: prods[i].nt, items: reps})
		} else {
			for _, r := range reps {
				k := t.IntN(len(prods))
				prods = append(prods[:k+1:k+1], append([]ebProd{{nt: prods[k].nt, items: []*eb{r, {op: 's', sym: "z"}}}}, prods[k+1:]...)...)
			}
		}
	}
	// repeats that differ in one place only
	if t.Chance(0.04) {
		var kids []*eb
		n := t.Range(2, 16)
		alt := t.Chance(0.7)
		for j := 0; j < n; j++ {
			e := &eb{op: 's', sym: fmt.Sprintf("k%d", t.IntN(n))}
			if alt || j < 2 {
				e.sym = fmt.Sprintf("k%d", j)
			}
			kids = append(kids, e)
		}
		at := t.IntN(n)
		if t.Bool() {
			at = n - 1
		}
		other := append([]*eb(nil), kids...)
		switch t.IntN(4) {
		case 0:
			other[at] = &eb{op: 's', sym: "k99"}
		case 1:
			other[at] = &eb{op: 'r', kids: []*eb{other[at]}}
		case 2:
			other = append(other[:at:at], other[at+1:]...)
			if len(other) < 2 {
				other = append(other, &eb{op: 's', sym: "k99"})
			}
		default:
			other = append(other, &eb{op: 's', sym: "k99"})
		}
		rep := func(kids []*eb) *eb {
			if alt {
				kids = []*eb{{op: '|', kids: kids}}
			}
			return &eb{op: 'r', kids: []*eb{{op: 'g', kids: kids}}}
		}
		if t.Bool() {
			prods = append(prods, ebProd{nt: prods[0].nt, items: []*eb{rep(kids), {op: 's', sym: "z"}, rep(other)}})
		} else {
			prods = append(prods, ebProd{nt: prods[0].nt, items: []*eb{rep(kids)}}, ebProd{nt: prods[t.IntN(len(prods))].nt, items: []*eb{rep(other)}})
		}
	}
	// repeats that differ in their brackets only
	if t.Chance(0.1) {
		var e *eb
		for e == nil || e.maxAlts() > 12 {
			e = &eb{op: 'g'}
			for j := t.Range(1, 3); j > 0; j-- {
				e.kids = append(e.kids, t.ebItem([]string{"a", "b", "c"}, 2))
			}
			if t.Chance(0.3) {
				alt := &eb{op: '|', kids: []*eb{t.ebItem([]string{"a", "b"}, 0)}}
				if alt.kids[0].op == '|' {
					alt = alt.kids[0]
				}
				alt.kids = append(alt.kids, &eb{op: pick(t, []byte("ro")), kids: []*eb{{op: 's', sym: "d"}}})
				e.kids = append([]*eb{alt}, e.kids...)
			}
		}
		f := e
		for j := t.Range(1, 2); j > 0; j-- {
			f = t.ebRebracket(f)
		}
		if f.maxAlts() <= 24 {
			items := []*eb{{op: 'r', kids: []*eb{e}}, {op: 's', sym: "z"}, {op: 'r', kids: []*eb{f}}}
			prods = append(prods, ebProd{nt: prods[0].nt, items: items})
		}
	}
	return prods
}

// ebRebracket returns a group with brackets added, removed or moved.
func (t *T) ebRebracket(e *eb) *eb {
	var all []*eb // groups
	var copyOf func(e *eb) *eb
	copyOf = func(e *eb) *eb {
		c := &eb{op: e.op, sym: e.sym}
		for _, k := range e.kids {
			c.kids = append(c.kids, copyOf(k))
		}
		if c.op == 'g' && len(c.kids) > 0 {
			all = append(all, c)
		}
		return c
	}
	out := copyOf(e)
	if len(all) == 0 {
		return out
	}
	g := pick(t, all)
	i := t.IntN(len(g.kids))
	k := g.kids[i]
	switch t.IntN(4) {
	case 0: // a single one
		if k.op == 'g' && t.Bool() {
			g.kids = append(g.kids[:i:i], append(k.kids[:len(k.kids):len(k.kids)], g.kids[i+1:]...)...)
		} else {
			g.kids[i] = &eb{op: 'g', kids: []*eb{k}}
		}
	case 1: // the last of some alternatives
		if n := len(k.kids); k.op == '|' {
			if last := k.kids[n-1]; last.op == 'r' || last.op == 'o' {
				alt := &eb{op: '|', kids: append(k.kids[:n-1:n-1], last.kids[0])}
				g.kids[i] = &eb{op: last.op, kids: []*eb{{op: 'g', kids: []*eb{alt}}}}
				break
			}
			// the first of them, and what comes before
			if i > 0 {
				first := &eb{op: 'g', kids: []*eb{g.kids[i-1], k.kids[0]}}
				alt := &eb{op: '|', kids: append([]*eb{first}, k.kids[1:]...)}
				g.kids = append(g.kids[:i-1:i-1], append([]*eb{alt}, g.kids[i+1:]...)...)
			}
		}
	case 2: // a postfix operator, and what comes before
		if i > 0 && (k.op == 'r' || k.op == 'o') && g.kids[i-1].op != '|' {
			both := &eb{op: k.op, kids: []*eb{{op: 'g', kids: []*eb{g.kids[i-1], k.kids[0]}}}}
			g.kids = append(g.kids[:i-1:i-1], append([]*eb{both}, g.kids[i+1:]...)...)
		}
	default: // an operator is applied once more
		if k.op == 'r' || k.op == 'o' {
			g.kids[i] = &eb{op: k.op, kids: []*eb{{op: 'g', kids: []*eb{k}}}}
		} else if k.op != '|' {
			g.kids[i] = &eb{op: 'o', kids: []*eb{{op: 'g', kids: []*eb{k}}}}
		}
	}
	return out
}

var ebSplits = [][]string{
	{"a", "b"}, {"a_b"}, {"a", "b", "c"}, {"a_b", "c"}, {"a", "b_c"}, {"a_b_c"}, {"ab"}, {"ab", "c"}, {"a", "bc"}, {"abc"}, {"as", "b"}, {"a", "sb"},
	{"_a", "b"}, {"a_", "b"}, {"a", "_b"}, {"b", "a"},
}

// ebLookalike is a repeat (or a group, or an optional) over one of the ways to
// split the same characters into symbols.
func (t *T) ebLookalike(splits [][]string) *eb {
	ss := pick(t, splits)
	var kids []*eb
	for _, s := range ss {
		e := &eb{op: 's', sym: s}
		switch {
		case t.Chance(0.1):
			e = &eb{op: 'o', kids: []*eb{e}}
		case t.Chance(0.1):
			e = &eb{op: 'r', kids: []*eb{e}}
		}
		kids = append(kids, e)
	}
	var e *eb
	switch {
	case len(kids) > 1 && t.Chance(0.2):
		// nested differently
		e = &eb{op: 'g', kids: append([]*eb{kids[0]}, &eb{op: 'g', kids: kids[1:]})}
	case len(kids) > 1 && t.Chance(0.2):
		e = &eb{op: 'g', kids: []*eb{{op: '|', kids: kids}}}
	default:
		e = &eb{op: 'g', kids: kids}
	}
	op := byte('r')
	if t.Chance(0.15) {
		op = 'o'
	}
	return &eb{op: op, kids: []*eb{e}}
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// ebText writes the productions as lines.
func ebLines(t *T, prods []ebProd) []string {
	sp := func() string { return pick(t, []string{"", " ", "   ", "\t"}) }
	var lines []string
	comment := func() {
		for t.Chance(0.15) {
			lines = append(lines, sp()+"//"+pick(t, []string{"", " a comment", " A -> b", "/", " -> ( * ?", " é \"x\" +", "x"}))
		}
		for t.Chance(0.1) {
			lines = append(lines, sp())
		}
	}
	comment()
	for i, p := range prods {
		l := sp()
		if i == 0 || prods[i-1].nt != p.nt || t.Chance(0.3) {
			l += p.nt + sp()
		}
		lines = append(lines, l+"->"+sp()+ebTexts(t, p.items)+sp())
		comment()
	}
	return lines
}

func ebText(t *T, prods []ebProd) string {
	s := strings.Join(ebLines(t, prods), pick(t, []string{"\n", "\n", "\n", "\r\n"}))
	if t.Bool() {
		s = "\n" + s
	}
	if t.Bool() {
		s += "\n"
	}
	return s
}

var ebFaults = []string{
	"A -> B C)", "A -> (B", "A -> *", "A -> ?", "A -> |", "A -> B |", "A -> | B", "A -> B**", "A -> B??", "A -> B?*", "A -> B -> C",
	"A B -> C", "A", "A B", "(A) -> B", "A -> B + C", "A -> \"x\"", "A - > B", "A -> (B))", "A -> ((B)", "A* -> B", "A -> B || C", "A -> (|B)", "A -> B / C", "A -> B |?", "A -> é", "-> -> B", "A ->-> B",
}

func runC13(t *T) {
	prods := t.ebGrammar()
	text := ebText(t, prods)
	t.Desc("regex grammar: %q", text)
	if t.Chance(0.15) {
		lines := ebLines(t, prods)
		i := t.IntN(len(lines) + 1)
		lines = append(lines[:i:i], append([]string{pick(t, ebFaults)}, lines[i:]...)...)
		bad := strings.Join(lines, "\n")
		if t.Chance(0.1) {
			bad = pick(t, []string{"", "\n", "  ", "// only a comment", "-> A", "\n -> A\nB -> C", "x"})
		}
		t.Desc("regex grammar: %q", bad)
		g, r, err := regexgram.New(bad)
		t.Eval()
		if err == nil || g != nil || r != nil {
			t.Fail("accepted", "malformed text: grammar %v, reducer %v, error %v", g, r, err)
		}
		t.Count("refused", 1)
		return
	}
	gr, rd, err := regexgram.New(text)
	t.Eval()
	if err != nil || gr == nil || rd == nil {
		t.Fail("refused", "a valid regex grammar was refused: %v", err)
	}
	got := readCFG(gr)
	t.More("expanded:\n%s", got.text())
	// models
	model := newCFG()
	fresh := 0
	written := map[string]bool{}
	nts := map[string]bool{}
	rhs := map[string]*CFG{}
	ops := false
	var reps, nested int
	for _, p := range prods {
		nts[p.nt] = true
		written[p.nt] = true
		toCFG(model, p.nt, p.items, &fresh)
		for _, e := range p.items {
			e.symbols(written)
			a, b := e.count('r', false)
			reps += a
			nested += b
			ops = ops || e.op != 's'
		}
	}
	for nt := range nts {
		g := newCFG()
		for _, p := range prods {
			if p.nt == nt {
				toCFG(g, "# start", p.items, &fresh)
			}
		}
		rhs[nt] = g
	}
	t.Count("repeats", reps)
	t.Count("nested_repeats", nested)
	if len(got.NT) == 0 || got.NT[0] != model.NT[0] {
		t.Fail("start", "the start symbol is %q, expected %q", got.NT, model.NT[0])
	}
	cm, cgot := model.compile(), got.compile()
	crhs := map[string]*cg{}
	for nt, g := range rhs {
		crhs[nt] = g.compile()
	}
	parsers := []parlex.Parser{packrat.New(gr)}
	if p, err := topdown.New(gr); err == nil {
		parsers = append(parsers, p)
	}
	base := strings.Join(t.desc, "\n")
	if ops {
		t.Seen(text)
	}
	for _, in := range t.inputs(model, 20, 8, 10) {
		want := cm.accepts(in)
		t.Desc("%s\nkinds: %q", base, in)
		t.Eval()
		if a := cgot.accepts(in); a != want {
			t.Fail("language", "derived by the grammar: %v, described by the operators: %v", a, want)
		}
		if !want {
			t.Count("non_members", 1)
			continue
		}
		t.Count("members", 1)
		lxs := t.lexemes(in)
		for i, p := range parsers {
			pn := p.Parse(lxs)
			if pn == nil {
				if i == 0 {
					t.Fail("language", "the packrat parser rejects a member")
				}
				continue
			}
			red := rd.Reduce(pn)
			t.checkFlat(crhs, nts, written, model.NT[0], red, lxs)
			t.Count("reduced_trees", 1)
		}
	}
	t.Sample("%s", text)
}

func (e *eb) symbols(m map[string]bool) {
	if e.op == 's' {
		m[e.sym] = true
	}
	for _, k := range e.kids {
		k.symbols(m)
	}
}

// checkFlat checks a reduced tree of a regex grammar.
func (t *T) checkFlat(rhs map[string]*cg, nts, written map[string]bool, start string, root parlex.ParseNode, lxs []parlex.Lexeme) {
	if isNilNode(root) || root.Kind().String() != start {
		t.Fail("flatten", "the root is not %q", start)
	}
	pos := 0
	var walk func(n parlex.ParseNode)
	walk = func(n parlex.ParseNode) {
		k := n.Kind().String()
		if !written[k] {
			t.Fail("flatten", "the helper %q is left in the tree\n%s", k, kindShape(root))
		}
		if !nts[k] {
			if pos >= len(lxs) || lexString(lxs[pos]) != lexString(n) || n.Children() != 0 {
				t.Fail("flatten", "leaf %d is %s\n%s", pos, lexString(n), kindShape(root))
			}
			pos++
			return
		}
		var kinds []string
		for i := 0; i < n.Children(); i++ {
			kinds = append(kinds, n.Child(i).Kind().String())
			if !written[kinds[i]] {
				t.Fail("flatten", "the helper %q is left in the tree\n%s", kinds[i], kindShape(root))
			}
		}
		if !rhs[k].accepts(kinds) {
			t.Fail("flatten", "the children of %q are %q, which its right sides do not match\n%s", k, kinds, kindShape(root))
		}
		for i := range kinds {
			walk(n.Child(i))
		}
	}
	walk(root)
	if pos != len(lxs) {
		t.Fail("flatten", "%d leaves for %d lexemes\n%s", pos, len(lxs), kindShape(root))
	}
}
