package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

func init() {
	register(&Prop{
		ID:       "C14",
		Rule:     "random trees (built by hand, by the parsers, or of another ParseNode type) and reducers of provided and user reductions that record their calls, merged or not; non-trivial: distinct tree and reducer in which a reduction was called",
		Quick:    900000,
		Thorough: 9000000,
		Run:      runC14,
		Floors:   map[string]int64{"reduction_calls": 100000, "nodes": 200000, "merged": 5000},
	})
	register(&Prop{
		ID:       "C15",
		Rule:     "random trees and sequences of edits on random nodes with indexes in and out of range, compared with a functional model after each edit; non-trivial: distinct edit on a distinct tree that changed something",
		Quick:    900000,
		Thorough: 9000000,
		Run:      runC15,
		Floors:   map[string]int64{"edits": 200000, "effective": 40000, "out_of_range": 20000, "negative": 15000},
	})
	register(&Prop{
		ID:       "C16",
		Rule:     "random trees with arbitrary values printed and read back, cloned and changed; texts with a planted fault; non-trivial: distinct printed tree with at least two nodes",
		Quick:    300000,
		Thorough: 3000000,
		Run:      runC16,
		Floors:   map[string]int64{"round_trips": 20000, "refused": 10000, "clones": 20000, "escaped_values": 20000},
	})
	register(&Prop{
		ID:       "C17",
		Rule:     "random reducer texts in a random layout against the same rules built in code, on random trees; planted faults; non-trivial: distinct text with at least one rule",
		Quick:    120000,
		Thorough: 600000,
		Run:      runC17,
		Floors:   map[string]int64{"trees": 20000, "changed_trees": 5000, "refused": 1000, "conditionals": 2000},
		Assume:   []string{"strings in reducer texts contain neither quotes nor backslashes"},
	})
}

// mt is the model of a tree.
type mt struct {
	kind, val string
	l, c      int
	kids      []*mt
}

func (m *mt) clone() *mt {
	n := &mt{m.kind, m.val, m.l, m.c, nil}
	for _, k := range m.kids {
		n.kids = append(n.kids, k.clone())
	}
	return n
}

func (m *mt) write(b *strings.Builder) {
	fmt.Fprintf(b, "%q:%q@%d:%d", m.kind, m.val, m.l, m.c)
	if len(m.kids) > 0 {
		b.WriteString("(")
		for i, k := range m.kids {
			if i > 0 {
				b.WriteString(" ")
			}
			k.write(b)
		}
		b.WriteString(")")
	}
}

// shape is the same as shape of the real tree.
func (m *mt) shape() string {
	var b strings.Builder
	m.write(&b)
	return b.String()
}

func (m *mt) size() int {
	n := 1
	for _, k := range m.kids {
		n += k.size()
	}
	return n
}

func modelOf(n parlex.ParseNode) *mt {
	l, c := n.Pos()
	m := &mt{kind: n.Kind().String(), val: n.Value(), l: l, c: c}
	for i := 0; i < n.Children(); i++ {
		m.kids = append(m.kids, modelOf(n.Child(i)))
	}
	return m
}

// randTree makes a tree in which values and positions identify the nodes.
func (t *T) randTree(maxNodes int, kinds, vals []string) *mt {
	n := 1 + t.IntN(maxNodes)
	root := &mt{kind: pick(t, kinds), l: 1, c: 1}
	nodes := []*mt{root}
	deep := t.Chance(0.2)
	wide := t.Chance(0.02)
	hub := root
	if wide {
		n = t.Size(8, 300)
		deep = t.Chance(0.3)
	}
	for i := 1; i < n; i++ {
		p := pick(t, nodes)
		if deep && (wide && t.Chance(0.95) || t.Chance(0.8)) {
			p = nodes[len(nodes)-1]
		} else if wide && !deep && t.Chance(0.95) {
			p = hub
		}
		k := &mt{kind: pick(t, kinds), l: 1 + i/3, c: 1 + i%3}
		at := t.IntN(len(p.kids) + 1)
		p.kids = append(p.kids[:at:at], append([]*mt{k}, p.kids[at:]...)...)
		nodes = append(nodes, k)
		if i == 2 && t.Bool() {
			hub = k
		}
	}
	for i, m := range nodes {
		switch {
		case vals != nil:
			m.val = pick(t, vals)
		case i%5 == 4:
		default:
			m.val = fmt.Sprintf("v%d", i)
		}
		switch {
		case t.Chance(0.05):
			m.l, m.c = -1, 0
		case t.Chance(0.2):
			m.l, m.c = t.IntN(3), t.IntN(4)
		}
	}
	return root
}

var treeKinds = []string{"A", "B", "C", "D", "E"}

// kinds that are easily taken for each other.
var likeKinds = [][]string{
	{"A", "a", "A'", "A''", "a'"},
	{"Value", "value", "VALUE", "Val", "Values"},
	{"A", "AA", "AAA", "A_", "_A"},
	{"A", " A", "A ", "A\n", "A\t"},
	{"é", "É", "e\u0301", "e", "\xe9"},
	{"k", "K", "\u212a", "s", "\u017f"},
	{"", " ", "-", "--", "\x00"},
	{"A", "A|B", "B|A", "A,B", "B"},
	{"A:", "A{", "A}", "A\"", "A\\"},
	{"A*", "A?", "(A)*", "(A_B)*", "(A)"},
	{"1", "01", "10", "+1", "1.0"},
	{"%s", "%d", "%", "%%", "%!s"},
}

func (t *T) treeKinds() []string {
	if t.Chance(0.25) {
		return pick(t, likeKinds)
	}
	return treeKinds
}

// pn builds the real tree.
func (m *mt) pn(t *T, set *setsymbol.Set, spare bool) *tree.PN {
	var k parlex.Symbol
	switch {
	case set != nil:
		k = set.Str(m.kind)
	default:
		k = stringsymbol.Symbol(m.kind)
	}
	n := &tree.PN{Lexeme: lexeme.New(k).Set(m.val).At(m.l, m.c)}
	if spare {
		n.C = make([]*tree.PN, 0, len(m.kids)+3)
	}
	for _, c := range m.kids {
		cn := c.pn(t, set, spare)
		cn.P = n
		n.C = append(n.C, cn)
	}
	return n
}

func (t *T) pn(m *mt) *tree.PN {
	var set *setsymbol.Set
	if t.Bool() {
		set = setsymbol.New()
	}
	return m.pn(t, set, t.Bool())
}

// myNode is another implementation of parlex.ParseNode.
type myNode struct {
	myLexeme
	p    *myNode
	kids []*myNode
}

func (n *myNode) Parent() parlex.ParseNode {
	if n.p == nil {
		return nil
	}
	return n.p
}
func (n *myNode) Children() int { return len(n.kids) }
func (n *myNode) Child(i int) parlex.ParseNode {
	if i < 0 || i >= len(n.kids) {
		return nil
	}
	return n.kids[i]
}

func (m *mt) my() *myNode {
	n := &myNode{myLexeme: myLexeme{&mySym{m.kind}, m.val, m.l, m.c}}
	for _, k := range m.kids {
		c := k.my()
		c.p = n
		n.kids = append(n.kids, c)
	}
	return n
}

// edits

type edit struct {
	name string
	idx  []int
	strs []string
	cond *edit // for If: ChildIs idx[0] strs[0]
	then []*edit
	els  []*edit
}

func (e *edit) String() string {
	switch e.name {
	case "If":
		return fmt.Sprintf("If(ChildIs(%d, %q), %s, %s)", e.idx[0], e.strs[0], editsString(e.then), editsString(e.els))
	case "RemoveAll":
		return fmt.Sprintf("RemoveAll(%q)", e.strs)
	}
	return fmt.Sprintf("%s(%s)", e.name, strings.Trim(fmt.Sprint(e.idx), "[]"))
}

func editsString(es []*edit) string {
	if len(es) == 0 {
		return "Nil"
	}
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return strings.Join(s, ".")
}

var editNames = []string{"RemoveChild", "RemoveChildren", "RemoveAll", "PromoteSingleChild", "PromoteChildValue", "PromoteChildrenOf", "PromoteGrandChildren", "PromoteChild", "ReplaceWithChild"}

func (t *T) index() int {
	switch {
	case t.Chance(0.01):
		return pick(t, []int{math.MaxInt, math.MinInt, math.MaxInt32 + 1, math.MinInt32 - 1, 1 << 32, -1 << 32, 1<<32 + 1, -1<<32 - 1, 1 << 16, 1 << 8, -256, -257})
	case t.Chance(0.05):
		return pick(t, []int{100, -100, 7, -7, 63, 64, 65, 130, -64, -65, t.IntN(300), -t.IntN(300), t.Size(4, 100), -t.Size(4, 100), t.Size(4, 40), -t.Size(4, 40)})
	case t.Chance(0.4):
		return -t.Range(1, 4)
	}
	return t.IntN(4)
}

func (t *T) edit(kinds []string, depth int) *edit {
	if depth > 0 && t.Chance(0.15) {
		e := &edit{name: "If", idx: []int{t.index()}, strs: []string{pick(t, kinds)}}
		e.then, e.els = t.edits(kinds, depth-1), t.edits(kinds, depth-1)
		return e
	}
	e := &edit{name: pick(t, editNames)}
	switch e.name {
	case "RemoveChildren":
		n := t.Range(1, 4)
		if t.Chance(0.03) {
			n = t.Size(5, 40)
		}
		for i := n; i > 0; i-- {
			e.idx = append(e.idx, t.index())
		}
	case "RemoveAll":
		n := t.Range(1, 3)
		if t.Chance(0.03) {
			n = t.Size(4, 20)
		}
		for i := n; i > 0; i-- {
			e.strs = append(e.strs, pick(t, kinds))
		}
	case "PromoteSingleChild", "PromoteGrandChildren":
	default:
		e.idx = []int{t.index()}
	}
	return e
}

// edits can be empty.
func (t *T) edits(kinds []string, depth int) []*edit {
	var es []*edit
	n := t.Range(1, 3)
	switch {
	case t.Chance(0.1):
		n = 0
	case depth == 2 && t.Chance(0.01):
		n = t.Size(4, 24)
	}
	for ; n > 0; n-- {
		es = append(es, t.edit(kinds, depth))
	}
	return es
}

func realIdx(i, n int) (int, bool) {
	if i < 0 {
		i += n
	}
	return i, i >= 0 && i < n
}

// apply performs the edit on the model, as the documentation says.
func (e *edit) apply(m *mt) {
	n := len(m.kids)
	var i int
	ok := false
	if len(e.idx) > 0 {
		i, ok = realIdx(e.idx[0], n)
	}
	switch e.name {
	case "If":
		es := e.els
		if ok && m.kids[i].kind == e.strs[0] {
			es = e.then
		}
		for _, x := range es {
			x.apply(m)
		}
	case "RemoveChildren":
		drop := map[int]bool{}
		for _, x := range e.idx {
			if k, ok := realIdx(x, n); ok {
				drop[k] = true
			}
		}
		var kids []*mt
		for k, c := range m.kids {
			if !drop[k] {
				kids = append(kids, c)
			}
		}
		m.kids = kids
	case "RemoveAll":
		var kids []*mt
		for _, c := range m.kids {
			if !contains(e.strs, c.kind) {
				kids = append(kids, c)
			}
		}
		m.kids = kids
	case "PromoteSingleChild":
		if n == 1 {
			(&edit{name: "PromoteChild", idx: []int{0}}).apply(m)
		}
	case "PromoteGrandChildren":
		var kids []*mt
		for _, c := range m.kids {
			kids = append(kids, c.kids...)
		}
		m.kids = kids
	}
	if !ok {
		return
	}
	ch := m.kids
	switch e.name {
	case "RemoveChild":
		m.kids = splice(ch, i, nil)
	case "PromoteChildValue":
		m.val, m.l, m.c = ch[i].val, ch[i].l, ch[i].c
		m.kids = splice(ch, i, nil)
	case "PromoteChildrenOf":
		m.kids = splice(ch, i, ch[i].kids)
	case "PromoteChild":
		m.kind, m.val, m.l, m.c = ch[i].kind, ch[i].val, ch[i].l, ch[i].c
		m.kids = splice(ch, i, ch[i].kids)
	case "ReplaceWithChild":
		*m = *ch[i]
	}
}

func splice(s []*mt, i int, in []*mt) []*mt {
	var out []*mt
	out = append(out, s[:i]...)
	out = append(out, in...)
	return append(out, s[i+1:]...)
}

// call performs the edit on a node with the methods. It returns what is wrong
// with their answers.
func (e *edit) call(p *tree.PN) string {
	answers, want, got := false, false, false
	if len(e.idx) > 0 {
		_, want = realIdx(e.idx[0], len(p.C))
	}
	children := len(p.C)
	switch e.name {
	case "RemoveChild":
		answers, got = true, p.RemoveChild(e.idx[0])
	case "RemoveChildren":
		p.RemoveChildren(e.idx...)
	case "RemoveAll":
		p.RemoveAll(e.strs...)
	case "PromoteSingleChild":
		want = len(p.C) == 1
		answers, got = true, p.PromoteSingleChild()
	case "PromoteChildValue":
		p.PromoteChildValue(e.idx[0])
	case "PromoteChildrenOf":
		answers, got = true, p.PromoteChildrenOf(e.idx[0])
	case "PromoteGrandChildren":
		p.PromoteGrandChildren()
	case "PromoteChild":
		answers, got = true, p.PromoteChild(e.idx[0])
	case "ReplaceWithChild":
		answers, got = true, p.ReplaceWithChild(e.idx[0])
	case "If":
		es := e.els
		if p.ChildIs(e.idx[0], e.strs[0]) {
			es = e.then
		}
		for _, x := range es {
			if s := x.call(p); s != "" {
				return s
			}
		}
	}
	if answers && got != want {
		return fmt.Sprintf("%s on a node with %d children answered %v", e, children, got)
	}
	return ""
}

// reduction builds the edit as a function.
func (e *edit) reduction() tree.Reduction {
	switch e.name {
	case "RemoveChild":
		return tree.RemoveChild(e.idx[0])
	case "RemoveChildren":
		return tree.RemoveChildren(e.idx...)
	case "RemoveAll":
		return tree.RemoveAll(e.strs...)
	case "PromoteSingleChild":
		return tree.PromoteSingleChild
	case "PromoteChildValue":
		return tree.PromoteChildValue(e.idx[0])
	case "PromoteChildrenOf":
		return tree.PromoteChildrenOf(e.idx[0])
	case "PromoteGrandChildren":
		return tree.PromoteGrandChildren
	case "PromoteChild":
		return tree.PromoteChild(e.idx[0])
	case "ReplaceWithChild":
		return tree.ReplaceWithChild(e.idx[0])
	case "If":
		return tree.If(tree.ChildIs(e.idx[0], e.strs[0]), reductions(e.then), reductions(e.els))
	}
	panic(e.name)
}

func reductions(es []*edit) tree.Reduction {
	var r tree.Reduction
	for _, e := range es {
		r = tree.Chain(r, e.reduction())
	}
	return r
}

// chain builds the edits with the chaining methods.
func chain(es []*edit) tree.Reduction {
	var r tree.Reduction
	for _, e := range es {
		switch e.name {
		case "RemoveChild":
			r = r.RemoveChild(e.idx[0])
		case "RemoveChildren":
			r = r.RemoveChildren(e.idx...)
		case "RemoveAll":
			r = r.RemoveAll(e.strs...)
		case "PromoteSingleChild":
			r = r.PromoteSingleChild()
		case "PromoteChildValue":
			r = r.PromoteChildValue(e.idx[0])
		case "PromoteChildrenOf":
			r = r.PromoteChildrenOf(e.idx[0])
		case "PromoteGrandChildren":
			r = r.PromoteGrandChildren()
		case "PromoteChild":
			r = r.PromoteChild(e.idx[0])
		case "ReplaceWithChild":
			r = r.ReplaceWithChild(e.idx[0])
		case "If":
			r = r.If(tree.ChildIs(e.idx[0], e.strs[0]), chain(e.then), chain(e.els))
		}
	}
	return r
}

func runC15(t *T) {
	max := 12
	if t.Chance(0.05) {
		max = 80
	}
	kinds := t.treeKinds()
	m := t.randTree(max, kinds, nil)
	p := t.pn(m)
	var log []string
	first := m.shape()
	for step := t.Range(1, 8); step > 0; step-- {
		// a random node
		mm, pp := m, p
		for len(mm.kids) > 0 && t.Chance(0.55) {
			i := t.IntN(len(mm.kids))
			mm, pp = mm.kids[i], pp.C[i]
		}
		before := m.shape()
		es := t.edits(kinds, 2)
		how := t.IntN(3)
		if len(es) == 0 && how == 1 {
			how = 0
		}
		log = append(log, fmt.Sprintf("on %q:%q@%d:%d %s (form %d)", mm.kind, mm.val, mm.l, mm.c, editsString(es), how))
		t.Desc("tree: %s\nedits: %s", first, strings.Join(log, "\n       "))
		parent := pp.P
		for _, e := range es {
			for _, i := range e.idx {
				if _, ok := realIdx(i, len(mm.kids)); !ok {
					t.Count("out_of_range", 1)
				} else if i < 0 {
					t.Count("negative", 1)
				}
			}
			e.apply(mm)
		}
		switch how {
		case 0:
			for _, e := range es {
				if bad := e.call(pp); bad != "" {
					t.Fail("answer", "%s", bad)
				}
			}
		case 1:
			chain(es)(pp)
		case 2:
			if r := reductions(es); r != nil {
				r(pp)
			}
		}
		t.Eval()
		t.Count("edits", len(es))
		want := m.shape()
		if got := shape(p); got != want {
			t.Fail("edit", "before %s\n   got %s\n  want %s", before, got, want)
		}
		if pp.P != parent {
			t.Fail("links", "the parent of the edited node changed")
		}
		t.checkLinks("edited tree", p)
		if want != before {
			t.Count("effective", 1)
			t.Seen(before, editsString(es))
		}
		// access by index
		for _, i := range []int{t.index(), t.index()} {
			k, ok := realIdx(i, len(mm.kids))
			c := pp.Child(i)
			if ok != (c != nil) || ok && c != parlex.ParseNode(pp.C[k]) {
				t.Fail("index", "Child(%d) of %d children is %v", i, len(mm.kids), c)
			}
			kind := pick(t, kinds)
			is := ok && mm.kids[k].kind == kind
			if pp.ChildIs(i, kind) != is || pp.ChildAt(i, "x", kind) != is {
				t.Fail("index", "ChildIs(%d, %q) is not %v", i, kind, is)
			}
		}
	}
	t.Sample("%s", strings.Join(t.desc, "\n"))
}

// userEdits are reductions that users write.
var userEdits = []struct {
	name  string
	real  func(*tree.PN)
	model func(*mt)
}{
	{"rename", func(n *tree.PN) {
		l, c := n.Pos()
		n.Lexeme = lexeme.New(stringsymbol.Symbol("B")).Set(n.Value()).At(l, c)
	}, func(m *mt) { m.kind = "B" }},
	{"setvalue", func(n *tree.PN) {
		if lx, ok := n.Lexeme.(*lexeme.Lexeme); ok {
			lx.V = lx.V + "!"
		} else {
			n.Lexeme = lexeme.Copy(n).Set(n.Value() + "!")
		}
	}, func(m *mt) { m.val += "!" }},
	{"reverse", func(n *tree.PN) {
		for i, j := 0, len(n.C)-1; i < j; i, j = i+1, j-1 {
			n.C[i], n.C[j] = n.C[j], n.C[i]
		}
	}, func(m *mt) {
		for i, j := 0, len(m.kids)-1; i < j; i, j = i+1, j-1 {
			m.kids[i], m.kids[j] = m.kids[j], m.kids[i]
		}
	}},
	{"count", func(n *tree.PN) {
		n.Lexeme = lexeme.Copy(n).Set(fmt.Sprint(n.Size()))
	}, func(m *mt) { m.val = fmt.Sprint(m.size()) }},
	{"childvalue", func(n *tree.PN) {
		if len(n.C) > 0 {
			c := n.C[len(n.C)-1]
			c.Lexeme = lexeme.Copy(c).Set(n.Value() + c.Value())
		}
	}, func(m *mt) {
		if len(m.kids) > 0 {
			c := m.kids[len(m.kids)-1]
			c.val = m.val + c.val
		}
	}},
}

// modelRed is a reduction in the model, with what it does in text.
type modelRed struct {
	text  string
	apply func(*mt)
	real  tree.Reduction
}

func (t *T) modelRed(kinds []string) *modelRed {
	if t.Chance(0.35) {
		u := pick(t, userEdits)
		return &modelRed{u.name, u.model, u.real}
	}
	es := t.edits(kinds, 1)
	r := reductions(es)
	if t.Bool() {
		r = chain(es)
	}
	return &modelRed{editsString(es), func(m *mt) {
		for _, e := range es {
			e.apply(m)
		}
	}, r}
}

// identity records the nodes of a tree and their links.
type nodeLinks struct {
	p   *tree.PN
	c   []*tree.PN
	lex parlex.Lexeme
}

func identities(n *tree.PN, m map[*tree.PN]nodeLinks) {
	m[n] = nodeLinks{n.P, append([]*tree.PN(nil), n.C...), n.Lexeme}
	for _, c := range n.C {
		identities(c, m)
	}
}

func runC14(t *T) {
	if t.Idx < 4 {
		r := tree.Reducer{}
		if t.Idx > 1 {
			r = nil
		}
		t.Desc("no tree")
		t.Eval()
		if r.Reduce(nil) != nil || r.RawReduce(nil) != nil {
			t.Fail("nil", "reducing no tree gives %v and %v", r.Reduce(nil), r.RawReduce(nil))
		}
	}
	// the input
	var in parlex.ParseNode
	max := 12
	if t.Chance(0.05) {
		max = 150
	}
	kinds := t.treeKinds()
	switch t.IntN(5) {
	case 0:
		in = t.randTree(max, kinds, nil).my()
	case 1:
		kinds = treeKinds
		g := t.randCFG("lfree")
		for !(g.nullBlowup() < 500) || g.leftRecursive() {
			g = t.randCFG("lfree")
		}
		ren := newCFG() // kinds that the reducers know
		name := map[string]string{}
		for i, nt := range g.NT {
			if i < len(treeKinds) {
				name[nt] = treeKinds[i]
			}
		}
		r := func(s string) string {
			if n, ok := name[s]; ok {
				return n
			}
			return "t" + s
		}
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				var q []string
				for _, s := range p {
					q = append(q, r(s))
				}
				ren.add(r(nt), q...)
			}
		}
		s := ren.sentence(t, 15)
		if s == nil {
			return
		}
		gr := ren.build(t, 0)
		if t.Bool() {
			in = packrat.New(gr).Parse(t.lexemes(s))
		} else if td, err := topdown.New(gr); err == nil {
			in = td.Parse(t.lexemes(s))
		}
		if in == nil {
			return
		}
	default:
		p := t.pn(t.randTree(max, kinds, nil))
		in = p
		// a subtree is an input like any other
		for len(p.C) > 0 && t.Chance(0.1) {
			p = pick(t, p.C)
			in = p
		}
	}
	m := modelOf(in)
	before := m.shape()
	ids := map[*tree.PN]nodeLinks{}
	if p, ok := in.(*tree.PN); ok {
		identities(p, ids)
	}

	// the reducers
	var log []string
	mk := func() (map[string]*modelRed, tree.Reducer) {
		ms, rs := map[string]*modelRed{}, tree.Reducer{}
		for _, k := range kinds {
			if t.Chance(0.5) {
				r := t.modelRed(kinds)
				ms[k] = r
				real := r.real
				if real == nil && t.Bool() {
					if t.Bool() {
						rs[k] = nil
						ms[k] = &modelRed{"nil", nil, nil}
						continue
					}
				}
				f := func(n *tree.PN) {
					log = append(log, shape(n))
					if real != nil {
						real(n)
					}
				}
				if t.Bool() {
					rs.Add(k, f)
				} else {
					rs[k] = f
				}
			}
		}
		return ms, rs
	}
	m1, r1 := mk()
	reds := []map[string]*modelRed{m1}
	rd := r1
	if t.Chance(0.3) {
		m2, r2 := mk()
		reds = append(reds, m2)
		rd = tree.Merge(r1, r2)
		t.Count("merged", 1)
		// adding to one of the three changes none of the others
		n1, n2, n := len(r1), len(r2), len(rd)
		rs := []tree.Reducer{r1, r2, rd}
		if k := t.IntN(3); rs[k] != nil {
			rs[k].Add("added later", func(*tree.PN) {})
			ns := []int{n1, n2, n}
			ns[k]++
			if len(r1) != ns[0] || len(r2) != ns[1] || len(rd) != ns[2] {
				t.Desc("merge of reducers for %d and %d kinds, then a reduction is added to %d (2: the merged one)", n1, n2, k)
				t.Fail("merge", "the reducers have %d, %d and %d reductions, expected %v", len(r1), len(r2), len(rd), ns)
			}
			delete(rs[k], "added later")
		}
	}
	var desc strings.Builder
	for i, ms := range reds {
		for _, k := range sortedKeys(ms) {
			fmt.Fprintf(&desc, "%d %s: %s\n", i, k, ms[k].text)
		}
	}
	t.Desc("tree: %s\nreducers:\n%s", before, desc.String())

	// the model
	var want []string
	var reduce func(m *mt)
	reduce = func(m *mt) {
		for _, k := range m.kids {
			reduce(k)
		}
		kind := m.kind
		for _, ms := range reds {
			if r := ms[kind]; r != nil && r.apply != nil {
				want = append(want, m.shape())
				r.apply(m)
			}
		}
	}
	reduce(m)

	raw := t.Bool()
	var out parlex.ParseNode
	if raw {
		out = rd.RawReduce(in)
	} else {
		out = rd.Reduce(in)
	}
	t.Eval()
	if isNilNode(out) {
		t.Fail("result", "the result is nil")
	}
	if got, w := shape(out), m.shape(); got != w {
		t.Fail("result", "got  %s\nwant %s", got, w)
	}
	if a, b := strings.Join(log, "\n"), strings.Join(want, "\n"); a != b {
		t.Fail("order", "reductions were called on\n%s\nexpected\n%s", a, b)
	}
	if after := shape(in); after != before {
		t.Fail("input", "the tree that was reduced changed to %s", after)
	}
	if p, ok := in.(*tree.PN); ok {
		now := map[*tree.PN]nodeLinks{}
		identities(p, now)
		for n, l := range ids {
			x, ok := now[n]
			same := ok && x.p == l.p && len(x.c) == len(l.c) && x.lex == l.lex
			for i := 0; same && i < len(l.c); i++ {
				same = x.c[i] == l.c[i]
			}
			if !same {
				t.Fail("input", "the links of node %s in the tree that was reduced changed", lexString(n))
			}
		}
	}
	outs := map[*tree.PN]nodeLinks{}
	identities(out.(*tree.PN), outs)
	for n := range outs {
		if _, shared := ids[n]; shared {
			t.Fail("shared", "node %s is in both trees", lexString(n))
		}
	}
	t.Count("nodes", t.checkLinks("reduced tree", out))
	t.Count("reduction_calls", len(log))
	if len(log) > 0 {
		t.Seen(before, desc.String())
	}
	for k := range m1 {
		if !r1.Can(&tree.PN{Lexeme: lexeme.String(k)}) {
			t.Fail("can", "Can is false for %q", k)
		}
	}
	t.Sample("%s", strings.Join(t.desc, "\n"))
}

var oddKinds = []string{"A", "B", "é", "日本", "->", "(", ")", "*", "+", "//", "$1", "%d", "%s", "\\n", "\\", "NIL", "a'b", "x.y", "1", "-", "=", "<a>", "[", "]", "a_b", "\u00a0x", "\U0001F600", ",", ";", "a|b", "?", long80, long80 + "1", long300}

func (t *T) oddValue() string {
	switch t.IntN(6) {
	case 0:
		b := make([]byte, t.IntN(8))
		for i := range b {
			b[i] = byte(t.IntN(256))
		}
		return string(b)
	case 1:
		return pick(t, []string{"\"", "\\", "\\n", "\n", "\\\\", "\"}\n", "{", "}", "A: \"x\" {", "\r\n", "\t", "\x00", "\\\"", "a\\", "\\x41", "\\u00e9", "\u2028", "\x7f", "\xff", "%", " ", "'", "\a\b\f\v"})
	case 2:
		s := ""
		for i := t.Range(1, 6); i > 0; i-- {
			s += pick(t, []string{"\\", "\"", "\n", "n", "t", "x", "4", "1", "é", "\xc3", " ", "\\\\", "u", "0", "}"})
		}
		return s
	case 3:
		return ""
	}
	if t.Chance(0.1) {
		b := make([]byte, t.Size(5, 200))
		for i := range b {
			b[i] = pick(t, []byte("abcdefghijklmnopqrstuvwxyz ABC0123456789.,\"\\\n\t"))
		}
		return string(b)
	}
	if t.Chance(0.01) {
		return strings.Repeat(pick(t, []string{"x", "\\", "\"", "é", "\n", "ab\tc"}), t.Range(100, 20000))
	}
	return "plain text"
}

func runC16(t *T) {
	max := 10
	if t.Chance(0.05) {
		max = 120
	}
	m := t.randTree(max, oddKinds, nil)
	var val func(m *mt)
	val = func(m *mt) {
		m.val = t.oddValue()
		if strconv.Quote(m.val) != `"`+m.val+`"` {
			t.Count("escaped_values", 1)
		}
		for _, k := range m.kids {
			val(k)
		}
	}
	val(m)
	p := t.pn(m)
	if got := p.Size(); got != m.size() {
		t.Desc("tree: %s", m.shape())
		t.Fail("size", "Size is %d for %d nodes", got, m.size())
	}
	text := p.String()
	t.Desc("tree: %s\nprinted: %q", m.shape(), text)
	noPos := func(n parlex.ParseNode) string {
		var b strings.Builder
		var w func(n parlex.ParseNode)
		w = func(n parlex.ParseNode) {
			fmt.Fprintf(&b, "%q:%q(", n.Kind().String(), n.Value())
			for i := 0; i < n.Children(); i++ {
				w(n.Child(i))
			}
			b.WriteString(")")
		}
		w(n)
		return b.String()
	}
	if t.Chance(0.65) {
		// round trip, also with another layout
		if t.Chance(0.3) {
			lines := strings.Split(text, "\n")
			for i := range lines {
				lines[i] = pick(t, []string{"", " ", "\t\t"}) + lines[i]
				if t.Chance(0.1) {
					lines[i] = lines[i] + "\n" + pick(t, []string{"", "  "})
				}
			}
			for i := 1; i < len(lines); i++ {
				// what follows a closing brace can be on its line
				if strings.TrimSpace(lines[i-1]) == "}" && !strings.HasPrefix(strings.TrimSpace(lines[i]), "}") && t.Chance(0.3) {
					lines[i-1] += lines[i]
					lines = append(lines[:i], lines[i+1:]...)
					t.Count("joined_lines", 1)
				}
			}
			text = strings.Join(lines, "\n")
			t.More("laid out: %q", text)
		}
		q, err := tree.New(text)
		t.Eval()
		if err != nil || q == nil {
			t.Fail("roundtrip", "the printed tree is refused: %v", err)
		}
		if a, b := noPos(p), noPos(q); a != b {
			t.Fail("roundtrip", "printed %s\nread    %s", a, b)
		}
		t.checkLinks("tree from text", q)
		t.Count("round_trips", 1)
		// clone
		c := tree.Clone(p)
		t.Eval()
		if c == nil || shape(c) != m.shape() {
			t.Fail("clone", "the clone is %s", shape(c))
		}
		t.checkLinks("clone", c)
		ids, cids := map[*tree.PN]nodeLinks{}, map[*tree.PN]nodeLinks{}
		identities(p, ids)
		identities(c, cids)
		for n := range cids {
			if _, ok := ids[n]; ok {
				t.Fail("clone", "node %s is in both trees", lexString(n))
			}
			if lx, ok := n.Lexeme.(*lexeme.Lexeme); ok {
				lx.V += "changed"
				lx.L += 10
			}
			n.C = append(n.C[:len(n.C)/2], &tree.PN{Lexeme: lexeme.String("new")})
		}
		if shape(p) != m.shape() {
			t.Fail("clone", "changing the clone changed the original to %s", shape(p))
		}
		if len(m.kids) > 0 { // of a part
			i := t.IntN(len(m.kids))
			c := tree.Clone(p.C[i])
			if shape(c) != m.kids[i].shape() || c.Parent() != nil {
				t.Fail("clone", "the clone of child %d is %s with parent %v", i, shape(c), c.Parent())
			}
			t.checkLinks("tree", p)
		}
		t.Count("clones", 1)
		if m.size() > 1 {
			t.Seen(text)
		}
		t.Sample("%q", text)
		return
	}
	// plant a fault
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	at := t.IntN(len(lines) + 1)
	fault := ""
	ins := func(i int, l string) {
		lines = append(lines[:i:i], append([]string{l}, lines[i:]...)...)
	}
	switch t.IntN(6) {
	case 0:
		fault = "closing"
		ins(t.Range(1, len(lines)), "}")
	case 1:
		fault = "opening"
		// a line that opens a node is left without its brace or its end
		var open []int
		for i, l := range lines {
			if strings.HasSuffix(l, " {") || strings.TrimSpace(l) == "}" {
				open = append(open, i)
			}
		}
		if len(open) == 0 {
			lines = append(lines, "}")
			break
		}
		i := pick(t, open)
		if strings.HasSuffix(lines[i], " {") {
			lines[i] = strings.TrimSuffix(lines[i], " {")
		} else {
			lines = append(lines[:i:i], lines[i+1:]...)
		}
	case 2:
		fault = "garbage"
		ins(at, pick(t, []string{"A B", "A: \"x", "A: x", "{", "A: \"x\" \"y\"", "\"x\"", ": \"x\"", "A {{", "A } B", "A: \"a\"b\"", "A: 'x'", "A { B", ":", "A:: \"x\"", "A: \"x\" : \"y\"", "{ A", "A {}", "}}"}))
	case 3:
		fault = "empty"
		lines = []string{pick(t, []string{"", " ", "\t", "\n", "\n\n  \n"})}
	case 4:
		fault = "root"
		lines = append(lines, pick(t, []string{"A", "A: \"x\"", "A {\n\tB\n}"}))
	case 5:
		fault = "unclosed"
		lines = append([]string{"A {"}, lines...)
	}
	bad := strings.Join(lines, "\n")
	if t.Bool() {
		bad += "\n"
	}
	t.Desc("fault: %s\ntext: %q", fault, bad)
	q, err := tree.New(bad)
	t.Eval()
	if err == nil || q != nil {
		t.Fail("accepted", "malformed text gives %v, %v", q, err)
	}
	t.Count("refused", 1)
	t.Count("fault_"+fault, 1)
	t.Seen(bad)
}

// dsl writes an edit as reducer text.
func (e *edit) dsl(t *T, sp func() string) string {
	tok := func(parts ...string) string {
		var b strings.Builder
		for i, p := range parts {
			if i > 0 {
				b.WriteString(sp())
			}
			b.WriteString(p)
		}
		return b.String()
	}
	switch e.name {
	case "If":
		return tok("If", "(", "ChildIs", "(", dslInt(t, e.idx[0]), ",", `"`+e.strs[0]+`"`, ")", ",", dslChain(t, e.then, sp), ",", dslChain(t, e.els, sp), ")")
	case "RemoveAll":
		parts := []string{e.name, "("}
		for i, s := range e.strs {
			if i > 0 {
				parts = append(parts, ",")
			}
			parts = append(parts, `"`+s+`"`)
		}
		return tok(append(parts, ")")...)
	}
	parts := []string{e.name, "("}
	for i, n := range e.idx {
		if i > 0 {
			parts = append(parts, ",")
		}
		parts = append(parts, dslInt(t, n))
	}
	return tok(append(parts, ")")...)
}

// dslInt writes an index; one that no int holds is written for the
// largest and smallest int.
func dslInt(t *T, n int) string {
	s := fmt.Sprint(n)
	switch {
	case (n == math.MaxInt || n == math.MinInt) && t.Bool():
		s += strings.Repeat("9", t.Range(1, 12))
	case n > 0 && t.Chance(0.05):
		s = "0" + s
	case n < 0 && t.Chance(0.05):
		s = "-0" + s[1:]
	case n == 0 && t.Chance(0.05):
		s = pick(t, []string{"-0", "00"})
	}
	return s
}

func dslChain(t *T, es []*edit, sp func() string) string {
	var parts []string
	for _, e := range es {
		if t.Chance(0.05) {
			parts = append(parts, "Nil")
		}
		parts = append(parts, e.dsl(t, sp))
	}
	if len(parts) == 0 {
		parts = []string{"Nil"}
	}
	return strings.Join(parts, sp()+"."+sp())
}

var dslFaults = []string{
	"A", "A Foo(1)", "A RemoveChild()", "A RemoveChild", "A RemoveChild(1.5)", "A PromoteSingleChild", "A PromoteSingleChild(1)", "A Nil.", "A ..Nil", "A RemoveChild(1, 2)", "A RemoveAll(1)", "A RemoveAll()",
	"A If(1, Nil, Nil)", "A If(ChildIs(0, \"x\"), Nil)", "A If(ChildIs(0, \"x\"), Nil, Nil, Nil)", "A If(ChildIs(\"x\", 0), Nil, Nil)", "A RemoveChild(\"x\")", "A RemoveChildren()", "A RemoveChildren(1,)", "A RemoveChildren(,1)",
	"12 Nil", "A Nil;", "A RemoveChild(-)", "A RemoveAll(\"x)", "A (Nil)", "A Nil Nil", "A RemoveChild 1", "A RemoveChild(1))", "A RemoveChild((1)", "A Nil Nil Nil", "A: Nil", "A = Nil", "A Nil()", "A ChildIs(0, \"x\")", "A removeChild(1)", "A RemoveChild(1 2)", "A RemoveChildren(0 -1)", "If Nil", "A + Nil", "A RemoveChild(x)", "A RemoveAll('x')", "A RemoveAll(\"x\" \"y\")", "/ A Nil", "A If(ChildIs(0), Nil, Nil)", "A B Nil", "A RemoveChild(1)RemoveChild(2)",
}

func runC17(t *T) {
	kinds := append([]string{}, treeKinds...)
	kinds = append(kinds, "Fx", "a_1", "_", "RemoveX", "Nils", "9a")
	if t.Chance(0.2) {
		kinds = append(kinds, "a", "b", "AA", "fx", "A_1", "nil", "removeChild")
	}
	type ruleT struct {
		kind string
		es   []*edit
	}
	n := t.Range(0, 6)
	if t.Chance(0.02) {
		n = t.Size(7, 40)
		for i := 0; i < 40; i++ {
			kinds = append(kinds, fmt.Sprintf("K%d", i))
		}
	}
	var rules []ruleT
	if t.Chance(0.02) {
		kinds = append(kinds, longNames...)
	}
	// the kinds of children can be anything
	ckinds := kinds
	if t.Chance(0.3) {
		ckinds = append([]string{"", " ", "x y", "(", ")", ",", "a,b", "//", "// Nil", "é", ".", "Nil", "If", "-1", "\n", "0", " A", "A ", "'", "%d", "\xff", "a", "A'", "A|B", "A, B"}, kinds...)
	}
	for i := 0; i < n; i++ {
		rules = append(rules, ruleT{pick(t, kinds), t.edits(ckinds, 2)})
	}
	layout := t.IntN(3)
	sp := func() string {
		switch {
		case layout == 0 || t.Chance(0.5):
			return ""
		case layout == 1:
			return " "
		}
		return pick(t, []string{" ", "\t", "\n", "  // a comment (1, \"x\").Nil\n", " //\n", "\r\n"})
	}
	var lines []string
	for _, r := range rules {
		if t.Chance(0.1) {
			lines = append(lines, pick(t, []string{"", "// comment", "  //x", "   "}))
		}
		lines = append(lines, pick(t, []string{"", "  "})+r.kind+pick(t, []string{" ", "\t", "\n\t"})+dslChain(t, r.es, sp))
	}
	if t.Chance(0.2) {
		i := t.IntN(len(lines) + 1)
		lines = append(lines[:i:i], append([]string{pick(t, dslFaults)}, lines[i:]...)...)
		text := strings.Join(lines, "\n")
		t.Desc("reducer: %s", text)
		r, err := reducer.Parse(text)
		t.Eval()
		if err == nil || r != nil {
			t.Fail("accepted", "text outside of the language gives a reducer of %d rules, error %v", len(r), err)
		}
		t.Count("refused", 1)
		return
	}
	text := strings.Join(lines, "\n")
	t.Desc("reducer: %s", text)
	got, err := reducer.Parse(text)
	t.Eval()
	if err != nil {
		t.Fail("refused", "a valid reducer was refused: %v", err)
	}
	want := tree.Reducer{}
	for _, r := range rules {
		want[r.kind] = reductions(r.es)
		for _, e := range r.es {
			if e.name == "If" {
				t.Count("conditionals", 1)
			}
		}
	}
	if n > 0 {
		t.Seen(text)
	}
	base := t.desc[0]
	for i := 0; i < 8; i++ {
		m := t.randTree(14, ckinds, nil)
		if len(rules) > 0 && t.Bool() {
			m.kind = pick(t, rules).kind
		}
		t.Desc("%s\ntree: %s", base, m.shape())
		a, b := got.Reduce(t.pn(m)), want.Reduce(t.pn(m))
		t.Eval()
		sa, sb := shape(a), shape(b)
		if sa != sb {
			t.Fail("reduce", "from text %s\nfrom code %s", sa, sb)
		}
		t.Count("trees", 1)
		if sa != m.shape() {
			t.Count("changed_trees", 1)
		}
	}
	t.Sample("%s", text)
}
