package main

import (
	"fmt"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/symbol/setsymbol"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

func init() {
	register(&Prop{
		ID:       "C21",
		Rule:     "random sequences of operations on several symbol sets, their productions and production lists, with symbols of several implementations, against a table model; everything handed out earlier is compared with the model again and again; non-trivial: distinct sequence with at least 3 kinds of operations",
		Quick:    600000,
		Thorough: 6000000,
		Run:      runC21,
		Floors:   map[string]int64{"new_symbols": 50000, "lookups": 50000, "casts": 20000, "extensions": 20000, "aliases_checked": 200000, "iterations": 50000},
	})
}

type symSet struct {
	s     *setsymbol.Set
	names []string
	idx   map[string]int
}

func (m *symSet) add(name string) {
	if _, ok := m.idx[name]; !ok {
		m.idx[name] = len(m.names)
		m.names = append(m.names, name)
	}
}

// heldProd is a production and what it has to contain.
type heldProd struct {
	p   parlex.Production
	set int // -1 if not of a set
	w   *[]string
}

type heldProds struct {
	p   parlex.Productions
	set int
	w   *[][]string
}

type heldSym struct {
	s    *setsymbol.Symbol
	set  int
	name string
}

var symNames = []string{"", " ", "a", "b", "A", "E", "E'", "E''", "é", "日本", "a b", "->", "|", "\n", "\x00", "\xff", "aa", "ab", "nil", "0", "1", "-1"}

type c21 struct {
	*T
	sets  []*symSet
	syms  []heldSym
	prods []heldProd
	lists []heldProds
	log   []string
}

func (c *c21) did(format string, args ...interface{}) {
	c.log = append(c.log, fmt.Sprintf(format, args...))
	c.Desc("operations:\n%s", strings.Join(c.log, "\n"))
}

func (c *c21) name() string {
	if c.Chance(0.3) {
		return fmt.Sprintf("n%d", c.IntN(40))
	}
	if c.Chance(0.01) {
		return longName(c.IntN(9))
	}
	return pick(c.T, symNames)
}

// symbol makes a symbol of some implementation with the name, known to the set
// with the given number if it is one of a set.
func (c *c21) symbol(name string) (parlex.Symbol, string) {
	switch c.IntN(4) {
	case 0:
		return stringsymbol.Symbol(name), "string"
	case 1:
		return &mySym{name}, "user"
	default:
		i := c.IntN(len(c.sets))
		m := c.sets[i]
		s := m.s.Str(name)
		m.add(name)
		return s, fmt.Sprintf("set%d", i)
	}
}

func (c *c21) symbols(max int) ([]parlex.Symbol, []string, string) {
	n := c.IntN(max + 1)
	if c.Chance(0.02) {
		n = c.Size(4, 40)
	}
	var ss []parlex.Symbol
	var names, desc []string
	for i := 0; i < n; i++ {
		name := c.name()
		s, d := c.symbol(name)
		ss, names, desc = append(ss, s), append(names, name), append(desc, fmt.Sprintf("%s:%q", d, name))
	}
	return ss, names, strings.Join(desc, " ")
}

func prodNames(p parlex.Production) []string {
	var out []string
	for i := 0; i < p.Symbols(); i++ {
		s := p.Symbol(i)
		if s == nil {
			return append(out, "<nil>")
		}
		out = append(out, s.String())
	}
	return out
}

func (c *c21) checkProd(what string, p parlex.Production, want []string) {
	if got := p.Symbols(); got != len(want) {
		c.Fail("production", "%s has %d symbols, expected %q", what, got, want)
	}
	if got := prodNames(p); !equalStrings(got, want) {
		c.Fail("production", "%s is %q, expected %q", what, got, want)
	}
	var text string
	switch p := p.(type) {
	case *setsymbol.Production:
		text = p.String()
	case stringsymbol.Production:
		text = p.String()
	default:
		return
	}
	if text != strings.Join(want, " ") {
		c.Fail("text", "%s is written %q, expected the symbols %q with spaces between", what, text, want)
	}
}

func (c *c21) checkIter(what string, p parlex.Production, want []string) {
	it := p.Iter()
	for i := range want {
		if !it.Next() {
			c.Fail("iterator", "%s: the iterator ends after %d of %d symbols", what, i, len(want))
		}
		if it.Symbol == nil || it.Symbol.String() != want[i] || it.Idx != i {
			c.Fail("iterator", "%s: step %d of the iterator is at index %d with %v, expected %q", what, i, it.Idx, it.Symbol, want[i])
		}
	}
	for i := 0; i < 3; i++ {
		if it.Next() {
			c.Fail("iterator", "%s: the iterator does not end", what)
		}
	}
	for i := len(want); i < len(want)+2; i++ {
		if s := p.Symbol(i); s != nil {
			c.Fail("production", "%s: Symbol(%d) of %d is %v", what, i, len(want), s)
		}
	}
	c.Count("iterations", 1)
}

func (c *c21) checkProds(what string, p parlex.Productions, want [][]string) {
	if got := p.Productions(); got != len(want) {
		c.Fail("productions", "%s has %d productions, expected %q", what, got, want)
	}
	for i := range want {
		q := p.Production(i)
		if q == nil {
			c.Fail("productions", "%s: production %d is nil", what, i)
		}
		c.checkProd(fmt.Sprintf("%s[%d]", what, i), q, want[i])
	}
	if p, ok := p.(*setsymbol.Productions); ok {
		text := "{"
		for i, w := range want {
			if i > 0 {
				text += " "
			}
			text += "[" + strings.Join(w, ", ") + "]"
		}
		if got := p.String(); got != text+"}" {
			c.Fail("text", "%s is written %q, expected %q", what, got, text+"}")
		}
	}
}

func (c *c21) checkIters(what string, p parlex.Productions, want [][]string) {
	it := p.Iter()
	for i := range want {
		if !it.Next() {
			c.Fail("iterator", "%s: the iterator ends after %d of %d productions", what, i, len(want))
		}
		if it.Production == nil || it.Idx != i {
			c.Fail("iterator", "%s: step %d of the iterator is at index %d with %v", what, i, it.Idx, it.Production)
		}
		c.checkProd(fmt.Sprintf("%s: step %d", what, i), it.Production, want[i])
		c.checkIter(fmt.Sprintf("%s[%d]", what, i), it.Production, want[i])
	}
	for i := 0; i < 3; i++ {
		if it.Next() {
			c.Fail("iterator", "%s: the iterator does not end", what)
		}
	}
	for i := len(want); i < len(want)+2; i++ {
		if q := p.Production(i); q != nil {
			c.Fail("productions", "%s: Production(%d) of %d is %v", what, i, len(want), q)
		}
	}
	c.Count("iterations", 1)
}

// checkAll compares everything with the model.
func (c *c21) checkAll() {
	for k, m := range c.sets {
		if got := m.s.Size(); got != len(m.names) {
			c.Fail("set", "set%d has %d symbols, expected %q", k, got, m.names)
		}
	}
	for _, h := range c.syms {
		if got := h.s.String(); got != h.name {
			c.Fail("set", "the symbol %q of set%d has become %q", h.name, h.set, got)
		}
		if got, want := h.s.Idx(), c.sets[h.set].idx[h.name]; got != want {
			c.Fail("set", "the symbol %q of set%d has index %d, it was %d", h.name, h.set, got, want)
		}
	}
	for i, h := range c.prods {
		c.checkProd(fmt.Sprintf("production %d", i), h.p, *h.w)
	}
	for i, h := range c.lists {
		c.checkProds(fmt.Sprintf("list %d", i), h.p, *h.w)
	}
	c.Count("aliases_checked", len(c.prods)+len(c.lists)+len(c.syms))
}

func (c *c21) holdProd(p parlex.Production, set int, w []string) {
	for _, h := range c.prods {
		if sameObj(h.p, p) {
			c.prods = append(c.prods, heldProd{p, set, h.w})
			return
		}
	}
	w = append([]string(nil), w...)
	c.prods = append(c.prods, heldProd{p, set, &w})
}

func (c *c21) holdList(p parlex.Productions, set int, w [][]string) {
	for _, h := range c.lists {
		if sameObj(h.p, p) {
			c.lists = append(c.lists, heldProds{p, set, h.w})
			return
		}
	}
	w = append([][]string(nil), w...)
	c.lists = append(c.lists, heldProds{p, set, &w})
}

// sameObj reports if two values are the same pointer.
func sameObj(a, b interface{}) bool {
	switch x := a.(type) {
	case *setsymbol.Production:
		y, ok := b.(*setsymbol.Production)
		return ok && x == y
	case *setsymbol.Productions:
		y, ok := b.(*setsymbol.Productions)
		return ok && x == y
	}
	return false
}

// runC21large numbers many symbols.
func runC21large(t *T) {
	n := t.Range(300, 10000)
	if t.Chance(0.2) {
		n = t.Range(60000, 80000)
	}
	t.Desc("a set with %d symbols", n)
	set := setsymbol.New()
	name := func(i int) string { return fmt.Sprintf("s%d", i*7) }
	held := make([]*setsymbol.Symbol, n)
	for i := 0; i < n; i++ {
		if i%2 == 0 {
			held[i] = set.Str(name(i))
		} else {
			held[i] = set.Symbol(stringsymbol.Symbol(name(i)))
		}
	}
	if got := set.Size(); got != n {
		t.Fail("set", "Size is %d after adding %d", got, n)
	}
	other := setsymbol.New()
	for i := 0; i < n; i++ {
		s := name(i)
		if held[i].Idx() != i || held[i].String() != s {
			t.Fail("set", "symbol %d is %q with index %d", i, held[i].String(), held[i].Idx())
		}
		if b := set.ByIdx(i); b == nil || b.Idx() != i || b.String() != s {
			t.Fail("set", "ByIdx(%d) is %v", i, b)
		}
		if got := set.Idx(stringsymbol.Symbol(s)); got != i || !set.Has(s) {
			t.Fail("set", "Idx(%q) is %d, Has is %v", s, got, set.Has(s))
		}
		if again := set.Str(s); again.Idx() != i {
			t.Fail("set", "Str(%q) again has index %d", s, again.Idx())
		}
		if i%16 == 0 {
			o := other.Symbol(held[i])
			if o.String() != s || o.Idx() != i/16 {
				t.Fail("set", "symbol %d in another set is %q with index %d", i, o.String(), o.Idx())
			}
			if got := set.Idx(o); got != i {
				t.Fail("set", "Idx of the other set's %q is %d", s, got)
			}
		}
		t.Eval()
	}
	if set.ByIdx(n) != nil || set.ByIdx(-1) != nil || set.Size() != n {
		t.Fail("set", "lookups changed the set or found what is not there")
	}
	// a long production, and a long list
	var ss []parlex.Symbol
	var names []string
	for i := t.Range(100, 2000); i > 0; i-- {
		k := t.IntN(n)
		names = append(names, name(k))
		ss = append(ss, held[k])
	}
	c := &c21{T: t}
	p := set.Production(ss...)
	c.checkProd("a long production", p, names)
	c.checkIter("a long production", p, names)
	if got := p.String(); got != strings.Join(names, " ") {
		t.Fail("production", "String is %q", got)
	}
	q := other.CastProduction(p)
	c.checkProd("the long production in another set", q, names)
	t.Count("large_sets", 1)
	t.Max("symbols_in_a_set", n)
}

func runC21(t *T) {
	if t.Chance(0.0002) {
		runC21large(t)
		return
	}
	c := &c21{T: t}
	for i := t.Range(1, 3); i > 0; i-- {
		c.sets = append(c.sets, &symSet{s: setsymbol.New(), idx: map[string]int{}})
	}
	ops := map[string]bool{}
	for n := t.Range(4, 26); n > 0; n-- {
		k := t.IntN(len(c.sets))
		m := c.sets[k]
		name := c.name()
		switch op := t.IntN(20); op {
		case 0, 1, 2:
			ops["str"] = true
			c.did("set%d.Str(%q)", k, name)
			c.newSymbol(k, name, func() *setsymbol.Symbol { return m.s.Str(name) })
		case 3, 4:
			ops["symbol"] = true
			s, d := c.symbol(name)
			c.did("set%d.Symbol(%s:%q)", k, d, name)
			c.newSymbol(k, name, func() *setsymbol.Symbol { return m.s.Symbol(s) })
		case 5, 6:
			ops["lookup"] = true
			s, d := c.symbol(name)
			c.did("lookups of %s:%q in set%d", d, name, k)
			t.Eval()
			t.Count("lookups", 1)
			idx, ok := m.idx[name]
			if got := m.s.Has(name); got != ok {
				t.Fail("set", "Has(%q) is %v", name, got)
			}
			h := m.s.HasSymbol(s)
			if (h != nil) != ok || ok && (h.Idx() != idx || h.String() != name) {
				t.Fail("set", "HasSymbol(%q) is %v", name, h)
			}
			if !ok {
				idx = -1
			}
			if got := m.s.Idx(s); got != idx {
				t.Fail("set", "Idx(%q) is %d, expected %d", name, got, idx)
			}
		case 7:
			ops["byidx"] = true
			c.did("ByIdx of all in set%d", k)
			t.Eval()
			for i := -2; i < len(m.names)+3; i++ {
				s := m.s.ByIdx(i)
				if i < 0 || i >= len(m.names) {
					if s != nil {
						t.Fail("set", "ByIdx(%d) is not nil", i)
					}
					continue
				}
				if s == nil || s.Idx() != i || s.String() != m.names[i] {
					t.Fail("set", "ByIdx(%d) is not %q", i, m.names[i])
				}
				c.syms = append(c.syms, heldSym{s, k, m.names[i]})
				if len(c.syms) > 20 {
					c.syms = c.syms[1:]
				}
			}
			if m.s.ByIdx(1<<40) != nil || m.s.ByIdx(-1<<40) != nil {
				t.Fail("set", "ByIdx of a huge number is not nil")
			}
		case 8, 9, 10:
			ops["production"] = true
			ss, names, d := c.symbols(5)
			c.did("set%d.Production(%s) -> production %d", k, d, len(c.prods))
			p := m.s.Production(ss...)
			for _, n := range names {
				m.add(n)
			}
			t.Eval()
			c.checkProd("the new production", p, names)
			c.checkIter("the new production", p, names)
			if got, want := p.String(), strings.Join(names, " "); got != want {
				t.Fail("production", "String is %q, expected %q", got, want)
			}
			c.holdProd(p, k, names)
		case 11, 12:
			ops["addsymbols"] = true
			var at []int
			for i, h := range c.prods {
				if h.set >= 0 {
					at = append(at, i)
				}
			}
			if len(at) == 0 {
				continue
			}
			i := pick(t, at)
			h := c.prods[i]
			ss, names, d := c.symbols(4)
			c.did("production %d.AddSymbols(%s)", i, d)
			h.p.(*setsymbol.Production).AddSymbols(ss...)
			for _, n := range names {
				c.sets[h.set].add(n)
			}
			*h.w = append((*h.w)[:len(*h.w):len(*h.w)], names...)
			t.Eval()
			t.Count("extensions", 1)
			c.checkIter("the extended production", h.p, *h.w)
		case 13, 14:
			ops["castproduction"] = true
			var src parlex.Production
			var w []string
			if len(c.prods) > 0 && t.Chance(0.7) {
				i := t.IntN(len(c.prods))
				src, w = c.prods[i].p, *c.prods[i].w
				c.did("cast production %d", i)
			} else {
				n := t.IntN(4)
				q := myProd{}
				for i := 0; i < n; i++ {
					name := c.name()
					q, w = append(q, &mySym{name}), append(w, name)
				}
				src = q
				c.did("cast user production %q", w)
			}
			t.Eval()
			t.Count("casts", 1)
			if t.Chance(0.4) {
				c.did("  to string -> production %d", len(c.prods))
				p := stringsymbol.CastProduction(src)
				c.checkIter("the cast production", p, w)
				if got, want := p.String(), strings.Join(w, " "); got != want {
					t.Fail("production", "String is %q, expected %q", got, want)
				}
				c.checkProd("the cast production", p, w)
				c.holdProd(p, -1, w)
			} else {
				c.did("  to set%d -> production %d", k, len(c.prods))
				p := m.s.CastProduction(src)
				for _, n := range w {
					m.add(n)
				}
				c.checkProd("the cast production", p, w)
				c.checkIter("the cast production", p, w)
				c.holdProd(p, k, w)
			}
			c.checkProd("the source of the cast", src, w)
		case 15:
			ops["productions"] = true
			var ps []parlex.Production
			var w [][]string
			var d []string
			for j := t.IntN(4); j > 0 && len(c.prods) > 0; j-- {
				i := t.IntN(len(c.prods))
				ps, w, d = append(ps, c.prods[i].p), append(w, append([]string(nil), *c.prods[i].w...)), append(d, fmt.Sprint(i))
			}
			c.did("set%d.Productions(%s) -> list %d", k, strings.Join(d, ","), len(c.lists))
			l := m.s.Productions(ps...)
			for _, p := range w {
				for _, n := range p {
					m.add(n)
				}
			}
			t.Eval()
			c.checkProds("the new list", l, w)
			c.checkIters("the new list", l, w)
			c.holdList(l, k, w)
		case 16:
			ops["addproductions"] = true
			var at []int
			for i, h := range c.lists {
				if h.set >= 0 {
					at = append(at, i)
				}
			}
			if len(at) == 0 || len(c.prods) == 0 {
				continue
			}
			i, j := pick(t, at), t.IntN(len(c.prods))
			h := c.lists[i]
			c.did("list %d.AddProductions(production %d)", i, j)
			h.p.(*setsymbol.Productions).AddProductions(c.prods[j].p)
			for _, n := range *c.prods[j].w {
				c.sets[h.set].add(n)
			}
			*h.w = append((*h.w)[:len(*h.w):len(*h.w)], append([]string(nil), *c.prods[j].w...))
			t.Eval()
			c.checkIters("the extended list", h.p, *h.w)
		case 17:
			ops["castproductions"] = true
			if len(c.lists) == 0 {
				continue
			}
			i := t.IntN(len(c.lists))
			src, w := c.lists[i].p, *c.lists[i].w
			if t.Chance(0.4) {
				var q myProds
				for _, p := range w {
					r := myProd{}
					for _, n := range p {
						r = append(r, &mySym{n})
					}
					q = append(q, r)
				}
				src = q
				c.did("a user copy of it:")
			}
			t.Eval()
			t.Count("casts", 1)
			if t.Chance(0.4) {
				c.did("cast list %d to string -> list %d", i, len(c.lists))
				p := stringsymbol.CastProductions(src)
				c.checkProds("the cast list", p, w)
				c.checkIters("the cast list", p, w)
				c.holdList(p, -1, w)
			} else {
				c.did("cast list %d to set%d -> list %d", i, k, len(c.lists))
				p := m.s.CastProductions(src)
				for _, q := range w {
					for _, n := range q {
						m.add(n)
					}
				}
				c.checkProds("the cast list", p, w)
				c.checkIters("the cast list", p, w)
				c.holdList(p, k, w)
			}
		case 18:
			ops["take"] = true
			if len(c.lists) == 0 {
				continue
			}
			i := t.IntN(len(c.lists))
			h := c.lists[i]
			if len(*h.w) == 0 {
				continue
			}
			j := t.IntN(len(*h.w))
			c.did("list %d.Production(%d) -> production %d", i, j, len(c.prods))
			t.Eval()
			p := h.p.Production(j)
			if sp, ok := p.(*setsymbol.Production); ok && h.set >= 0 {
				c.holdProd(sp, h.set, (*h.w)[j])
			} else {
				c.holdProd(p, -1, (*h.w)[j])
			}
		case 19:
			ops["load"] = true
			before := len(m.names)
			if t.Bool() {
				g := t.randCFG(pick(t, gramProfileNames))
				c.did("set%d.LoadGrammar\n%s", k, g.text())
				m.s.LoadGrammar(g.build(t, t.IntN(grammarImpls)))
				var names []string
				for _, nt := range g.NT {
					names = append(names, nt)
					for _, p := range g.Prods[nt] {
						names = append(names, p...)
					}
				}
				c.loaded(k, names)
			} else {
				n := t.IntN(6)
				var names []string
				for i := 0; i < n; i++ {
					names = append(names, c.name())
				}
				c.did("set%d.LoadLexemes %q", k, names)
				in := t.lexemes(names)
				out := m.s.LoadLexemes(in)
				c.loaded(k, names)
				if len(out) != len(in) {
					t.Fail("lexemes", "LoadLexemes returns %d of %d lexemes", len(out), len(in))
				}
				for i := range in {
					if lexString(in[i]) != lexString(out[i]) {
						t.Fail("lexemes", "LoadLexemes returns %s for %s", lexString(out[i]), lexString(in[i]))
					}
					if s, ok := out[i].K.(*setsymbol.Symbol); !ok || s.Idx() != m.idx[names[i]] {
						t.Fail("lexemes", "LoadLexemes returns the wrong symbol for %q", names[i])
					}
				}
			}
			t.Eval()
			t.Count("new_symbols", len(m.names)-before)
		}
		c.checkAll()
		if len(c.prods) > 25 || len(c.lists) > 10 {
			break
		}
	}
	c.strictIters()
	// nil in, nil out
	m := c.sets[0]
	if m.s.CastProduction(nil) != nil || m.s.CastProductions(nil) != nil || m.s.Symbol(nil) != nil ||
		len(stringsymbol.CastProduction(nil)) != 0 || len(stringsymbol.CastProductions(nil)) != 0 {
		t.Fail("nil", "casting nil does not give nothing")
	}
	var np *setsymbol.Production
	var nps *setsymbol.Productions
	if np.Symbols() != 0 || nps.Productions() != 0 || np.Iter().Next() || nps.Iter().Next() {
		t.Fail("nil", "nil productions have elements")
	}
	if len(ops) >= 3 {
		t.Seen(strings.Join(c.log, "\n"))
	}
	t.Max("symbols_in_a_set", len(m.names))
	t.Sample("%s", strings.Join(c.log, "\n"))
}

func (c *c21) newSymbol(k int, name string, get func() *setsymbol.Symbol) {
	m := c.sets[k]
	_, known := m.idx[name]
	s := get()
	m.add(name)
	c.Eval()
	if !known {
		c.Count("new_symbols", 1)
	}
	if s == nil || s.Idx() != m.idx[name] || s.String() != name {
		c.Fail("set", "the symbol for %q is %v, expected index %d", name, s, m.idx[name])
	}
	if !m.s.Has(name) {
		c.Fail("set", "Has(%q) is false after adding it", name)
	}
	c.syms = append(c.syms, heldSym{s, k, name})
	if len(c.syms) > 20 {
		c.syms = c.syms[1:]
	}
}

// loaded checks that exactly the names were added, in whatever order.
func (c *c21) loaded(k int, names []string) {
	m := c.sets[k]
	want := map[string]bool{}
	for _, n := range names {
		if _, ok := m.idx[n]; !ok {
			want[n] = true
		}
	}
	if got := m.s.Size(); got != len(m.names)+len(want) {
		c.Fail("set", "%d symbols after loading, expected %d", got, len(m.names)+len(want))
	}
	for i := len(m.names); i < m.s.Size(); i++ {
		s := m.s.ByIdx(i)
		if s == nil || !want[s.String()] {
			c.Fail("set", "symbol %d after loading is %v", i, s)
		}
		delete(want, s.String())
		m.add(s.String())
	}
}

// strictProd and strictProds may only be asked for what they have.
type strictProd []string

func (p strictProd) Symbols() int               { return len(p) }
func (p strictProd) Symbol(i int) parlex.Symbol { return stringsymbol.Symbol(p[i]) }
func (p strictProd) Iter() *parlex.ProductionIterator {
	return &parlex.ProductionIterator{Production: p}
}

type strictProds []strictProd

func (p strictProds) Productions() int                   { return len(p) }
func (p strictProds) Production(i int) parlex.Production { return p[i] }
func (p strictProds) Iter() *parlex.ProductionsIterator {
	return &parlex.ProductionsIterator{Productions: p}
}

// strictIters casts productions of an implementation that has no answer for an
// index out of range, and uses iterators without a production.
func (c *c21) strictIters() {
	var l strictProds
	for i := c.IntN(4); i > 0; i-- {
		p := strictProd{}
		for j := c.IntN(4); j > 0; j-- {
			p = append(p, pick(c.T, []string{"a", "b", "", "c d", "é"}))
		}
		l = append(l, p)
	}
	it := l.Iter()
	for i := range l {
		if !it.Next() {
			c.Fail("iterator", "the iterator over %q ends after %d productions", l, i)
		}
		jt := it.Production.Iter()
		for j := range l[i] {
			if !jt.Next() || jt.Symbol.String() != l[i][j] {
				c.Fail("iterator", "symbol %d of production %d of %q is missing or wrong", j, i, l)
			}
		}
		if jt.Next() || jt.Next() {
			c.Fail("iterator", "the iterator over %q does not end", l[i])
		}
	}
	if it.Next() || it.Next() {
		c.Fail("iterator", "the iterator over %q does not end", l)
	}
	if (&parlex.ProductionIterator{}).Next() || (&parlex.ProductionsIterator{}).Next() {
		c.Fail("iterator", "an iterator over nothing has an element")
	}
	c.Count("strict_iterations", 1)
}
