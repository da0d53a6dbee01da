package main

import (
	"fmt"
	"sort"
	"strings"
)

// CFG is the model of a grammar. It shares no code with the code under test.
type CFG struct {
	NT    []string // in order of definition, the first is the start
	Prods map[string][][]string
}

func newCFG() *CFG { return &CFG{Prods: map[string][][]string{}} }

func (g *CFG) add(nt string, prod ...string) {
	if _, ok := g.Prods[nt]; !ok {
		g.NT = append(g.NT, nt)
	}
	g.Prods[nt] = append(g.Prods[nt], append([]string(nil), prod...))
}

func (g *CFG) isNT(s string) bool { _, ok := g.Prods[s]; return ok }

// terminals in order of first appearance.
func (g *CFG) terminals() []string {
	var ts []string
	seen := map[string]bool{}
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			for _, s := range p {
				if !g.isNT(s) && !seen[s] {
					seen[s] = true
					ts = append(ts, s)
				}
			}
		}
	}
	return ts
}

func (g *CFG) size() int {
	n := 0
	for _, ps := range g.Prods {
		for _, p := range ps {
			n += 1 + len(p)
		}
	}
	return n
}

// text writes the grammar in the form that grammar.New documents.
func (g *CFG) text() string {
	var b strings.Builder
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			fmt.Fprintf(&b, "%s -> %s\n", nt, strings.Join(p, " "))
		}
	}
	return b.String()
}

// nullable non-terminals, least fixpoint.
func (g *CFG) nullable() map[string]bool {
	n := map[string]bool{}
	for again := true; again; {
		again = false
		for _, nt := range g.NT {
			if n[nt] {
				continue
			}
		prods:
			for _, p := range g.Prods[nt] {
				for _, s := range p {
					if !n[s] {
						continue prods
					}
				}
				n[nt], again = true, true
				break
			}
		}
	}
	return n
}

// reach computes the transitive closure of a relation on the non-terminals.
func (g *CFG) reach(edges map[string]map[string]bool) map[string]map[string]bool {
	r := map[string]map[string]bool{}
	for _, nt := range g.NT {
		seen := map[string]bool{}
		todo := []string{nt}
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			for y := range edges[x] {
				if !seen[y] {
					seen[y] = true
					todo = append(todo, y)
				}
			}
		}
		r[nt] = seen
	}
	return r
}

func edge(m map[string]map[string]bool, a, b string) {
	if m[a] == nil {
		m[a] = map[string]bool{}
	}
	m[a][b] = true
}

// leftRecursive reports if a non-terminal can derive a sequence beginning with
// itself.
func (g *CFG) leftRecursive() bool {
	null := g.nullable()
	e := map[string]map[string]bool{}
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			for _, s := range p {
				edge(e, nt, s)
				if !null[s] {
					break
				}
			}
		}
	}
	r := g.reach(e)
	for _, nt := range g.NT {
		if r[nt][nt] {
			return true
		}
	}
	return false
}

// cyclic reports if a non-terminal can derive exactly itself.
func (g *CFG) cyclic() bool {
	null := g.nullable()
	e := map[string]map[string]bool{}
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			for i, s := range p {
				if !g.isNT(s) {
					continue
				}
				ok := true
				for j, o := range p {
					ok = ok && (j == i || null[o])
				}
				if ok {
					edge(e, nt, s)
				}
			}
		}
	}
	r := g.reach(e)
	for _, nt := range g.NT {
		if r[nt][nt] {
			return true
		}
	}
	return false
}

// firsts computes the terminals that a sequence derived from a non-terminal can
// begin with.
func (g *CFG) firsts() map[string]map[string]bool {
	null := g.nullable()
	f := map[string]map[string]bool{}
	for _, nt := range g.NT {
		f[nt] = map[string]bool{}
	}
	for again := true; again; {
		again = false
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				for _, s := range p {
					if !g.isNT(s) {
						if !f[nt][s] {
							f[nt][s], again = true, true
						}
						break
					}
					for t := range f[s] {
						if !f[nt][t] {
							f[nt][t], again = true, true
						}
					}
					if !null[s] {
						break
					}
				}
			}
		}
	}
	return f
}

// leftmostEmpty finds the non-terminals from which a chain of leftmost children
// leads to an empty production.
func (g *CFG) leftmostEmpty() map[string]bool {
	m := map[string]bool{}
	for again := true; again; {
		again = false
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				if (len(p) == 0 || m[p[0]]) && !m[nt] {
					m[nt], again = true, true
				}
			}
		}
	}
	return m
}

// compiled form of a CFG

type cg struct {
	g     *CFG
	ids   map[string]int
	names []string
	nt    []bool
	prods [][][]int
}

func (g *CFG) compile() *cg {
	c := &cg{g: g, ids: map[string]int{}}
	id := func(s string) int {
		if i, ok := c.ids[s]; ok {
			return i
		}
		i := len(c.names)
		c.ids[s] = i
		c.names = append(c.names, s)
		c.nt = append(c.nt, g.isNT(s))
		c.prods = append(c.prods, nil)
		return i
	}
	for _, nt := range g.NT {
		id(nt)
	}
	for _, nt := range g.NT {
		i := id(nt)
		for _, p := range g.Prods[nt] {
			q := make([]int, len(p))
			for k, s := range p {
				q[k] = id(s)
			}
			c.prods[i] = append(c.prods[i], q)
		}
	}
	return c
}

// bits is a set of positions.
type bits []uint64

func newBits(n int) bits      { return make(bits, (n+64)/64) }
func (b bits) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 == 1 }
func (b bits) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b bits) or(o bits) (ch bool) {
	for i, w := range o {
		if b[i]|w != b[i] {
			b[i] |= w
			ch = true
		}
	}
	return
}
func (b bits) clear() {
	for i := range b {
		b[i] = 0
	}
}

// spans holds, for every non-terminal and start, the ends of the spans it
// derives.
type spans struct {
	c    *cg
	in   []int // -1 for kinds that are not a terminal of the grammar
	ends [][]bits
}

func (c *cg) input(kinds []string) []int {
	in := make([]int, len(kinds))
	for i, k := range kinds {
		id, ok := c.ids[k]
		if !ok || c.nt[id] {
			id = -1
		}
		in[i] = id
	}
	return in
}

// span computes the least fixpoint of the derivation relation on the spans of
// the input.
func (c *cg) span(kinds []string) *spans {
	s := &spans{c: c, in: c.input(kinds)}
	n := len(kinds)
	s.ends = make([][]bits, len(c.names))
	for i := range c.names {
		if c.nt[i] {
			s.ends[i] = make([]bits, n+1)
			for j := range s.ends[i] {
				s.ends[i][j] = newBits(n)
			}
		}
	}
	cur, next := newBits(n), newBits(n)
	// spans that start later are found first
	for pos := n; pos >= 0; pos-- {
		for again := true; again; {
			again = false
			for nt := range c.names {
				for _, p := range c.prods[nt] {
					cur.clear()
					cur.set(pos)
					for _, sym := range p {
						next.clear()
						s.advance(cur, next, sym, pos)
						cur, next = next, cur
					}
					if s.ends[nt][pos].or(cur) {
						again = true
					}
				}
			}
		}
	}
	return s
}

func (s *spans) advance(cur, next bits, sym, from int) {
	n := len(s.in)
	for e := from; e <= n; e++ {
		if !cur.has(e) {
			continue
		}
		if s.c.nt[sym] {
			next.or(s.ends[sym][e])
		} else if e < n && s.in[e] == sym {
			next.set(e + 1)
		}
	}
}

func (s *spans) derives(sym, i, j int) bool {
	if s.c.nt[sym] {
		return s.ends[sym][i].has(j)
	}
	return j == i+1 && s.in[i] == sym
}

func (s *spans) accepts() bool {
	if len(s.c.g.NT) == 0 {
		return false
	}
	return s.derives(0, 0, len(s.in))
}

func (c *cg) accepts(kinds []string) bool { return c.span(kinds).accepts() }

// deriv is a derivation tree.
type deriv struct {
	sym        int
	prod       int // -1 for a terminal
	start, end int
	kids       []*deriv
}

func (d *deriv) write(c *cg, b *strings.Builder) {
	b.WriteString(c.names[d.sym])
	if d.prod < 0 {
		return
	}
	b.WriteString("(")
	for i, k := range d.kids {
		if i > 0 {
			b.WriteString(" ")
		}
		k.write(c, b)
	}
	b.WriteString(")")
}

// best finds the derivation whose production numbers in pre-order are
// lexicographically smallest. The grammar must not be cyclic.
type best struct {
	s    *spans
	memo map[[3]int]*bestRes
}

type bestRes struct {
	d   *deriv
	seq []int16
}

func (s *spans) best() *deriv {
	b := &best{s: s, memo: map[[3]int]*bestRes{}}
	return b.get(0, 0, len(s.in)).d
}

func lessSeq(a, b []int16) bool {
	for i := range a {
		if i >= len(b) {
			return false
		}
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

// reaching returns for every k the positions from which p[k:] derives up to j.
func (s *spans) reaching(p []int, i, j int) []bits {
	can := make([]bits, len(p)+1)
	for k := range can {
		can[k] = newBits(len(s.in))
	}
	can[len(p)].set(j)
	for k := len(p) - 1; k >= 0; k-- {
		for x := i; x <= j; x++ {
			for y := x; y <= j; y++ {
				if can[k+1].has(y) && s.derives(p[k], x, y) {
					can[k].set(x)
					break
				}
			}
		}
	}
	return can
}

func (b *best) get(sym, i, j int) *bestRes {
	s := b.s
	if !s.c.nt[sym] {
		return &bestRes{d: &deriv{sym: sym, prod: -1, start: i, end: j}}
	}
	key := [3]int{sym, i, j}
	if r, ok := b.memo[key]; ok {
		return r
	}
	for pi, p := range s.c.prods[sym] {
		can := s.reaching(p, i, j)
		if !can[0].has(i) {
			continue
		}
		r := &bestRes{d: &deriv{sym: sym, prod: pi, start: i, end: j}, seq: []int16{int16(pi)}}
		x := i
		for k, cs := range p {
			var choice *bestRes
			for y := x; y <= j; y++ {
				if can[k+1].has(y) && s.derives(cs, x, y) {
					cand := b.get(cs, x, y)
					if choice == nil || lessSeq(cand.seq, choice.seq) {
						choice = cand
					}
				}
			}
			r.d.kids = append(r.d.kids, choice.d)
			r.seq = append(r.seq, choice.seq...)
			x = choice.d.end
		}
		b.memo[key] = r
		return r
	}
	return nil
}

// peg is the ordered choice interpreter for grammars that are not left
// recursive.
type peg struct {
	c    *cg
	in   []int
	memo map[[2]int]*deriv
}

func (c *cg) ordered(kinds []string) *deriv {
	if len(c.g.NT) == 0 {
		return nil
	}
	p := &peg{c: c, in: c.input(kinds), memo: map[[2]int]*deriv{}}
	for pi := range c.prods[0] {
		if d := p.prod(0, pi, 0); d != nil && d.end == len(p.in) {
			return d
		}
	}
	return nil
}

func (p *peg) prod(sym, pi, pos int) *deriv {
	d := &deriv{sym: sym, prod: pi, start: pos, end: pos}
	for _, s := range p.c.prods[sym][pi] {
		k := p.match(s, d.end)
		if k == nil {
			return nil
		}
		d.kids = append(d.kids, k)
		d.end = k.end
	}
	return d
}

func (p *peg) match(sym, pos int) *deriv {
	if !p.c.nt[sym] {
		if pos < len(p.in) && p.in[pos] == sym {
			return &deriv{sym: sym, prod: -1, start: pos, end: pos + 1}
		}
		return nil
	}
	key := [2]int{sym, pos}
	if d, ok := p.memo[key]; ok {
		return d
	}
	var d *deriv
	for pi := range p.c.prods[sym] {
		if d = p.prod(sym, pi, pos); d != nil {
			break
		}
	}
	p.memo[key] = d
	return d
}

// allSeqs returns all sequences over the kinds up to a length, shortest first,
// at most max.
func allSeqs(kinds []string, maxLen, max int) [][]string {
	out := [][]string{{}}
	level := [][]string{{}}
	for l := 1; l <= maxLen && len(kinds) > 0; l++ {
		var next [][]string
		for _, s := range level {
			for _, k := range kinds {
				n := append(append([]string(nil), s...), k)
				next = append(next, n)
				out = append(out, n)
				if len(out) >= max {
					return out
				}
			}
		}
		level = next
	}
	return out
}

// sentence derives a random sequence, or nil if it does not finish.
func (g *CFG) sentence(t *T, maxLen int) []string {
	if len(g.NT) == 0 {
		return nil
	}
	min := g.minDepth()
	if _, ok := min[g.NT[0]]; !ok {
		return nil
	}
	out := []string{}
	budget := 40 + 8*maxLen
	var gen func(s string, depth int) bool
	gen = func(s string, depth int) bool {
		if !g.isNT(s) {
			out = append(out, s)
			return len(out) <= maxLen
		}
		budget--
		ps := g.Prods[s]
		var order []int
		if depth > 12 || budget < 0 || len(out) > maxLen/2 {
			// take the production that ends soonest
			bi, bd := -1, 0
			for i, p := range ps {
				d, ok := g.prodDepth(p, min)
				if ok && (bi < 0 || d < bd) {
					bi, bd = i, d
				}
			}
			order = []int{bi}
		} else {
			order = t.Perm(len(ps))
		}
		for _, i := range order {
			if i < 0 {
				return false
			}
			if _, ok := g.prodDepth(ps[i], min); !ok {
				continue
			}
			for _, x := range ps[i] {
				if !gen(x, depth+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	if !gen(g.NT[0], 0) || len(out) > maxLen {
		return nil
	}
	return out
}

func (g *CFG) minDepth() map[string]int {
	min := map[string]int{}
	for again := true; again; {
		again = false
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				if d, ok := g.prodDepth(p, min); ok {
					if old, has := min[nt]; !has || d+1 < old {
						min[nt], again = d+1, true
					}
				}
			}
		}
	}
	return min
}

func (g *CFG) prodDepth(p []string, min map[string]int) (int, bool) {
	max := 0
	for _, s := range p {
		d := 0
		if g.isNT(s) {
			var ok bool
			if d, ok = min[s]; !ok {
				return 0, false
			}
		}
		if d > max {
			max = d
		}
	}
	return max, true
}

// nullBlowup estimates how many nodes an empty derivation can have, so that
// grammars whose smallest trees are huge can be left out.
func (g *CFG) nullBlowup() int {
	null := g.nullable()
	size := map[string]int{}
	for round := 0; round <= len(g.NT)+1; round++ {
		for _, nt := range g.NT {
			if !null[nt] {
				continue
			}
			max := 1
			for _, p := range g.Prods[nt] {
				n, ok := 1, true
				for _, s := range p {
					if !null[s] {
						ok = false
						break
					}
					n += size[s]
					if n > 1<<20 {
						n = 1 << 20
					}
				}
				if ok && n > max {
					max = n
				}
			}
			size[nt] = max
		}
	}
	m := 0
	for _, n := range size {
		if n > m {
			m = n
		}
	}
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// lens returns the lengths of the shortest and longest sequences that each
// non-terminal derives; the longest is -1 if there is no bound.
func (g *CFG) lens() (map[string]int, map[string]int) {
	const far = 1 << 20
	min, max := map[string]int{}, map[string]int{}
	for again := true; again; {
		again = false
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				n := 0
				for _, s := range p {
					l, ok := min[s]
					if !g.isNT(s) {
						l, ok = 1, true
					}
					if !ok {
						n = far
					}
					n += l
				}
				if old, ok := min[nt]; n < far && (!ok || n < old) {
					min[nt], again = n, true
				}
			}
		}
	}
	for round := 0; round <= len(g.NT)+1; round++ {
		for _, nt := range g.NT {
			if _, ok := min[nt]; !ok {
				continue
			}
			for _, p := range g.Prods[nt] {
				n := 0
				for _, s := range p {
					l := max[s]
					if !g.isNT(s) {
						l = 1
					} else if _, ok := min[s]; !ok {
						n = -1
						break
					} else if l < 0 {
						n = far
						break
					}
					n += l
				}
				if n > max[nt] && max[nt] >= 0 {
					max[nt] = n
					if n >= far || round > len(g.NT) {
						max[nt] = -1
					}
				}
			}
		}
	}
	return min, max
}

// fit returns how long inputs may be for packrat to parse them with bounded
// work: a production with k non-terminals of different lengths can be begun in
// as many ways as there are to choose k ends.
func (g *CFG) fit(maxLen int) int {
	min, max := g.lens()
	for ; maxLen > 10; maxLen-- {
		work := 0.0
		for _, nt := range g.NT {
			for _, p := range g.Prods[nt] {
				ways := 1.0
				k := 0
				for _, s := range p {
					if g.isNT(s) && min[s] != max[s] {
						k++
						n := float64(maxLen + k)
						if d := max[s] - min[s]; d > 0 && float64(d+1)*float64(k) < n {
							n = float64(d+1) * float64(k)
						}
						ways *= n / float64(k)
					}
				}
				work += ways
			}
		}
		if work < 300000 {
			break
		}
	}
	return maxLen
}
