package main

import (
	"math"
	"runtime"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
)

func init() {
	register(&Prop{
		ID:       "C22",
		Rule:     "grammars with much backtracking, recursion or ambiguity behind a Grammar that counts lookups and reads, long inputs that are in the language and that just miss it; the counts have to stay below bounds with a factor of 4 over what memoization needs; non-trivial: distinct grammar and input of at least 8 lexemes",
		Quick:    12000,
		Thorough: 400000,
		Run:      runC22,
		Floors:   map[string]int64{"packrat_runs": 10000, "topdown_runs": 5000, "long_inputs": 3000},
		Assume:   []string{"work is counted as lookups and reads of the grammar and as allocations, which does not see work inside the parsers that does neither; that is limited by the CPU time a case may use"},
	})
}

// workFamilies are grammars that need memoization.
var workFamilies = []func(t *T) (g *CFG, unit []string, tail []string){
	// every alternative repeats the same prefix
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		n := t.Range(2, 5)
		for i := 0; i < n; i++ {
			g.add("S", "A", string(rune('p'+i)))
		}
		g.add("A", "(", "A", ")", "x")
		g.add("A", "(", "A", ")", "y")
		g.add("A", "(", "A", ")")
		g.add("A", "a")
		return g, nil, nil
	},
	// nested prefixes, as expressions without a precedence table
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		n := t.Range(2, 6)
		nt := func(i int) string { return "E" + string(rune('0'+i)) }
		for i := 0; i < n; i++ {
			g.add(nt(i), nt(i+1), "op"+string(rune('0'+i)), nt(i))
			g.add(nt(i), nt(i+1), "qq"+string(rune('0'+i)), nt(i))
			g.add(nt(i), nt(i+1))
		}
		g.add(nt(n), "(", nt(0), ")")
		g.add(nt(n), "n")
		return g, nil, nil
	},
	// failure is found late and again and again
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("S", "L", "end")
		g.add("L", "I", "L", "x")
		g.add("L", "I", "L", "y")
		g.add("L", "I", "L")
		g.add("L", "I")
		g.add("I", "J", "c")
		g.add("I", "J", "d")
		g.add("J", "a")
		g.add("J", "b")
		return g, nil, nil
	},
	// optional parts everywhere
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("S", "O", "O", "S", "z")
		g.add("S", "O", "O", "a")
		g.add("O", "b", "O")
		g.add("O")
		return g, nil, nil
	},
	// ambiguous
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("E", "E", "op", "E")
		g.add("E", "n")
		return g, nil, nil
	},
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("S", "S", "S")
		g.add("S", "a")
		if t.Bool() {
			g.add("S", "b")
		}
		return g, nil, nil
	},
	// left recursive, several levels
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("E", "E", "+", "T")
		g.add("E", "T")
		g.add("T", "T", "*", "F")
		g.add("T", "F")
		g.add("F", "(", "E", ")")
		g.add("F", "n")
		return g, nil, nil
	},
	// indirectly left recursive
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("S", "A", "a")
		g.add("S", "b")
		g.add("A", "B", "c")
		g.add("A", "S", "d")
		g.add("B", "S", "e")
		g.add("B", "A", "f")
		g.add("B", "g")
		return g, nil, nil
	},
	// symbols that are empty, nested
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		d := t.Range(4, 7)
		nt := func(i int) string { return "N" + string(rune('0'+i)) }
		g.add("S", nt(0), "a")
		if t.Bool() {
			g.add("S", nt(0), "b", "S")
		}
		for i := 0; i < d; i++ {
			g.add(nt(i), nt(i+1), nt(i+1))
		}
		if t.Bool() {
			g.add(nt(d), "x")
		}
		g.add(nt(d))
		return g, nil, nil
	},
	// the same, each level ending in a terminal that may be missing
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		d := t.Range(4, 7)
		nt := func(i int) string { return "N" + string(rune('0'+i)) }
		g.add("S", nt(0), "a")
		for i := 0; i < d; i++ {
			g.add(nt(i), nt(i+1), "x")
			g.add(nt(i), nt(i+1), "y")
			g.add(nt(i), nt(i+1))
		}
		g.add(nt(d), "b")
		g.add(nt(d))
		return g, nil, nil
	},
	// long lists
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("L", "a", "L")
		g.add("L", "b", "L")
		g.add("L", "a")
		return g, nil, nil
	},
	func(t *T) (*CFG, []string, []string) {
		g := newCFG()
		g.add("S", "X", "S")
		g.add("S", "X")
		n := t.Range(3, 8)
		for i := 0; i < n; i++ {
			g.add("X", "Y", "k"+string(rune('0'+i)))
		}
		g.add("X", "k0")
		g.add("Y", "Z", "Z")
		g.add("Y", "Z")
		g.add("Z", "a")
		g.add("Z", "b")
		return g, nil, nil
	},
}

func maxProd(g *CFG) int {
	m := 0
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			if len(p) > m {
				m = len(p)
			}
		}
	}
	return m
}

// counted runs a parser and returns the lookups by symbol, the reads and the
// allocations.
func (t *T) counted(m *myGrammar, p parlex.Parser, lxs []parlex.Lexeme) (parlex.ParseNode, map[string]int, int64, uint64) {
	m.calls = map[string]int{}
	var steps int64
	m.steps = &steps
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	pn := p.Parse(lxs)
	runtime.ReadMemStats(&b)
	calls := m.calls
	m.calls, m.steps = nil, nil
	return pn, calls, steps, b.Mallocs - a.Mallocs
}

func runC22(t *T) {
	var g *CFG
	if t.Chance(0.6) {
		g, _, _ = pick(t, workFamilies)(t)
	} else {
		g, _ = t.anyCFG()
	}
	m := g.custom()
	lr := g.leftRecursive()
	parsers := []parlex.Parser{packrat.New(m)}
	if !lr {
		td, err := topdown.New(m)
		if err != nil {
			t.Desc("grammar:\n%s", g.text())
			t.Fail("refused", "topdown.New refused the grammar: %v", err)
		}
		parsers = append(parsers, td)
	}
	k := maxProd(g)
	size := g.size()
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			size += len(p)
		}
	}
	text := g.text()
	var inputs [][]string
	for i := t.Range(1, 3); i > 0; i-- {
		n := pick(t, []int{6, 12, 12, 24})
		if t.Chance(0.2) {
			n = 60
		}
		if in := g.sentence(t, n); in != nil {
			inputs = append(inputs, in, t.mutateSeq(in, g.terminals(), g.NT))
			if len(in) > 0 {
				inputs = append(inputs, in[:len(in)-1])
			}
		}
		if terms := g.terminals(); len(terms) > 0 && t.Bool() {
			var in []string
			a, b := pick(t, terms), pick(t, terms)
			for j := 0; j < n; j++ {
				in = append(in, pick(t, []string{a, b}))
			}
			inputs = append(inputs, in)
		}
	}
	for _, in := range inputs {
		lxs := t.lexemes(in)
		n := len(in)
		for i, p := range parsers {
			if i == 0 && math.Pow(float64(n+1), float64(k+1)) > 3e6 && !smallWork(g, n) {
				continue
			}
			what := []string{"packrat", "topdown"}[i]
			t.Desc("%s, grammar:\n%s\nkinds: %q", what, text, in)
			_, calls, steps, mallocs := t.counted(m, p, lxs)
			t.Eval()
			t.Count(what+"_runs", 1)
			limit := 4*(n+1) + 8
			for s, c := range calls {
				t.Count("lookups", c)
				if c > limit {
					t.Fail("lookups", "%s looked up the productions of %q %d times for %d lexemes, more than %d", what, s, c, n, limit)
				}
				t.Max(what+"_lookups_per_100_positions", 100*c/(n+1))
			}
			var bound float64
			if i == 1 {
				bound = 4*float64(size)*float64(n+2) + 100
			} else {
				bound = 4*float64(size)*math.Pow(float64(n+2), float64(k)) + 100
			}
			t.Max(what+"_steps_permille_of_bound", int(1000*float64(steps)/bound))
			if float64(steps) > bound {
				t.Fail("steps", "%s read the grammar %d times for %d lexemes, more than %.0f", what, steps, n, bound)
			}
			// allocations
			if i == 1 {
				bound = 40*float64(size)*float64(n+2) + 2000
			} else {
				bound = 40*float64(size)*math.Pow(float64(n+2), float64(k+1)) + 2000
			}
			t.Max(what+"_mallocs_permille_of_bound", int(1000*float64(mallocs)/bound))
			if float64(mallocs) > bound {
				t.Fail("work", "%s allocated %d times for %d lexemes, more than %.0f", what, mallocs, n, bound)
			}
			if n >= 8 {
				t.Seen(what, text, strings.Join(in, " "))
			}
			if n >= 24 {
				t.Count("long_inputs", 1)
			}
			t.Max(what+"_length", n)
		}
	}
	t.Sample("grammar:\n%s\ninputs: %q", text, inputs)
}

// smallWork reports if the packrat parser needs little work although the
// productions are long: few ways to divide.
func smallWork(g *CFG, n int) bool {
	for _, nt := range g.NT {
		for _, p := range g.Prods[nt] {
			nts := 0
			for _, s := range p {
				if g.isNT(s) {
					nts++
				}
			}
			if nts > 2 {
				return false
			}
		}
	}
	return n <= 70
}
