package main

import (
	"fmt"
	"strings"
)

// names for symbols: ordinary ones, ones that share prefixes, punctuation,
// other scripts, and ones that are used by the library itself.
var nameFamilies = []func(i int) string{
	func(i int) string { return string(rune('A'+i%26)) + suffix(i/26) },
	func(i int) string { return "N" + strings.Repeat("'", i) },
	func(i int) string { return fmt.Sprintf("sym%d", i) },
	func(i int) string {
		return []string{"E", "EE", "E_", "E*", "(E)*", "E?", "e", "Ex", "E1", "E1E"}[i%10] + suffix(i/10)
	},
	func(i int) string {
		return []string{"é", "日本", "ß", "Ω", "→", "ï", "\U0001F600", "x\u0301"}[i%8] + suffix(i/8)
	},
	func(i int) string {
		return []string{"START", "NIL", "Error", "Rule", "Grammar", "->x", "symbol", "nl"}[i%8][0:] + suffix(i/8)
	},
	func(i int) string {
		return []string{"+", "-", "*", "/", "(", ")", "{", "}", ":", "|", "%d", "%", "\"", "\\", "=", "1", "0", "-1"}[i%18] + suffix(i/18)
	},
	func(i int) string {
		return []string{"#", "//", ";", ".", ",", "'", "~", "@", "$", "&", "^", "!", "?", "_", "<", ">", "[", "]", "--", "=>", "::=", "/*", "\ufeff", "\xff", "\x00", "#x", "ab#"}[i%27] + suffix(i/27)
	},
}

// long names that differ only at the end, or in the middle.
var (
	long80  = strings.Repeat("Long", 20)
	long300 = strings.Repeat("name_", 60)
)

func longName(i int) string {
	switch i % 3 {
	case 0:
		return fmt.Sprint(long80, i)
	case 1:
		return fmt.Sprint(long300, i)
	}
	return fmt.Sprint(long80, i, long80)
}

func suffix(i int) string {
	if i == 0 {
		return ""
	}
	return fmt.Sprint(i)
}

// names returns n different names without white space and without "->".
func (t *T) names(n int, upper bool) []string {
	f := pick(t, nameFamilies)
	switch {
	case t.Chance(0.5):
		f = nameFamilies[0]
	case t.Chance(0.03):
		f = longName
	case t.Chance(0.05):
		c, k := pick(t, []string{"N", "É", "Ab", "X_"}), t.Size(2, 120)
		f = func(i int) string {
			return strings.Repeat(c, max(1, (k-1-i/10)/len(c))) + fmt.Sprint(i)
		}
	}
	seen := map[string]bool{}
	var out []string
	for i := 0; len(out) < n; i++ {
		s := f(i)
		if !upper {
			s = strings.ToLower(s)
		}
		s = strings.ReplaceAll(s, "->", "-}")
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

type gramOpts struct {
	nts, terms   [2]int
	prods        [2]int // per non-terminal
	length       [2]int // of a production
	pEmpty, pNT  float64
	pLeft        float64 // chance of starting with the non-terminal itself
	pForwardOnly float64 // chance that a grammar refers only to later non-terminals
}

var gramProfiles = map[string]gramOpts{
	"tiny":   {nts: [2]int{1, 3}, terms: [2]int{1, 2}, prods: [2]int{1, 3}, length: [2]int{1, 3}, pEmpty: 0.15, pNT: 0.5, pLeft: 0.15},
	"small":  {nts: [2]int{2, 5}, terms: [2]int{1, 3}, prods: [2]int{1, 4}, length: [2]int{1, 4}, pEmpty: 0.15, pNT: 0.45, pLeft: 0.1},
	"null":   {nts: [2]int{2, 6}, terms: [2]int{1, 2}, prods: [2]int{1, 3}, length: [2]int{1, 4}, pEmpty: 0.4, pNT: 0.7, pLeft: 0.1},
	"unit":   {nts: [2]int{2, 6}, terms: [2]int{1, 3}, prods: [2]int{1, 4}, length: [2]int{1, 2}, pEmpty: 0.1, pNT: 0.6, pLeft: 0.1},
	"long":   {nts: [2]int{1, 4}, terms: [2]int{1, 3}, prods: [2]int{1, 3}, length: [2]int{1, 9}, pEmpty: 0.2, pNT: 0.35, pLeft: 0.1},
	"many":   {nts: [2]int{1, 3}, terms: [2]int{2, 4}, prods: [2]int{4, 14}, length: [2]int{1, 4}, pEmpty: 0.05, pNT: 0.35, pLeft: 0.1},
	"medium": {nts: [2]int{6, 14}, terms: [2]int{2, 6}, prods: [2]int{1, 3}, length: [2]int{1, 4}, pEmpty: 0.15, pNT: 0.5, pLeft: 0.05},
	"lfree":  {nts: [2]int{2, 6}, terms: [2]int{1, 4}, prods: [2]int{1, 4}, length: [2]int{1, 4}, pEmpty: 0.2, pNT: 0.4, pForwardOnly: 1},
}

var gramProfileNames = []string{"tiny", "small", "null", "unit", "long", "many", "medium", "lfree"}

// randCFG makes a random grammar.
func (t *T) randCFG(profile string) *CFG {
	o := gramProfiles[profile]
	return t.randCFGOpts(o)
}

func (t *T) randCFGOpts(o gramOpts) *CFG {
	if t.Chance(0.03) {
		switch t.IntN(4) {
		case 0:
			o.nts = [2]int{o.nts[0], t.Size(o.nts[1], 40)}
		case 1:
			o.terms = [2]int{o.terms[0], t.Size(o.terms[1], 40)}
		case 2:
			o.prods = [2]int{o.prods[0], t.Size(o.prods[1], 30)}
		case 3:
			o.length = [2]int{o.length[0], t.Size(o.length[1], 12)}
		}
	}
	nNT, nT := t.Range(o.nts[0], o.nts[1]), t.Range(o.terms[0], o.terms[1])
	nts := t.names(nNT, true)
	var terms []string
	taken := map[string]bool{}
	for _, n := range nts {
		taken[n] = true
	}
	for _, n := range t.names(nT+nNT, false) {
		if !taken[n] && len(terms) < nT {
			terms = append(terms, n)
		}
	}
	for i := 0; len(terms) < nT; i++ {
		terms = append(terms, fmt.Sprintf("t%d", i))
	}
	forward := t.Chance(o.pForwardOnly)
	g := newCFG()
	for i, nt := range nts {
		for k := t.Range(o.prods[0], o.prods[1]); k > 0; k-- {
			if t.Chance(o.pEmpty) {
				g.add(nt)
				continue
			}
			l := t.Range(o.length[0], o.length[1])
			p := make([]string, l)
			for j := range p {
				switch {
				case j == 0 && t.Chance(o.pLeft):
					p[j] = nt
				case t.Chance(o.pNT):
					if forward && j == 0 {
						// the first symbol refers only to later ones
						if i+1 < len(nts) {
							p[j] = nts[i+1+t.IntN(len(nts)-i-1)]
						} else {
							p[j] = pick(t, terms)
						}
					} else {
						p[j] = pick(t, nts)
					}
				default:
					p[j] = pick(t, terms)
				}
			}
			g.add(nt, p...)
		}
	}
	return g
}

// families of grammars that people write.
var gramFamilies = []func(t *T) *CFG{
	func(t *T) *CFG { // expression with infix operators by precedence
		g := newCFG()
		ops := t.Range(1, 4)
		for i := 0; i < ops; i++ {
			g.add("E", "E", fmt.Sprintf("op%d", i), "E")
		}
		if t.Bool() {
			g.add("E", "(", "E", ")")
		}
		if t.Bool() {
			g.add("E", "-", "E")
		}
		g.add("E", "int")
		return g
	},
	func(t *T) *CFG { // statements with dangling else
		g := newCFG()
		if t.Bool() {
			g.add("S", "if", "S", "else", "S")
			g.add("S", "if", "S")
		} else {
			g.add("S", "if", "S")
			g.add("S", "if", "S", "else", "S")
		}
		g.add("S", "x")
		return g
	},
	func(t *T) *CFG { // brackets
		g := newCFG()
		g.add("B", "(", "B", ")", "B")
		g.add("B", "[", "B", "]", "B")
		g.add("B")
		return g
	},
	func(t *T) *CFG { // palindromes
		g := newCFG()
		g.add("P", "a", "P", "a")
		g.add("P", "b", "P", "b")
		if t.Bool() {
			g.add("P", "a")
			g.add("P", "b")
		}
		g.add("P")
		return g
	},
	func(t *T) *CFG { // catalan
		g := newCFG()
		if t.Bool() {
			g.add("S", "S", "S")
			g.add("S", "a")
		} else {
			g.add("S", "a")
			g.add("S", "S", "S")
		}
		if t.Chance(0.3) {
			g.add("S", "S", "S", "S")
		}
		return g
	},
	func(t *T) *CFG { // lists, left and right recursive
		g := newCFG()
		g.add("L", "L", ",", "I")
		g.add("L", "I")
		g.add("I", "x")
		g.add("I", "(", "R", ")")
		g.add("R", "I", "R")
		g.add("R")
		return g
	},
	func(t *T) *CFG { // indirect left recursion
		g := newCFG()
		n := t.Range(2, 5)
		for i := 0; i < n; i++ {
			g.add(fmt.Sprintf("N%d", i), fmt.Sprintf("N%d", (i+1)%n), fmt.Sprintf("t%d", i))
			if t.Bool() || i == n-1 {
				g.add(fmt.Sprintf("N%d", i), "x")
			}
		}
		return g
	},
	func(t *T) *CFG { // hidden left recursion
		g := newCFG()
		n := t.Range(1, 4)
		body := []string{}
		for i := 0; i < n; i++ {
			body = append(body, fmt.Sprintf("O%d", i))
		}
		body = append(body, "S", "z")
		g.add("S", body...)
		g.add("S", "y")
		for i := 0; i < n; i++ {
			o := fmt.Sprintf("O%d", i)
			if t.Bool() {
				g.add(o, "Q")
			}
			g.add(o, fmt.Sprintf("o%d", i%2))
			g.add(o)
		}
		g.add("Q")
		g.add("Q", "q")
		return g
	},
	func(t *T) *CFG { // a long chain of units
		g := newCFG()
		n := t.Range(3, 40)
		for i := 0; i < n; i++ {
			g.add(fmt.Sprintf("U%d", i), fmt.Sprintf("U%d", i+1))
			if t.Chance(0.2) {
				g.add(fmt.Sprintf("U%d", i), "x", fmt.Sprintf("U%d", i+1))
			}
		}
		g.add(fmt.Sprintf("U%d", n), "u")
		return g
	},
	func(t *T) *CFG { // a non-terminal with very many productions
		g := newCFG()
		n := t.Size(10, 400)
		g.add("S", "S", "A")
		g.add("S", "A")
		for i := 0; i < n; i++ {
			if i%7 == 3 {
				g.add("A", fmt.Sprintf("k%d", i), fmt.Sprintf("k%d", (i+1)%n))
			} else {
				g.add("A", fmt.Sprintf("k%d", i))
			}
		}
		return g
	},
	func(t *T) *CFG { // very many non-terminals
		g := newCFG()
		n := t.Size(10, 300)
		for i := 0; i < n; i++ {
			p := []string{fmt.Sprintf("k%d", i)}
			if 2*i+1 < n {
				p = append(p, fmt.Sprintf("M%d", 2*i+1))
			}
			if 2*i+2 < n && t.Bool() {
				p = append(p, fmt.Sprintf("M%d", 2*i+2))
			}
			g.add(fmt.Sprintf("M%d", i), p...)
			if i > 0 {
				g.add(fmt.Sprintf("M%d", i))
			}
		}
		return g
	},
	func(t *T) *CFG { // optional parts in a row
		g := newCFG()
		n := t.Range(2, 10)
		body := []string{}
		for i := 0; i < n; i++ {
			body = append(body, fmt.Sprintf("O%d", i))
		}
		g.add("S", body...)
		for i := 0; i < n; i++ {
			g.add(fmt.Sprintf("O%d", i), pick(t, []string{"a", "b", "c"}))
			g.add(fmt.Sprintf("O%d", i))
		}
		return g
	},
	func(t *T) *CFG { // a long production with symbols that can be empty
		g := newCFG()
		n := t.Range(8, 24)
		body := []string{}
		opt := 0
		for i := 0; i < n; i++ {
			switch {
			case opt < 5 && t.Chance(0.05+float64(i)/50):
				body = append(body, pick(t, []string{"O", "N", "M", "N"}))
				opt++
			default:
				body = append(body, pick(t, []string{"a", "b", "X"}))
			}
		}
		g.add("S", body...)
		if t.Bool() {
			g.add("S", append(append([]string{}, body...), "c")...)
		}
		g.add("X", "x")
		g.add("X", "a")
		g.add("O", "o")
		g.add("O")
		g.add("N")
		if t.Bool() {
			g.add("N", "b", "b")
		}
		g.add("M", "N", "N")
		g.add("M", "m")
		return g
	},
	func(t *T) *CFG { // a production with very many symbols
		g := newCFG()
		n := t.Size(4, 60)
		body := []string{}
		for i := 0; i < n; i++ {
			body = append(body, pick(t, []string{"a", "b", "X"}))
		}
		g.add("S", body...)
		g.add("S", append(append([]string{}, body[:n-1]...), "c")...)
		g.add("X", "x")
		g.add("X", "a")
		return g
	},
}

// anyCFG makes a grammar of any profile or family, with symbols renamed and
// non-terminals reordered now and then.
func (t *T) anyCFG() (*CFG, string) {
	for {
		var g *CFG
		var kind string
		if t.Chance(0.2) {
			i := t.IntN(len(gramFamilies))
			kind = fmt.Sprintf("family%d", i)
			g = gramFamilies[i](t)
		} else {
			kind = pick(t, gramProfileNames)
			g = t.randCFG(kind)
		}
		if g.nullBlowup() > 2000 {
			continue
		}
		return g, kind
	}
}

// shuffled returns the same grammar with the other non-terminals in another
// order.
func (t *T) shuffled(g *CFG) *CFG {
	out := newCFG()
	order := append([]string(nil), g.NT...)
	t.Shuffle(len(order)-1, func(i, j int) { order[i+1], order[j+1] = order[j+1], order[i+1] })
	for _, nt := range order {
		for _, p := range g.Prods[nt] {
			out.add(nt, p...)
		}
	}
	return out
}

// inputs makes sequences of kinds: all short ones, derived ones, and mutations.
func (t *T) inputs(g *CFG, nShort, nDerived, maxLen int) [][]string {
	terms := g.terminals()
	out := [][]string{{}}
	if len(terms) > 0 {
		l := 1
		for c := len(terms); l < 6 && c*len(terms) <= nShort; l++ {
			c *= len(terms)
		}
		short := allSeqs(terms, l, 4*nShort)
		t.Shuffle(len(short), func(i, j int) { short[i], short[j] = short[j], short[i] })
		if len(short) > nShort {
			short = short[:nShort]
		}
		out = append(out, short...)
	}
	least := 0
	if len(g.NT) > 0 {
		if min, _ := g.lens(); min[g.NT[0]] > 4 {
			if n := min[g.NT[0]]; n < maxLen || n+4 <= g.fit(80) {
				least = n
			}
		}
	}
	for i := 0; i < nDerived; i++ {
		n := 1 + t.IntN(maxLen)
		if n < least {
			n = least + t.IntN(4)
		}
		s := g.sentence(t, n)
		if s == nil {
			continue
		}
		out = append(out, s)
		if t.Bool() {
			out = append(out, t.mutateSeq(s, terms, g.NT))
		}
	}
	if t.Chance(0.5) && len(terms) > 0 {
		n := t.IntN(maxLen) + 1
		s := make([]string, n)
		for i := range s {
			s[i] = pick(t, terms)
		}
		out = append(out, s)
	}
	return out
}

func (t *T) mutateSeq(s, terms, nts []string) []string {
	m := append([]string(nil), s...)
	for k := t.Range(1, 2); k > 0; k-- {
		sym := "unknown"
		switch {
		case t.Chance(0.1):
		case t.Chance(0.15):
			sym = pick(t, nts)
		case len(terms) > 0:
			sym = pick(t, terms)
		}
		if len(m) == 0 {
			m = append(m, sym)
			continue
		}
		i := t.IntN(len(m))
		switch t.IntN(4) {
		case 0:
			m = append(m[:i], m[i+1:]...)
		case 1:
			m = append(m[:i], append([]string{sym}, m[i:]...)...)
		case 2:
			m[i] = sym
		case 3:
			j := t.IntN(len(m))
			m[i], m[j] = m[j], m[i]
		}
	}
	return m
}
