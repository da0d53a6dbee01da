package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// Sizes that other cases do not reach: more than 16 bits can count where that
// is affordable. A few cases of every run.

type hugeRun struct {
	n   int
	run func(t *T, k int)
}

var hugeRuns = map[string]hugeRun{
	"C01": {4, hugeC01},
	"C02": {4, hugeC02},
	"C03": {3, hugeC03},
	"C04": {2, hugeC04},
	"C05": {3, hugeC05},
	"C06": {3, func(t *T, k int) { t.hugeChoice(false, k) }},
	"C07": {6, func(t *T, k int) { t.hugeChoice(k > 2, k%3) }},
	"C08": {4, hugeC08},
	"C09": {3, func(t *T, k int) { t.hugeChoice(true, k) }},
	"C10": {3, hugeC10},
	"C11": {4, hugeC11},
	"C12": {3, hugeC12},
	"C13": {2, hugeC13},
	"C14": {2, hugeC14},
	"C15": {12, hugeC15},
	"C16": {3, hugeC16},
	"C17": {2, hugeC17},
	"C19": {5, hugeC19},
	"C20": {3, hugeC20},
	"C22": {6, hugeC22},
	"C23": {4, hugeC23},
	"C26": {1, hugeC26},
}

// hugeTurn returns the number of the huge case that has its turn, or -1.
func (t *T) hugeTurn(n int) int { return hugeIndex(t.Idx, t.Thorough, n) }

func hugeIndex(idx int, thorough bool, n int) int {
	i := idx - 300
	if thorough {
		i = idx%20000 - 300
	}
	if i < 0 || i%81 != 0 || i/81 >= n {
		return -1
	}
	return i / 81
}

// words makes about size bytes of words and separators.
func (t *T) hugeWords(size int, sep []string) string {
	var b strings.Builder
	for b.Len() < size {
		switch t.IntN(12) {
		case 0:
			b.WriteString(strings.Repeat(pick(t, []string{"a", "7", " ", "#"}), t.Range(1, 300)))
		case 1:
			b.WriteString("#")
		case 2, 3, 4:
			fmt.Fprint(&b, t.IntN(100000))
		default:
			b.WriteString(pick(t, []string{"if", "iffy", "x", "abc"}))
		}
		b.WriteString(pick(t, sep))
	}
	return b.String()
}

func hugeRules() []*lexRule {
	return []*lexRule{
		{kind: "space", re: `\s+`, discard: true},
		{kind: "if"},
		{kind: "word", re: `[a-z]+`},
		{kind: "num", re: `\d+`},
	}
}

func (t *T) hugeLex(l parlex.Lexer, d *lexDef, in string, first int) {
	ref, st := d.scan(in)
	ls := t.stripInserted(d, l.Lex(in))
	t.Eval()
	if len(ls) != len(ref) {
		t.Fail("lexemes", "%d lexemes, expected %d", len(ls), len(ref))
	}
	for i := range ls {
		if diff := diffLexemes(d, ls[i:i+1], ref[i:i+1]); diff != "" {
			if len(diff) > 600 {
				diff = diff[:300] + " ... " + diff[len(diff)-300:]
			}
			t.Fail("lexemes", "of %d lexemes number %d is not as expected: %s", len(ls), i, diff)
		}
	}
	if first >= 0 {
		line, bol, at := first, 0, 0
		for i, x := range ls {
			for ; at < ref[i].start; at++ {
				if in[at] == '\n' {
					line++
					bol = at + 1
				}
			}
			if gl, gc := x.Pos(); gl != line || gc != 1+at-bol {
				t.Fail("position", "of %d lexemes number %d is at %d:%d, but says %d:%d", len(ls), i, line, 1+at-bol, gl, gc)
			}
			t.Max("line", line)
			t.Max("column", 1+at-bol)
		}
	}
	t.Count("huge_cases", 1)
	t.Max("input_bytes", len(in))
	t.Max("lexemes_of_one_input", len(ls))
	t.Max("depth", st.maxDepth)
}

func hugeC01(t *T, k int) {
	d := &lexDef{subs: []*subDef{{rules: hugeRules()}}, byPriority: t.Bool()}
	var in string
	switch k {
	case 0: // long lexemes
		for _, s := range []string{"a", "7", " "} {
			in += t.hugeWords(30, []string{" "}) + strings.Repeat(s, t.Range(66000, 80000))
		}
		in += t.hugeWords(300, []string{" "})
	case 3: // a long error
		in = t.hugeWords(30, []string{" "}) + strings.Repeat(pick(t, []string{"#", "é", "#\n"}), 66000) + t.hugeWords(30, []string{" "})
	case 1: // many lexemes
		in = strings.Repeat("if x ", 17000) + strings.Repeat("1x#", 12000) + t.hugeWords(300, []string{" "})
	case 2: // many rules
		n := 5000
		for i := 0; i < n; i++ {
			d.subs[0].rules = append(d.subs[0].rules, &lexRule{kind: fmt.Sprintf("k%d", i), re: fmt.Sprintf("Q%d", i), discard: i%7 == 3})
		}
		for i := 0; i < 60; i++ {
			in += fmt.Sprintf("Q%d%s", t.IntN(n), pick(t, []string{"", " ", "x", "#"}))
		}
	}
	t.Desc("simple lexer, huge case %d", k)
	t.hugeLex(d.buildSimple(t, t.IntN(4)), d, in, -1)
}

func hugeC02(t *T, k int) {
	d := &lexDef{stack: k > 1, subs: []*subDef{{name: "Main", rules: hugeRules()}}}
	var in string
	if k%2 == 0 { // a long line
		in = t.hugeWords(100, []string{" ", "\n"}) + strings.Repeat(pick(t, []string{"x", "#", " "}), 66000) + t.hugeWords(2000, []string{" "}) + t.hugeWords(500, []string{"\n", " "})
	} else { // many lines
		in = t.hugeWords(100, []string{"\n"})
		for n := 0; n < 70000; {
			k := pick(t, []int{1, 10, 500, 3000})
			n += k
			in += strings.Repeat(pick(t, []string{"\n", "\n", "#\n", " \n"}), k) + "x"
		}
		in += t.hugeWords(2000, []string{" ", "\n"})
	}
	t.Desc("stack lexer %v, huge case %d", d.stack, k)
	if d.stack {
		t.hugeLex(d.buildStack(t), d, in, 1)
	} else {
		t.hugeLex(d.buildSimple(t, t.IntN(4)), d, in, 0)
	}
}

func hugeC03(t *T, k int) {
	d := &lexDef{stack: true}
	var in string
	n := t.Range(66000, 70000)
	switch k {
	case 0, 1: // a deep stack
		d.subs = []*subDef{
			{name: "Main", rules: []*lexRule{{kind: "open", re: "<", push: "Tag"}, {kind: "m"}, {kind: "close", re: ">", pop: 1}}},
			{name: "Tag", rules: []*lexRule{{kind: "open", re: "<", push: "Tag"}, {kind: "t", re: "m"}, {kind: "in", re: "!", push: "Other"}, {kind: "close", re: ">", pop: 1}, {kind: "close2", re: "]", pop: 2}}},
			{name: "Other", rules: []*lexRule{{kind: "o", re: "m"}, {kind: "open", re: "<", push: "Tag"}}},
		}
		in = strings.Repeat("<", n) + "m!m<m>m"
		if k == 0 {
			in += strings.Repeat("]", n/2) + "m" + strings.Repeat(">", n-2*(n/2)) + "mm<m>m"
		} else {
			in += strings.Repeat(">", n-2) + "m>m>m>m<m"
		}
	case 2: // many sub-lexers
		n = 1500
		for i := 0; i < n; i++ {
			s := &subDef{name: fmt.Sprintf("L%d", i)}
			s.rules = []*lexRule{
				{kind: fmt.Sprintf("k%d", i), re: "x"},
				{kind: "next", re: "n", push: fmt.Sprintf("L%d", (i+1)%n)},
				{kind: "far", re: "f", push: fmt.Sprintf("L%d", (i*i+7)%n)},
				{kind: "back", re: "b", pop: 1 + i%3},
			}
			d.subs = append(d.subs, s)
		}
		for i := 0; i < 3000; i++ {
			in += pick(t, []string{"x", "n", "n", "f", "f", "nx", "fx", "b", "xx"})
		}
	}
	t.Desc("stack lexer, huge case %d", k)
	t.hugeLex(d.buildStack(t), d, in, -1)
}

func hugeC04(t *T, k int) {
	d := &lexDef{subs: []*subDef{{}}}
	var in string
	if k == 0 {
		n := 5000
		for i := 0; i < n; i++ {
			d.subs[0].rules = append(d.subs[0].rules, &lexRule{kind: fmt.Sprintf("k%d", i), re: pick(t, []string{"", fmt.Sprintf("Q%d", i)}), discard: i%7 == 3})
		}
		for i := 0; i < 60; i++ {
			in += fmt.Sprintf("%s%d ", pick(t, []string{"Q", "k"}), t.IntN(n))
		}
	} else {
		long := strings.Repeat("ab", t.Range(1000, 1500))
		d.subs[0].rules = []*lexRule{{kind: "s", re: "ab"}, {kind: "K" + strings.Repeat(long, 40), re: "[0-9]", discard: t.Bool()}, {kind: "l", re: long + "c"}, {kind: "n" + long}}
		in = "ab" + long + "c1abx"
	}
	t.Desc("simple lexer, huge case %d", k)
	l := d.buildSimple(t, t.IntN(2))
	t.hugeLex(l, d, in, -1)
	text := l.String()
	l2, err := simplelexer.New(text)
	if err != nil || l2 == nil {
		t.Fail("roundtrip", "the printed definition is refused: %v", err)
	}
	if l2.String() != text {
		t.Fail("roundtrip", "the definition read back prints differently")
	}
	if d.byPriority {
		l2.ByPriority()
	}
	t.hugeLex(l2, d, in, -1)
	if k == 0 {
		// a fault among so many rules
		dup := d.text(t) + "\n" + pick(t, d.subs[0].rules).kind + " /x/\n"
		if l, err := simplelexer.New(dup); err == nil || l != nil {
			t.Fail("accepted", "a duplicate kind after %d rules was accepted", len(d.subs[0].rules))
		}
	}
}

func hugeC05(t *T, k int) {
	g := newCFG()
	switch k {
	case 0: // many productions of one non-terminal
		g.add("A", "S")
		for i := 0; i < 67000; i++ {
			switch i % 5 {
			case 0:
				g.add("S", "x")
			case 1:
				g.add("S")
			default:
				g.add("S", fmt.Sprintf("t%d", i%300), "S")
			}
		}
	case 1: // many non-terminals
		for i := 0; i < 67000; i++ {
			g.add(fmt.Sprintf("N%d", i), fmt.Sprintf("N%d", (i*7)%67000), "x")
		}
	case 2: // a long production
		p := make([]string, 67000)
		for i := range p {
			p[i] = fmt.Sprintf("t%d", i)
		}
		g.add("S", "x")
		g.add("S", p...)
		g.add("T"+strings.Repeat("t", 70000), "S")
	}
	t.Desc("grammar, huge case %d", k)
	gr, err := grammar.New(g.text())
	t.Eval()
	if err != nil {
		t.Fail("refused", "a valid grammar was refused: %v", err)
	}
	t.sameGrammar("read", gr, g)
	text := gr.String()
	again, err := grammar.New(text)
	if err != nil {
		t.Fail("roundtrip", "the printed grammar was refused: %v", err)
	}
	t.sameGrammar("printed and read back", again, g)
	if again.String() != text {
		t.Fail("roundtrip", "the grammar read back prints differently")
	}
	t.sameGrammar("added", g.build(t, 1+t.IntN(2)), g)
	t.Count("huge_cases", 1)
}

// hugeChoice makes a grammar in which the right production is one of many, or
// a long one.
func (t *T) hugeChoice(td bool, k int) {
	g := newCFG()
	var ins [][]string
	var want []bool
	if k < 2 {
		n := []int{400, 66500}[k]
		at := map[int]string{}
		for j, m := range []int{100, 128, 256, 300, 32768, 65536, 66000, n - 1} {
			if m >= n {
				continue
			}
			at[m] = fmt.Sprintf("x%d", j)
			ins = append(ins, []string{"(", at[m], ")"})
			want = append(want, true)
		}
		ins = append(ins, []string{"(", "x9", ")"}, []string{"(", "z300", ")"}, []string{"(", "z3", ")"})
		want = append(want, false, false, true)
		g.add("S", "(", "P", ")")
		for i := 0; i < n; i++ {
			if x, ok := at[i]; ok {
				g.add("P", x)
			} else {
				g.add("P", fmt.Sprintf("z%d", i%300))
			}
		}
	} else {
		n := 3000
		if td {
			n = 67000
		}
		p := make([]string, n)
		in := make([]string, n)
		for i := range p {
			p[i] = pick(t, []string{"a", "b", "c"})
			in[i] = p[i]
			if i%9 == 4 {
				p[i] = pick(t, []string{"X", "Y"})
				in[i] = pick(t, []string{"x", "y"})
			}
		}
		g.add("S", p[:n-1]...)
		g.add("S", p...)
		g.add("X", "x")
		g.add("X", "y")
		g.add("Y", "y")
		g.add("Y", "x")
		bad := append([]string{}, in...)
		bad[n-1] = "d"
		ins = append(ins, in, in[:n-1], in[:n-2], append(in[:n:n], "a"), bad)
		want = append(want, true, true, false, false, false)
	}
	impl := t.IntN(grammarImpls)
	t.Desc("topdown %v, huge choice %d", td, k)
	gr := g.build(t, impl)
	var p parlex.Parser = constructPackrat(t, gr)
	if td {
		q, err := topdown.New(gr)
		if err != nil {
			t.Fail("grammar", "topdown.New: %v", err)
		}
		p = q
	}
	for i, in := range ins {
		lxs := t.lexemes(in)
		t.Desc("topdown %v, huge choice %d\nkinds: %s", td, k, short(in))
		pn := p.Parse(lxs)
		t.Eval()
		if (pn != nil) != want[i] {
			t.Fail("language", "the parser accepts: %v, the sequence is in the language: %v", pn != nil, want[i])
		}
		if pn != nil {
			t.checkDerivation(g, pn, lxs)
			t.checkLinks("parse tree", pn)
		}
	}
	t.Count("huge_cases", 1)
}

// hugeC08 has two productions of a non-terminal with many that fit.
func hugeC08(t *T, k int) {
	if k > 1 {
		t.hugeAmbiguous(k == 3)
		return
	}
	n := []int{700, 66500}[k]
	pairs := [][2]int{{0, 1}, {5, 6}, {100, 130}, {127, 128}, {250, 259}, {255, 256}, {511, 512}, {255, 640}, {32767, 32768}, {65535, 65536}, {40000, 66000}, {300, 65800}, {0, n - 1}}
	at := map[int]string{}
	g := newCFG()
	var ins [][]string
	var first []string
	subs := newCFG()
	for j, p := range pairs {
		if p[1] >= n || at[p[0]] != "" || at[p[1]] != "" {
			continue
		}
		a, b := fmt.Sprintf("A%d", j), fmt.Sprintf("B%d", j)
		at[p[0]], at[p[1]] = a, b
		subs.add(a, fmt.Sprintf("x%d", j))
		subs.add(b, fmt.Sprintf("x%d", j))
		ins = append(ins, []string{fmt.Sprintf("x%d", j)})
		first = append(first, a)
	}
	for i := 0; i < n; i++ {
		if x, ok := at[i]; ok {
			g.add("S", x)
		} else {
			g.add("S", fmt.Sprintf("z%d", i%300))
		}
	}
	for _, nt := range subs.NT {
		g.add(nt, subs.Prods[nt][0]...)
	}
	p := constructPackrat(t, g.build(t, t.IntN(grammarImpls)))
	for i, in := range ins {
		t.Desc("%d productions, of which %s is the first that fits %q", n, first[i], in)
		pn := p.Parse(t.lexemes(in))
		t.Eval()
		if pn == nil || pn.Children() != 1 || pn.Child(0).Kind().String() != first[i] {
			t.Fail("priority", "another production was chosen: %s", kindShape(pn))
		}
	}
	t.Count("huge_cases", 1)
}

// hugeAmbiguous is a long list of items that can each be read in two ways.
func (t *T) hugeAmbiguous(swap bool) {
	g := newCFG()
	g.add("L", "L", "I")
	g.add("L", "I")
	g.add("I", "A")
	g.add("I", "B")
	g.add("A", "x")
	g.add("A", "y")
	g.add("B", "y")
	g.add("B", "x")
	g.add("B", "z")
	want := map[string]string{"x": "A", "y": "A", "z": "B"}
	if swap {
		g.Prods["I"][0], g.Prods["I"][1] = g.Prods["I"][1], g.Prods["I"][0]
		want = map[string]string{"x": "B", "y": "B", "z": "B"}
	}
	n := t.Range(66000, 67000)
	in := make([]string, n)
	for i := range in {
		in[i] = pick(t, []string{"x", "y", "z"})
	}
	t.Desc("grammar:\n%s\nkinds: %s", g.text(), short(in))
	pn := constructPackrat(t, g.build(t, t.IntN(grammarImpls))).Parse(t.lexemes(in))
	t.Eval()
	if pn == nil {
		t.Fail("language", "the list was refused")
	}
	for i := n - 1; i >= 0; i-- {
		k := pn.Children()
		if k != 2 && (k != 1 || i != 0) {
			t.Fail("priority", "the node before item %d has %d children", i, k)
		}
		item := pn.Child(k - 1)
		if item.Kind().String() != "I" || item.Children() != 1 || item.Child(0).Kind().String() != want[in[i]] {
			t.Fail("priority", "item %d of %d, %q, is read as %s", i, n, in[i], kindShape(item))
		}
		pn = pn.Child(0)
	}
	t.Count("huge_cases", 1)
}

// layered makes a grammar of layers of non-terminals: each non-terminal has
// every one of the next layer first, so there are more chains of first symbols
// than any work that follows each of them could follow.
func layered(t *T, depth, width int) *CFG {
	g := newCFG()
	for i := 0; i < depth; i++ {
		for w := 0; w < width; w++ {
			a := fmt.Sprintf("N%dx%d", i, w)
			if i+1 == depth {
				g.add(a, fmt.Sprintf("t%d", w))
				continue
			}
			for v := 0; v < width; v++ {
				p := []string{fmt.Sprintf("N%dx%d", i+1, v)}
				if (i+w+v)%4 == 0 {
					p = append([]string{"E"}, p...)
				}
				g.add(a, p...)
			}
		}
	}
	g.add("E")
	return g
}

func hugeC10(t *T, k int) {
	n := []int{3000, 66500, 0}[k]
	for _, lr := range []bool{false, true} {
		g := newCFG()
		name := func(i int) string { return fmt.Sprintf("N%d", i) }
		end := "z"
		if lr && k < 2 {
			end = name(t.IntN(n))
		}
		if k == 2 {
			d := t.Range(30, 60)
			g = layered(t, d, 3)
			if lr {
				g.add(fmt.Sprintf("N%dx%d", d-1, t.IntN(3)), "E", fmt.Sprintf("N%dx%d", t.IntN(d), t.IntN(3)), "q")
			}
		} else if k == 0 { // a chain
			for i := 0; i < n; i++ {
				if i+1 < n {
					g.add(name(i), "E", name(i+1), "a")
				} else {
					g.add(name(i), end)
				}
			}
		} else { // many productions, many symbols
			g.add("S", "x")
			for i := 0; i < n; i++ {
				g.add("S", name(i))
				g.add(name(i), "x", "S")
			}
			end = "T"
			if lr {
				end = "S"
			}
			g.add(name(t.IntN(n)), "E", end, "q")
			g.add("T", "x")
		}
		if k < 2 {
			g.add("E")
		}
		t.Desc("%d non-terminals, left recursive %v", len(g.NT), lr)
		impl := t.IntN(4)
		gr := g.build(t, impl)
		if got := parlex.IsLeftRecursive(gr); got != lr {
			t.Fail("detect", "IsLeftRecursive is %v, a non-terminal can derive itself first: %v", got, lr)
		}
		p, err := topdown.New(gr)
		t.Eval()
		if lr && (p != nil || err != topdown.ErrLeftRecursion) || !lr && (p == nil || err != nil) {
			t.Fail("constructor", "topdown.New returned %v, %v", p != nil, err)
		}
	}
	t.Count("huge_cases", 1)
}

// hugeC11 has many left recursive non-terminals, or many productions of one.
func hugeC11(t *T, k int) {
	if k > 1 {
		t.layeredC11(k == 3)
		return
	}
	g := newCFG()
	n := 600
	for i := 0; i < n; i++ {
		a, x, y := fmt.Sprintf("A%d", i), fmt.Sprintf("x%d", i), fmt.Sprintf("t%d", i)
		if k == 0 {
			g.add("S", a)
			g.add(a, a, x)
			g.add(a, y)
		} else {
			g.add("S", "S", x)
			g.add("S", y)
		}
	}
	t.Desc("%d productions, huge case %d", g.size(), k)
	gr := g.build(t, t.IntN(4))
	out := grammar.RemoveLeftRecursion(gr)
	t.Eval()
	if readCFG(gr).text() != g.text() {
		t.Fail("input", "the grammar given was changed")
	}
	h := readCFG(out)
	if h.leftRecursive() || parlex.IsLeftRecursive(out) {
		t.Fail("leftrec", "the result is left recursive")
	}
	if len(h.NT) == 0 || h.NT[0] != "S" {
		t.Fail("start", "the start symbol is not S")
	}
	p := packrat.New(out)
	for i := 0; i < n; i++ {
		in := []string{fmt.Sprintf("t%d", i)}
		x, y := fmt.Sprintf("x%d", i), fmt.Sprintf("x%d", (i+t.Range(1, n-1))%n)
		for j, c := range [][]string{in, {in[0], x}, {in[0], x, x}, {in[0], y}, {in[0], x, y}, {x}, {in[0], in[0]}} {
			want := j < 3 || k == 1 && j < 5
			if got := p.Parse(t.lexemes(c)) != nil; got != want {
				t.Fail("language", "%q in the original language: %v, in the new one: %v", c, want, got)
			}
		}
		if i > 50 && i < n-50 {
			i += 10 // the work per input is large
		}
	}
	t.Max("productions_out", h.size())
	t.Count("huge_cases", 1)
}

// layeredC11 has layers, with left recursion at the end or through all of them.
func (t *T) layeredC11(through bool) {
	d := t.Range(30, 50)
	g := layered(t, d, 3)
	last := fmt.Sprintf("N%dx0", d-1)
	if through {
		d = t.Range(8, 12)
		g = layered(t, d, 2)
		last = fmt.Sprintf("N%dx0", d-1)
		g.add(last, "N0x0", "q")
	} else {
		g.add(last, last, "q")
	}
	t.Desc("%d productions, layered, through %v", g.size(), through)
	gr := g.build(t, t.IntN(4))
	out := grammar.RemoveLeftRecursion(gr)
	t.Eval()
	if readCFG(gr).text() != g.text() {
		t.Fail("input", "the grammar given was changed")
	}
	h := readCFG(out)
	if h.leftRecursive() || parlex.IsLeftRecursive(out) {
		t.Fail("leftrec", "the result is left recursive")
	}
	p := packrat.New(out)
	for i, c := range [][]string{{"t0"}, {"t1"}, {"t0", "q"}, {"t0", "q", "q"}, {"t1", "q"}, {"q"}, {}, {"t0", "t1"}} {
		want := i < 4 || i == 4 && through
		if got := p.Parse(t.lexemes(c)) != nil; got != want {
			t.Fail("language", "%q in the original language: %v, in the new one: %v", c, want, got)
		}
	}
	t.Max("productions_out", h.size())
	t.Count("huge_cases", 1)
}

// hugeC23 has long and deep documents.
func hugeC23(t *T, k int) {
	if k == 3 {
		e := t.mexpr(0)
		for i := 0; i < 120; i++ {
			e = &mexpr{op: pick(t, []string{"+", "-", "*"}), a: e, b: t.mexpr(0)}
		}
		text := t.layout(e.tokens(t, 0))
		t.Desc("expression: %q", text)
		got, err := parlexmath.Eval(text)
		t.Eval()
		if want := e.eval(); err != nil || got != want && !(math.IsNaN(got) && math.IsNaN(want)) {
			t.Fail("value", "the value is %v, expected %v, error %v", got, want, err)
		}
		t.Count("huge_cases", 1)
		return
	}
	var toks []string
	val := func() string { return pick(t, []string{"1", "23.5", "true", "false", "null", `"s"`, `"a\"b"`, `""`}) }
	switch k {
	case 0:
		toks = append(toks, "[")
		for i := 0; i < 20000; i++ {
			if i > 0 {
				toks = append(toks, ",")
			}
			toks = append(toks, val())
		}
		toks = append(toks, "]")
	case 1:
		toks = append(toks, "{")
		for i := 0; i < 15000; i++ {
			if i > 0 {
				toks = append(toks, ",")
			}
			toks = append(toks, fmt.Sprintf("\"k%d\"", i), ":", val())
		}
		toks = append(toks, "}")
	case 2:
		n := 1500
		for i := 0; i < n; i++ {
			toks = append(toks, "[")
		}
		toks = append(toks, `"`+strings.Repeat("x", 70000)+`"`)
		for i := 0; i < n; i++ {
			toks = append(toks, "]")
		}
	}
	t.Desc("document of %d tokens", len(toks))
	got, err := parlexjson.Format(t.layout(toks))
	t.Eval()
	if err != nil {
		t.Fail("accept", "the document is refused: %v", err)
	}
	if g := jsonTokens(got); !equalStrings(g, toks) {
		t.Fail("format", "the result has other tokens, %d instead of %d", len(g), len(toks))
	}
	if again, err := parlexjson.Format(got); err != nil || again != got {
		t.Fail("idempotent", "formatting again gives something else, error %v", err)
	}
	t.Count("huge_cases", 1)
}

func hugeC12(t *T, k int) {
	if k == 2 {
		d := t.Range(30, 60)
		g := layered(t, d, 3)
		g.add("R", "N0x1", "q")
		t.Desc("analysis, %d layers", d)
		a := analyze.Analyze(g.build(t, t.IntN(4)))
		t.Eval()
		for i := 0; i < d; i++ {
			for w := 0; w < 3; w++ {
				s := stringsymbol.Symbol(fmt.Sprintf("N%dx%d", i, w))
				for v := 0; v < 4; v++ {
					f := stringsymbol.Symbol(fmt.Sprintf("t%d", v))
					if want := v < 3 && (i+1 < d || v == w); a.HasFirst(s, f) != want {
						t.Fail("first", "HasFirst(%s, %s) is %v", s, f, !want)
					}
				}
				if a.HasFirst(s, stringsymbol.Symbol("q")) {
					t.Fail("first", "HasFirst(%s, q)", s)
				}
			}
		}
		t.Count("huge_cases", 1)
		return
	}
	g := newCFG()
	n := 3000
	for i := 0; i < n; i++ {
		if k == 0 {
			g.add("S", fmt.Sprintf("A%d", i))
			g.add(fmt.Sprintf("A%d", i), "E", fmt.Sprintf("t%d", i))
		} else {
			g.add("S", fmt.Sprintf("t%d", i), "S")
			g.add(fmt.Sprintf("A%d", i), "B", "S")
		}
	}
	if k == 0 {
		g.add("E")
	}
	g.add("B", "b")
	t.Desc("analysis, huge case %d", k)
	a := analyze.Analyze(g.build(t, t.IntN(4)))
	t.Eval()
	s := func(s string, i int) parlex.Symbol { return stringsymbol.Symbol(fmt.Sprintf(s, i)) }
	z := func(s string) parlex.Symbol { return stringsymbol.Symbol(s) }
	for i := 0; i <= n; i++ {
		in := i < n
		if a.Contains(s("t%d", i)) != in || a.Contains(s("A%d", i)) != in || a.NonTerminal(s("A%d", i)) != in || a.NonTerminal(s("t%d", i)) {
			t.Fail("contains", "t%d or A%d of %d", i, i, n)
		}
		if a.HasFirst(z("S"), s("t%d", i)) != in {
			t.Fail("first", "HasFirst(S, t%d) of %d is %v", i, n, !in)
		}
		if a.HasFirst(s("A%d", i), s("t%d", i)) != (in && k == 0) || a.HasFirst(s("A%d", i), s("t%d", i+1)) || a.HasFirst(s("A%d", i), z("b")) != (in && k == 1) {
			t.Fail("first", "HasFirst(A%d, t%d), HasFirst(A%d, t%d) or HasFirst(A%d, b)", i, i, i, i+1, i)
		}
		if a.HasNilInFirst(s("A%d", i)) != (in && k == 0) || a.HasNilInFirst(s("t%d", i)) {
			t.Fail("nil", "HasNilInFirst(A%d) or HasNilInFirst(t%d)", i, i)
		}
	}
	if a.HasNilInFirst(z("S")) != (k == 0) || a.HasNilInFirst(z("B")) {
		t.Fail("nil", "HasNilInFirst(S) is %v, HasNilInFirst(B) is %v", a.HasNilInFirst(z("S")), a.HasNilInFirst(z("B")))
	}
	t.Count("huge_cases", 1)
}

// hugeC13 has many lines with different repeats, or one long line.
func hugeC13(t *T, k int) {
	n := 300
	var lines []string
	model := newCFG()
	if k == 0 {
		for i := 0; i < n; i++ {
			lines = append(lines, fmt.Sprintf("S -> k%d R%d", i, i))
			model.add("S", fmt.Sprintf("k%d", i), fmt.Sprintf("R%d", i))
		}
		for i := 0; i < n; i++ {
			a, b := fmt.Sprintf("t%d", i), fmt.Sprintf("t%d", (i*7+1)%n)
			lines = append(lines, fmt.Sprintf("R%d -> (%s %s)* (%s)?", i, a, b, a))
		}
	} else {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, fmt.Sprintf("t%d*", i))
		}
		lines = append(lines, "S -> "+strings.Join(r, " "))
	}
	t.Desc("regex grammar, huge case %d", k)
	gr, rd, err := regexgram.New(strings.Join(lines, "\n"))
	t.Eval()
	if err != nil || gr == nil || rd == nil {
		t.Fail("refused", "a valid regex grammar was refused: %v", err)
	}
	p := packrat.New(gr)
	try := func(in []string, want string) {
		t.Desc("regex grammar, huge case %d\nkinds: %s", k, short(in))
		pn := p.Parse(t.lexemes(in))
		t.Eval()
		if (pn != nil) != (want != "") {
			t.Fail("language", "accepted: %v", pn != nil)
		}
		if pn != nil {
			if got := kindShape(rd.Reduce(pn)); got != want {
				t.Fail("flat", "the reduced tree is %s, expected %s", got, want)
			}
		}
	}
	model = newCFG()
	for j := 0; j < 25; j++ {
		i := t.IntN(n)
		a, b := fmt.Sprintf("t%d", i), fmt.Sprintf("t%d", (i*7+1)%n)
		if k == 0 {
			in := []string{fmt.Sprintf("k%d", i)}
			var kids []*mt
			for m := t.IntN(4); m > 0; m-- {
				in = append(in, a, b)
			}
			if t.Bool() {
				in = append(in, a)
			}
			for _, s := range in[1:] {
				kids = append(kids, &mt{kind: s})
			}
			want := &mt{kind: "S", kids: []*mt{{kind: in[0]}, {kind: fmt.Sprintf("R%d", i), kids: kids}}}
			try(in, kindShape(want.my()))
			try(append(in, fmt.Sprintf("t%d", (i*7+2)%n)), "")
		} else {
			var in []string
			var kids []*mt
			for x, y := 0, 0; x < n && len(in) < 12; x += t.Range(1, 60) {
				for y = t.Range(1, 3); y > 0; y-- {
					in = append(in, fmt.Sprintf("t%d", x))
				}
			}
			for _, s := range in {
				kids = append(kids, &mt{kind: s})
			}
			try(in, kindShape((&mt{kind: "S", kids: kids}).my()))
			try(append([]string{"t299"}, in...), "")
		}
	}
	t.Count("huge_cases", 1)
}

// wideTree has many children, some with children of their own.
func (t *T) wideTree(n int) *mt {
	root := &mt{kind: "R", val: "root", l: 1, c: 1}
	for i := 0; i < n; i++ {
		c := &mt{kind: pick(t, []string{"A", "B", "C", "D"}), val: fmt.Sprint(i), l: i, c: i % 80}
		if i%1000 == 7 || i == n-1 || i == 0 {
			for j := 0; j < 3; j++ {
				c.kids = append(c.kids, &mt{kind: "G", val: fmt.Sprintf("%d.%d", i, j), l: i, c: j})
			}
		}
		root.kids = append(root.kids, c)
	}
	return root
}

func (t *T) deepTree(n int) *mt {
	m := &mt{kind: "leaf", val: "v"}
	for i := 0; i < n; i++ {
		m = &mt{kind: pick(t, []string{"A", "B", "C"}), val: fmt.Sprint(i), l: i, c: i % 80, kids: []*mt{m}}
		if i%7 == 3 {
			m.kids = append(m.kids, &mt{kind: "D", val: fmt.Sprint(i)})
		}
	}
	return m
}

func hugeC14(t *T, k int) {
	m := t.wideTree(67000)
	if k == 1 {
		m = t.deepTree(20000)
	}
	p := t.pn(m)
	before := m.shape()
	var log []string
	note := func(n *tree.PN) { log = append(log, n.Value()) }
	drop := []int{0, -1, 1, 40000, 66000, 70000, -66990}
	r := tree.Reducer{"A": note, "G": note, "leaf": note, "R": tree.Reduction(note).RemoveChildren(drop...), "B": tree.Reduction(note).RemoveAll("D")}
	t.Desc("reduce a tree of %d nodes", m.size())
	got := r.Reduce(p)
	t.Eval()
	if s := shape(p); s != before {
		t.Fail("original", "the tree reduced has changed")
	}
	var want []string
	var model func(m *mt)
	model = func(m *mt) {
		for _, c := range m.kids {
			model(c)
		}
		switch m.kind {
		case "A", "G", "leaf":
			want = append(want, m.val)
		case "R":
			want = append(want, m.val)
			(&edit{name: "RemoveChildren", idx: drop}).apply(m)
		case "B":
			want = append(want, m.val)
			(&edit{name: "RemoveAll", strs: []string{"D"}}).apply(m)
		}
	}
	model(m)
	if !equalStrings(log, want) {
		t.Fail("order", "the reductions were called for %d nodes, expected %d, or in another order", len(log), len(want))
	}
	if shape(got) != m.shape() {
		t.Fail("result", "the result is not as expected")
	}
	t.checkLinks("reduced tree", got)
	t.Count("huge_cases", 1)
}

func hugeC15(t *T, k int) {
	m := t.wideTree(67000)
	var many []int
	for i := 0; i < 400; i++ {
		many = append(many, pick(t, []int{i * 150, -i*150 - 1, t.IntN(67000), 67000 + i}))
	}
	strs := make([]string, 0, 300)
	for i := 0; i < 290; i++ {
		strs = append(strs, fmt.Sprintf("no%d", i))
	}
	strs = append(strs, "E")
	for i := 0; i < 20; i++ {
		m.kids[t.IntN(67000)].kind = "E"
	}
	es := []*edit{
		{name: "RemoveChild", idx: []int{66000}},
		{name: "RemoveChild", idx: []int{-66001}},
		{name: "RemoveChildren", idx: many},
		{name: "RemoveAll", strs: strs},
		{name: "PromoteChildValue", idx: []int{66500}},
		{name: "PromoteChildrenOf", idx: []int{66007}},
		{name: "PromoteChildrenOf", idx: []int{-1}},
		{name: "PromoteGrandChildren"},
		{name: "PromoteChild", idx: []int{65007}},
		{name: "PromoteChild", idx: []int{-1}},
		{name: "ReplaceWithChild", idx: []int{66999}},
		{name: "If", idx: []int{66999}, strs: []string{m.kids[66999].kind}, then: []*edit{{name: "RemoveChild", idx: []int{-1}}}},
	}
	e := es[k]
	if k == 7 || k == 8 { // the grandchildren are many
		for i := 0; i < 70000; i++ {
			m.kids[65007].kids = append(m.kids[65007].kids, &mt{kind: "G", val: fmt.Sprint(i)})
		}
	}
	t.Desc("%s of a node with %d children", e, len(m.kids))
	p := t.pn(m)
	if t.Bool() {
		e.call(p)
	} else {
		e.reduction()(p)
	}
	e.apply(m)
	t.Eval()
	if shape(p) != m.shape() {
		t.Fail("edit", "the result with %d children is not as expected, with %d children", len(p.C), len(m.kids))
	}
	t.checkLinks("edited tree", p)
	t.Count("huge_cases", 1)
}

func hugeC16(t *T, k int) {
	var m *mt
	switch k {
	case 0:
		m = t.wideTree(67000)
	case 1:
		m = t.deepTree(4000)
	case 2:
		m = &mt{kind: "K", val: strings.Repeat(pick(t, []string{"a", "\n", "\\", "\"", "é", "\xff", "ab\" {"}), 70000), kids: []*mt{{kind: strings.Repeat("k", 70000), val: "x"}}}
	}
	t.Desc("tree of %d nodes, huge case %d", m.size(), k)
	p := t.pn(m)
	if p.Size() != m.size() {
		t.Fail("size", "Size is %d for %d nodes", p.Size(), m.size())
	}
	c := tree.Clone(p)
	if shape(c) != m.shape() {
		t.Fail("clone", "the clone is not equal")
	}
	t.checkLinks("clone", c)
	q, err := tree.New(p.String())
	t.Eval()
	if err != nil || q == nil {
		t.Fail("roundtrip", "the printed tree is refused: %v", err)
	}
	var same func(a *tree.PN, b *mt) bool
	same = func(a *tree.PN, b *mt) bool {
		if a.Kind().String() != b.kind || a.Value() != b.val || len(a.C) != len(b.kids) {
			return false
		}
		for i, c := range a.C {
			if !same(c, b.kids[i]) {
				return false
			}
		}
		return true
	}
	if !same(q, m) {
		t.Fail("roundtrip", "the tree read back is not equal")
	}
	t.checkLinks("tree read back", q)
	t.Count("huge_cases", 1)
}

func hugeC17(t *T, k int) {
	want := tree.Reducer{}
	var b strings.Builder
	var kinds []string
	if k == 0 { // many rules
		for i := 0; i < 300; i++ {
			kind := fmt.Sprintf("K%d", i)
			kinds = append(kinds, kind)
			e := []*edit{
				{name: "RemoveChild", idx: []int{i % 5}}, {name: "PromoteChild", idx: []int{-(i % 4)}}, {name: "PromoteGrandChildren"},
			}[i%3]
			fmt.Fprintf(&b, "%s %s\n", kind, e.dsl(t, func() string { return "" }))
			want[kind] = e.reduction()
		}
	} else { // a long chain and long lists of arguments
		kinds = []string{"K0", "K1", "K2", "K3"}
		var es []*edit
		for i := 0; i < 120; i++ {
			es = append(es, &edit{name: "RemoveChild", idx: []int{t.Range(-200, 200)}})
		}
		many := &edit{name: "RemoveChildren"}
		all := &edit{name: "RemoveAll"}
		for i := 0; i < 150; i++ {
			many.idx = append(many.idx, t.Range(-200, 200))
			all.strs = append(all.strs, fmt.Sprintf("no%d", i))
		}
		all.strs = append(all.strs, "K1")
		sp := func() string { return "" }
		fmt.Fprintf(&b, "K0 %s\nK1 %s\nK2 %s\n", dslChain(t, es, sp), many.dsl(t, sp), all.dsl(t, sp))
		want["K0"], want["K1"], want["K2"] = reductions(es), many.reduction(), all.reduction()
	}
	t.Desc("reducer: %s", b.String())
	got, err := reducer.Parse(b.String())
	t.Eval()
	if err != nil {
		t.Fail("refused", "a valid reducer was refused: %v", err)
	}
	for _, kind := range kinds {
		m := &mt{kind: kind}
		for i := 0; i < 6+k*300; i++ {
			m.kids = append(m.kids, &mt{kind: fmt.Sprintf("K%d", i%3+k*10*(i%2)), val: fmt.Sprint(i), kids: []*mt{{kind: "x", val: fmt.Sprint(i)}}})
		}
		if shape(got.Reduce(t.pn(m))) != shape(want.Reduce(t.pn(m))) {
			t.Fail("reduce", "the rule for %s acts differently from the one in code", kind)
		}
	}
	t.Count("huge_cases", 1)
}

// hugeC19 uses one instance for thousands of different inputs.
func hugeC19(t *T, k int) {
	n := 6000
	switch k {
	case 0, 1:
		d := &lexDef{stack: k == 1, subs: []*subDef{{name: "Main", rules: hugeRules()}}}
		t.Desc("lexer used %d times", n)
		mk := func() parlex.Lexer { return d.buildSimple(t, 0) }
		if k == 1 {
			mk = func() parlex.Lexer { return d.buildStack(t) }
		}
		l := mk()
		for i := 0; i < n; i++ {
			in := fmt.Sprintf("%d x %s", i, t.hugeWords(t.IntN(30), []string{" ", "\n"}))
			t.desc = t.desc[:1]
			if a, b := lexStrings(l.Lex(in)), lexStrings(mk().Lex(in)); a != b {
				t.Fail("history", "after %d uses %q gives\n%s\na fresh lexer\n%s", i, in, a, b)
			}
			t.Eval()
		}
	case 2, 3:
		g := newCFG()
		g.add("S", "I", "S")
		g.add("S")
		g.add("I", "a")
		g.add("I", "(", "S", ")")
		gr := g.build(t, t.IntN(grammarImpls))
		mk := func() parlex.Parser { return packrat.New(gr) }
		if k == 3 {
			mk = func() parlex.Parser {
				p, err := topdown.New(gr)
				mustOK(err)
				return p
			}
		}
		p := mk()
		for i := 0; i < n; i++ {
			in := g.sentence(t, 8)
			if t.Bool() {
				// a kind that was never there before
				in = append(in, fmt.Sprintf("u%d", i))
				j := t.IntN(len(in))
				in[j], in[len(in)-1] = in[len(in)-1], in[j]
			}
			t.Desc("parser used %d times, topdown %v, kinds %q", i, k == 3, in)
			lxs := t.lexemes(in)
			a, b := p.Parse(lxs), mk().Parse(lxs)
			t.Eval()
			if isNilNode(a) != isNilNode(b) || a != nil && shape(a) != shape(b) {
				t.Fail("history", "the parser gives %v, a fresh one %v", a, b)
			}
		}
	case 4:
		mk := func() tree.Reducer {
			r, err := reducer.Parse("A RemoveChild(0)\nB PromoteSingleChild()\nC RemoveAll(\"A\")")
			mustOK(err)
			return r
		}
		r := mk()
		for i := 0; i < n; i++ {
			kinds := append([]string{fmt.Sprintf("U%d", i)}, treeKinds...)
			m := t.randTree(10, kinds, nil)
			t.Desc("reducer used %d times, tree %s", i, m.shape())
			f := r
			if i%100 == 0 {
				f = mk()
			} else {
				f = tree.Merge(r, nil)
			}
			if a, b := shape(r.Reduce(t.pn(m))), shape(f.Reduce(t.pn(m))); a != b {
				t.Fail("history", "the reducer gives %s, a fresh one %s", a, b)
			}
			t.Eval()
		}
	}
	t.Count("huge_cases", 1)
}

// hugeC20 has a long list of lexemes, with the error at the end, in the middle
// or nowhere.
func hugeC20(t *T, k int) {
	var log []call
	n := 67000
	lex := &recLexer{log: &log, out: make([]parlex.Lexeme, n)}
	for i := range lex.out {
		lex.out[i] = &myLexeme{&mySym{"a"}, "v", i, i}
	}
	var want parlex.LexError
	if k > 0 {
		want = &errLx{myLexeme{&mySym{"a"}, "v", 0, 0}, "bad"}
		lex.out[n-1] = &errLx{myLexeme{&mySym{"a"}, "v", 0, 0}, "other"}
		lex.out[[]int{0, n - 1, 65800}[k]] = want
	}
	par := &recParser{log: &log, out: (&mt{kind: "K"}).my()}
	t.Desc("%d lexemes, case %d", n, k)
	var pn parlex.ParseNode
	var err error
	if t.Bool() {
		pn, err = parlex.Run("x", lex, par)
	} else {
		pn, err = parlex.New(lex, par).Run("x")
	}
	t.Eval()
	if k == 0 {
		if err != nil || pn != par.out || len(log) != 2 {
			t.Fail("pipeline", "the tree was expected, not %v, %v", pn, err)
		}
		if ls, ok := log[1].in.([]parlex.Lexeme); !ok || !sameLexemes(ls, lex.out) {
			t.Fail("pipeline", "the parser was not given the lexemes")
		}
	} else if err != error(want) || pn != nil || len(log) != 1 {
		t.Fail("pipeline", "the first error lexeme was expected, not %v, %v, %d calls", pn, err, len(log))
	}
	t.Count("huge_cases", 1)
}

// hugeC22 has many items, each of which needs backtracking.
func hugeC22(t *T, k int) {
	if k > 2 {
		t.layeredC22(k)
		return
	}
	g := newCFG()
	if k == 0 {
		g.add("L", "I0", "L")
		g.add("L")
	} else {
		g.add("L", "L", "I0")
		g.add("L", "I0")
	}
	depth := 7
	for i := 0; i < depth; i++ {
		next := fmt.Sprintf("I%d", i+1)
		if i+1 == depth {
			next = "X"
		}
		g.add(fmt.Sprintf("I%d", i), next, "p")
		g.add(fmt.Sprintf("I%d", i), next, "q")
	}
	g.add("X", "x")
	m := g.custom()
	var p parlex.Parser = packrat.New(m)
	n := 40000
	if k == 0 {
		q, err := topdown.New(m)
		mustOK(err)
		p = q
		n = 67000
	}
	var in []string
	for len(in) < n {
		in = append(in, "x")
		for i := 0; i < depth; i++ {
			in = append(in, pick(t, []string{"q", "q", "p"}))
		}
	}
	if k == 2 {
		in = append(in, "x") // not in the language
	}
	t.Desc("grammar:\n%s\nkinds: %s", g.text(), short(in))
	pn, calls, steps, _ := t.counted(m, p, t.lexemes(in))
	t.Eval()
	if (pn != nil) != (k != 2) {
		t.Fail("language", "accepted: %v", pn != nil)
	}
	for s, c := range calls {
		if c > 4*(len(in)+1)+8 {
			t.Fail("lookups", "the productions of %q were looked up %d times for %d lexemes", s, c, len(in))
		}
		t.Max("huge_lookups_per_100_positions", 100*c/(len(in)+1))
	}
	if float64(steps) > 4*60*float64(len(in)+2) {
		t.Fail("steps", "the parser read the grammar %d times for %d lexemes", steps, len(in))
	}
	t.Count("huge_cases", 1)
}

// layeredC22 parses with layers: every chain of choices leads to every lexeme.
func (t *T) layeredC22(k int) {
	d := t.Range(30, 50)
	g := newCFG()
	g.add("L", "N0x0", "L")
	g.add("L")
	for _, nt := range layered(t, d, 3).NT {
		for _, p := range layered(t, d, 3).Prods[nt] {
			g.add(nt, p...)
		}
	}
	if k == 5 { // left recursive
		g.add(fmt.Sprintf("N%dx0", d-1), "N0x0", "q")
	}
	m := g.custom()
	var p parlex.Parser = packrat.New(m)
	if k == 3 {
		q, err := topdown.New(m)
		mustOK(err)
		p = q
	}
	for _, bad := range []bool{false, true} {
		var in []string
		for n := t.Range(10, 40); n > 0; n-- {
			in = append(in, fmt.Sprintf("t%d", t.IntN(3)))
		}
		if bad {
			in = append(in, "w")
		}
		t.Desc("grammar:\n%s\nkinds: %q", g.text(), in)
		pn, calls, steps, _ := t.counted(m, p, t.lexemes(in))
		t.Eval()
		if (pn != nil) == bad {
			t.Fail("language", "accepted: %v", pn != nil)
		}
		for s, c := range calls {
			if c > 4*(len(in)+1)+8 {
				t.Fail("lookups", "the productions of %q were looked up %d times for %d lexemes", s, c, len(in))
			}
			t.Max("layered_lookups_per_100_positions", 100*c/(len(in)+1))
		}
		t.Max("layered_steps_per_100_position_symbols", int(100*steps/int64((len(in)+1)*g.size())))
	}
	t.Count("huge_cases", 1)
}

func hugeC26(t *T, k int) {
	var ls []parlex.Lexeme
	for i := 0; i < 67000; i++ {
		if i > 65000 && i%300 == 7 {
			ls = append(ls, &errLx{myLexeme{&mySym{"E"}, fmt.Sprint(i), i, 70000 - i}, "m"})
		} else {
			ls = append(ls, &myLexeme{&mySym{fmt.Sprintf("k%d", i%5)}, fmt.Sprint(i), i, i % 7})
		}
	}
	t.Desc("%d lexemes", len(ls))
	t.listing(ls)
	t.Count("huge_cases", 1)
}
