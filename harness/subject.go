package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/analyze"
	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
	"github.com/adamcolton/parlex/examples/scalc"
	"github.com/adamcolton/parlex/grammar"
	"github.com/adamcolton/parlex/grammar/regexgram"
	"github.com/adamcolton/parlex/lexeme"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/parser/packrat"
	"github.com/adamcolton/parlex/parser/topdown"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
	"github.com/adamcolton/parlex/tree"
	"github.com/adamcolton/parlex/tree/reducer"
)

// A subject is something that is built from a definition and then used, by
// several goroutines or many times. The uses and the inputs are fixed when the
// subject is made, so that any use can be repeated on any instance.
type subject struct {
	name string
	desc string
	make func() interface{}
	uses []use
	muts []mut       // changes of the definition
	pool map[int]int // uses that are members of the pool
}

func (s *subject) addPool(i int, u use) {
	if s.pool == nil {
		s.pool = map[int]int{}
	}
	s.pool[len(s.uses)] = i
	s.uses = append(s.uses, u)
}

type use struct {
	desc string
	run  func(x interface{}) outcome
}

type mut struct {
	desc string
	run  func(x interface{})
}

// outcome is what a use returned.
type outcome struct {
	text  string
	again func() string // writes the same results again
	spoil func()        // changes the results, as their owner may
}

func lexOutcome(ls []parlex.Lexeme) outcome {
	again := func() string {
		if ls == nil {
			return "nil"
		}
		return lexStrings(ls)
	}
	return outcome{again(), again, func() {
		for _, l := range ls {
			if lx, ok := l.(*lexeme.Lexeme); ok {
				lx.V, lx.L, lx.C, lx.K = lx.V+"spoiled", 77, 88, stringsymbol.Symbol("spoiled")
			}
		}
		full := ls[:cap(ls)]
		for i := range full {
			full[i] = lexeme.String("spoiled")
		}
	}}
}

func treeOutcome(n parlex.ParseNode) outcome {
	again := func() string { return linkedShape(n) }
	return outcome{again(), again, func() {
		p, ok := n.(*tree.PN)
		if !ok || p == nil {
			return
		}
		var all []*tree.PN
		var walk func(p *tree.PN)
		walk = func(p *tree.PN) {
			all = append(all, p)
			for _, c := range p.C {
				walk(c)
			}
		}
		walk(p)
		for _, p := range all {
			if lx, ok := p.Lexeme.(*lexeme.Lexeme); ok {
				lx.V, lx.L, lx.C, lx.K = lx.V+"spoiled", 77, 88, stringsymbol.Symbol("spoiled")
			}
			p.P = nil
			for i := range p.C {
				p.C[i] = &tree.PN{Lexeme: lexeme.String("spoiled")}
			}
		}
	}}
}

// linkedShape is shape with a note if the links are wrong.
func linkedShape(n parlex.ParseNode) string {
	if isNilNode(n) {
		return "nil"
	}
	s := shape(n)
	if n.Parent() != nil {
		s += " ROOT HAS A PARENT"
	}
	bad := 0
	var walk func(n parlex.ParseNode)
	walk = func(n parlex.ParseNode) {
		for i := 0; i < n.Children(); i++ {
			c := n.Child(i)
			if c.Parent() != n {
				bad++
			}
			walk(c)
		}
	}
	walk(n)
	if bad > 0 {
		s += fmt.Sprintf(" %d WRONG PARENTS", bad)
	}
	return s
}

func textOutcome(s string) outcome {
	return outcome{text: s, again: func() string { return s }, spoil: func() {}}
}

func mustOK(err error) {
	if err != nil {
		panic(failure{"refused", fmt.Sprintf("a valid definition was refused: %v", err)})
	}
}

var subjectKinds = []func(t *T) *subject{
	(*T).simpleSubject, (*T).stackSubject, (*T).grammarSubject, (*T).parserSubject, (*T).parserSubject,
	(*T).reducerSubject, (*T).runnerSubject, (*T).analysisSubject, (*T).readerSubject, (*T).readerSubject, (*T).exampleSubject,
}

func (t *T) subject() *subject { return pick(t, subjectKinds)(t) }

func (t *T) lexUses(al *lexAlpha) []use {
	var us []use
	for i := t.Range(3, 6); i > 0; i-- {
		in := t.lexInput(al, t.frags())
		us = append(us, use{fmt.Sprintf("Lex(%q)", trunc(in, 200)), func(x interface{}) outcome {
			return lexOutcome(x.(parlex.Lexer).Lex(in))
		}})
	}
	return us
}

func (t *T) simpleSubject() *subject {
	al := t.lexAlpha()
	d := t.simpleDef(al)
	text := d.text(t)
	s := &subject{name: "simple lexer"}
	conf := *d
	s.desc = fmt.Sprintf("%s\nbyPriority %v start %q end %q error %q", text, d.byPriority, d.startKind, d.endKind, d.errKind)
	s.make = func() interface{} {
		l, err := simplelexer.New(text)
		mustOK(err)
		if conf.byPriority {
			l.ByPriority()
		}
		if conf.startKind != "" {
			l.InsertStart(conf.startKind, conf.startVal)
		}
		if conf.endKind != "" {
			l.InsertEnd(conf.endKind, conf.endVal)
		}
		if conf.errKind != "" {
			l.Error = conf.errKind
		}
		return l
	}
	s.uses = t.lexUses(al)
	s.uses = append(s.uses, use{"String()", func(x interface{}) outcome { return textOutcome(x.(*simplelexer.Lexer).String()) }})
	for i := 0; i < 3; i++ {
		kind := fmt.Sprintf("added%d", i)
		re := regexp.MustCompile(t.newRegex(al))
		disc := t.Chance(0.2)
		s.muts = append(s.muts, mut{fmt.Sprintf("Add(%s, %s, %v)", kind, re, disc), func(x interface{}) {
			x.(*simplelexer.Lexer).Add(stringsymbol.Symbol(kind), re, disc) // the second time it is refused
		}})
	}
	s.muts = append(s.muts,
		mut{"ByPriority", func(x interface{}) { x.(*simplelexer.Lexer).ByPriority() }},
		mut{"ByLength", func(x interface{}) { x.(*simplelexer.Lexer).ByLength() }},
		mut{"InsertStart", func(x interface{}) { x.(*simplelexer.Lexer).InsertStart("newStart", "s") }},
		mut{"InsertStart again", func(x interface{}) { x.(*simplelexer.Lexer).InsertStart(conf.startKind, conf.startVal+"2") }},
		mut{"InsertEnd again", func(x interface{}) { x.(*simplelexer.Lexer).InsertEnd(conf.endKind, conf.endVal+"2") }},
		mut{"InsertStart again", func(x interface{}) { x.(*simplelexer.Lexer).InsertStart("newStart", "") }},
		mut{"InsertEnd again", func(x interface{}) { x.(*simplelexer.Lexer).InsertEnd("newEnd", "e2") }},
		mut{"InsertEnd", func(x interface{}) { x.(*simplelexer.Lexer).InsertEnd("newEnd", "e") }},
		mut{"Error", func(x interface{}) { x.(*simplelexer.Lexer).Error = "newError" }},
	)
	return s
}

func (t *T) stackSubject() *subject {
	al := t.lexAlpha()
	d := t.stackDef(al)
	text := d.text(t)
	conf := *d
	s := &subject{name: "stack lexer"}
	s.desc = fmt.Sprintf("%s\nbyPriority %v start %q end %q error %q", text, d.byPriority, d.startKind, d.endKind, d.errKind)
	s.make = func() interface{} {
		l, err := stacklexer.New(text)
		mustOK(err)
		if conf.byPriority {
			l.ByPriority()
		}
		if conf.startKind != "" {
			l.InsertStart(conf.startKind, conf.startVal)
		}
		if conf.endKind != "" {
			l.InsertEnd(conf.endKind, conf.endVal)
		}
		if conf.errKind != "" {
			l.Error = conf.errKind
		}
		return l
	}
	s.uses = t.lexUses(al)
	s.muts = []mut{
		{"ByPriority", func(x interface{}) { x.(*stacklexer.StackLexer).ByPriority() }},
		{"ByLength", func(x interface{}) { x.(*stacklexer.StackLexer).ByLength() }},
		{"InsertStart", func(x interface{}) { x.(*stacklexer.StackLexer).InsertStart("newStart", "s") }},
		{"InsertStart again", func(x interface{}) { x.(*stacklexer.StackLexer).InsertStart(conf.startKind, conf.startVal+"2") }},
		{"InsertEnd again", func(x interface{}) { x.(*stacklexer.StackLexer).InsertEnd(conf.endKind, conf.endVal+"2") }},
		{"InsertStart again", func(x interface{}) { x.(*stacklexer.StackLexer).InsertStart("newStart", "") }},
		{"InsertEnd again", func(x interface{}) { x.(*stacklexer.StackLexer).InsertEnd("newEnd", "e2") }},
		{"InsertEnd", func(x interface{}) { x.(*stacklexer.StackLexer).InsertEnd("newEnd", "e") }},
		{"Error", func(x interface{}) { x.(*stacklexer.StackLexer).Error = "newError" }},
	}
	return s
}

func (t *T) smallCFG() *CFG {
	for {
		g, _ := t.anyCFG()
		if g.size() <= 20 {
			return g
		}
	}
}

func prodsText(ps parlex.Productions) string {
	if ps == nil {
		return "nil"
	}
	var b strings.Builder
	for i := ps.Iter(); i.Next(); {
		fmt.Fprintf(&b, "%q;", prodNames(i.Production))
	}
	return b.String()
}

func (t *T) symbolsFor(g *CFG) []parlex.Symbol {
	var out []parlex.Symbol
	for _, n := range append(append([]string{"unknown", "other"}, g.NT...), g.terminals()...) {
		if t.Bool() {
			out = append(out, stringsymbol.Symbol(n))
		} else {
			out = append(out, &mySym{n})
		}
	}
	return out
}

func (t *T) grammarSubject() *subject {
	g := t.smallCFG()
	text := g.text()
	s := &subject{name: "grammar", desc: text}
	s.make = func() interface{} {
		gr, err := grammar.New(text)
		mustOK(err)
		return gr
	}
	for i := 0; i < 4; i++ {
		sym := pick(t, t.symbolsFor(g))
		s.uses = append(s.uses, use{fmt.Sprintf("Productions(%q)", sym), func(x interface{}) outcome {
			ps := x.(*grammar.Grammar).Productions(sym)
			again := func() string { return prodsText(ps) }
			return outcome{again(), again, func() {}}
		}})
	}
	s.uses = append(s.uses,
		use{"NonTerminals()", func(x interface{}) outcome {
			nts := x.(*grammar.Grammar).NonTerminals()
			again := func() string { return fmt.Sprint(nts) }
			return outcome{again(), again, func() {
				for i := range nts {
					nts[i] = stringsymbol.Symbol("spoiled")
				}
			}}
		}},
		use{"String()", func(x interface{}) outcome { return textOutcome(x.(*grammar.Grammar).String()) }},
		use{"IsLeftRecursive", func(x interface{}) outcome {
			return textOutcome(fmt.Sprint(parlex.IsLeftRecursive(x.(*grammar.Grammar))))
		}},
		use{"RemoveLeftRecursion", func(x interface{}) outcome {
			r := grammar.RemoveLeftRecursion(x.(*grammar.Grammar))
			return outcome{r.String(), r.String, func() {
				r.Add(stringsymbol.Symbol("spoiled"), stringsymbol.Production{"spoiled"})
			}}
		}},
	)
	for i := 0; i < 3; i++ {
		nt := pick(t, append([]string{"New", "unknown"}, g.NT...))
		var p stringsymbol.Production
		for j := t.IntN(4); j > 0; j-- {
			p = append(p, stringsymbol.CastSymbol(pick(t, t.symbolsFor(g))))
		}
		s.muts = append(s.muts, mut{fmt.Sprintf("Add(%s, %s)", nt, p), func(x interface{}) {
			x.(*grammar.Grammar).Add(stringsymbol.Symbol(nt), p)
		}})
	}
	return s
}

// parsersOf is a grammar with the parsers for it.
type parsersOf struct {
	gr parlex.Grammar
	ps []parlex.Parser
}

func (t *T) parserSubject() *subject {
	g := t.smallCFG()
	text := g.text()
	impl := pick(t, []int{0, 3, 4})
	s := &subject{name: "parsers", desc: fmt.Sprintf("implementation %d\n%s", impl, text)}
	s.make = func() interface{} {
		gr := g.build(t, impl)
		x := &parsersOf{gr: gr, ps: []parlex.Parser{packrat.New(gr)}}
		if td, err := topdown.New(gr); err == nil {
			x.ps = append(x.ps, td)
		}
		return x
	}
	for _, in := range t.inputs(g, 4, 5, 12) {
		if len(s.uses) > 12 {
			break
		}
		lxs := t.lexemes(in)
		n := t.IntN(2)
		s.uses = append(s.uses, use{fmt.Sprintf("Parse(%q) %d", in, n), func(x interface{}) outcome {
			p := x.(*parsersOf)
			return treeOutcome(p.ps[n%len(p.ps)].Parse(lxs))
		}})
	}
	s.uses = append(s.uses, use{"IsLeftRecursive", func(x interface{}) outcome {
		return textOutcome(fmt.Sprint(parlex.IsLeftRecursive(x.(*parsersOf).gr)))
	}})
	syms := t.symbolsFor(g)
	s.uses = append(s.uses, use{"Productions of all", func(x interface{}) outcome {
		var b strings.Builder
		for _, sym := range syms {
			b.WriteString(prodsText(x.(*parsersOf).gr.Productions(sym)))
		}
		return textOutcome(b.String())
	}})
	return s
}

func (t *T) reducerSubject() *subject {
	s := &subject{name: "reducer"}
	type rl struct {
		kind string
		es   []*edit
	}
	var rules []rl
	var lines []string
	for i := t.Range(1, 4); i > 0; i-- {
		r := rl{pick(t, treeKinds), t.edits(treeKinds, 1)}
		rules = append(rules, r)
		lines = append(lines, r.kind+" "+dslChain(t, r.es, func() string { return " " }))
	}
	how := t.IntN(3)
	text := strings.Join(lines, "\n")
	s.desc = fmt.Sprintf("form %d\n%s", how, text)
	s.make = func() interface{} {
		code := tree.Reducer{}
		for _, r := range rules {
			code[r.kind] = reductions(r.es)
		}
		switch how {
		case 0:
			return code
		case 1:
			r, err := reducer.Parse(text)
			mustOK(err)
			return r
		}
		r, err := reducer.Parse(text)
		mustOK(err)
		return tree.Merge(code, r)
	}
	for i := t.Range(2, 5); i > 0; i-- {
		m := t.randTree(14, treeKinds, nil)
		var in parlex.ParseNode = t.pn(m)
		if t.Chance(0.2) {
			in = m.my()
		}
		s.uses = append(s.uses, use{"Reduce " + m.shape(), func(x interface{}) outcome {
			o := treeOutcome(x.(tree.Reducer).Reduce(in))
			if shape(in) != m.shape() {
				o.text += " THE INPUT CHANGED TO " + shape(in)
			}
			return o
		}}, use{"RawReduce " + m.shape(), func(x interface{}) outcome {
			return treeOutcome(x.(tree.Reducer).RawReduce(in))
		}}, use{"Can " + m.shape(), func(x interface{}) outcome {
			return textOutcome(fmt.Sprint(x.(tree.Reducer).Can(in)))
		}})
	}
	other := tree.Reducer{"A": tree.PromoteSingleChild, "B": tree.RemoveChild(0), "C": tree.PromoteGrandChildren}
	m := t.randTree(10, treeKinds, nil)
	in := t.pn(m)
	s.uses = append(s.uses, use{"Merge and Reduce " + m.shape(), func(x interface{}) outcome {
		return treeOutcome(tree.Merge(x.(tree.Reducer), other).Reduce(in))
	}})
	s.muts = append(s.muts, mut{"Add A", func(x interface{}) { x.(tree.Reducer).Add("A", tree.PromoteChildValue(0)) }},
		mut{"Add E", func(x interface{}) { x.(tree.Reducer).Add("E", tree.RemoveChild(-1)) }})
	return s
}

func (t *T) runnerSubject() *subject {
	s := &subject{name: "runner"}
	lexText := "space /\\s+/ -\nint /\\d+/\nop1 /[*\\/]/\nop2 /[+-]/\n( /\\(/\n) /\\)/\n"
	stack := t.Bool()
	gramText := pick(t, []string{
		"E -> E op2 E\n-> E op1 E\n-> P\n-> int\nP -> ( E )",
		"E -> T op2 E\n-> T\nT -> F op1 T\n-> F\nF -> ( E )\n-> int",
		"E -> T M\nM -> op2 T M\n->\nT -> ( E )\n-> int",
	})
	nred := t.IntN(3)
	s.desc = fmt.Sprintf("stack %v reducers %d\n%s", stack, nred, gramText)
	s.make = func() interface{} {
		var lx parlex.Lexer
		var err error
		if stack {
			lx, err = stacklexer.New("== Main ==\n" + lexText)
		} else {
			lx, err = simplelexer.New(lexText)
		}
		mustOK(err)
		gr, err := grammar.New(gramText)
		mustOK(err)
		var p parlex.Parser = packrat.New(gr)
		if td, err := topdown.New(gr); err == nil {
			p = td
		}
		reds := []parlex.Reducer{}
		if nred > 0 {
			reds = append(reds, tree.Reducer{"P": tree.ReplaceWithChild(1), "T": tree.PromoteSingleChild, "F": tree.RemoveAll("(", ")")})
		}
		if nred > 1 {
			r, err := reducer.Parse("E If(ChildIs(1, \"op2\"), PromoteChild(1), PromoteSingleChild())")
			mustOK(err)
			reds = append(reds, nil, r)
		}
		return parlex.New(lx, p, reds...)
	}
	for i := t.Range(3, 6); i > 0; i-- {
		var b strings.Builder
		for j := t.IntN(10); j > 0; j-- {
			b.WriteString(pick(t, []string{"1", "23", "+", "*", "(", ")", " ", "\n", "1+2", "(1)", "1 * 2 + ", "-3", "/"}))
		}
		if t.Chance(0.25) {
			b.WriteString(pick(t, []string{"?", "x", "é", "1 ? 2 !"}))
		}
		in := b.String()
		s.uses = append(s.uses, use{fmt.Sprintf("Run(%q)", in), func(x interface{}) outcome {
			n, err := x.(*parlex.Runner).Run(in)
			o := treeOutcome(n)
			if err != nil {
				o.text += " error " + err.Error()
				o.again = func() string { return "nil error " + err.Error() }
			}
			return o
		}})
	}
	return s
}

func (t *T) analysisSubject() *subject {
	g := t.smallCFG()
	text := g.text()
	s := &subject{name: "analysis", desc: text}
	s.make = func() interface{} {
		gr, err := grammar.New(text)
		mustOK(err)
		return analyze.Analyze(gr)
	}
	syms := t.symbolsFor(g)
	for i := t.Range(4, 10); i > 0; i-- {
		a, b := pick(t, syms), pick(t, syms)
		switch t.IntN(5) {
		case 0:
			s.uses = append(s.uses, use{fmt.Sprintf("Contains(%q)", a), func(x interface{}) outcome {
				return textOutcome(fmt.Sprint(x.(*analyze.Analytics).Contains(a)))
			}})
		case 1:
			s.uses = append(s.uses, use{fmt.Sprintf("NonTerminal(%q)", a), func(x interface{}) outcome {
				return textOutcome(fmt.Sprint(x.(*analyze.Analytics).NonTerminal(a)))
			}})
		case 2:
			s.uses = append(s.uses, use{fmt.Sprintf("HasFirst(%q, %q)", a, b), func(x interface{}) outcome {
				return textOutcome(fmt.Sprint(x.(*analyze.Analytics).HasFirst(a, b)))
			}})
		case 3:
			s.uses = append(s.uses, use{fmt.Sprintf("HasNilInFirst(%q)", a), func(x interface{}) outcome {
				return textOutcome(fmt.Sprint(x.(*analyze.Analytics).HasNilInFirst(a)))
			}})
		case 4:
			s.uses = append(s.uses, use{fmt.Sprintf("Productions(%q)", a), func(x interface{}) outcome {
				return textOutcome(prodsText(x.(*analyze.Analytics).Productions(a)))
			}})
		}
	}
	return s
}

// readerSubject reads texts. Uses are of the package, there is no instance.
func (t *T) readerSubject() *subject {
	s := &subject{name: "readers", make: func() interface{} { return nil }}
	for i := t.Range(4, 8); i > 0; i-- {
		if t.w.prop.ID == "C19" && t.Chance(0.6) {
			s.addPool(t.poolUse())
			continue
		}
		s.uses = append(s.uses, t.readUse())
	}
	return s
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return " error " + err.Error()
}

func (t *T) readUse() use {
	broken := func(s string) string {
		if !t.Chance(0.25) || len(s) == 0 {
			return s
		}
		i := t.IntN(len(s))
		switch t.IntN(3) {
		case 0:
			return s[:i] + pick(t, []string{"(", ")", "{", "}", "|", "->", "\"", "/", "?", "*", "[", "\n", "=", "1"}) + s[i:]
		case 1:
			return s[:i] + s[i+1:]
		}
		return s[:i]
	}
	switch t.IntN(8) {
	case 7:
		return t.printUse()
	case 0:
		text := t.smallCFG().text()
		if i := strings.Index(text, "->"); t.Chance(0.2) && i > 0 {
			text = text[i:] // begins without a left side
		}
		text = broken(text)
		return use{fmt.Sprintf("grammar.New(%q)", text), func(interface{}) outcome {
			g, err := grammar.New(text)
			if err != nil {
				return textOutcome(err.Error())
			}
			return outcome{g.String(), g.String, func() { g.Add(stringsymbol.Symbol("spoiled"), stringsymbol.Production{}) }}
		}}
	case 1, 2:
		prods := t.ebGrammar()
		text := broken(ebText(t, prods))
		model := newCFG()
		fresh := 0
		for _, p := range prods {
			toCFG(model, p.nt, p.items, &fresh)
		}
		var ins [][]parlex.Lexeme
		for i := 0; i < 3; i++ {
			if in := model.sentence(t, 8); in != nil {
				ins = append(ins, t.lexemes(in))
			}
		}
		return use{fmt.Sprintf("regexgram.New(%q)", text), func(interface{}) outcome {
			g, r, err := regexgram.New(text)
			if err != nil {
				return textOutcome(err.Error())
			}
			again := func() string {
				var b strings.Builder
				b.WriteString(g.String())
				p := packrat.New(g)
				for _, in := range ins {
					n := p.Parse(in)
					b.WriteString(shape(n))
					if n != nil {
						b.WriteString(linkedShape(r.Reduce(n)))
					}
				}
				return b.String()
			}
			return outcome{again(), again, func() {
				g.Add(stringsymbol.Symbol("spoiled"), stringsymbol.Production{})
				for k := range r {
					delete(r, k)
				}
			}}
		}}
	case 3:
		m := t.randTree(10, oddKinds, nil)
		text := broken(t.pn(m).String())
		if t.Chance(0.1) {
			// escapes that Go does not have
			text = pick(t, []string{"A: \"\\q\\n\"", "A {\nB: \"x\\'y\"\n}", "}\nA", "A {\n}\n}", "A: \"\\8\""})
		}
		return use{fmt.Sprintf("tree.New(%q)", text), func(interface{}) outcome {
			p, err := tree.New(text)
			if err != nil {
				return textOutcome(err.Error())
			}
			return treeOutcome(p)
		}}
	case 4:
		var lines []string
		for i := t.Range(1, 4); i > 0; i-- {
			lines = append(lines, pick(t, treeKinds)+" "+dslChain(t, t.edits(treeKinds, 2), func() string { return pick(t, []string{"", " ", "// c\n"}) }))
		}
		text := broken(strings.Join(lines, "\n"))
		var ins []parlex.ParseNode
		for i := 0; i < 3; i++ {
			ins = append(ins, t.pn(t.randTree(10, treeKinds, nil)))
		}
		return use{fmt.Sprintf("reducer.Parse(%q)", text), func(interface{}) outcome {
			r, err := reducer.Parse(text)
			if err != nil {
				return textOutcome(err.Error())
			}
			again := func() string {
				var b strings.Builder
				for _, in := range ins {
					b.WriteString(linkedShape(r.Reduce(in)))
				}
				return b.String()
			}
			return outcome{again(), again, func() {
				for k := range r {
					delete(r, k)
				}
				r["A"] = tree.RemoveChild(0)
			}}
		}}
	case 5:
		al := t.lexAlpha()
		text := broken(t.simpleDef(al).text(t))
		in := t.lexInput(al, 14)
		return use{fmt.Sprintf("simplelexer.New(%q) and Lex(%q)", text, in), func(interface{}) outcome {
			l, err := simplelexer.New(text)
			if err != nil {
				return textOutcome(err.Error())
			}
			again := func() string { return l.String() + lexStrings(l.Lex(in)) }
			return outcome{again(), again, func() {
				l.ByPriority()
				l.Add(stringsymbol.Symbol("spoiled"), regexp.MustCompile("."), true)
			}}
		}}
	}
	al := t.lexAlpha()
	text := broken(t.stackDef(al).text(t))
	if t.Chance(0.15) {
		text = pick(t, []string{
			"== A ==\nB\n== B ==\nA\n", "== A ==\nA\n", "== A ==\nB\na /a/\n== B ==\nC\n== C ==\nx /x/\nA\n", "== A ==\na /a/ B\n", "== A ==\na /(a/\n",
			"== A ==\na /a/ (1)\n", "a /a/\n", "== A ==\na /a/\n== A ==\nb /b/\n",
		})
	}
	in := t.lexInput(al, 14)
	return use{fmt.Sprintf("stacklexer.New(%q) and Lex(%q)", text, in), func(interface{}) outcome {
		l, err := stacklexer.New(text)
		if err != nil {
			return textOutcome("refused") // which of several faults is named may vary
		}
		again := func() string { return lexStrings(l.Lex(in)) }
		return outcome{again(), again, func() { l.ByPriority() }}
	}}
}

// printUse writes a tree, lexemes or productions, which are only read.
func (t *T) printUse() use {
	switch t.IntN(3) {
	case 0:
		p := t.pn(t.randTree(12, oddKinds, nil))
		return use{fmt.Sprintf("printing and cloning the tree %s", shape(p)), func(interface{}) outcome {
			return textOutcome(fmt.Sprint(p.String(), p.Size(), linkedShape(tree.Clone(p))))
		}}
	case 1:
		var kinds []string
		for i := t.Range(1, 6); i > 0; i-- {
			kinds = append(kinds, pick(t, oddKinds))
		}
		lxs := t.lexemes(kinds)
		return use{fmt.Sprintf("printing the lexemes %q", kinds), func(interface{}) outcome {
			return textOutcome(fmt.Sprint(parlex.LexemeString(lxs...), parlex.LexemeList(lxs), len(parlex.LexErrors(lxs))))
		}}
	}
	gr, err := grammar.New(t.smallCFG().text())
	mustOK(err)
	return use{fmt.Sprintf("printing the productions of %q", gr), func(interface{}) outcome {
		var b strings.Builder
		for _, nt := range gr.NonTerminals() {
			fmt.Fprintln(&b, nt, gr.Productions(nt), parlex.SymLen(nt))
			for i := gr.Productions(nt).Iter(); i.Next(); {
				fmt.Fprintln(&b, i.Production)
			}
		}
		return textOutcome(b.String())
	}}
}

func (t *T) exampleSubject() *subject {
	s := &subject{name: "examples", make: func() interface{} { return nil }}
	for i := t.Range(3, 6); i > 0; i-- {
		if t.Chance(0.3) {
			toks := t.rpnStack(2, t.Range(1, 3), t.Chance(0.3)).tokens(nil)
			if len(toks) > 12 {
				continue
			}
			if t.Chance(0.4) {
				toks = append(toks, pick(t, []string{"swap", "drop", "clear", "x", ")"}))
			}
			text := t.rpnLayout(toks)
			s.uses = append(s.uses, use{fmt.Sprintf("scalc.Eval(%q)", text), func(interface{}) outcome {
				return textOutcome(fmt.Sprint(scalc.Eval(text)))
			}})
			continue
		}
		if t.Bool() {
			var toks []string
			t.jsonDoc(t.IntN(4), &toks)
			if t.Chance(0.2) {
				toks = toks[:len(toks)-1]
			}
			if t.Chance(0.1) {
				toks = append(toks, "?")
			}
			if len(toks) == 0 {
				continue
			}
			text := t.layout(toks)
			s.uses = append(s.uses, use{fmt.Sprintf("Format(%q)", text), func(interface{}) outcome {
				out, err := parlexjson.Format(text)
				return textOutcome(out + errText(err))
			}})
			continue
		}
		toks := t.mexpr(t.IntN(4)).tokens(t, 0.1)
		if len(toks) > 40 {
			continue
		}
		if t.Chance(0.2) {
			toks = append(toks, pick(t, []string{"?", "1", ")", "+"}))
		}
		text := t.layout(toks)
		s.uses = append(s.uses, use{fmt.Sprintf("Eval(%q)", text), func(interface{}) outcome {
			v, err := parlexmath.Eval(text)
			return textOutcome(fmt.Sprint(v) + errText(err))
		}})
	}
	return s
}
