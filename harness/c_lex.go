package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
	"github.com/adamcolton/parlex/lexer/simplelexer"
	"github.com/adamcolton/parlex/lexer/stacklexer"
	"github.com/adamcolton/parlex/symbol/stringsymbol"
)

func init() {
	register(&Prop{
		ID:       "C01",
		Rule:     "a rule set of generated regular expressions, match mode and inserts, built from text or by Add, and inputs; non-trivial: distinct definition and input giving at least two lexemes",
		Quick:    160000,
		Thorough: 2500000,
		Run:      runC01,
		Floors:   map[string]int64{"lexemes": 100000, "error_runs": 20000, "discards": 5000, "priority_mode": 5000, "ties": 2000},
		Assume:   []string{"Go's regexp decides what one expression matches at one position"},
	})
	register(&Prop{
		ID:       "C02",
		Rule:     "definitions for both lexers and inputs with newlines in matched, discarded and unmatched text; non-trivial: distinct definition and input with a lexeme after a newline",
		Quick:    120000,
		Thorough: 2000000,
		Run:      runC02,
		Floors:   map[string]int64{"positions": 100000, "error_positions": 10000, "after_newline": 20000},
		Assume:   []string{"Go's regexp decides what one expression matches at one position"},
	})
	register(&Prop{
		ID:       "C03",
		Rule:     "stack lexer definitions with 1 to 5 sub-lexers, push, multi-level pop, inheritance, groups, discards, both modes, and inputs; non-trivial: distinct definition and input whose scan changed the sub-lexer",
		Quick:    120000,
		Thorough: 2000000,
		Run:      runC03,
		Floors:   map[string]int64{"pushes": 20000, "pops": 5000, "fallbacks": 5000, "multi_pops": 500, "bottom_pops": 500, "group_values": 5000},
		Assume:   []string{"Go's regexp decides what one expression matches at one position"},
	})
	register(&Prop{
		ID:       "C04",
		Rule:     "valid definitions (lexed, and for simple lexers printed and read back) and definitions with one planted fault; non-trivial: distinct definition",
		Quick:    160000,
		Thorough: 2000000,
		Run:      runC04,
		Floors:   map[string]int64{"round_trips": 3000, "refused": 5000, "accepted": 3000},
		Assume:   []string{"Go's regexp decides which expressions are valid"},
	})
}

// buildSimple builds the simple lexer from one or several texts or with Add.
func (d *lexDef) buildSimple(t *T, how int) *simplelexer.Lexer {
	var l *simplelexer.Lexer
	var err error
	rules := d.subs[0].rules
	switch how {
	case 0:
		text := d.text(t)
		t.More("definition:\n%s", text)
		l, err = simplelexer.New(text)
	case 1:
		k := t.IntN(len(rules) + 1)
		a := (&lexDef{subs: []*subDef{{rules: rules[:k]}}}).text(t)
		b := (&lexDef{subs: []*subDef{{rules: rules[k:]}}}).text(t)
		t.More("definitions:\n%s\n----\n%s", a, b)
		l, err = simplelexer.New(a, b)
	default:
		k := t.IntN(len(rules) + 1)
		text := (&lexDef{subs: []*subDef{{rules: rules[:k]}}}).text(t)
		t.More("definition:\n%s", text)
		l, err = simplelexer.New(text)
		for _, r := range rules[k:] {
			if err != nil {
				break
			}
			re := regexp.MustCompile(r.expr())
			if t.Chance(0.1) && r.anchored == nil {
				// what the expression matches is up to the expression
				r.longest = true
				re.Longest()
			}
			t.More("Add %q %q %v longest %v", r.kind, r.expr(), r.discard, r.longest)
			err = l.Add(stringsymbol.Symbol(r.kind), re, r.discard)
		}
	}
	if err != nil || l == nil {
		t.Fail("refused", "a valid definition was refused: %v", err)
	}
	return d.configSimple(t, l)
}

func (d *lexDef) configSimple(t *T, l *simplelexer.Lexer) *simplelexer.Lexer {
	if d.byPriority {
		l.ByPriority()
	} else if t.Chance(0.2) {
		l.ByPriority()
		l.ByLength()
	}
	if d.startKind != "" {
		// the lexer is returned for chaining
		if r := l.InsertStart(d.startKind, d.startVal); t.Bool() {
			l = r
		}
	}
	if d.endKind != "" {
		if r := l.InsertEnd(d.endKind, d.endVal); t.Bool() {
			l = r
		}
	}
	if d.errKind != "" {
		l.Error = d.errKind
	}
	t.More("byPriority %v start %q:%q end %q:%q error %q", d.byPriority, d.startKind, d.startVal, d.endKind, d.endVal, d.errKind)
	return l
}

func (d *lexDef) buildStack(t *T) *stacklexer.StackLexer {
	var l *stacklexer.StackLexer
	var err error
	if t.Chance(0.15) && len(d.subs) > 1 {
		k := t.Range(1, len(d.subs)-1)
		a := (&lexDef{stack: true, subs: d.subs[:k]}).text(t)
		b := (&lexDef{stack: true, subs: d.subs[k:]}).text(t)
		t.More("definitions:\n%s\n----\n%s", a, b)
		l, err = stacklexer.New(a, b)
	} else {
		text := d.text(t)
		t.More("definition:\n%s", text)
		l, err = stacklexer.New(text)
	}
	if err != nil || l == nil {
		t.Fail("refused", "a valid definition was refused: %v", err)
	}
	return d.configStack(t, l)
}

func (d *lexDef) configStack(t *T, l *stacklexer.StackLexer) *stacklexer.StackLexer {
	if d.byPriority {
		if r := l.ByPriority(); t.Bool() {
			l = r
		}
	} else if t.Chance(0.2) {
		l = l.ByPriority().ByLength()
	}
	if d.startKind != "" {
		// the lexer is returned for chaining
		if r := l.InsertStart(d.startKind, d.startVal); t.Bool() {
			l = r
		}
	}
	if d.endKind != "" {
		if r := l.InsertEnd(d.endKind, d.endVal); t.Bool() {
			l = r
		}
	}
	if d.errKind != "" {
		l.Error = d.errKind
	}
	t.More("byPriority %v start %q:%q end %q:%q error %q", d.byPriority, d.startKind, d.startVal, d.endKind, d.endVal, d.errKind)
	return l
}

func (t *T) frags() int {
	switch {
	case t.Chance(0.02):
		return 400
	case t.Chance(0.1):
		return 60
	}
	return 14
}

func runC01(t *T) {
	al := t.lexAlpha()
	d := t.simpleDef(al)
	t.Desc("simple lexer")
	l := d.buildSimple(t, t.IntN(4))
	desc := strings.Join(t.desc, "\n")
	for i := t.Range(2, 5); i > 0; i-- {
		in := t.lexInput(al, t.frags())
		ref, st := d.scan(in)
		if d.vague(in, ref) {
			t.Count("skipped_inside_rune", 1)
			continue
		}
		t.Desc("%s\ninput: %q", desc, in)
		ls := t.stripInserted(d, l.Lex(in))
		t.Eval()
		if diff := diffLexemes(d, ls, ref); diff != "" {
			t.Fail("lexemes", "%s", diff)
		}
		if st.discards == 0 {
			var b strings.Builder
			for _, x := range ls {
				b.WriteString(x.Value())
			}
			if b.String() != in {
				t.Fail("lost", "the values concatenate to %q", b.String())
			}
		}
		t.Count("lexemes", len(ls))
		t.Count("discards", st.discards)
		for j, r := range ref {
			if r.err {
				t.Count("error_runs", 1)
				if j > 0 && ref[j-1].err {
					t.Count("adjacent_errors_after_discard", 1)
				}
			} else if d.tie(in, r) {
				t.Count("ties", 1)
			}
		}
		if d.byPriority {
			t.Count("priority_mode", 1)
		}
		if len(ls) > 1 {
			t.Seen(desc, in)
		}
		t.Max("input_bytes", len(in))
	}
	t.Sample("%s", strings.Join(t.desc, "\n"))
}

// tie reports if several rules match the same length there.
func (d *lexDef) tie(in string, r refLexeme) bool {
	n := 0
	for _, x := range d.subs[0].rules {
		if loc := x.compile().FindStringIndex(in[r.start:]); loc != nil && loc[1] == r.end-r.start {
			n++
		}
	}
	return n > 1
}

func runC02(t *T) {
	al := t.lexAlpha()
	first := 0
	var d *lexDef
	var l parlex.Lexer
	t.Desc("")
	if t.Bool() {
		d = t.simpleDef(al)
		l = d.buildSimple(t, t.IntN(4))
	} else {
		d = t.stackDef(al)
		l = d.buildStack(t)
		first = 1
	}
	desc := strings.Join(t.desc, "\n")
	for i := t.Range(2, 5); i > 0; i-- {
		in := t.lexInput(al, t.frags())
		if t.Chance(0.6) { // more newlines
			b := []byte(in)
			for k := range b {
				if t.Chance(0.15) {
					b[k] = '\n'
				}
			}
			in = string(b)
		}
		ref, _ := d.scan(in)
		if d.vague(in, ref) {
			t.Count("skipped_inside_rune", 1)
			continue
		}
		t.Desc("%s\ninput: %q", desc, in)
		ls := l.Lex(in)
		t.Eval()
		if d.startKind != "" && len(ls) > 0 {
			ls = ls[1:]
		}
		if d.endKind != "" && len(ls) > 0 {
			ls = ls[:len(ls)-1]
		}
		if diffLexemes(d, ls, ref) != "" {
			// not what the model expects, which is for C01 and C03 to judge:
			// the positions still have to point at the text
			t.Count("weak", 1)
			t.weakPositions(d, in, ls, first)
			continue
		}
		nl := false
		for j, x := range ls {
			line, col := x.Pos()
			wl, wc := linecol(in, ref[j].start, first)
			if line != wl || col != wc {
				t.Fail("position", "lexeme %d %s comes from offset %d, which is %d:%d\n%s", j, lexString(x), ref[j].start, wl, wc, lexStrings(ls))
			}
			t.Count("positions", 1)
			if ref[j].err {
				t.Count("error_positions", 1)
			}
			if wl > first {
				t.Count("after_newline", 1)
				nl = true
			}
		}
		if nl {
			t.Seen(desc, in)
		}
	}
	t.Sample("%s", strings.Join(t.desc, "\n"))
}

func (t *T) weakPositions(d *lexDef, in string, ls []parlex.Lexeme, first int) {
	groups := map[string]bool{}
	for _, s := range d.subs {
		for _, r := range s.rules {
			if r.groups != nil {
				groups[r.kind] = true
			}
		}
	}
	end := 0
	for j, x := range ls {
		line, col := x.Pos()
		at := offset(in, line, col, first)
		if at < end {
			t.Fail("position", "lexeme %d %s is not at a position after the one before\n%s", j, lexString(x), lexStrings(ls))
		}
		end = at
		if groups[x.Kind().String()] {
			continue
		}
		if !strings.HasPrefix(in[at:], x.Value()) {
			t.Fail("position", "lexeme %d %s is not at its position\n%s", j, lexString(x), lexStrings(ls))
		}
		end += len(x.Value())
	}
}

func runC03(t *T) {
	al := t.lexAlpha()
	d := t.stackDef(al)
	t.Desc("stack lexer")
	l := d.buildStack(t)
	desc := strings.Join(t.desc, "\n")
	for i := t.Range(2, 5); i > 0; i-- {
		in := t.lexInput(al, t.frags())
		ref, st := d.scan(in)
		if d.vague(in, ref) {
			t.Count("skipped_inside_rune", 1)
			continue
		}
		t.Desc("%s\ninput: %q", desc, in)
		ls := t.stripInserted(d, l.Lex(in))
		t.Eval()
		if diff := diffLexemes(d, ls, ref); diff != "" {
			t.Fail("lexemes", "%s", diff)
		}
		t.Count("lexemes", len(ls))
		t.Count("pushes", st.pushes)
		t.Count("pops", st.pops)
		t.Count("multi_pops", st.multiPops)
		t.Count("bottom_pops", st.bottomPops)
		t.Count("fallbacks", st.fallbacks)
		t.Max("depth", st.maxDepth)
		for _, r := range ref {
			if !r.err && r.value != in[r.start:r.end] {
				t.Count("group_values", 1)
			}
		}
		if st.pushes > 0 {
			t.Seen(desc, in)
		}
	}
	t.Sample("%s", strings.Join(t.desc, "\n"))
}

var badRegexes = []string{"(", ")", "[", "*", "+a", "a**", "a{2,1}", `\8`, "(?z)", "[z-a]", "(a", "a)", "[[:foo:]]", `\pZz`, "(?P<n>a)(?P<n>b)", "x{1001}", `\C{`, "?", "a|*", `(?<=a)b`, "(?=a)"}

func runC04(t *T) {
	al := t.lexAlpha()
	if t.Bool() {
		runC04simple(t, al)
	} else {
		runC04stack(t, al)
	}
}

func runC04simple(t *T, al *lexAlpha) {
	d := t.simpleDef(al)
	d.startKind, d.endKind, d.errKind = "", "", ""
	rules := d.subs[0].rules
	if t.Chance(0.5) && len(rules) > 0 {
		// plant a fault
		switch t.IntN(3) {
		case 0:
			r := pick(t, rules)
			r.re = pick(t, badRegexes)
			if _, err := regexp.Compile(r.re); err == nil {
				return
			}
			t.Count("invalid_expressions", 1)
		case 1:
			o := *pick(t, rules)
			if t.Bool() {
				o.re = t.newRegex(al)
			}
			o.discard = t.Bool()
			at := t.IntN(len(rules) + 1)
			rules = append(rules[:at:at], append([]*lexRule{&o}, rules[at:]...)...)
			t.Count("duplicates", 1)
		case 2:
			at := t.IntN(len(rules) + 1)
			k := pick(t, []string{"+", "(", "*x", "[", "a)", "?", "(?", "[b-a]"})
			rules = append(rules[:at:at], append([]*lexRule{{kind: k}}, rules[at:]...)...)
			t.Count("invalid_kinds", 1)
		}
		bad := &lexDef{subs: []*subDef{{rules: rules}}}
		texts := []string{bad.text(t)}
		if t.Chance(0.3) {
			k := t.IntN(len(rules) + 1)
			texts = []string{(&lexDef{subs: []*subDef{{rules: rules[:k]}}}).text(t), (&lexDef{subs: []*subDef{{rules: rules[k:]}}}).text(t)}
		}
		t.Desc("simple lexer definitions: %q", texts)
		l, err := simplelexer.New(texts...)
		t.Eval()
		if err == nil {
			t.Fail("accepted", "a faulty definition was accepted")
		}
		if l != nil {
			t.Fail("accepted", "a lexer was returned with the error %v", err)
		}
		t.Count("refused", 1)
		t.Seen(texts...)
		return
	}
	t.Desc("simple lexer")
	l := d.buildSimple(t, t.IntN(2))
	t.Count("accepted", 1)
	if len(rules) > 0 && t.Chance(0.3) {
		// a rule for a kind that is there is refused and changes nothing
		in := t.lexInput(al, 14)
		print, lexed := l.String(), lexStrings(l.Lex(in))
		k, re := pick(t, rules).kind, regexp.MustCompile(t.newRegex(al))
		err := l.Add(stringsymbol.Symbol(k), re, t.Bool())
		t.Eval()
		if err == nil {
			t.Fail("duplicate", "adding /%s/ for the kind %q, which is defined, was accepted", re, k)
		}
		if got := l.String(); got != print {
			t.Fail("duplicate", "the refused rule changed the lexer to\n%s", got)
		}
		if got := lexStrings(l.Lex(in)); got != lexed {
			t.Fail("duplicate", "the refused rule changed the lexemes of %q from\n%s\nto\n%s", in, lexed, got)
		}
		t.Count("refused_additions", 1)
	}
	text := l.String()
	t.More("printed:\n%s", text)
	l2, err := simplelexer.New(text)
	t.Eval()
	if err != nil || l2 == nil {
		t.Fail("roundtrip", "the printed definition is refused: %v", err)
	}
	if got := l2.String(); got != text {
		t.Fail("roundtrip", "the definition read back prints as\n%s", got)
	}
	if d.byPriority {
		l2.ByPriority()
	}
	desc := strings.Join(t.desc, "\n")
	for i := 0; i < 4; i++ {
		in := t.lexInput(al, 14)
		ref, _ := d.scan(in)
		t.Desc("%s\ninput: %q", desc, in)
		a, b := lexStrings(l.Lex(in)), lexStrings(l2.Lex(in))
		t.Eval()
		if a != b {
			t.Fail("roundtrip", "the original gives\n%s\nthe copy\n%s", a, b)
		}
		if d.vague(in, ref) {
			continue
		}
		if diff := diffLexemes(d, l.Lex(in), ref); diff != "" {
			t.Fail("rules", "not every rule is implemented: %s", diff)
		}
	}
	t.Count("round_trips", 1)
	t.Seen(text)
	t.Sample("%s", desc)
}

func runC04stack(t *T, al *lexAlpha) {
	d := t.stackDef(al)
	d.startKind, d.endKind, d.errKind = "", "", ""
	fault := ""
	if t.Chance(0.65) {
		var own []*lexRule
		for _, s := range d.subs {
			for _, r := range s.rules {
				if r.inherit == "" {
					own = append(own, r)
				}
			}
		}
		first := map[*lexRule]bool{} // rules that are not repeated kinds
		for _, s := range d.subs {
			for _, r := range d.flat(s) {
				first[r] = true
			}
		}
		r := pick(t, own)
		if !first[r] {
			return
		}
		switch t.IntN(8) {
		case 0:
			fault = "expression"
			r.re, r.groups = pick(t, badRegexes), nil
			if _, err := regexp.Compile(r.re); err == nil {
				return
			}
		case 1:
			fault = "cycle"
			n := t.Range(1, len(d.subs))
			p := t.Perm(len(d.subs))[:n]
			for i := range p {
				s := d.subs[p[i]]
				at := t.IntN(len(s.rules) + 1)
				s.rules = append(s.rules[:at:at], append([]*lexRule{{inherit: d.subs[p[(i+1)%n]].name}}, s.rules[at:]...)...)
			}
		case 2:
			fault = "push"
			r.pop, r.push = 0, pick(t, []string{"Nowhere", "main", "Mai", "MainX", "x_"})
		case 3:
			fault = "group"
			if r.re == "" {
				r.re = "(a)b"
			}
			n := regexp.MustCompile(r.re).NumSubexp()
			bad := grp{n: n + 1 + t.IntN(2)*t.IntN(100)}
			at := t.IntN(len(r.groups) + 1)
			r.groups = append(r.groups[:at:at], append([]grp{bad}, r.groups[at:]...)...)
		case 4:
			fault = "none"
			text := pick(t, []string{"", "\n", "a /a/\n", "= Main =\n a\n", "== Main ==", "Main\n a\n", "// x"})
			t.Desc("stack lexer definition: %q", text)
			t.refusedStack(text)
			return
		case 5:
			fault = "none"
			t.Desc("stack lexer without definitions")
			t.refusedStack()
			return
		case 6:
			fault = "kind"
			s := pick(t, d.subs)
			at := t.IntN(len(s.rules) + 1)
			s.rules = append(s.rules[:at:at], append([]*lexRule{{kind: pick(t, []string{"+", "(", "*x", "[", "a)", "?", "[b-a]"})}}, s.rules[at:]...)...)
			for _, o := range d.subs {
				for _, x := range o.rules {
					if x != s.rules[at] && x.kind == s.rules[at].kind {
						return
					}
				}
			}
		case 7:
			fault = "duplicate"
			o := *pick(t, d.subs)
			d.subs = append(d.subs, &o)
		}
		var texts []string
		if len(d.subs) > 1 && t.Chance(0.3) {
			k := t.Range(1, len(d.subs)-1)
			texts = []string{(&lexDef{stack: true, subs: d.subs[:k]}).text(t), (&lexDef{stack: true, subs: d.subs[k:]}).text(t)}
		} else {
			texts = []string{d.text(t)}
		}
		t.Desc("stack lexer definitions with a fault (%s):", fault)
		for _, x := range texts {
			t.More("%s\n----", x)
		}
		t.refusedStack(texts...)
		t.Count("fault_"+fault, 1)
		return
	}
	t.Desc("stack lexer")
	l := d.buildStack(t)
	t.Count("accepted", 1)
	desc := strings.Join(t.desc, "\n")
	for i := 0; i < 3; i++ {
		in := t.lexInput(al, 14)
		ref, _ := d.scan(in)
		if d.vague(in, ref) {
			continue
		}
		t.Desc("%s\ninput: %q", desc, in)
		t.Eval()
		if diff := diffLexemes(d, l.Lex(in), ref); diff != "" {
			t.Fail("rules", "not every rule is implemented: %s", diff)
		}
	}
	t.Seen(desc)
}

func (t *T) refusedStack(texts ...string) {
	l, err := stacklexer.New(texts...)
	t.Eval()
	if err == nil {
		t.Fail("accepted", "a faulty definition was accepted")
	}
	if l != nil {
		t.Fail("accepted", "a lexer was returned with the error %v", err)
	}
	t.Count("refused", 1)
	t.Seen(fmt.Sprintf("%q", texts))
}
