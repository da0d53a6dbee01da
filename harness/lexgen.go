package main

import (
	"fmt"
	"regexp"
	"strings"

	"github.com/adamcolton/parlex"
)

// Models of the two lexers: the definition as data, its text, and a scanner
// that tries every rule at every position. They share no code with the lexers.

type lexRule struct {
	kind     string
	re       string // "" if the kind is the expression
	groups   []grp  // nil if the value is the whole match
	push     string
	pop      int
	discard  bool
	inherit  string // name of a sub-lexer, the rest is not used
	anchored *regexp.Regexp
	any      bool // can match any rune
	longest  bool // the expression prefers the longest match
}

type grp struct {
	lit bool
	str string
	n   int
}

func (r *lexRule) expr() string {
	if r.re == "" {
		return r.kind
	}
	return r.re
}

func (r *lexRule) compile() *regexp.Regexp {
	if r.anchored == nil {
		r.anchored = regexp.MustCompile(`\A(?:` + r.expr() + `)`)
		if r.longest {
			r.anchored.Longest()
		}
	}
	return r.anchored
}

// text of the rule as one line.
func (r *lexRule) text(t *T) string {
	sp := func() string { return pick(t, []string{" ", "  ", "\t", " \t "}) }
	opt := func() string { return pick(t, []string{"", " ", "   "}) }
	if r.inherit != "" {
		return opt() + r.inherit
	}
	s := opt() + r.kind
	if r.re != "" {
		s += sp() + "/" + r.re + "/"
		if r.groups != nil {
			var gs []string
			for _, g := range r.groups {
				if g.lit {
					gs = append(gs, `"`+g.str+`"`)
				} else {
					gs = append(gs, pick(t, []string{"", "", "", "0", "00"})+fmt.Sprint(g.n))
				}
			}
			s += opt() + "(" + strings.Join(gs, pick(t, []string{"|", " | ", "| "})) + ")"
		}
	}
	if r.pop > 0 {
		s += sp() + strings.Repeat("^", r.pop)
	}
	if r.push != "" {
		s += sp() + r.push
	}
	if r.discard {
		s += sp() + "-"
	}
	return s + opt()
}

// refLexeme is what the model expects.
type refLexeme struct {
	kind, value string
	start, end  int
	err         bool
	depth       int
}

func (r refLexeme) String() string {
	if r.err {
		return fmt.Sprintf("ERR:%q", r.value)
	}
	return fmt.Sprintf("%q:%q", r.kind, r.value)
}

// match finds the rule for a position, or nil.
func matchRule(rules []*lexRule, in string, at int, byPriority bool) (*lexRule, []int) {
	var best *lexRule
	var bestLoc []int
	for _, r := range rules {
		loc := r.compile().FindStringSubmatchIndex(in[at:])
		if loc == nil || loc[1] == 0 {
			continue
		}
		if best == nil || (!byPriority && loc[1] > bestLoc[1]) {
			best, bestLoc = r, loc
		}
	}
	return best, bestLoc
}

func (r *lexRule) value(text string, loc []int) string {
	if r.groups == nil {
		return text[:loc[1]]
	}
	v := ""
	for _, g := range r.groups {
		if g.lit {
			v += g.str
		} else if loc[2*g.n] >= 0 {
			v += text[loc[2*g.n]:loc[2*g.n+1]]
		}
	}
	return v
}

// lexDef is the definition of a lexer of either sort.
type lexDef struct {
	stack      bool
	subs       []*subDef // one for a simple lexer
	byPriority bool
	startKind  string
	startVal   string
	endKind    string
	endVal     string
	errKind    string // "" for the default
}

type subDef struct {
	name  string
	rules []*lexRule
}

func (d *lexDef) sub(name string) *subDef {
	for _, s := range d.subs {
		if s.name == name {
			return s
		}
	}
	return nil
}

// flat resolves inheritance: rules in order, the first rule of a kind counts.
func (d *lexDef) flat(s *subDef) []*lexRule {
	var out []*lexRule
	seen := map[string]bool{}
	var add func(s *subDef)
	add = func(s *subDef) {
		for _, r := range s.rules {
			if r.inherit != "" {
				// the rules that the other sub-lexer has of its own
				for _, o := range d.flat(d.sub(r.inherit)) {
					if !seen[o.kind] {
						seen[o.kind] = true
						out = append(out, o)
					}
				}
				continue
			}
			if !seen[r.kind] {
				seen[r.kind] = true
				out = append(out, r)
			}
		}
	}
	add(s)
	return out
}

type scanStats struct {
	pushes, pops, fallbacks, multiPops, bottomPops, maxDepth, ties, discards int
}

// scan is the reference for Lex, without the inserted lexemes.
func (d *lexDef) scan(in string) ([]refLexeme, scanStats) {
	flat := map[*subDef][]*lexRule{}
	for _, s := range d.subs {
		flat[s] = d.flat(s)
	}
	var out []refLexeme
	var st scanStats
	errAt := -1
	flush := func(at int) {
		if errAt >= 0 {
			out = append(out, refLexeme{value: in[errAt:at], start: errAt, end: at, err: true})
			errAt = -1
		}
	}
	stack := []*subDef{d.subs[0]}
	at := 0
	for at < len(in) {
		cur := stack[len(stack)-1]
		r, loc := matchRule(flat[cur], in, at, d.byPriority)
		if r == nil {
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
				st.fallbacks++
				continue
			}
			if errAt < 0 {
				errAt = at
			}
			at++
			continue
		}
		flush(at)
		if r.discard {
			st.discards++
		} else {
			out = append(out, refLexeme{kind: r.kind, value: r.value(in[at:], loc), start: at, end: at + loc[1], depth: len(stack)})
		}
		at += loc[1]
		if r.pop > 0 {
			st.pops++
			if r.pop > 1 {
				st.multiPops++
			}
			n := len(stack) - r.pop
			if n < 1 {
				n = 1
				st.bottomPops++
			}
			stack = stack[:n]
		} else if r.push != "" {
			st.pushes++
			stack = append(stack, d.sub(r.push))
		}
		if len(stack) > st.maxDepth {
			st.maxDepth = len(stack)
		}
	}
	flush(len(in))
	return out, st
}

// vague reports if the scan has an error run with other than ASCII bytes while
// a rule can match any rune. What such a rule matches from within a rune is not
// specified.
func (d *lexDef) vague(in string, ref []refLexeme) bool {
	any := false
	for _, s := range d.subs {
		for _, r := range s.rules {
			any = any || r.any
		}
	}
	if !any {
		return false
	}
	for _, l := range ref {
		if l.err {
			for i := 0; i < len(l.value); i++ {
				if l.value[i] >= 0x80 {
					return true
				}
			}
		}
	}
	return false
}

// linecol of an offset.
func linecol(in string, at, first int) (int, int) {
	return first + strings.Count(in[:at], "\n"), at - strings.LastIndex(in[:at], "\n")
}

// offset finds the offset of a position, or -1.
func offset(in string, line, col, first int) int {
	at := 0
	for ; line > first; line-- {
		i := strings.IndexByte(in[at:], '\n')
		if i < 0 {
			return -1
		}
		at += i + 1
	}
	at += col - 1
	if line < first || col < 1 || at > len(in) {
		return -1
	}
	return at
}

// text of the definition.
func (d *lexDef) text(t *T) string {
	nl := "\n"
	if t.Chance(0.1) {
		nl = "\r\n"
	}
	var b strings.Builder
	if t.Bool() {
		b.WriteString(nl)
	}
	for _, s := range d.subs {
		if d.stack {
			b.WriteString(pick(t, []string{"== ", "==", "  == ", "==\t"}) + s.name + pick(t, []string{" ==", "==", "", " "}) + nl)
		}
		for _, r := range s.rules {
			b.WriteString(r.text(t) + nl)
			if t.Chance(0.1) {
				b.WriteString(nl)
			}
		}
	}
	return b.String()
}

// generators

type lexAlpha struct {
	lits  []string // literals as expressions
	frags []string // pieces of input
	any   bool
}

var asciiAlpha = lexAlpha{
	lits:  []string{"a", "b", "c", "x", "0", "1", " ", `\n`, `\(`, `\)`, `"`, `\/`, `\.`, "ab", "abc", `\+`, "-", `\{`, ":"},
	frags: []string{"a", "b", "c", "x", "0", "1", "12", " ", "\n", "(", ")", "\"", "/", ".", "ab", "abc", "+", "-", "{", "aa", "  ", "\n\n", "\"ab c\"", "if", "ifa", "//ab\n", "xab", ":", "a.b", "0.1", "\r\n", "\t", "\f", "\v", "\r", "\x00", "\u2028"},
	any:   true,
}

var utf8Alpha = lexAlpha{
	lits:  []string{"a", "b", "é", "日", `\n`, " ", "é日", "1", "ß", "ab"},
	frags: []string{"a", "b", "é", "日", "\n", " ", "é日", "1", "ß", "ab", "日本", "\xff", "\xe6\x97", "\xa9", "\u00a0", "e\u0301", "\u2028", "\u2029", "\u0085", "\ufeff", "\U0001F600"},
	any:   true,
}

// regex makes a random expression without assertions; newRegex may add one at
// the end.
func (t *T) regex(al *lexAlpha, depth int) string {
	atom := func() string {
		switch n := t.IntN(20); {
		case n < 9 || depth <= 0 && n < 13:
			return pick(t, al.lits)
		case n < 13:
			return pick(t, []string{"(", "(?:"}) + t.regex(al, depth-1) + ")"
		case n < 17:
			return pick(t, []string{"[ab]", "[a-c]", `\d`, `\w`, `\s`, "[01]", "[xyz]", "[ab\\n]", "[A-Za-z_]"})
		case n < 19 && al.any:
			return pick(t, []string{".", "[^a]", `[^\n]`, `[^"]`, `\S`, `\W`, `(?s:.)`})
		}
		return pick(t, al.lits)
	}
	n := 1 + t.IntN(3)
	parts := make([]string, n)
	for i := range parts {
		a := atom()
		if t.Chance(0.35) {
			if len(a) > 1 && a[0] != '[' && a[0] != '(' && !(len(a) == 2 && a[0] == '\\') {
				a = "(?:" + a + ")"
			}
			a += pick(t, []string{"*", "+", "?", "+", "{2}", "{1,3}", "*?", "+?", "??"})
		}
		parts[i] = a
	}
	s := strings.Join(parts, "")
	if t.Chance(0.2) && depth > 0 {
		s = s + "|" + t.regex(al, depth-1)
	}
	if t.Chance(0.04) {
		s = "(?i:" + s + ")"
	}
	return s
}

var realRegexes = []string{
	`\d+`, `[a-z]+`, `\s+`, `"[^"]*"`, "if", "ifa", `\w+`, `\/\/[^\n]*`, `\(`, `\)`, `[+\-*\/]`, `\d*\.?\d+`, `(?:ab)+`,
	"a|ab|abc", "abc|ab|a", "a*", "b?", `[ \t]+`, `[\n\r]\s*`, `\"([^\"\\]|(\\.))*\"`, "a+?", "(a|b)*c", `[^\s]+`, `\n`, "ab", "a", "(true)|(false)",
}

var anyRe = regexp.MustCompile(`(^|[^\\])\.|\[\^|\\S|\\W|\\D|\(\?s|\(\?i`)

func canMatchAny(re string) bool { return anyRe.MatchString(re) }

func (t *T) newRegex(al *lexAlpha) string {
	for {
		re := pick(t, realRegexes)
		if t.Chance(0.6) {
			re = t.regex(al, 2)
		}
		if strings.HasSuffix(re, `\`) {
			continue
		}
		if t.Chance(0.04) {
			// what may follow; it has to look back only at the match itself
			if e, err := regexp.Compile(`\A(?:` + re + `)\z`); err == nil && !e.MatchString("") {
				re = "(?:" + re + ")" + pick(t, []string{`\b`, `\b`, `$`, `(?m:$)`, `\B`, `\z`, `(?:\b|a)`})
			}
		}
		if _, err := regexp.Compile(re); err == nil {
			return re
		}
	}
}

var kindNames = [][]string{
	{"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"},
	{"num", "word", "space", "op", "lp", "rp", "str", "nl", "other", "id", "kw", "dot"},
	{"a", "b", "ab", "abc", "x", "0", "1", "a+", "[ab]", "b?", "x|a", "12"},
	{"Error", "err", "E", "-", "^", "+k", "(", "é", "日", "$", "k%d", "%"},
	{"a", "é", "word-", "-word", "k1", "k2", "k10", "K1", "k_", "_", "'", "\""},
}

var longNames = []string{longName(0), longName(3), longName(1), longName(4), longName(2), longName(5)}

func (t *T) kinds(n int) []string {
	f := pick(t, kindNames)
	if t.Chance(0.01) {
		f = longNames
	}
	p := t.Perm(len(f))
	out := []string{}
	for i := 0; i < n; i++ {
		k := f[p[i%len(f)]]
		if i >= len(f) {
			k += fmt.Sprint(i)
		}
		out = append(out, k)
	}
	return out
}

func (t *T) rule(al *lexAlpha, kind string) *lexRule {
	r := &lexRule{kind: kind, discard: t.Chance(0.2)}
	// ^ and $ are assertions
	if _, err := regexp.Compile(kind); err != nil || strings.ContainsAny(kind, "^$") || t.Chance(0.8) {
		r.re = t.newRegex(al)
	}
	r.any = canMatchAny(r.expr())
	return r
}

func (t *T) lexAlpha() *lexAlpha {
	al := asciiAlpha
	if t.Chance(0.2) {
		al = utf8Alpha
	}
	al.frags = append([]string(nil), al.frags...)
	return &al
}

// wideRules makes so many rules that most are never used. The alphabet gets
// some of their words.
func (t *T) wideRules(al *lexAlpha, prefix string, n int) []*lexRule {
	var out []*lexRule
	step := t.Range(1, 9)
	for i := 0; i < n; i++ {
		r := &lexRule{kind: fmt.Sprintf("%s%d", prefix, i), discard: t.Chance(0.1)}
		switch {
		case t.Chance(0.05):
			r.re = t.newRegex(al)
		case t.Chance(0.5):
			r.re = fmt.Sprintf("q%d", i*step)
		case t.Chance(0.3):
			r.re = fmt.Sprintf("q%d.", i)
		case t.Chance(0.2):
			r.re = fmt.Sprintf("q%d*", i)
		default:
			r.re = fmt.Sprintf("q0*%d", i)
		}
		r.any = canMatchAny(r.expr())
		out = append(out, r)
	}
	for i := 0; i < 60; i++ {
		al.frags = append(al.frags, fmt.Sprintf("q%d", t.IntN(n*step)))
	}
	t.Count("wide_rule_sets", 1)
	return out
}

// simpleDef makes a definition for the simple lexer.
func (t *T) simpleDef(al *lexAlpha) *lexDef {
	n := t.Range(1, 6)
	switch {
	case t.Chance(0.03):
		n = 0
	case t.Chance(0.05):
		n = t.Size(7, 60)
	}
	d := &lexDef{subs: []*subDef{{}}}
	for _, k := range t.kinds(n) {
		d.subs[0].rules = append(d.subs[0].rules, t.rule(al, k))
	}
	if t.Chance(0.004) {
		at := t.IntN(len(d.subs[0].rules) + 1)
		wide := t.wideRules(al, "wide", t.Range(60, 300))
		d.subs[0].rules = append(d.subs[0].rules[:at:at], append(wide, d.subs[0].rules[at:]...)...)
	}
	t.lexMode(d)
	return d
}

func (t *T) lexMode(d *lexDef) {
	d.byPriority = t.Chance(0.35)
	if t.Chance(0.2) {
		d.startKind, d.startVal = "startKind", pick(t, []string{"", "\n", "s", "a\nb", "é\xff"})
		if t.Chance(0.3) {
			d.startKind = pick(t, []string{"A", "a", "Error", "word", " ", "é", "\n"})
		}
	}
	if t.Chance(0.2) {
		d.endKind, d.endVal = "endKind", pick(t, []string{"", "\n", "e", "a\nb", "é\xff"})
		if t.Chance(0.3) {
			d.endKind = pick(t, []string{"A", "a", "Error", "word", " ", "é", "startKind"})
		}
	}
	if t.Chance(0.2) {
		d.errKind = pick(t, []string{"Oops", "A", "a", "Error", "E"})
	}
}

// stackDef makes a definition for the stack lexer.
func (t *T) stackDef(al *lexAlpha) *lexDef {
	names := []string{"Main", "Inner", "Shared", "Str", "Deep", "L_2", "_x", "Main2"}
	t.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	if t.Chance(0.01) {
		for i, n := range longNames[2:] {
			names[i] = "Sub" + n // bare names of lexers are inheritance
		}
	}
	n := t.Range(1, 5)
	if t.Chance(0.01) {
		n = t.Size(6, 40)
		for i := len(names); i < n; i++ {
			names = append(names, fmt.Sprintf("Sub%d", i))
		}
		t.Count("many_sub_lexers", 1)
	}
	pInherit := 0.3
	if n > 5 {
		pInherit = 0.08
	}
	d := &lexDef{stack: true}
	names = names[:n]
	all, most := t.kinds(8), 5
	if t.Chance(0.02) {
		most = t.Size(6, 40)
		all = t.kinds(most + 3)
	}
	rank := t.Perm(n) // a sub-lexer inherits only from those of higher rank
	for i, name := range names {
		s := &subDef{name: name}
		own := append([]string(nil), all...)
		t.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
		for _, k := range own[:t.Range(1, most)] {
			r := t.rule(al, k)
			if r.re != "" {
				if g := regexp.MustCompile(r.re).NumSubexp(); t.Chance(0.35) {
					m := t.Range(1, 3)
					if t.Chance(0.03) {
						m = t.Size(4, 20)
					}
					for ; m > 0; m-- {
						if t.Chance(0.3) {
							r.groups = append(r.groups, grp{lit: true, str: pick(t, []string{":", "", "x y", "|", "1", " ", "é", "a|b", "%d", "100%%", "%"})})
						} else {
							r.groups = append(r.groups, grp{n: t.IntN(g + 1)})
						}
					}
				}
			}
			switch {
			case t.Chance(0.3):
				r.push = pick(t, names)
			case t.Chance(0.25):
				r.pop = 1
				if t.Chance(0.3) {
					r.pop = t.Range(2, 4)
					if t.Chance(0.03) {
						r.pop = t.Size(4, 40)
					}
				}
			}
			s.rules = append(s.rules, r)
			if t.Chance(0.1) { // the same kind again, without effect
				o := t.rule(al, k)
				s.rules = append(s.rules, o)
			}
		}
		for j := range names {
			if rank[j] > rank[i] && t.Chance(pInherit) {
				at := t.IntN(len(s.rules) + 1)
				s.rules = append(s.rules[:at], append([]*lexRule{{inherit: names[j]}}, s.rules[at:]...)...)
				if t.Chance(0.1) {
					s.rules = append(s.rules, &lexRule{inherit: names[j]})
				}
			}
		}
		if t.Chance(0.001) {
			at := t.IntN(len(s.rules) + 1)
			wide := t.wideRules(al, pick(t, []string{"wide", "other"}), t.Range(60, 200))
			for _, r := range wide {
				if t.Chance(0.1) {
					r.push = pick(t, names)
				}
			}
			s.rules = append(s.rules[:at:at], append(wide, s.rules[at:]...)...)
		}
		d.subs = append(d.subs, s)
	}
	t.lexMode(d)
	return d
}

// lexInput makes a text, often one that rules match.
func (t *T) lexInput(al *lexAlpha, maxFrags int) string {
	n := t.IntN(maxFrags + 1)
	if t.Chance(0.01) {
		n = t.Size(10, 300)
	}
	var b strings.Builder
	few := al.frags
	if t.Chance(0.5) {
		k := t.Range(2, 6)
		few = nil
		for i := 0; i < k; i++ {
			few = append(few, pick(t, al.frags))
		}
	}
	for i := 0; i < n; i++ {
		if t.Chance(0.02) {
			b.WriteByte(byte(t.IntN(256)))
			continue
		}
		b.WriteString(pick(t, few))
	}
	if t.Chance(0.1) && len(t.desc) > 0 {
		// words and lines of the definition itself
		desc := strings.Join(t.desc, "\n")
		words := strings.Fields(desc)
		if t.Bool() {
			words = strings.SplitAfter(desc, "\n")
		}
		for k := t.Range(1, 3); k > 0 && len(words) > 0; k-- {
			if w := pick(t, words); len(w) < 200 {
				b.WriteString(w + pick(t, []string{"", " ", "\n"}) + pick(t, few))
			}
		}
	}
	if t.Chance(0.002) {
		return t.longInput(b.String(), few)
	}
	return b.String()
}

// longInput surrounds an input with long uniform stretches and long mixed ones.
func (t *T) longInput(in string, frags []string) string {
	var b strings.Builder
	b.WriteString(in)
	for size := t.Range(2000, 9000); b.Len() < size; {
		switch t.IntN(3) {
		case 0:
			f := pick(t, frags)
			b.WriteString(strings.Repeat(f, t.Range(1, 1+5000/(1+len(f)))))
		case 1:
			for k := t.IntN(400); k > 0; k-- {
				b.WriteString(pick(t, frags))
			}
		default:
			b.WriteString(in)
			b.WriteString(pick(t, frags))
		}
	}
	b.WriteString(in)
	t.Count("long_inputs", 1)
	return b.String()
}

// inserted strips the lexemes that the definition inserts and checks them.
func (t *T) stripInserted(d *lexDef, ls []parlex.Lexeme) []parlex.Lexeme {
	if d.startKind != "" {
		if len(ls) == 0 || ls[0].Kind().String() != d.startKind || ls[0].Value() != d.startVal {
			t.Fail("insert", "the start lexeme %q:%q is not first: %s", d.startKind, d.startVal, lexStrings(ls))
		}
		ls = ls[1:]
	}
	if d.endKind != "" {
		n := len(ls)
		if n == 0 || ls[n-1].Kind().String() != d.endKind || ls[n-1].Value() != d.endVal {
			t.Fail("insert", "the end lexeme %q:%q is not last: %s", d.endKind, d.endVal, lexStrings(ls))
		}
		ls = ls[:n-1]
	}
	return ls
}

// diffLexemes compares without positions and returns "" if equal.
func diffLexemes(d *lexDef, ls []parlex.Lexeme, ref []refLexeme) string {
	want := func() string {
		s := make([]string, len(ref))
		for i, r := range ref {
			s[i] = r.String()
		}
		return strings.Join(s, " ")
	}
	if len(ls) != len(ref) {
		return fmt.Sprintf("%d lexemes, expected %d\n got %s\nwant %s", len(ls), len(ref), lexStrings(ls), want())
	}
	for i, l := range ls {
		_, isErr := l.(parlex.LexError)
		kind := ref[i].kind
		if ref[i].err {
			kind = d.errKind
			if kind == "" {
				kind = "Error"
			}
		}
		if isErr != ref[i].err || l.Value() != ref[i].value || l.Kind().String() != kind {
			return fmt.Sprintf("lexeme %d is %s, expected %s\n got %s\nwant %s", i, lexString(l), ref[i], lexStrings(ls), want())
		}
	}
	return ""
}
