package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/adamcolton/parlex/examples/parlexjson"
	"github.com/adamcolton/parlex/examples/parlexmath"
)

func init() {
	register(&Prop{
		ID:       "C23",
		Rule:     "random JSON documents in random layout and random expressions, and both with a planted fault, given to the library and, in some cases, to the programs as processes; oracles: encoding/json, a JSON tokenizer, an evaluator that walks the expression as generated; non-trivial: distinct text of at least 3 tokens",
		Quick:    400000,
		Thorough: 1500000,
		Run:      runC23,
		Floors:   map[string]int64{"documents": 7000, "expressions": 7000, "refused_documents": 2000, "refused_expressions": 2000, "program_expressions": 1000, "program_documents": 1000},
		Assume:   []string{"numbers in JSON documents have neither a sign nor an exponent, which is all the example supports; signs in expressions stand directly before a number"},
	})
}

// jsonDoc writes a document as tokens.
func (t *T) jsonDoc(depth int, out *[]string) {
	if depth > 0 && t.Chance(0.55) {
		n := t.IntN(4)
		if t.Chance(0.03) {
			n = t.IntN(40)
		}
		if depth == 1 && t.Chance(0.005) {
			n = t.Size(10, 400)
		}
		if t.Bool() {
			*out = append(*out, "[")
			for i := 0; i < n; i++ {
				if i > 0 {
					*out = append(*out, ",")
				}
				t.jsonDoc(depth-1, out)
			}
			*out = append(*out, "]")
			return
		}
		*out = append(*out, "{")
		for i := 0; i < n; i++ {
			if i > 0 {
				*out = append(*out, ",")
			}
			*out = append(*out, t.jsonString(), ":")
			t.jsonDoc(depth-1, out)
		}
		*out = append(*out, "}")
		return
	}
	switch t.IntN(6) {
	case 0:
		*out = append(*out, "true")
	case 1:
		*out = append(*out, "false")
	case 2:
		*out = append(*out, "null")
	case 3:
		if t.Chance(0.01) {
			n := strings.Repeat("1234567890", t.Range(5, 300))
			if t.Bool() {
				n += "." + n
			}
			*out = append(*out, n)
			return
		}
		*out = append(*out, pick(t, []string{"0", "1", "10", "0.5", "123456789012345678901234567890", "3.14159", "100", "0.0", "7.000", "9.25", "1.10", "10.0", "0.10"}))
	default:
		*out = append(*out, t.jsonString())
	}
}

func (t *T) jsonString() string {
	var b strings.Builder
	b.WriteByte('"')
	i := t.IntN(6)
	if t.Chance(0.01) {
		i = t.Size(6, 1000)
	}
	for ; i > 0; i-- {
		b.WriteString(pick(t, []string{"a", "B", " ", "  ", "0", "{", "}", "[", "]", ",", ":", "null", "true", "é", "日", "\U0001F600",
			`\"`, `\\`, `\n`, `\t`, `\/`, `\b`, `\u00e9`, `\ud83d\ude00`, "'", "//", "-", "%d", "\u2028", "\u00a0"}))
	}
	b.WriteByte('"')
	return b.String()
}

func wordy(s string) bool {
	c := s[len(s)-1]
	d := s[0]
	isw := func(c byte) bool { return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c == '.' }
	return isw(c) && isw(d)
}

// layout joins tokens with random white space. Words are kept apart.
func (t *T) layout(toks []string) string {
	sp := pick(t, [][]string{{""}, {" "}, {"", " ", "\n", "\t", "\r\n", "  \n  "}, {"\n"}})
	var b strings.Builder
	b.WriteString(pick(t, sp))
	for i, k := range toks {
		if i > 0 {
			s := pick(t, sp)
			if s == "" && wordy(toks[i-1]) && wordy(k) {
				s = " "
			}
			b.WriteString(s)
		}
		b.WriteString(k)
	}
	b.WriteString(pick(t, sp))
	return b.String()
}

// jsonTokens splits a text into tokens, or returns nil if it cannot.
func jsonTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.IndexByte("[]{},:", c) >= 0:
			out = append(out, s[i:i+1])
			i++
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && strings.IndexByte(" \n\t\r[]{},:\"", s[j]) < 0 {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

func runC23(t *T) {
	if t.Chance(0.008) {
		if t.Bool() {
			t.mathProgram()
		} else {
			t.jsonProgram()
		}
		return
	}
	if t.Bool() {
		runC23json(t)
	} else {
		runC23math(t)
	}
}

func runC23json(t *T) {
	var toks []string
	t.jsonDoc(t.IntN(5), &toks)
	if t.Chance(0.01) { // deep
		n := t.Range(20, 150)
		inner := toks
		toks = nil
		for i := 0; i < n; i++ {
			toks = append(toks, "[")
		}
		toks = append(toks, inner...)
		for i := 0; i < n; i++ {
			toks = append(toks, "]")
		}
	}
	if t.Chance(0.7) {
		text := t.layout(toks)
		t.Desc("document: %q", text)
		if !json.Valid([]byte(text)) {
			panic("the generator made an invalid document: " + text)
		}
		got, err := parlexjson.Format(text)
		t.Eval()
		if err != nil {
			t.Fail("accept", "the document is refused: %v", err)
		}
		if !json.Valid([]byte(got)) {
			t.Fail("format", "the result is not JSON: %q", got)
		}
		if g := jsonTokens(got); !equalStrings(g, toks) {
			t.Fail("format", "the result %q has other tokens\n got %q\nwant %q", got, g, toks)
		}
		var a, b bytes.Buffer
		json.Compact(&a, []byte(text))
		json.Compact(&b, []byte(got))
		if a.String() != b.String() {
			t.Fail("format", "the result %q means something else", got)
		}
		again, err := parlexjson.Format(got)
		if err != nil || again != got {
			t.Fail("idempotent", "formatting again gives %q, %v", again, err)
		}
		// the layout of the input has no effect
		if other, err := parlexjson.Format(t.layout(toks)); err != nil || other != got {
			t.Fail("layout", "the same tokens in another layout give %q, %v", other, err)
		}
		t.Count("documents", 1)
		t.Max("tokens", len(toks))
		if len(toks) > 2 {
			t.Seen("json", got)
		}
		t.Sample("%q -> %q", text, got)
		return
	}
	// plant a fault in the tokens; what remains valid is left out
	bad := append([]string(nil), toks...)
	for k := t.Range(1, 2); k > 0; k-- {
		i := t.IntN(len(bad))
		switch t.IntN(6) {
		case 0:
			bad = append(bad[:i], bad[i+1:]...)
		case 1:
			bad = append(bad[:i], append([]string{pick(t, []string{",", ":", "[", "]", "{", "}", "true", "1", `"s"`, "null"})}, bad[i:]...)...)
		case 2:
			bad[i] = pick(t, []string{",", ":", "[", "]", "{", "}", "true", "1", `"s"`, "null"})
		case 3:
			j := t.IntN(len(bad))
			bad[i], bad[j] = bad[j], bad[i]
		case 4:
			bad = bad[:i]
		case 5:
			bad[i] = pick(t, []string{`"open`, "tru", "'s'", "?", "#", "undefined", "é", "nul", "/", `\`, "a"})
		}
		if len(bad) == 0 {
			break
		}
	}
	text := ""
	if len(bad) > 0 {
		text = t.layout(bad)
	}
	if json.Valid([]byte(text)) {
		t.Count("fault_without_effect", 1)
		return
	}
	t.Desc("malformed document: %q", text)
	got, err := parlexjson.Format(text)
	t.Eval()
	if err == nil {
		t.Fail("refuse", "the text is accepted and gives %q", got)
	}
	if got != "" {
		t.Fail("refuse", "an error comes with the text %q", got)
	}
	t.Count("refused_documents", 1)
}

// mexpr is an expression.
type mexpr struct {
	op   string // "" for a number
	sign string
	num  string
	val  float64
	a, b *mexpr
}

func (t *T) mexpr(depth int) *mexpr {
	if depth == 0 || t.Chance(0.15) {
		e := &mexpr{}
		e.num = pick(t, []string{"0", "1", "2", "3", "7", "10", "0.5", ".25", "12.5", "100", "3.1", "007", "1.50"})
		switch {
		case t.Chance(0.1):
			e.num = strconv.Itoa(t.IntN(100000))
		case t.Chance(0.1):
			e.num = fmt.Sprintf("%d.%03d", t.IntN(1000), t.IntN(1000))
		case t.Chance(0.005):
			e.num = strings.Repeat(pick(t, []string{"0", "1", "98765"}), t.Range(5, 60))
			if t.Bool() {
				e.num += "." + strings.Repeat("14", t.Range(1, 40))
			}
			if t.Chance(0.3) { // beyond the largest number
				e.num = "9" + strings.Repeat("5", t.Range(300, 330))
			}
		}
		e.val, _ = strconv.ParseFloat(e.num, 64)
		if t.Chance(0.2) {
			e.sign = pick(t, []string{"-", "+"})
		}
		return e
	}
	return &mexpr{op: pick(t, []string{"+", "-", "*", "/"}), a: t.mexpr(depth - 1), b: t.mexpr(depth - 1)}
}

func (e *mexpr) eval() float64 {
	if e.op == "" {
		if e.sign == "-" {
			return -e.val
		}
		return e.val
	}
	a, b := e.a.eval(), e.b.eval()
	switch e.op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	}
	return a / b
}

func (e *mexpr) prec() int {
	switch e.op {
	case "+", "-":
		return 1
	case "*", "/":
		return 2
	}
	return 3
}

// tokens with the parentheses that are needed, and some that are not.
func (e *mexpr) tokens(t *T, extra float64) []string {
	if e.op == "" {
		var out []string
		if e.sign != "" {
			out = append(out, e.sign)
		}
		out = append(out, e.num)
		if t.Chance(extra) {
			out = append(append([]string{"("}, out...), ")")
		}
		return out
	}
	side := func(c *mexpr, right bool) []string {
		k := c.tokens(t, extra)
		need := c.prec() < e.prec() || right && c.prec() == e.prec()
		if need {
			k = append(append([]string{"("}, k...), ")")
		}
		return k
	}
	out := append(side(e.a, false), e.op)
	out = append(out, side(e.b, true)...)
	if t.Chance(extra) {
		out = append(append([]string{"("}, out...), ")")
	}
	return out
}

func runC23math(t *T) {
	e := t.mexpr(t.IntN(5))
	long := t.Chance(0.003)
	if long { // a long chain
		ops := pick(t, [][]string{{"+", "-"}, {"*", "/"}, {"+", "-", "*", "/"}})
		for i := t.Size(5, 60); i > 0; i-- {
			o := &mexpr{op: pick(t, ops), a: e, b: t.mexpr(0)}
			if t.Chance(0.1) {
				o.a, o.b = o.b, o.a
			}
			e = o
		}
	}
	toks := e.tokens(t, pick(t, []float64{0, 0, 0.1, 0.3}))
	if len(toks) > 60 && !long {
		t.Count("too_long", 1)
		return
	}
	if t.Chance(0.7) {
		text := t.layout(toks)
		t.Desc("expression: %q", text)
		want := e.eval()
		got, err := parlexmath.Eval(text)
		t.Eval()
		if err != nil {
			t.Fail("accept", "the expression is refused: %v", err)
		}
		if got != want && !(math.IsNaN(got) && math.IsNaN(want)) {
			t.Fail("value", "the value is %v, expected %v", got, want)
		}
		t.Count("expressions", 1)
		if len(toks) > 2 {
			t.Seen("math", strings.Join(toks, " "))
		}
		t.Sample("%q -> %v", text, got)
		return
	}
	bad := append([]string(nil), toks...)
	i := t.IntN(len(bad))
	switch t.IntN(5) {
	case 0: // two operands without an operator
		bad = append(bad, "1")
	case 1:
		bad[i] = pick(t, []string{"x", "?", "=", ",", "é", "^", "%"})
	case 2:
		bad = append(bad, pick(t, []string{"+", "*", "(", ")", "/", "-"}))
	case 3:
		bad = append([]string{pick(t, []string{"*", "/", "(", ")"})}, bad...)
	case 4:
		bad = append(bad[:i:i], append([]string{pick(t, []string{"( )", "* /", "+ *", ") (", "- / "})}, bad[i:]...)...)
	}
	text := t.layout(bad)
	t.Desc("malformed expression: %q", text)
	got, err := parlexmath.Eval(text)
	t.Eval()
	if err == nil {
		t.Fail("refuse", "the text is accepted and gives %v", got)
	}
	t.Count("refused_expressions", 1)
}
