package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/adamcolton/parlex/examples/scalc"
)

// capped keeps the beginning of what a program writes and then ends it.
type capped struct {
	buf    bytes.Buffer
	max    int
	full   bool
	cancel func()
}

func (c *capped) Write(p []byte) (int, error) {
	if c.buf.Len() > c.max {
		c.full = true
		c.cancel()
		return 0, errors.New("too much output")
	}
	return c.buf.Write(p)
}

func program(ctx context.Context, name string, args []string) *exec.Cmd {
	dir := os.Getenv("VMON_CLI")
	if dir == "" {
		panic("VMON_CLI is not set")
	}
	cmd := exec.CommandContext(ctx, filepath.Join(dir, name), args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + dir, "PATH=/usr/bin:/bin"}
	return cmd
}

func (c *capped) String() string { return c.buf.String() }

const programWall = 120 * time.Second

// program runs one of the programs on a whole input.
func (t *T) program(name string, args []string, stdin string, max int) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), programWall)
	defer cancel()
	cmd := program(ctx, name, args)
	out, errs := capped{max: max, cancel: cancel}, capped{max: 1 << 18, cancel: cancel}
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Stdin = strings.NewReader(stdin)
	err := cmd.Run()
	t.Eval()
	if out.full {
		t.Fail("endless", "%s writes without end: %q", name, trunc(out.String(), 300))
	}
	t.ended(ctx, cmd, err, out.String(), errs.String())
	return out.String(), errs.String()
}

// ended checks that a program has come to its own end.
func (t *T) ended(ctx context.Context, cmd *exec.Cmd, err error, out, errs string) {
	if ctx.Err() != nil {
		t.Fail("hang", "the program does not end; it wrote %q", trunc(out, 300))
	}
	if err != nil && (cmd.ProcessState == nil || cmd.ProcessState.ExitCode() != 1) || strings.Contains(errs, "goroutine ") {
		t.Fail("crash", "%v\n%s", err, trunc(errs, 2000))
	}
}

// dialogue gives the program one line at a time, each when it has asked for
// it, and returns all it wrote.
func (t *T) dialogue(name string, lines []string) (string, string) {
	ctx, cancel := context.WithTimeout(context.Background(), programWall)
	defer cancel()
	cmd := program(ctx, name, nil)
	errs := capped{max: 1 << 18, cancel: cancel}
	cmd.Stderr = &errs
	in, err := cmd.StdinPipe()
	mustOK(err)
	stdout, err := cmd.StdoutPipe()
	mustOK(err)
	mustOK(cmd.Start())
	var out []byte
	buf := make([]byte, 4096)
	for _, l := range lines {
		for !bytes.HasSuffix(out, []byte("> ")) {
			n, err := stdout.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				break
			}
		}
		in.Write([]byte(l)) // the program may have ended
		out = append(out, 0)
	}
	rest, _ := io.ReadAll(io.LimitReader(stdout, 1<<18))
	out = bytes.ReplaceAll(append(out, rest...), []byte{0}, nil)
	cancelled := len(rest) == 1<<18
	if cancelled {
		cancel()
	}
	err = cmd.Wait()
	in.Close()
	t.Eval()
	if cancelled {
		t.Fail("endless", "the program writes without end: %q", trunc(string(out), 300))
	}
	t.ended(ctx, cmd, err, string(out), errs.String())
	return string(out), errs.String()
}

// split spreads a text over arguments, which the programs join with a space.
func (t *T) split(text string) []string {
	if t.Chance(0.4) {
		return []string{text}
	}
	var args []string
	last := 0
	for i := 0; i < len(text); i++ {
		if text[i] == ' ' && t.Chance(0.7) {
			args = append(args, text[last:i])
			last = i + 1
		}
	}
	return append(args, text[last:])
}

// mathProgram, jsonProgram and calcProgram run the programs of the examples on
// a text; session holds a session of the interactive calculator.
func (t *T) mathProgram() {
	e := t.mexpr(t.IntN(4))
	toks := e.tokens(t, pick(t, []float64{0, 0.1}))
	if len(toks) > 40 {
		return
	}
	bad := t.Chance(0.25)
	if bad {
		toks = append(toks, pick(t, []string{"1", "x", "+", "(", ")", "="}))
	}
	args := t.split(t.layout(toks))
	t.Desc("parlexmath %q", args)
	out, errs := t.program("parlexmath", args, "", 1<<18)
	t.refusedOr(bad, out, errs, func() {
		v, err := strconv.ParseFloat(strings.TrimSuffix(out, "\n"), 64)
		if want := e.eval(); err != nil || v != want && !(math.IsNaN(v) && math.IsNaN(want)) {
			t.Fail("value", "the program prints %q, expected %v", out, want)
		}
	})
	t.Count("program_expressions", 1)
	t.Seen("parlexmath", strings.Join(args, " "))
}

func (t *T) jsonProgram() {
	var toks []string
	t.jsonDoc(t.IntN(4), &toks)
	if len(toks) > 60 {
		return
	}
	bad := t.Chance(0.25)
	if bad {
		toks = append(toks, pick(t, []string{"1", "x", ",", "]", "}", ":", "\"", "null"}))
	}
	args := t.split(t.layout(toks))
	t.Desc("parlexjson %q", args)
	out, errs := t.program("parlexjson", args, "", 1<<18)
	t.refusedOr(bad, out, errs, func() {
		if got := jsonTokens(out); strings.Join(got, "\x00") != strings.Join(toks, "\x00") || !strings.HasSuffix(out, "\n") {
			t.Fail("document", "the program prints %q", out)
		}
	})
	t.Count("program_documents", 1)
	t.Seen("parlexjson", strings.Join(args, " "))
}

func (t *T) calcProgram() {
	e := t.rpnStack(2, t.Range(1, 3), t.Chance(0.3))
	toks := e.tokens(nil)
	if len(toks) > 16 || e.ambiguous() || strings.HasPrefix(toks[0], "-") {
		return
	}
	bad := t.Chance(0.25)
	if bad {
		toks = append(toks, pick(t, []string{"x", "(", ")", "sums", "é"}))
	}
	args := t.split(strings.Join(toks, " "))
	if t.Chance(0.2) { // the command that shows the tree; options of a command may follow its arguments
		text := strings.Join(toks, " ")
		t.Desc("scalc parse %q", text)
		out, errs := t.program("scalc", []string{"parse", text}, "", 1<<18)
		t.refusedOr(bad, out, errs, func() {
			if want := fmt.Sprintln(scalc.Parse(text)); out != want {
				t.Fail("tree", "the program prints %q, expected %q", out, want)
			}
		})
		t.Count("program_trees", 1)
		return
	}
	t.Desc("scalc %q", args)
	out, errs := t.program("scalc", args, "", 1<<18)
	t.refusedOr(bad, out, errs, func() {
		var want []string
		for _, v := range e.stack() {
			want = append(want, strconv.FormatFloat(v.v, 'f', v.p, 64))
		}
		if out != strings.Join(want, " ")+"\n" {
			t.Fail("stack", "the program prints %q, expected %q", out, strings.Join(want, " "))
		}
	})
	t.Count("program_texts", 1)
	t.Seen("scalc program", strings.Join(args, " "))
}

// refusedOr checks that a bad text gives a message and no result.
func (t *T) refusedOr(bad bool, out, errs string, good func()) {
	switch {
	case bad:
		if out != "" || errs == "" {
			t.Fail("refuse", "the program prints %q and the message %q", out, errs)
		}
		t.Count("program_refused", 1)
	case errs != "":
		t.Fail("accept", "the program prints the message %q", errs)
	default:
		good()
	}
}

// calcModel is the interactive calculator.
type calcModel struct {
	stack []string
	out   strings.Builder
}

// line evaluates a line behind the stack shown last.
func (m *calcModel) line(line string) {
	m.out.WriteString("> ")
	r := scalc.Eval(strings.Join(m.stack, " ") + " " + line)
	if r == nil {
		m.out.WriteString("Bad input\n")
		return
	}
	m.stack = nil
	for _, v := range r {
		m.stack = append(m.stack, strconv.FormatFloat(v.V, 'f', v.P, 64))
	}
	m.out.WriteString(strings.Join(m.stack, " ") + "\n")
}

// piped gives the interactive calculator all of its input at once.
func (t *T) piped(in string) {
	t.Desc("piped into scalc: %q", in)
	var m calcModel
	for _, l := range strings.Split(strings.TrimSuffix(in, "\n"), "\n") {
		if l == "exit" {
			break
		}
		m.line(l)
	}
	m.out.WriteString("> ")
	out, errs := t.program("scalc", nil, in, m.out.Len()+1000)
	if out != m.out.String() || errs != "" {
		t.Fail("piped", "the program prints %q, expected %q; messages: %q", trunc(out, 300), m.out.String(), errs)
	}
	t.Count("piped", 1)
}

// session holds a session of the interactive calculator.
func (t *T) session() {
	var m calcModel
	var lines []string
	n := t.Range(0, 12)
	if t.Chance(0.02) {
		n = t.Size(12, 200)
	}
	for i := 0; i < n; i++ {
		var line string
		switch k := t.IntN(12); {
		case k < 3 || len(m.stack) == 0:
			if len(m.stack) > 6 {
				line = "clear"
				break
			}
			line = pick(t, []string{"1", "2 3", "-4", "0.5", "10 2.25", "+7", "  8  ", "3 -1", "0", "100"})
		case k < 5:
			line = pick(t, []string{"--", "abs", "1 +", "2 *", "3 -", "4 /", "2 ^"})
		case k < 7 && len(m.stack) > 1:
			line = pick(t, []string{"+", "-", "*", "/", "cmpr", ">", "<", "="})
		case k < 8:
			line = pick(t, []string{"len", "sum", "avg", "min", "max", "first", "last"})
		case k < 9:
			line = pick(t, []string{"swap", "drop", "clear"})
		case k < 10:
			line = ""
		case k < 11:
			line = pick(t, []string{"x", ")", "(", "1 y", "exit now", "exits", "EXIT", "é", "1 (", "$"})
			t.Count("bad_lines", 1)
		default:
			line = pick(t, []string{"1", "1 1 +", "5 6 *"})
		}
		m.line(line)
		lines = append(lines, line+"\n")
	}
	t.Count("session_lines", len(lines))
	lines = append(lines, "exit\n")
	m.out.WriteString("> ")
	t.Desc("lines for scalc: %q", lines)
	out, errs := t.dialogue("scalc", lines)
	if out != m.out.String() || errs != "" {
		t.Fail("session", "the program prints %q, expected %q; messages: %q", out, m.out.String(), errs)
	}
	t.Count("sessions", 1)
	t.Seen("session", strings.Join(lines, ""))
	t.Sample("%q -> %q", lines, out)
}
