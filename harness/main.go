// Command vmon runs parlex under generated workloads while monitors decide
// whether what was observed is allowed. It is laid into the module with an
// overlay and uses only exported API, so it compiles against whatever is in
// /repo. One process (the parent) distributes the cases of a property over
// worker processes and watches them; the workers run the code under test.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Prop is the workload and the monitor of one property.
type Prop struct {
	ID       string
	Rule     string // how cases are made and what makes one non-trivial
	Quick    int    // number of cases
	Thorough int
	Procs    int // GOMAXPROCS of a worker, 2 if 0
	Run      func(*T)
	Floors   map[string]int64 // counters that a quick run has to reach
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// T is one case.
type T struct {
	*rand.Rand
	Idx      int
	Thorough bool
	w        *worker
	desc     []string
}

type violation struct {
	Case  int    `json:"case"`
	Sig   string `json:"sig"`
	Msg   string `json:"message"`
	Desc  string `json:"input"`
	Stack string `json:"stack,omitempty"`
}

type failure struct{ sig, msg string }

// Fail reports that the property does not hold in this case.
func (t *T) Fail(sig, format string, args ...interface{}) {
	panic(failure{sig, fmt.Sprintf(format, args...)})
}

// showDesc prints the descriptions as they are set, to see what a case that
// crashes was doing.
var showDesc = os.Getenv("VMON_DESC") != ""

// Desc sets the description of what is about to run. It is part of the replay
// file if the case fails.
func (t *T) Desc(format string, args ...interface{}) {
	t.desc = append(t.desc[:0], fmt.Sprintf(format, args...))
	if showDesc {
		fmt.Fprintf(os.Stderr, "%s\n", t.desc[0])
	}
}

// More adds to the description.
func (t *T) More(format string, args ...interface{}) {
	t.desc = append(t.desc, fmt.Sprintf(format, args...))
	if showDesc {
		fmt.Fprintf(os.Stderr, "%s\n", t.desc[len(t.desc)-1])
	}
}

// Count adds to a counter of what was observed.
func (t *T) Count(name string, n int) { t.w.counters[name] += int64(n) }

// Eval counts an evaluation of the oracle.
func (t *T) Eval() { t.w.counters["evaluations"]++ }

// Max keeps the largest value seen.
func (t *T) Max(name string, n int) {
	if m := t.w.maxes[name]; int64(n) > m {
		t.w.maxes[name] = int64(n)
	}
}

// Seen records a distinct non-trivial case.
func (t *T) Seen(parts ...string) {
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff})
	}
	t.w.seen[h.Sum64()] = struct{}{}
}

// Sample keeps a few cases for the evidence.
func (t *T) Sample(format string, args ...interface{}) {
	if len(t.w.samples) < 2 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		t.w.samples = append(t.w.samples, s)
	}
}

func (t *T) Bool() bool            { return t.IntN(2) == 0 }
func (t *T) Chance(p float64) bool { return t.Float64() < p }

// Range returns a number from lo to hi, both included.
func (t *T) Range(lo, hi int) int { return lo + t.IntN(hi-lo+1) }

// Size returns a number from lo to hi, small ones more often than large ones.
func (t *T) Size(lo, hi int) int {
	n := int(float64(lo) * math.Exp(t.Float64()*math.Log(float64(hi+1)/float64(lo))))
	return max(lo, min(n, hi))
}

func pick[E any](t *T, s []E) E { return s[t.IntN(len(s))] }

type worker struct {
	prop     *Prop
	seed     uint64
	counters map[string]int64
	maxes    map[string]int64
	seen     map[uint64]struct{}
	samples  []string
	pool     map[int]string
}

func (w *worker) newCase(i int, thorough bool) *T {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", w.prop.ID, w.seed, i)
	return &T{
		Rand:     rand.New(rand.NewPCG(h.Sum64(), uint64(i)*0x9e3779b97f4a7c15+w.seed)),
		Idx:      i,
		Thorough: thorough,
		w:        w,
	}
}

func (w *worker) runCase(i int, thorough bool) (v *violation) {
	t := w.newCase(i, thorough)
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		v = &violation{Case: i, Desc: strings.Join(t.desc, "\n")}
		if f, ok := r.(failure); ok {
			v.Sig, v.Msg = f.sig, f.msg
			return
		}
		v.Sig, v.Msg = "panic", fmt.Sprintf("panic: %v", r)
		v.Stack = string(debug.Stack())
	}()
	if h, ok := hugeRuns[w.prop.ID]; ok {
		if k := t.hugeTurn(h.n); k >= 0 {
			h.run(t, k)
			return nil
		}
	}
	w.prop.Run(t)
	return nil
}

type report struct {
	Known    string           `json:"k,omitempty"`
	V        *violation       `json:"v,omitempty"`
	Counters map[string]int64 `json:"c,omitempty"`
	Maxes    map[string]int64 `json:"m,omitempty"`
	Seen     []uint64         `json:"s,omitempty"`
	Samples  []string         `json:"x,omitempty"`
	Done     bool             `json:"d,omitempty"`
}

func workerMain(p *Prop, seed uint64, thorough bool, first, stride, total int, stateFile string, known findingList) {
	debug.SetMaxStack(192 << 20)
	procs := p.Procs
	if procs == 0 {
		procs = 2
	}
	runtime.GOMAXPROCS(procs)
	w := &worker{
		prop: p, seed: seed,
		counters: map[string]int64{}, maxes: map[string]int64{}, seen: map[uint64]struct{}{},
	}
	state, err := os.OpenFile(stateFile, os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	flush := func(done bool) {
		seen := make([]uint64, 0, len(w.seen))
		for h := range w.seen {
			seen = append(seen, h)
		}
		enc.Encode(report{Counters: w.counters, Maxes: w.maxes, Seen: seen, Samples: w.samples, Done: done})
		out.Flush()
		w.counters, w.maxes, w.seen, w.samples = map[string]int64{}, map[string]int64{}, map[uint64]struct{}{}, nil
	}
	var buf [8]byte
	last := time.Now()
	for i := first; i < total; i += stride {
		if givesUp(p, i, thorough) {
			flush(false)
		}
		binary.LittleEndian.PutUint64(buf[:], uint64(i)+1)
		state.WriteAt(buf[:], 0)
		w.counters["cases"]++
		if v := w.runCase(i, thorough); v != nil {
			if k := known.match(v); k != "" {
				enc.Encode(report{Known: k})
				continue
			}
			enc.Encode(report{V: v})
			out.Flush()
			break
		}
		if time.Since(last) > 2*time.Second {
			flush(false)
			last = time.Now()
		}
	}
	flush(true)
}

const (
	maxCaseCPU = 100.0   // seconds of CPU time that one case may use
	maxHugeCPU = 60.0    // after which a huge case is given up
	maxRSS     = 3 << 30 // bytes
	maxWall    = 800 * time.Second
)

type result struct {
	mu         sync.Mutex
	counters   map[string]int64
	maxes      map[string]int64
	seen       map[uint64]struct{}
	samples    []string
	violations []*violation
	known      map[string]bool
	trouble    []string
	stop       bool
}

func (r *result) merge(rep *report) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for k, v := range rep.Counters {
		r.counters[k] += v
	}
	for k, v := range rep.Maxes {
		if v > r.maxes[k] {
			r.maxes[k] = v
		}
	}
	for _, h := range rep.Seen {
		r.seen[h] = struct{}{}
	}
	if len(r.samples) < 4 {
		r.samples = append(r.samples, rep.Samples...)
	}
	if rep.Known != "" {
		r.known[rep.Known] = true
	}
	if rep.V != nil {
		r.violations = append(r.violations, rep.V)
	}
}

func (r *result) stopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stop || len(r.violations) > 0
}

// procUsage returns the CPU seconds and the resident bytes of a process.
func procUsage(pid int) (cpu float64, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	f := strings.Fields(s[strings.LastIndex(s, ")")+1:])
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	pages, _ := strconv.ParseInt(f[21], 10, 64)
	return (ut + st) / 100, pages * int64(os.Getpagesize())
}

func readState(file string) int {
	b, err := os.ReadFile(file)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b)) - 1
}

// givesUp tells whether a case that takes too long says nothing about the
// property: a huge case of a property that does not limit the work.
func givesUp(p *Prop, i int, thorough bool) bool {
	return p.ID != "C22" && p.ID != "C24" && i >= 0 && hugeIndex(i, thorough, hugeRuns[p.ID].n) >= 0
}

// runWorkers runs a worker, and another one after each huge case that is given up.
func runWorkers(res *result, p *Prop, seed uint64, tier string, first, stride, total int, dir, findings string, wallLimit time.Duration) {
	start := time.Now()
	for first < total {
		i := runWorker(res, p, seed, tier, first, stride, total, dir, findings, wallLimit-time.Since(start))
		if i < 0 {
			return
		}
		first = i + stride
	}
}

// runWorker runs one worker to its end and records what it reported. A worker
// that dies is attributed to the case it had announced. It returns the case
// that was given up, or -1.
func runWorker(res *result, p *Prop, seed uint64, tier string, first, stride, total int, dir, findings string, wallLimit time.Duration) int {
	stateFile := filepath.Join(dir, fmt.Sprintf("state%d", first))
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-worker", "-prop", p.ID, "-seed", strconv.FormatUint(seed, 10), "-tier", tier,
		"-findings", findings, "-first", strconv.Itoa(first), "-stride", strconv.Itoa(stride), "-total", strconv.Itoa(total), "-state", stateFile)
	stderr := &tail{max: 64 << 10}
	cmd.Stderr = stderr
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	stdout, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		res.mu.Lock()
		res.trouble = append(res.trouble, err.Error())
		res.mu.Unlock()
		return -1
	}
	done := false
	readDone := make(chan struct{})
	go func() {
		defer close(readDone)
		dec := json.NewDecoder(bufio.NewReaderSize(stdout, 1<<20))
		for {
			var rep report
			if dec.Decode(&rep) != nil {
				return
			}
			done = done || rep.Done
			res.merge(&rep)
		}
	}()
	var killed, wall string
	gaveUp := -1
	quit := make(chan struct{})
	watchDone := make(chan struct{})
	go func() {
		defer close(watchDone)
		start := time.Now()
		cur, base := -2, 0.0
		for {
			select {
			case <-quit:
				return
			case <-time.After(200 * time.Millisecond):
			}
			cpu, rss := procUsage(cmd.Process.Pid)
			if i := readState(stateFile); i != cur {
				cur, base = i, cpu
			}
			switch {
			case (cpu-base > maxHugeCPU || rss > maxRSS) && givesUp(p, cur, tier == "thorough"):
				gaveUp = cur
			case cpu-base > maxCaseCPU:
				killed = fmt.Sprintf("runaway: the case used more than %.0f s of CPU time", maxCaseCPU)
			case rss > maxRSS:
				killed = fmt.Sprintf("runaway: the case used more than %d MB of memory", maxRSS>>20)
			case time.Since(start) > wallLimit:
				wall = "wall-clock limit"
			case res.stopped():
				wall = "stopped"
			default:
				continue
			}
			cmd.Process.Kill()
			return
		}
	}()
	<-readDone
	err = cmd.Wait()
	close(quit)
	<-watchDone
	race := strings.Contains(stderr.String(), "DATA RACE")
	res.mu.Lock()
	defer res.mu.Unlock()
	switch {
	case gaveUp >= 0:
		res.counters["huge_cases_given_up"]++
		return gaveUp
	case wall == "stopped":
	case wall != "":
		res.trouble = append(res.trouble, wall)
	case killed != "":
		res.violations = append(res.violations, &violation{Case: readState(stateFile), Sig: "runaway", Msg: killed})
	case race:
		res.violations = append(res.violations, &violation{Case: readState(stateFile), Sig: "race", Msg: "data race reported by the race detector", Stack: stderr.String()})
	case !done:
		res.violations = append(res.violations, &violation{Case: readState(stateFile), Sig: "crash",
			Msg: fmt.Sprintf("the process died: %v", err), Stack: stderr.String()})
	}
	return -1
}

// tail keeps the beginning of what is written to it.
type tail struct {
	b   []byte
	max int
}

func (t *tail) Write(p []byte) (int, error) {
	if room := t.max - len(t.b); room > 0 {
		if room > len(p) {
			room = len(p)
		}
		t.b = append(t.b, p[:room]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func main() {
	var (
		propID   = flag.String("prop", "", "property")
		seed     = flag.Uint64("seed", 1, "seed")
		tier     = flag.String("tier", "quick", "quick or thorough")
		evidence = flag.String("evidence", "", "directory for the evidence")
		findings = flag.String("findings", "", "known findings")
		nworkers = flag.Int("workers", 8, "worker processes")
		only     = flag.Int("only", -1, "run only this case")
		total    = flag.Int("total", 0, "number of cases")
		scale    = flag.Float64("scale", 1, "factor for the number of cases")
		isWorker = flag.Bool("worker", false, "")
		first    = flag.Int("first", 0, "")
		stride   = flag.Int("stride", 1, "")
		state    = flag.String("state", "", "")
	)
	flag.Parse()
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *propID)
		os.Exit(3)
	}
	if *isWorker {
		workerMain(p, *seed, *tier == "thorough", *first, *stride, *total, *state, readFindings(*findings, p.ID))
		return
	}
	if *only >= 0 && *state == "inline" {
		// run one case in this process, for debugging
		debug.SetMaxStack(192 << 20)
		w := &worker{prop: p, seed: *seed, counters: map[string]int64{}, maxes: map[string]int64{}, seen: map[uint64]struct{}{}}
		if v := w.runCase(*only, *tier == "thorough"); v != nil {
			fmt.Printf("case %d: %s: %s\n%s\n%s\n", v.Case, v.Sig, v.Msg, v.Desc, v.Stack)
			os.Exit(1)
		}
		fmt.Println("held", w.counters)
		return
	}
	if *only >= 0 && strings.HasPrefix(*state, "fresh") {
		k, _ := strconv.Atoi((*state)[len("fresh"):])
		w := &worker{prop: p, seed: *seed, counters: map[string]int64{}, maxes: map[string]int64{}, seen: map[uint64]struct{}{}}
		freshMain(w.newCase(*only, *tier == "thorough"), k)
		return
	}
	if *only >= 0 && strings.HasPrefix(*state, "pool") {
		k, _ := strconv.Atoi((*state)[len("pool"):])
		w := &worker{prop: p, seed: *seed, counters: map[string]int64{}, maxes: map[string]int64{}, seen: map[uint64]struct{}{}}
		poolMain(w, k)
		return
	}
	os.Exit(parent(p, *seed, *tier, *evidence, *findings, *nworkers, *only, *total, *scale))
}

func parent(p *Prop, seed uint64, tier, evidence, findings string, nworkers, only, total int, scale float64) int {
	start := time.Now()
	if total == 0 {
		total = p.Quick
		if tier == "thorough" {
			total = p.Thorough
		}
		total = int(float64(total) * scale)
	}
	dir, err := os.MkdirTemp("", "vmon")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer os.RemoveAll(dir)
	res := &result{counters: map[string]int64{}, maxes: map[string]int64{}, seen: map[uint64]struct{}{}, known: map[string]bool{}}
	wallLimit := maxWall
	if tier == "thorough" {
		wallLimit = 6 * time.Hour
	}
	if only >= 0 {
		runWorkers(res, p, seed, tier, only, 1, only+1, dir, findings, wallLimit)
	} else {
		var wg sync.WaitGroup
		for i := 0; i < nworkers; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				runWorkers(res, p, seed, tier, i, nworkers, total, dir, findings, wallLimit)
			}(i)
		}
		wg.Wait()
	}

	known := readFindings(findings, p.ID)
	var ks []string
	for k := range res.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	sort.Slice(res.violations, func(i, j int) bool { return res.violations[i].Case < res.violations[j].Case })
	code, reported := 0, 0
	for _, v := range res.violations {
		if k := known.match(v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
			continue
		}
		code = 1
		if reported++; reported > 3 {
			continue
		}
		path := writeReplay(evidence, p, seed, tier, v)
		fmt.Printf("%s case %d: %s\n", p.ID, v.Case, trunc(v.Msg, 2000))
		if v.Desc != "" {
			fmt.Println(trunc(v.Desc, 3000))
		}
		if v.Stack != "" {
			fmt.Println(trunc(v.Stack, 3000))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	if only < 0 {
		writeEvidence(evidence, p, seed, tier, res, start)
	}
	if code != 0 {
		return code
	}
	if len(res.trouble) > 0 {
		fmt.Println("INCONCLUSIVE:", strings.Join(res.trouble, "; "))
		return 2
	}
	if only < 0 && scale >= 1 {
		if got, floor := res.counters["huge_cases"]+res.counters["huge_cases_given_up"], int64(hugeRuns[p.ID].n); got < floor {
			fmt.Printf("INCONCLUSIVE: observed only %d huge cases, expected at least %d\n", got, floor)
			return 2
		}
		for name, floor := range p.Floors {
			got := res.counters[name]
			if name == "distinct" {
				got = int64(len(res.seen))
			}
			if got < floor {
				fmt.Printf("INCONCLUSIVE: observed only %d %s, expected at least %d\n", got, name, floor)
				return 2
			}
		}
	}
	fmt.Printf("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1f s\n", p.ID, res.counters["cases"],
		res.counters["evaluations"], len(res.seen), time.Since(start).Seconds())
	return 0
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeReplay(dir string, p *Prop, seed uint64, tier string, v *violation) string {
	if dir == "" {
		dir = "."
	}
	dir = filepath.Join(dir, "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, v.Case))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": p.ID, "seed": seed, "tier": tier, "case": v.Case, "sig": v.Sig, "message": v.Msg,
		"input": v.Desc, "stack": v.Stack,
		"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s -only %d", seed, tier, p.ID, v.Case),
	}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func writeEvidence(dir string, p *Prop, seed uint64, tier string, res *result, start time.Time) {
	if dir == "" {
		return
	}
	os.MkdirAll(dir, 0o755)
	observed := map[string]int64{}
	for k, v := range res.counters {
		if k != "evaluations" {
			observed[k] = v
		}
	}
	for k, v := range res.maxes {
		observed["max_"+k] = v
	}
	samples := res.samples
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         res.counters["evaluations"],
			"distinct_nontrivial": len(res.seen),
			"rule":                p.Rule,
			"samples":             samples,
			"observed":            observed,
		},
		"assumptions": append([]string{"the monitors see only the executions of this run"}, p.Assume...),
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(res.violations),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644)
}

// finding is a known violation: "finding: property=<id> sig=<sig> input=<quoted
// text that the description of the case contains> <what fails>".
type finding struct{ sig, input, what string }
type findingList []finding

func readFindings(file, id string) (fs findingList) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		var prop, sig, input string
		rest, ok := strings.CutPrefix(line, "finding: ")
		if !ok {
			continue
		}
		if _, err := fmt.Sscanf(rest, "property=%s sig=%s input=%q", &prop, &sig, &input); err != nil || prop != id {
			continue
		}
		fs = append(fs, finding{sig, input, strings.TrimPrefix(rest, "property="+prop+" ")})
	}
	return fs
}

func (fs findingList) match(v *violation) string {
	for _, f := range fs {
		if f.sig == v.Sig && strings.Contains(v.Desc, f.input) {
			return f.what
		}
	}
	return ""
}
