package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"sync"
)

func init() {
	register(&Prop{
		ID:       "C19",
		Rule:     "a lexer, grammar, parser, reducer, runner, analysis or the text readers put through a random history of successful, failing and erroneous uses and changes of the definition; after each use the result is compared with that of a fresh instance (for the readers now and then of a fresh process), and all results handed out before with what they were; non-trivial: distinct history of at least 4 uses",
		Quick:    26000,
		Thorough: 1000000,
		Run:      runC19,
		Floors:   map[string]int64{"uses": 80000, "changes": 3000, "held_results_checked": 150000, "fresh_processes": 30, "pool_uses_checked": 5000},
	})
	register(&Prop{
		ID:       "C18",
		Rule:     "one to three subjects, each shared by all goroutines from its first use on, under the race detector; every result is compared with that of another instance used by one goroutine afterwards; non-trivial: distinct set of subjects and uses",
		Quick:    1500,
		Thorough: 120000,
		Procs:    4,
		Run:      runC18,
		Floors:   map[string]int64{"concurrent_uses": 15000, "overlaps": 100},
		Assume:   []string{"the race detector reports races among the accesses that were executed, whatever their timing"},
	})
}

func runC19(t *T) {
	s := t.subject()
	if len(s.uses) == 0 {
		return
	}
	var log []string
	var done []mut
	x := s.make()
	type held struct {
		o    outcome
		desc string
	}
	var holds []held
	check := func(why string) {
		for _, h := range holds {
			if got := h.o.again(); got != h.o.text {
				t.Fail("earlier", "%s changed the result of the earlier %s\n was %s\n now %s", why, h.desc, h.o.text, got)
			}
			t.Count("held_results_checked", 1)
		}
	}
	uses := 0
	n := t.Range(3, 14)
	if t.Chance(0.004) {
		n = t.Size(15, 300) // a long history
	}
	t.Max("history", n)
	for ; n > 0; n-- {
		if len(s.muts) > 0 && t.Chance(0.15) {
			m := pick(t, s.muts)
			log = append(log, m.desc)
			t.Desc("%s\n%s\nhistory:\n%s", s.name, s.desc, strings.Join(log, "\n"))
			m.run(x)
			done = append(done, m)
			t.Count("changes", 1)
			if s.name == "grammar" {
				holds = nil // lists of productions show the grammar as it is
			} else {
				check(m.desc)
			}
			continue
		}
		k := t.IntN(len(s.uses))
		u := s.uses[k]
		log = append(log, u.desc)
		t.Desc("%s\n%s\nhistory:\n%s", s.name, s.desc, strings.Join(log, "\n"))
		o := u.run(x)
		uses++
		t.Eval()
		t.Count("uses", 1)
		check(u.desc)
		y := s.make()
		for _, m := range done {
			m.run(y)
		}
		f := u.run(y)
		if o.text != f.text {
			t.Fail("history", "%s after this history:\n%s\non a fresh instance:\n%s", u.desc, o.text, f.text)
		}
		check("using another instance")
		if i, ok := s.pool[k]; ok {
			if want := t.w.poolResult(t, i); want != "" {
				if want != hashText(o.text) {
					t.Fail("history", "%s gives something else in a fresh process than in this one, where it gives\n%s", u.desc, o.text)
				}
				t.Count("pool_uses_checked", 1)
			}
		}
		switch {
		case t.Chance(0.15):
			log = append(log, "  (the result is changed by its owner)")
			o.spoil()
		case len(holds) < 12:
			holds = append(holds, held{o, u.desc})
		}
	}
	if s.name == "readers" || s.name == "examples" {
		every := 24
		if t.Thorough {
			every = 240
		}
		if t.Idx/8%every == 3 {
			k := t.IntN(len(s.uses))
			t.More("use %d in a fresh process", k)
			t.freshProcess(s, k)
		}
	}
	t.Count("subject_"+strings.ReplaceAll(s.name, " ", "_"), 1)
	if uses >= 4 {
		t.Seen(s.name, s.desc, strings.Join(log, "\n"))
	}
	t.Sample("%s", strings.Join(t.desc, "\n"))
}

func hashText(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%016x", h.Sum64())
}

// freshProcess runs one use in a process that has done nothing before.
func (t *T) freshProcess(s *subject, k int) {
	exe, _ := os.Executable()
	tier := "quick"
	if t.Thorough {
		tier = "thorough"
	}
	cmd := exec.Command(exe, "-prop", t.w.prop.ID, "-seed", strconv.FormatUint(t.w.seed, 10), "-tier", tier,
		"-only", strconv.Itoa(t.Idx), "-state", fmt.Sprintf("fresh%d", k))
	out, err := cmd.Output()
	if err != nil {
		t.Count("fresh_process_errors", 1)
		return
	}
	t.Count("fresh_processes", 1)
	got := s.uses[k].run(s.make()).text
	if want := strings.TrimSpace(string(out)); want != hashText(got) {
		t.Fail("history", "%s gives something else in a fresh process than in this one, where it gives\n%s", s.uses[k].desc, got)
	}
}

// The pool is a set of uses of the readers and the examples that all cases
// share. What each gives in a process that did nothing else is found out once,
// and has to be what it gives anywhere in any history.
const (
	poolSize = 160
	poolBase = 1 << 40
)

func (t *T) poolUse() (int, use) {
	i := t.IntN(poolSize)
	return i, t.w.newCase(poolBase+i, false).poolMember(i)
}

func (t *T) poolMember(i int) use {
	for {
		if i%4 == 3 {
			if s := t.exampleSubject(); len(s.uses) > 0 {
				return s.uses[0]
			}
			continue
		}
		return t.readUse()
	}
}

// poolResult is the hash of what a member of the pool gives in a fresh process.
func (w *worker) poolResult(t *T, i int) string {
	if h, ok := w.pool[i]; ok {
		return h
	}
	if w.pool == nil {
		w.pool = map[int]string{}
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "-prop", w.prop.ID, "-seed", strconv.FormatUint(w.seed, 10), "-only", "0", "-state", fmt.Sprintf("pool%d", i))
	out, err := cmd.Output()
	h := strings.TrimSpace(string(out))
	if err != nil {
		t.Count("fresh_process_errors", 1)
		h = ""
	} else {
		t.Count("pool_processes", 1)
	}
	w.pool[i] = h
	return h
}

func poolMain(w *worker, i int) {
	fmt.Println(hashText(w.newCase(poolBase+i, false).poolMember(i).run(nil).text))
}

// freshMain is the other side: the subject is made again and used once.
func freshMain(t *T, k int) {
	s := t.subject()
	fmt.Println(hashText(s.uses[k].run(s.make()).text))
}

func runC18(t *T) {
	type job struct {
		s    *subject
		x    interface{}
		use  int
		got  string
		fail interface{}
	}
	var ss []*subject
	var xs []interface{}
	var names []string
	for i := t.Range(1, 3); i > 0; i-- {
		s := t.subject()
		if len(s.uses) == 0 {
			continue
		}
		ss = append(ss, s)
		xs = append(xs, s.make())
		names = append(names, s.name+"\n"+s.desc)
	}
	if len(ss) == 0 {
		return
	}
	t.Desc("subjects:\n%s", strings.Join(names, "\n----\n"))
	g := t.Range(2, 8)
	jobs := make([][]job, g)
	for i := range jobs {
		for n := t.Range(2, 6); n > 0; n-- {
			k := t.IntN(len(ss))
			jobs[i] = append(jobs[i], job{s: ss[k], x: xs[k], use: t.IntN(len(ss[k].uses))})
		}
	}
	var ready, all sync.WaitGroup
	start := make(chan struct{})
	active := make([]int32, g)
	for i := range jobs {
		ready.Add(1)
		all.Add(1)
		yield := t.IntN(3)
		go func(i int) {
			defer all.Done()
			js := jobs[i]
			ready.Done()
			<-start
			active[i] = 1
			for j := range js {
				func() {
					defer func() {
						if r := recover(); r != nil {
							js[j].fail = r
						}
					}()
					if yield == 1 {
						runtime.Gosched()
					}
					js[j].got = js[j].s.uses[js[j].use].run(js[j].x).text
				}()
			}
		}(i)
	}
	ready.Wait()
	close(start)
	all.Wait()
	// the same uses by one goroutine, each on an instance of its own
	want := map[string]string{}
	for i := range jobs {
		for j, jb := range jobs[i] {
			u := jb.s.uses[jb.use]
			t.Eval()
			if jb.fail != nil {
				t.Fail("panic", "goroutine %d, use %d, %s: panic: %v", i, j, u.desc, jb.fail)
			}
			key := fmt.Sprintf("%p/%d", jb.s, jb.use)
			w, ok := want[key]
			if !ok {
				w = u.run(jb.s.make()).text
				want[key] = w
			} else {
				t.Count("overlaps", 1)
			}
			if jb.got != w {
				t.Fail("result", "goroutine %d, use %d, %s gives\n%s\nalone it gives\n%s", i, j, u.desc, jb.got, w)
			}
			t.Count("concurrent_uses", 1)
		}
	}
	t.Max("goroutines", g)
	for _, s := range ss {
		t.Count("subject_"+strings.ReplaceAll(s.name, " ", "_"), 1)
	}
	t.Seen(strings.Join(names, "\n"))
	t.Sample("%d goroutines, %s", g, strings.Join(names, "\n----\n"))
}
