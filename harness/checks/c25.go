//go:build sched

package checks

import (
	"fmt"
	"iter"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/vsync"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C25",
		Space: "the implementation itself, instrumented with a scheduling point before every statement, run by a deterministic scheduler: for all ordered pairs of programs running in independent interpreters, all schedules with one preemption at any statement, all schedules with two preemptions the first of which is at an access to shared state (pools, package-level variables) and the second at any statement of the other thread (every n-th for long programs); " +
			"for all triples of short programs, all schedules with two preemptions at accesses to shared state; the same with the creation of the interpreters, parsing and compilation included in the threads; with pools reusing the last, the first or no object; " +
			"and all interleavings, at suspension points, of processes of several interpreters and of several processes of one interpreter. State: schedule and observed traces.",
		Assume: []string{interp, "statements are atomic in the exploration; the race detector watches free-running threads separately (see race)", "interpreters are independent when they share neither scopes, values nor a module registry"},
		Enum:   enumC25,
		Eval: map[string]func([]string) mc.Out{
			"race": evalRace, "one": evalOne, "two": evalTwo, "three": evalThree, "procs": evalProcs, "shared": evalShared,
		},
	})
}

// thread is one controlled thread.
type thread struct {
	f    func()
	n, g int // points passed, all and shared
	next func() (struct{}, bool)
	stop func()
	y    func(struct{}) bool
	done bool
	wait bool
}

// segment lets a thread run up to a number of its points.
type segment struct {
	t      int
	shared bool
	n      int
}

type sched struct {
	ts     []*thread
	cur    *thread
	limitN int
	limitG int
	dead   bool
}

func (s *sched) hook(kind int) {
	t := s.cur
	if t == nil {
		return
	}
	t.n++
	if kind == 1 {
		t.g++
		if t.g == s.limitG {
			t.y(struct{}{})
			return
		}
	}
	if t.n == s.limitN {
		t.y(struct{}{})
	}
}

func (s *sched) block() {
	t := s.cur
	t.wait = true
	t.y(struct{}{})
	t.wait = false
}

// resume runs a thread until its limit.
func (s *sched) resume(t *thread) {
	if t.done {
		return
	}
	s.cur = t
	if _, more := t.next(); !more {
		t.done = true
	}
	s.cur = nil
}

// runThreads runs the threads under a schedule; the rest runs in order.
func runThreads(fs []func(), segs []segment) (s *sched) {
	s = &sched{}
	vsync.Reset()
	for _, f := range fs {
		t := &thread{f: f}
		t.next, t.stop = iter.Pull(func(yield func(struct{}) bool) {
			t.y = yield
			t.f()
		})
		s.ts = append(s.ts, t)
	}
	vsync.Hook, vsync.Block = s.hook, s.block
	defer func() {
		vsync.Hook, vsync.Block = nil, nil
		for _, t := range s.ts {
			t.stop()
		}
	}()
	for _, g := range segs {
		s.limitN, s.limitG = -1, -1
		t := s.ts[g.t]
		if g.shared {
			s.limitG = g.n
		} else {
			s.limitN = g.n
		}
		s.resume(t)
	}
	s.limitN, s.limitG = -1, -1
	for {
		moved, left := false, false
		for _, t := range s.ts {
			if t.done {
				continue
			}
			n := t.n
			s.resume(t)
			moved = moved || t.done || t.n > n
			left = left || !t.done
		}
		if !left {
			return
		}
		if !moved {
			s.dead = true
			return
		}
	}
}

// run25 is the body of a thread running a program in its own interpreter.
func run25(w *impl.World, p string, out *[]string) {
	for _, src := range steps25(p) {
		*out = append(*out, strings.Join(w.Eval(src), " | "))
	}
}

// job is a set of threads: programs, and whether the creation of their
// interpreters takes place in the threads.
type job struct {
	progs   []string
	create  bool
	capture bool
	want    []string
}

func newJob(mode string, progs ...string) *job {
	j := &job{progs: progs, create: strings.Contains(mode, "create"), capture: strings.Contains(mode, "capture")}
	for _, p := range progs {
		j.want = append(j.want, strings.Join(want25(p), " || "))
	}
	vsync.Mode = 0
	if strings.Contains(mode, "fifo") {
		vsync.Mode = 1
	} else if strings.Contains(mode, "fresh") {
		vsync.Mode = 2
	}
	return j
}

func (j *job) run(segs []segment) (s *sched, diff string) {
	outs := make([][]string, len(j.progs))
	fs := make([]func(), len(j.progs))
	o := impl.Options{Capture: j.capture}
	for i, p := range j.progs {
		var w *impl.World
		if !j.create {
			w = impl.NewWorld(o)
		}
		fs[i] = func() {
			if w == nil {
				w = impl.NewWorld(o)
			}
			run25(w, p, &outs[i])
		}
	}
	s = runThreads(fs, segs)
	if s.dead {
		return s, fmt.Sprintf("deadlock under schedule %v", segs)
	}
	for i := range j.progs {
		if got := strings.Join(outs[i], " || "); got != j.want[i] {
			return s, fmt.Sprintf("thread %d of %d under schedule %v (thread, at shared accesses, points): expected %s, got %s", i, len(fs), segs, j.want[i], got)
		}
	}
	return s, ""
}

// evalOne explores all schedules with at most one preemption: fields are the
// mode, the range (k of n parts) and the programs.
func evalOne(f []string) (o mc.Out) {
	part, _ := strconv.Atoi(f[1])
	parts, _ := strconv.Atoi(f[2])
	j := newJob(f[0], f[3], f[4])
	s, d := j.run(nil)
	o.Diff = d
	n := s.ts[0].n
	for k := 1 + part; k <= n && o.Diff == ""; k += parts {
		s, o.Diff = j.run([]segment{{0, false, k}, {1, false, -1}})
		o.Steps += s.ts[0].n + s.ts[1].n
		o.Traces++
		o.States = append(o.States, mc.Hash(append([]string{strconv.Itoa(k)}, f...)...))
	}
	return
}

// evalTwo explores the schedules that preempt the first thread at its i-th
// access to shared state and the second one at every point.
func evalTwo(f []string) (o mc.Out) {
	i, _ := strconv.Atoi(f[1])
	step, _ := strconv.Atoi(f[2])
	j := newJob(f[0], f[3], f[4])
	s, d := j.run([]segment{{0, true, i}, {1, false, -1}})
	o.Diff = d
	n := s.ts[1].n
	for k := 1; k <= n && o.Diff == ""; k += step {
		s, o.Diff = j.run([]segment{{0, true, i}, {1, false, k}, {0, false, -1}})
		o.Steps += s.ts[0].n + s.ts[1].n
		o.Traces++
		o.States = append(o.States, mc.Hash(append([]string{strconv.Itoa(k)}, f...)...))
	}
	return
}

// evalThree explores three threads, preempting the first at its i-th access to
// shared state, and the second at each of its own.
func evalThree(f []string) (o mc.Out) {
	i, _ := strconv.Atoi(f[1])
	j := newJob(f[0], f[2], f[3], f[4])
	s, d := j.run([]segment{{0, true, i}, {1, false, -1}})
	o.Diff = d
	n := s.ts[1].g
	for k := 1; k <= n && o.Diff == ""; k++ {
		for _, segs := range [][]segment{
			{{0, true, i}, {1, true, k}, {2, false, -1}},
			{{0, true, i}, {1, true, k}, {2, false, -1}, {1, false, -1}},
		} {
			if s, o.Diff = j.run(segs); o.Diff != "" {
				break
			}
			o.Steps += s.ts[0].n + s.ts[1].n + s.ts[2].n
			o.Traces++
		}
		o.States = append(o.States, mc.Hash(append([]string{strconv.Itoa(k)}, f...)...))
	}
	return
}

// evalProcs runs programs in their own interpreters, switching at suspension
// points in the order given by the first field.
func evalProcs(f []string) (o mc.Out) {
	vsync.Mode = 0
	vsync.Reset()
	var ps []*hd.Process
	var outs, wants []string
	for _, p := range f[1:] {
		w := impl.NewWorld(impl.Options{})
		sc, msg := impl.Parse(p, false)
		if msg != "" {
			panic(msg)
		}
		ps = append(ps, w.Scope.PrepareProcess(w.Scope.Compile(*sc)))
		outs = append(outs, "")
		wants = append(wants, strings.Join(want25(p), ""))
	}
	ny := make([]int, len(ps))
	over := make([]bool, len(ps))
	step := func(i int) {
		if over[i] {
			return
		}
		if c := impl.Guard(func() {
			if ny[i] > 0 {
				ps[i].YieldBack(core.STR(impl.ResumeValue(ny[i] - 1)))
				outs[i] += " | "
			}
			r := ps[i].Run()
			ny[i]++
			outs[i] += impl.CanonResult(r)
			over[i] = r.Code != core.ResultCode_YIELD || ny[i] > impl.MaxYields
		}); c != "" {
			outs[i] += c
			over[i] = true
		}
	}
	for _, c := range f[0] {
		step(int(c - '0'))
	}
	for i := range ps {
		for !over[i] {
			step(i)
		}
		if outs[i] != wants[i] && o.Diff == "" {
			o.Diff = fmt.Sprintf("process %d under order %s: expected %s, got %s", i, f[0], wants[i], outs[i])
		}
		o.States = append(o.States, mc.Hash(f[0], strconv.Itoa(i), wants[i]))
	}
	o.Steps = len(f[0]) + len(ps)
	o.Traces = 1
	return
}

// evalShared does the same with processes of one interpreter.
func evalShared(f []string) (o mc.Out) {
	vsync.Mode = 0
	vsync.Reset()
	w := impl.NewWorld(impl.Options{})
	m := ref.NewWorldWith("/nonexistent", nil)
	defer m.Close()
	pre := f[1]
	if a, b := impl.EvalRef(m, pre), w.Eval(pre); diffTrace(a, b) != "" {
		o.Diff = "preamble: " + diffTrace(a, b)
		return
	}
	var ps []*hd.Process
	var ms []*ref.Fiber
	for _, p := range f[2:] {
		sc, msg := impl.Parse(p, false)
		if msg != "" {
			panic(msg)
		}
		ps = append(ps, w.Scope.PrepareProcess(w.Scope.Compile(*sc)))
		rs, _ := ref.Parse(p)
		ms = append(ms, m.Proc(rs))
	}
	ny := make([]int, len(ps))
	over := make([]bool, len(ps))
	step := func(i int) {
		if over[i] || o.Diff != "" {
			return
		}
		if c := impl.Guard(func() {
			if ny[i] > 0 {
				ps[i].YieldBack(core.STR(impl.ResumeValue(ny[i] - 1)))
				ms[i].In(ref.Str(impl.ResumeValue(ny[i] - 1)))
			}
			r := ps[i].Run()
			q := ms[i].Resume()
			ny[i]++
			got, want := impl.CanonResult(r), q.C.String()+" "+ref.Canon(q.V)
			if got != want {
				o.Diff = fmt.Sprintf("process %d, step %d, order %s: expected %s, got %s", i, ny[i], f[0], want, got)
			}
			over[i] = r.Code != core.ResultCode_YIELD || ny[i] > impl.MaxYields
			o.Steps++
			o.States = append(o.States, mc.Hash(m.Snapshot(), want))
		}); c != "" {
			o.Diff = c
		}
	}
	for _, c := range f[0] {
		step(int(c - '0'))
	}
	for i := range ps {
		for !over[i] && o.Diff == "" {
			step(i)
		}
	}
	o.Traces = 1
	return
}

// evalRace runs all programs in free-running threads under the race detector.
// It samples schedules: it watches the assumption that statements are atomic
// and decides nothing when it is quiet.
func evalRace(f []string) (o mc.Out) {
	root := os.Getenv("VERIF_BIN")
	if root == "" {
		o.Skip = true
		return
	}
	c := exec.Command(filepath.Join(root, "vh-race"), f[0])
	c.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	b, err := c.CombinedOutput()
	if err != nil {
		t := string(b)
		if len(t) > 1500 {
			t = t[:1500]
		}
		o.Diff = "free-running threads: " + err.Error() + ": " + t
	}
	o.Steps = 1
	o.Traces = 1
	o.States = []uint64{mc.Hash(f...)}
	return
}

func enumC25(e *mc.Env) {
	// points of the programs
	type info struct{ n, g int }
	count := func(mode, p string) info {
		j := newJob(mode, p)
		s, d := j.run(nil)
		if d != "" && !e.Thorough {
			// reported by the items
			_ = d
		}
		return info{s.ts[0].n, s.ts[0].g}
	}
	ps := Progs25
	e.Phase("race detector")
	if e.Mine() {
		e.Do("race", strconv.Itoa(e.Pick(3, 40)))
	}
	e.Phase("one preemption")
	modes := []string{"lifo"}
	if e.Thorough {
		modes = []string{"lifo", "fifo", "fresh", "capture"}
	}
	for _, m := range modes {
		for _, a := range ps {
			n := count(m, a).n
			parts := n/400 + 1
			for _, b := range ps {
				for k := 0; k < parts; k++ {
					if e.Mine() {
						e.Do("one", m, strconv.Itoa(k), strconv.Itoa(parts), a, b)
					}
				}
			}
		}
	}
	e.Phase("two preemptions")
	limit := e.Pick(60, 2000)
	for _, m := range modes {
		for _, a := range ps {
			g := count(m, a).g
			for _, b := range ps {
				n := count(m, b).n
				step := 1 + n/limit
				for i := 1; i <= g; i++ {
					if e.Mine() {
						e.Do("two", m, strconv.Itoa(i), strconv.Itoa(step), a, b)
					}
				}
			}
		}
	}
	e.Phase("three threads")
	short := []string{ps[0], ps[2], ps[4], ps[8], `if true {yield 1; idem 2}`, `&& {yield 1; idem true} {idem true}`, `when true {yield x}`, `while {[exists z] ? false true} {set z 1; yield w}`}
	if !e.Thorough {
		short = short[2:]
	}
	gen.Product(func(s []string) {
		g := count("lifo", s[0]).g
		for i := 1; i <= g; i++ {
			if e.Mine() {
				e.Do("three", "lifo", strconv.Itoa(i), s[0], s[1], s[2])
			}
		}
	}, short, short, short)
	e.Phase("creation")
	few := []string{ps[0], ps[5], ps[14], ps[17]}
	n := count("create", "idem a").n
	for _, a := range few {
		for _, b := range few {
			parts := n/100 + 1
			for k := 0; k < parts; k++ {
				if e.Mine() {
					e.Do("one", "create capture", strconv.Itoa(k), strconv.Itoa(parts), a, b)
				}
			}
		}
	}
	e.Phase("processes of several interpreters")
	yp := ln(`
if true {yield a; idem 1} else {yield b}
if {yield c} {idem 1} elseif {yield d} {idem 2} else {yield e; idem 3}
while {yield w} {yield b; break}
loop i [list (a b)] {yield $i}
when {yield v} {{== r0} {yield y; idem 1} {idem 2}}
&& {yield p; idem true} {yield q; idem true}
|| {yield p; idem false} {yield q; idem false}
closure f {a} {yield $a; idem f$a}; f [yield z]
catch {yield t; error x} error m {yield $m; idem h}
list (2 1) foreach e {yield $e}
set c [coroutine {yield 1; yield 2; idem 3}]; $c wait; yield [$c wait]; $c wait
ensemble e {((yield) a)} {macro s {a} {yield $a; idem e}}; e q s
eval {yield 1; eval {yield 2; return 3}}
alias z (eval {yield k; idem al}); z
`)
	order := func(k, n int, f func(string)) {
		var abc []string
		for i := 0; i < k; i++ {
			abc = append(abc, strconv.Itoa(i))
		}
		gen.Seqs(abc, n, func(s []string) { f(strings.Join(s, "")) })
	}
	for _, a := range yp {
		for _, b := range yp {
			order(2, 6, func(o string) {
				if e.Mine() {
					e.Do("procs", o, a, b)
				}
			})
			for _, c := range yp[:e.Pick(8, len(yp))] {
				order(3, e.Pick(3, 5), func(o string) {
					if e.Mine() {
						e.Do("procs", o, a, b, c)
					}
				})
			}
		}
	}
	e.Phase("processes of one interpreter")
	pre := `set n 0; closure inc {a} {set n [+ $n 1]; yield "$a$n"; set n [+ $n 1]; idem "$a$n"}; closure get2 {} {tuple ($n [yield g] $n)}; idem 0`
	sh := append(append([]string{}, yp...), ln(`
inc x
tuple ([inc y] $n [inc z] $n)
get2
loop i [list (1 2)] {inc $i; set n [+ $n 10]}
while {$n < 30} {set n [+ $n 10]; inc w}
closure inc {a} {yield other; idem $a}; inc q
unset n; yield u; set n 0
if {inc c; idem true} {inc t}
catch {inc e; error "$n"} error m {inc $m}
`)...)
	for _, a := range sh {
		for _, b := range sh {
			order(2, 6, func(o string) {
				if e.Mine() {
					e.Do("shared", o, pre, a, b)
				}
			})
			if !e.Thorough {
				continue
			}
			for _, c := range sh {
				order(3, 5, func(o string) {
					if e.Mine() {
						e.Do("shared", o, pre, a, b, c)
					}
				})
			}
		}
	}
}
