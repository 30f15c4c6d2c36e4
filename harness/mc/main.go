package mc

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var unlimited = os.Getenv("VH_ALL") != ""

const (
	hangAfter  = 40 * time.Second
	aloneLimit = 90 * time.Second
	shardRSS   = 3 << 30
)

func root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Main runs the command line.
func Main() {
	a := os.Args[1:]
	if len(a) < 2 {
		fmt.Println("usage: vh run|shard|item|replay ...")
		os.Exit(2)
	}
	switch a[0] {
	case "run":
		os.Exit(supervise(a[1]))
	case "shard": // ID k n upto dir
		k, _ := strconv.Atoi(a[2])
		n, _ := strconv.Atoi(a[3])
		upto, _ := strconv.Atoi(a[4])
		os.Exit(runShard(a[1], k, n, upto, a[5]))
	case "item": // ID file: evaluate one item
		os.Exit(runItem(a[1], a[2]))
	case "replay": // file
		os.Exit(replay(a[1]))
	}
	os.Exit(2)
}

func find(id string) *Check {
	c := Checks[id]
	if c == nil {
		fmt.Println("unknown check", id)
		os.Exit(2)
	}
	return c
}

func limits() {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
}

func budget() time.Duration {
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		return time.Duration(n) * time.Second
	}
	if thorough() {
		return 3 * time.Hour
	}
	return 400 * time.Second
}

func runShard(id string, k, n, upto int, dir string) int {
	limits()
	runtime.GOMAXPROCS(2)
	if f := os.Getenv("VH_PROFILE"); f != "" && k == 0 {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	c := find(id)
	var sl *slot
	if upto == 0 {
		var err error
		if sl, err = openSlot(dir, strconv.Itoa(k)); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	e := &Env{Thorough: thorough(), shard: k, n: n, upto: upto, stop: time.Now().Add(budget()), c: c,
		res: &shardResult{Complete: true}, states: map[uint64]struct{}{}, slot: sl}
	e.Phase("main")
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, k := r.(stopEnum); k {
					return
				}
				panic(r)
			}
		}()
		c.Enum(e)
	}()
	e.endPhase()
	sl.done()
	if upto > 0 {
		for _, v := range e.res.Violations {
			if v.Index == upto {
				fmt.Println("DIFF", v.Diff)
				return 1
			}
		}
		return 0
	}
	st := make([]byte, 0, 8*len(e.states))
	for s := range e.states {
		st = binary.LittleEndian.AppendUint64(st, s)
	}
	if err := os.WriteFile(filepath.Join(dir, strconv.Itoa(k)+".states"), st, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	b, _ := json.Marshal(e.res)
	if err := os.WriteFile(filepath.Join(dir, strconv.Itoa(k)+".res"), b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}

func runItem(id, file string) int {
	limits()
	c := find(id)
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var it Item
	if err := json.Unmarshal(b, &it); err != nil {
		fmt.Println(err)
		return 2
	}
	for k := 0; k < 5; k++ {
		o := c.Eval[it.Kind](it.F)
		if o.Diff != "" {
			fmt.Println("DIFF", o.Diff)
			return 1
		}
	}
	fmt.Println("no difference")
	return 0
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 2
	}
	dir, err := os.MkdirTemp("", "vh")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	how, diff := reproduce(v, dir, 0, time.Hour)
	fmt.Println(v.Item)
	if how == "" {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Println("reproduced", how+":", diff)
	return 1
}

// sub runs this program with arguments under a time and memory limit; the text
// tells how it ended ("" for a normal end).
func sub(limit time.Duration, args ...string) (code int, out string, bad string) {
	cmd := exec.Command(self(), args...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		return 2, "", "cannot start: " + err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	end := time.Now().Add(limit)
	for {
		select {
		case <-done:
			out = buf.String()
			code = cmd.ProcessState.ExitCode()
			if code != 0 && code != 1 {
				bad = "the process crashed: " + crashLine(out)
			}
			return
		case <-t.C:
			if time.Now().After(end) {
				cmd.Process.Kill()
				<-done
				return -1, buf.String(), fmt.Sprintf("no answer within %v", limit)
			}
			if rss(cmd.Process.Pid) > shardRSS {
				cmd.Process.Kill()
				<-done
				return -1, buf.String(), "memory exhausted"
			}
		}
	}
}

func crashLine(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if len(out) > 200 {
		out = out[:200]
	}
	return out
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// reproduce replays a violation: alone in a fresh process, then after the items
// that preceded it in its shard.
func reproduce(v Violation, dir string, k int, left time.Duration) (how, diff string) {
	f := filepath.Join(dir, fmt.Sprintf("item%d.json", k))
	b, _ := json.Marshal(v.Item)
	os.WriteFile(f, b, 0o644)
	code, out, bad := sub(aloneLimit, "item", v.Prop, f)
	if bad != "" {
		return "alone", bad
	}
	if code == 1 {
		return "alone", first(out)
	}
	if limit := min(10*time.Minute, left-aloneLimit); v.N > 0 && limit > 0 {
		code, out, bad = sub(limit, "shard", v.Prop, strconv.Itoa(v.Shard), strconv.Itoa(v.N), strconv.Itoa(v.Index), dir)
		if bad != "" && !strings.HasPrefix(bad, "no answer") {
			return "after the preceding items", bad
		}
		if code == 1 {
			return "after the preceding items", first(out)
		}
	}
	return "", ""
}

func first(out string) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "DIFF ") {
			return l[5:]
		}
	}
	return ""
}

func supervise(id string) int {
	start := time.Now()
	c := find(id)
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := 8
	if s := os.Getenv("VH_SHARDS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	type shard struct {
		cmd   *exec.Cmd
		out   bytes.Buffer
		done  chan error
		ended bool
		slot  *slot
		bad   string
	}
	sh := make([]*shard, n)
	for k := range sh {
		s := &shard{done: make(chan error, 1)}
		if s.slot, err = openSlot(dir, strconv.Itoa(k)); err != nil {
			fmt.Println(err)
			return 2
		}
		s.cmd = exec.Command(self(), "shard", id, strconv.Itoa(k), strconv.Itoa(n), "0", dir)
		s.cmd.Stdout = &s.out
		s.cmd.Stderr = &s.out
		if err := s.cmd.Start(); err != nil {
			fmt.Println(err)
			return 2
		}
		go func() { s.done <- s.cmd.Wait() }()
		sh[k] = s
	}
	kill := func(s *shard, why string) {
		s.cmd.Process.Kill()
		<-s.done
		s.ended = true
		s.bad = why
	}
	var viols []Violation
	stopped := false
	// failed examines the item at which a shard ended; one reproduced crash or
	// hang ends the exploration, as the other shards would most likely meet it.
	failed := func(k int) {
		s := sh[k]
		_, i, it, known := s.slot.get()
		if !known || stopped {
			return
		}
		v := Violation{Item: it, Diff: s.bad, Index: i, Shard: k, N: n, Prop: id, Fails: 1}
		left := time.Hour
		if !thorough() {
			left = 800*time.Second - time.Since(start)
		}
		how, diff := reproduce(v, dir, k, left)
		if how == "" {
			// A crash that cannot be reproduced is not believed; it is
			// reported as an incomplete exploration.
			fmt.Println("NOTE: shard", k, "ended early and this could not be reproduced:", s.bad, it)
			return
		}
		v.Diff, v.How = diff, how
		viols = append(viols, v)
		stopped = true
	}
	for running := n; running > 0; {
		time.Sleep(50 * time.Millisecond)
		running = 0
		for k, s := range sh {
			if s.ended {
				continue
			}
			select {
			case <-s.done:
				s.ended = true
				if code := s.cmd.ProcessState.ExitCode(); code != 0 {
					s.bad = "the process crashed: " + crashLine(s.out.String())
					failed(k)
				}
				continue
			default:
			}
			running++
			if stopped {
				kill(s, "")
			} else if t, _, _, known := s.slot.get(); known && time.Since(t) > hangAfter {
				kill(s, "hang")
				failed(k)
			} else if rss(s.cmd.Process.Pid) > shardRSS {
				kill(s, "memory exhausted")
				failed(k)
			}
		}
	}
	total := shardResult{Complete: true}
	states := map[uint64]struct{}{}
	phases := map[string]*Phase{}
	harness := ""
	for k, s := range sh {
		if b, err := os.ReadFile(filepath.Join(dir, strconv.Itoa(k)+".viol")); err == nil {
			for _, l := range bytes.Split(b, []byte("\n")) {
				var v Violation
				if len(l) > 0 && json.Unmarshal(l, &v) == nil {
					viols = append(viols, v)
				}
			}
		}
		if s.bad != "" {
			total.Complete = false
			if _, _, _, known := s.slot.get(); !known {
				harness = s.bad + "\n" + s.out.String()
			}
			continue
		}
		var r shardResult
		b, err := os.ReadFile(filepath.Join(dir, strconv.Itoa(k)+".res"))
		if err == nil {
			err = json.Unmarshal(b, &r)
		}
		if err != nil && stopped {
			total.Complete = false
			continue
		}
		if err != nil {
			harness = err.Error()
			continue
		}
		total.Items += r.Items
		total.Steps += r.Steps
		total.Traces += r.Traces
		total.Complete = total.Complete && r.Complete
		for _, p := range r.Phases {
			q := phases[p.Name]
			if q == nil {
				q = &Phase{Name: p.Name}
				phases[p.Name] = q
				total.Phases = append(total.Phases, q)
			}
			q.Items += p.Items
			q.Skip += p.Skip
			q.Ms = max(q.Ms, p.Ms)
		}
		if k == 0 {
			total.Samples = r.Samples
		}
		st, _ := os.ReadFile(filepath.Join(dir, strconv.Itoa(k)+".states"))
		for o := 0; o+8 <= len(st); o += 8 {
			states[binary.LittleEndian.Uint64(st[o:])] = struct{}{}
		}
	}
	if harness != "" && len(viols) == 0 {
		fmt.Println("the harness failed:", harness)
		return 2
	}
	known := findings(id)
	sort.SliceStable(viols, func(a, b int) bool { return viols[a].Index < viols[b].Index })
	reported := 0
	for k, v := range viols {
		if what, f := known[v.Item.Key()]; f {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, what)
			continue
		}
		if reported >= 5 && !unlimited {
			continue
		}
		if v.How == "" && reported < 3 {
			how, _ := reproduce(v, dir, 100+k, 10*time.Minute)
			if how == "" {
				how = fmt.Sprintf("%d times of 5 when found", v.Fails)
			}
			v.How = how
		}
		path := save(v)
		reported++
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  %s\n  %s (reproduced: %s)\n", v.Item, v.Diff, v.How)
	}
	wall := time.Since(start).Seconds()
	tier := "quick"
	if thorough() {
		tier = "thorough"
	}
	seedv, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var ph []map[string]interface{}
	for _, p := range total.Phases {
		if p.Items+p.Skip > 0 {
			ph = append(ph, map[string]interface{}{"name": p.Name, "items": p.Items, "outside_model_budget": p.Skip})
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seedv, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": len(states), "transitions": total.Steps, "traces_validated_against_impl": total.Traces,
			"items": total.Items, "phases": ph, "samples": total.Samples, "exhaustive": total.Complete, "explanation": c.Space,
		},
		"assumptions": c.Assume, "wall_s": wall, "violations": reported,
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	ed := filepath.Join(root(), "evidence")
	os.MkdirAll(ed, 0o755)
	if err := os.WriteFile(filepath.Join(ed, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d items, %d states, %d transitions, %d traces, exhaustive=%v, %.1fs\n", id, tier, total.Items, len(states), total.Steps, total.Traces, total.Complete, wall)
	for _, p := range total.Phases {
		if p.Items+p.Skip > 0 {
			fmt.Printf("  %s: %d (+%d skipped) %.1fs\n", p.Name, p.Items, p.Skip, float64(p.Ms)/1000)
		}
	}
	if reported > 0 {
		return 1
	}
	return 0
}

func save(v Violation) string {
	d := filepath.Join(root(), "replays")
	os.MkdirAll(d, 0o755)
	p := filepath.Join(d, v.Prop+"-"+v.Item.Key()+".json")
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

// findings reads the known findings of a property: lines
// "known: property=ID key=KEY what fails".
func findings(id string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root(), "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[0] == "known:" && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			out[f[2][4:]] = f[3]
		}
	}
	return out
}
