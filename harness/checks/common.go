// Package checks defines the explored spaces and the oracles, one per property.
package checks

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"

	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

// history evaluates a sequence of scripts on the model and on the
// implementation and compares every observation.
func history(steps []string, capture bool, files map[string]string) mc.Out {
	return historyDir(steps, impl.Options{Capture: capture}, files)
}

func historyDir(steps []string, opt impl.Options, files map[string]string) (o mc.Out) {
	exp, sts, used := runRef(steps, opt.Dir, files)
	if exp == nil {
		o.Skip = true
		return
	}
	o.States = sts
	o.Steps = used
	o.Traces = 1
	w := impl.NewWorld(opt)
	for k, src := range steps {
		got := w.Eval(src)
		if d := diffTrace(exp[k], got); d != "" {
			o.Diff = fmt.Sprintf("step %d %q: %s", k, src, d)
			return
		}
	}
	return
}

func diffTrace(exp, got []string) string {
	a, b := strings.Join(exp, " | "), strings.Join(got, " | ")
	if a == b || listing(a) && listing(b) && sortedWords(a) == sortedWords(b) {
		return ""
	}
	return fmt.Sprintf("expected %s, got %s", a, b)
}

// listing recognizes the results of subcommand queries, whose order does not
// matter.
func listing(s string) bool { return strings.HasPrefix(s, `ok ["subcommands" `) }

func sortedWords(s string) string {
	w := strings.Fields(strings.Trim(s[3:], "[]"))
	sort.Strings(w)
	return strings.Join(w, " ")
}

func runRef(steps []string, dir string, files map[string]string) (out [][]string, sts []uint64, used int) {
	if dir == "" {
		dir = "/nonexistent"
	}
	w := ref.NewWorldWith(dir, files)
	defer w.Close()
	defer func() {
		if e := recover(); e != nil {
			if _, k := e.(ref.OutOfFuel); k {
				out = nil
				return
			}
			panic(fmt.Sprintf("model: %v in %q", e, steps))
		}
	}()
	for _, src := range steps {
		tr := impl.EvalRef(w, src)
		out = append(out, tr)
		sts = append(sts, mc.Hash(append([]string{w.Snapshot()}, tr...)...))
	}
	audit(steps, out)
	return out, sts, w.Used()
}

// audit reports, when VH_AUDIT names a file, setup steps that fail in the model
// (what follows would be vacuous) and how often steps fail at all.
func audit(steps []string, out [][]string) {
	name := os.Getenv("VH_AUDIT")
	if name == "" {
		return
	}
	var b strings.Builder
	for k, tr := range out {
		if bad := !strings.HasPrefix(tr[len(tr)-1], "ok"); k == 0 && len(out) > 1 {
			if bad {
				fmt.Fprintf(&b, "setup %.150q: %.80s\n", steps[k], tr[len(tr)-1])
			}
		} else {
			fmt.Fprintf(&b, "step %v\n", !bad)
			if bad {
				fmt.Fprintf(&b, "msg %.90s\n", tr[len(tr)-1])
			}
		}
	}
	f, err := os.OpenFile(name, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o600)
	if err == nil {
		f.WriteString(b.String())
		f.Close()
	}
}

// progs are the evaluators of items made of the steps of a history.
var progs = map[string]func([]string) mc.Out{
	"prog":  func(f []string) mc.Out { return history(f, false, nil) },
	"progc": func(f []string) mc.Out { return history(f, true, nil) },
	"progb": func(f []string) mc.Out {
		o := history(f, false, nil)
		if o.Diff != "" || o.Skip {
			return o
		}
		o2 := history(f, true, nil)
		o2.Steps += o.Steps
		o2.Traces++
		return o2
	},
}

func with(m map[string]func([]string) mc.Out, more map[string]func([]string) mc.Out) map[string]func([]string) mc.Out {
	out := map[string]func([]string) mc.Out{}
	for k, v := range m {
		out[k] = v
	}
	for k, v := range more {
		out[k] = v
	}
	return out
}

const interp = "the reference model (harness/ref) states the intended semantics; it was written from the documentation and the tests, independently of the implementation's mechanisms"

func sp(s string) []string { return strings.Fields(s) }
func ln(s string) []string { return mc.Lines(s) }

// must checks that a preamble is valid (a mistake in it would make the
// exploration vacuous).
func must(src string) {
	w := ref.NewWorldWith("/nonexistent", nil)
	defer w.Close()
	r := impl.EvalRef(w, src)
	if len(r) != 1 || !strings.HasPrefix(r[0], "ok") {
		panic(fmt.Sprintf("bad preamble: %v %q", r, src))
	}
	if _, is := w.Probe("log"); is {
		if r := impl.EvalRef(w, "set log $log; T 1"); len(r) != 1 || r[0] != `ok "1"` {
			panic(fmt.Sprintf("bad logger in preamble %q: %v", src, r))
		}
	}
}

// setup is a set of definitions; each item gets those it mentions only, since
// evaluating all of them would dominate the cost of the exploration.
type setup struct {
	names []string
	res   []*regexp.Regexp
	text  []string
}

// newSetup reads lines "name definition"; the name @ stands for always.
func newSetup(s string) *setup {
	u := &setup{}
	for _, l := range ln(s) {
		n, t, _ := strings.Cut(l, " ")
		u.names = append(u.names, n)
		u.text = append(u.text, t)
		u.res = append(u.res, regexp.MustCompile(`\b`+regexp.QuoteMeta(n)+`\b`))
	}
	return u
}
func (u *setup) all() string { return strings.Join(u.text, "; ") }
func (u *setup) forText(ts ...string) string {
	in := make([]bool, len(u.names))
	all := strings.Join(ts, "\n")
	for again := true; again; {
		again = false
		for i := range u.names {
			if !in[i] && (u.names[i] == "@" || u.res[i].MatchString(all)) {
				in[i] = true
				again = true
				all += "\n" + u.text[i]
			}
		}
	}
	var out []string
	for i, t := range u.text {
		if in[i] {
			out = append(out, t)
		}
	}
	return strings.Join(out, "; ")
}
