package checks

import (
	"context"
	"fmt"
	"log/slog"
	"maps"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	gos "helena/native/go_os"
	rx "helena/native/go_regexp"
	gslog "helena/native/go_slog"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C33",
		Space: "files: all contents up to a length over an alphabet of bytes (letters, line ends, NUL, quotes, multi-byte and invalid sequences) and large ones, under all kinds of names (spaces, multi-byte, relative parts, numbers, missing, directories, with a file as parent), and all histories up to a length of writing, truncating, removing and reading two files; " +
			"logs: all sequences up to a length of calls of every level with every form of message, under every minimal level of the logger, with changes of logger between calls; " +
			"modules: all sequences of instances and imports of the native modules in several interpreters. State: outcome, records.",
		Assume: []string{"the log/slog and os packages do what they document; files are read from a scratch directory"},
		Enum:   enumC33,
		Eval: map[string]func([]string) mc.Out{
			"file": evalFile33, "files": evalFiles33, "log": evalLog33, "mods": evalMods33,
		},
	})
}

func world33() *impl.World {
	w := &impl.World{}
	w.Scope = hd.NewRootScope(nil)
	reg := hd.NewModuleRegistry(nil)
	reg.Register("go:os", gos.Initmodule())
	reg.Register("go:slog", gslog.Initmodule())
	reg.Register("go:regexp", rx.Initmodule())
	hd.InitCommandsForModule(w.Scope, reg, "/nonexistent")
	return w
}

func call33(w *impl.World, name string, args ...core.Value) core.Result {
	all := append([]core.Value{core.STR(name)}, args...)
	return w.Scope.PrepareProcess(w.Scope.CompileArgs(all)).Run()
}

// evalFile33: one content (quoted) under one name.
func evalFile33(f []string) (o mc.Out) {
	content, err := strconv.Unquote(f[0])
	if err != nil {
		panic(err)
	}
	dir, err := os.MkdirTemp("", "vh33")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	os.Mkdir(filepath.Join(dir, "d"), 0o700)
	if !strings.HasSuffix(f[1], "!") {
		if err := os.WriteFile(filepath.Join(dir, f[1]), []byte(content), 0o600); err != nil {
			panic(err)
		}
	}
	name := dir + "/" + strings.TrimSuffix(f[1], "!")
	o.Traces, o.Steps = 1, 2
	o.States = []uint64{mc.Hash(f...)}
	if c := impl.Guard(func() {
		w := world33()
		if r := w.Eval("import go:os (os)"); !strings.HasPrefix(r[0], "ok") {
			o.Diff = "import: " + strings.Join(r, " | ")
			return
		}
		data, err := os.ReadFile(name)
		for k := 0; k < 2 && o.Diff == ""; k++ {
			r := call33(w, "os", core.STR("ReadFile"), core.STR(name))
			got := impl.CanonResult(r)
			switch {
			case err != nil && r.Code != core.ResultCode_ERROR:
				o.Diff = fmt.Sprintf("reading %q: expected an error, got %s", f[1], got)
			case err == nil && (r.Code != core.ResultCode_OK || r.Value != core.Value(core.STR(string(data)))):
				o.Diff = fmt.Sprintf("reading %q: expected %q, got %s", f[1], data, got)
			}
		}
		if now, _ := os.ReadFile(name); string(now) != string(data) {
			o.Diff = "the file changed"
		}
	}); c != "" {
		o.Diff = c
	}
	return
}

// evalFiles33: a history of changes of files a and b, both read after each.
func evalFiles33(f []string) (o mc.Out) {
	dir, err := os.MkdirTemp("", "vh33")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := world33()
	w.Eval("import go:os (os); set dir " + dir)
	w.Eval("closure read {n} {catch {os ReadFile \"${dir}/$n\"} error e {idem (failed)}}")
	model := map[string]string{}
	o.Traces = 1
	for i, op := range f {
		n, what, _ := strings.Cut(op, " ")
		p := filepath.Join(dir, n)
		switch what {
		case "rm":
			os.Remove(p)
			delete(model, n)
		case "trunc":
			if _, is := model[n]; is {
				os.Truncate(p, 1)
				model[n] = (model[n] + "\x00")[:1]
			}
		case "mv":
			if c, is := model[n]; is {
				os.Rename(p, filepath.Join(dir, "b"))
				delete(model, n)
				model["b"] = c
			}
		default:
			c := fmt.Sprintf("%s%d\n", what, i)
			if err := os.WriteFile(p, []byte(c), 0o600); err != nil {
				panic(err)
			}
			model[n] = c
		}
		want := ""
		for _, n := range []string{"a", "b"} {
			if c, is := model[n]; is {
				want += fmt.Sprintf("%q ", c)
			} else {
				want += `("failed") `
			}
		}
		r := w.Scope.PrepareProcess(w.Scope.CompileArgs([]core.Value{core.STR("read"), core.STR("a")})).Run()
		s := w.Scope.PrepareProcess(w.Scope.CompileArgs([]core.Value{core.STR("read"), core.STR("b")})).Run()
		got := impl.Canon(r.Value) + " " + impl.Canon(s.Value) + " "
		o.States = append(o.States, mc.Hash(want))
		o.Steps++
		if got != want {
			o.Diff = fmt.Sprintf("after %q: expected %s, got %s", strings.Join(f[:i+1], "; "), want, got)
			return
		}
	}
	return
}

// records33 is a log handler recording what it gets.
type records33 struct {
	min  slog.Level
	name string
	out  *[]string
}

func (h records33) Enabled(_ context.Context, l slog.Level) bool { return l >= h.min }
func (h records33) Handle(_ context.Context, r slog.Record) error {
	s := fmt.Sprintf("%s %s %q", h.name, r.Level, r.Message)
	r.Attrs(func(a slog.Attr) bool { s += " " + a.String(); return true })
	*h.out = append(*h.out, s)
	return nil
}
func (h records33) WithAttrs(a []slog.Attr) slog.Handler {
	h.name += fmt.Sprint(a)
	return h
}
func (h records33) WithGroup(g string) slog.Handler { h.name += g; return h }

var messages33 = map[string]string{
	"m": "m", `"two words"`: "two words", `""`: "", "\"\\\"q\\n\"": "\"q\n", "é世": "é世", "12": "12", "[int 7]": "7", "[real 1.5]": "1.5", "[true]": "true", "{a $b}": "a $b", `"%d %s"`: "%d %s", `"k=v"`: "k=v",
}

// evalLog33: steps are "LEVEL MESSAGE", or "min LEVEL" to change the logger.
func evalLog33(f []string) (o mc.Out) {
	var got, want []string
	old := slog.Default()
	defer slog.SetDefault(old)
	w := world33()
	w.Eval("import go:slog (slog)")
	min, gen := slog.LevelInfo, 0
	set := func() {
		slog.SetDefault(slog.New(records33{min, fmt.Sprint("logger", gen), &got}))
	}
	set()
	levels := map[string]slog.Level{"Debug": slog.LevelDebug, "Info": slog.LevelInfo, "Warn": slog.LevelWarn, "Error": slog.LevelError}
	o.Traces = 1
	for i, s := range f {
		m, msg, _ := strings.Cut(s, " ")
		o.Steps++
		if m == "min" {
			min, gen = levels[msg], gen+1
			set()
			continue
		}
		r := w.Eval("slog " + s)
		if l, is := levels[m]; is && l >= min {
			want = append(want, fmt.Sprintf("logger%d %s %q", gen, l, messages33[msg]))
		}
		if len(r) != 1 || r[0] != "ok nil" {
			o.Diff = fmt.Sprintf("step %d %q gives %v", i, s, r)
			return
		}
		if a, b := strings.Join(want, "; "), strings.Join(got, "; "); a != b {
			o.Diff = fmt.Sprintf("step %d %q: expected records %s, got %s", i, s, a, b)
			return
		}
	}
	o.States = []uint64{mc.Hash(append(want, fmt.Sprint(min))...)}
	return
}

// evalMods33: the steps are run in one of two interpreters, and compared with
// those of an interpreter of its own for each.
func evalMods33(f []string) (o mc.Out) {
	old := slog.Default()
	defer slog.SetDefault(old)
	var log []string
	slog.SetDefault(slog.New(records33{slog.LevelDebug, "", &log}))
	run := func(only int) (out []string) {
		var w [2]*impl.World
		for i, s := range f {
			k := int(s[0] - '0')
			if only >= 0 && k != only {
				continue
			}
			if w[k] == nil {
				w[k] = world33()
			}
			log = nil
			r := w[k].Eval(s[2:])
			out = append(out, fmt.Sprintf("%d %q: %s %s", i, s, strings.Join(r, " | "), strings.Join(log, ";")))
		}
		return
	}
	both, zero, one := run(-1), run(0), run(1)
	o.Traces, o.Steps = 3, 2*len(f)
	o.States = []uint64{mc.Hash(both...)}
	for i, s := range f {
		var x string
		if s[0] == '0' {
			x, zero = zero[0], zero[1:]
		} else {
			x, one = one[0], one[1:]
		}
		if both[i] != x {
			o.Diff = "alone " + x + ", with the other " + both[i]
			return
		}
	}
	return
}

func enumC33(e *mc.Env) {
	e.Phase("files")
	names := ln("a\na b\né世.txt\nd/x\nd/../y\n./z\n1\n-o\n{}\n$a\na\\b\nnone!\nd!\n!\nnone/x!\nA.")
	bytes := []string{"a", "\n", "\r", "\x00", "\"", "\xff", "\u00e9", "\ufeff", "{", "\x1a"}
	for n := 0; n <= e.Pick(3, 5); n++ {
		gen.Seqs(bytes, n, func(s []string) {
			e.Emit("file", strconv.Quote(strings.Join(s, "")), "f")
		})
	}
	for n := 0; n <= 1; n++ {
		gen.Seqs(bytes, n, func(s []string) {
			for _, name := range names {
				e.Emit("file", strconv.Quote(strings.Join(s, "")), name)
			}
		})
	}
	for _, size := range []int{511, 512, 513, 4095, 4096, 4097, 65536, 1 << 20} {
		for _, unit := range []string{"x", "\n", "é\x00"} {
			e.Emit("file", strconv.Quote(strings.Repeat(unit, size)), "f")
		}
	}
	ops := ln("a x\nb y\na rm\nb rm\na trunc\nb trunc\na mv\na \nb zz")
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(ops, n, func(s []string) { e.Emit("files", s...) })
	}
	e.Phase("logs")
	var calls []string
	for _, l := range sp("Debug Info Warn Error") {
		calls = append(calls, "min "+l)
		for _, m := range slices.Sorted(maps.Keys(messages33)) {
			calls = append(calls, l+" "+m)
		}
	}
	for n := 1; n <= e.Pick(2, 3); n++ {
		gen.Seqs(calls, n, func(s []string) { e.Emit("log", s...) })
	}
	few := ln("min Debug\nmin Info\nmin Warn\nmin Error\nDebug m\nInfo m\nWarn m\nError m\nInfo \"two words\"\nError \"\"")
	for n := 3; n <= e.Pick(4, 5); n++ {
		gen.Seqs(few, n, func(s []string) { e.Emit("log", s...) })
	}
	e.Phase("modules")
	acts := ln("import go:os o; o exports\nimport go:slog s; s exports\nimport go:regexp r; r exports\nimport go:os (os); catch {os ReadFile /nonexistent/x} error e {idem failed}\nimport go:slog (slog); slog Info m\nimport go:regexp (regexp); regexp MatchString a+ baa\nimport go:os (slog)\ncatch {os x} error e {idem $e}\ncatch {slog Warn w} error e {idem $e}\nimport go:os ((os slog)); catch {slog x} error e {idem $e}\nclosure os {*a} {idem mine}; os 1\nimport go:os o; catch {o import os slog}; catch {slog Error 1} error e {idem $e}\nmodule m {import go:slog (slog); closure k {} {slog Warn k}; export k}; m import k; k\nimport go:none")
	var two []string
	for _, a := range acts {
		two = append(two, "0 "+a, "1 "+a)
	}
	for n := 1; n <= e.Pick(2, 3); n++ {
		gen.Seqs(two, n, func(s []string) { e.Emit("mods", s...) })
	}
}
