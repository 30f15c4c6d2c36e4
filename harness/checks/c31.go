package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"helena/core"
	hd "helena/helena_dialect"
	gos "helena/native/go_os"
	rx "helena/native/go_regexp"
	gslog "helena/native/go_slog"
	pd "helena/picol_dialect"

	"vharness/gen"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C31",
		Space: "the helena executable built from the working tree, given through its standard input all sequences of lines up to a length over complete, incomplete, malformed, failing, suspended and empty inputs, definitions, pipes, comments, strings, continuations, values of every kind, files, modules, native modules and Picol scripts; " +
			"and given as a file all texts made of the same lines. Output, error output and exit status are compared with those computed from the embedding interface by an independent session model (which inputs are complete is decided by the reference parser). State: output of the session.",
		Assume: []string{"results and error stacks of each input are those of the embedding interface, which the other checks decide", "standard input is not a terminal: prompts, line editing and colours are not observed", "the last line is ended by a newline"},
		Enum:   enumC31,
		Eval: map[string]func([]string) mc.Out{
			"shell": evalShell, "script": evalScriptFile, "args": evalArgs31,
		},
	})
}

var files31 = map[string]string{
	"ok.h":   "set x file\nidem \"$x!\"\n",
	"def.h":  "closure fromfile {} {\n  nope\n}\n",
	"bad.h":  "idem (a\n",
	"ill.h":  "idem )\n",
	"err.h":  "idem a\n  foo bar\n",
	"yld.h":  "yield 1; idem 2",
	"ret.h":  "return 4; idem 2",
	"mod.h":  "closure cmd {a} {idem <$a>}\nclosure bad {} {\n nope\n}\nexport cmd; export bad",
	"none":   "",
	"comm.h": "# only a comment\n#{ and\n a block }#\n",
}

// scratch31 makes the working directory of a session and enters it.
func scratch31() (dir string, leave func()) {
	dir, err := os.MkdirTemp("", "vh31")
	if err != nil {
		panic(err)
	}
	for n, c := range files31 {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(c), 0o600); err != nil {
			panic(err)
		}
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	return dir, func() {
		os.Chdir("/")
		os.RemoveAll(dir)
	}
}

func exe31() string { return filepath.Join(os.Getenv("VERIF_BIN"), "helena") }

// launch runs the executable in the scratch directory.
func launch(dir, in string, args ...string) (out, errs string, code int, bad string) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, exe31(), args...)
	c.Dir = dir
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + c.Dir, "TERM=dumb", "NO_COLOR=1"}
	c.Stdin = strings.NewReader(in)
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	if ctx.Err() != nil {
		return o.String(), e.String(), 0, "does not end"
	}
	var x *exec.ExitError
	if err != nil && !errors.As(err, &x) {
		panic(err)
	}
	return o.String(), e.String(), c.ProcessState.ExitCode(), ""
}

// session models the shell over the embedding interface.
type session struct {
	scope *hd.Scope
	reg   *hd.ModuleRegistry
	dir   string
	last  core.Value
	out   strings.Builder
	errs  strings.Builder
	ended bool
}

type exited struct{}

type cmd31 func(args []core.Value, scope *hd.Scope) core.Result

func (c cmd31) Execute(args []core.Value, context any) core.Result {
	return c(args, context.(*hd.Scope))
}

// logger31 replaces the logging command by one that writes into the session.
type logger31 struct{ s *session }

func (l logger31) Execute(args []core.Value, context any) core.Result {
	if len(args) < 2 {
		return core.ERROR(`wrong # args: should be "slog method ?arg ...?"`)
	}
	r, m := core.ValueToString(args[1])
	if r.Code != core.ResultCode_OK {
		return core.ERROR("invalid method name")
	}
	switch m {
	case "Debug", "Info", "Warn", "Error":
		if len(args) < 3 {
			return core.ERROR(`wrong # args: should be "slog ` + m + ` msg"`)
		}
		_, s := core.ValueToString(args[2])
		if m != "Debug" {
			l.s.errs.WriteString(strings.ToUpper(m) + " " + s + "\n")
		}
	}
	return core.OK(core.NIL)
}

func newSession(dir string) *session {
	s := &session{dir: dir, last: core.NIL}
	s.scope = hd.NewRootScope(&hd.ScopeOptions{CapturePositions: true, CaptureErrorStack: true})
	s.reg = hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: true, CaptureErrorStack: true})
	hd.InitCommandsForModule(s.scope, s.reg, dir)
	slog := func() *hd.Module {
		m := gslog.Initmodule()
		m.Scope.RegisterNamedCommand("slog", logger31{s})
		return m
	}
	natives := map[string]func() *hd.Module{"native/go_os": gos.Initmodule, "native/go_regexp": rx.Initmodule, "native/go_slog": slog}
	s.reg.Register("go:os", gos.Initmodule())
	s.reg.Register("go:regexp", rx.Initmodule())
	s.reg.Register("go:slog", slog())
	arity := func(usage string) core.Result { return core.ERROR(`wrong # args: should be "` + usage + `"`) }
	s.scope.RegisterNamedCommand("source", cmd31(func(a []core.Value, scope *hd.Scope) core.Result {
		if len(a) != 2 {
			return arity("source path")
		}
		_, p := core.ValueToString(a[1])
		data, err := os.ReadFile(p)
		if err != nil {
			return core.ERROR("error reading file: " + err.Error())
		}
		sc, msg := parse31(string(data), &p, true)
		if msg != "" {
			return core.ERROR(msg)
		}
		return hd.CreateContinuationValue(scope, scope.Compile(*sc))
	}))
	s.scope.RegisterNamedCommand("exit", cmd31(func(a []core.Value, scope *hd.Scope) core.Result {
		if len(a) != 1 {
			return arity("exit")
		}
		panic(exited{})
	}))
	s.scope.RegisterNamedCommand("picol", cmd31(func(a []core.Value, scope *hd.Scope) core.Result {
		if len(a) != 2 {
			return arity("picol script")
		}
		b, ok := a[1].(core.ScriptValue)
		if !ok {
			return core.ERROR("invalid script")
		}
		ps := pd.NewPicolScope(nil)
		pd.InitPicolCommands(ps)
		return ps.Evaluator.EvaluateScript(b.Script)
	}))
	s.scope.RegisterNamedCommand("load", cmd31(func(a []core.Value, scope *hd.Scope) core.Result {
		if len(a) != 3 {
			return arity("load path name")
		}
		_, p := core.ValueToString(a[1])
		_, n := core.ValueToString(a[2])
		init, ok := natives[p]
		if !ok {
			return core.ERROR("native module " + p + " not found")
		}
		s.reg.Register(n, init())
		return core.OK(core.NIL)
	}))
	return s
}

func parse31(src string, file *string, positions bool) (*core.Script, string) {
	var source *core.Source
	if positions {
		source = &core.Source{Content: &src, Filename: file}
	}
	r := core.NewParser(&core.ParserOptions{CapturePositions: positions}).ParseTokens(core.Tokenizer{}.Tokenize(src), source)
	if !r.Success {
		return nil, r.Message
	}
	return r.Script, ""
}

// incomplete tells whether more lines are needed.
func incomplete(src string) (yes bool, msg string) {
	toks := ref.Lex(src + "\n")
	if n := len(toks); toks[n-1].K == ref.KCont {
		return true, ""
	}
	_, msg = ref.Parse(src)
	for _, m := range []string{"unmatched left ", "unmatched here-string", "unmatched string", "unmatched tagged string", "unmatched block comment"} {
		if strings.HasPrefix(msg, m) {
			return true, ""
		}
	}
	return false, msg
}

func show31(v any) string {
	switch v := v.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, show31)
	case core.DictionaryValue:
		return hd.DisplayDictionaryValue(v, show31)
	case core.CommandValue:
		return "{#{command}#}"
	}
	return core.DefaultDisplayFunction(v)
}

func word31(v any) string {
	switch v.(type) {
	case core.ListValue:
		return "[list (...)]"
	case core.DictionaryValue:
		return "[dict (...)]"
	case core.ScriptValue:
		return "{...}"
	}
	return show31(v)
}

func value31(v core.Value) string {
	t := "?"
	switch v := v.(type) {
	case core.NilValue:
		t = "NIL"
	case core.BooleanValue:
		t = "BOOLEAN"
	case core.IntegerValue:
		t = "INTEGER"
	case core.RealValue:
		t = "REAL"
	case core.StringValue:
		t = "STRING"
	case core.ListValue:
		t = "LIST"
	case core.DictionaryValue:
		t = "DICTIONARY"
	case core.TupleValue:
		t = "TUPLE"
	case core.ScriptValue:
		t = "SCRIPT"
	case core.CommandValue:
		t = "COMMAND"
	case core.QualifiedValue:
		t = "QUALIFIED"
	case core.CustomValue:
		t = "CUSTOM[" + v.CustomType().Name + "]"
	}
	return core.Display(v, show31) + " # " + t + "\n"
}

func outcome31(r core.Result) (text string, ok bool) {
	switch r.Code {
	case core.ResultCode_OK:
		return value31(r.Value), true
	case core.ResultCode_ERROR:
		_, s := core.ValueToString(r.Value)
		return s + "\n", false
	}
	return "unexpected " + core.RESULT_CODE_NAME(r) + "\n", false
}

func (s *session) input(src string) {
	sc, msg := parse31(src, nil, true)
	if msg != "" {
		panic("the reference parser disagrees: " + msg)
	}
	p := s.scope.PrepareProcess(s.scope.Compile(*sc))
	p.SetResult(core.OK(s.last))
	r := p.Run()
	s.last = r.Value
	if r.Code == core.ResultCode_ERROR {
		st := r.Data.(*core.ErrorStack)
		for i := uint(0); i < st.Depth(); i++ {
			l := st.Level(i)
			fmt.Fprintf(&s.out, "[%d] ", i)
			switch {
			case l.Source != nil && l.Source.Filename != nil:
				s.out.WriteString(*l.Source.Filename)
			default:
				s.out.WriteString("(script)")
			}
			if l.Position != nil {
				fmt.Fprintf(&s.out, ":%d:%d: ", l.Position.Line+1, l.Position.Column+1)
			} else {
				s.out.WriteString(" ")
			}
			if l.Frame != nil {
				for k, w := range *l.Frame {
					if k > 0 {
						s.out.WriteString(" ")
					}
					s.out.WriteString(core.Display(w, word31))
				}
			}
			s.out.WriteString("\n")
		}
	}
	t, _ := outcome31(r)
	s.out.WriteString(t)
}

func (s *session) guard(f func()) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(exited); !ok {
				panic(e)
			}
			s.ended = true
		}
	}()
	f()
}

var stamp = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

func differ(what, exp, got string) string {
	if exp == got {
		return ""
	}
	return fmt.Sprintf("%s: expected %q, got %q", what, exp, got)
}

func evalShell(f []string) (o mc.Out) {
	dir, leave := scratch31()
	defer leave()
	s := newSession(dir)
	cmd := ""
	for _, l := range f {
		cmd += l
		more, msg := incomplete(cmd)
		if more {
			cmd += "\n"
			continue
		}
		if msg != "" {
			s.out.WriteString(msg + "\n")
		} else {
			s.guard(func() { s.input(cmd) })
		}
		o.Steps++
		cmd = ""
		if s.ended {
			break
		}
	}
	out, errs, code, bad := launch(dir, strings.Join(f, "\n")+"\n")
	o.Traces = 1
	o.States = []uint64{mc.Hash(strings.ReplaceAll(s.out.String(), dir, ""), s.errs.String())}
	if bad == "" {
		bad = differ("output", s.out.String(), out)
	}
	if bad == "" {
		bad = differ("error output", s.errs.String(), stamp.ReplaceAllString(errs, ""))
	}
	if bad == "" {
		bad = differ("exit status", "0", fmt.Sprint(code))
	}
	o.Diff = strings.ReplaceAll(bad, dir, "DIR")
	return
}

func evalScriptFile(f []string) (o mc.Out) {
	dir, leave := scratch31()
	defer leave()
	text := strings.Join(f, "\n")
	p := filepath.Join(dir, "main.h")
	if err := os.WriteFile(p, []byte(text), 0o600); err != nil {
		panic(err)
	}
	s := newSession(dir)
	var exp, experr string
	code := "0"
	_, msg := ref.Parse(text)
	if msg != "" {
		experr, code = msg+"\n", "255"
	} else {
		s.guard(func() {
			sc, m := parse31(text, nil, false)
			if m != "" {
				panic("the reference parser disagrees: " + m)
			}
			t, ok := outcome31(s.scope.PrepareProcess(s.scope.Compile(*sc)).Run())
			if ok {
				exp = t
			} else {
				experr, code = t, "255"
			}
		})
	}
	out, errs, c, bad := launch(dir, "", "main.h")
	o.Traces, o.Steps = 1, len(f)
	o.States = []uint64{mc.Hash(exp, experr)}
	if bad == "" {
		bad = differ("output", exp, out)
	}
	if bad == "" {
		bad = differ("error output", s.errs.String()+experr, stamp.ReplaceAllString(errs, ""))
	}
	if bad == "" {
		bad = differ("exit status", code, fmt.Sprint(c))
	}
	o.Diff = strings.ReplaceAll(bad, dir, "DIR")
	return
}

// evalArgs31 gives arguments that are not one readable file.
func evalArgs31(f []string) (o mc.Out) {
	dir, leave := scratch31()
	defer leave()
	exp, code := "Usage: helena [script]\n", "0"
	if len(f) == 1 {
		_, err := os.ReadFile(f[0])
		exp, code = "error reading file: "+err.Error()+"\n", "255"
	}
	out, errs, c, bad := launch(dir, "idem a\n", f...)
	o.Traces = 1
	o.States = []uint64{mc.Hash(exp)}
	for _, d := range []string{bad, differ("output", "", out), differ("error output", exp, errs), differ("exit status", code, fmt.Sprint(c))} {
		if o.Diff == "" {
			o.Diff = d
		}
	}
	return
}

func enumC31(e *mc.Env) {
	each := func(kind string, ls []string, n int) {
		gen.Seqs(ls, n, func(q []string) {
			if e.Mine() {
				e.Do(kind, append([]string{}, q...)...)
			}
		})
	}
	// lines that open, close and continue
	layout := []string{"", "set n [+ [idem $n] 1]", "|> idem", "(idem", " b)", "{", "}", "idem \"", "\" c", "foo a", "idem \\", "\\", "# c \\", "#{", "}#", "idem \"\"\"", "\"\"\"", "idem [", "])"}
	// lines that run something
	runs := []string{"", "idem a", "let k v; idem $k", "set n [+ $n 1]", "|> idem", "idem x; |> list ($n)", "foo bar", "error e", "error [list (a)]", "return r", "yield y", "break", "pass", "closure c {a} {foo $a [list (1)] {b} [dict (a b)]}", "c 1", "c $n",
		"while true {yield $n; error w}", "idem (a", " b)", "idem)", "source ok.h", "source err.h", "idem é"}
	e.Phase("layout")
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(layout, n, func(q []string) {
			if e.Mine() {
				e.Do("shell", append([]string{"let n0 0", "set n 0"}, append(append([]string{}, q...), "idem $n")...)...)
			}
		})
	}
	e.Phase("runs")
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(runs, n, func(q []string) {
			if e.Mine() {
				e.Do("shell", append([]string{"set n 0"}, append(append([]string{}, q...), "|> idem")...)...)
			}
		})
	}
	e.Phase("values")
	vals := ln("idem\nidem \"\"\nidem \"a b\"\nidem \"\\\"\\n\"\ntrue\n+ 1 2\n/ 1 3\n+ 1e300 1\nlist ()\nlist (a \"b c\" (d) {e})\nlist ([list (a)] [dict (k v)] [list ()])\ndict ()\ndict (a [list (b)])\ntuple ()\nidem (a b)\nidem (a [list (b)] [closure {} {}])\nidem {}\nidem {a; b # c}\nparse \"a b\"\nidem a[0]\nidem a(k)\nidem $[closure {} {}]\nclosure {} {}\nensemble {} {}\nnamespace {}\ncoroutine {}\nargspec (a ?b *c)\nlist ([argspec a])\nimport go:regexp\nimport go:regexp (regexp); regexp MustCompile a+\nlist ([closure {} {}])\ndict (c [closure {} {}])\nscope {}\nmacro {} {}\nproc {} {}\nmodule {}\nidem \"\\u00e9\\t\"\nlist (true [+ 1 1] [/ 1 2])\nidem []\nlist ([])")
	roles := []string{"@", "error [@]", "let v [@]; foo $v [idem $v] {x}", "return [@]", "yield [@]"}
	for _, v := range vals {
		for _, r := range roles {
			l := strings.ReplaceAll(r, "@", v)
			if e.Mine() {
				e.Do("shell", l, "|> idem", "", "[list (a b)]")
				e.Do("script", l)
				e.Do("script", "let a 1", l, "", "# end")
			}
		}
	}
	e.Phase("embedded")
	emb := ln("source\nsource a b\nsource none\nsource missing\nsource ok.h\nsource def.h\nfromfile\nsource bad.h\nsource ill.h\nsource err.h\nsource yld.h\nsource ret.h\nsource comm.h\nsource mod.h\nsource ()\nsource [list (a)]\nclosure s {f} {source $f; idem after}\ns ok.h\ns err.h\ns ret.h\nidem $x\n" +
		"picol\npicol a\npicol {}\npicol {+ 1 2}\npicol {set a 1; set a}\npicol {foo}\npicol {error e}\npicol {return r}\npicol {proc p {a} {+ $a 1}; p 2}\npicol a b\npicol (a b)\n" +
		"import mod.h\nimport mod.h m\nm import cmd\ncmd 1\nimport mod.h (bad)\nbad\nimport missing.h\nimport bad.h\nimport err.h\n" +
		"load\nload a b\nload native/go_os os2\nload native/go_regexp mod.h\nload a b c\nload () ()\nimport go:os\nimport os2 (os)\nimport go:os (os)\nos ReadFile ok.h\nos ReadFile missing\nos ReadFile\nos\nos Nope\nos ()\nos ReadFile ()\n" +
		"import go:regexp (regexp)\nregexp MatchString a+ baa\nregexp\nimport go:slog (slog)\nslog\nslog Info i\nslog Warn\nslog Error e\nslog Debug d\nslog Warn w\nslog ()\nslog Info ()\nexit 1\nexit\nexit a; idem b\nlet source 1\nidem after\nclosure source {a} {idem mine}")
	for n := 1; n <= 2; n++ {
		each("shell", emb, n)
	}
	pre := []string{"import go:os (os); import go:slog (slog)", "import mod.h m; m import cmd; m import bad"}
	more := ln("source ok.h\nsource def.h\nfromfile\nsource err.h\nsource yld.h\npicol {error e}\nbad\ncmd 1\nos ReadFile ok.h\nslog Error e\nslog Info i\nexit\nfoo\n|> idem\nload native/go_slog mod.h\nimport mod.h (slog)\nimport mod.h (cmd)")
	for n := 1; n <= e.Pick(2, 3); n++ {
		gen.Seqs(more, n, func(q []string) {
			if e.Mine() {
				e.Do("shell", append(append([]string{}, pre...), append(append([]string{}, q...), "|> idem")...)...)
			}
		})
	}
	e.Phase("stacks")
	defs := "closure c0 {} {nope 1}; macro m0 {} {c0}; proc p0 {} {m0}; closure g {(int a)} {idem $a}; closure h {} (int {idem z}); closure d {(?a [c0])} {idem $a}; closure w {v} {c0}; closure v {(w a)} {idem $a}; ensemble e {(v a)} {macro s {x} {c0}}; ensemble f {a} {macro s {x} {c0}}; alias al p0; namespace ns {closure c {} {c0}}; set co [coroutine {yield; c0}]; closure lg {a} {|> idem}"
	st := ln("c0\nm0\np0\ng z\nh\nd\nd [c0]\nv 1\ne 1 s 2\nf 1 s 2\nal\nns c\n[$co] wait\n$co wait\n(c0)\n((p0))\n(g z)\n[argspec ((int a))] set (z)\n[argspec ((w a))] set (z)\n[list (a b)] sort {c0}\nlist (a b) foreach x {c0}\nlist (a b) foreach x {idem [c0]}\nloop i {c0}\nwhile true {c0}\nif {c0} {}\nif true {p0}\nwhen {({c0} {})}\nwhen {w} {(a {})}\ncatch {c0} error e {p0}\ncatch {} finally {c0}\n! {c0}\n&& true {c0}\nidem \"[c0]\"\nidem $[c0]\nidem $[list (a)][z]\nidem $x(k)\nidem $[dict (a b)](c)\nscope {c0}\nnamespace {p0}\nensemble {} {c0}\nmodule {nope}\neval {c0}\neval (c0)\n[closure {} {c0}] call\n[[scope {}] eval {nope}]\nhelp nope\nc0 1\nidem a; c0\n  c0\nidem [\\\n")
	for n := 1; n <= 2; n++ {
		gen.Seqs(st, n, func(q []string) {
			if e.Mine() {
				e.Do("shell", append([]string{defs}, append(append([]string{}, q...), "|> lg")...)...)
				e.Do("script", append([]string{defs}, q...)...)
			}
		})
	}
	e.Phase("files")
	fl := append(append([]string{}, layout...), "idem a", "let k v; idem $k", "error e", "return r", "yield y", "source ok.h", "source bad.h", "import mod.h m; m bad", "exit", "foo bar", "picol {+ 1 2}", "import go:slog (slog); slog Error x")
	for n := 1; n <= e.Pick(2, 3); n++ {
		each("script", fl, n)
	}
	for _, a := range [][]string{{"missing.h"}, {""}, {"."}, {"ok.h", "ok.h"}, {"", ""}, {"ok.h", "err.h", "missing.h"}} {
		if e.Mine() {
			e.Do("args", a...)
		}
	}
}
