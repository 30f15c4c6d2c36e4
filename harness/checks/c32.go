package checks

import (
	"fmt"
	"strconv"
	"strings"

	"helena/core"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C32",
		Space: "all words and scripts up to a size over every construct, compiled and executed with the resolvers of an embedder, which log every resolution, refuse names, fail, or are absent, and commands which log their arguments, suspend any number of times (resumable or not) and give every result code. " +
			"Every program is driven in every way: by the evaluator as a script, by sentence and by word; as a flattened list of words; with constants in place of words; with and without positions; in one go, stopped at every single operation, at all operations in turn, interrupted and reset at every operation, by two states interleaved at every operation; resumed after every suspension. " +
			"State: log of calls and outcome of a program under a set of resolvers.",
		Assume: []string{interp, "a command does not keep the slice of its arguments after it returns"},
		Enum:   enumC32,
		Eval: map[string]func([]string) mc.Out{
			"engine": evalEngine, "words": evalEngineWord, "const": evalEngineConst, "resolve": evalResolve,
		},
	})
}

// The world of the embedder, on the side of the implementation ---------------

type host32 struct {
	log  []string
	vars map[string]core.Value
}

func newHost32() *host32 { return &host32{vars: vars32()} }

func vars32() map[string]core.Value {
	ix := func(i int64) core.Selector {
		_, s := core.CreateIndexedSelector(core.INT(i))
		return s
	}
	return map[string]core.Value{
		"a": core.STR("1"), "n": core.STR("a"), "t": core.TUPLE([]core.Value{core.STR("a"), core.STR("n")}),
		"l":   core.LIST([]core.Value{core.STR("a"), core.STR("e1"), core.TUPLE([]core.Value{})}),
		"d":   core.DICT(map[string]core.Value{"k": core.STR("n"), "1": core.LIST([]core.Value{core.STR("x")})}),
		"q":   core.NewQualifiedValue(core.STR("l"), []core.Selector{ix(1)}),
		"e":   core.TUPLE([]core.Value{}),
		"nil": core.NIL, "i": core.INT(2),
	}
}

func refVars32() map[string]ref.Value {
	return map[string]ref.Value{
		"a": ref.Str("1"), "n": ref.Str("a"), "t": &ref.Tuple{E: []ref.Value{ref.Str("a"), ref.Str("n")}},
		"l":   &ref.List{E: []ref.Value{ref.Str("a"), ref.Str("e1"), &ref.Tuple{}}},
		"d":   &ref.Dict{M: map[string]ref.Value{"k": ref.Str("n"), "1": &ref.List{E: []ref.Value{ref.Str("x")}}}},
		"q":   &ref.Qual{Src: ref.Str("l"), Sel: []ref.Sel{{K: 'i', Vals: []ref.Value{ref.Int(1)}}}},
		"e":   &ref.Tuple{},
		"nil": ref.Nil{}, "i": ref.Int(2),
	}
}

type vars32res struct{ h *host32 }

func (v vars32res) Resolve(name string) core.Value {
	v.h.log = append(v.h.log, "var "+name)
	if x, k := v.h.vars[name]; k {
		return x
	}
	return nil
}

type cmds32res struct{ h *host32 }

func (c cmds32res) Resolve(name core.Value) core.Command {
	c.h.log = append(c.h.log, "cmd "+impl.Canon(name))
	r, s := core.ValueToString(name)
	if r.Code != core.ResultCode_OK {
		if name.Type() == core.ValueType_LIST {
			return cmd32{"c"}
		}
		return nil
	}
	switch s {
	case "^":
		return core.LAST_RESULT
	case "|>":
		return core.SHIFT_LAST_FRAME_RESULT
	case "Y", "Z", "W":
		return resumable32{cmd32{s}}
	}
	if strings.Contains(kinds32, " "+s+" ") {
		return cmd32{s}
	}
	return nil
}

const kinds32 = " c u er br ct rt pa y nl "

type cmd32 struct{ kind string }

func (c cmd32) Execute(args []core.Value, context any) core.Result {
	h, k := context.(*host32)
	if !k {
		return core.ERROR("wrong context")
	}
	h.log = append(h.log, "run "+impl.Canon(core.TUPLE(args)))
	var arg core.Value = core.NIL
	if len(args) > 1 {
		arg = args[len(args)-1]
	}
	switch c.kind {
	case "c":
		return core.OK(arg)
	case "u":
		return core.OK(core.TUPLE(append([]core.Value{}, args[1:]...)))
	case "nl":
		return core.OK(core.NIL)
	case "er":
		return core.ERROR("failed")
	case "br":
		return core.BREAK(arg)
	case "ct":
		return core.CONTINUE(arg)
	case "rt":
		return core.RETURN(arg)
	case "pa":
		return core.CUSTOM_RESULT(core.CustomResultCode{Name: "pass"}, arg)
	}
	return core.YIELD_STATE(arg, 1)
}

type resumable32 struct{ cmd32 }

func (c resumable32) Resume(r core.Result, context any) core.Result {
	h, k := context.(*host32)
	if !k {
		return core.ERROR("wrong context")
	}
	n, k := r.Data.(int)
	if !k {
		return core.ERROR("lost state")
	}
	h.log = append(h.log, fmt.Sprintf("resume %s %d %s", c.kind, n, impl.CanonResult(r)))
	if n < 2 {
		return core.YIELD_STATE(core.TUPLE([]core.Value{r.Value, core.INT(int64(n))}), n+1)
	}
	switch c.kind {
	case "Z":
		return core.ERROR("failed later")
	case "W":
		return core.BREAK(r.Value)
	}
	return core.OK(core.LIST([]core.Value{r.Value}))
}

type sels32res struct{ h *host32 }

func (s sels32res) Resolve(rules []core.Value) (core.Result, core.Selector) {
	s.h.log = append(s.h.log, "sel "+impl.Canon(core.TUPLE(rules)))
	switch impl.Canon(core.TUPLE(rules)) {
	case `(("bad"))`:
		return core.ERROR("bad rules"), nil
	case `(("brk"))`:
		return core.BREAK(core.STR("rules")), nil
	case `(("none"))`:
		return core.OK(core.NIL), nil
	}
	return core.OK(core.NIL), hostSel{s.h, rules}
}

type hostSel struct {
	h     *host32
	rules []core.Value
}

func (s hostSel) Apply(v core.Value) core.Result {
	if t, k := v.(core.TupleValue); k {
		out := make([]core.Value, len(t.Values))
		for i, x := range t.Values {
			r := s.Apply(x)
			if r.Code != core.ResultCode_OK {
				return r
			}
			out[i] = r.Value
		}
		return core.OK(core.TUPLE(out))
	}
	s.h.log = append(s.h.log, "apply "+impl.Canon(core.TUPLE(s.rules))+" "+impl.Canon(v))
	switch impl.Canon(core.TUPLE(s.rules)) {
	case `(("err"))`:
		return core.ERROR("refused")
	case `(("stop"))`:
		return core.RETURN(v)
	case `(("n"))`:
		return core.OK(core.STR("n"))
	case `(("id"))`:
		return core.OK(v)
	}
	return core.OK(core.LIST([]core.Value{v, core.TUPLE(s.rules)}))
}

// The same world on the side of the reference --------------------------------

type refHost32 struct {
	log  []string
	vars map[string]ref.Value
}

func (h *refHost32) add(s string) { h.log = append(h.log, s) }

func okRef(v ref.Value) ref.Result { return ref.Result{C: ref.OK, V: v} }

func (h *refHost32) resolvers(absent string) *ref.Host {
	host := &ref.Host{}
	if !strings.Contains(absent, "v") {
		host.Var = func(name string) ref.Value {
			h.add("var " + name)
			if v, k := h.vars[name]; k {
				return v
			}
			return nil
		}
	}
	if !strings.Contains(absent, "c") {
		host.Cmd = func(v ref.Value) ref.Command {
			h.add("cmd " + ref.Canon(v))
			name, k := ref.Text(v)
			if _, list := v.(*ref.List); list {
				name = "c"
			} else if !k {
				return nil
			}
			switch name {
			case "^":
				return ref.LastResult
			case "|>":
				return ref.ShiftResult
			}
			if !strings.Contains(kinds32+"Y Z W ", " "+name+" ") || name == "" {
				return nil
			}
			return ref.HostFunc(func(args []ref.Value, f *ref.Fiber) ref.Result { return h.run(name, args, f) })
		}
	}
	if !strings.Contains(absent, "s") {
		host.Sel = func(rules []ref.Value) (ref.Result, func(ref.Value) ref.Result) {
			text := ref.Canon(&ref.Tuple{E: rules})
			h.add("sel " + text)
			switch text {
			case `(("bad"))`:
				return ref.Result{C: ref.ERROR, V: ref.Str("bad rules")}, nil
			case `(("brk"))`:
				return ref.Result{C: ref.BREAK, V: ref.Str("rules")}, nil
			case `(("none"))`:
				return okRef(ref.Nil{}), nil
			}
			var apply func(v ref.Value) ref.Result
			apply = func(v ref.Value) ref.Result {
				if t, k := v.(*ref.Tuple); k {
					out := &ref.Tuple{}
					for _, x := range t.E {
						r := apply(x)
						if r.C != ref.OK {
							return r
						}
						out.E = append(out.E, r.V)
					}
					return okRef(out)
				}
				h.add("apply " + text + " " + ref.Canon(v))
				switch text {
				case `(("err"))`:
					return ref.Result{C: ref.ERROR, V: ref.Str("refused")}
				case `(("stop"))`:
					return ref.Result{C: ref.RETURN, V: v}
				case `(("n"))`:
					return okRef(ref.Str("n"))
				case `(("id"))`:
					return okRef(v)
				}
				return okRef(&ref.List{E: []ref.Value{v, &ref.Tuple{E: rules}}})
			}
			return okRef(ref.Nil{}), apply
		}
	}
	return host
}

func (h *refHost32) run(kind string, args []ref.Value, f *ref.Fiber) ref.Result {
	h.add("run " + ref.Canon(&ref.Tuple{E: args}))
	var arg ref.Value = ref.Nil{}
	if len(args) > 1 {
		arg = args[len(args)-1]
	}
	switch kind {
	case "c":
		return okRef(arg)
	case "u":
		return okRef(&ref.Tuple{E: args[1:]})
	case "nl":
		return okRef(ref.Nil{})
	case "er":
		return ref.Result{C: ref.ERROR, V: ref.Str("failed")}
	case "br":
		return ref.Result{C: ref.BREAK, V: arg}
	case "ct":
		return ref.Result{C: ref.CONTINUE, V: arg}
	case "rt":
		return ref.Result{C: ref.RETURN, V: arg}
	case "pa":
		return ref.Result{C: ref.PASS, V: arg}
	}
	v := f.Yield(arg)
	if kind == "y" {
		return okRef(v)
	}
	for n := 1; ; n++ {
		h.add(fmt.Sprintf("resume %s %d yield %s", kind, n, ref.Canon(v)))
		if n == 2 {
			break
		}
		v = f.Yield(&ref.Tuple{E: []ref.Value{v, ref.Int(int64(n))}})
	}
	switch kind {
	case "Z":
		return ref.Result{C: ref.ERROR, V: ref.Str("failed later")}
	case "W":
		return ref.Result{C: ref.BREAK, V: v}
	}
	return okRef(&ref.List{E: []ref.Value{v}})
}

// refTrace runs the body to its end; the outcomes are part of the log.
func refTrace32(absent string, body func(s *ref.Scope, f *ref.Fiber) ref.Result) (log []string, used int) {
	w := ref.NewWorldWith("/nonexistent", nil)
	defer w.Close()
	h := &refHost32{vars: refVars32()}
	s := ref.HostScope(h.resolvers(absent))
	f := w.Start(func(f *ref.Fiber) ref.Result { return body(s, f) })
	for i := 0; ; i++ {
		r := f.Resume()
		h.add("= " + r.C.String() + " " + ref.Canon(r.V))
		if r.C != ref.YIELD || i >= impl.MaxYields {
			return h.log, w.Used()
		}
		f.In(ref.Str(impl.ResumeValue(i)))
	}
}

// Driving the implementation --------------------------------------------------

func executor32(h *host32, absent string) *core.Executor {
	x := &core.Executor{Context: h}
	if !strings.Contains(absent, "v") {
		x.VariableResolver = vars32res{h}
	}
	if !strings.Contains(absent, "c") {
		x.CommandResolver = cmds32res{h}
	}
	if !strings.Contains(absent, "s") {
		x.SelectorResolver = sels32res{h}
	}
	return x
}

func evaluator32(h *host32, absent string) core.Evaluator {
	x := executor32(h, absent)
	return core.NewCompilingEvaluator(x.VariableResolver, x.CommandResolver, x.SelectorResolver, h)
}

// run32 is one execution in progress.
type run32 struct {
	h     *host32
	x     *core.Executor
	p     *core.Program
	st    *core.ProgramState
	n     int // of suspensions
	ended bool
}

func newRun32(p *core.Program, absent string) *run32 {
	h := newHost32()
	return &run32{h: h, x: executor32(h, absent), p: p, st: core.NewProgramState()}
}

// to runs until an operation (-1: the end).
func (r *run32) to(stop int) {
	for !r.ended {
		var res core.Result
		if stop < 0 {
			res = r.x.Execute(r.p, r.st)
		} else {
			res = r.x.ExecuteUntil(r.p, r.st, uint(stop))
			if res.Code == core.ResultCode_OK {
				if res.Value != core.NIL {
					r.h.log = append(r.h.log, "stopped with "+impl.CanonResult(res))
				}
				return
			}
		}
		r.h.log = append(r.h.log, "= "+impl.CanonResult(res))
		if res.Code != core.ResultCode_YIELD || r.n >= impl.MaxYields {
			r.ended = true
			return
		}
		r.st.Result = core.Result{Code: r.st.Result.Code, Value: core.STR(impl.ResumeValue(r.n)), Data: r.st.Result.Data}
		r.n++
	}
}

func differ32(how string, want, got []string) string {
	a, b := strings.Join(want, " | "), strings.Join(got, " | ")
	if a == b {
		return ""
	}
	return fmt.Sprintf("%s: expected %s, got %s", how, a, b)
}

// drive32 executes a program in all the ways and compares the logs.
func drive32(p *core.Program, absent string, want []string, light bool) (diff string, runs int) {
	n := len(p.OpCodes)
	try := func(how string, f func(r *run32)) bool {
		r := newRun32(p, absent)
		if c := impl.Guard(func() { f(r) }); c != "" {
			r.h.log = append(r.h.log, c)
		}
		runs++
		diff = differ32(how, want, r.h.log)
		return diff == ""
	}
	if !try("one go", func(r *run32) { r.to(-1) }) {
		return
	}
	if !try("all operations in turn", func(r *run32) {
		for i := 0; i <= n+1; i++ {
			r.to(i)
		}
		r.to(-1)
	}) {
		return
	}
	if light {
		return
	}
	for i := 0; i < n; i++ {
		if !try(fmt.Sprintf("stopped at operation %d", i), func(r *run32) { r.to(i); r.to(i); r.to(-1) }) {
			return
		}
		if !try(fmt.Sprintf("reset at operation %d", i), func(r *run32) {
			r.to(i)
			r.st.Reset()
			r.h.log, r.n, r.ended = nil, 0, false
			r.to(-1)
		}) {
			return
		}
		// another state of the same program and executor in between
		r := newRun32(p, absent)
		other := &run32{h: r.h, x: r.x, p: p, st: core.NewProgramState()}
		var second []string
		if c := impl.Guard(func() {
			r.to(i)
			first := r.h.log
			r.h.log = nil
			other.to(-1)
			second = r.h.log
			r.h.log = first
			r.to(-1)
		}); c != "" {
			r.h.log = append(r.h.log, c)
		}
		runs += 2
		if diff = differ32(fmt.Sprintf("interleaved at operation %d", i), want, r.h.log); diff != "" {
			return
		}
		if diff = differ32(fmt.Sprintf("in the middle of another at operation %d", i), want, second); diff != "" {
			return
		}
	}
	// once more, from the start of a used state
	try("reset at the end", func(r *run32) {
		r.to(-1)
		r.st.Reset()
		r.h.log, r.n, r.ended = nil, 0, false
		r.to(-1)
	})
	return
}

// firstPart is the log until the first outcome.
func firstPart(log []string) []string {
	for i, l := range log {
		if strings.HasPrefix(l, "= ") {
			return log[:i+1]
		}
	}
	return log
}

func parse32(src string) (*core.Script, *core.Script, *ref.Script, string) {
	m, msg := ref.Parse(src)
	sc, msg2 := impl.Parse(src, false)
	ps, _ := impl.Parse(src, true)
	if (msg == "") != (msg2 == "") {
		return nil, nil, nil, fmt.Sprintf("parsing: expected %q, got %q", msg, msg2)
	}
	return sc, ps, m, ""
}

func compile32(f func(c core.Compiler) *core.Program, positions bool) (p *core.Program, msg string) {
	var o *core.CompilerOptions
	if positions {
		o = &core.CompilerOptions{CapturePositions: true}
	}
	defer func() {
		if e := recover(); e != nil {
			if _, k := e.(core.SyntaxError); k {
				msg = "syntax error"
				return
			}
			msg = fmt.Sprint("host panic: ", e)
		}
	}()
	p = f(core.NewCompiler(o))
	if positions && len(p.OpCodePositions) != len(p.OpCodes) {
		msg = "positions do not match the operations"
	}
	return
}

// evalEngine: f[0] script, f[1] absent resolvers, f[2] "light" not to stop at
// every operation.
func evalEngine(f []string) (o mc.Out) {
	src, absent, light := f[0], f[1], f[2] == "light"
	sc, ps, m, d := parse32(src)
	if d != "" || sc == nil {
		o.Diff, o.Skip = d, d == ""
		return
	}
	whole := func(m *ref.Script) func(s *ref.Scope, f *ref.Fiber) ref.Result {
		return func(s *ref.Scope, f *ref.Fiber) ref.Result { return s.Eval(m, f) }
	}
	want, used := refTrace32(absent, whole(m))
	o.Steps = used
	o.States = []uint64{mc.Hash(append(want, absent)...)}
	bad := ref.Invalid(m) != "" && len(m.Sents) > 0
	evaluate := func(how string, want []string, f func(e core.Evaluator) core.Result) bool {
		h := newHost32()
		if c := impl.Guard(func() { h.log = append(h.log, "= "+impl.CanonResult(f(evaluator32(h, absent)))) }); c != "" {
			h.log = append(h.log, c)
		}
		o.Traces++
		o.Diff = differ32(how, firstPart(want), h.log)
		return o.Diff == ""
	}
	if !evaluate("script by the evaluator", want, func(e core.Evaluator) core.Result { return e.EvaluateScript(*sc) }) {
		return
	}
	for i, se := range sc.Sentences {
		one, u := refTrace32(absent, whole(&ref.Script{Sents: m.Sents[i : i+1]}))
		o.Steps += u
		if !evaluate(fmt.Sprintf("sentence %d by the evaluator", i), one, func(e core.Evaluator) core.Result { return e.EvaluateSentence(se) }) {
			return
		}
	}
	for _, positions := range []bool{false, true} {
		s := sc
		if positions {
			s = ps
		}
		for _, kind := range []string{"script", "words"} {
			exp := want
			if kind == "words" && !bad {
				exp, used = refTrace32(absent, func(s *ref.Scope, f *ref.Fiber) ref.Result { return s.Flat(m, f) })
				o.Steps += used
			}
			p, msg := compile32(func(c core.Compiler) *core.Program {
				if kind == "words" {
					return c.CompileSentences(s.Sentences)
				}
				return c.CompileScript(*s)
			}, positions)
			if bad || msg != "" {
				if !bad || msg != "syntax error" {
					o.Diff = fmt.Sprintf("compiling the %s: expected %q, got %q", kind, ref.Invalid(m), msg)
					return
				}
				continue
			}
			if kind == "script" && p.Empty() != (len(m.Sents) == 0) {
				o.Diff = "only the program of an empty script is empty"
				return
			}
			d, n := drive32(p, absent, exp, light || positions)
			o.Traces += n
			if d != "" {
				o.Diff = kind + ", " + d
				return
			}
		}
	}
	return
}

// evalEngineWord: the words of a script, one at a time: f[0] script, f[1]
// absent resolvers.
func evalEngineWord(f []string) (o mc.Out) {
	absent := f[1]
	sc, _, m, d := parse32(f[0])
	if d != "" || sc == nil {
		o.Diff, o.Skip = d, d == ""
		return
	}
	for i, se := range m.Sents {
		for j, mw := range se.Words {
			if ref.Classify(mw) == ref.WIgnored {
				continue
			}
			w := sc.Sentences[i].Words[j].Word
			single := true
			bad := ref.Invalid(&ref.Script{Sents: []*ref.Sentence{{Words: []*ref.Word{mw}}}})
			want, used := refTrace32(absent, func(s *ref.Scope, f *ref.Fiber) ref.Result {
				if bad != "" {
					return ref.Result{C: ref.ERROR, V: ref.Str(bad)}
				}
				vs, r := s.EvalWord(mw, f)
				if r.C != ref.OK {
					return r
				}
				if single = len(vs) == 1; !single {
					return okRef(ref.Nil{})
				}
				return okRef(vs[0])
			})
			o.Steps += used
			o.States = append(o.States, mc.Hash(want...))
			h := newHost32()
			if c := impl.Guard(func() {
				r := evaluator32(h, absent).EvaluateWord(w)
				if !single && r.Code == core.ResultCode_OK {
					r = core.OK(core.NIL)
				}
				h.log = append(h.log, "= "+impl.CanonResult(r))
			}); c != "" {
				h.log = append(h.log, c)
			}
			o.Traces++
			if o.Diff = differ32("word by the evaluator", firstPart(want), h.log); o.Diff != "" {
				return
			}
			if !single || bad != "" {
				continue
			}
			for k, compile := range []func(c core.Compiler) *core.Program{
				func(c core.Compiler) *core.Program { return c.CompileWord(w) },
				func(c core.Compiler) *core.Program {
					return c.CompileSentence(core.Sentence{Words: []core.WordOrValue{{Word: w}}})
				},
			} {
				p, msg := compile32(compile, false)
				if msg != "" {
					o.Diff = "compiling a word: " + msg
					return
				}
				d, n := drive32(p, absent, want, false)
				o.Traces += n
				if d != "" {
					o.Diff = []string{"word, ", "sentence of a word, "}[k] + d
					return
				}
			}
		}
	}
	return
}

// consts32 are the values of words given as values.
func consts32(i int) (core.Value, ref.Value) {
	switch i {
	case 0:
		return core.STR("$a"), ref.Str("$a")
	case 1:
		return core.TUPLE([]core.Value{core.STR("a"), core.STR("[c]")}), &ref.Tuple{E: []ref.Value{ref.Str("a"), ref.Str("[c]")}}
	case 2:
		return core.NIL, ref.Nil{}
	case 3:
		return core.LIST([]core.Value{}), &ref.List{}
	}
	return core.STR("c"), ref.Str("c")
}

// evalEngineConst: f[0] script, each of its words in turn replaced by values.
func evalEngineConst(f []string) (o mc.Out) {
	sc, _, m, d := parse32(f[0])
	if d != "" || sc == nil || ref.Invalid(m) != "" {
		o.Diff, o.Skip = d, d == ""
		return
	}
	for i := range sc.Sentences {
		for j := range sc.Sentences[i].Words {
			for c := 0; c < 5; c++ {
				v, rv := consts32(c)
				keep, rkeep := sc.Sentences[i].Words[j], m.Sents[i].Words[j]
				sc.Sentences[i].Words[j] = core.WordOrValue{Value: v}
				m.Sents[i].Words[j] = &ref.Word{V: rv}
				want, used := refTrace32("", func(s *ref.Scope, f *ref.Fiber) ref.Result { return s.Eval(m, f) })
				o.Steps += used
				o.States = append(o.States, mc.Hash(want...))
				p, msg := compile32(func(c core.Compiler) *core.Program { return c.CompileScript(*sc) }, false)
				if msg != "" {
					o.Diff = "compiling: " + msg
					return
				}
				d, n := drive32(p, "", want, true)
				o.Traces += n
				if d == "" {
					p, _ = compile32(func(c core.Compiler) *core.Program { return c.CompileConstant(v) }, false)
					d, n = drive32(p, "vcs", []string{"= ok " + ref.Canon(rv)}, false)
					o.Traces += n
				}
				sc.Sentences[i].Words[j], m.Sents[i].Words[j] = keep, rkeep
				if d != "" {
					o.Diff = fmt.Sprintf("word %d of sentence %d replaced by %s: %s", j, i, ref.Canon(rv), d)
					return
				}
			}
		}
	}
	return
}

// evalResolve resolves a value through an executor: f[0] term, f[1] absent.
func evalResolve(f []string) (o mc.Out) {
	v, rv := term32(f[0])
	want, used := refTrace32(f[1], func(s *ref.Scope, _ *ref.Fiber) ref.Result { return s.Resolve(rv) })
	o.Steps, o.Traces = used, 1
	o.States = []uint64{mc.Hash(want...)}
	h := newHost32()
	if c := impl.Guard(func() {
		h.log = append(h.log, "= "+impl.CanonResult(executor32(h, f[1]).ResolveValue(v)))
	}); c != "" {
		h.log = append(h.log, c)
	}
	o.Diff = differ32("resolving", want, h.log)
	return
}

// term32 reads a value: names, (tuples), and q, i... for other values.
func term32(s string) (core.Value, ref.Value) {
	words := strings.Fields(strings.ReplaceAll(strings.ReplaceAll(s, "(", " ( "), ")", " ) "))
	at := 0
	var read func() (core.Value, ref.Value)
	read = func() (core.Value, ref.Value) {
		w := words[at]
		at++
		switch w {
		case "(":
			var a []core.Value
			b := &ref.Tuple{}
			for words[at] != ")" {
				x, y := read()
				a, b.E = append(a, x), append(b.E, y)
			}
			at++
			return core.TUPLE(a), b
		case "NIL":
			return core.NIL, ref.Nil{}
		case "LIST":
			return core.LIST([]core.Value{core.STR("a")}), &ref.List{E: []ref.Value{ref.Str("a")}}
		case "INT":
			return core.INT(3), ref.Int(3)
		case "Q":
			return vars32()["q"], refVars32()["q"]
		case "QQ": // of a tuple, by key then index
			t, rt := core.TUPLE([]core.Value{core.STR("d"), core.STR("d")}), &ref.Tuple{E: []ref.Value{ref.Str("d"), ref.Str("d")}}
			_, k := core.CreateKeyedSelector([]core.Value{core.STR("1")})
			_, i := core.CreateIndexedSelector(core.INT(0))
			return core.NewQualifiedValue(t, []core.Selector{k, i}),
				&ref.Qual{Src: rt, Sel: []ref.Sel{{K: 'k', Vals: []ref.Value{ref.Str("1")}}, {K: 'i', Vals: []ref.Value{ref.Int(0)}}}}
		case "QX": // fails
			_, i := core.CreateIndexedSelector(core.INT(9))
			return core.NewQualifiedValue(core.STR("l"), []core.Selector{i, i}),
				&ref.Qual{Src: ref.Str("l"), Sel: []ref.Sel{{K: 'i', Vals: []ref.Value{ref.Int(9)}}, {K: 'i', Vals: []ref.Value{ref.Int(9)}}}}
		}
		return core.STR(w), ref.Str(w)
	}
	return read()
}

func enumC32(e *mc.Env) {
	all := func(kind string, f ...string) {
		if e.Mine() {
			e.Do(kind, f...)
		}
	}
	absents := []string{"", "v", "c", "s", "vc", "vs", "cs", "vcs"}
	pieces := []string{"$", "*", "a", "n", "t", "l", "d", "q", "[c 1]", "[Y 1]", "(k)", "(a n)", "{r}", "{id}", "{n}", "\"$a\"", "[er]", " ", "[c n]", "{$n; [c 2] s}"}
	e.Phase("words")
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(pieces, n, func(s []string) {
			w := strings.Join(s, "")
			all("words", w, "")
			if n < 3 {
				for _, a := range absents[1:] {
					all("words", w, a)
				}
				for _, c := range []string{"c %", "%", "u (% b) %", "u \"<%>\"", "c [u %]; u ^ %", "[u %] x"} {
					for _, a := range absents {
						all("engine", strings.ReplaceAll(c, "%", w), a, "")
					}
				}
			}
		})
	}
	e.Phase("longer words")
	gen.Seqs([]string{"$", "*", "a", "t", "q", "[Y 1]", "(a n)", "{r}", "\"$a\"", "[c n]"}, e.Pick(4, 5), func(s []string) {
		all("engine", "u "+strings.Join(s, ""), "", "light")
	})
	e.Phase("selectors of the embedder")
	sels := []string{"{r}", "{id}", "{n}", "{bad}", "{brk}", "{none}", "{err}", "{stop}", "{}", "{r s; t}", "{$t}", "{[Y 1]}", "{[er]}", "{$*t; id}", "[c 0]", "[Y 0]", "(k)", "(1)", "{$u}", "{()}", "{;}"}
	for _, src := range []string{"$a", "$t", "$l", "$d", "$q", "$$q", "$$n", "$(a t)", "$e", "$(a (d l))", "$[c x]", "$[u a $q]", "$$t", "a", "(a d)", "$nil", "$u", "$$$n", "$*t", "$*(a d)", "\"$a", "x$a", "$${a n}", "${a}", "{l}", "$*$n"} {
		tail := ""
		if src[0] == '"' {
			tail = "\""
		}
		for n := 1; n <= e.Pick(2, 3); n++ {
			gen.Seqs(sels, n, func(s []string) {
				w := src + strings.Join(s, "") + tail
				all("words", w, "")
				all("engine", "u "+w+" $n", "", pickLight(n > 1))
				if n == 1 {
					all("words", w, "s")
					all("engine", "u $["+"u "+w+"]; c ^", "", "")
					all("engine", "u $$[c "+w+"]; c ^", "", "")
				}
			})
		}
	}
	e.Phase("scripts")
	sents := ln("c 1\nu $a [c 2]\n^\n|> u\n|> c 9\ny\ny 5\nY 6\nZ 7\nW 8\ner 1\nbr b\nct\nrt (1 2)\npa p\nnl\nzz 1\n[] x\n$l 1\n$e\n$*t\n[c [Y 1]; u ^]\nu [y 1][y 2]\nu \"[Y 1]$a[|> c]\"\n()\n$u\nu (a [c 3; y ^] b)\nc [br q]\n#c\n\"\"\nu $[c a]\nu $l[y 1] $$q\n{Y} 3\n[u u] [u Y 2]\n[c |>] [c Y] 4\nu [^] [c 5; ^] [|> u]\n|>\na$(x)")
	for n := 1; n <= e.Pick(2, 3); n++ {
		gen.Seqs(sents, n, func(s []string) {
			all("engine", strings.Join(s, "; "), "", "")
			if n == 1 {
				for _, a := range absents[1:] {
					all("engine", s[0], a, "")
				}
			}
			if n < 3 {
				all("engine", "c 1; u ["+strings.Join(s, "\n")+"] $a", "", "")
				all("engine", "u x ("+strings.Join(s, "\n")+"); |> u $d("+s[0]+")", "", "")
				all("words", "["+strings.Join(s, ";")+"] ("+strings.Join(s, "; ")+") \"["+strings.Join(s, ";")+"]\"", "")
				all("const", strings.Join(s, "; "))
			}
		})
	}
	if !e.Thorough {
		gen.Seqs(sents, 3, func(s []string) { all("engine", strings.Join(s, "; "), "", "light") })
	}
	e.Phase("resolving values")
	atoms := ln("a\nn\nu\nNIL\nLIST\nINT\nQ\nQQ\nQX\n()\n(a n)\n(a u)\n(Q (n))\n(NIL)")
	for n := 0; n <= e.Pick(3, 4); n++ {
		gen.Seqs(atoms, n, func(s []string) {
			for _, a := range []string{"", "v", "cs"} {
				if n == 1 {
					all("resolve", s[0], a)
				}
				all("resolve", "("+strings.Join(s, " ")+")", a)
				if n == 2 {
					all("resolve", "(("+s[0]+") (("+s[1]+") "+s[0]+"))", a)
				}
			}
		})
	}
	e.Phase("long programs")
	for _, n := range []int{15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 129} {
		for _, w := range []string{"a", "$a", "[c 1]", "(b)", "$*t", "$l[c 1]", "\"$a.\"", "[y 1]"} {
			ws := strings.TrimSpace(strings.Repeat(w+" ", n))
			if w == "[y 1]" && n > 20 {
				continue
			}
			all("engine", "u "+ws, "", "light")
			all("engine", "c (["+strings.Repeat("u ", n)+w+"] "+ws+")", "", "light")
			all("engine", "c "+strings.Repeat("[c ", n)+w+strings.Repeat("]", n), "", "light")
			all("engine", "c "+strings.Repeat("(", n)+w+strings.Repeat(")", n), "", "light")
			all("engine", strings.Repeat("u "+w+"; ", n)+strconv.Itoa(n), "", "light")
		}
	}
}

func pickLight(b bool) string {
	if b {
		return "light"
	}
	return ""
}
