package ref

import (
	"math"
	"strings"
)

func arity(sig string) Result { return errf(`wrong # args: should be "%s"`, sig) }

var (
	invalidSub = Result{ERROR, Str("invalid subcommand name")}
)

func unknownSub(s string) Result { return errf(`unknown subcommand "%s"`, s) }

// fixed declares a command taking lo to hi arguments (hi<0: unbounded), name
// included.
func fixed(sig string, lo, hi int, exec cmdFunc) *builtin {
	return &builtin{
		exec: func(a []Value, s *Scope, f *Fiber) Result {
			if len(a) < lo || (hi >= 0 && len(a) > hi) {
				return arity(sig)
			}
			return exec(a, s, f)
		},
		help: func(a []Value, o HelpOpt, s *Scope) Result {
			if hi >= 0 && len(a) > hi {
				return arity(sig)
			}
			return ok(Str(sig))
		},
	}
}

func (s *Scope) def(name string, c Command) { s.ctx.cmds[name] = c }

func (s *Scope) register(name Value, c Command) *Result {
	n, k := text(name)
	if !k {
		r := errf("invalid command name")
		return &r
	}
	s.def(n, c)
	return nil
}

func initCommands(w *World, s *Scope) { initCommandsAt(w, s, w.rootDir) }

func initCommandsAt(w *World, s *Scope, dir string) {
	initBasic(s)
	initVars(s)
	initMath(s)
	initLogic(s)
	initControls(s)
	initData(s)
	initSpec(s)
	initDefs(s)
	initModules(w, s, dir)
}

// basic ----------------------------------------------------------------------

func initBasic(s *Scope) {
	s.def("idem", fixed("idem value", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result { return ok(a[1]) }))
	opt := func(a []Value) Value {
		if len(a) == 2 {
			return a[1]
		}
		return Nil{}
	}
	s.def("return", fixed("return ?result?", 1, 2, func(a []Value, _ *Scope, _ *Fiber) Result { return Result{RETURN, opt(a)} }))
	s.def("yield", fixed("yield ?result?", 1, 2, func(a []Value, _ *Scope, f *Fiber) Result { return ok(f.Yield(opt(a))) }))
	s.def("error", fixed("error message", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result {
		if _, k := text(a[1]); !k {
			return errf("invalid message")
		}
		return Result{ERROR, a[1]}
	}))
	s.def("break", fixed("break", 1, 1, func(a []Value, _ *Scope, _ *Fiber) Result { return Result{BREAK, Nil{}} }))
	s.def("continue", fixed("continue", 1, 1, func(a []Value, _ *Scope, _ *Fiber) Result { return Result{CONTINUE, Nil{}} }))
	s.def("pass", fixed("pass", 1, 1, func(a []Value, _ *Scope, _ *Fiber) Result { return Result{PASS, Nil{}} }))
	s.def("eval", fixed("eval body", 2, 2, func(a []Value, s *Scope, f *Fiber) Result { return s.EvalBody(a[1], f) }))
	s.def("help", &builtin{
		exec: func(a []Value, s *Scope, f *Fiber) Result {
			if len(a) < 2 {
				return arity("help command ?arg ...?")
			}
			c := s.command(a[1])
			n, k := text(a[1])
			if c == nil {
				if k {
					return errf(`unknown command "%s"`, n)
				}
				return errf("invalid command name")
			}
			if h, is := c.(Helper); is {
				return h.Help(a[1:], HelpOpt{}, s)
			}
			if k {
				return errf(`no help for command "%s"`, n)
			}
			return errf("no help for command")
		},
		help: func([]Value, HelpOpt, *Scope) Result { return ok(Str("help command ?arg ...?")) },
	})
	s.def("^", lastResult)
	s.def("|>", shiftResult)
}

// execPrefix runs a command whose leading word is a tuple.
func execPrefix(a []Value, s *Scope, f *Fiber) Result {
	for len(a) > 0 {
		t, k := a[0].(*Tuple)
		if !k {
			break
		}
		a = append(append([]Value{}, t.E...), a[1:]...)
	}
	if len(a) == 0 {
		return okNil()
	}
	if f != nil {
		f.tick()
	}
	c := s.command(a[0])
	if c == nil {
		n, k := text(a[0])
		if !k {
			return errf("invalid command name")
		}
		return errf(`cannot resolve command "%s"`, n)
	}
	return unyield(c.Exec(a, s, f), f)
}

// unyield suspends the fiber when a command that cannot be resumed ended with a
// YIELD result; the command then evaluates to the value it is resumed with.
func unyield(r Result, f *Fiber) Result {
	if r.C == YIELD {
		return ok(f.Yield(r.V))
	}
	return r
}

// variables ------------------------------------------------------------------

// destructure assigns a value to a shape: all the names are checked first, so
// that a failure leaves no trace.
func destructure(shape, v Value, check func(name Value) *Result, set func(name string, v Value)) Result {
	var walk func(shape, v Value, f func(name, v Value) *Result) *Result
	walk = func(shape, v Value, f func(name, v Value) *Result) *Result {
		t, k := shape.(*Tuple)
		if !k {
			return f(shape, v)
		}
		vt, k := v.(*Tuple)
		if !k || len(vt.E) < len(t.E) {
			r := errf("bad value shape")
			return &r
		}
		for i, e := range t.E {
			if r := walk(e, vt.E[i], f); r != nil {
				return r
			}
		}
		return nil
	}
	if r := walk(shape, v, func(n, _ Value) *Result { return check(n) }); r != nil {
		return *r
	}
	walk(shape, v, func(n, v Value) *Result {
		t, _ := text(n)
		set(t, v)
		return nil
	})
	return ok(v)
}

func (s *Scope) checkSet(n Value) *Result {
	name, k := text(n)
	var r Result
	switch {
	case !k:
		r = errf("invalid variable name")
	case s.isLocal(name):
		r = errf(`cannot redefine local "%s"`, name)
	case s.ctx.consts[name] != nil:
		r = errf(`cannot redefine constant "%s"`, name)
	default:
		return nil
	}
	return &r
}

func (s *Scope) get(v Value, def Value) Result {
	name, k := text(v)
	if !k {
		return errf("invalid variable name")
	}
	if x := s.variable(name); x != nil {
		return ok(x)
	}
	if def != nil {
		return ok(def)
	}
	return errf(`cannot get "%s": no such variable`, name)
}

func initVars(s *Scope) {
	s.def("let", fixed("let constname value", 3, 3, func(a []Value, s *Scope, _ *Fiber) Result {
		return destructure(a[1], a[2], func(n Value) *Result {
			name, k := text(n)
			var r Result
			switch {
			case !k:
				r = errf("invalid constant name")
			case s.isLocal(name):
				r = errf(`cannot define constant "%s": local already exists`, name)
			case s.ctx.consts[name] != nil:
				r = errf(`cannot redefine constant "%s"`, name)
			case s.ctx.vars[name] != nil:
				r = errf(`cannot define constant "%s": variable already exists`, name)
			default:
				return nil
			}
			return &r
		}, func(n string, v Value) { s.ctx.consts[n] = v })
	}))
	s.def("set", fixed("set varname value", 3, 3, func(a []Value, s *Scope, _ *Fiber) Result {
		return destructure(a[1], a[2], s.checkSet, func(n string, v Value) { s.ctx.vars[n] = v })
	}))
	s.def("get", fixed("get varname ?default?", 2, 3, func(a []Value, s *Scope, _ *Fiber) Result {
		var def Value
		if len(a) == 3 {
			def = a[2]
		}
		switch a[1].(type) {
		case *Tuple:
			if def != nil {
				return errf("cannot use default with name tuples")
			}
			return s.resolve(a[1])
		case *Qual:
			r := s.resolve(a[1])
			if r.C != OK && def != nil {
				return ok(def)
			}
			return r
		}
		return s.get(a[1], def)
	}))
	s.def("exists", fixed("exists varname", 2, 2, func(a []Value, s *Scope, _ *Fiber) Result {
		switch a[1].(type) {
		case *Tuple:
			return errf("invalid value")
		case *Qual:
			return ok(Bool(s.resolve(a[1]).C == OK))
		}
		return ok(Bool(s.get(a[1], nil).C == OK))
	}))
	s.def("unset", fixed("unset varname", 2, 2, func(a []Value, s *Scope, _ *Fiber) Result {
		var names []string
		var walk func(v Value) *Result
		walk = func(v Value) *Result {
			if t, k := v.(*Tuple); k {
				for _, e := range t.E {
					if r := walk(e); r != nil {
						return r
					}
				}
				return nil
			}
			name, k := text(v)
			var r Result
			switch {
			case !k:
				r = errf("invalid variable name")
			case s.isLocal(name):
				r = errf(`cannot unset local "%s"`, name)
			case s.ctx.consts[name] != nil:
				r = errf(`cannot unset constant "%s"`, name)
			case s.ctx.vars[name] == nil:
				r = errf(`cannot unset "%s": no such variable`, name)
			default:
				names = append(names, name)
				return nil
			}
			return &r
		}
		if r := walk(a[1]); r != nil {
			return *r
		}
		for _, n := range names {
			delete(s.ctx.vars, n)
		}
		return okNil()
	}))
}

// numbers --------------------------------------------------------------------

func num(f float64) Value {
	if f == math.Trunc(f) && f >= -(1<<63) && f < 1<<63 {
		return Int(int64(f))
	}
	return Real(f)
}

func reals(a []Value) ([]float64, *Result) {
	out := make([]float64, len(a))
	for i, v := range a {
		f, e := toReal(v)
		if e != nil {
			return nil, e
		}
		out[i] = f
	}
	return out, nil
}

func initMath(s *Scope) {
	op := func(sig string, lo int, fold func(fs []float64) float64) {
		s.def(sig[:1], fixed(sig, lo, -1, func(a []Value, _ *Scope, _ *Fiber) Result {
			fs, e := reals(a[1:])
			if e != nil {
				return *e
			}
			return ok(num(fold(fs)))
		}))
	}
	op("+ number ?number ...?", 2, func(fs []float64) float64 {
		t := 0.0
		for _, f := range fs {
			t += f
		}
		return t
	})
	op("- number ?number ...?", 2, func(fs []float64) float64 {
		if len(fs) == 1 {
			return -fs[0]
		}
		t := fs[0]
		for _, f := range fs[1:] {
			t -= f
		}
		return t
	})
	op("* number ?number ...?", 2, func(fs []float64) float64 {
		t := fs[0]
		for _, f := range fs[1:] {
			t *= f
		}
		return t
	})
	op("/ number number ?number ...?", 3, func(fs []float64) float64 {
		t := fs[0]
		for _, f := range fs[1:] {
			t /= f
		}
		return t
	})
}

var numberCommand Command = cmdFunc(execNumber)

var comparisons = map[string]struct {
	eq bool
	f  func(a, b float64) bool
	s  func(a, b string) bool
}{
	"==": {true, func(a, b float64) bool { return a == b }, func(a, b string) bool { return a == b }},
	"!=": {false, func(a, b float64) bool { return a != b }, func(a, b string) bool { return a != b }},
	">":  {false, func(a, b float64) bool { return a > b }, func(a, b string) bool { return a > b }},
	">=": {true, func(a, b float64) bool { return a >= b }, func(a, b string) bool { return a >= b }},
	"<":  {false, func(a, b float64) bool { return a < b }, func(a, b string) bool { return a < b }},
	"<=": {true, func(a, b float64) bool { return a <= b }, func(a, b string) bool { return a <= b }},
}

// same reports whether two values are the very same scalar or command.
func same(a, b Value) bool {
	switch a := a.(type) {
	case Nil, Bool, Int, Real, Str:
		return a == b
	case *Cmd:
		c, k := b.(*Cmd)
		return k && a.C == c.C
	}
	return false
}

func strs(ss ...string) *List {
	l := &List{}
	for _, s := range ss {
		l.E = append(l.E, Str(s))
	}
	return l
}

func execNumber(a []Value, _ *Scope, _ *Fiber) Result {
	x, e := toReal(a[0])
	if e != nil {
		return *e
	}
	if len(a) == 1 {
		return ok(num(x))
	}
	op, k := text(a[1])
	if !k {
		return invalidSub
	}
	switch op {
	case "subcommands":
		if len(a) != 2 {
			return arity("<number> subcommands")
		}
		return ok(strs("subcommands", "+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<="))
	case "+", "-", "*", "/":
		if len(a)%2 == 0 {
			return errf(`wrong # operands: should be "operand ?operator operand? ?...?"`)
		}
		// sum of products
		sum, term := 0.0, x
		for i := 1; i < len(a); i += 2 {
			op, k := text(a[i])
			if !k {
				return errf("invalid operator")
			}
			if !strings.Contains("+-*/", op) || len(op) != 1 {
				return errf(`invalid operator "%s"`, op)
			}
			y, e := toReal(a[i+1])
			if e != nil {
				return *e
			}
			switch op {
			case "*":
				term *= y
			case "/":
				term /= y
			case "+":
				sum, term = sum+term, y
			case "-":
				sum, term = sum+term, -y
			}
		}
		return ok(num(sum + term))
	}
	if c, k := comparisons[op]; k {
		if len(a) != 3 {
			return errf(`wrong # operands: should be "operand1 %s operand2"`, op)
		}
		if same(a[0], a[2]) {
			return ok(Bool(c.eq))
		}
		y, e := toReal(a[2])
		if e != nil {
			return *e
		}
		return ok(Bool(c.f(x, y)))
	}
	return unknownSub(op)
}

// logic ----------------------------------------------------------------------

func initLogic(s *Scope) {
	for _, b := range []bool{true, false} {
		name := "false"
		if b {
			name = "true"
		}
		sigs := map[string]string{"subcommands": name + " subcommands", "?": name + " ? arg ?arg?", "!?": name + " !? arg ?arg?"}
		s.def(name, &builtin{
			exec: func(a []Value, _ *Scope, _ *Fiber) Result {
				if len(a) == 1 {
					return ok(Bool(b))
				}
				sub, k := text(a[1])
				if !k {
					return invalidSub
				}
				switch sub {
				case "subcommands":
					if len(a) != 2 {
						return arity(sigs[sub])
					}
					return ok(strs("subcommands", "?", "!?"))
				case "?", "!?":
					if len(a) < 3 || len(a) > 4 {
						return arity(sigs[sub])
					}
					if b == (sub == "?") {
						return ok(a[2])
					}
					if len(a) == 4 {
						return ok(a[3])
					}
					return okNil()
				}
				return unknownSub(sub)
			},
			help: func(a []Value, _ HelpOpt, _ *Scope) Result {
				if len(a) == 1 {
					return ok(Str(name + " ?subcommand?"))
				}
				return subHelp(a, sigs, map[string]int{"subcommands": 2, "?": 4, "!?": 4})
			},
		})
	}
	cond := func(v Value, s *Scope, f *Fiber) (bool, *Result) {
		if sc, k := v.(*Scr); k {
			r := s.Eval(sc.S, f)
			if r.C != OK {
				return false, &r
			}
			v = r.V
		}
		return toBool(v)
	}
	s.def("!", fixed("! arg", 2, 2, func(a []Value, s *Scope, f *Fiber) Result {
		b, e := cond(a[1], s, f)
		if e != nil {
			return *e
		}
		return ok(Bool(!b))
	}))
	short := func(name string, stop bool) {
		s.def(name, fixed(name+" arg ?arg ...?", 2, -1, func(a []Value, s *Scope, f *Fiber) Result {
			for _, v := range a[1:] {
				b, e := cond(v, s, f)
				if e != nil {
					return *e
				}
				if b == stop {
					return ok(Bool(stop))
				}
			}
			return ok(Bool(!stop))
		}))
	}
	short("&&", false)
	short("||", true)
}

// subHelp is the help of a command with static subcommands.
func subHelp(a []Value, sigs map[string]string, max map[string]int) Result {
	sub, k := text(a[1])
	if !k {
		return invalidSub
	}
	sig, k := sigs[sub]
	if !k {
		return unknownSub(sub)
	}
	if m := max[sub]; m > 0 && len(a) > m {
		return arity(sig)
	}
	return ok(Str(sig))
}

// controls -------------------------------------------------------------------

var needScript = Result{ERROR, Str("body must be a script")}

func initControls(s *Scope) {
	s.def("while", fixed("while test body", 3, 3, func(a []Value, s *Scope, f *Fiber) Result {
		body, k := a[2].(*Scr)
		if !k {
			return needScript
		}
		test, dynamic := a[1].(*Scr)
		if !dynamic {
			b, e := toBool(a[1])
			if e != nil {
				return *e
			}
			if !b {
				return okNil()
			}
		}
		last := okNil()
		for {
			f.tick()
			if dynamic {
				r := s.Eval(test.S, f)
				if r.C != OK {
					return r
				}
				b, e := toBool(r.V)
				if e != nil {
					return *e
				}
				if !b {
					return last
				}
			}
			r := s.Eval(body.S, f)
			switch r.C {
			case OK:
				last = r
			case CONTINUE:
			case BREAK:
				return last
			default:
				return r
			}
		}
	}))
	const ifSig = "if test body ?elseif test body ...? ?else? ?body?"
	s.def("if", &builtin{
		exec: func(a []Value, s *Scope, f *Fiber) Result {
			if len(a) == 2 {
				return errf("wrong # args: missing if body")
			}
			// clauses
			type clause struct{ test, body Value }
			var cl []clause
			i := 3
			if len(a) >= 3 {
				cl = append(cl, clause{a[1], a[2]})
			}
			for i < len(a) {
				kw, k := text(a[i])
				if !k {
					return errf("invalid keyword")
				}
				rest := len(a) - i - 1
				switch kw {
				case "elseif":
					if rest == 0 {
						return errf("wrong # args: missing elseif test")
					}
					if rest == 1 {
						return errf("wrong # args: missing elseif body")
					}
					cl = append(cl, clause{a[i+1], a[i+2]})
					i += 3
				case "else":
					if rest == 0 {
						return errf("wrong # args: missing else body")
					}
					cl = append(cl, clause{nil, a[i+1]})
					i += 2
				default:
					return errf(`invalid keyword "%s"`, kw)
				}
			}
			if i != len(a) {
				return arity(ifSig)
			}
			for _, c := range cl {
				if c.test != nil {
					v := c.test
					if t, k := v.(*Scr); k {
						r := s.Eval(t.S, f)
						if r.C != OK {
							return r
						}
						v = r.V
					}
					b, e := toBool(v)
					if e != nil {
						return *e
					}
					if !b {
						continue
					}
				}
				body, k := c.body.(*Scr)
				if !k {
					return needScript
				}
				return s.Eval(body.S, f)
			}
			return okNil()
		},
		help: func([]Value, HelpOpt, *Scope) Result { return ok(Str(ifSig)) },
	})
	s.def("when", fixed("when ?command? {?test body ...? ?default?}", 2, 3, func(a []Value, s *Scope, f *Fiber) Result {
		cases, e := toArray(a[len(a)-1])
		if e != nil {
			return *e
		}
		for i := 0; i < len(cases); i += 2 {
			var body Value
			if i == len(cases)-1 {
				body = cases[i]
			} else {
				test := cases[i]
				if len(a) == 3 {
					cmd := a[1]
					if c, k := cmd.(*Scr); k {
						r := s.Eval(c.S, f)
						if r.C != OK {
							return r
						}
						cmd = r.V
					}
					if t, k := test.(*Tuple); k {
						test = tuple(append([]Value{cmd}, t.E...)...)
					} else {
						test = tuple(cmd, test)
					}
				}
				switch test.(type) {
				case *Scr, *Tuple:
					r := s.EvalBody(test, f)
					if r.C != OK {
						return r
					}
					test = r.V
				}
				b, e := toBool(test)
				if e != nil {
					return *e
				}
				if !b {
					continue
				}
				body = cases[i+1]
			}
			sc, k := body.(*Scr)
			if !k {
				return needScript
			}
			return s.Eval(sc.S, f)
		}
		return okNil()
	}))
	s.def("loop", fixed("loop ?index? ?value source ...? body", 2, -1, execLoop))
	s.def("catch", fixed(catchSig, 1, -1, execCatch))
}

// locals collects the names of a shape.
func locals(shape Value, into map[string]Value) *Result {
	if t, k := shape.(*Tuple); k {
		for _, e := range t.E {
			if r := locals(e, into); r != nil {
				return r
			}
		}
		return nil
	}
	name, k := text(shape)
	if !k {
		r := errf("invalid local name")
		return &r
	}
	if _, dup := into[name]; dup {
		r := errf(`duplicate local name "%s"`, name)
		return &r
	}
	into[name] = nil
	return nil
}

func (s *Scope) bind(shape, v Value) Result {
	return destructure(shape, v, func(n Value) *Result { return nil }, func(n string, v Value) { s.locals[n] = v })
}

func execLoop(a []Value, s *Scope, f *Fiber) Result {
	names := map[string]Value{}
	mid := a[1 : len(a)-1]
	index, hasIndex := "", len(mid)%2 == 1
	if hasIndex {
		n, k := text(mid[0])
		if !k {
			return errf("invalid index name")
		}
		index = n
		mid = mid[1:]
	}
	body, k := a[len(a)-1].(*Scr)
	if !k {
		return needScript
	}
	if hasIndex {
		names[index] = nil
	}
	for i := 0; i < len(mid); i += 2 {
		if r := locals(mid[i], names); r != nil {
			return *r
		}
	}
	sub := s.local(names)
	type source struct {
		shape Value
		next  func(i int) Result
	}
	var sources []*source
	for i := 0; i < len(mid); i += 2 {
		src := &source{shape: mid[i]}
		at := func(es []Value) func(int) Result {
			return func(i int) Result {
				if i >= len(es) {
					return Result{BREAK, nil}
				}
				return ok(es[i])
			}
		}
		switch v := mid[i+1].(type) {
		case *List:
			src.next = at(v.E)
		case *Dict:
			src.next = at(entries(v))
		case *Scr:
			src.next = func(int) Result { return sub.Eval(v.S, f) }
		default:
			if s.command(v) == nil {
				return errf("invalid source")
			}
			src.next = func(i int) Result { return sub.EvalArgs(f, v, Int(i)) }
		}
		sources = append(sources, src)
	}
	last := okNil()
	for i := 0; ; i++ {
		f.tick()
		for n := range names {
			names[n] = nil
		}
		if hasIndex {
			names[index] = Int(i)
		}
		active := 0
		for _, src := range sources {
			if src.next != nil {
				active++
			}
		}
		if len(sources) > 0 && active == 0 {
			return last
		}
		for _, src := range sources {
			if src.next == nil {
				continue
			}
			r := src.next(i)
			switch r.C {
			case BREAK:
				src.next = nil
				active--
			case CONTINUE:
			case OK:
				if r := sub.bind(src.shape, r.V); r.C != OK {
					return r
				}
			default:
				return r
			}
			if active == 0 {
				return last
			}
		}
		r := sub.Eval(body.S, f)
		switch r.C {
		case OK:
			last = r
		case CONTINUE:
		case BREAK:
			return last
		default:
			return r
		}
	}
}

const catchSig = "catch body ?return value handler? ?yield value handler? ?error message handler? ?break handler? ?continue handler? ?finally handler?"

func execCatch(a []Value, s *Scope, f *Fiber) Result {
	type handler struct {
		name string
		body Value
	}
	hs := map[string]handler{}
	i := 2
	for i < len(a) {
		kw, k := text(a[i])
		if !k {
			return errf("invalid keyword")
		}
		rest := len(a) - i - 1
		var h handler
		switch kw {
		case "return", "yield", "error":
			if rest == 0 {
				return errf("wrong #args: missing %s handler parameter", kw)
			}
			if rest == 1 {
				return errf("wrong #args: missing %s handler body", kw)
			}
			n, k := text(a[i+1])
			if !k {
				return errf("invalid %s handler parameter name", kw)
			}
			h = handler{n, a[i+2]}
			i += 3
		case "break", "continue", "finally":
			if rest == 0 {
				return errf("wrong #args: missing %s handler body", kw)
			}
			h = handler{"", a[i+1]}
			i += 2
		default:
			return errf(`invalid keyword "%s"`, kw)
		}
		if _, dup := hs[kw]; !dup {
			hs[kw] = h
		}
	}
	if i != len(a) {
		return arity(catchSig)
	}
	body, k := a[1].(*Scr)
	if !k {
		return needScript
	}
	if len(a) == 2 {
		r := noYield(f, func(f *Fiber) Result { return s.Eval(body.S, f) })
		switch r.C {
		case OK, RETURN, YIELD, ERROR:
			return ok(tuple(Str(r.C.String()), r.V))
		}
		return ok(tuple(Str(r.C.String())))
	}
	notScript := errf("handler must be a script")
	finally := func() *Result {
		if h, k := hs["finally"]; k {
			if _, k := h.body.(*Scr); !k {
				return &notScript
			}
			if r := s.Eval(h.body.(*Scr).S, f); r.C != OK {
				return &r
			}
		}
		return nil
	}
	handle := func(h handler, v Value) Result {
		if _, k := h.body.(*Scr); !k {
			return notScript
		}
		sub := s
		if h.name != "" || v != nil {
			sub = s.local(map[string]Value{h.name: v})
		}
		return sub.Eval(h.body.(*Scr).S, f)
	}
	g := f.w.Start(func(g *Fiber) Result { return s.Eval(body.S, g) })
	for {
		r := g.Resume()
		h, k := hs[r.C.String()]
		if k && r.C != OK {
			var v Value
			switch r.C {
			case RETURN, YIELD, ERROR:
				v = r.V
			}
			hr := handle(h, v)
			switch {
			case hr.C == PASS && r.C == YIELD:
				g.in = f.Yield(r.V)
				continue
			case hr.C == PASS:
				// keep the result of the body
			case hr.C != OK:
				return hr
			default:
				r = hr
			}
		}
		if e := finally(); e != nil {
			return *e
		}
		if r.C == YIELD {
			// an unhandled yield ends the body
			return ok(f.Yield(r.V))
		}
		return r
	}
}
