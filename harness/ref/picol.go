package ref

// Picol dialect: commands are found by name in the scope and its callers,
// variables in the current scope only.

// NewPicol creates an interpreter for the Picol dialect.
func NewPicol() *World {
	w := &World{Root: &Scope{ctx: newCtx(nil), picol: true}, fuel: maxFuel,
		mods: &modules{nil, map[string]*module{}, map[string]bool{}}}
	for n, c := range picolCommands {
		w.Root.ctx.cmds[n] = c
	}
	return w
}

func arityErr(sig string) Result { return errf(`wrong # args: should be "%s"`, sig) }

func name(v Value) string {
	s, _ := text(v)
	return s
}

func empty(v Value) Value {
	if _, k := v.(Nil); k || v == nil {
		return Str("")
	}
	return v
}

var picolCommands map[string]Command

func init() {
	fold := func(sig string, min int, one func(float64) float64, op func(a, b float64) float64) cmdFunc {
		return func(args []Value, s *Scope, f *Fiber) Result {
			if len(args)-1 < min {
				return arityErr(sig)
			}
			var acc float64
			for i, a := range args[1:] {
				x, e := toReal(a)
				if e != nil {
					return *e
				}
				if i == 0 {
					acc = x
				} else {
					acc = op(acc, x)
				}
			}
			if len(args) == 2 {
				acc = one(acc)
			}
			return ok(Real(acc))
		}
	}
	same := func(a float64) float64 { return a }
	compare := func(op string, f func(a, b float64) bool) cmdFunc {
		return func(args []Value, s *Scope, _ *Fiber) Result {
			if len(args) != 3 {
				return arityErr(op + " arg arg")
			}
			a, e := toReal(args[1])
			if e != nil {
				return *e
			}
			b, e := toReal(args[2])
			if e != nil {
				return *e
			}
			return ok(Bool(f(a, b)))
		}
	}
	equal := func(op string, want bool) cmdFunc {
		return func(args []Value, s *Scope, _ *Fiber) Result {
			if len(args) != 3 {
				return arityErr(op + " arg arg")
			}
			return ok(Bool((name(args[1]) == name(args[2])) == want))
		}
	}
	junction := func(sig string, stop bool) cmdFunc {
		return func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) < 2 {
				return arityErr(sig)
			}
			for _, a := range args[1:] {
				b, e := s.condition(a, f)
				if e != nil {
					return *e
				}
				if b == stop {
					return ok(Bool(stop))
				}
			}
			return ok(Bool(!stop))
		}
	}
	exit := func(sig string, c Code) cmdFunc {
		return func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 1 {
				return arityErr(sig)
			}
			return Result{c, Nil{}}
		}
	}
	badBody := errf("body must be a script")
	picolCommands = map[string]Command{
		"+": fold("+ arg ?arg ...?", 1, same, func(a, b float64) float64 { return a + b }),
		"-": fold("- arg ?arg ...?", 1, func(a float64) float64 { return -a }, func(a, b float64) float64 { return a - b }),
		"*": fold("* arg ?arg ...?", 1, same, func(a, b float64) float64 { return a * b }),
		"/": fold("/ arg arg ?arg ...?", 2, same, func(a, b float64) float64 { return a / b }),
		">": compare(">", func(a, b float64) bool { return a > b }), ">=": compare(">=", func(a, b float64) bool { return a >= b }),
		"<": compare("<", func(a, b float64) bool { return a < b }), "<=": compare("<=", func(a, b float64) bool { return a <= b }),
		"==": equal("==", true), "!=": equal("!=", false),
		"&&": junction("&& arg ?arg ...?", false), "||": junction("|| arg ?arg ...?", true),
		"break": exit("break", BREAK), "continue": exit("continue", CONTINUE),
		"!": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 2 {
				return arityErr("! arg")
			}
			b, e := s.condition(args[1], f)
			if e != nil {
				return *e
			}
			return ok(Bool(!b))
		}),
		"if": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 3 && len(args) != 5 {
				return arityErr("if test script1 ?else script2?")
			}
			b, e := s.condition(args[1], f)
			if e != nil {
				return *e
			}
			if !b {
				if len(args) == 3 {
					return ok(Str(""))
				}
				args = args[2:]
			}
			body, k := args[2].(*Scr)
			if !k {
				return badBody
			}
			r := s.Eval(body.S, f)
			if r.C == OK {
				r.V = empty(r.V)
			}
			return r
		}),
		"for": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 5 {
				return arityErr("for start test next command")
			}
			start, k1 := args[1].(*Scr)
			next, k2 := args[3].(*Scr)
			body, k3 := args[4].(*Scr)
			if !k1 || !k2 || !k3 {
				return badBody
			}
			if r := s.Eval(start.S, f); r.C != OK {
				return r
			}
			return s.picolLoop(args[2], body, next, f)
		}),
		"while": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 3 {
				return arityErr("while test script")
			}
			body, k := args[2].(*Scr)
			if !k {
				return badBody
			}
			return s.picolLoop(args[1], body, nil, f)
		}),
		"set": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			switch len(args) {
			case 2:
				if v := s.variable(name(args[1])); v != nil {
					return ok(v)
				}
				return errf(`can't read "%s": no such variable`, name(args[1]))
			case 3:
				s.ctx.vars[name(args[1])] = args[2]
				return ok(args[2])
			}
			return arityErr("set varName ?newValue?")
		}),
		"incr": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 2 && len(args) != 3 {
				return arityErr("incr varName ?increment?")
			}
			n := int64(1)
			if len(args) == 3 {
				i, e := toInt(args[2])
				if e != nil {
					return *e
				}
				n = i
			}
			if v := s.variable(name(args[1])); v != nil {
				i, e := toInt(v)
				if e != nil {
					return *e
				}
				n += i
			}
			s.ctx.vars[name(args[1])] = Int(n)
			return ok(Int(n))
		}),
		"proc": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 4 {
				return arityErr("proc name args body")
			}
			p := &picolProc{}
			specs, e := picolArray(args[2])
			if e != nil {
				return *e
			}
			for _, v := range specs {
				fields := []Value{v}
				if sc, k := v.(*Scr); k {
					if fields, e = picolArray(sc); e != nil {
						return *e
					}
					if len(fields) == 0 || name(fields[0]) == "" {
						return errf("argument with no name")
					}
					if len(fields) > 2 {
						return errf(`too many fields in argument specifier "%s"`, name(v))
					}
				}
				a := picolArg{name: name(fields[0])}
				if len(fields) == 2 {
					a.def = fields[1]
				}
				p.args = append(p.args, a)
			}
			body, k := args[3].(*Scr)
			if !k {
				return badBody
			}
			p.body = body.S
			s.ctx.cmds[name(args[1])] = p
			return ok(Str(""))
		}),
		"return": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			switch len(args) {
			case 1:
				return Result{RETURN, Str("")}
			case 2:
				return Result{RETURN, args[1]}
			}
			return arityErr("return ?result?")
		}),
		"error": cmdFunc(func(args []Value, s *Scope, f *Fiber) Result {
			if len(args) != 2 {
				return arityErr("error message")
			}
			return Result{ERROR, args[1]}
		}),
	}
}

// condition evaluates a test; the result that prevented it is returned if any.
func (s *Scope) condition(v Value, f *Fiber) (bool, *Result) {
	switch v := v.(type) {
	case Bool:
		return bool(v), nil
	case Int:
		return v != 0, nil
	case *Scr:
		r := s.Eval(v.S, f)
		if r.C != OK {
			return false, &r
		}
		return toBool(r.V)
	}
	t := name(v)
	switch t {
	case "true", "yes":
		return true, nil
	case "false", "no":
		return false, nil
	}
	if i, k := parseInt(t); k {
		return i != 0, nil
	}
	r := errf(`invalid boolean "%s"`, t)
	return false, &r
}

func (s *Scope) picolLoop(test Value, body, next *Scr, f *Fiber) Result {
	for {
		f.tick()
		b, e := s.condition(test, f)
		if e != nil {
			return *e
		}
		if !b {
			break
		}
		r := s.Eval(body.S, f)
		if r.C == BREAK {
			break
		}
		if r.C != OK && r.C != CONTINUE {
			return r
		}
		if next != nil {
			if r := s.Eval(next.S, f); r.C != OK {
				return r
			}
		}
	}
	return ok(Str(""))
}

// picolArray converts a tuple or the words of a script to an array.
func picolArray(v Value) ([]Value, *Result) {
	switch v := v.(type) {
	case *Tuple:
		return v.E, nil
	case *Scr:
		var out []Value
		for _, se := range v.S.Sents {
			for _, w := range se.Words {
				one := &Script{Sents: []*Sentence{{Words: []*Word{w}}}}
				if bad := invalid(one); bad != "" {
					r := errf("%s", bad)
					return nil, &r
				}
				p := &run{last: Nil{}, s: &Scope{ctx: newCtx(nil), bare: true}}
				vs, e := p.flat(one)
				if e != nil {
					return nil, e
				}
				out = append(out, vs...)
			}
		}
		return out, nil
	}
	r := errf("unsupported list format")
	return nil, &r
}

type picolArg struct {
	name string
	def  Value
}
type picolProc struct {
	args []picolArg
	body *Script
}

func (p *picolProc) Exec(args []Value, s *Scope, f *Fiber) Result {
	if f.depth > 200 {
		panic(OutOfFuel{})
	}
	f.depth++
	defer func() { f.depth-- }()
	in := &Scope{ctx: newCtx(s.ctx), picol: true}
	bad := func() Result {
		sig := name(args[0])
		for i, a := range p.args {
			switch {
			case i == len(p.args)-1 && a.name == "args":
				sig += " ?arg ...?"
			case a.def != nil:
				sig += " ?" + a.name + "?"
			default:
				sig += " " + a.name
			}
		}
		return arityErr(sig)
	}
	rest := args[1:]
	for i, a := range p.args {
		switch {
		case i == len(p.args)-1 && a.name == "args":
			in.ctx.vars["args"] = &Tuple{append([]Value{}, rest...)}
			rest = nil
		case len(rest) > 0:
			in.ctx.vars[a.name] = rest[0]
			rest = rest[1:]
		case a.def != nil:
			in.ctx.vars[a.name] = a.def
		default:
			return bad()
		}
	}
	if len(rest) > 0 {
		return bad()
	}
	r := in.Eval(p.body, f)
	if r.C == ERROR {
		return r
	}
	return ok(empty(r.V))
}

// DefinePicol adds a command to the root scope.
func (w *World) DefinePicol(n string, f func(args []Value) Result) {
	w.Root.ctx.cmds[n] = cmdFunc(func(args []Value, _ *Scope, _ *Fiber) Result { return f(args) })
}
