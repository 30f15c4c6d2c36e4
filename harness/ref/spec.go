package ref

import "strings"

// Spec is an argument specification.
type Spec struct {
	Args     []specArg
	required int // number of required words
	optional int // number of optional positionals
	rest     bool
	options  bool
	guards   bool
}

type specArg struct {
	name  string
	kind  byte // 'r', 'o', '*'
	def   Value
	guard Value
	opt   []string // option names
	flag  bool
}

func (a *specArg) optName() string { return strings.Join(a.opt, "|") }

func failf(f string, a ...interface{}) *Result {
	r := errf(f, a...)
	return &r
}

func newSpec(v Value) (*Spec, *Result) {
	if s, k := v.(*Spec); k {
		return s, nil
	}
	items, e := toArray(v)
	if e != nil {
		return nil, failf("invalid argument list")
	}
	s := &Spec{}
	names, opts := map[string]bool{}, map[string]bool{}
	var pending *specArg
	for _, it := range items {
		o, e := parseOption(it)
		if e != nil {
			return nil, e
		}
		if o != nil {
			if s.rest {
				return nil, failf("cannot use remainder argument before options")
			}
			for _, n := range o.opt {
				if opts[n] {
					return nil, failf(`duplicate option "%s"`, n)
				}
				opts[n] = true
			}
			pending = o
			continue
		}
		a, e := parseArg(it)
		if e != nil {
			return nil, e
		}
		if pending != nil {
			if pending.flag && a.kind != 'o' {
				return nil, failf(`argument for flag "%s" must be optional`, pending.optName())
			}
			if a.kind == '*' {
				return nil, failf(`argument for option "%s" cannot be a remainder`, pending.optName())
			}
			a.opt, a.flag = pending.opt, pending.flag
			pending = nil
		} else if a.kind == '*' && s.rest {
			return nil, failf("only one remainder argument is allowed")
		}
		if names[a.name] {
			return nil, failf(`duplicate argument "%s"`, a.name)
		}
		names[a.name] = true
		if a.kind == '*' {
			s.rest = true
		}
		s.Args = append(s.Args, *a)
	}
	if pending != nil {
		return nil, failf(`missing argument for option "%s"`, pending.optName())
	}
	for _, a := range s.Args {
		switch {
		case a.opt != nil:
			s.options = true
			if a.kind == 'r' {
				s.required += 2
			}
		case a.kind == 'r':
			s.required++
		case a.kind == 'o':
			s.optional++
		}
		if a.guard != nil {
			s.guards = true
		}
	}
	return s, nil
}

func parseOption(v Value) (*specArg, *Result) {
	items := []Value{v}
	switch v.(type) {
	case *List, *Tuple, *Scr:
		es, e := toArray(v)
		if e != nil {
			return nil, e
		}
		items = es
	}
	o := &specArg{}
	for i, it := range items {
		n, k := text(it)
		if !k {
			break
		}
		flag := strings.HasPrefix(n, "?-") && len(n) > 2
		if !flag && (len(n) < 2 || n[0] != '-') {
			break
		}
		if flag {
			n = n[1:]
		}
		if n == "--" {
			return nil, failf("cannot use option terminator as option name")
		}
		if i > 0 && o.flag != flag {
			break
		}
		o.flag = flag
		o.opt = append(o.opt, n)
	}
	if len(o.opt) == 0 {
		return nil, nil
	}
	if len(o.opt) != len(items) {
		return nil, failf(`incompatible aliases for option "%s"`, o.optName())
	}
	return o, nil
}

func parseArg(v Value) (*specArg, *Result) {
	parts := []Value{v}
	compound := false
	switch v.(type) {
	case *List, *Tuple, *Scr:
		es, e := toArray(v)
		if e != nil {
			return nil, e
		}
		parts, compound = es, true
	}
	badName := failf("invalid argument name")
	named := func(v Value) (*specArg, *Result) {
		n, k := text(v)
		switch {
		case !k:
			return nil, badName
		case n == "" || n == "?":
			return nil, failf("empty argument name")
		case n[0] == '?':
			return &specArg{name: n[1:], kind: 'o'}, nil
		case n[0] == '*' && !compound:
			if len(n) > 1 {
				n = n[1:]
			}
			return &specArg{name: n, kind: '*'}, nil
		}
		return &specArg{name: n, kind: 'r'}, nil
	}
	switch len(parts) {
	case 0:
		return nil, failf("empty argument specifier")
	case 1:
		return named(parts[0])
	case 2:
		// either (?name default) or (guard name)
		if n, k := text(parts[0]); k && strings.HasPrefix(n, "?") {
			a, e := named(parts[0])
			if a != nil {
				a.def = parts[1]
			}
			return a, e
		} else if _, k2 := text(parts[1]); k && !k2 && n == "" {
			return nil, failf("empty argument name")
		}
		a, e := named(parts[1])
		if a != nil {
			a.guard = parts[0]
		}
		return a, e
	case 3:
		a, e := named(parts[1])
		if a != nil {
			if a.kind != 'o' {
				return nil, failf(`default argument "%s" must be optional`, a.name)
			}
			a.guard, a.def = parts[0], parts[2]
		}
		return a, e
	}
	n, k := text(parts[0])
	if !k {
		return nil, badName
	}
	return nil, failf(`too many specifiers for argument "%s"`, n)
}

func (s *Spec) usage(skip int) string {
	var out []string
	for i, a := range s.Args {
		if i < skip {
			continue
		}
		u := a.name
		switch {
		case a.flag:
			u = "?" + a.optName() + "?"
		case a.opt != nil && a.kind == 'r':
			u = a.optName() + " " + u
		case a.opt != nil:
			u = "?" + a.optName() + " " + u + "?"
		case a.kind == 'o':
			u = "?" + u + "?"
		case a.kind == '*' && u == "*":
			u = "?arg ...?"
		case a.kind == '*':
			u = "?" + u + " ...?"
		}
		out = append(out, u)
	}
	return strings.Join(out, " ")
}

func (s *Spec) arityOK(n int) bool {
	return n >= s.required && (s.options || s.rest || n <= s.required+s.optional)
}

// collect binds values to the arguments; unset optionals are left nil.
func (s *Spec) collect(sc *Scope, vs []Value, f *Fiber) ([]Value, *Result) {
	raw, e := s.assign(vs)
	if e != nil {
		return nil, e
	}
	out := make([]Value, len(s.Args))
	for i, a := range s.Args {
		v := raw[i]
		if v == nil {
			switch {
			case a.kind == 'r' && a.opt != nil:
				return nil, failf(`missing value for option "%s"`, a.optName())
			case a.kind == 'r':
				return nil, failf(`missing value for argument "%s"`, a.name)
			case a.flag:
				v = Bool(false)
			case a.def == nil:
				continue
			default:
				v = a.def
				if d, k := v.(*Scr); k {
					r := noYield(f, func(f *Fiber) Result { return sc.Eval(d.S, f) })
					if r.C == ERROR {
						return nil, &r
					}
					if r.C != OK {
						return nil, failf("unexpected %s", r.C)
					}
					v = r.V
				}
			}
		}
		if a.guard != nil {
			r := noYield(f, func(f *Fiber) Result { return sc.EvalArgs(f, a.guard, v) })
			if r.C == ERROR {
				return nil, &r
			}
			if r.C != OK {
				return nil, failf("unexpected %s", r.C)
			}
			v = r.V
		}
		out[i] = v
	}
	return out, nil
}

// assign distributes values between arguments.
func (s *Spec) assign(vs []Value) ([]Value, *Result) {
	raw := make([]Value, len(s.Args))
	if !s.options {
		extra := len(vs) - s.required
		opt := s.optional
		if opt > extra {
			opt = extra
		}
		rest := extra - opt
		for i, a := range s.Args {
			switch {
			case a.kind == '*':
				raw[i] = tuple(vs[:rest]...)
				vs = vs[rest:]
			case a.kind == 'r':
				raw[i], vs = vs[0], vs[1:]
			case opt > 0:
				opt--
				raw[i], vs = vs[0], vs[1:]
			}
		}
		return raw, nil
	}
	// With options, arguments come in alternating groups of positionals (in
	// order) and options (in any order). Required words still to come are
	// always set apart.
	required, optional := s.required, s.optional
	for i := range s.Args {
		if s.Args[i].kind == '*' {
			raw[i] = tuple()
		}
	}
	for i := 0; len(vs) > 0 && i < len(s.Args); {
		for ; i < len(s.Args) && s.Args[i].opt == nil && len(vs) > 0; i++ {
			switch s.Args[i].kind {
			case 'r':
				required--
				raw[i], vs = vs[0], vs[1:]
			case 'o':
				if len(vs) > required {
					optional--
					raw[i], vs = vs[0], vs[1:]
				}
			case '*':
				if n := len(vs) - required - optional; n > 0 {
					raw[i] = tuple(vs[:n]...)
					vs = vs[n:]
				}
			}
		}
		if len(vs) == 0 {
			break
		}
		j, need := i, 0
		for ; j < len(s.Args) && s.Args[j].opt != nil; j++ {
			if s.Args[j].kind == 'r' {
				need++
			}
		}
		for n := 0; len(vs) > 0 && n < j-i; n++ {
			name, k := text(vs[0])
			slot := -1
			for x, a := range s.Args {
				for _, o := range a.opt {
					if k && o == name {
						slot = x
					}
				}
			}
			var e *Result
			switch {
			case !k:
				e = failf("invalid option")
			case name == "--":
				e = failf("unexpected option terminator")
			case slot < 0:
				e = failf(`unknown option "%s"`, name)
			}
			if e != nil {
				if need > 0 {
					return nil, e
				}
				break
			}
			if slot < i || slot >= j {
				return nil, failf(`unexpected option "%s"`, name)
			}
			a := &s.Args[slot]
			if raw[slot] != nil {
				return nil, failf(`duplicate values for option "%s"`, a.optName())
			}
			if a.flag {
				raw[slot] = Bool(true)
				vs = vs[1:]
				continue
			}
			if len(vs) < 2 {
				return nil, failf(`missing value for option "%s"`, a.optName())
			}
			raw[slot] = vs[1]
			vs = vs[2:]
			if a.kind == 'r' {
				required -= 2
				need--
			}
		}
		if len(vs) > 0 {
			if t, k := text(vs[0]); k && t == "--" {
				vs = vs[1:]
			}
		}
		i = j
	}
	if len(vs) > 0 {
		return nil, failf("extra values after arguments")
	}
	return raw, nil
}

func initSpec(s *Scope) {
	c := dataType(s, "argspec", func(v Value) Result {
		sp, e := newSpec(v)
		if e != nil {
			return *e
		}
		return ok(sp)
	})
	c.def("usage", fixed("argspec value usage", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result {
		sp, e := newSpec(a[1])
		if e != nil {
			return *e
		}
		return ok(Str(sp.usage(0)))
	}))
	c.def("set", fixed("argspec value set values", 3, 3, func(a []Value, s *Scope, f *Fiber) Result {
		sp, e := newSpec(a[1])
		if e != nil {
			return *e
		}
		vs, e := toArray(a[2])
		if e != nil {
			return *e
		}
		if !sp.arityOK(len(vs)) {
			return errf(`wrong # values: should be "%s"`, sp.usage(0))
		}
		out, e := sp.collect(s, vs, f)
		if e != nil {
			return *e
		}
		for i, a := range sp.Args {
			if out[i] != nil {
				if e := s.checkSet(Str(a.name)); e != nil {
					return *e
				}
			}
		}
		for i, a := range sp.Args {
			if out[i] != nil {
				s.ctx.vars[a.name] = out[i]
			}
		}
		return okNil()
	}))
}
