package ref

// Named code: scopes, namespaces, ensembles, macros, closures, procedures,
// coroutines and aliases.

// prefixOf is the leading part of a usage message.
func prefixOf(name Value, def string, o HelpOpt) string {
	sig := o.Prefix
	if o.Skip == 0 {
		n, k := text(name)
		if !k {
			n = def
		}
		if sig != "" {
			sig += " "
		}
		sig += n
	}
	return sig
}

func prefixSpec(name Value, def string, sp *Spec, o HelpOpt) string {
	p := prefixOf(name, def, o)
	u := sp.usage(0)
	if o.Skip > 0 {
		u = sp.usage(o.Skip - 1)
	}
	if p != "" && u != "" {
		return p + " " + u
	}
	return p + u
}

// ensembleLike is a command with literal subcommands.
type sub struct {
	sig    string // usage, after the prefix
	lo, hi int    // total number of words; hi<0: unbounded
	hmax   int    // maximum number of words for help; <0: unbounded
	exec   cmdFunc
}

type subs struct {
	prefix func(name Value, o HelpOpt) string
	names  []string
	m      map[string]sub
	alone  func(self *Cmd) Result
	value  *Cmd
}

func newSubs(prefix func(Value, HelpOpt) string, names []string, m map[string]sub) *subs {
	c := &subs{prefix: prefix, names: names, m: m}
	m["subcommands"] = sub{"subcommands", 2, 2, 2, func([]Value, *Scope, *Fiber) Result { return ok(strs(names...)) }}
	c.value = &Cmd{C: c}
	c.alone = func(self *Cmd) Result { return ok(self) }
	return c
}

func (c *subs) Exec(a []Value, s *Scope, f *Fiber) Result {
	if len(a) == 1 {
		return c.alone(c.value)
	}
	n, k := text(a[1])
	if !k {
		return invalidSub
	}
	x, k := c.m[n]
	if !k {
		return unknownSub(n)
	}
	if len(a) < x.lo || (x.hi >= 0 && len(a) > x.hi) {
		return arity(c.prefix(a[0], HelpOpt{}) + " " + x.sig)
	}
	return x.exec(a, s, f)
}

type helpSubs struct{ *subs }

func (c helpSubs) Help(a []Value, o HelpOpt, _ *Scope) Result {
	p := c.prefix(a[0], o)
	if len(a) == 1 {
		return ok(Str(p + " ?subcommand? ?arg ...?"))
	}
	n, k := text(a[1])
	if !k {
		return invalidSub
	}
	x, k := c.m[n]
	if !k {
		return unknownSub(n)
	}
	if x.hmax >= 0 && len(a) > x.hmax {
		return arity(p + " " + x.sig)
	}
	return ok(Str(p + " " + x.sig))
}

func fixedPrefix(p string) func(Value, HelpOpt) string {
	return func(Value, HelpOpt) string { return p }
}
func namePrefix(def string) func(Value, HelpOpt) string {
	return func(n Value, o HelpOpt) string { return prefixOf(n, def, o) }
}

// metaOf makes a metacommand.
func metaOf(names []string, m map[string]sub) (*subs, *Cmd) {
	c := newSubs(fixedPrefix("<metacommand>"), names, m)
	c.value = &Cmd{C: helpSubs{c}}
	return c, c.value
}

// procedures -----------------------------------------------------------------

type callable struct {
	def   string
	spec  *Spec
	body  *Scr
	guard Value
	env   *Scope // definition scope; nil for macros
	proc  bool
	value *Cmd
	meta  *Cmd
}

func (c *callable) Exec(a []Value, s *Scope, f *Fiber) Result {
	if !c.spec.arityOK(len(a) - 1) {
		return arity(prefixSpec(a[0], c.def, c.spec, HelpOpt{}))
	}
	env := c.env
	if env == nil {
		env = s
	}
	vs, e := c.spec.collect(env, a[1:], f)
	if e != nil {
		return *e
	}
	names := map[string]Value{}
	for i, x := range c.spec.Args {
		names[x.name] = vs[i]
	}
	var r Result
	if c.proc {
		sub := env.child()
		for n, v := range names {
			if v != nil {
				sub.ctx.vars[n] = v
			}
		}
		r = sub.Eval(c.body.S, f)
		switch r.C {
		case OK, RETURN:
			r = ok(r.V)
		case ERROR:
			return r
		default:
			return errf("unexpected %s", r.C)
		}
	} else {
		r = env.local(names).Eval(c.body.S, f)
		if r.C != OK {
			return r
		}
	}
	if c.guard != nil {
		return env.EvalArgs(f, c.guard, r.V)
	}
	return r
}

func (c *callable) Help(a []Value, o HelpOpt, _ *Scope) Result {
	sig := prefixSpec(a[0], c.def, c.spec, o)
	if !c.spec.arityOK(len(a)-1) && len(a) > c.spec.required {
		return arity(sig)
	}
	return ok(Str(sig))
}

func defCallable(kind string) *builtin {
	sig := kind + " ?name? argspec body"
	return fixed(sig, 3, 4, func(a []Value, s *Scope, f *Fiber) Result {
		specs, body := a[len(a)-2], a[len(a)-1]
		c := &callable{def: "<" + kind + ">", proc: kind == "proc"}
		if t, k := body.(*Tuple); k {
			switch len(t.E) {
			case 0:
				return errf("empty body specifier")
			case 2:
				c.guard, body = t.E[0], t.E[1]
			default:
				return errf("invalid body specifier")
			}
		}
		sc, k := body.(*Scr)
		if !k {
			return needScript
		}
		c.body = sc
		sp, e := newSpec(specs)
		if e != nil {
			return *e
		}
		c.spec = sp
		if kind != "macro" {
			c.env = s.local(nil)
		}
		c.value = &Cmd{C: c}
		m, mv := metaOf([]string{"subcommands", "argspec"}, map[string]sub{
			"argspec": {"argspec", 2, 2, 2, func([]Value, *Scope, *Fiber) Result { return ok(sp) }},
		})
		m.alone = func(*Cmd) Result { return ok(c.value) }
		c.meta = mv
		if len(a) == 4 {
			if e := s.register(a[1], c); e != nil {
				return *e
			}
		}
		return ok(mv)
	})
}

// bodyScope evaluates the body of a definition in a new child scope.
func bodyScope(s *Scope, body *Scr, f *Fiber) (*Scope, Result) {
	sub := s.child()
	r := sub.Eval(body.S, f)
	switch r.C {
	case OK, RETURN, ERROR:
		return sub, r
	}
	return sub, errf("unexpected %s", r.C)
}

// ensembles ------------------------------------------------------------------

type ensemble struct {
	scope *Scope
	spec  *Spec
	meta  *Cmd
}

func evalIn(target func(s *Scope) *Scope) sub {
	return sub{"eval body", 3, 3, 3, func(a []Value, s *Scope, f *Fiber) Result {
		return target(s).EvalBody(a[2], f)
	}}
}

func newEnsemble(scope *Scope, spec *Spec) *ensemble {
	e := &ensemble{scope: scope, spec: spec}
	_, e.meta = metaOf([]string{"subcommands", "eval", "call", "argspec"}, map[string]sub{
		"eval": evalIn(func(*Scope) *Scope { return scope }),
		"call": {"call cmdname ?arg ...?", 3, -1, -1, func(a []Value, s *Scope, f *Fiber) Result {
			c, e := localCommand(scope, a[2])
			if e != nil {
				return *e
			}
			return s.EvalArgs(f, append([]Value{&Cmd{C: c}}, a[3:]...)...)
		}},
		"argspec": {"argspec", 2, 2, 2, func([]Value, *Scope, *Fiber) Result { return ok(spec) }},
	})
	return e
}

func localCommand(s *Scope, name Value) (Command, *Result) {
	n, k := text(name)
	if !k {
		return nil, failf("invalid command name")
	}
	c := s.ctx.cmds[n]
	if c == nil {
		return nil, failf(`unknown command "%s"`, n)
	}
	return c, nil
}

func localNames(s *Scope) *List {
	l := strs("subcommands")
	ks := map[string]Value{}
	for k := range s.ctx.cmds {
		ks[k] = nil
	}
	l.E = append(l.E, strs(sortedKeys(ks)...).E...)
	return l
}

func (e *ensemble) Exec(a []Value, s *Scope, f *Fiber) Result {
	if len(a) == 1 {
		return ok(e.meta)
	}
	prefix := prefixSpec(a[0], "<ensemble>", e.spec, HelpOpt{})
	n := len(e.spec.Args)
	if len(a) <= n {
		return arity(prefix + " ?subcommand? ?arg ...?")
	}
	if len(a) == n+1 {
		vs, er := e.spec.collect(s, a[1:], f)
		if er != nil {
			return *er
		}
		return ok(tuple(vs...))
	}
	name, k := text(a[n+1])
	if !k {
		return invalidSub
	}
	if name == "subcommands" {
		if len(a) != n+2 {
			return arity(prefix + " subcommands")
		}
		return ok(localNames(e.scope))
	}
	c := e.scope.ctx.cmds[name]
	if c == nil {
		return unknownSub(name)
	}
	vs, er := e.spec.collect(s, a[1:n+1], f)
	if er != nil {
		return *er
	}
	line := append([]Value{&Cmd{C: c}}, vs...)
	line = append(line, a[n+2:]...)
	return unyield(c.Exec(line, s, f), f)
}

func (e *ensemble) Help(a []Value, o HelpOpt, s *Scope) Result {
	prefix := prefixSpec(a[0], "<ensemble>", e.spec, o)
	n := len(e.spec.Args)
	if len(a) <= n+1 {
		return ok(Str(prefix + " ?subcommand? ?arg ...?"))
	}
	name, k := text(a[n+1])
	if !k {
		return invalidSub
	}
	if name == "subcommands" {
		if len(a) > n+2 {
			return arity(prefix + " subcommands")
		}
		return ok(Str(prefix + " subcommands"))
	}
	c := e.scope.ctx.cmds[name]
	if c == nil {
		return unknownSub(name)
	}
	line := append([]Value{a[n+1]}, a[1:n+1]...)
	line = append(line, a[n+2:]...)
	return subcommandHelp(c, name, line, HelpOpt{prefix + " " + name, n + 1}, s)
}

func subcommandHelp(c Command, name string, line []Value, o HelpOpt, s *Scope) Result {
	if h, k := c.(Helper); k {
		return h.Help(line, o, s)
	}
	return errf(`no help for subcommand "%s"`, name)
}

// namespaces -----------------------------------------------------------------

type namespace struct {
	scope *Scope
	meta  *Cmd
}

func newNamespace(scope *Scope) *namespace {
	n := &namespace{scope: scope}
	_, n.meta = metaOf([]string{"subcommands", "eval", "call", "import"}, map[string]sub{
		"eval": evalIn(func(*Scope) *Scope { return scope }),
		"call": {"call cmdname ?arg ...?", 3, -1, -1, func(a []Value, s *Scope, f *Fiber) Result {
			c, e := localCommand(scope, a[2])
			if e != nil {
				return *e
			}
			return scope.EvalArgs(f, append([]Value{&Cmd{C: c}}, a[3:]...)...)
		}},
		"import": {"import name ?alias?", 3, 4, 4, func(a []Value, s *Scope, f *Fiber) Result {
			name, k := text(a[2])
			if !k {
				return errf("invalid import name")
			}
			alias, k := text(a[len(a)-1])
			if !k {
				return errf("invalid alias name")
			}
			c := scope.ctx.cmds[name]
			if c == nil {
				return errf(`cannot resolve imported command "%s"`, name)
			}
			s.def(alias, c)
			return okNil()
		}},
	})
	n.meta.Key = func(key Value) Result { return scope.get(key, nil) }
	return n
}

func (n *namespace) Exec(a []Value, s *Scope, f *Fiber) Result {
	if len(a) == 1 {
		return ok(n.meta)
	}
	name, k := text(a[1])
	if !k {
		return invalidSub
	}
	if name == "subcommands" {
		if len(a) != 2 {
			return arity(prefixOf(a[0], "<namespace>", HelpOpt{}) + " subcommands")
		}
		return ok(localNames(n.scope))
	}
	c := n.scope.ctx.cmds[name]
	if c == nil {
		return unknownSub(name)
	}
	return n.scope.EvalArgs(f, append([]Value{&Cmd{C: c}}, a[2:]...)...)
}

func (n *namespace) Help(a []Value, o HelpOpt, s *Scope) Result {
	prefix := prefixOf(a[0], "<namespace>", o)
	if len(a) <= 1 {
		return ok(Str(prefix + " ?subcommand? ?arg ...?"))
	}
	name, k := text(a[1])
	if !k {
		return invalidSub
	}
	if name == "subcommands" {
		if len(a) > 2 {
			return arity(prefix + " subcommands")
		}
		return ok(Str(prefix + " subcommands"))
	}
	c := n.scope.ctx.cmds[name]
	if c == nil {
		return unknownSub(name)
	}
	return subcommandHelp(c, name, a[1:], HelpOpt{prefix + " " + name, 1}, s)
}

// coroutines -----------------------------------------------------------------

type coroutine struct {
	scope   *Scope
	body    *Scr
	g       *Fiber
	running bool
	done    bool
}

func (c *coroutine) run(f *Fiber) Result {
	if c.running {
		return errf("coroutine is running")
	}
	c.running = true
	r := c.g.Resume()
	c.running = false
	if r.C != YIELD {
		c.done = true
	}
	switch r.C {
	case OK, RETURN, YIELD:
		return ok(r.V)
	case ERROR:
		return r
	}
	return errf("unexpected %s", r.C)
}

func newCoroutine(s *Scope, body *Scr) *Cmd {
	c := &coroutine{scope: s.local(nil), body: body}
	state := func(b func() bool) cmdFunc {
		return func([]Value, *Scope, *Fiber) Result { return ok(Bool(b())) }
	}
	x := newSubs(fixedPrefix("<coroutine>"), []string{"subcommands", "wait", "active", "done", "yield"}, map[string]sub{
		"wait": {"wait", 2, 2, 0, func(a []Value, s *Scope, f *Fiber) Result {
			if c.g == nil {
				c.g = f.w.Start(func(g *Fiber) Result { return c.scope.Eval(c.body.S, g) })
			}
			return c.run(f)
		}},
		"active": {"active", 2, 2, 0, state(func() bool { return c.g != nil && !c.done })},
		"done":   {"done", 2, 2, 0, state(func() bool { return c.done })},
		"yield": {"yield ?value?", 2, 3, 0, func(a []Value, s *Scope, f *Fiber) Result {
			if c.g == nil {
				return errf("coroutine is inactive")
			}
			if c.done {
				return errf("coroutine is done")
			}
			if c.running {
				return errf("coroutine is running")
			}
			if len(a) == 3 {
				c.g.in = a[2]
			}
			return c.run(f)
		}},
	})
	return x.value
}

// aliases --------------------------------------------------------------------

type alias struct{ cmd Value }

func (c *alias) Exec(a []Value, s *Scope, f *Fiber) Result {
	return execPrefix(append([]Value{c.cmd}, a[1:]...), s, f)
}

// definitions ----------------------------------------------------------------

func initDefs(s *Scope) {
	for _, kind := range []string{"macro", "closure", "proc"} {
		s.def(kind, defCallable(kind))
	}
	s.def("scope", fixed("scope ?name? body", 2, 3, func(a []Value, s *Scope, f *Fiber) Result {
		body, k := a[len(a)-1].(*Scr)
		if !k {
			return needScript
		}
		sub, r := bodyScope(s, body, f)
		if r.C == ERROR {
			return r
		}
		c := scopeCommand(sub)
		if len(a) == 3 {
			if e := s.register(a[1], c.C); e != nil {
				return *e
			}
		}
		if r.C == RETURN {
			return ok(r.V)
		}
		return ok(c)
	}))
	s.def("namespace", fixed("namespace ?name? body", 2, 3, func(a []Value, s *Scope, f *Fiber) Result {
		body, k := a[len(a)-1].(*Scr)
		if !k {
			return needScript
		}
		sub, r := bodyScope(s, body, f)
		if r.C == ERROR {
			return r
		}
		n := newNamespace(sub)
		if len(a) == 3 {
			if e := s.register(a[1], n); e != nil {
				return *e
			}
		}
		if r.C == RETURN {
			return ok(r.V)
		}
		return ok(n.meta)
	}))
	s.def("ensemble", fixed("ensemble ?name? argspec body", 3, 4, func(a []Value, s *Scope, f *Fiber) Result {
		body, k := a[len(a)-1].(*Scr)
		if !k {
			return needScript
		}
		sp, e := newSpec(a[len(a)-2])
		if e != nil {
			return *e
		}
		if sp.rest || sp.optional > 0 {
			return errf("ensemble arguments cannot be variadic")
		}
		if sp.options {
			return errf("ensemble arguments cannot have options")
		}
		sub, r := bodyScope(s, body, f)
		if r.C == ERROR {
			return r
		}
		n := newEnsemble(sub, sp)
		if len(a) == 4 {
			if e := s.register(a[1], n); e != nil {
				return *e
			}
		}
		if r.C == RETURN {
			return ok(r.V)
		}
		return ok(n.meta)
	}))
	s.def("coroutine", fixed("coroutine body", 2, 2, func(a []Value, s *Scope, f *Fiber) Result {
		body, k := a[1].(*Scr)
		if !k {
			return needScript
		}
		return ok(newCoroutine(s, body))
	}))
	s.def("alias", fixed("alias name command", 3, 3, func(a []Value, s *Scope, f *Fiber) Result {
		c := &alias{a[2]}
		if e := s.register(a[1], c); e != nil {
			return *e
		}
		v := &Cmd{C: c}
		m := newSubs(fixedPrefix("<alias>"), []string{"subcommands", "command"}, map[string]sub{
			"command": {"command", 2, 2, 0, func([]Value, *Scope, *Fiber) Result { return ok(c.cmd) }},
		})
		m.alone = func(*Cmd) Result { return ok(v) }
		return ok(m.value)
	}))
}

func scopeCommand(sub_ *Scope) *Cmd {
	c := newSubs(namePrefix("<scope>"), []string{"subcommands", "eval", "call"}, map[string]sub{
		"eval": evalIn(func(*Scope) *Scope { return sub_ }),
		"call": {"call cmdname ?arg ...?", 3, -1, -1, func(a []Value, s *Scope, f *Fiber) Result {
			if _, e := localCommand(sub_, a[2]); e != nil {
				return *e
			}
			return sub_.EvalArgs(f, a[2:]...)
		}},
	})
	c.value = &Cmd{C: helpSubs{c}}
	return c.value
}
