package ref

import (
	"path/filepath"
)

// modules is a registry of modules loaded from (virtual) files.
type modules struct {
	files    map[string]string
	loaded   map[string]*module
	reserved map[string]bool
}

type module struct {
	scope   *Scope
	exports map[string]bool
	value   *Cmd
}

func newModule(scope *Scope, exports map[string]bool) *module {
	m := &module{scope: scope, exports: exports}
	c := newSubs(namePrefix("<module>"), []string{"subcommands", "exports", "import"}, map[string]sub{
		"exports": {"exports", 2, 2, 2, func([]Value, *Scope, *Fiber) Result {
			ks := map[string]Value{}
			for k := range exports {
				ks[k] = nil
			}
			return ok(strs(sortedKeys(ks)...))
		}},
		"import": {"import name ?alias?", 3, 4, 4, func(a []Value, s *Scope, f *Fiber) Result {
			return m.importTo(s, a[2], a[len(a)-1])
		}},
	})
	c.value = &Cmd{C: helpSubs{c}}
	m.value = c.value
	return m
}

func (m *module) importTo(s *Scope, name, as Value) Result {
	n, k := text(name)
	if !k {
		return errf("invalid import name")
	}
	a, k := text(as)
	if !k {
		return errf("invalid alias name")
	}
	if !m.exports[n] {
		return errf(`unknown export "%s"`, n)
	}
	c := m.scope.namedCommand(n)
	if c == nil {
		return errf(`cannot resolve export "%s"`, n)
	}
	s.def(a, c)
	return okNil()
}

func createModule(w *World, dir string, sc *Script, f *Fiber) (*module, *Result) {
	s := &Scope{ctx: newCtx(nil)}
	initCommandsAt(w, s, dir)
	exports := map[string]bool{}
	s.def("export", fixed("export name", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result {
		n, k := text(a[1])
		if !k {
			return errf("invalid export name")
		}
		exports[n] = true
		return okNil()
	}))
	r := noYield(f, func(f *Fiber) Result { return s.Eval(sc, f) })
	if r.C == ERROR {
		return nil, &r
	}
	if r.C != OK {
		return nil, failf("unexpected %s", r.C)
	}
	return newModule(s, exports), nil
}

func (w *World) load(path string, f *Fiber) (*module, *Result) {
	ms := w.mods
	if m := ms.loaded[path]; m != nil {
		return m, nil
	}
	if ms.reserved[path] {
		return nil, failf("circular imports are forbidden")
	}
	src, k := ms.files[path]
	if !k {
		return nil, failf("error reading module: open %s: no such file or directory", path)
	}
	sc, msg := Parse(src)
	if msg != "" {
		return nil, failf("%s", msg)
	}
	ms.reserved[path] = true
	m, e := createModule(w, filepath.Dir(path), sc, f)
	delete(ms.reserved, path)
	if e != nil {
		return nil, e
	}
	ms.loaded[path] = m
	return m, nil
}

func initModules(w *World, s *Scope, dir string) {
	s.def("module", fixed("module ?name? body", 2, 3, func(a []Value, s *Scope, f *Fiber) Result {
		body, k := a[len(a)-1].(*Scr)
		if !k {
			return needScript
		}
		m, e := createModule(w, dir, body.S, f)
		if e != nil {
			return *e
		}
		if len(a) == 3 {
			if e := s.register(a[1], m.value.C); e != nil {
				return *e
			}
		}
		return ok(m.value)
	}))
	s.def("import", fixed("import path ?name|imports?", 2, 3, func(a []Value, s *Scope, f *Fiber) Result {
		p, k := text(a[1])
		if !k {
			return errf("invalid path")
		}
		m := w.mods.loaded[p]
		if m == nil {
			var e *Result
			m, e = w.load(filepath.Join(dir, p), f)
			if e != nil {
				return *e
			}
		}
		if len(a) == 3 {
			switch a[2].(type) {
			case *List, *Tuple, *Scr:
				names, e := toArray(a[2])
				if e != nil {
					return *e
				}
				for _, n := range names {
					from, to := n, n
					if t, k := n.(*Tuple); k {
						if len(t.E) != 2 {
							return errf("invalid (name alias) tuple")
						}
						from, to = t.E[0], t.E[1]
					}
					if r := m.importTo(s, from, to); r.C != OK {
						return r
					}
				}
			default:
				if e := s.register(a[2], m.value.C); e != nil {
					return *e
				}
			}
		}
		return ok(m.value)
	}))
}
