package ref

import (
	"math"
	"sort"
)

// conversions ----------------------------------------------------------------

// toArray converts a list, tuple or script to an array. The words of a script
// are evaluated without variables or commands.
func toArray(v Value) ([]Value, *Result) {
	switch v := v.(type) {
	case *List:
		return v.E, nil
	case *Tuple:
		return v.E, nil
	case *Scr:
		if bad := invalid(v.S); bad == "" {
			p := &run{last: Nil{}, s: &Scope{ctx: newCtx(nil), bare: true}}
			if vs, e := p.flat(v.S); e == nil {
				return vs, nil
			}
		}
	}
	r := errf("invalid list")
	return nil, &r
}

func toDict(v Value) (map[string]Value, *Result) {
	if d, k := v.(*Dict); k {
		return d.M, nil
	}
	es, e := toArray(v)
	if e != nil {
		return nil, e
	}
	if len(es)%2 != 0 {
		r := errf("invalid key-value list")
		return nil, &r
	}
	m := map[string]Value{}
	for i := 0; i < len(es); i += 2 {
		s, k := text(es[i])
		if !k {
			r := errf("invalid key")
			return nil, &r
		}
		m[s] = es[i+1]
	}
	return m, nil
}

func sortedKeys(m map[string]Value) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func entries(d *Dict) []Value {
	var es []Value
	for _, k := range sortedKeys(d.M) {
		es = append(es, tuple(Str(k), d.M[k]))
	}
	return es
}

// datatypes ------------------------------------------------------------------

type typeCmd struct {
	*ensemble
	conv func(v Value) Result
}

func (t *typeCmd) Exec(a []Value, s *Scope, f *Fiber) Result {
	if len(a) == 2 {
		return t.conv(a[1])
	}
	return t.ensemble.Exec(a, s, f)
}

func dataType(s *Scope, name string, conv func(v Value) Result) *Scope {
	sub := s.child()
	spec, _ := newSpec(list(Str("value")))
	s.def(name, &typeCmd{newEnsemble(sub, spec), conv})
	return sub
}

func initData(s *Scope) {
	dataType(s, "int", func(v Value) Result {
		i, e := toInt(v)
		if e != nil {
			return *e
		}
		return ok(Int(i))
	})
	dataType(s, "real", func(v Value) Result {
		x, e := toReal(v)
		if e != nil {
			return *e
		}
		return ok(Real(x))
	})
	dataType(s, "bool", func(v Value) Result {
		b, e := toBool(v)
		if e != nil {
			return *e
		}
		return ok(Bool(b))
	})
	initStrings(s)
	initLists(s)
	initDicts(s)

	t := dataType(s, "tuple", func(v Value) Result {
		switch v.(type) {
		case *Tuple:
			return ok(v)
		case *List, *Scr:
			es, e := toArray(v)
			if e != nil {
				return *e
			}
			return ok(tuple(es...))
		}
		return errf("invalid tuple")
	})
	seqAccess(t, "tuple")

	s.def("parse", fixed("parse source", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result {
		src, e := toText(a[1])
		if e != nil {
			return *e
		}
		sc, msg := Parse(src)
		if msg != "" {
			return errf("%s", msg)
		}
		return ok(&Scr{sc, &src})
	}))
	toScript := func(v Value) (*Scr, *Result) {
		switch v := v.(type) {
		case *Scr:
			return v, nil
		case *Tuple:
			sc := &Script{}
			if len(v.E) > 0 {
				se := &Sentence{}
				for _, e := range v.E {
					se.Words = append(se.Words, &Word{V: e})
				}
				sc.Sents = append(sc.Sents, se)
			}
			return &Scr{sc, nil}, nil
		}
		r := errf("value must be a script or tuple")
		return nil, &r
	}
	sc := dataType(s, "script", func(v Value) Result {
		x, e := toScript(v)
		if e != nil {
			return *e
		}
		return ok(x)
	})
	sc.def("length", fixed("script value length", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result {
		x, e := toScript(a[1])
		if e != nil {
			return *e
		}
		return ok(Int(len(x.S.Sents)))
	}))
	sc.def("append", fixed("script value append ?script ...?", 0, -1, func(a []Value, _ *Scope, _ *Fiber) Result {
		x, e := toScript(a[1])
		if e != nil {
			return *e
		}
		if len(a) == 2 {
			return ok(x)
		}
		out := &Script{}
		for _, v := range a[1:] {
			y, e := toScript(v)
			if e != nil {
				return *e
			}
			out.Sents = append(out.Sents, y.S.Sents...)
		}
		return ok(&Scr{out, nil})
	}))
	sc.def("split", fixed("script value split", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result {
		x, e := toScript(a[1])
		if e != nil {
			return *e
		}
		l := &List{}
		for _, se := range x.S.Sents {
			l.E = append(l.E, &Scr{&Script{Sents: []*Sentence{se}}, nil})
		}
		return ok(l)
	}))
}

// span maps first/last arguments to a half-open range of a sequence of length n.
func span(n int, first, last int64) (int, int) {
	lo := 0
	if first > 0 {
		lo = n
		if first < int64(n) {
			lo = int(first)
		}
	}
	hi := 0
	if last >= 0 {
		hi = n
		if last < int64(n) {
			hi = int(last) + 1
		}
	}
	if hi < lo {
		hi = lo
	}
	return lo, hi
}

func seqAccess(c *Scope, name string) {
	c.def("length", fixed(name+" value length", 2, 2, func(a []Value, _ *Scope, _ *Fiber) Result {
		es, e := toArray(a[1])
		if e != nil {
			return *e
		}
		return ok(Int(len(es)))
	}))
	c.def("at", fixed(name+" value at index ?default?", 3, 4, func(a []Value, _ *Scope, _ *Fiber) Result {
		es, e := toArray(a[1])
		if e != nil {
			return *e
		}
		var def Value
		if len(a) == 4 {
			def = a[3]
		}
		return listAt(es, a[2], def)
	}))
}

func ints(vs ...Value) ([]int64, *Result) {
	var out []int64
	for _, v := range vs {
		i, e := toInt(v)
		if e != nil {
			return nil, e
		}
		out = append(out, i)
	}
	return out, nil
}

func initStrings(s *Scope) {
	c := dataType(s, "string", func(v Value) Result {
		t, e := toText(v)
		if e != nil {
			return *e
		}
		return ok(Str(t))
	})
	type fn = func(t string, a []Value) Result
	def := func(sig, name string, lo, hi int, f fn) {
		c.def(name, fixed(sig, lo, hi, func(a []Value, _ *Scope, _ *Fiber) Result {
			t, e := toText(a[1])
			if e != nil {
				return *e
			}
			return f(t, a[2:])
		}))
	}
	def("string value length", "length", 2, 2, func(t string, a []Value) Result { return ok(Int(len(t))) })
	def("string value at index ?default?", "at", 3, 4, func(t string, a []Value) Result {
		i, e := toInt(a[0])
		if e != nil {
			return *e
		}
		if i >= 0 && i < int64(len(t)) {
			return ok(Str(t[i : i+1]))
		}
		if len(a) == 2 {
			return ok(a[1])
		}
		return errf(`index out of range "%d"`, i)
	})
	def("string value range first ?last?", "range", 3, 4, func(t string, a []Value) Result {
		is, e := ints(a...)
		if e != nil {
			return *e
		}
		if len(is) == 1 {
			is = append(is, math.MaxInt64)
		}
		lo, hi := span(len(t), is[0], is[1])
		return ok(Str(t[lo:hi]))
	})
	def("string value append ?string ...?", "append", 0, -1, func(t string, a []Value) Result {
		for _, v := range a {
			u, e := toText(v)
			if e != nil {
				return *e
			}
			t += u
		}
		return ok(Str(t))
	})
	def("string value remove first last", "remove", 4, 4, func(t string, a []Value) Result {
		is, e := ints(a...)
		if e != nil {
			return *e
		}
		lo, hi := span(len(t), is[0], is[1])
		return ok(Str(t[:lo] + t[hi:]))
	})
	def("string value insert index value2", "insert", 4, 4, func(t string, a []Value) Result {
		is, e := ints(a[0])
		if e != nil {
			return *e
		}
		u, e := toText(a[1])
		if e != nil {
			return *e
		}
		lo, _ := span(len(t), is[0], -1)
		return ok(Str(t[:lo] + u + t[lo:]))
	})
	def("string value replace first last value2", "replace", 5, 5, func(t string, a []Value) Result {
		is, e := ints(a[:2]...)
		if e != nil {
			return *e
		}
		u, e := toText(a[2])
		if e != nil {
			return *e
		}
		lo, hi := span(len(t), is[0], is[1])
		return ok(Str(t[:lo] + u + t[hi:]))
	})
	for name, cmp := range comparisons {
		sig := Str(`string value1 ` + name + ` value2`)
		bad := errf(`wrong # operands: should be "%s"`, string(sig))
		c.def(name, &builtin{
			exec: func(a []Value, _ *Scope, _ *Fiber) Result {
				if len(a) != 3 {
					return bad
				}
				if same(a[1], a[2]) {
					return ok(Bool(cmp.eq))
				}
				x, e := toText(a[1])
				if e != nil {
					return *e
				}
				y, e := toText(a[2])
				if e != nil {
					return *e
				}
				return ok(Bool(cmp.s(x, y)))
			},
			help: func(a []Value, _ HelpOpt, _ *Scope) Result {
				if len(a) > 3 {
					return bad
				}
				return ok(sig)
			},
		})
	}
}

func initLists(s *Scope) {
	c := dataType(s, "list", func(v Value) Result {
		es, e := toArray(v)
		if e != nil {
			return *e
		}
		return ok(list(es...))
	})
	seqAccess(c, "list")
	type fn = func(es []Value, a []Value) Result
	def := func(sig, name string, lo, hi int, f fn) {
		c.def(name, fixed(sig, lo, hi, func(a []Value, _ *Scope, _ *Fiber) Result {
			es, e := toArray(a[1])
			if e != nil {
				return *e
			}
			return f(es, a[2:])
		}))
	}
	splice := func(es []Value, lo, hi int, ins []Value) Result {
		out := append([]Value{}, es[:lo]...)
		out = append(out, ins...)
		return ok(list(append(out, es[hi:]...)...))
	}
	def("list value range first ?last?", "range", 3, 4, func(es, a []Value) Result {
		is, e := ints(a...)
		if e != nil {
			return *e
		}
		if len(is) == 1 {
			is = append(is, math.MaxInt64)
		}
		lo, hi := span(len(es), is[0], is[1])
		return ok(list(es[lo:hi]...))
	})
	def("list value append ?list ...?", "append", 0, -1, func(es, a []Value) Result {
		out := append([]Value{}, es...)
		for _, v := range a {
			xs, e := toArray(v)
			if e != nil {
				return *e
			}
			out = append(out, xs...)
		}
		return ok(list(out...))
	})
	def("list value remove first last", "remove", 4, 4, func(es, a []Value) Result {
		is, e := ints(a...)
		if e != nil {
			return *e
		}
		lo, hi := span(len(es), is[0], is[1])
		return splice(es, lo, hi, nil)
	})
	def("list value insert index value2", "insert", 4, 4, func(es, a []Value) Result {
		is, e := ints(a[0])
		if e != nil {
			return *e
		}
		ins, e := toArray(a[1])
		if e != nil {
			return *e
		}
		lo, _ := span(len(es), is[0], -1)
		return splice(es, lo, lo, ins)
	})
	def("list value replace first last value2", "replace", 5, 5, func(es, a []Value) Result {
		is, e := ints(a[:2]...)
		if e != nil {
			return *e
		}
		ins, e := toArray(a[2])
		if e != nil {
			return *e
		}
		lo, hi := span(len(es), is[0], is[1])
		return splice(es, lo, hi, ins)
	})
	c.def("sort", fixed("list value sort ?comparator?", 2, 3, func(a []Value, s *Scope, f *Fiber) Result {
		es, e := toArray(a[1])
		if e != nil {
			return *e
		}
		out := append([]Value{}, es...)
		var fail *Result
		less := func(x, y Value) bool {
			if len(a) == 2 {
				t, e1 := toText(x)
				u, e2 := toText(y)
				if e1 != nil || e2 != nil {
					fail = &noText
					return false
				}
				return t < u
			}
			r := noYield(f, func(f *Fiber) Result { return s.EvalArgs(f, a[2], x, y) })
			if r.C != OK {
				fail = &r
				return false
			}
			i, e := toInt(r.V)
			if e != nil {
				fail = e
				return false
			}
			return i < 0
		}
		for i := 1; i < len(out); i++ {
			for j := i; j > 0 && less(out[j], out[j-1]); j-- {
				out[j], out[j-1] = out[j-1], out[j]
			}
		}
		if fail != nil {
			return *fail
		}
		return ok(list(out...))
	}))
	c.def("foreach", fixed("list value foreach ?index? element body", 4, 5, func(a []Value, s *Scope, f *Fiber) Result {
		if len(a) == 5 {
			if _, k := text(a[2]); !k {
				return errf("invalid index name")
			}
		}
		es, e := toArray(a[1])
		if e != nil {
			return *e
		}
		return foreach(es, a, s, f)
	}))
}

func foreach(es []Value, a []Value, s *Scope, f *Fiber) Result {
	body, k := a[len(a)-1].(*Scr)
	if !k {
		return needScript
	}
	names := map[string]Value{}
	index := ""
	if len(a) == 5 {
		index, _ = text(a[2])
		names[index] = nil
	}
	shape := a[len(a)-2]
	if r := locals(shape, names); r != nil {
		return *r
	}
	sub := s.local(names)
	last := okNil()
	for i, e := range es {
		if len(a) == 5 {
			names[index] = Int(i)
		}
		if r := sub.bind(shape, e); r.C != OK {
			return r
		}
		r := sub.Eval(body.S, f)
		switch r.C {
		case OK:
			last = r
		case CONTINUE:
		case BREAK:
			return last
		default:
			return r
		}
	}
	return last
}

func initDicts(s *Scope) {
	c := dataType(s, "dict", func(v Value) Result {
		switch v.(type) {
		case *Dict, *Scr, *List, *Tuple:
			m, e := toDict(v)
			if e != nil {
				return *e
			}
			return ok(&Dict{m})
		}
		return errf("invalid dictionary")
	})
	badKey := Result{ERROR, Str("invalid key")}
	type fn = func(m map[string]Value, a []Value) Result
	def := func(sig, name string, lo, hi int, f fn) {
		c.def(name, fixed(sig, lo, hi, func(a []Value, _ *Scope, _ *Fiber) Result {
			m, e := toDict(a[1])
			if e != nil {
				// without further arguments, these are mere conversions
				if len(a) == 2 && hi < 0 {
					switch a[1].(type) {
					case *Scr, *List, *Tuple:
					default:
						return errf("invalid dictionary")
					}
				}
				return *e
			}
			return f(m, a[2:])
		}))
	}
	clone := func(m map[string]Value) map[string]Value {
		n := map[string]Value{}
		for k, v := range m {
			n[k] = v
		}
		return n
	}
	def("dict value size", "size", 2, 2, func(m map[string]Value, a []Value) Result { return ok(Int(len(m))) })
	def("dict value has key", "has", 3, 3, func(m map[string]Value, a []Value) Result {
		k, is := text(a[0])
		if !is {
			return badKey
		}
		return ok(Bool(m[k] != nil))
	})
	def("dict value get key ?default?", "get", 3, 4, func(m map[string]Value, a []Value) Result {
		one := func(v Value) Result {
			k, is := text(v)
			if !is {
				return badKey
			}
			if x := m[k]; x != nil {
				return ok(x)
			}
			if len(a) == 2 {
				return ok(a[1])
			}
			return errf(`unknown key "%s"`, k)
		}
		if t, k := a[0].(*Tuple); k {
			if len(a) == 2 {
				return errf("cannot use default with key tuples")
			}
			return mapTuple(t, one)
		}
		return one(a[0])
	})
	def("dict value add key value", "add", 4, 4, func(m map[string]Value, a []Value) Result {
		k, is := text(a[0])
		if !is {
			return badKey
		}
		n := clone(m)
		n[k] = a[1]
		return ok(&Dict{n})
	})
	def("dict value remove ?key ...?", "remove", 0, -1, func(m map[string]Value, a []Value) Result {
		n := clone(m)
		for _, v := range a {
			k, is := text(v)
			if !is {
				return badKey
			}
			delete(n, k)
		}
		return ok(&Dict{n})
	})
	def("dict value merge ?dict ...?", "merge", 0, -1, func(m map[string]Value, a []Value) Result {
		n := clone(m)
		for _, v := range a {
			o, e := toDict(v)
			if e != nil {
				return *e
			}
			for k, x := range o {
				n[k] = x
			}
		}
		return ok(&Dict{n})
	})
	def("dict value keys", "keys", 2, 2, func(m map[string]Value, a []Value) Result {
		return ok(strs(sortedKeys(m)...))
	})
	def("dict value values", "values", 2, 2, func(m map[string]Value, a []Value) Result {
		l := &List{}
		for _, k := range sortedKeys(m) {
			l.E = append(l.E, m[k])
		}
		return ok(l)
	})
	def("dict value entries", "entries", 2, 2, func(m map[string]Value, a []Value) Result {
		return ok(list(entries(&Dict{m})...))
	})
	c.def("foreach", fixed("dict value foreach ?index? entry body", 4, 5, func(a []Value, s *Scope, f *Fiber) Result {
		if len(a) == 5 {
			if _, k := text(a[2]); !k {
				return errf("invalid index name")
			}
		}
		m, e := toDict(a[1])
		if e != nil {
			return *e
		}
		return foreach(entries(&Dict{m}), a, s, f)
	}))
}
