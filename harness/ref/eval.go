package ref

import "strings"

// Ctx holds the names of a scope; Scope is a view of it with optional locals.
type Ctx struct {
	parent *Ctx
	consts map[string]Value
	vars   map[string]Value
	cmds   map[string]Command
}

func newCtx(p *Ctx) *Ctx {
	return &Ctx{p, map[string]Value{}, map[string]Value{}, map[string]Command{}}
}

type Scope struct {
	ctx    *Ctx
	locals map[string]Value // nil value: declared but unset
	bare   bool             // no variables, no commands
	picol  bool             // commands are resolved by name only
	host   *Host            // resolvers of an embedder, instead of names
}

// Host holds the resolvers of an embedder; each of them may be absent.
type Host struct {
	Var func(name string) Value
	Cmd func(v Value) Command
	Sel func(rules []Value) (Result, func(Value) Result)
}

// HostScope is a scope whose names are resolved by an embedder.
func HostScope(h *Host) *Scope { return &Scope{ctx: newCtx(nil), host: h} }

// HostFunc makes a command of a function.
func HostFunc(f func(args []Value, f *Fiber) Result) Command {
	return cmdFunc(func(args []Value, _ *Scope, fb *Fiber) Result { return f(args, fb) })
}

// LastResult and ShiftResult are the intrinsic commands.
var LastResult, ShiftResult Command = lastResult, shiftResult

// Text is the string of a value, if it has one.
func Text(v Value) (string, bool) { return text(v) }

// Invalid tells why a script cannot be compiled.
func Invalid(sc *Script) string { return invalid(sc) }

// EvalWord evaluates a word in a program of its own.
func (s *Scope) EvalWord(w *Word, f *Fiber) ([]Value, Result) {
	p := &run{last: Nil{}, s: s, f: f}
	vs, r := p.word(w, &frame{Nil{}})
	if r != nil {
		return nil, *r
	}
	return vs, okNil()
}

// Flat evaluates all the words of a script, without executing its sentences.
func (s *Scope) Flat(sc *Script, f *Fiber) Result {
	p := &run{last: Nil{}, s: s, f: f}
	vs, r := p.flat(sc)
	if r != nil {
		return *r
	}
	return ok(&Tuple{vs})
}

// Resolve maps a variable designator to its value.
func (s *Scope) Resolve(v Value) Result { return s.resolve(v) }

func (s *Scope) child() *Scope { return &Scope{ctx: newCtx(s.ctx)} }
func (s *Scope) local(l map[string]Value) *Scope {
	return &Scope{ctx: s.ctx, locals: l}
}

func (s *Scope) variable(name string) Value {
	if s.locals != nil {
		if v, k := s.locals[name]; k {
			return v
		}
	}
	if v, k := s.ctx.consts[name]; k {
		return v
	}
	if v, k := s.ctx.vars[name]; k {
		return v
	}
	return nil
}

func (s *Scope) isLocal(name string) bool {
	_, k := s.locals[name]
	return k
}

func (s *Scope) namedCommand(name string) Command {
	for c := s.ctx; c != nil; c = c.parent {
		if k, found := c.cmds[name]; found {
			return k
		}
	}
	return nil
}

func (s *Scope) command(v Value) Command {
	if s.bare {
		return nil
	}
	if s.host != nil {
		if s.host.Cmd == nil {
			return nil
		}
		return s.host.Cmd(v)
	}
	if s.picol {
		n, _ := text(v)
		return s.namedCommand(n)
	}
	switch v := v.(type) {
	case *Tuple:
		return cmdFunc(execPrefix)
	case *Cmd:
		return v.C
	case Int, Real:
		return numberCommand
	}
	name, k := text(v)
	if !k {
		return nil
	}
	if c := s.namedCommand(name); c != nil {
		return c
	}
	if isNumber(name) {
		return numberCommand
	}
	return nil
}

// Command is a model command; it runs to completion in direct style, yielding
// through the fiber.
type Command interface {
	Exec(args []Value, s *Scope, f *Fiber) Result
}
type HelpOpt struct {
	Prefix string
	Skip   int
}
type Helper interface {
	Help(args []Value, o HelpOpt, s *Scope) Result
}

type cmdFunc func(args []Value, s *Scope, f *Fiber) Result

func (c cmdFunc) Exec(args []Value, s *Scope, f *Fiber) Result { return c(args, s, f) }

type helpFunc func(args []Value, o HelpOpt, s *Scope) Result

type builtin struct {
	exec cmdFunc
	help helpFunc
}

func (b *builtin) Exec(args []Value, s *Scope, f *Fiber) Result { return b.exec(args, s, f) }
func (b *builtin) Help(args []Value, o HelpOpt, s *Scope) Result {
	return b.help(args, o, s)
}

type intrinsic int

func (intrinsic) Exec([]Value, *Scope, *Fiber) Result {
	return errf("intrinsic command cannot be called directly")
}

const (
	lastResult intrinsic = iota
	shiftResult
)

// run is the state of one program: last result and last command executed.
type run struct {
	last Value
	cmd  Command
	s    *Scope
	f    *Fiber
}

// frame is an evaluation frame; it remembers the last result it produced.
type frame struct{ last Value }

// Budget bounds the number of sentences evaluated by the model; it is global
// to a World so that runaway programs are recognized.
type fail struct{ r Result }

// Eval runs a script in a scope as a new program.
func (s *Scope) Eval(sc *Script, f *Fiber) Result {
	if len(sc.Sents) == 0 {
		return okNil()
	}
	if bad := invalid(sc); bad != "" {
		return errf("%s", bad)
	}
	p := &run{last: Nil{}, s: s, f: f}
	return p.script(sc, &frame{Nil{}})
}

// EvalArgs evaluates a sentence made of values (or a tuple) as a new program.
func (s *Scope) EvalArgs(f *Fiber, args ...Value) Result {
	p := &run{last: Nil{}, s: s, f: f}
	if r := p.sentence(append([]Value{}, args...), &frame{Nil{}}); r.C != OK {
		return r
	}
	return ok(p.last)
}

func (s *Scope) EvalBody(body Value, f *Fiber) Result {
	switch b := body.(type) {
	case *Scr:
		return s.Eval(b.S, f)
	case *Tuple:
		return s.EvalArgs(f, b.E...)
	}
	return errf("body must be a script or tuple")
}

func (p *run) script(sc *Script, fr *frame) Result {
	if len(sc.Sents) == 0 {
		return okNil()
	}
	for _, se := range sc.Sents {
		args, r := p.words(se, &frame{Nil{}})
		if r != nil {
			return *r
		}
		if r := p.sentence(args, fr); r.C != OK {
			return r
		}
	}
	return ok(p.last)
}

func (p *run) sentence(args []Value, fr *frame) Result {
	for len(args) > 0 {
		c := p.s.command(args[0])
		if c == nil && (p.s.bare || p.s.host != nil && p.s.host.Cmd == nil) {
			return errf("no command resolver")
		}
		if c == nil {
			name, k := text(args[0])
			if !k {
				return errf("invalid command name")
			}
			return errf(`cannot resolve command "%s"`, name)
		}
		prev := p.cmd
		p.cmd = c
		if i, k := c.(intrinsic); k {
			if i == lastResult {
				return ok(p.last)
			}
			if pi, k := prev.(intrinsic); len(args) < 2 || (k && pi == shiftResult) {
				return ok(p.last)
			}
			args = append([]Value{args[1], fr.last}, args[2:]...)
			continue
		}
		if p.f != nil {
			p.f.tick()
		}
		r := c.Exec(args, p.s, p.f)
		if p.f != nil {
			r = unyield(r, p.f)
		}
		if r.C != OK {
			return r
		}
		p.last, fr.last = r.V, r.V
		return r
	}
	return ok(p.last)
}

// words evaluates the words of a sentence, in a frame of their own.
func (p *run) words(se *Sentence, fr *frame) ([]Value, *Result) {
	var out []Value
	for _, w := range se.Words {
		vs, r := p.word(w, fr)
		if r != nil {
			return nil, r
		}
		out = append(out, vs...)
	}
	return out, nil
}

func (p *run) flat(sc *Script) ([]Value, *Result) {
	var out []Value
	fr := &frame{Nil{}}
	for _, se := range sc.Sents {
		vs, r := p.words(se, fr)
		if r != nil {
			return nil, r
		}
		out = append(out, vs...)
	}
	return out, nil
}

// InvalidWord is panicked when evaluating a word of an invalid class.
type InvalidWord struct{}

func (p *run) word(w *Word, fr *frame) ([]Value, *Result) {
	if w.V != nil {
		return []Value{w.V}, nil
	}
	one := func(r Result) ([]Value, *Result) {
		if r.C != OK {
			return nil, &r
		}
		return []Value{r.V}, nil
	}
	switch Classify(w) {
	case WIgnored:
		return nil, nil
	case WRoot:
		m := w.Ms[0]
		switch m.K {
		case MStr:
			return one(p.join(m.Parts))
		case MHere, MTagged:
			return one(ok(Str(m.Val)))
		}
		return one(p.stemSource(m, fr, false))
	case WCompound:
		return one(p.join(w.Ms))
	case WQualified:
		var src Value
		switch m := w.Ms[0]; m.K {
		case MLit, MBlock:
			src = Str(m.Val)
		case MTuple:
			vs, e := p.flat(m.Sub)
			if e != nil {
				return nil, e
			}
			src = &Tuple{vs}
		}
		return one(p.selectors(&Qual{src, nil}, w.Ms[1:], fr))
	case WSubst:
		r, n := p.stem(w.Ms, fr)
		_ = n
		if r.C != OK {
			return nil, &r
		}
		if w.Ms[0].Exp {
			if t, k := r.V.(*Tuple); k {
				return t.E, nil
			}
		}
		return []Value{r.V}, nil
	}
	panic(InvalidWord{})
}

// stemSource evaluates a root or the source of a substitution.
func (p *run) stemSource(m *Morph, fr *frame, subst bool) Result {
	var v Value
	switch m.K {
	case MLit:
		v = Str(m.Val)
	case MBlock:
		if subst {
			v = Str(m.Val)
		} else {
			src := m.Val
			v = &Scr{m.Sub, &src}
		}
	case MTuple:
		vs, e := p.flat(m.Sub)
		if e != nil {
			return *e
		}
		v = &Tuple{vs}
	case MExpr:
		return p.script(m.Sub, fr)
	}
	if subst {
		return p.s.resolve(v)
	}
	return ok(v)
}

// stem evaluates `$...` stem at the start of ms; returns its length.
func (p *run) stem(ms []*Morph, fr *frame) (Result, int) {
	levels := 0
	for ms[levels].K == MSubst {
		levels++
	}
	n := levels + 1
	for n < len(ms) && (ms[n].K == MTuple || ms[n].K == MBlock || ms[n].K == MExpr) {
		n++
	}
	r := p.stemSource(ms[levels], fr, true)
	if r.C != OK {
		return r, n
	}
	r = p.selectors(r.V, ms[levels+1:n], fr)
	for i := 1; i < levels && r.C == OK; i++ {
		r = p.s.resolve(r.V)
	}
	return r, n
}

func (p *run) selectors(v Value, ms []*Morph, fr *frame) Result {
	for _, m := range ms {
		var r Result
		switch m.K {
		case MTuple:
			keys, e := p.flat(m.Sub)
			if e != nil {
				return *e
			}
			r = selKeys(v, keys)
		case MExpr:
			r = p.script(m.Sub, fr)
			if r.C != OK {
				return r
			}
			r = selIndex(v, r.V)
		case MBlock:
			var rules []Value
			for _, se := range m.Sub.Sents {
				vs, e := p.words(se, &frame{Nil{}})
				if e != nil {
					return *e
				}
				rules = append(rules, &Tuple{vs})
			}
			if p.s.host == nil || p.s.host.Sel == nil {
				r = errf("no selector resolver")
				break
			}
			x, sel := p.s.host.Sel(rules)
			if x.C != OK {
				return x
			}
			if sel == nil {
				return errf("cannot resolve selector {%s}", displaySeq(rules))
			}
			r = selHost(v, sel)
		}
		if r.C != OK {
			return r
		}
		v = r.V
	}
	return ok(v)
}

// selHost applies the selector of an embedder.
func selHost(v Value, sel func(Value) Result) Result {
	switch v := v.(type) {
	case *Tuple:
		return mapTuple(v, func(e Value) Result { return selHost(e, sel) })
	case *Qual:
		return ok(&Qual{v.Src, append(append([]Sel{}, v.Sel...), Sel{K: 'h', Fn: sel})})
	}
	return sel(v)
}

// displaySeq displays tuples of names.
func displaySeq(vs []Value) string {
	var out []string
	for _, v := range vs {
		switch v := v.(type) {
		case *Tuple:
			out = append(out, "("+displaySeq(v.E)+")")
		case Str:
			out = append(out, string(v))
		default:
			out = append(out, "?")
		}
	}
	return strings.Join(out, " ")
}

// join evaluates the stems of a compound word or string and concatenates them.
func (p *run) join(ms []*Morph) Result {
	fr := &frame{Nil{}}
	var vals []Value
	for i := 0; i < len(ms); {
		m := ms[i]
		switch m.K {
		case MLit:
			vals = append(vals, Str(m.Val))
			i++
		case MExpr:
			r := p.script(m.Sub, fr)
			if r.C != OK {
				return r
			}
			vals = append(vals, r.V)
			i++
		case MSubst:
			r, n := p.stem(ms[i:], fr)
			if r.C != OK {
				return r
			}
			vals = append(vals, r.V)
			i += n
		default:
			panic(InvalidWord{})
		}
	}
	out := ""
	for _, v := range vals {
		s, e := toText(v)
		if e != nil {
			return *e
		}
		out += s
	}
	return ok(Str(out))
}

// resolve maps a variable designator to its value.
func (s *Scope) resolve(v Value) Result {
	switch v := v.(type) {
	case *Tuple:
		return mapTuple(v, s.resolve)
	case *Qual:
		r := s.resolve(v.Src)
		for _, sel := range v.Sel {
			if r.C != OK {
				return r
			}
			r = applySel(r.V, sel)
		}
		return r
	}
	name, k := text(v)
	if !k {
		return errf("invalid variable name")
	}
	if s.bare || s.host != nil && s.host.Var == nil {
		return errf("no variable resolver")
	}
	if s.host != nil {
		if x := s.host.Var(name); x != nil {
			return ok(x)
		}
		return errf(`cannot resolve variable "%s"`, name)
	}
	if x := s.variable(name); x != nil {
		return ok(x)
	}
	return errf(`cannot resolve variable "%s"`, name)
}

// invalid checks the word structure of all the code evaluated as part of a
// script (nested blocks are only checked when they are evaluated themselves).
func invalid(sc *Script) string {
	const bad = "invalid word structure"
	for _, se := range sc.Sents {
		for _, w := range se.Words {
			if w.V != nil {
				continue
			}
			c := Classify(w)
			if c == WInvalid {
				return bad
			}
			for i, m := range w.Ms {
				switch m.K {
				case MTuple, MExpr:
					if b := invalid(m.Sub); b != "" {
						return b
					}
				case MBlock:
					// a selector
					if i > 0 && w.Ms[i-1].K != MSubst {
						if b := invalid(m.Sub); b != "" {
							return b
						}
					}
				case MStr:
					for j, q := range m.Parts {
						switch q.K {
						case MTuple, MExpr:
						case MBlock:
							if m.Parts[j-1].K == MSubst {
								continue
							}
						default:
							continue
						}
						if b := invalid(q.Sub); b != "" {
							return b
						}
					}
				}
			}
		}
	}
	return ""
}
