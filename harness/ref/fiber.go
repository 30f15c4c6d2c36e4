package ref

import (
	"iter"
	"strings"
)

// Fiber is a model thread of control: an evaluation that can be suspended by a
// yield and resumed later.
type Fiber struct {
	w      *World
	yield  func(Value) bool
	in     Value
	next   func() (Value, bool)
	stop   func()
	res    Result
	done   bool
	abort  bool // yields abort the evaluation (non-suspendable context)
	killed bool
	depth  int // of calls
}

type killSignal struct{}
type abortSignal struct{ v Value }

// OutOfFuel is panicked when a program exceeds the evaluation budget.
type OutOfFuel struct{}

func (f *Fiber) tick() {
	f.w.fuel--
	if f.w.fuel < 0 {
		panic(OutOfFuel{})
	}
}

// Yield suspends the evaluation with v and returns the value it is resumed
// with.
func (f *Fiber) Yield(v Value) Value {
	if f.abort {
		panic(abortSignal{v})
	}
	f.in = v
	if f.yield == nil || !f.yield(v) {
		panic(killSignal{})
	}
	return f.in
}

// Start creates a suspended fiber running body.
func (w *World) Start(body func(f *Fiber) Result) *Fiber {
	f := &Fiber{w: w}
	var perr interface{}
	f.next, f.stop = iter.Pull(func(yield func(Value) bool) {
		f.yield = yield
		defer func() {
			if e := recover(); e != nil {
				if _, k := e.(killSignal); !k {
					perr = e
				}
			}
		}()
		f.res = body(f)
	})
	nx := f.next
	f.next = func() (Value, bool) {
		v, k := nx()
		if perr != nil {
			panic(perr)
		}
		return v, k
	}
	w.fibers = append(w.fibers, f)
	return f
}

// Resume runs the fiber to its next yield or its end.
func (f *Fiber) Resume() Result {
	if f.done {
		return f.res
	}
	v, more := f.next()
	if more {
		return Result{YIELD, v}
	}
	f.done = true
	return f.res
}

// noYield runs body in a context that cannot be suspended: a yield ends it with
// a YIELD result.
func noYield(f *Fiber, body func(f *Fiber) Result) (r Result) {
	g := &Fiber{w: f.w, abort: true}
	defer func() {
		if e := recover(); e != nil {
			if a, k := e.(abortSignal); k {
				r = Result{YIELD, a.v}
				return
			}
			panic(e)
		}
	}()
	return body(g)
}

// World is one interpreter instance of the model.
type World struct {
	Root   *Scope
	fuel   int
	fibers []*Fiber
	mods   *modules

	rootDir string
}

func NewWorld() *World { return NewWorldWith("/", nil) }

// NewWorldWith creates an interpreter whose modules are the given files.
func NewWorldWith(dir string, files map[string]string) *World {
	w := &World{Root: &Scope{ctx: newCtx(nil)}, fuel: maxFuel, rootDir: dir,
		mods: &modules{files, map[string]*module{}, map[string]bool{}}}
	initCommands(w, w.Root)
	return w
}

func (w *World) Close() {
	for _, f := range w.fibers {
		f.stop()
	}
	w.fibers = nil
}

// Proc is a top-level evaluation of a script.
func (w *World) Proc(sc *Script) *Fiber {
	return w.Start(func(f *Fiber) Result { return w.Root.Eval(sc, f) })
}

// In sets the value the fiber is resumed with.
func (f *Fiber) In(v Value) { f.in = v }

// Snapshot is the canonical text of the root variables and constants.
func (w *World) Snapshot() string {
	var b strings.Builder
	for _, m := range []map[string]Value{w.Root.ctx.consts, w.Root.ctx.vars} {
		for _, k := range sortedKeys(m) {
			b.WriteString(k)
			b.WriteString("=")
			b.WriteString(Canon(m[k]))
			b.WriteString(";")
		}
		b.WriteString("/")
	}
	return b.String()
}

// Used is the part of the evaluation budget already spent.
func (w *World) Used() int { return maxFuel - w.fuel }

// Probe reads a root variable.
func (w *World) Probe(name string) (Value, bool) {
	v, k := w.Root.ctx.vars[name]
	return v, k
}

// maxFuel is the evaluation budget of a world, in sentences and iterations.
const maxFuel = 15000
