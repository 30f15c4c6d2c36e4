// Package impl drives the implementation under test through its exported API
// and renders its observable behaviour in the same canonical form as the
// reference model.
package impl

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"

	"helena/core"
	hd "helena/helena_dialect"

	"vharness/ref"
)

// Canon is the canonical text of a value.
func Canon(v core.Value) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func seq(b *strings.Builder, vs []core.Value) {
	for i, e := range vs {
		if i > 0 {
			b.WriteString(" ")
		}
		canon(b, e)
	}
}

func canon(b *strings.Builder, v core.Value) {
	switch v := v.(type) {
	case nil:
		b.WriteString("<none>")
	case core.NilValue:
		b.WriteString("nil")
	case core.BooleanValue:
		fmt.Fprintf(b, "b:%v", v.Value)
	case core.IntegerValue:
		fmt.Fprintf(b, "i:%d", v.Value)
	case core.RealValue:
		b.WriteString("r:" + ref.FmtReal(v.Value))
	case core.StringValue:
		fmt.Fprintf(b, "%q", v.Value)
	case core.ListValue:
		b.WriteString("[")
		seq(b, v.Values)
		b.WriteString("]")
	case core.TupleValue:
		b.WriteString("(")
		seq(b, v.Values)
		b.WriteString(")")
	case core.DictionaryValue:
		b.WriteString("{")
		ks := make([]string, 0, len(v.Map))
		for k := range v.Map {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(b, "%q=", k)
			canon(b, v.Map[k])
		}
		b.WriteString("}")
	case core.ScriptValue:
		if v.Source != nil {
			fmt.Fprintf(b, "script%q", *v.Source)
		} else {
			b.WriteString("script:" + CanonScript(v.Script, false))
		}
	case core.CommandValue:
		b.WriteString("<command>")
	case hd.ArgspecValue:
		b.WriteString("<argspec " + v.Usage(0) + ">")
	case core.QualifiedValue:
		b.WriteString("Q<")
		canon(b, v.Source)
		for _, s := range v.Selectors {
			switch s := s.(type) {
			case core.IndexedSelector:
				b.WriteString(" i(")
				canon(b, s.Index)
				b.WriteString(")")
			case core.KeyedSelector:
				b.WriteString(" k(")
				seq(b, s.Keys)
				b.WriteString(")")
			default:
				fmt.Fprintf(b, " <%T>", s)
			}
		}
		b.WriteString(">")
	default:
		fmt.Fprintf(b, "<%T>", v)
	}
}

// CanonScript is the canonical text of a syntax tree.
func CanonScript(s core.Script, ps bool) string {
	var b strings.Builder
	canonScript(&b, s, ps)
	return b.String()
}

func pos(b *strings.Builder, p *core.SourcePosition, on bool) {
	if !on {
		return
	}
	if p == nil {
		b.WriteString("@none")
		return
	}
	fmt.Fprintf(b, "@%d:%d:%d", p.Index, p.Line, p.Column)
}

func canonScript(b *strings.Builder, s core.Script, ps bool) {
	b.WriteString("S<")
	pos(b, s.Position, ps && len(s.Sentences) > 0)
	for i, se := range s.Sentences {
		if i > 0 {
			b.WriteString(";")
		}
		pos(b, se.Position, ps)
		for j, w := range se.Words {
			if j > 0 {
				b.WriteString(" ")
			}
			if w.Value != nil {
				b.WriteString("=")
				canon(b, w.Value)
				continue
			}
			b.WriteString("w")
			pos(b, w.Word.Position, ps)
			for _, m := range w.Word.Morphemes {
				canonMorph(b, m, ps)
			}
		}
	}
	b.WriteString(">")
}

func canonMorph(b *strings.Builder, m core.Morpheme, ps bool) {
	head := func(k byte) {
		b.WriteByte(k)
		pos(b, m.Position(), ps)
	}
	switch m := m.(type) {
	case core.LiteralMorpheme:
		head('l')
		fmt.Fprintf(b, "%q", m.Value)
	case core.TupleMorpheme:
		head('t')
		canonScript(b, m.Subscript, ps)
	case core.BlockMorpheme:
		head('b')
		fmt.Fprintf(b, "%q", m.Value)
		canonScript(b, m.Subscript, ps)
	case core.ExpressionMorpheme:
		head('e')
		canonScript(b, m.Subscript, ps)
	case core.StringMorpheme:
		head('s')
		b.WriteString("<")
		for _, p := range m.Morphemes {
			canonMorph(b, p, ps)
		}
		b.WriteString(">")
	case core.HereStringMorpheme:
		head('H')
		fmt.Fprintf(b, "%d%q", m.DelimiterLength, m.Value)
	case core.TaggedStringMorpheme:
		head('T')
		fmt.Fprintf(b, "%q%q", m.Tag, m.Value)
	case core.LineCommentMorpheme:
		head('c')
		fmt.Fprintf(b, "%d%q", m.DelimiterLength, m.Value)
	case core.BlockCommentMorpheme:
		head('C')
		fmt.Fprintf(b, "%d%q", m.DelimiterLength, m.Value)
	case core.SubstituteNextMorpheme:
		head('$')
		fmt.Fprintf(b, "%v%q", m.Expansion, m.Value)
	default:
		fmt.Fprintf(b, "<%T>", m)
	}
}

// CodeName is the name of a result code.
func CodeName(r core.Result) string {
	switch r.Code {
	case core.ResultCode_OK:
		return "ok"
	case core.ResultCode_RETURN:
		return "return"
	case core.ResultCode_YIELD:
		return "yield"
	case core.ResultCode_ERROR:
		return "error"
	case core.ResultCode_BREAK:
		return "break"
	case core.ResultCode_CONTINUE:
		return "continue"
	}
	return core.RESULT_CODE_NAME(r)
}

// Canonical form of a result.
func CanonResult(r core.Result) string { return CodeName(r) + " " + Canon(r.Value) }

// Options of a world.
type Options struct {
	Capture bool // everything below
	Dir     string

	// individual capture settings
	CapturePositions, CaptureStack, ParsePositions bool

	// settings of the module registry that are the opposite of those of the scope
	FlipModulePositions, FlipModuleStack bool
}

// World is one interpreter instance.
type World struct {
	Scope *hd.Scope
	Opt   Options
}

func NewWorld(o Options) *World {
	if o.Capture {
		o.CapturePositions, o.CaptureStack, o.ParsePositions = true, true, true
	}
	w := &World{Opt: o}
	w.Scope = hd.NewRootScope(&hd.ScopeOptions{CapturePositions: o.CapturePositions, CaptureErrorStack: o.CaptureStack})
	reg := hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: o.CapturePositions != o.FlipModulePositions, CaptureErrorStack: o.CaptureStack != o.FlipModuleStack})
	dir := o.Dir
	if dir == "" {
		dir = "/nonexistent"
	}
	hd.InitCommandsForModule(w.Scope, reg, dir)
	return w
}

// Guard runs f and turns a panic into a text.
func Guard(f func()) (crash string) {
	defer func() {
		if e := recover(); e != nil {
			crash = fmt.Sprintf("host panic: %v", e)
			LastStack.Store(string(debug.Stack()))
		}
	}()
	f()
	return ""
}

// LastStack is the stack of the last panic (diagnostics only).
var LastStack atomic.Value

// Parse parses a source text.
func Parse(src string, capture bool) (*core.Script, string) {
	toks := core.Tokenizer{}.Tokenize(src)
	var source *core.Source
	if capture {
		source = &core.Source{Content: &src}
	}
	r := core.NewParser(&core.ParserOptions{CapturePositions: capture}).ParseTokens(toks, source)
	if !r.Success {
		return nil, r.Message
	}
	return r.Script, ""
}

// ResumeValue is the value given back for the i-th yield of an evaluation.
func ResumeValue(i int) string { return fmt.Sprintf("r%d", i) }

// MaxYields bounds the yields of a trace.
const MaxYields = 12

// Eval evaluates a script and returns its trace: the yielded values and the
// final result.
func (w *World) Eval(src string) (out []string) {
	if c := Guard(func() {
		sc, msg := Parse(src, w.Opt.ParsePositions)
		if msg != "" {
			out = append(out, "syntax "+msg)
			return
		}
		p := w.Scope.PrepareProcess(w.Scope.Compile(*sc))
		var data any
		out, data = DriveData(p)
		if _, is := data.(*core.ErrorStack); is && !w.Opt.CaptureStack {
			out = append(out, "result with an unwanted error stack")
		}
	}); c != "" {
		out = append(out, c)
	}
	return
}

// Drive runs a process to its end.
func Drive(p *hd.Process) (out []string) {
	out, _ = DriveData(p)
	return
}

// DriveData runs a process to its end and also returns the data of its last
// result.
func DriveData(p *hd.Process) (out []string, data any) {
	if c := Guard(func() {
		for i := 0; ; i++ {
			r := p.Run()
			data = r.Data
			out = append(out, CanonResult(r))
			if r.Code != core.ResultCode_YIELD || i >= MaxYields {
				return
			}
			p.YieldBack(core.STR(ResumeValue(i)))
		}
	}); c != "" {
		out = append(out, c)
	}
	return
}

// Compare evaluates a history of scripts on a fresh instance of the model and
// of the implementation; it returns the first difference.
func Compare(history []string, o Options, files map[string]string) (diff string, fuelOut bool) {
	m := RunRef(history, o.Dir, files)
	if m == nil {
		return "", true
	}
	i := RunImpl(history, o)
	return Diff(history, m, i), false
}

func Diff(history []string, m, i [][]string) string {
	for k := range history {
		a, b := strings.Join(m[k], " | "), strings.Join(i[k], " | ")
		if a != b {
			return fmt.Sprintf("step %d %q: expected %s, got %s", k, history[k], a, b)
		}
	}
	return ""
}

func RunImpl(history []string, o Options) (out [][]string) {
	w := NewWorld(o)
	for _, src := range history {
		out = append(out, w.Eval(src))
	}
	return
}

// RunRef evaluates a history on the model; nil when it does not terminate
// within the evaluation budget.
func RunRef(history []string, dir string, files map[string]string) (out [][]string) {
	if dir == "" {
		dir = "/nonexistent"
	}
	w := ref.NewWorldWith(dir, files)
	defer w.Close()
	defer func() {
		if e := recover(); e != nil {
			if _, k := e.(ref.OutOfFuel); k {
				out = nil
				return
			}
			panic(e)
		}
	}()
	for _, src := range history {
		out = append(out, EvalRef(w, src))
	}
	return
}

func EvalRef(w *ref.World, src string) (out []string) {
	sc, msg := ref.Parse(src)
	if msg != "" {
		return []string{"syntax " + msg}
	}
	p := w.Proc(sc)
	for i := 0; ; i++ {
		r := p.Resume()
		out = append(out, r.C.String()+" "+ref.Canon(r.V))
		if r.C != ref.YIELD || i >= MaxYields {
			return
		}
		p.In(ref.Str(ResumeValue(i)))
	}
}
