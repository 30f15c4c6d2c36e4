package ref

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// Value is one of: Nil, Bool, Int, Real, Str, *List, *Dict, *Tuple, *Scr, *Cmd,
// *Qual, *Spec. All of them are immutable once built.
type Value interface{}

type (
	Nil   struct{}
	Bool  bool
	Int   int64
	Real  float64
	Str   string
	List  struct{ E []Value }
	Dict  struct{ M map[string]Value }
	Tuple struct{ E []Value }
	Scr   struct {
		S   *Script
		Src *string
	}
	Cmd struct {
		C   Command
		Key func(key Value) Result // key selection, when supported
	}
	Qual struct {
		Src Value
		Sel []Sel
	}
)

// Sel is a selector: index, keys or rules.
type Sel struct {
	K    byte // 'i', 'k', 'h'
	Vals []Value
	Fn   func(Value) Result // of an embedder
}

type Code int

const (
	OK Code = iota
	RETURN
	YIELD
	ERROR
	BREAK
	CONTINUE
	PASS
)

var codeNames = []string{"ok", "return", "yield", "error", "break", "continue", "pass"}

func (c Code) String() string { return codeNames[c] }

type Result struct {
	C Code
	V Value
}

func ok(v Value) Result                      { return Result{OK, v} }
func errf(f string, a ...interface{}) Result { return Result{ERROR, Str(fmt.Sprintf(f, a...))} }
func okNil() Result                          { return Result{OK, Nil{}} }
func tuple(vs ...Value) *Tuple               { return &Tuple{vs} }
func list(vs ...Value) *List                 { return &List{vs} }

// FmtReal is the textual form of a real number.
func FmtReal(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

// text returns the string representation of a value, if it has one.
func text(v Value) (string, bool) {
	switch v := v.(type) {
	case Str:
		return string(v), true
	case Bool:
		if v {
			return "true", true
		}
		return "false", true
	case Int:
		return strconv.FormatInt(int64(v), 10), true
	case Real:
		return FmtReal(float64(v)), true
	case *Scr:
		if v.Src != nil {
			return *v.Src, true
		}
	}
	return "", false
}

var noText = Result{ERROR, Str("value has no string representation")}

func toText(v Value) (string, *Result) {
	if s, k := text(v); k {
		return s, nil
	}
	r := noText
	return "", &r
}

func toBool(v Value) (bool, *Result) {
	if b, k := v.(Bool); k {
		return bool(b), nil
	}
	s, e := toText(v)
	if e != nil {
		return false, e
	}
	if s == "true" || s == "false" {
		return s == "true", nil
	}
	r := errf(`invalid boolean "%s"`, s)
	return false, &r
}

func parseInt(s string) (int64, bool) {
	// [+-]?[0-9]+ within the 64-bit range
	i := 0
	neg := false
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
	}
	if i == len(s) {
		return 0, false
	}
	var v uint64
	for ; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d := uint64(s[i] - '0')
		if v > (math.MaxUint64-d)/10 {
			return 0, false
		}
		v = v*10 + d
	}
	if neg {
		if v > 1<<63 {
			return 0, false
		}
		return int64(-v), true
	}
	if v > math.MaxInt64 {
		return 0, false
	}
	return int64(v), true
}

func toInt(v Value) (int64, *Result) {
	if i, k := v.(Int); k {
		return int64(i), nil
	}
	s, e := toText(v)
	if e != nil {
		return 0, e
	}
	if i, k := parseInt(s); k {
		return i, nil
	}
	r := errf(`invalid integer "%s"`, s)
	return 0, &r
}

func isNumber(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

func toReal(v Value) (float64, *Result) {
	switch v := v.(type) {
	case Real:
		return float64(v), nil
	case Int:
		return float64(v), nil
	}
	s, e := toText(v)
	if e != nil {
		return 0, e
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		r := errf(`invalid number "%s"`, s)
		return 0, &r
	}
	return f, nil
}

// Canon is the canonical, type-tagged text of a value, used to compare the
// model with the implementation.
func Canon(v Value) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v Value) {
	switch v := v.(type) {
	case nil:
		b.WriteString("<none>")
	case Nil:
		b.WriteString("nil")
	case Bool:
		fmt.Fprintf(b, "b:%v", bool(v))
	case Int:
		fmt.Fprintf(b, "i:%d", int64(v))
	case Real:
		b.WriteString("r:" + FmtReal(float64(v)))
	case Str:
		fmt.Fprintf(b, "%q", string(v))
	case *List:
		b.WriteString("[")
		canonSeq(b, v.E)
		b.WriteString("]")
	case *Tuple:
		b.WriteString("(")
		canonSeq(b, v.E)
		b.WriteString(")")
	case *Dict:
		b.WriteString("{")
		ks := make([]string, 0, len(v.M))
		for k := range v.M {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for i, k := range ks {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(b, "%q=", k)
			canon(b, v.M[k])
		}
		b.WriteString("}")
	case *Scr:
		if v.Src != nil {
			fmt.Fprintf(b, "script%q", *v.Src)
		} else {
			b.WriteString("script:" + CanonScript(v.S))
		}
	case *Cmd:
		b.WriteString("<command>")
	case *Spec:
		b.WriteString("<argspec " + v.usage(0) + ">")
	case *Qual:
		b.WriteString("Q<")
		canon(b, v.Src)
		for _, s := range v.Sel {
			if s.Fn != nil {
				b.WriteString(" <checks.hostSel>")
				continue
			}
			b.WriteString(" " + string(s.K))
			b.WriteString("(")
			canonSeq(b, s.Vals)
			b.WriteString(")")
		}
		b.WriteString(">")
	default:
		fmt.Fprintf(b, "<%T>", v)
	}
}

func canonSeq(b *strings.Builder, vs []Value) {
	for i, e := range vs {
		if i > 0 {
			b.WriteString(" ")
		}
		canon(b, e)
	}
}

// CanonScript is the canonical text of a syntax tree (positions excluded).
func CanonScript(s *Script) string {
	var b strings.Builder
	canonScript(&b, s, false)
	return b.String()
}

// CanonScriptPos includes the positions of all the nodes.
func CanonScriptPos(s *Script) string {
	var b strings.Builder
	canonScript(&b, s, true)
	return b.String()
}

func pos(b *strings.Builder, p Pos, on bool) {
	if on {
		fmt.Fprintf(b, "@%d:%d:%d", p.Idx, p.Line, p.Col)
	}
}

func canonScript(b *strings.Builder, s *Script, ps bool) {
	b.WriteString("S<")
	pos(b, s.P, ps && len(s.Sents) > 0)
	for i, se := range s.Sents {
		if i > 0 {
			b.WriteString(";")
		}
		pos(b, se.P, ps)
		for j, w := range se.Words {
			if j > 0 {
				b.WriteString(" ")
			}
			if w.V != nil {
				b.WriteString("=")
				canon(b, w.V)
				continue
			}
			b.WriteString("w")
			pos(b, w.P, ps)
			for _, m := range w.Ms {
				canonMorph(b, m, ps)
			}
		}
	}
	b.WriteString(">")
}

func canonMorph(b *strings.Builder, m *Morph, ps bool) {
	b.WriteByte("ltbesHTcC$"[m.K])
	pos(b, m.P, ps)
	switch m.K {
	case MLit:
		fmt.Fprintf(b, "%q", m.Val)
	case MTuple, MExpr:
		canonScript(b, m.Sub, ps)
	case MBlock:
		fmt.Fprintf(b, "%q", m.Val)
		canonScript(b, m.Sub, ps)
	case MStr:
		b.WriteString("<")
		for _, p := range m.Parts {
			canonMorph(b, p, ps)
		}
		b.WriteString(">")
	case MHere, MLineC, MBlockC:
		fmt.Fprintf(b, "%d%q", m.Delim, m.Val)
	case MTagged:
		fmt.Fprintf(b, "%q%q", m.Tag, m.Val)
	case MSubst:
		fmt.Fprintf(b, "%v%q", m.Exp, m.Val)
	}
}

// selectors ------------------------------------------------------------------

func selIndex(v, idx Value) Result {
	if _, k := idx.(Nil); k {
		return errf("invalid index")
	}
	switch v := v.(type) {
	case Str:
		i, e := toInt(idx)
		if e != nil {
			return *e
		}
		if i < 0 || i >= int64(len(v)) {
			return errf(`index out of range "%d"`, i)
		}
		return ok(v[i : i+1])
	case *List:
		return listAt(v.E, idx, nil)
	case *Tuple:
		return mapTuple(v, func(e Value) Result { return selIndex(e, idx) })
	case *Qual:
		return ok(&Qual{v.Src, append(append([]Sel{}, v.Sel...), Sel{K: 'i', Vals: []Value{idx}})})
	}
	return errf("value is not index-selectable")
}

func listAt(es []Value, idx Value, def Value) Result {
	i, e := toInt(idx)
	if e != nil {
		return *e
	}
	if i < 0 || i >= int64(len(es)) {
		if def != nil {
			return ok(def)
		}
		return errf(`index out of range "%d"`, i)
	}
	return ok(es[i])
}

func mapTuple(t *Tuple, f func(Value) Result) Result {
	out := make([]Value, len(t.E))
	for i, e := range t.E {
		r := f(e)
		if r.C != OK {
			return r
		}
		out[i] = r.V
	}
	return ok(&Tuple{out})
}

func selKey(v, key Value) Result {
	switch v := v.(type) {
	case *Dict:
		s, k := text(key)
		if !k {
			return errf("invalid key")
		}
		if e, k := v.M[s]; k {
			return ok(e)
		}
		return errf("unknown key")
	case *Tuple:
		return mapTuple(v, func(e Value) Result { return selKey(e, key) })
	case *Cmd:
		if v.Key != nil {
			return v.Key(key)
		}
	case *Qual:
		sels := append([]Sel{}, v.Sel...)
		if n := len(sels); n > 0 && sels[n-1].K == 'k' {
			sels[n-1] = Sel{K: 'k', Vals: append(append([]Value{}, sels[n-1].Vals...), key)}
		} else {
			sels = append(sels, Sel{K: 'k', Vals: []Value{key}})
		}
		return ok(&Qual{v.Src, sels})
	}
	return errf("value is not key-selectable")
}

func selKeys(v Value, keys []Value) Result {
	if len(keys) == 0 {
		return errf("empty selector")
	}
	for _, k := range keys {
		r := selKey(v, k)
		if r.C != OK {
			return r
		}
		v = r.V
	}
	return ok(v)
}

func applySel(v Value, s Sel) Result {
	if s.Fn != nil {
		return s.Fn(v)
	}
	if s.K == 'i' {
		return selIndex(v, s.Vals[0])
	}
	return selKeys(v, s.Vals)
}
