package checks

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"helena/core"
	hd "helena/helena_dialect"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C06",
		Space: "all strings up to a length over every lexically significant character, alone and inside tuples, lists, dictionary keys and values, selectors; boundary numbers; all trees of collections up to a size; all blocks made of grammar derivations of sentences, comments, strings and substitutions; all qualified names up to a size; values without display form everywhere. " +
			"State: the displayed value; transition: display followed by evaluation of the text.",
		Assume: []string{
			"strings are valid UTF-8 (source text is text), scalars are compared through their string form since literals evaluate to strings",
			"blocks are those of source text; index selectors of displayed qualified names hold numbers exact in double precision, as the index is displayed as an expression",
		},
		Enum: enumC06,
		Eval: map[string]func([]string) mc.Out{"value": evalDisplayValue, "source": evalDisplaySource},
	})
}

// encoding of values as prefix sequences of fields
type term []string

func tStr(s string) term { return term{"s", s} }
func tNode(k string, kids ...term) term {
	out := term{k, strconv.Itoa(len(kids))}
	for _, c := range kids {
		out = append(out, c...)
	}
	return out
}

func (t *term) next() string { s := (*t)[0]; *t = (*t)[1:]; return s }

func (t *term) value() core.Value {
	k := t.next()
	a := t.next()
	kids := func() []core.Value {
		n, _ := strconv.Atoi(a)
		vs := make([]core.Value, n)
		for i := range vs {
			vs[i] = t.value()
		}
		return vs
	}
	switch k {
	case "s":
		return core.STR(a)
	case "i":
		n, _ := strconv.ParseInt(a, 10, 64)
		return core.INT(n)
	case "r":
		n, _ := strconv.ParseFloat(a, 64)
		return core.REAL(n)
	case "b":
		return core.BOOL(a == "true")
	case "nil":
		return core.NIL
	case "B":
		return mustEval("idem {" + a + "}")
	case "T":
		return core.TUPLE(kids())
	case "L":
		return core.LIST(kids())
	case "D":
		vs := kids()
		m := map[string]core.Value{}
		for i := 0; i+1 < len(vs); i += 2 {
			_, s := core.ValueToString(vs[i])
			m[s] = vs[i+1]
		}
		return core.DICT(m)
	case "Q": // source then selectors
		vs := kids()
		var v core.Value = core.NewQualifiedValue(vs[0], []core.Selector{})
		for _, s := range vs[1:] {
			var r core.Result
			var sel core.Selector
			if tu, is := s.(core.TupleValue); is {
				r, sel = create(core.CreateKeyedSelector(tu.Values))
			} else {
				r, sel = create(core.CreateIndexedSelector(s))
			}
			if r.Code != core.ResultCode_OK {
				panic("bad selector")
			}
			q := v.(core.QualifiedValue)
			v = core.NewQualifiedValue(q.Source, append(append([]core.Selector{}, q.Selectors...), sel))
		}
		return v
	case "X": // values without display form
		switch a {
		case "script":
			sc, _ := impl.Parse("a b; c", false)
			return core.NewScriptValueWithNoSource(*sc)
		case "command":
			return core.NewCommandValue(nil)
		case "argspec":
			_, v := hd.ArgspecValueFromValue(core.LIST([]core.Value{core.STR("x")}))
			return v
		}
	}
	panic("bad term " + k)
}

func create[T core.Selector](r core.Result, s T) (core.Result, core.Selector) { return r, s }

func displayAny(d any) string {
	switch v := d.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, displayAny)
	case core.DictionaryValue:
		return hd.DisplayDictionaryValue(v, displayAny)
	}
	return core.DefaultDisplayFunction(d)
}

// normDisplay is the canonical text of a value up to the types of scalars:
// literals evaluate to strings.
func normDisplay(v core.Value) (out string, displayable bool) {
	displayable = true
	var b strings.Builder
	var walk func(core.Value)
	scalar := func(s string) { fmt.Fprintf(&b, "%q", s) }
	walk = func(v core.Value) {
		switch v := v.(type) {
		case core.NilValue:
			b.WriteString("nil")
		case core.BooleanValue:
			scalar(strconv.FormatBool(v.Value))
		case core.IntegerValue:
			scalar(strconv.FormatInt(v.Value, 10))
		case core.RealValue:
			fmt.Fprintf(&b, "<real %x>", math.Float64bits(v.Value))
			displayable = displayable && v.Value == v.Value
		case core.StringValue:
			scalar(v.Value)
			if !utf8.ValidString(v.Value) {
				displayable = false
			}
		case core.TupleValue:
			b.WriteString("(")
			for _, x := range v.Values {
				walk(x)
				b.WriteString(" ")
			}
			b.WriteString(")")
		case core.ListValue:
			b.WriteString("[")
			for _, x := range v.Values {
				walk(x)
				b.WriteString(" ")
			}
			b.WriteString("]")
		case core.DictionaryValue:
			ks := make([]string, 0, len(v.Map))
			for k := range v.Map {
				if !utf8.ValidString(k) {
					displayable = false
				}
				ks = append(ks, k)
			}
			sort.Strings(ks)
			b.WriteString("{")
			for _, k := range ks {
				scalar(k)
				walk(v.Map[k])
				b.WriteString(" ")
			}
			b.WriteString("}")
		case core.ScriptValue:
			if v.Source == nil {
				displayable = false
				return
			}
			fmt.Fprintf(&b, "block%q%s", *v.Source, impl.CanonScript(v.Script, false))
		case core.QualifiedValue:
			b.WriteString("Q<")
			walk(v.Source)
			for _, s := range v.Selectors {
				switch s := s.(type) {
				case core.KeyedSelector:
					b.WriteString(" k(")
					for _, x := range s.Keys {
						walk(x)
						b.WriteString(" ")
					}
					b.WriteString(")")
				case core.IndexedSelector:
					b.WriteString(" i(")
					switch s.Index.(type) {
					case core.IntegerValue, core.RealValue:
						walk(s.Index)
					default:
						_, n := core.ValueToFloat(s.Index)
						walk(core.REAL(n))
						displayable = false
					}
					b.WriteString(")")
				default:
					displayable = false
				}
			}
			b.WriteString(">")
		default:
			displayable = false
		}
	}
	walk(v)
	return b.String(), displayable
}

// sameDisplay compares the canonical texts of a value and of its reading:
// reals come back as numerals.
func sameNorm(a, b core.Value) bool {
	switch x := a.(type) {
	case core.RealValue:
		r, n := core.ValueToFloat(b)
		return r.Code == core.ResultCode_OK && math.Float64bits(n) == math.Float64bits(x.Value)
	case core.TupleValue:
		y, is := b.(core.TupleValue)
		return is && sameNorms(x.Values, y.Values)
	case core.ListValue:
		y, is := b.(core.ListValue)
		return is && sameNorms(x.Values, y.Values)
	case core.DictionaryValue:
		y, is := b.(core.DictionaryValue)
		if !is || len(x.Map) != len(y.Map) {
			return false
		}
		for k, v := range x.Map {
			w, has := y.Map[k]
			if !has || !sameNorm(v, w) {
				return false
			}
		}
		return true
	case core.QualifiedValue:
		y, is := b.(core.QualifiedValue)
		if !is || len(x.Selectors) != len(y.Selectors) || !sameNorm(x.Source, y.Source) {
			return false
		}
		for i, s := range x.Selectors {
			switch s := s.(type) {
			case core.KeyedSelector:
				t, is := y.Selectors[i].(core.KeyedSelector)
				if !is || !sameNorms(s.Keys, t.Keys) {
					return false
				}
			case core.IndexedSelector:
				t, is := y.Selectors[i].(core.IndexedSelector)
				if !is || !sameNorm(s.Index, t.Index) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	p, _ := normDisplay(a)
	q, _ := normDisplay(b)
	return p == q
}

func sameNorms(a, b []core.Value) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameNorm(a[i], b[i]) {
			return false
		}
	}
	return true
}

var displayWorld *impl.World

// checkDisplay decides the round trip of one value.
func checkDisplay(v core.Value) (diff string) {
	if displayWorld == nil {
		displayWorld = impl.NewWorld(impl.Options{})
	}
	before := impl.Canon(v)
	_, able := normDisplay(v)
	var text string
	if c := impl.Guard(func() { text = core.Display(v, displayAny) }); c != "" {
		return "display: " + c
	}
	if d, ok := v.(core.Displayable); ok {
		var x, y string
		if c := impl.Guard(func() { x, y = d.Display(nil), d.Display(core.DefaultDisplayFunction) }); c != "" {
			return "display without function: " + c
		}
		if x != y && !strings.Contains(y, "undisplayable") {
			return fmt.Sprintf("%s displays as %q without function, %q with the default one", before, x, y)
		}
	}
	if a := impl.Canon(v); a != before {
		return fmt.Sprintf("display changed %s into %s", before, a)
	}
	for i, ctx := range []string{"idem %", "list (a % z) at 1", "idem %; idem %"} {
		src := strings.ReplaceAll(ctx, "%", text)
		sc, msg := impl.Parse(src, false)
		if msg != "" {
			return fmt.Sprintf("%s displays as %q: syntax error %s", before, text, msg)
		}
		if i == 0 {
			if n := len(sc.Sentences); n != 1 || len(sc.Sentences[0].Words) != 2 {
				return fmt.Sprintf("%s displays as %q: not a single word", before, text)
			}
		}
		if !able {
			continue
		}
		var r core.Result
		if c := impl.Guard(func() { r = displayWorld.Scope.PrepareProcess(displayWorld.Scope.Compile(*sc)).Run() }); c != "" {
			return fmt.Sprintf("%s displays as %q: %s", before, text, c)
		}
		if r.Code != core.ResultCode_OK || !sameNorm(v, r.Value) {
			return fmt.Sprintf("%s displays as %q, which gives %s", before, text, impl.CanonResult(r))
		}
	}
	return ""
}

func evalDisplayValue(f []string) (o mc.Out) {
	t := term(f)
	v := t.value()
	o.Diff = checkDisplay(v)
	o.States = []uint64{mc.Hash(f...)}
	o.Steps = 3
	o.Traces = 1
	return
}

// evalDisplaySource displays the value of a word of source text.
func evalDisplaySource(f []string) (o mc.Out) {
	src := "idem " + f[0]
	sc, msg := impl.Parse(src, false)
	if msg != "" || len(sc.Sentences) != 1 || len(sc.Sentences[0].Words) != 2 {
		o.Skip = true
		return
	}
	if displayWorld == nil {
		displayWorld = impl.NewWorld(impl.Options{})
	}
	var r core.Result
	if c := impl.Guard(func() { r = displayWorld.Scope.PrepareProcess(displayWorld.Scope.Compile(*sc)).Run() }); c != "" {
		o.Diff = c
		return
	}
	if r.Code != core.ResultCode_OK {
		o.Skip = true
		return
	}
	o.Diff = checkDisplay(r.Value)
	o.States = []uint64{mc.Hash(impl.Canon(r.Value))}
	o.Steps = 4
	o.Traces = 1
	return
}

// safeIndex tells whether an index is a number that survives its evaluation as
// an expression in double precision.
func safeIndex(t term) bool {
	switch t[0] {
	case "i":
		n, _ := strconv.ParseInt(t[1], 10, 64)
		return n >= -1<<53 && n <= 1<<53
	case "r":
		f, _ := strconv.ParseFloat(t[1], 64)
		return !math.IsInf(f, 0) && (f != 0 || !math.Signbit(f))
	}
	return false
}

func enumC06(e *mc.Env) {
	doT := func(t term) {
		if e.Mine() {
			e.Do("value", t...)
		}
	}
	e.Phase("strings")
	chars := []string{" ", "\t", "\n", "\r", "\\", "$", "\"", "(", ")", "{", "}", "[", "]", "#", ";", "*", "a", "n", "x", "0", "é", "\x00"}
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(chars, n, func(s []string) { doT(tStr(strings.Join(s, ""))) })
	}
	core1 := []string{"\\", "$", "\"", "{", "}", "[", "(", ")", "#", " ", "\n", "a", "u"}
	if e.Thorough {
		gen.Seqs(core1, 6, func(s []string) { doT(tStr(strings.Join(s, ""))) })
	} else {
		gen.Seqs(core1[:9], 5, func(s []string) { doT(tStr(strings.Join(s, ""))) })
	}
	e.Phase("strings in context")
	for n := 0; n <= e.Pick(2, 3); n++ {
		gen.Seqs(chars, n, func(s []string) {
			t := tStr(strings.Join(s, ""))
			a := tStr("a")
			doT(tNode("T", t))
			doT(tNode("T", a, t))
			doT(tNode("T", t, t))
			doT(tNode("L", t))
			doT(tNode("L", t, a))
			doT(tNode("D", t, a))
			doT(tNode("D", a, t))
			doT(tNode("D", t, t, a, a))
			doT(tNode("Q", a, tNode("T", t)))
			doT(tNode("Q", a, tNode("T", a, t)))
			doT(tNode("Q", tNode("T", t), tNode("T", a)))
			doT(tNode("Q", tNode("T", a, t), tNode("T", tNode("T", t))))
			doT(tNode("T", tNode("L", tNode("D", a, t))))
		})
	}
	e.Phase("numbers")
	var nums []term
	for _, s := range sp("0 1 -1 5 127 -128 9007199254740993 9223372036854775807 -9223372036854775808") {
		nums = append(nums, term{"i", s})
	}
	for _, s := range sp("0 -0 1 -1 0.1 0.2 0.30000000000000004 1e10 1e15 1e16 1e20 1e21 1e22 1e100 -1e100 1e308 1.7976931348623157e308 5e-324 2.2250738585072014e-308 1e-5 1e-7 123456789.125 3.141592653589793 +Inf -Inf 9007199254740993 0.000001 100000 1000000 12345678 123456789012345680000") {
		nums = append(nums, term{"r", s})
	}
	nums = append(nums, term{"b", "true"}, term{"b", "false"}, term{"nil", ""})
	for k := -1074; k <= 1023; k++ {
		nums = append(nums, term{"r", strconv.FormatFloat(math.Ldexp(1, k), 'g', -1, 64)}, term{"r", strconv.FormatFloat(-math.Ldexp(1.1, k), 'g', -1, 64)})
	}
	for k := 0; k < 63; k++ {
		nums = append(nums, term{"i", strconv.FormatInt(1<<k, 10)}, term{"i", strconv.FormatInt(-(1<<k)-1, 10)})
	}
	for _, t := range nums {
		doT(t)
		doT(tNode("T", t, t))
		doT(tNode("L", t))
		doT(tNode("D", tStr("a"), t))
		doT(tNode("Q", tStr("a"), tNode("T", t)))
		if safeIndex(t) {
			doT(tNode("Q", tStr("a"), t))
			doT(tNode("Q", tStr("a"), t, tNode("T", t), t))
		}
	}
	e.Phase("trees")
	leaves := []term{tStr("a"), tStr(""), tStr("\\"), tStr("$a \"}"), tStr("#"), tStr("*"), {"i", "1"}, {"r", "1.5"}, {"b", "true"}, {"nil", ""}, {"B", "a; $b #{c}# \"d\""}, {"B", ""}, {"X", "script"}, {"X", "command"}, {"X", "argspec"}}
	var trees func(n int) []term
	memo := map[int][]term{}
	trees = func(n int) []term {
		if n == 0 {
			return leaves
		}
		if m, ok := memo[n]; ok {
			return m
		}
		var out []term
		for _, k := range []string{"T", "L"} {
			if n == 1 {
				out = append(out, tNode(k))
			}
			for _, a := range trees(n - 1) {
				out = append(out, tNode(k, a))
			}
			for i := 0; i < n; i++ {
				for _, a := range trees(i) {
					for _, b := range trees(n - 1 - i) {
						out = append(out, tNode(k, a, b))
					}
				}
			}
		}
		if n == 1 {
			out = append(out, tNode("D"))
		}
		for _, a := range trees(n - 1) {
			out = append(out, tNode("D", tStr("k"), a), tNode("D", tStr("k\\ "), a, tStr("l"), tStr("\"")))
			out = append(out, tNode("Q", tStr("q"), tNode("T", a)))
			out = append(out, tNode("Q", tNode("T", tStr("q"), a), tNode("T", tStr("k"), a), term{"i", "1"}, tNode("T", a)))
		}
		memo[n] = out
		return out
	}
	for n := 0; n <= e.Pick(2, 3); n++ {
		if n == 3 {
			leaves = leaves[:5]
			memo = map[int][]term{}
		}
		for _, t := range trees(n) {
			doT(t)
		}
	}
	e.Phase("blocks and words of source")
	g := gen.New(`
w:
 0 a
 0 1
 1 {<s>}
 1 (<s>)
 1 "<q>"
 1 """a "b """
 1 ""E\ne $f\nE""
 1 #{c }}#
 1 $a
 1 [list (<w>)]
 1 <n><k>
 1 ##{ c }# }##
 1 \$
 1 a\\n  b
s:
 0 
 0 <w>
 1 <w> <w>
 1 <w>;<w>
 1  <w> 
 1 <w>\n<w>
 1 # c\n<w>
 1 <w>#{}#
q:
 0 
 0 a
 1 \"
 1 }
 1 {
 1 $a
 1 <q><q>
 1  ;#
 1 \x41\\
n:
 0 a
 0 {a b}
 1 {<s>}
 1 (<s>)
k:
 0 (a)
 0 [idem 1]
 1 (<s>)
 1 [1]
 1 <k><k>
 1 [+ 1 2]
`)
	g.UpTo("w", e.Pick(5, 6), func(s string) {
		if e.Mine() {
			e.Do("source", s)
		}
	})
	e.Phase("block texts")
	bc := []string{" ", "\n", "\\", "$", "\"", "(", ")", "{", "}", "[", "]", "#", ";", "a"}
	for n := 0; n <= e.Pick(5, 6); n++ {
		gen.Seqs(bc, n, func(s []string) {
			if e.Mine() {
				t := strings.Join(s, "")
				e.Do("source", "{"+t+"}")
				if n < 5 {
					e.Do("source", "{"+t+"}(a)")
					e.Do("source", "({"+t+"} b)[1](c)")
				}
			}
		})
	}
}

// mustEval evaluates a text without effects on the implementation.
func mustEval(src string) core.Value {
	if displayWorld == nil {
		displayWorld = impl.NewWorld(impl.Options{})
	}
	sc, msg := impl.Parse(src, false)
	if msg != "" {
		panic("bad source " + src)
	}
	r := displayWorld.Scope.PrepareProcess(displayWorld.Scope.Compile(*sc)).Run()
	if r.Code != core.ResultCode_OK {
		panic("bad value " + src)
	}
	return r.Value
}
