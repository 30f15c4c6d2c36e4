package checks

import (
	"fmt"
	"strings"

	"helena/core"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
)

const vars07 = `set log ""; closure T {v} {set log "$log$v "; idem $v}
set l [list (a b c)]
set n [list ([list (p q)] [list (r [list (s t)])] x)]
set d [dict (k v a [list (1 2)] 0 zero)]
set dd [dict (k [dict (k [dict (k deep a 1)] a [list (k)])] a (l d))]
set t (l d)
set tl ([list (a b)] ([list (c d)] [list (e f)]))
set td ([dict (k 1 a 2)] [dict (k 3 a 4)])
set s "h\u00e9llo"
set q l[0]
set qq dd(k k)
set qt (l (n l))[1]
set n1 l
set n2 n1
set n3 n2
set nt (n1 (n2 n1))
set i 1
set k k
set kk (k a)
set b {x y}
set e ()
set el [list ()]
namespace ns {set k 1; let a 2}
set ns [ns]
set c [closure {} {}]`

func init() {
	mc.Register(&mc.Check{
		ID: "C07",
		Space: "all chains of up to N selectors (integer indexes inside, outside and at the bounds, non-integers, keys, multiple keys, invalid, failing, suspended and generic selectors) on all kinds of values at all levels of indirection, at once, one selector at a time, and through stored qualified names and variable commands; " +
			"all chains of selectors including resolved generic ones on values recording the selections applied to them, in tuples of every shape. State: root variables and outcome.",
		Assume: []string{interp, "generic selectors are resolved through the embedding API, the language itself defines none"},
		Enum:   enumC07,
		Eval:   with(progs, map[string]func([]string) mc.Out{"rules": evalRules, "kept": evalKeptRules}),
	})
}

func enumC07(e *mc.Env) {
	must(strings.ReplaceAll(vars07, "\n", "; "))
	vars := strings.ReplaceAll(vars07, "\n", "; ")
	emit := func(steps ...string) {
		if e.Mine() {
			e.Do("prog", append([]string{vars}, steps...)...)
		}
	}
	bases := sp("l n d dd t tl td s q qq qt n1 n2 n3 nt i b e el ns c zz {l} (l) (n1_l) (n_(l_d)) (tl_(l)) () {dd} (td)")
	sels := []string{"[0]", "[1]", "[2]", "[-1]", "[3]", "[a]", "[idem 1]", "[idem a]", "(k)", "(a)", "(a k)", "(0)", "($k)", "($*kk)", "()", "[]", "{}", "[idem 1.0]", "[idem (0 1)]", "((k))", "[list (0)]"}
	few := []string{"[0]", "[1]", "[9]", "[idem 1]", "(k)", "(a)", "(a k)", "(k k)", "()", "[error x]", "[yield 0]"}
	e.Phase("chains")
	for _, b := range bases {
		b = strings.ReplaceAll(b, "_", " ")
		all := func(n int, sels []string, forms bool) {
			gen.Seqs(sels, n, func(s []string) {
				j := strings.Join(s, "")
				for _, p := range []string{"$", "$$", "$$$"} {
					emit("idem " + p + b + j)
				}
				if !forms {
					return
				}
				emit("idem [get " + b + j + "]")
				emit("get "+b+j+" dflt", "exists "+b+j)
				emit("set w "+b+j, "idem $w", "get $w", "exists $w", "idem $$w", "idem $$w[0]", "idem $$w(k)", "list ($w[1] $w(a) $w)")
				emit("idem $[get " + b + "]" + j)
				st := []string{"set v $" + b}
				st2 := []string{"set w " + b}
				for _, x := range s {
					st = append(st, "set v $v"+x)
					st2 = append(st2, "set w $w"+x)
				}
				emit(append(st, "idem $v")...)
				emit(append(st2, "get $w", "idem $$w", "idem $w")...)
			})
		}
		all(0, sels, true)
		all(1, sels, true)
		all(2, sels, true)
		all(3, few, e.Thorough)
		if e.Thorough {
			all(4, few[:7], false)
			all(3, sels, false)
		}
	}
	e.Phase("derived names")
	// names derived from one stored name must not affect it nor each other
	ext := []string{"(a)", "(k)", "[0]", "[1]", "(a k)", "(x)(y)", "[0](a)"}
	bsel := []string{"(a)", "[0]", "(a k)"}
	for n := 0; n <= e.Pick(4, 6); n++ {
		gen.Seqs(bsel, n, func(s []string) {
			if n > 4 && strings.Count(strings.Join(s, ""), s[0]) < n {
				return
			}
			j := strings.Join(s, "")
			for _, b := range []string{"zz", "d", "(zz l)"} {
				gen.Product(func(x []string) {
					emit("set q [idem "+b+j+"]", "set r1 $q"+x[0], "set r2 $q"+x[1], "set r3 $r1"+x[1], "set r4 $r1"+x[0], "list ($q $r1 $r2 $r3 $r4)")
				}, ext, ext)
				emit("closure f {q} {idem $q(x)}; set q [idem "+b+j+"]", "set r1 [f $q]", "set r2 [f $q]", "set r3 $q(y)", "set r4 ($q $q)", "set r5 $r4(z)", "set r6 $q(w)", "list ($q $r1 $r2 $r3 $r4 $r5 $r6)")
			}
		})
	}
	for n := 5; n <= 20; n++ {
		for _, s := range bsel {
			emit("set q [idem zz"+strings.Repeat(s, n)+"]", "set r1 $q(x)", "set r2 $q(y)", "set r3 $q[2]", "set r4 $q[3]", "set r5 $r1(p)", "set r6 $r1(q)", "list ($q $r1 $r2 $r3 $r4 $r5 $r6)")
			emit("set q zz", "loop i {if [$i == "+fmt.Sprint(n)+"] {break}; set o $q; set q $q"+s+"; set p[idem $i] $o(x)}", "idem $q", "loop i {if [$i == "+fmt.Sprint(n)+"] {break}; set q $q(j)(k); set r $q(l)}; list ($q $r)")
		}
	}
	e.Phase("contexts")
	for _, b := range bases {
		b = strings.ReplaceAll(b, "_", " ")
		for n := 0; n <= 2; n++ {
			gen.Seqs(few, n, func(s []string) {
				w := b + strings.Join(s, "")
				for _, c := range []string{"idem \"<$%>\"", "idem ($*%)", "list (x $*% y) ", "idem a$%b", "idem (% %)", "list ($% $%)", "set w $%; idem $w", "idem $(%)", "idem $(% (% l))", "idem $(% zz)", "idem [idem $%]", "get (% l)", "get (% zz) d", "exists (% l)", "set %", "let % 5", "unset %", "idem $[idem (%)]", "idem $*$%", "set % 6; idem $%"} {
					emit(strings.ReplaceAll(c, "%", w))
				}
			})
		}
	}
	e.Phase("indexes")
	for _, v := range []string{"[list (a b c)]", "[idem abc]", "[list ()]", "[idem \"\"]", "[idem \"\u00e9\"]", "[idem ([list (a)] abc)]", "[idem (abc ([list (a b)]))]", "{a b}", "[idem 1]", "[1 + 1]", "[idem true]", "[true]", "[dict (a 1)]", "[idem a[0]]", "[]", "[closure {} {}]", "[argspec (a)]", "[idem {a b}]", "[1.5 + 1]"} {
		for _, x := range sp("0 1 2 3 4 -1 -2 -0 +1 00 01 1.0 1e0 0x1 9223372036854775807 -9223372036854775808 9223372036854775808 18446744073709551616 4294967296 4294967297 a true () {} \"\" [] \"\\x20\" (0) [1+1] nan") {
			emit("set v "+v, "idem $v[idem "+x+"]", "idem $v("+x+")", "list $v at "+x, "string $v at "+x, "tuple $v at "+x, "dict $v get "+x)
			emit("set v "+v, "set i "+x, "idem $v[idem $i]", "idem $v($i)", "idem $$[idem v[idem $i]]", "get v[idem $i] d", "exists v[idem $i]")
		}
	}
	e.Phase("names")
	for _, n := range []string{"a", "\"\"", "\"a b\"", "{a b}", "\"a(k)\"", "\"l[0]\"", "\"\\$l\"", "\"()\"", "1", "true", "\u00e9", "\"\\n\"", "{}", "{ }", "(a b)", "()", "((a))", "[list (a)]", "[dict (a b)]", "[1 + 1]", "[]", "a[0]", "a(k)", "(a b)[0]", "[true]", "[closure {} {}]"} {
		for _, v := range []string{"5", "[list (x y)]", "[dict (k v)]", "([list (x)] [list (y)])", "({} {})"} {
			emit("set w "+n, "set $w "+v, "get $w", "idem $$w", "idem $$w[0]", "idem $$w(k)", "set $w[0] 1", "exists $w", "get $w dflt", "unset $w", "exists $w", "get $w dflt")
		}
	}
	e.Phase("generic selectors")
	shapes := []string{"x", "()", "(x)", "(x y)", "(x (y z))", "((x) ())", "name", "(x name)", "q", "(q x)", "list", "(x list)", "opaque", "(x opaque)"}
	rs := []string{"[0]", "(k)", "(k l)", "{r}", "{r s}", "{r; s}", "{}", "{$v}", "{bad}", "{(r)}", "{r {s; t}}", "{none}", "{[one]}", `{"a b" "\$v;"}`, `{"" {}}`}
	for _, v := range shapes {
		for n := 1; n <= e.Pick(3, 4); n++ {
			gen.Seqs(rs, n, func(s []string) {
				e.Emit("rules", append([]string{v}, s...)...)
			})
		}
	}
	for n := 1; n <= 3; n++ {
		gen.Seqs(rs, n, func(s []string) { e.Emit("kept", s...) })
	}
}

// rec is a value recording the selections applied to it.
type rec struct{ path string }

func (rec) Type() core.ValueType { return core.ValueType_CUSTOM }
func (r rec) SelectIndex(i core.Value) core.Result {
	return core.OK(rec{r.path + "[" + canonRec(i) + "]"})
}
func (r rec) SelectKey(k core.Value) core.Result {
	return core.OK(rec{r.path + "(" + canonRec(k) + ")"})
}
func (r rec) SelectRules(rules []core.Value) core.Result {
	return core.OK(rec{r.path + "{" + canonRules(rules) + "}"})
}

type opaque struct{}

func (opaque) Type() core.ValueType { return core.ValueType_CUSTOM }

func canonRules(rules []core.Value) string {
	var out []string
	for _, x := range rules {
		out = append(out, canonRec(x))
	}
	return strings.Join(out, ";")
}

func canonRec(v core.Value) string {
	switch v := v.(type) {
	case rec:
		return "<" + v.path + ">"
	case opaque:
		return "opaque"
	case core.TupleValue:
		var out []string
		for _, x := range v.Values {
			out = append(out, canonRec(x))
		}
		return "(" + strings.Join(out, " ") + ")"
	case core.ListValue:
		var out []string
		for _, x := range v.Values {
			out = append(out, canonRec(x))
		}
		return "[" + strings.Join(out, " ") + "]"
	case core.QualifiedValue:
		s := "Q" + canonRec(v.Source)
		for _, x := range v.Selectors {
			switch x := x.(type) {
			case core.IndexedSelector:
				s += "[" + canonRec(x.Index) + "]"
			case core.KeyedSelector:
				for _, k := range x.Keys {
					s += "(" + canonRec(k) + ")"
				}
			case core.GenericSelector:
				s += "{" + canonRules(x.Rules) + "}"
			}
		}
		return s
	}
	return impl.Canon(v)
}

type ruleVars map[string]core.Value

func (m ruleVars) Resolve(name string) core.Value {
	if v, k := m[name]; k {
		return v
	}
	return nil
}

type ruleCmds struct{}

func (ruleCmds) Resolve(name core.Value) core.Command { return oneCmd{} }

type oneCmd struct{}

func (oneCmd) Execute(args []core.Value, _ any) core.Result {
	_, s := core.ValueToString(args[0])
	return core.OK(core.STR("<" + s + ">"))
}

type ruleSels struct{}

func (ruleSels) Resolve(rules []core.Value) (core.Result, core.Selector) {
	if len(rules) > 0 {
		switch canonRec(rules[0]) {
		case `("bad")`:
			return core.ERROR("bad rule"), nil
		case `("none")`:
			return core.OK(core.NIL), nil
		}
	}
	r, s := core.CreateGenericSelector(rules)
	if r.Code != core.ResultCode_OK {
		return r, nil
	}
	return core.OK(core.NIL), s
}

func runRules(src string, vars ruleVars) core.Result {
	sc, msg := impl.Parse(src, false)
	if msg != "" {
		return core.ERROR("syntax " + msg)
	}
	program := core.NewCompiler(nil).CompileWord(sc.Sentences[0].Words[0].Word)
	ex := core.Executor{VariableResolver: vars, CommandResolver: ruleCmds{}, SelectorResolver: ruleSels{}}
	return ex.Execute(program, nil)
}

func shapeValue(s string) core.Value {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") {
		var out []core.Value
		in := s[1 : len(s)-1]
		for in != "" {
			d, k := 0, 0
			for k < len(in) && (d > 0 || in[k] != ' ') {
				if in[k] == '(' {
					d++
				} else if in[k] == ')' {
					d--
				}
				k++
			}
			out = append(out, shapeValue(in[:k]))
			in = strings.TrimSpace(in[k:])
		}
		return core.TUPLE(out)
	}
	switch s {
	case "name":
		return core.STR("nm")
	case "q":
		return core.NewQualifiedValue(core.STR("x"), []core.Selector{})
	case "list":
		return core.LIST([]core.Value{rec{"e0"}, rec{"e1"}})
	case "opaque":
		return opaque{}
	}
	return rec{s}
}

// expected effect of one selector on one value
func modelSelect(v core.Value, sel string) (core.Value, string) {
	if sel[0] == '{' {
		if sel == "{bad}" {
			return nil, "bad rule"
		}
		if sel == "{none}" {
			return nil, `cannot resolve selector {(none)}`
		}
		if sel == "{}" {
			return nil, "empty selector"
		}
	}
	if t, is := v.(core.TupleValue); is {
		out := make([]core.Value, len(t.Values))
		for i, x := range t.Values {
			y, e := modelSelect(x, sel)
			if e != "" {
				return nil, e
			}
			out[i] = y
		}
		return core.TUPLE(out), ""
	}
	texts := map[string]string{"[0]": `["<0>"]`, "(k)": `("k")`, "(k l)": `("k")("l")`, "{r}": `{("r")}`, "{r s}": `{("r" "s")}`, "{r; s}": `{("r");("s")}`, "{$v}": `{("val")}`, "{(r)}": `{(("r"))}`, "{r {s; t}}": `{("r" script"s; t")}`, "{[one]}": `{("<one>")}`, `{"a b" "\$v;"}`: `{("a b" "$v;")}`, `{"" {}}`: `{("" script"")}`}
	switch v := v.(type) {
	case rec:
		return rec{v.path + texts[sel]}, ""
	case recQ:
		return recQ{v.path + texts[sel]}, ""
	case core.ListValue:
		if sel == "[0]" {
			return nil, `invalid integer "<0>"`
		}
	case core.StringValue:
		if sel == "[0]" {
			return nil, `invalid integer "<0>"`
		}
	}
	switch sel[0] {
	case '[':
		return nil, "value is not index-selectable"
	case '(':
		return nil, "value is not key-selectable"
	}
	return nil, "value is not selectable"
}

// recQ stands for a qualified value in the model.
type recQ struct{ path string }

func (recQ) Type() core.ValueType { return core.ValueType_CUSTOM }

func toModel(v core.Value) core.Value {
	switch v := v.(type) {
	case core.TupleValue:
		out := make([]core.Value, len(v.Values))
		for i, x := range v.Values {
			out[i] = toModel(x)
		}
		return core.TUPLE(out)
	case core.QualifiedValue:
		return recQ{`Q"x"`}
	}
	return v
}

func canonModel(v core.Value) string {
	switch v := v.(type) {
	case recQ:
		return v.path
	case core.TupleValue:
		var out []string
		for _, x := range v.Values {
			out = append(out, canonModel(x))
		}
		return "(" + strings.Join(out, " ") + ")"
	}
	return canonRec(v)
}

func evalRules(f []string) (o mc.Out) {
	base := shapeValue(f[0])
	var mv core.Value = toModel(base)
	msg := ""
	for _, s := range f[1:] {
		if mv, msg = modelSelect(mv, s); msg != "" {
			break
		}
	}
	want := "error " + msg
	if msg == "" {
		want = canonModel(mv)
	}
	chain := strings.Join(f[1:], "")
	show := func(r core.Result) string {
		if r.Code != core.ResultCode_OK {
			_, s := core.ValueToString(r.Value)
			return "error " + s
		}
		return canonRec(r.Value)
	}
	vars := ruleVars{"base": base, "v": core.STR("val"), "indirect": core.STR("base")}
	got := map[string]core.Result{}
	crash := impl.Guard(func() {
		got["direct"] = runRules("$base"+chain, vars)
		// one selector at a time
		r := core.OK(base)
		for _, s := range f[1:] {
			r = runRules("$v1"+s, ruleVars{"v1": r.Value, "v": core.STR("val")})
			if r.Code != core.ResultCode_OK {
				break
			}
		}
		got["stepwise"] = r
		// through a stored qualified name
		q := runRules("base"+chain, vars)
		if q.Code == core.ResultCode_OK {
			vars["stored"] = q.Value
			got["stored"] = runRules("$$stored", vars)
			before := canonRec(q.Value)
			runRules("$$indirect", vars)
			if a := canonRec(q.Value); a != before {
				o.Diff = "qualified name changed from " + before + " to " + a
			}
			// its display is a word that gives it again (indexes are shown as
			// commands, which do not give themselves here)
			if !strings.Contains(chain, "[0]") {
				text := core.Display(q.Value, nil)
				if a := show(runRules(text, vars)); a != before {
					o.Diff = fmt.Sprintf("display %q of %s evaluates to %s", text, before, a)
				}
			}
		}
	})
	o.Steps = len(f) * 3
	o.Traces = 1
	o.States = []uint64{mc.Hash(f...)}
	if crash != "" {
		o.Diff = crash
	}
	for _, k := range []string{"direct", "stepwise", "stored"} {
		r, has := got[k]
		if !has || o.Diff != "" {
			continue
		}
		if g := show(r); g != want {
			o.Diff = fmt.Sprintf("%s %s: expected %s, got %s", k, chain, want, g)
		}
	}
	return
}

// evalKeptRules checks that values built with generic selectors keep their
// rules while the same program goes on.
func evalKeptRules(f []string) (o mc.Out) {
	w := "x" + strings.Join(f, "")
	one := runRules(w, ruleVars{"v": core.STR("val")})
	if one.Code != core.ResultCode_OK {
		o.Skip = true
		return
	}
	want := canonRec(one.Value)
	vars := ruleVars{"v": core.STR("val")}
	r := runRules("("+w+" (a b c) "+w+" d e "+w+")", vars)
	got := canonRec(r.Value)
	exp := "(" + want + ` ("a" "b" "c") ` + want + ` "d" "e" ` + want + ")"
	if got != exp {
		o.Diff = fmt.Sprintf("%s: expected %s, got %s", w, exp, got)
	}
	o.Steps = 3
	o.Traces = 1
	o.States = []uint64{mc.Hash(f...)}
	return
}
