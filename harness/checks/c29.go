package checks

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"helena/core"
	rx "helena/native/go_regexp"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C29",
		Space: "all patterns of up to N pieces (literals, classes, repetitions, groups, named groups, alternatives, anchors, flags, multi-byte characters, invalid ones), compiled in both modes, under every method with all inputs up to a length, all limits and replacement templates; " +
			"all argument kinds and numbers of arguments of every method; all histories up to a length of calls on two expressions, one of them held by several variables. State: expression, its mode and the results of all methods.",
		Assume: []string{"the oracle is the regexp package called with the same arguments"},
		Enum:   enumC29,
		Eval: map[string]func([]string) mc.Out{
			"pattern": evalPattern, "args": evalRxArgs, "hist": evalRxHist,
		},
	})
}

func rxWorld() *impl.World {
	w := impl.NewWorld(impl.Options{})
	w.Scope.RegisterNamedCommand("regexp", rx.RegexpCmd{})
	return w
}

func strs(xs []string) core.Value {
	if xs == nil {
		return core.NIL
	}
	return strList(xs)
}

func strList(xs []string) core.Value {
	out := make([]core.Value, len(xs))
	for i, x := range xs {
		out[i] = core.STR(x)
	}
	return core.LIST(out)
}

func ints(xs []int) core.Value {
	if xs == nil {
		return core.NIL
	}
	out := make([]core.Value, len(xs))
	for i, x := range xs {
		out[i] = core.INT(int64(x))
	}
	return core.LIST(out)
}

// rxWant is the expected value of a method.
func rxWant(m string, re *regexp.Regexp, s, r string, n int) core.Value {
	switch m {
	case "FindAllString":
		return strs(re.FindAllString(s, n))
	case "FindAllStringIndex", "FindAllStringSubmatchIndex":
		var all [][]int
		if m == "FindAllStringIndex" {
			all = re.FindAllStringIndex(s, n)
		} else {
			all = re.FindAllStringSubmatchIndex(s, n)
		}
		if all == nil {
			return core.NIL
		}
		out := []core.Value{}
		for _, x := range all {
			out = append(out, ints(x))
		}
		return core.LIST(out)
	case "FindAllStringSubmatch":
		all := re.FindAllStringSubmatch(s, n)
		if all == nil {
			return core.NIL
		}
		out := []core.Value{}
		for _, x := range all {
			out = append(out, strs(x))
		}
		return core.LIST(out)
	case "Split":
		return strList(re.Split(s, n))
	case "FindString":
		return core.STR(re.FindString(s))
	case "FindStringIndex":
		return ints(re.FindStringIndex(s))
	case "FindStringSubmatch":
		return strs(re.FindStringSubmatch(s))
	case "FindStringSubmatchIndex":
		return ints(re.FindStringSubmatchIndex(s))
	case "MatchString":
		return core.BOOL(re.MatchString(s))
	case "SubexpIndex":
		return core.INT(int64(re.SubexpIndex(s)))
	case "ReplaceAllLiteralString":
		return core.STR(re.ReplaceAllLiteralString(s, r))
	case "ReplaceAllString":
		return core.STR(re.ReplaceAllString(s, r))
	case "LiteralPrefix":
		p, k := re.LiteralPrefix()
		return core.TUPLE([]core.Value{core.STR(p), core.BOOL(k)})
	case "NumSubexp":
		return core.INT(int64(re.NumSubexp()))
	case "String":
		return core.STR(re.String())
	case "SubexpNames":
		return strList(re.SubexpNames())
	}
	panic(m)
}

var (
	rxNone  = sp("LiteralPrefix NumSubexp String SubexpNames")
	rxStr   = sp("FindString FindStringIndex FindStringSubmatch FindStringSubmatchIndex MatchString SubexpIndex")
	rxLimit = sp("FindAllString FindAllStringIndex FindAllStringSubmatch FindAllStringSubmatchIndex Split")
	rxRepl  = sp("ReplaceAllLiteralString ReplaceAllString")
)

// rxRun compares one call.
func rxRun(w *impl.World, m string, re *regexp.Regexp, tail string, s, r string, n int) string {
	want := "ok " + impl.Canon(rxWant(m, re, s, r, n))
	got := strings.Join(w.Eval("regexp "+m+" $re"+tail), " | ")
	if got != want {
		return fmt.Sprintf("regexp %s %q s=%q repl=%q n=%d: expected %s, got %s", m, re.String(), s, r, n, want, got)
	}
	return ""
}

func rxInputs(n int) (out []string) {
	for k := 0; k <= n; k++ {
		gen.Seqs([]string{"a", "b", "é", "\n"}, k, func(s []string) { out = append(out, strings.Join(s, "")) })
	}
	return
}

var rxRepls = []string{"", "x", "$0", "$1", "${1}", "<$1$2>", "$n", "${n}x", "$$", "$", "$1x", "é$0", "\\1", "${", "$é"}
var rxLimits = []string{"-1", "0", "1", "2", "3", "-2", "9223372036854775807"}

// evalPattern: fields are the compilation method, the length of inputs, and
// the pattern.
func evalPattern(f []string) (o mc.Out) {
	w := rxWorld()
	set := func(k, v string) { w.Scope.SetNamedVariable(k, core.STR(v)) }
	set("p", f[2])
	var re *regexp.Regexp
	var err error
	if f[0] == "CompilePOSIX" {
		re, err = regexp.CompilePOSIX(f[2])
	} else {
		re, err = regexp.Compile(f[2])
	}
	got := strings.Join(w.Eval("regexp "+f[0]+" $p"), " | ")
	o.Traces = 1
	o.Steps = 1
	if err != nil {
		o.States = []uint64{mc.Hash("invalid", err.Error())}
		if want := "error " + fmt.Sprintf("%q", err.Error()); got != want {
			o.Diff = fmt.Sprintf("%s %q: expected %s, got %s", f[0], f[2], want, got)
		}
		return
	}
	if r := w.Eval("set re [regexp " + f[0] + " $p]; idem ok"); r[0] != `ok "ok"` {
		o.Diff = fmt.Sprintf("%s %q: %v", f[0], f[2], r)
		return
	}
	try := func(m, tail, s, r string, n int) bool {
		o.Steps++
		o.Diff = rxRun(w, m, re, tail, s, r, n)
		return o.Diff == ""
	}
	k, _ := strconv.Atoi(f[1])
	ins := rxInputs(k)
	for _, m := range rxNone {
		if !try(m, "", "", "", 0) {
			return
		}
	}
	for i, s := range ins {
		set("s", s)
		for _, m := range rxStr {
			if !try(m, " $s", s, "", 0) {
				return
			}
		}
		for _, m := range rxLimit {
			for j, l := range rxLimits {
				if i > 30 && j > 3 {
					break
				}
				n, _ := strconv.Atoi(l)
				if !try(m, " $s "+l, s, "", n) {
					return
				}
			}
		}
		for _, m := range rxRepl {
			for j, r := range rxRepls {
				if i > 30 && j%4 != 0 {
					continue
				}
				set("r", r)
				if !try(m, " $s $r", s, r, 0) {
					return
				}
			}
		}
		o.States = append(o.States, mc.Hash(f[0], f[2], impl.Canon(ints(re.FindStringSubmatchIndex(s)))))
	}
	for _, n := range re.SubexpNames() {
		set("s", n)
		if !try("SubexpIndex", " $s", n, "", 0) {
			return
		}
	}
	// after all these uses it is still the same expression
	for _, m := range rxNone {
		if !try(m, "", "", "", 0) {
			return
		}
	}
	return
}

// evalRxArgs: fields are a method and the words of its arguments. Expected
// errors are those of the conversions of the language.
func evalRxArgs(f []string) (o mc.Out) {
	w := rxWorld()
	w.Eval(`set re [regexp Compile "(a)(?P<n>b)?"]`)
	re := regexp.MustCompile("(a)(?P<n>b)?")
	m, words := f[0], f[1:]
	got := strings.Join(w.Eval("regexp "+m+" "+strings.Join(words, " ")), " | ")
	sigs := map[string]string{"QuoteMeta": "s", "Compile": "expr", "CompilePOSIX": "expr", "Longest": "re"}
	for _, x := range rxNone {
		sigs[x] = "re"
	}
	for _, x := range rxStr {
		sigs[x] = "re s"
	}
	for _, x := range rxLimit {
		sigs[x] = "re s n"
	}
	for _, x := range rxRepl {
		sigs[x] = "re src repl"
	}
	o.Traces, o.Steps = 1, 1
	o.States = []uint64{mc.Hash(f...)}
	sig, known := sigs[m]
	var want string
	conv := func(src string) (string, bool) { // value on the model
		exp, _, _ := runRef([]string{src}, "", nil)
		return exp[0][0], strings.HasPrefix(exp[0][0], "ok")
	}
	unq := func(s string) string {
		t, err := strconv.Unquote(strings.TrimPrefix(s, "ok "))
		if err != nil {
			panic(s)
		}
		return t
	}
	switch {
	case m == "ReplaceAllStringFunc":
		want = `error "not implemented"`
	case !known:
		want = fmt.Sprintf("error %q", `unknown method "`+m+`"`)
	case len(words) != len(strings.Fields(sig)):
		want = fmt.Sprintf("error %q", `wrong # args: should be "regexp `+m+" "+sig+`"`)
	default:
		var s, r string
		n := 0
		for i, kind := range strings.Fields(sig) {
			x := words[i]
			switch kind {
			case "re":
				if x != "$re" && want == "" {
					want = `error "invalid regexp value"`
				}
			case "n":
				if x == "$re" {
					x = "[list ()]"
				}
				v, ok := conv("int " + x)
				if !ok && want == "" {
					want = v
				} else if ok {
					n, _ = strconv.Atoi(strings.TrimPrefix(v, "ok i:"))
				}
			default:
				if x == "$re" {
					x = "[list ()]"
				}
				v, ok := conv("string " + x + " append")
				if !ok {
					if want == "" {
						want = v
					}
					continue
				}
				if kind == "repl" {
					r = unq(v)
				} else {
					s = unq(v)
				}
			}
		}
		if want == "" {
			switch m {
			case "QuoteMeta":
				want = fmt.Sprintf("ok %q", regexp.QuoteMeta(s))
			case "Compile", "CompilePOSIX":
				x, err := regexp.Compile(s)
				if m == "CompilePOSIX" {
					x, err = regexp.CompilePOSIX(s)
				}
				if err != nil {
					want = fmt.Sprintf("error %q", err.Error())
				} else {
					_ = x
					want = "ok <go_regexp.RegexpValue>"
				}
			case "Longest":
				want = "ok nil"
			default:
				want = "ok " + impl.Canon(rxWant(m, re, s, r, n))
			}
		}
	}
	if got != want {
		o.Diff = fmt.Sprintf("regexp %s %s: expected %s, got %s", m, strings.Join(words, " "), want, got)
	}
	return
}

// evalRxHist runs a history of calls on two expressions.
func evalRxHist(f []string) (o mc.Out) {
	w := rxWorld()
	exprs := [2]string{"a+?(b|ab)*", "(?P<n>a|ab)(c|bcd)?"}
	var res [2]*regexp.Regexp
	w.Scope.SetNamedVariable("p0", core.STR(exprs[0]))
	w.Scope.SetNamedVariable("p1", core.STR(exprs[1]))
	w.Eval("set r0 [regexp Compile $p0]; set r1 [regexp Compile $p1]; set al $r0; set li [list ($r1 $r0)]")
	for i := range res {
		res[i] = regexp.MustCompile(exprs[i])
	}
	const in = "aabcabbcd"
	for k, op := range f {
		p := strings.Fields(op)
		i, _ := strconv.Atoi(p[0])
		name := []string{"$r", "$li[" + strconv.Itoa(1-i) + "]", "[get r" + p[0] + "]"}[k%3]
		if name == "$r" {
			name += p[0]
		}
		if i == 0 && k%2 == 1 {
			name = "$al"
		}
		var got, want string
		w.Scope.SetNamedVariable("re", core.NIL)
		switch p[1] {
		case "Longest":
			res[i].Longest()
			got, want = w.Eval("regexp Longest " + name)[0], "ok nil"
		case "again":
			res[i] = regexp.MustCompile(exprs[i])
			got, want = w.Eval("set r" + p[0] + " [regexp Compile $p" + p[0] + "]; set al $r0; set li [list ($r1 $r0)]; idem 1")[0], `ok "1"`
		case "posix":
			res[i] = regexp.MustCompilePOSIX("a|ab|b")
			got, want = w.Eval("set r" + p[0] + " [regexp CompilePOSIX \"a|ab|b\"]; set al $r0; set li [list ($r1 $r0)]; idem 1")[0], `ok "1"`
		case "bad":
			got, want = w.Eval("catch {set r" + p[0] + " [regexp Compile \"(\"]} error m {idem bad}")[0], `ok "bad"`
		default:
			tail, n := " "+in, 0
			if len(p) > 2 {
				tail += " " + p[2]
				n, _ = strconv.Atoi(p[2])
			}
			r := ""
			if len(p) > 2 {
				r = p[2]
			}
			switch p[1] {
			case "LiteralPrefix", "String", "NumSubexp", "SubexpNames":
				tail = ""
			}
			if strings.Contains(r, "$") {
				w.Scope.SetNamedVariable("rp", core.STR(r))
				tail = " " + in + " $rp"
			}
			got = strings.Join(w.Eval("regexp "+p[1]+" "+name+tail), " | ")
			want = "ok " + impl.Canon(rxWant(p[1], res[i], in, r, n))
		}
		o.Steps++
		if got != want {
			o.Diff = fmt.Sprintf("call %d (%s) on %s: expected %s, got %s", k, op, name, want, got)
			return
		}
	}
	o.Traces = 1
	o.States = []uint64{mc.Hash(f...)}
	return
}

func enumC29(e *mc.Env) {
	pieces := []string{"a", "b", ".", "*", "+", "?", "|", "(", ")", "(?P<n>", "[ab]", "[^a]", "^", "$", "é", "\\b", "(?i)", "{2}", "()", "\\"}
	e.Phase("patterns")
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(pieces, n, func(s []string) {
			p := strings.Join(s, "")
			if n > 3 {
				if _, err := regexp.Compile(p); err != nil {
					return
				}
			}
			k := "3"
			if n > 2 {
				k = "2"
			}
			if n > 3 {
				k = "1"
			}
			if e.Mine() {
				e.Do("pattern", "Compile", k, p)
			}
			if n <= 3 && e.Mine() {
				e.Do("pattern", "CompilePOSIX", k, p)
			}
		})
	}
	e.Phase("arguments")
	ms := append(append(append(append(sp("QuoteMeta Compile CompilePOSIX Longest ReplaceAllStringFunc Zork regexp"), rxNone...), rxStr...), rxLimit...), rxRepl...)
	ws := []string{"$re", "a", "abab", "1", "-1", "1.5", "true", "()", "[list ()]", "{a b}", "[]", "\"\"", "[1 + 1]", "99999999999999999999", "\"(\"", "[closure {} {}]"}
	for _, m := range ms {
		for n := 0; n <= 4; n++ {
			fill := ws
			if n == 4 {
				fill = ws[:4]
			}
			gen.Seqs(fill, n, func(s []string) {
				if e.Mine() {
					e.Do("args", append([]string{m}, s...)...)
				}
			})
		}
	}
	e.Phase("histories")
	ops := ln(`
0 Longest
1 Longest
0 FindString
1 FindString
0 FindAllString -1
1 FindAllString 2
0 Split 3
1 Split -1
0 ReplaceAllString <$1>
1 ReplaceAllString $n
0 ReplaceAllLiteralString x
1 FindAllStringSubmatchIndex -1
0 FindStringSubmatch
1 String
0 LiteralPrefix
0 again
1 posix
1 bad
`)
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(ops, n, func(s []string) {
			if e.Mine() {
				e.Do("hist", s...)
			}
		})
	}
}
