package checks

import (
	"fmt"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	gos "helena/native/go_os"
	rx "helena/native/go_regexp"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C27",
		Space: "every command, subcommand, method and metacommand with all argument lists up to a length over words giving values of every kind, in every position including the command; all source texts up to a length over fragments of all syntactic constructs, evaluated and used as bodies; " +
			"all pairs of a step that defines, suspends, deletes or changes something and a call of any command, followed by further uses; every value kind in every role of every definition, selector, substitution, condition and list. With diagnostics on and off; results, error stacks and help texts are displayed. State: outcome of each step.",
		Assume: []string{"the reference interpreter tells which programs do not terminate within the evaluation budget; these are skipped, exhaustion of memory or stack by them is not considered a crash"},
		Enum:   enumC27,
		Eval: map[string]func([]string) mc.Out{
			"on":   func(f []string) mc.Out { return noCrash(f, true) },
			"off":  func(f []string) mc.Out { return noCrash(f, false) },
			"both": func(f []string) mc.Out { return noCrashBoth(f) },
		},
	})
}

func noCrashBoth(f []string) mc.Out {
	o := noCrash(f, true)
	if o.Diff != "" || o.Skip {
		return o
	}
	p := noCrash(f, false)
	p.Steps += o.Steps
	p.Traces++
	return p
}

// endless tells whether the model runs out of budget.
func endless(steps []string) (yes bool, used int) {
	w := ref.NewWorldWith("/nonexistent", nil)
	defer w.Close()
	defer func() {
		if e := recover(); e != nil {
			_, yes = e.(ref.OutOfFuel)
		}
		used = w.Used()
	}()
	for _, s := range steps {
		impl.EvalRef(w, s)
	}
	return false, w.Used()
}

func noCrash(steps []string, capture bool) (o mc.Out) {
	yes, used := endless(steps)
	if yes {
		o.Skip = true
		return
	}
	o.Steps, o.Traces = used, 1
	w := impl.NewWorld(impl.Options{Capture: capture})
	w.Scope.RegisterNamedCommand("regexp", rx.RegexpCmd{})
	w.Scope.RegisterNamedCommand("os", gos.OsCmd{})
	for k, src := range steps {
		var all []string
		crash := impl.Guard(func() {
			sc, msg := impl.Parse(src, capture)
			if msg != "" {
				all = append(all, msg)
				return
			}
			p := w.Scope.PrepareProcess(w.Scope.Compile(*sc))
			for i := 0; ; i++ {
				r := p.Run()
				all = append(all, display(r, capture))
				if r.Code != core.ResultCode_YIELD || i >= impl.MaxYields {
					return
				}
				p.YieldBack(core.STR(impl.ResumeValue(i)))
			}
		})
		if crash != "" {
			o.Diff = fmt.Sprintf("step %d %q (diagnostics %v): %s", k, src, capture, crash)
			return
		}
		o.States = append(o.States, mc.Hash(all...))
	}
	return
}

// display renders a result the way interactive programs do.
func display(r core.Result, capture bool) string {
	var f core.DisplayFunction
	f = func(v any) string {
		switch v := v.(type) {
		case core.ListValue:
			return hd.DisplayListValue(v, f)
		case core.DictionaryValue:
			if len(v.Map) > 1 {
				return "[dict]"
			}
			return hd.DisplayDictionaryValue(v, f)
		}
		return core.DefaultDisplayFunction(v)
	}
	var b strings.Builder
	b.WriteString(core.RESULT_CODE_NAME(r))
	if r.Value == nil {
		panic("result without a value")
	}
	b.WriteString(core.Display(r.Value, f))
	if r.Code == core.ResultCode_ERROR && capture {
		st := r.Data.(*core.ErrorStack)
		for i := uint(0); i < st.Depth(); i++ {
			l := st.Level(i)
			if l.Frame != nil {
				for _, v := range *l.Frame {
					b.WriteString(core.Display(v, f))
				}
			}
		}
	}
	return b.String()
}

// values of every kind
var words27 = []string{"a", "1", "\"\"", "()", "(a b)", "{}", "{a b}", "[]", "[list ()]", "[list (a b)]", "[dict (a b)]", "true", "-1", "99999999999999999999", "9223372036854775807", "[+ 1e308 0]", "[]", "[closure {x} {idem $x}]", "[[closure {x} {idem $x}]]", "a(k)[0]", "[argspec (a ?b)]", "{yield 1}", "{error e}", "(list)", "((a))", "[script ()]", "[parse {idem 1}]", "[coroutine {yield 1}]", "$u", "[scope {}]", "(if)", "{break}", "*", "^", "[regexp MustCompile a+]", "({} {})", "é", "nan", "[namespace {closure c {} {idem 1}}]", "[ensemble {x} {}]"}

const heads27 = `
idem|return|yield|tailcall|error|break|continue|pass|eval|help|^|help help|help if|help list|help ns c|let|set|get|exists|unset|list|dict|string|tuple|script|argspec|int|real|bool|true|false|!|&&|` + "`||`" + `|+|-|*|/|if|when|while|loop|catch|scope|namespace|ensemble|coroutine|alias|closure|macro|proc|module|import|export|parse|regexp|os|1|a(k)|[[closure {*x} {idem $x}]]|[[macro {x ?y} {idem $x}]]|(idem)|(list (a b))|(())|ns|ns c|en|en 1|en 1 s|co|[coroutine {idem [yield 1] [yield 2]}]
list (a b) X: length at range append remove insert replace sort foreach subcommands zork
dict (a b c d) X: size has get add remove merge keys values entries foreach subcommands zork
string abc X: length at range append remove insert replace == != > >= < <= subcommands zork
string é X: length at range remove insert replace
tuple (a b) X: length at subcommands zork
script {a b; c} X: length append split subcommands zork
argspec (a ?b *c) X: usage set subcommands zork
argspec (-o? (int x) ?-f?) X: usage set
int X: 1 a subcommands
real X: 1 a subcommands
bool X: true a subcommands
true X: ? !? subcommands
false X: ? !? subcommands
1 X: + - * / == != > >= < <= subcommands zork
1.5 X: + - * / == != > >= < <=
[closure {a} {}] X: argspec subcommands zork call
[macro {a} {}] X: argspec subcommands
[proc {a} {}] X: argspec subcommands
[alias al idem] X: command subcommands zork
[namespace {set v 1; closure c {a} {idem $a}}] X: eval call import subcommands zork
[scope {set v 1; closure c {a} {idem $a}}] X: eval call subcommands zork
[ensemble {a ?b} {closure s {a b c} {idem $a}}] X: eval call argspec subcommands 1
[coroutine {yield 1; idem 2}] X: wait active done subcommands zork
[module {closure c {} {idem 1}; export c}] X: import exports subcommands zork
[list] X: eval call argspec subcommands
[string] X: eval call argspec
[dict] X: eval call argspec
[regexp MustCompile (a)(b)?] X: FindAllString FindAllStringIndex FindAllStringSubmatch FindAllStringSubmatchIndex FindString FindStringIndex FindStringSubmatch FindStringSubmatchIndex Longest MatchString NumSubexp ReplaceAllLiteralString ReplaceAllString Split String SubexpIndex SubexpNames LiteralPrefix
regexp X: Compile CompilePOSIX MustCompile MustCompilePOSIX Match MatchString QuoteMeta
os X: ReadFile Stat
catch {error e} X: error return yield break continue finally
catch {yield 1} X: yield finally error
catch {return 1} X: return finally
if true {a} X: else elseif
if false {a} X: else elseif
while true X: {break} {error e}
when X: 1 (==) {{}}
loop X: i 1 (a) {break}
`

func enumC27(e *mc.Env) {
	defs := "namespace ns {closure c {x ?y} {idem $x}; let k 1; macro m {*r} {idem $r}}; ensemble en {x} {closure s {x ?y} {idem $x}}; let K 1; set v (p q); set u val; set l [list (a b c)]; set d [dict (a b)]; closure f {x ?y} {idem $x}; set co [coroutine {yield 1}]; alias co $co"
	must(defs)
	emit := func(kind string, steps ...string) {
		if e.Mine() {
			e.Do(kind, steps...)
		}
	}
	var heads []string
	for i, l := range ln(heads27) {
		if i == 0 {
			l = strings.ReplaceAll(l, "`||`", "\x00")
			for _, h := range strings.Split(l, "|") {
				heads = append(heads, strings.ReplaceAll(h, "\x00", "||"))
			}
			continue
		}
		v, subs, _ := strings.Cut(l, ": ")
		for _, s := range strings.Fields(subs) {
			heads = append(heads, strings.Replace(v, "X", s, 1))
		}
		heads = append(heads, strings.TrimSpace(strings.Replace(v, "X", "", 1)))
	}
	e.Phase("calls")
	vals3 := []string{"a", "1", "()", "(a b)", "{}", "{a b}", "[list (a b)]", "[]", "99999999999999999999", "-1", "[[closure {x} {idem $x}]]", "{yield 1}", "[dict (a b)]", "[argspec (a ?b)]"}
	vals4 := []string{"a", "1", "()", "{a b}", "[list (a b)]", "-1", "[]"}
	for _, h := range heads {
		for n := 0; n <= 4; n++ {
			vs := words27
			kind := "both"
			if n == 3 {
				vs, kind = vals3, "on"
				if e.Thorough {
					vs = words27
				}
			}
			if n == 4 {
				vs, kind = vals4, "on"
				if e.Thorough {
					vs = vals3
				}
			}
			gen.Seqs(vs, n, func(a []string) {
				emit(kind, defs, strings.TrimSpace(h+" "+strings.Join(a, " ")))
			})
		}
	}
	e.Phase("help")
	for _, h := range heads {
		for n := 0; n <= 2; n++ {
			gen.Seqs(words27[:e.Pick(20, 40)], n, func(a []string) {
				emit("on", defs, strings.TrimSpace("help "+h+" "+strings.Join(a, " ")), strings.TrimSpace("help ("+h+") "+strings.Join(a, " ")), strings.TrimSpace("alias zz ("+h+" "+strings.Join(a, " ")+")"), "zz", "help zz", "zz a", "zz () 1", "[zz] command")
			})
		}
	}
	e.Phase("nested")
	specs := []string{"()", "(a)", "(a b)", "(?a)", "(*a)", "((int a))", "(?-o? ?a?)", "(a ?b *c)", "((?-f ?f) a)"}
	kinds := []string{"closure s S {idem x}", "macro s S {idem x}", "proc s S {idem x}", "ensemble s S {closure t S {}}", "namespace s {closure t S {}}", "alias s idem", "alias s (idem a)", "set s 1", "scope s {macro t S {}}", "coroutine s {}"}
	for _, en := range []string{"", "a", "a b", "a b c", "(int a)", "a (list b)"} {
		for _, k := range kinds {
			sp := specs
			if !strings.Contains(k, "S") {
				sp = specs[:1]
			}
			for _, p := range sp {
				k := strings.ReplaceAll(k, "S", p)
				steps := []string{"ensemble e {" + en + "} {" + k + "}; namespace n {ensemble e {" + en + "} {" + k + "}}; ensemble d {x} {ensemble e {" + en + "} {" + k + "}}; alias q (d 1 e)"}
				for _, pre := range []string{"e", "n e", "d 1 e", "q"} {
					w := pre
					for m := 0; m <= 3; m++ {
						for _, t := range []string{"", " s", " s t", " s 1", " s 1 2", " s 1 t 2", " t", " ()"} {
							steps = append(steps, w+t, "help "+w+t)
						}
						w += " 1"
					}
				}
				emit("both", steps...)
			}
		}
	}
	e.Phase("roles")
	roles := ln("$V\n$$V\n$*V\n$V[0]\n$V(k)\n$V{r}\n$l[V]\n$d(V)\n$l{V}\n$(v V)\n\"a $V b\"\na$V\n\"[V]\"\nV(k)\nV[0]\nset V 1\nlet V 1\nget V\nget V def\nexists V\nunset V\nset (a V) (1 2)\nset (a b) V\nclosure V {} {}\nclosure {V} {}\nclosure {?x V} {}; idem\nclosure ((?x V)) {}\nclosure ((V x)) {idem $x}\n[closure ((V x)) {idem $x}] 1\nclosure (-o V) {}\nclosure (?V?) {}\nclosure q {} V; q\nproc q {} V; q\nmacro q {} V; q\nnamespace q V; q\nnamespace V {}\nscope q V\nscope V {}\nensemble q V {}\nensemble q {x} V\nensemble V {x} {}\ncoroutine V\nset c [coroutine V]; $c wait; $c wait V; $c active\n[coroutine {idem [yield 1]}] wait V\nalias q V; q; q a; help q\nalias V idem\nmodule q V\nmodule V {}\nmodule q {export V}\nimport V\nimport V V\nimport V (V V)\nif V {a}\nif false {a} elseif V {b}\nwhile V {break}\nwhen V {a}\nwhen {V {a}}\nwhen V {V V}\nwhen (==) {(1 V) {a}}\nloop V {break}\nloop x V {break}\nloop i (a) V {break}\nloop i [list (a b)] V\nloop i V x V {break}\nlist V foreach x {idem $x}\nlist V foreach (x y) {idem $x}\nlist (a b) foreach V {idem 1}\nlist ((a b) (c d)) foreach (x V) {idem 1}\ndict V foreach k {}\ndict (a b) foreach V {}\ndict (a b) foreach (k V) {}\ncatch V\ncatch {error V} error e {idem $e}\ncatch {error e} error V {idem 1}\ncatch {error e} error m V\ncatch {return V} return r {idem $r}\ncatch {yield V} yield y {idem $y}\ncatch {break} break V\ncatch {} finally V\ncatch {error e} error m {pass} finally V\nerror V\nreturn V\nyield V\ntailcall V\neval V\neval {V}\neval (V)\nV V\n(V) V\n((V)) V\n[V] V\nparse V\nscript V append V\nargspec V\nargspec V set (1 2)\nargspec (V) usage\nargspec (a ?b) set V\nargspec (a ?b) set (V V)\nargspec ((V a)) set (1)\n[list (a b)] sort V\nlist V sort\n&& V\n|| V\n! V\n+ V 1\n1 + V\n1 == V\n1 / V\nint V\nreal V\nbool V\nstring V == V\nstring abc at V def\nstring abc range V\nstring abc range 0 V\nlist (a b c) remove V V\nlist (a b c) insert V x\nlist (a b c) replace V V x\nlist (a b c) at V\nlist (a b c) range V V\ndict (a b) get V\ndict (a b) get (V)\ndict (a b) add V V\ndict (a b) remove V\ndict (a b) merge V\n[namespace {}] eval V\n[namespace {}] call V\n[namespace {}] import V\n[scope {}] eval V\n[scope {}] call V\n[ensemble {x} {}] eval V\n[ensemble {x} {}] call V\n[ensemble {x} {}] V\n[ensemble {x} {closure V {x} {}}] V\n[ensemble {x} {closure s {x} {idem $x}}] V s\n[module {}] import V\n[module {closure c {} {}; export c}] import c V\nhelp V\nhelp V V\n|> V\nidem V; |> idem\nidem V; |> V\n[regexp Compile V] FindString V\n[regexp Compile V] Split V V\nregexp MustCompile V\nos ReadFile V")
	for _, r := range roles {
		for _, v := range words27 {
			t := strings.ReplaceAll(r, "V", v)
			emit("both", defs, t, "idem $v")
			emit("on", defs, "set w "+v, strings.ReplaceAll(r, "V", "$w"), "namespace dd {[["+strings.ReplaceAll(r, "V", "$[get w]")+"]]}", "closure rr {w} {"+strings.ReplaceAll(r, "V", "$w")+"}; rr "+v)
			if strings.Count(r, "V") == 2 {
				for _, x := range words27 {
					t := strings.Replace(r, "V", v, 1)
					emit("off", defs, strings.Replace(t, "V", x, 1))
				}
			}
		}
	}
	e.Phase("histories")
	muts := ln("[list] eval {unset subcommands; macro length {v} {error x}}\nunset v\nclosure idem {x} {return $x $x}\nmacro set {*a} {idem $a}\nalias list string\nalias z1 z2; alias z2 idem\nclosure if {*a} {yield $a}\nnamespace list {}\nensemble string {} {}\nscope dict {}\n[string] eval {ensemble at {x y} {}}\n[dict] eval {alias get (dict)}\nset co2 [coroutine {while true {yield 1}}]; $co2 wait; alias co2 ($co2 wait)\nlet list 1\nset if 2; set set 3\n[list] eval {coroutine c {}}\nclosure help {} {}\nproc yield {x} {return $x}\nmacro error {x} {break}\n[true] eval {}\nset true false\nunset list\nclosure {} {} {}\nclosure \"\" {} {idem empty}\nalias 1 idem\nclosure 1 {*a} {idem one}\nmacro + {*a} {idem $*a}\nyield 1\ncatch {yield 5} finally {yield 6}\nlist (a b) foreach x {yield $x}\nclosure f {} {f2 [yield 1]}; macro f2 {x} {idem $x}; f\nensemble en {} {}\nensemble en {x y z} {}\n[en] eval {closure s2 {} {idem 1}}\n[ns] import c idem\n[ns] eval {unset k; macro c {} {tailcall {c2}}}\nmodule m1 {closure if {a} {idem $a}; export if}; [m1] import if\nmodule m2 {set a 1; closure a {} {idem $a}; export a; export nosuch}\nexport f\nimport nosuch")
	uses := append(append([]string{}, heads...), "idem $*[list (a b)]", "list", "[list]", "co", "co2", "1", "\"\"", "()", "(())", "f", "f 1", "z1 2", "if true {list (a) length}", "string abc at 1", "dict (a b) get a", "[[list] call length (a b)]")
	for _, m := range muts {
		for _, u := range uses {
			for _, a := range []string{"", " a", " 1 2", " (a b) {c}", " (x y) length"} {
				emit("on", defs, m, u+a, "list (a b) length; string abc at 1; idem $v; help list; "+u)
			}
		}
		for _, m2 := range muts {
			emit("both", defs, m, m2, m, "[list] call length (a b)", "idem $v", "list (a b) foreach x {idem $x}", "if true {set z 1} else {get z}", "catch {co} error e {idem $e}", "f 1; en 1; ns c 1")
		}
	}
	e.Phase("texts")
	frags := []string{"a", " ", "\n", ";", "[", "]", "(", ")", "{", "}", "$", "\"", "*", "#", "\\", "1", "\"\"", "idem "}
	for n := 1; n <= e.Pick(5, 6); n++ {
		al := frags
		if n == 6 {
			al = frags[:15]
		}
		gen.Seqs(al, n, func(s []string) {
			t := strings.Join(s, "")
			if n >= 5 && !strings.ContainsAny(t, "$[(") {
				return // the values of these are covered by the checks of syntax
			}
			emit("on", t)
		})
	}
	big := []string{"a", " ", "(a b)", "[idem x]", "{k}", "$v", "$", "$*", "$$", "[", "]", "(", ")", "{", "}", "\"", "\"s$v\"", "\"\"", "\"\"\"", "\n", "#", "#{", "}#", "\\", "\\x41", "*", "|>", "^", "[0]", "(k)", "1", "set", "if", "é"}
	for n := 2; n <= e.Pick(3, 4); n++ {
		gen.Seqs(big, n, func(s []string) {
			t := strings.Join(s, "")
			emit("on", defs, t, "idem "+t, "set q {"+t+"}; eval $q; list $q; dict $q; closure q2 $q {}; closure q3 {} $q; q3; script $q split; when $q")
		})
	}
	e.Phase("depth")
	for _, d := range []int{1, 10, 100, 1000, 3000} {
		for _, p := range []string{"[|]", "(|)", "{|}", "[idem |]", "eval {|}", "if true {|}", "\"[|]\"", "$[|]", "$(|)", "a(|)", "list (|)", "closure f {} {|}; f", "namespace {|}", "catch {|}", "scope {|}", "(idem |)", "&& {|}", "help (|)", "(|) "} {
			l, r, _ := strings.Cut(p, "|")
			if strings.Contains(p, "{") && d > 100 {
				continue // the parser copies the text of each enclosing block for every token
			}
			for _, in := range []string{"", "idem a", "a", "error e", "yield 1", "$v"} {
				emit("both", defs, strings.Repeat(l, d)+in+strings.Repeat(r, d))
			}
		}
		for _, s := range []string{"idem a; ", "idem a |> ", "$", "$*", "a", " a", "\\", "\"", "#", "[idem a]", "v[0]", "$v[0]", "(a)", "{a}", ";", "\n"} {
			emit("both", defs, strings.Repeat(s, d), "idem $v"+strings.Repeat(s, d))
		}
	}
}
