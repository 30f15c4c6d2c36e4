package checks

import (
	"fmt"
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C11",
		Space: "all infix sentences up to a length over numbers, operators and invalid operands; all pairs and triples of boundary values (extreme integers and reals, all spellings of numbers, non-numbers, other kinds of values) under every operator, prefix and infix; " +
			"all argument lists of boolean and logic commands up to a length with effects, failures and suspensions; all conversions. State: outcome and log.",
		Assume: []string{interp},
		Enum:   enumC11,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID: "C12",
		Space: "all histories up to a length over definitions, assignments, queries and removals of two names by every command that binds names, in the root scope and in scopes with locals; every step compared and every name probed at the end. " +
			"State: root variables, constants and outcome after each step.",
		Assume: []string{interp},
		Enum:   enumC12,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID:     "C13",
		Space:  "all programs of a definition of every kind (procedures, closures, macros, scopes, namespaces, ensembles, loops, handlers; with guards and defaults) over every body reading, writing, removing or defining the names x, y and the command k, defined at one place and called from another, to depth two, followed by probes of every scope. State: root names and outcomes.",
		Assume: []string{interp},
		Enum:   enumC13,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID:     "C14",
		Space:  "all shapes of names (to depth three, including constants, locals, duplicates and invalid names) against all shapes of values, in every command that binds names; all bound names probed afterwards. State: root names and outcome.",
		Assume: []string{interp},
		Enum:   enumC14,
		Eval:   progs,
	})
}

func enumC11(e *mc.Env) {
	emit := func(s string) {
		if e.Mine() {
			e.Do("prog", s)
		}
	}
	e.Phase("infix sentences")
	w := []string{"1", "2.5", "-3", "0", "x", "+", "-", "*", "/", "==", ">", "<=", "!=", "true", "()"}
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(w, n, func(s []string) { emit(strings.Join(s, " ")); emit("idem [" + strings.Join(s, " ") + "]") })
	}
	w = []string{"3", "2", "0.5", "+", "-", "*", "/"}
	for n := 5; n <= e.Pick(6, 7); n++ {
		gen.Seqs(w, n, func(s []string) { emit(strings.Join(s, " ")) })
	}
	ops := []string{"+", "-", "*", "/"}
	e.Phase("long sums")
	for k := 3; k <= e.Pick(7, 9); k++ {
		gen.Seqs(ops, k, func(s []string) {
			nums := []string{"7", "2", "-3", "0.25", "10", "4", "1", "3", "5"}
			t := "6"
			for i, o := range s {
				t += " " + o + " " + nums[i]
			}
			emit(t)
		})
	}
	e.Phase("boundary values")
	v := []string{"0", "-0", "1", "-1", "2", "3", "0.1", "0.2", "-0.0", "1.5", "1e3", "1E3", ".5", "5.", "+1", "1_000", "0x10", "0b11", "010", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "9007199254740992", "9007199254740993", "9007199254740991", "1e308", "-1e308", "1e309", "1e-320", "5e-324", "inf", "-Inf", "NaN", "nan", "Infinity", "1e", "e1", "1.2.3", "\"\"", "\" 1\"", "\"1 \"", "a", "true", "false", "()", "{}", "[list ()]", "[dict ()]", "[int 5]", "[real 5]", "[real 1.5]", "[1 / 3]", "[1 / 0]", "[int 9223372036854775807]", "[real 9223372036854775807]", "1e18", "1e19", "(1)", "é", "[]", "1e15", "1e16", "1e17", "1e20", "1e21", "1e22", "123456789012345678", "1e-5", "1e-7", "0.0001", "0.00001", "٣"}
	bin := []string{"+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<=", "%", "**", "&&"}
	for _, a := range v {
		for _, c := range []string{"int %", "real %", "bool %", "string %", "! %", "+ %", "- %", "* %", "/ %", "%", "idem [%]", "&& %", "|| %", "if % {idem y}", "idem $[int %]", "string [real %]", "string [+ %]", "int [real %]", "real [int %]", "list (a b c) at %"} {
			emit(strings.ReplaceAll(c, "%", a))
		}
		for _, b := range v {
			for _, o := range bin {
				emit(a + " " + o + " " + b)
				emit("[real " + a + "] " + o + " [int " + b + "]")
				if len(o) == 1 {
					emit(o + " " + a + " " + b)
					emit(o + " 3 " + a + " " + b)
					emit("7 " + o + " " + a + " + " + b)
					emit(a + " - 2 " + o + " " + b)
				}
			}
		}
	}
	nv := []string{"0", "1", "-2", "0.5", "9223372036854775807", "-9223372036854775808", "1e308", "9007199254740993", "a", "[1 / 0]"}
	gen.Product(func(s []string) { emit(strings.Join(s, " ")) }, nv, bin[:10], nv, bin[:10], nv)
	gen.Product(func(s []string) { emit(strings.Join(s, " ")) }, []string{"+", "-", "*", "/"}, nv, nv, nv)
	if e.Thorough {
		gen.Product(func(s []string) { emit(strings.Join(s, " ")) }, nv, bin[:4], nv, bin[:4], nv, bin[:4], nv)
	}
	e.Phase("logic")
	must(lib.all())
	lw := []string{"true", "false", "{T true}", "{T false}", "{error e}", "{yield y}", "x", "{}", "{break}", "1", "{return true}", "()", "{T 1; T false}", "[yield z]"}
	for n := 0; n <= e.Pick(3, 4); n++ {
		gen.Seqs(lw, n, func(s []string) {
			for _, c := range []string{"&& ", "|| ", "! ", "true ", "false ", "true ? ", "false ? ", "true !? ", "false !? ", "bool ", "idem [&& true {T true}] "} {
				if e.Mine() {
					e.Do("prog", lib.forText(), c+strings.Join(s, " "), "idem $log")
				}
			}
		})
	}
	g := gen.New(`
b:
 0 true
 0 false
 1 {T true}
 1 {T false}
 1 {! <b>}
 1 {&& <b> <b>}
 1 {|| <b> <b>}
 1 [&& <b> <b>]
 1 {true ? <c> <c>}
 1 {[idem false] ? <c> <c>}
 1 {1 < 2}
 1 {yield t; T true}
 1 {if <b> {idem <c>} else {idem <c>}}
c:
 0 true
 0 false
 1 [! <b>]
 1 [T true]
`)
	for _, o := range []string{"&& %", "|| %", "! %", "if % {T x} else {T y}", "when (% {T x})"} {
		g.UpTo("b", e.Pick(3, 5), func(s string) {
			if e.Mine() {
				e.Do("prog", lib.forText(), strings.ReplaceAll(o, "%", s), "idem $log")
			}
		})
	}
}

func enumC12(e *mc.Env) {
	ops := ln(`
set a 1
set a 2
let a 3
unset a
get a
get a d
exists a
idem $a
set b $a
let b 4
unset b
set (a b) (5 6)
let (a b) (7 8)
unset (a b)
get (a b)
sa 9
la 1
ua
pa 2
loop a [list (1)] {set a 2; idem $a}
loop a [list (1)] {let a 2}
loop b [list (1)] {set a $b; unset a}
catch {error 1} error a {set a 4; idem $a}
ma 3
ma2 3
[dict (k 1)] foreach (a b) {let z $a}
argspec (a) set (6)
[argspec (a ?b)] set (7)
exists $a
get a[0] q
get a(k) q
exists a(k)
set (a a) (1 2)
set (a (b)) (1 2)
let (c a) (1 2)
unset (b a)
[sc] eval {get a none}
nsr
`)
	setup := `set b 0; unset b; closure sa {v} {set a $v}; closure la {v} {let a $v}; closure ua {} {unset a}; proc pa {v} {set a $v; let b 1; unset a; exists a}; macro ma {a} {set a 5; idem $a}; macro ma2 {b} {set a $b; get a}; scope sc {set x 1}; namespace ns {let a 1; set b 2}; macro nsr {} {list ([ns](a) [[ns] eval {set a 2}])}`
	must(strings.Split(setup, "; macro nsr")[0])
	ops = ops[:len(ops)-1]
	probes := []string{"idem ([exists a] [get a none] [exists b] [get b none] [exists c] [exists z])", "catch {let a 10}", "catch {set b 11}", "catch {unset a}", "idem ([get a none] [get b none])"}
	small := ops[:22]
	e.Phase("histories")
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(ops, n, func(s []string) {
			if e.Mine() {
				e.Do("prog", append(append([]string{setup}, s...), probes...)...)
			}
		})
	}
	for n := e.Pick(4, 5); n <= e.Pick(4, 5); n++ {
		if n == 5 {
			small = ops[:16]
		}
		gen.Seqs(small, n, func(s []string) {
			if e.Mine() {
				e.Do("prog", append(append([]string{setup}, s...), probes...)...)
			}
		})
	}
	e.Phase("tuples of names")
	shapes := ln("(a b)\n((a b) c)\n(c (a b))\n((a) (b c))\n(((a)) b)\n((a (b)) c)\n(a (b (c)))\n(a a)\n((a b) a)\n(a (b a))\n((a) b (c))\n(((a b)) (c))\n(a b c)\n(c b a)\n(() a)\n(a () b)\n((() a) b)\n(a ([list ()]))\n((a b) [list ()])\n(a[0] b)\n((a(k)) b)\n(a \"\")\n$nn\n($nn c)\n(c $*nn)")
	states := ln("set a 1\nset b 2\nset c 3\nset a 1; set b 2\nset a 1; set c 3\nset b 2; set c 3\nset a 1; set b 2; set c 3\nlet a 1; set b 2; set c 3\nset a 1; let b 2; set c 3\nset a 1; set b 2; let c 3\nlet a 1\nlet b 2; set a 1\nlet c 3; set a 1; set b 2\nidem 0")
	wr := ln("%\nproc q {a} {%; list ([exists a] [exists b] [exists c])}; q 9\nclosure q {b} {%; list ([exists a] [exists b] [exists c])}; q 9\nmacro q {c} {%; list ([exists a] [exists b] [exists c])}; q 9\nclosure q {a} {catch {%} error m {T $m}; list ([exists a] [get a -] [get b -])}; q 9\nproc q {} {ST; catch {%} error m {T $m}; list ([get a -] [get b -] [get c -])}; q\nscope q {ST; catch {%} error m {T $m}; T \"[exists a][exists b][exists c]\"}\nloop a [list (7)] {catch {%} error m {T $m}; T \"[exists a][exists b][exists c]\"}")
	tset := "set log \"\"; closure T {v} {set log \"$log$v \"; idem $v}; set nn (a b)"
	must(tset)
	for _, sh := range shapes {
		for _, st := range states {
			for _, w := range wr {
				for _, c := range []string{"unset %", "unset %; unset %", "set % %", "let % %", "set % (8 9)", "let % (8 (9 10))", "set % ((8 9) 10)", "let % ((8 9) 10)", "get %", "get % d", "exists %", "set % (8 9 10); unset %", "let % (8 9); unset %", "unset a; unset %", "idem $%"} {
					if e.Mine() {
						c = strings.ReplaceAll(c, "%", sh)
						e.Do("prog", tset, st, strings.ReplaceAll(strings.ReplaceAll(w, "%", c), "ST", st), "list ([get a none] [get b none] [get c none])", "catch {set a 20}", "catch {set b 21}", "catch {set c 22}", "list ([get a none] [get b none] [get c none])", "idem $log")
					}
				}
			}
		}
	}
	e.Phase("histories inside a body")
	for _, b := range []string{"proc q {a} {%}; q 0", "closure q {a} {%}; q 0", "macro q {b} {%}; q 0", "scope q {%}", "namespace q {%}", "loop a [list (0 1)] {%}", "loop b [list (0 1)] {%}", "catch {error 0} error a {%}", "[list (0)] foreach a {%}", "eval {%}", "ensemble q {a} {%}", "proc q {(?a {idem 3})} {%}; q; q 1", "coroutine {}; [coroutine {%}] wait", "macro q {?a b} {%}; q 1; q 1 2"} {
		for n := 1; n <= 2; n++ {
			gen.Seqs(ops, n, func(s []string) {
				x := make([]string, len(s))
				for i := range s {
					x[i] = "set r[idem " + fmt.Sprint(i) + "] [catch {" + s[i] + "}]"
				}
				body := strings.Join(x, "; ") + "; return [list ($r0 [get r1 none] [exists a] [get a none] [exists b] [get b none])]"
				if e.Mine() {
					e.Do("prog", append([]string{setup, strings.ReplaceAll(b, "%", body)}, probes...)...)
				}
			})
		}
		if !e.Thorough {
			continue
		}
		gen.Seqs(ops[:14], 3, func(s []string) {
			x := "set r0 [catch {" + s[0] + "}]; set r1 [catch {" + s[1] + "}]; set r2 [catch {" + s[2] + "}]; return [list ($r0 $r1 $r2 [exists a] [get a none] [exists b] [get b none])]"
			if e.Mine() {
				e.Do("prog", append([]string{setup, strings.ReplaceAll(b, "%", x)}, probes...)...)
			}
		})
	}
	e.Phase("names")
	names := []string{"a", "\"\"", "\"a b\"", "é", "1", "()", "{a}", "(a)", "[list ()]", "[dict ()]", "true", "a(k)", "a[0]", "(a(k))", "((a))", "(a ())", "[]", "$[idem (a b)]", "[int 1]", "[real 1.5]", "\\$a", "(a [list ()])", "[set a 1]", "a{k}", "[idem a(k)]", "(a a)", "(a (b a))"}
	vals := []string{"1", "()", "(1)", "(1 2)", "(1 (2 3))", "[list (1 2)]", "[dict (k v)]", "{x}", "[]"}
	cmds := []string{"set % #", "let % #", "unset %", "get %", "get % #", "exists %", "set a [dict (k 5)]; get %", "set a [list (7)]; get % #; exists %", "set a 1; let % #", "let a 1; set % #", "set a [list ((k l))]; idem $%"}
	gen.Product(func(s []string) {
		src := strings.ReplaceAll(strings.ReplaceAll(s[0], "%", s[1]), "#", s[2])
		if e.Mine() {
			e.Do("progb", src, probes[0], "get \"\" none", "get \"a b\" none", "get 1 none", src, probes[0])
		}
	}, cmds, names, vals)
}

func enumC13(e *mc.Env) {
	acts := ln(`
idem $x
set x 2
set y 2; idem $y
let y 3
unset x
exists x
exists y
k 1
macro k {a} {idem inner$a}; k 2
proc k {a} {idem innerp$a}
closure k {a} {set x $a}; k 7
set x [k 5]
get x none
list ([exists x] [exists y] [get x none])
eval {set x 4; k 6}
loop x [list (8)] {idem $x; k $x}
loop y [list (8)] {set x $y}
catch {error 9} error x {idem $x}
macro h {} {set x 3; exists y}; h
proc h {} {set x 3; exists y}; h
closure h {} {set x 3; exists y}; h
return $[exists x]
yield [exists x]
error e
break
(k 3)
exists z
idem $z
set z 5
unset z
let x 6
`)
	wraps := ln(`
%
proc f {} {%}; f
closure f {} {%}; f
macro f {} {%}; f
proc f {x} {%}; f 11
closure f {x} {%}; f 11
macro f {x} {%}; f 11
proc f {(?z {get x none})} {%}; f
closure f {(?z {get x none})} {%}; f
macro f {(?z {get x none})} {%}; f
proc f {(k z)} {%}; f 12
closure f {(k z)} {%}; f 12
macro f {(k z)} {%}; f 12
proc f {?x} {%}; f
closure f {?x} {%}; f
macro f {?x} {%}; f
proc f {?y x} {%}; f 14
closure f {?y x} {%}; f 14
macro f {x ?y} {%}; f 14
closure f {*x} {%}; f
macro f {-o ?x y} {%}; f 1
closure f {?-o? x y} {%}; f 1
closure f {?-x? y} {%}; f 1
closure f {?z ?x ?y} {%}; f 15
macro f {?z ?x ?y} {%}; f 15
closure f {?x (?z {get x unset})} {%}; f
loop x [list (1)] y [list ()] {%}
loop x [list ()] y [list (1)] {%}
loop x [list (1 2)] z [list (1)] {%}
loop (x y) [list ((1 2))] {%}
loop x y {break} {%}
proc f {z} (k {%}); f 13
closure f {z} (k {%}); f 13
macro f {z} (k {%}); f 13
scope f {%}
scope f {set x 20; macro k {a} {idem sk$a}}; [f] eval {%}
scope f {macro m {} {%}}; f eval {m}
scope f {proc m {} {%}; set x 21}; f call m
scope f {closure m {} {%}; set x 21}; f call m
namespace f {%}
namespace f {proc m {} {%}}; f m
namespace f {closure m {z} {%}; set x 22}; f m 2
namespace f {macro m {} {%}; let x 22}; f m
namespace f {set y 22; macro k {a} {idem nk$a}}; [f] eval {%}
namespace f {macro m {} {%}}; [f] import m; m
namespace f {closure m {} {%}; set x 23}; [f] import m mm; mm
ensemble f {z} {%}
ensemble f {z} {macro m {z} {%}; set x 24}; f 1 m
ensemble f {z} {closure m {z} {%}; set x 24}; f 1 m
ensemble f {z} {proc m {z} {%}; set x 24}; f 1 m
ensemble f {} {macro m {} {%}}; [f] call m
ensemble f {(k z)} {macro m {z} {%}}; f 2 m
loop x [list (30)] {%}
loop z [list (30)] {%}
[list (31)] foreach x {%}
catch {error 32} error x {%}
catch {%} finally {set y 33}
eval {%}
if {%; idem true} {get x none}
[coroutine {%}] wait
set y [[macro {} {%}]]; $y
set y [[closure {} {%}]]; $y
set y [[proc {} {%}]]; $y
alias f (eval {%}); f
closure f {} {closure g {} {%}; set x 40; return (g)}; f; catch {g}
closure f {x} {closure g {} {%}; macro gg {} {g}; gg}; f 41
proc f {x} {closure g {} {%}; set x 42; g}; f 41
macro f {x} {closure g {} {%}; g}; f 43
proc f {x} {macro g {} {%}; g}; f 44
closure f {x} {macro g {} {%}; set x 45; g}; f 44
proc f {} {set x 46; scope s {%}; idem $x}; f
proc f {} {set x 46; namespace s {proc m {} {%}}; s m}; f
help [closure f {} {%}]; f
[argspec {(?z {%})}] set ()
[list (2 1)] sort [[closure {a b} {%; idem 1}]]
`)
	probes := []string{"idem ([exists x] [get x none] [exists y] [get y none] [exists z] [get z none])", "k 50", "catch {f}", "catch {f 60}", "idem ([get x none] [get y none])", "catch {[f] eval {list ([get x none] [get y none] [exists z])}}"}
	setup := "set x 1; closure k {a} {idem \"$[get x none]-$a\"}"
	setup2 := "let x 1; macro k {a} {idem \"$[get x none]-$a\"}; set y 0"
	setup3 := "proc k {a} {set x $a; idem $x}"
	must(setup)
	run := func(src string) {
		for _, s := range []string{setup, setup2, setup3} {
			if e.Mine() {
				e.Do("prog", append([]string{s, src}, probes...)...)
			}
		}
	}
	e.Phase("one scope, two actions")
	for _, w := range wraps {
		for _, a := range acts {
			run(strings.ReplaceAll(w, "%", a))
			for _, b := range acts {
				run(strings.ReplaceAll(w, "%", a+"; "+b))
			}
		}
	}
	e.Phase("nested scopes")
	in := acts
	if !e.Thorough {
		in = acts[:17]
	}
	for _, w := range wraps {
		for _, v := range wraps {
			inner := fixNames(v)
			for _, a := range in {
				src := strings.ReplaceAll(w, "%", strings.ReplaceAll(inner, "%", a))
				if e.Mine() {
					e.Do("prog", append([]string{setup, src}, probes...)...)
				}
			}
		}
	}
	// definitions and calls of one command name in a chain of scopes, over time
	e.Phase("redefinitions")
	type chain struct{ a, b, c string }
	var chains []chain
	for _, k := range []string{"scope", "namespace", "ensemble"} {
		chains = append(chains, chain{k, k, k})
	}
	chains = append(chains, chain{"module", "scope", "namespace"}, chain{"ensemble", "namespace", "scope"}, chain{"namespace", "module", "scope"})
	bodies := map[string]string{"scope": "scope %s {%s}", "namespace": "namespace %s {%s}", "ensemble": "ensemble %s {} {%s}", "module": "[module {export ev; alias ev eval; %[2]s}] import ev %[1]s"}
	in1 := func(k, n, code string) string {
		if k == "module" {
			return n + " {" + code + "}"
		}
		return "[" + n + "] eval {" + code + "}"
	}
	for _, ch := range chains {
		at := func(l int, code string) string {
			if l > 2 {
				code = in1(ch.c, "cc", code)
			}
			if l > 1 {
				code = in1(ch.b, "bb", code)
			}
			if l > 0 {
				code = in1(ch.a, "aa", code)
			}
			return code
		}
		def := fmt.Sprintf(bodies[ch.a], "aa", fmt.Sprintf(bodies[ch.b], "bb", fmt.Sprintf(bodies[ch.c], "cc", "")))
		for _, name := range []string{"k", "pass"} {
			for n := 1; n <= e.Pick(4, 5); n++ {
				gen.Seqs([]string{"d0", "d1", "d2", "d3", "c0", "c1", "c2", "c3", "p3", "m2"}, n, func(ops []string) {
					if !e.Mine() {
						return
					}
					steps := []string{def}
					for i, o := range ops {
						l := int(o[1] - '0')
						switch o[0] {
						case 'd':
							steps = append(steps, at(l, fmt.Sprintf("closure %s {} {idem v%d}", name, i)))
						case 'c':
							steps = append(steps, at(l, name))
						case 'p':
							// a command that keeps calling by name
							steps = append(steps, at(l, "proc caller {} {"+name+"}; caller"))
						case 'm':
							steps = append(steps, at(l, "alias ali "+name+"; ali"))
						}
					}
					for l := 0; l <= 3; l++ {
						steps = append(steps, at(l, name))
					}
					steps = append(steps, at(3, "caller"), at(3, "ali"), at(3, "catch {["+"idem "+name+"]}"))
					for l := 0; l < 3; l++ {
						if kind := []string{ch.a, ch.b, ch.c}[l]; kind == "namespace" {
							steps = append(steps, at(l, []string{"aa", "bb", "cc"}[l]+" "+name))
						}
					}
					e.Do("prog", steps...)
				})
			}
		}
	}
	// every call gets a scope with nothing left from other calls
	e.Phase("calls over time")
	defs := "proc f {a} {eval $a}; closure c {a} {eval $a}; macro m {a} {eval $a}; proc fb {?b a} {set z $[exists b]; idem $[eval $a]}; scope s {}; namespace ns {proc nf {a} {eval $a}; macro nm {a} {eval $a}; set x ns}; ensemble en {k} {proc ef {k a} {eval $a}; closure ec {k a} {eval $a}}; closure g {} {idem outer}; closure cg {v (?w {get x -})} {set x $v; idem $w}; proc pg (idem {x (?y {get x -})}) {set x 9; idem $y}"
	defs = strings.ReplaceAll(defs, "proc pg (idem {x (?y {get x -})}) {set x 9; idem $y}", "proc pg {x (?y {get x -})} (idem {set z 9; idem $y})")
	must(defs)
	ctxs := ln("%\nf {%}\nc {%}\nm {%}\nfb 1 {%}\nfb {%}\ns eval {%}\nns nf {%}\nns nm {%}\n[ns] eval {%}\nen k ef {%}\nen k ec {%}\nf {f {%}}\nf {c {%}}\nf {m {%}}\nf {%; f {g}; tuple ([g] [get x -])}\n[coroutine {%}] wait\nf {scope q {%}; [q] eval {catch {g}}}\neval [parse \"%\"]")
	codes := ln("closure g {} {idem g#}\nproc g {} {idem p#}\nmacro g {} {get x m#}\ng\nset x #\nget x -\nlet y #\nget y -\nexists z\nproc f {a} {eval $a; idem r#}\nloop x [list (#)] {g}\ncatch {unset x}; g\ncg #\npg #\nclosure cg {v} {idem cg$v}\nset h [closure {} {get x none}]; [$h]\nerror e#\nset x #; error e\nlet y 5; return $y\nclosure g {} {idem y#}; yield $[g]; g")
	mk := func(cs, os []string) (out []string) {
		for _, c := range cs {
			for _, o := range os {
				out = append(out, strings.ReplaceAll(c, "%", o))
			}
		}
		return
	}
	over := func(pick []string, n int) {
		gen.Seqs(pick, n, func(a []string) {
			if !e.Mine() {
				return
			}
			st := []string{defs}
			for i, x := range a {
				st = append(st, strings.ReplaceAll(x, "#", fmt.Sprint(i)))
			}
			e.Do("prog", append(st, "g", "f {g}", "f {tuple ([g] [get x -] [get y -])}", "c {g}", "m {g}", "fb {tuple ([g] [get x -] [exists b])}", "ns nf {tuple ([g] [get x -])}", "en k ef {tuple ([g] [get x -])}", "s eval {tuple ([g] [get x -])}", "tuple ([cg 1] [pg 1] [get x -] [get y -] [exists z])")...)
		})
	}
	over(mk(ctxs, codes), 2)
	over(mk(append(ctxs[:3:3], ctxs[4], ctxs[7]), append(codes[:5:5], codes[6])), e.Pick(3, 4))
	if e.Thorough {
		e.Phase("one scope, three actions")
		for _, w := range wraps {
			gen.Seqs(acts[:20], 3, func(s []string) { run(strings.ReplaceAll(w, "%", strings.Join(s, "; "))) })
		}
	}
}

// fixNames renames the command f of a wrapper, so that it can be nested.
func fixNames(s string) string {
	r := strings.NewReplacer(" f ", " w ", " f;", " w;", "[f]", "[w]", "; f", "; w", ";f", "; w")
	return r.Replace(s)
}

func enumC14(e *mc.Env) {
	g := gen.New(`
shape:
 1 <n>
 1 (<shapes>)
shapes:
 0 
 0 <shape>
 0 <shape> <shape>
 0 <shape> <shape> <shape>
n:
 0 a
 0 b
 0 k
 0 [list ()]
`)
	v := gen.New(`
val:
 1 1
 1 (<vals>)
vals:
 0 
 0 <val>
 0 <val> <val>
 0 <val> <val> <val>
`)
	values := append(v.All("val", 5), "[list (1 2)]", "[dict (a 1)]", "{1 2}", "(1 [list (2 3)])", "([] 2)", "(1 (2 3) 4)", "((1 2) (3 4))", "(1 2 3 4)")
	probe := []string{"idem ([exists a] [get a none] [exists b] [get b none] [exists k] [get k none] [exists c])"}
	run := func(src ...string) {
		if e.Mine() {
			e.Do("prog", append(src, probe...)...)
		}
	}
	cmds := []string{"set S V", "let S V", "loop S [list (V)] {idem ([exists a] [get a none] [get b none] [get k none])}", "loop i S [list ((1 2) V)] {idem ([get a none] [get b none])}", "[list (V)] foreach S {idem ([get a none] [get b none])}", "[list ((1 (2 3)) V)] foreach i S {idem ([get a none] [get b none])}",
		"closure q {a} {set S V}; q 0", "closure q {b} {let S V}; q 0", "loop S {yield y; idem V} {idem ([get a none] [get b none]); break}", "loop S (idem V) {break}", "proc q {a} {let S V; list ($a [get b none])}; q 7", "let (c S) (0 V)", "set (S c) (V 0)", "set (S S) (V V)", "unset S", "[dict (V 2)] foreach S {idem ([get a none] [get b none])}", "[dict (x V)] foreach (z S) {idem ([get a none] [get b none])}", "get S", "idem $S"}
	e.Phase("shapes")
	for cost := 1; cost <= e.Pick(3, 4); cost++ {
		for _, s := range g.Exact("shape", cost) {
			for _, val := range values {
				for _, c := range cmds {
					src := strings.ReplaceAll(strings.ReplaceAll(c, "S", s), "V", val)
					run("let k 5", src)
					if cost <= 3 {
						run("set a 0; set k 6", src)
					}
					if e.Thorough {
						run("let b 0; set k 6; set a 3", src)
					}
				}
			}
		}
	}
	if !e.Thorough {
		for _, s := range g.Exact("shape", 4) {
			for _, val := range values {
				for _, c := range cmds[:2] {
					run("let k 5", strings.ReplaceAll(strings.ReplaceAll(c, "S", s), "V", val))
				}
			}
		}
	}
	e.Phase("wide and deep shapes")
	for _, n := range []int{1, 2, 3, 10, 63, 64, 65, 100, 200} {
		var ns, vs []string
		for i := 0; i < n; i++ {
			ns = append(ns, fmt.Sprintf("n%d", i))
			vs = append(vs, fmt.Sprint(i))
		}
		for _, bad := range []string{"", "k", "[list ()]", "(q)"} {
			for _, at := range []int{0, n / 2, n - 1} {
				xs := append([]string{}, ns...)
				if bad != "" {
					xs[at] = bad
				}
				for _, c := range cmds[:6] {
					for _, val := range []string{strings.Join(vs, " "), strings.Join(vs[:n-1], " "), strings.Join(append(vs, "x"), " ")} {
						src := strings.ReplaceAll(strings.ReplaceAll(c, "S", "("+strings.Join(xs, " ")+")"), "V", "("+val+")")
						run("let k 5", src, fmt.Sprintf("idem ([exists n0] [exists n%d] [exists n%d] [get n%d none])", n/2, n-1, n-1))
					}
				}
			}
		}
		d := strings.Repeat("(", n) + "a b" + strings.Repeat(")", n)
		for _, val := range []string{strings.Repeat("(", n) + "1 2" + strings.Repeat(")", n), strings.Repeat("(", n) + "1" + strings.Repeat(")", n), strings.Repeat("(", n-1) + "1 2" + strings.Repeat(")", n-1), strings.Repeat("(", n+1) + "1 2" + strings.Repeat(")", n+1)} {
			for _, c := range cmds[:6] {
				run("let k 5", strings.ReplaceAll(strings.ReplaceAll(c, "S", d), "V", val))
			}
		}
	}
}
