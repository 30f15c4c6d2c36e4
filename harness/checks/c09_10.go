package checks

import (
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C09",
		Space: "all clause sequences of if and when up to a length over tests of every kind (constants, blocks, failing, suspended, non-boolean) and bodies of every result code, well formed or not; " +
			"all while loops over tests, bodies and codes per iteration; all loops over index, one to three sources of every kind and bodies; all nestings of two loops and conditionals with codes at every place. Effects are logged. State: log and outcome.",
		Assume: []string{interp},
		Enum:   enumC09,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID: "C10",
		Space: "the product of body code x handler presence and outcome x finally outcome, with suspensions, inside every enclosing construct; all handler word sequences up to a length, well formed or not; all nestings of two catches; " +
			"propagation of every code through every construct that evaluates code, to depth two. State: log and outcome.",
		Assume: []string{interp},
		Enum:   enumC10,
		Eval:   progs,
	})
}

var lib = newSetup(`
@ set log ""; closure T {v} {set log "$log$v "; idem $v}
n set n 0
N closure N {} {set n [+ $n 1]}
l set l [list (a b c)]
l2 set l2 [list (x y)]
d set d [dict (k v)]
p proc p {x} {T $x}
cmd closure cmd {i} {T "s$i"; if [$i >= 2] {break}; idem $i}
`)

func enumC09(e *mc.Env) {
	must(lib.all())
	emit := func(kind, src string, probes ...string) {
		if e.Mine() {
			e.Do(kind, append([]string{lib.forText(src), src}, append(probes, "idem $log")...)...)
		}
	}
	e.Phase("if")
	w := []string{"true", "false", "{T true}", "{T false}", "elseif", "else", "{T 1}", "{T 2}", "x", "{yield y}", "{error e}", "{break}", "()", "1"}
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(w, n, func(s []string) { emit("prog", "if "+strings.Join(s, " ")) })
	}
	tests := []string{"true", "false", "{T true}", "{T false}", "{yield t}", "{error e}", "{continue}", "$[T true]", "{}", "0", "{return true}", "{T a; idem false}"}
	bodies := []string{"{T b}", "{}", "{break}", "{error f; T z}", "{yield w}", "{return r}", "x", "{T 1; T 2}", "(T 5)"}
	gen.Product(func(s []string) {
		t := "if " + s[0] + " " + s[1] + " elseif " + s[2] + " " + s[3]
		emit("prog", t)
		for _, m := range []string{" else {T e}", " elseif {T true} {T c}", " elseif {T false} {T c} else {T d}", " else", " elseif", " elseif true", " else {T e} x", " else {T e} else {T f}", " else {T e} elseif true {T g}"} {
			emit("prog", t+m)
		}
	}, tests, bodies, tests, bodies)
	e.Phase("when")
	cw := []string{"true", "false", "{T true}", "{T false}", "(T true)", "(T false)", "{T 1}", "{T 2}", "x", "{break}", "{yield true}", "(idem)", "()", "{}"}
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(cw, n, func(s []string) {
			j := strings.Join(s, " ")
			emit("prog", "when ("+j+")")
			if n <= 3 {
				emit("prog", "when {"+j+"}")
				emit("prog", "when [list ("+j+")]")
				for _, c := range []string{"idem", "{T idem}", "!", "(idem)", "T", "{yield idem}", "{error e}", "x", "()", "{break}", "((T))", "(== a)", "{}", "[list ()]"} {
					emit("prog", "when "+c+" ("+j+")")
				}
			}
		})
	}
	for _, s := range []string{"when", "when a b c", "when x", "when 1 {}", "when {1 > 0 {T a}}", "when {1 >} {0 {T a} 2 {T b} {T c}}", "when {1 >} {(0) {T a}}", "when {5 <} {6 {T a} {T b}}", "when {5} {(< 3) {T 3} (< 6) {T 6} (< 9) {T 9}}", "when {T 5} {(< 3) {T 3} (< 6) {T 6} (< 9) {T 9}}", "when 5 {(< 3) {T 3} (> 6) {T 6} {T 9}}"} {
		emit("progb", s)
	}
	e.Phase("while")
	wt := []string{"true", "false", "{[N] < 4}", "{T true}", "{T false}", "{if [[N] < 3] {idem true} else {break}}", "{yield t; [N] < 3}", "{error e}", "{[N] < 3; return true}", "{if [[N] < 3] {T true} else {T 5}}", "x", "{}", "()", "{continue}", "1", "{if [[N] < 3] {idem true} else {continue}}"}
	wb := []string{"{T $n}", "{}", "{break}", "{T a; if [[N] > 3] {break}}", "{if [$n == 2] {continue}; T $n; if [[N] > 5] {break}}", "{error e}", "{return $n}", "{yield $n; T y$n; if [[N] > 2] {break}}", "x", "{T 1; continue; T 2}", "{N; if [$n > 4] {error end}; continue}", "{if [[N] > 2] {pass}; T $n}", "(break)", "{T q; if [[N] >= 3] {return [T r]}}", "{N; if [$n == 2] {T two} elseif [$n > 3] {break}}"}
	gen.Product(func(s []string) {
		src := "while " + s[0] + " " + s[1]
		emit("progb", src, "idem $n")
		emit("prog", "T <["+src+"]>", "idem $n")
		emit("prog", "proc q {} {T in; "+src+"; T out}; q", "idem $n")
		emit("prog", "loop i {"+src+"; T l; if [$i > 1] {break}}", "idem $n")
	}, wt, wb)
	for _, s := range []string{"while", "while true", "while true {} x", "while true {break} {break}"} {
		emit("prog", s)
	}
	e.Phase("loop")
	src := []string{"$l", "$l2", "$d", "[list ()]", "[dict ()]", "{T s; N; if [$n > 3] {break}; idem $n}", "{N; if [$n > 5] {break}; if [[int $n] == 2] {continue}; idem c$n}", "cmd", "(T)", "{error e}", "{N; yield s$n; if [$n > 2] {break} else {idem e$n}}", "{return q}", "x", "{break}", "(cmd)", "[[closure {i} {if [$i > 1] {break}; idem $i}]]", "1", "{N; if [$n > 2] {break}; idem (u$n v$n)}"}
	lb := []string{"{T $i}", "{T \"$v\"}", "{break}", "{T a; continue; T b}", "{if [$i == 1] {continue}; T $i; if [$i > 3] {break}}", "{yield $i; T \"$i\"; if [$i > 1] {break}}", "{error \"$i\"}", "{if [$i > 1] {return $i}}", "{}", "{T [exists v]; if [$i >= 4] {break}}", "{set z $v; T $z; if [$i >= 3] {break}}", "x", "{let k$i $v; if [$i >= 2] {break}}", "{T [exists w]; if [$i > 4] {break}; T \"$w\"}"}
	for _, b := range lb {
		emit("progb", "loop i {T $i; if [$i > 2] {break}; eval "+b+"}", "exists i")
		emit("prog", "loop "+b)
		for _, a := range src {
			emit("prog", "loop v "+a+" "+b, "exists v")
			emit("progb", "loop i v "+a+" "+b, "exists i", "exists v", "get z none")
			emit("prog", "loop i (v w) "+a+" "+b, "exists v")
			emit("prog", "loop i (v) "+a+" "+b, "exists v")
			for _, c := range src {
				emit("prog", "loop i v "+a+" w "+c+" "+b, "exists w", "idem $n")
				if e.Thorough {
					for _, d := range src {
						emit("prog", "loop i v "+a+" w "+c+" u "+d+" "+b, "exists u", "idem $n")
					}
				}
			}
		}
	}
	for _, s := range []string{"loop", "loop {break}", "loop a {}", "loop i v {}", "loop i i $l {T $i}", "loop v $l v $l2 {T $v}", "loop () $l {T 1}", "loop (a (b c)) [list ((1 (2 3)) (4 (5 6)))] {T \"$a$b$c\"}", "loop (a a) [list ((1 2))] {T $a}", "loop (a b) [list ((1 2) (3))] {T \"$a$b\"}", "loop [list ()] $l {T 1}", "loop [list ()] {break}", "set i 5; loop i v $l {T \"$i$v\"}; T $i", "let v 5; loop v $l {T $v}; T $v", "loop v $l {set v 3; T $v}", "loop v $l {let v 3}", "loop v $l {unset v}", "loop v $l {set z $v}; T $z", "loop v $l {loop v $l2 {T $v}; T $v}", "loop i v $l {loop i w $l2 {T \"$i$v$w\"}; T $i}", "loop v $l {closure cc {} {idem $v}; T [cc]}; cc", "loop v $l {proc cc {} {idem $v}; T [cc]}"} {
		emit("progb", s, "get v none", "get i none")
	}
	e.Phase("nesting")
	g := gen.New(`
prog:
 0 <ctl>
 1 T a; <ctl>; T z
ctl:
 1 loop i $l {T $i; <st>}
 1 loop v $l {T $v; <st>}
 1 loop i v {if [$i > 2] {break}; <st>} {<st>}
 1 while {[N] < 5} {T $n; <st>}
 1 while {<st>; [N] < 4} {T w}
 1 if {<st>; idem true} {<st>} else {T e}
 1 if false {T q} else {<st>}
 1 when {{<st>; idem false} {T q} {<st>}}
 1 when {<st>; idem T} {true {<st>}}
 1 [list (a b)] foreach x {T $x; <st>}
 1 [dict (a b)] foreach (x y) {<st>; T $x}
 1 eval {T ev; <st>; T ev2}
 1 catch {<st>; T c} finally {T f}
 1 catch {<st>} break {T cb} continue {T cc; pass}
 1 p [T 1; <st>]
 1 proc q {} {<st>; T q}; q
 1 closure q {} {<st>; T q}; q
 1 macro q {} {<st>; T q}; q
 1 scope {<st>; T s}
st:
 0 T 1
 1 break
 1 continue
 1 if [[N] == 2] {<st>}
 1 return [T r]
 1 error x
 1 yield [T y]
 0 <ctl>
 1 pass
`)
	g.UpTo("prog", e.Pick(4, 5), func(s string) { emit("prog", s, "idem $n") })
}

func enumC10(e *mc.Env) {
	emit := func(kind, src string, probes ...string) {
		if e.Mine() {
			e.Do(kind, append([]string{lib.forText(src), src}, append(probes, "idem $log")...)...)
		}
	}
	bodies := []string{"{T b}", "{}", "{T b; return v}", "{T b; return}", "{T b; yield v; T c}", "{yield}", "{T b; error v}", "{break}", "{continue}", "{pass}", "{yield a; yield b; T c; error d}", "{idem [yield u]; T [yield w]}", "x"}
	outs := []string{"", "{T h}", "{pass}", "{T h; pass}", "{return r}", "{error g}", "{break}", "{continue}", "{T h; yield k; T h2}", "{yield k; pass}", "x", "{}"}
	fins := []string{"", "{T f}", "{pass}", "{return rf}", "{error ef}", "{break}", "{yield yf; T f2}", "{}"}
	wraps := []string{"%", "T <[%]>", "loop i {T $i; if [$i > 1] {break}; %; T after}", "proc q {} {%; T after}; q", "closure q {} {%}; q", "eval {%; T after}", "catch {%} return v {T R$v} yield v {T Y$v; pass} error v {T E$v} break {T B} continue {T C} finally {T F}", "catch {%}", "scope {%}"}
	e.Phase("handlers")
	kinds := []struct{ kw, param string }{{"return", " v"}, {"yield", " v"}, {"error", " v"}, {"break", ""}, {"continue", ""}}
	for _, b := range bodies {
		for ki, k := range kinds {
			for _, o := range outs {
				for _, f := range fins {
					h := ""
					if o != "" {
						h = " " + k.kw + k.param + " " + strings.ReplaceAll(o, "T h;", "T h$[get v none];")
					} else if ki > 0 {
						continue
					}
					if f != "" {
						h += " finally " + f
					}
					c := "catch " + b + h
					for wi, w := range wraps {
						kind := "prog"
						if wi == 0 {
							kind = "progb"
						}
						emit(kind, strings.ReplaceAll(w, "%", c), "get v none")
					}
				}
			}
		}
	}
	e.Phase("several handlers")
	all := []string{"return v {T rv$v}", "yield v {T yv$v; pass}", "yield v {T yw$v}", "error v {T ev$v}", "break {T bk}", "continue {T ct}", "finally {T fn}", "error w {T ew$w; pass}", "finally {T fn2; error z}"}
	for n := 2; n <= e.Pick(3, 4); n++ {
		gen.Seqs(all, n, func(s []string) {
			for _, b := range bodies {
				emit("prog", "catch "+b+" "+strings.Join(s, " "))
			}
		})
	}
	e.Phase("clause words")
	w := []string{"return", "yield", "error", "break", "continue", "finally", "v", "{T $v}", "{pass}", "()", "x", "{error e}"}
	for n := 0; n <= e.Pick(3, 4); n++ {
		gen.Seqs(w, n, func(s []string) {
			emit("prog", "catch "+strings.Join(s, " "))
			emit("prog", "catch {T b; error q} "+strings.Join(s, " "))
			if n > 1 {
				emit("prog", "catch {T b} finally {T a} "+strings.Join(s, " "))
			}
		})
	}
	e.Phase("scopes of handlers")
	for _, b := range []string{"{return 5}", "{error 5}", "{yield 5}"} {
		for _, h := range []string{"T $v; set w $v", "set v 6", "let v 6", "unset v", "set v2 [idem $v]; T $v2", "exists v", "catch {error 7} error v {T $v}; T $v", "closure cl {} {idem $v}; T [cl]", "loop v $l {T $v}; T $v", "proc pr {} {idem $v}; pr", "macro mm {} {idem $v}; mm", "T $v; yield [T q$v]; T $v"} {
			for _, pre := range []string{"", "set v 1; ", "let v 2; ", "set w 3; "} {
				for _, k := range []string{"return", "yield", "error"} {
					c := pre + "catch " + b + " " + k + " v {" + h + "} finally {T [exists v]}"
					emit("progb", c, "get v none", "get w none", "get v2 none")
					emit("prog", "proc q {v} {"+strings.TrimPrefix(c, pre)+"}; "+pre+"q 9", "get v none", "get w none")
					emit("prog", "macro q {v} {"+strings.TrimPrefix(c, pre)+"}; "+pre+"q 9", "get v none", "get w none")
				}
			}
		}
	}
	e.Phase("propagation")
	codes := []string{"return v", "return", "yield v", "error v", "break", "continue", "pass", "T ok", "return (a b)", "idem tc", "yield (a); error z"}
	ctx := []string{"%", "eval {T 1; %; T 2}", "idem [%]", "T 1; %; T 2", "idem \"a[%]b\"", "idem (a [%] b)", "proc q {} {T 1; %; T 2}; T [q]", "closure q {} {%; T 2}; T [q]", "macro q {} {%; T 2}; T [q]", "if true {%; T 2}", "if {%; idem true} {T 3}", "while true {%; T 2; break}", "while {%; idem false} {T 3}", "when {{%} {T 4} {T 5}}", "when {true {%; T 2}}", "when {%; idem T} {(true) {T 6}}", "loop i {%; if [$i > 1] {break}}", "loop v {%; N; if [$n > 2] {break}} {T $v}", "loop i v [list (a b)] {T $v; %}", "[list (a b)] foreach v {T $v; %}", "scope {%; T 2}", "scope s {%}; s eval {T 3}", "[scope {T 1}] eval {%; T 2}", "namespace s {%; T 2}", "namespace s {macro m {} {%}}; s m", "namespace s {proc m {} {%}}; T [s m]", "ensemble s {a} {%; T 2}", "ensemble s {a} {macro m {a} {%; T $a}}; s 1 m", "ensemble s {a} {proc m {a} {%; T $a}}; s 1 m", "alias al (eval {%; T 2}); al", "(eval {%})", "&& {%; idem true} {T true}", "|| {%; idem false} {T true}", "! {%; idem false}", "set v [%]; T $v", "catch {%} finally {T f}", "catch {T 1; %} error m {T $m; pass}", "catch {%}", "set c [coroutine {%; T 2}]; T [$c wait]; $c done", "set c [coroutine {%; T 2}]; T [$c wait]; $c active", "proc q {a} ((T) {%; T 2}); q 1", "macro q {a} (T {%; idem 2}); q 1", "proc q {(?a {%; idem 5})} {T $a}; q", "macro q {(G a)} {T $a}; macro G {x} {%; idem $x}; q 1", "[list (b a)] sort [[macro {x y} {%; idem 1}]]", "argspec {(?a {%})} usage", "[argspec ((?a {%}))] set ()", "idem $l[%]", "idem $d([%])", "|> %", "T 1; |> T [%]", "eval {T 1; %}; |> T", "catch {T 1; %} error m {T $m; idem h} yield v {pass}; |> T", "idem $*[%]", "help [%]", "parse [%]", "catch {error [%]} error m {T $m}", "[en] eval {%}", "ensemble en {} {macro m {} {%}}; [en] call m"}
	for _, c := range codes {
		for i, a := range ctx {
			one := strings.ReplaceAll(a, "%", c)
			emit("progb", one, "idem $n")
			for j, b := range ctx {
				if !e.Thorough && i%2 != j%2 && c == "idem tc" {
					continue
				}
				emit("prog", strings.ReplaceAll(b, "%", one), "idem $n")
			}
		}
	}
	if e.Thorough {
		e.Phase("propagation to depth three")
		for _, c := range codes[:7] {
			for _, a := range ctx {
				for _, b := range ctx {
					for _, d := range ctx {
						emit("prog", strings.ReplaceAll(d, "%", strings.ReplaceAll(b, "%", strings.ReplaceAll(a, "%", c))))
					}
				}
			}
		}
	}
	e.Phase("nested catches")
	gen.Product(func(s []string) {
		inner := "catch {" + s[0] + "} " + s[1]
		emit("prog", "catch {T 1; "+inner+"; T 2} "+s[2])
	}, codes[:9], all, all)
	if e.Thorough {
		gen.Product(func(s []string) {
			inner := "catch {" + s[0] + "} " + s[1] + " " + s[2]
			emit("prog", "catch {T 1; "+inner+"; T 2} "+s[3]+" "+s[4])
		}, codes[:7], all, all, all, all)
	}
}
