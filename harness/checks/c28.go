package checks

import (
	"fmt"
	"strings"

	"helena/core"
	"helena/picol_dialect"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C28",
		Space: "all calls of every Picol command with up to N arguments over values of all kinds; all tests in all conditional commands; all nestings of conditionals, loops and procedures around every outcome (values, errors, return, break, continue); " +
			"all argument specifications up to a length, as tuples and as scripts, with all numbers of arguments; all histories of definitions, assignments, increments and calls through nested and recursive procedures. State: log, variables and outcome of each step.",
		Assume: []string{"the reference interpreter (harness/ref/picol.go) states the intended semantics of the Picol dialect; it was written from its tests and usage messages"},
		Enum:   enumC28,
		Eval:   map[string]func([]string) mc.Out{"picol": picolHistory},
	})
}

// logger is a command that records its first argument and returns the second.
type logger struct{ log *[]string }

func (l logger) Execute(args []core.Value, _ any) core.Result {
	s := []string{}
	for _, a := range args[1:] {
		s = append(s, impl.Canon(a))
	}
	*l.log = append(*l.log, strings.Join(s, ","))
	if len(args) < 2 {
		return core.OK(core.NIL)
	}
	return core.OK(args[len(args)-1])
}

func picolHistory(steps []string) (o mc.Out) {
	w := ref.NewPicol()
	defer w.Close()
	var rlog []string
	w.DefinePicol("log", func(args []ref.Value) ref.Result {
		s := []string{}
		for _, a := range args[1:] {
			s = append(s, ref.Canon(a))
		}
		rlog = append(rlog, strings.Join(s, ","))
		if len(args) < 2 {
			return ref.Result{C: ref.OK, V: ref.Nil{}}
		}
		return ref.Result{C: ref.OK, V: args[len(args)-1]}
	})
	var exp []string
	var outs [][]string
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, k := e.(ref.OutOfFuel); !k {
					panic(fmt.Sprintf("model: %v in %q", e, steps))
				}
				o.Skip = true
			}
		}()
		for _, src := range steps {
			rlog = nil
			tr := impl.EvalRef(w, src)
			outs = append(outs, tr)
			tr = append(tr, rlog...)
			exp = append(exp, strings.Join(tr, " | "))
			o.States = append(o.States, mc.Hash(w.Snapshot(), exp[len(exp)-1]))
		}
	}()
	if o.Skip {
		return
	}
	audit(steps, outs)
	o.Steps = w.Used()
	o.Traces = 1
	var ilog []string
	scope := picol_dialect.NewPicolScope(nil)
	picol_dialect.InitPicolCommands(scope)
	scope.Commands["log"] = logger{&ilog}
	for k, src := range steps {
		ilog = nil
		var got []string
		if c := impl.Guard(func() {
			sc, msg := impl.Parse(src, false)
			if msg != "" {
				got = []string{"syntax " + msg}
				return
			}
			got = []string{impl.CanonResult(scope.Evaluator.EvaluateScript(*sc))}
		}); c != "" {
			got = []string{c}
		}
		got = append(got, ilog...)
		if g := strings.Join(got, " | "); g != exp[k] {
			o.Diff = fmt.Sprintf("step %d %q: expected %s, got %s", k, src, exp[k], g)
			return
		}
	}
	return
}

func enumC28(e *mc.Env) {
	emit := func(steps ...string) {
		if e.Mine() {
			e.Do("picol", steps...)
		}
	}
	pre := "set a 1; set b (x y); set t true; set s {log in; set a 5}; set i [incr n 7]; set r [+ 1.5]; set z \"\"; set B [== 1 1]; set F [== 1 2]; proc p {x {y d} args} {log P; + $x 1}; proc v {args} {set args}; proc N {} {}; set j [incr n -10]; set o [incr q 0]; set I [incr big 9223372036854775807]"
	vals := sp("1 0 -3 2.5 1e400 a 9223372036854775807 9223372036854775808 0x1p4 true false yes no TRUE + \"\" 007 1_0 $i $r $B $F {} {1} {true} {return 9} {break} {idem} {error E} {set} $s {[return 4]} {log 1} (1) () (x) $b [] [N] $j $o $I [return 8] [break] [error z] $u $a$i \"$a.$i\" {==\u00201\u00201}")
	for i, v := range vals {
		vals[i] = strings.ReplaceAll(v, "\\u0020", " ")
	}
	texts := vals[:22]
	cmds := sp("+ - * / == != > >= < <= ! && || if for while set incr proc return break continue error p v N log nosuch (p) 5 \"\"")
	e.Phase("calls")
	for _, c := range cmds {
		eq := c == "==" || c == "!="
		for n := 0; n <= e.Pick(3, 4); n++ {
			vs := vals
			if eq {
				vs = append(append([]string{}, texts...), sp("{} {1} {true} [return 8] [break] [error z] $u $a$i")...)
			}
			if n >= 3 {
				vs = sp("1 0 2.5 a true {} {log 1} {return 9} {break} {error E} (1) $i $B $u \"\"")
				if eq {
					vs = sp("1 0 a true {} \"\" $i")
				}
				if n == 4 {
					vs = sp("1 a true {} {log 1} {return 9} {break} {error E} (1) $i")
				}
			}
			gen.Seqs(vs, n, func(a []string) {
				s := strings.TrimSpace(c + " " + strings.Join(a, " "))
				if eq && strings.Contains(s, "(") || c == "for" && n == 4 && strings.Contains(s, "for 1") {
					return
				}
				emit(pre, s, "set a; log $a $b; v $n $s")
			})
		}
	}
	for _, s := range sp("+ - * / && ||") {
		gen.Seqs(sp("1 -2 0.5 0 a {log 3} {return 7} true 1e308"), e.Pick(4, 5), func(a []string) { emit(pre, s+" "+strings.Join(a, " ")) })
	}
	e.Phase("tests")
	tests := append(append([]string{}, vals...), "{> $a 0}", "{< [incr k] 3}", "{! [log 0]}", "[== $a 1]", "{incr k -2}", "{incr k 0}", "[incr k -1]", "[set k]", "{log x; log true}", "{log x; log 1}", "{continue}", "{return true}", "{return}", "{N}", "{if {< [incr k] 2} {log true} else {log false}}")
	for _, t := range tests {
		for _, f := range []string{"if T {log y}", "if T {log y} else {log n}", "if T {} else {N}", "if T {return y} {log n; break}", "if T Y N", "if T {log y} else N", "if T Y else {log n}", "! T", "&& T {log 2; log true}", "&& true T", "&& false T", "|| T {log 2; log false}", "|| false T", "|| true T", "! {! T}", "while T {log w; if {>= [incr c] 3} {break}}", "for {log s} T {log n} {log w; if {>= [incr c] 3} {break}}", "while {&& {< [incr c] 4} T} {log w}", "proc q {x} {if $x {log y} else {log n}}; q T", "set x T; if $x {log y}; while $x {log w; set x 0}"} {
			emit(pre, strings.ReplaceAll(f, "T", t), "log $a $b; set c")
		}
	}
	e.Phase("control flow")
	g := gen.New(`
prog:
 0 <st>
 1 <st>; <st>
st:
 1 <act>
 1 <ctl>
body:
 0 <st>
 1 <st>; log z
 1 log y; <st>; log z
act:
 0 log 1
 0 break
 0 continue
 0 return r
 0 return
 0 error e
 0 set x 2
 0 incr x
 0 N
 0 nosuch
 0 log $x
 0 true
ctl:
 0 if {< $x 2} {<body>}
 0 if {< $x 2} {<body>} else {<body>}
 0 while {< [incr c] 4} {<body>}
 0 for {set j 0} {< $j 2} {incr j} {<body>}
 0 for {<body>} {< [incr d] 3} {<body>} {log b}
 0 for {log s} {< [incr d] 3} {<st>} {<st>}
 0 while {<body>} {if {> [incr c] 3} {break}}
 0 f {<body>}
 0 log [<body>]
 0 w {<body>}
 0 proc q {} {<body>}; q
 0 proc q {{k v}} {<body>; log $k}; q 4
 0 if {<body>} {log y}
 0 && 1 {<body>}
`)
	pre2 := "set x 1; set c 0; set d 0; proc N {} {}; proc f {body} {set x 7; set c 0; set d 0; if 1 $body}; proc w {body} {set x 0; set c 0; set d 0; for {set m 0} {< $m 2} {incr m} $body; log $m}"
	g.UpTo("prog", e.Pick(5, 6), func(s string) {
		emit(pre2, s, "log $x $c $d")
	})
	e.Phase("procedures")
	specs := []string{"a", "b", "{a}", "{b 2}", "{c {d e}}", "args", "{args 5}", "{}", "{\"\"}", "{a b c}", "(x y)", "1", "\"c d\"", "#{c}#", "{a #{c}#}", "$u", "{$u}", "[x]", "{[x]}", "a$", "{e (1 2)}", "{{n} 3}"}
	for n := 0; n <= e.Pick(3, 4); n++ {
		ss := specs
		if n == 3 {
			ss = sp("a {b\u00a02} args b {c\u00a0{}} {args\u00a05} (x)")
		}
		if n == 4 {
			ss = sp("a {b\u00a02} args {c\u00a0{}} d")
		}
		gen.Seqs(ss, n, func(a []string) {
			l := strings.ReplaceAll(strings.Join(a, " "), "\u00a0", " ")
			show := "log A; "
			for _, v := range []string{"a", "b", "c", "args"} {
				if strings.Contains(l, v) {
					show += "log $" + v + "; "
				}
			}
			for _, l := range []string{"{" + l + "}", "(" + l + ")", "{" + strings.ReplaceAll(l, " ", "\n") + "}"} {
				d := "proc q " + l + " {" + show + "log Z}"
				emit(d, "q", "q 1", "q 1 2", "q 1 {2 3} 4", "q 1 2 3 4", "q 1 2 3 4 (5)", "v")
			}
		})
	}
	for _, l := range sp("a args {} \"\" () {a\u00a0args} (a\u00a0(b\u00a01)) ((b\u00a01)) $u [x] 5 $l $m") {
		l = strings.ReplaceAll(l, "\u00a0", " ")
		for _, b := range sp("{} {log\u00a0$a} x () {log\u00a0$args} {return} {break} {error\u00a0x} 5 $m") {
			b = strings.ReplaceAll(b, "\u00a0", " ")
			for _, n := range sp("q () {} \"\" 5 log set {a\u00a0b} $l") {
				n = strings.ReplaceAll(n, "\u00a0", " ")
				emit("set l (a args); set m {a {args 2}}", "proc "+n+" "+l+" "+b, n+" 1", n, n+" 1 2")
			}
		}
	}
	e.Phase("scopes")
	acts := []string{"set x 1", "set x", "incr x", "incr x 5", "incr x -1", "incr x 9223372036854775807", "set x a", "log $x", "log $nosuch", "proc f {} {set x}", "proc f {} {incr x}", "proc f {x} {incr x; log $x}", "proc f {} {proc g {} {log G; return g}; g}", "proc f {} {proc f {} {log inner}; f; f}", "f", "f 3", "g", "proc g {} {f}", "proc g {} {set x 8; f}", "proc g {x} {proc f {} {log shadowed}; if $x {g 0}}", "g 1", "set f 2; log $f", "proc set {args} {log S}", "proc h {n} {if {<= $n 0} {return 0}; + $n [h [- $n 1]]}; h 4", "proc k {n} {if {> $n 2} {error deep}; k [+ $n 1]}; k 0", "set x $x$x", "set y x; log [set $y]; incr $y", "log $$y", "proc l {args} {for {set i 0} {< $i 2} {incr i} {log $args[$i]}}; l p q", "set d (x y); log $d[1]", "set {x} 4", "set \"x y\" 5; log ${x y} [set {x y}]", "log $x(1)", "log $x{1}"}
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(acts, n, func(a []string) {
			if n == 4 && (e.Thorough && strings.Count(strings.Join(a, ";"), "proc") < 2) {
				return
			}
			emit(append(append([]string{}, a...), "log [set x]")...)
		})
	}
	// every call has a scope of its own, nested in that of its caller
	e.Phase("calls over time")
	ctxs := ln("%\nf {%}\nh {%}\nf {h {%}}\nf {f {%}}\nh {%; f {g}; set x}")
	codes := ln("proc g {} {return in#}\ng\nset x #\nset x\nproc h {a} {log H#; if 1 $a}\nincr x\nset a {g}; if 1 $a\nerror e#\nreturn r#")
	var steps []string
	for _, c := range ctxs {
		for _, o := range codes {
			steps = append(steps, strings.ReplaceAll(c, "%", o))
		}
	}
	calls := func(pick []string, n int) {
		gen.Seqs(pick, n, func(a []string) {
			st := []string{"proc f {a} {if 1 $a}", "proc h {a {y g} args} {log $y $args; if 1 $a}"}
			for i, x := range a {
				st = append(st, strings.ReplaceAll(x, "#", fmt.Sprint(i)))
			}
			emit(append(st, "g", "f {g}", "h {g} {f {g}} 3", "f {set x}", "set x")...)
		})
	}
	calls(steps, e.Pick(2, 3))
	var few []string
	for _, c := range ctxs[:4] {
		for _, o := range codes[:4] {
			few = append(few, strings.ReplaceAll(c, "%", o))
		}
	}
	calls(few, e.Pick(3, 4))
	e.Phase("recursion")
	for _, n := range sp("0 1 2 5 8") {
		for _, d := range []string{"proc fact {n} {if {<= $n 1} {return 1}; * $n [fact [- $n 1]]}; fact N", "proc fib {n} {if {<= $n 1} {return $n} else {+ [fib [- $n 1]] [fib [- $n 2]]}}; fib N", "proc sum {args} {if {== $args \"\"} {return 0}; set t 0; for {set i 0} {< $i N} {incr i} {set t [+ $t $args[$i]]}; return $t}; sum 1 2 3 4 5 6 7 8 9", "proc gcd {a b} {while {> $b 0} {set t $b; while {>= $a $b} {set a [- $a $b]}; set b $a; set a $t}; set a}; gcd 48 N", "proc even {n} {if {== $n 0} {return yes}; odd [- $n 1]}; proc odd {n} {if {== $n 0} {return no}; even [- $n 1]}; if [even N] {log even} else {log odd}", "set i 0; while 1 {if {> [incr i] N} {break}; if {== $i 2} {continue}; log $i}", "for {set i 0} {< $i N} {incr i} {for {set j 0} {< $j $i} {incr j} {if {== $j 2} {break}; if {== $i 3} {continue}; log $i $j}}"} {
			emit(strings.ReplaceAll(d, "N", n))
		}
	}
}
