package checks

import (
	"fmt"
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C16",
		Space: "all histories up to a length of operations deriving a value from any earlier value (list, tuple, block, dictionary, string and script operations; conversions; packing and expansion; nested elements), every value read again after every step; " +
			"all sequences of calls of commands that retain their arguments (remainders, closures, tuples, aliases, ensembles, suspended calls) interleaved with other calls at several depths. State: all values after each step.",
		Assume: []string{interp},
		Enum:   enumC16,
		Eval:   progs,
	})
}

func enumC16(e *mc.Env) {
	// derive enumerates histories: each step derives v<k> from an earlier value
	derive := func(pre string, init int, ops []string, n int) {
		must(pre)
		var rec func(k int, steps []string)
		all := func(k int) string {
			s := "tuple ("
			for i := 0; i < k; i++ {
				s += fmt.Sprintf("$v%d ", i)
			}
			return s + ")"
		}
		rec = func(k int, steps []string) {
			if k == init+n {
				if e.Mine() {
					e.Do("prog", append([]string{pre}, steps...)...)
				}
				return
			}
			for _, op := range ops {
				for x := 0; x < k; x++ {
					if !strings.Contains(op, "@") && x > 0 {
						break
					}
					t := strings.ReplaceAll(op, "@", fmt.Sprintf("v%d", x))
					t = strings.ReplaceAll(t, "#", fmt.Sprint(k))
					rec(k+1, append(steps[:len(steps):len(steps)], fmt.Sprintf("set v%d idle; set v%d [%s]; %s", k, k, t, all(k+1))))
				}
			}
		}
		rec(init, nil)
	}
	e.Phase("lists")
	derive("set v0 [list (c a b)]; set v1 {p q}", 2, ln(`
list $@ append (n#)
list $@ append $v0
list $@ append (x#) $@ {y z}
list $@ range 0 1
list $@ range 1
list $@ remove 0 0
list $@ remove 1 1
list $@ insert 1 (i#)
list $@ replace 0 0 (r#)
list $@ replace 1 9 (r# s#)
list $@ sort
list $@
tuple $@
list (e# $*@ f#)
tuple ($*@)
list $@ foreach e {idem $e}
`), e.Pick(3, 4))
	derive("set v0 (c a b); closure f {*args} {idem $args}; proc g {x *args} {list $args append (g)}", 1, ln(`
list $@ append (n#)
list $@ remove 0 0
list $@ remove 9
list $@ range 0 99
list $@ insert 0 ()
list $@ sort
f $*@
f $*@ t#
g $*@ t#
tuple ($*@ t#)
list ($*@)
idem $@[0]
scope {let (l *) (1 2); idem [list $@]}
`), e.Pick(3, 4))
	e.Phase("dictionaries")
	derive("set v0 [dict (k v l w)]; set v1 (m n k o)", 2, ln(`
dict $@
dict $@ add k n#
dict $@ add z# 1
dict $@ remove k
dict $@ remove l m
dict $@ merge $v0
dict $@ merge (q# r) $v1
dict $@ get k none
dict ($*@ y# 2)
dict (k $@)
list (k $@ 3 4)
list $@ append (e# f)
dict $@ foreach (a b) {idem 1}
scope {let d $@; dict [dict $d add z 1] merge $d}
`), e.Pick(3, 4))
	e.Phase("nested values")
	derive("set v0 [list ((a b) (c d))]; set v1 [dict (k (e f))]", 2, ln(`
list $@ append ($v0)
list $@ append $@
idem $@[0]
list $@[0] append (x#)
list $@[0] sort
list $@[1] remove 0 0
list $@ replace 0 0 ($@)
dict $@ add k $v1
dict (k $@)
idem $@(k)
list $@(k) append (y#)
tuple ($@ $@)
list ($@[0] $@[1])
loop i e [list $v0] {idem [list ($e $i)]}
`), e.Pick(3, 4))
	e.Phase("scripts and strings")
	derive("set v0 {a b; c $x}; set v1 [parse \"d e\\nf\"]; set v2 abc", 3, ln(`
script $@
script $@ append {n#}
script $@ append $v0 $v1
script $@ split
list [script $@ split] at 0
parse [script $@ string]
list $@
list $@ append (x)
list $@ remove 0 0
tuple $@
tuple ($@ $@)
string $@ append z
string $@ remove 0 0
string $@ replace 0 0 y
script [script $@] append {}
closure {} $@
catch {eval $@} error e {idem $e}
`), e.Pick(2, 3))
	// command values keep denoting the command they were made from while names
	// are redefined
	e.Phase("command values")
	use := "tuple ("
	for _, u := range ln("[$%] 1\n$% 1\n$% 1 k\n$% call k 1\n$% call 1\n$% eval {k 2}\n$% argspec\n$% k 3\n$% wait\n$% exports\n[$%] k 4\n$% command") {
		use += "[catch {" + u + "} return r {idem $r} yield y {idem $y} error e {idem $e}] "
	}
	use += ")"
	defs := ln(`
proc f {a} {idem "p#$a"}
closure f {a} {idem "c#$a"}
macro f {a} {idem "m#$a"}
proc f {b} {idem "q#$b"}
closure f {b} {idem "d#$b"}
macro f {b ?c} {idem "w#$b"}
proc f {} {idem "p#"}
proc f {a} (idem {idem "g#$a"})
alias f (idem "a#")
alias f k
alias f $v0
scope f {closure k {a} {idem "s#$a"}}
namespace f {closure k {a} {idem "n#$a"}}
ensemble f {x} {closure k {x} {idem "e#$x"}}
ensemble f {} {closure k {} {idem "h#"}}
module f {closure k {a} {idem "o#$a"}; export k}
module {closure k {a} {idem "t#$a"}; export k}
coroutine {yield "y#"; idem "z#"}
proc {a} {idem "u#$a"}
f
[f]
[f] eval {closure k {a} {idem "v#$a"}}
f eval {closure k {a} {idem "x#$a"}}
[f] import k f
f import k f
closure k {*a} {idem "k#"}
idem [[f]]
`)
	gen.Seqs(defs, 2, func(d []string) {
		for _, third := range defs[:e.Pick(10, len(defs))] {
			if !e.Mine() {
				continue
			}
			steps := []string{"closure k {*a} {idem k}; closure f {*a} {idem f0}; set v0 [closure {*a} {idem v0}]"}
			for i, x := range append(append([]string{}, d...), third) {
				v := fmt.Sprintf("v%d", i+1)
				steps = append(steps, "set "+v+" none; set "+v+" ["+strings.ReplaceAll(x, "#", fmt.Sprint(i+1))+"]")
				for j := 0; j <= i+1; j++ {
					steps = append(steps, strings.ReplaceAll(use, "%", fmt.Sprintf("v%d", j)))
				}
			}
			e.Do("prog", steps...)
		}
	})
	e.Phase("retained arguments")
	pre := lib.forText("T") + `; closure keep {*args} {idem $args}; macro mk {*args} {idem $args}; proc pk {a *args b} {tuple ($a $args $b)}; closure idc {a b} {tuple ($a $b)}
ensemble en {a b} {closure sub {a b *r} {tuple ($a $b $r)}; closure y {a b *r} {yield $r; tuple ($a $b $r)}}
ensemble e2 {x} {ensemble in {x y} {closure sub {x y *r} {tuple ($x $y $r)}}; closure two {x *r} {en $x two sub $*r}}
alias ak (keep al1 al2); alias ae (en a1 a2 sub); set tk (keep t1 t2); set te (en t1 t2); closure cur {*args} {idem [tuple (keep $*args)]}
closure mkf {*args} {closure {*more} {tuple ($args $more)}}; closure deep {n *args} {if [$n > 0] {tuple ($n [deep [int [$n - 1]] $n $*args] $args)} else {idem $args}}
alias idal idem; namespace ns {closure k {*args} {idem $args}; ensemble en {q} {closure s {q *r} {tuple ($q $r)}}}`
	must(pre)
	calls := ln(`
keep p# q#
mk p# q# r#
pk p# q# r# s#
en p# q# sub r# s#
en p# [keep q# r#] sub [keep s#]
e2 p# in q# sub r#
e2 p# two r#
e2 p#
en p# q#
ak p#
ae p# q#
$tk p#
$te sub p#
[cur p# q#] r#
[mkf p# q#] r# s#
deep 3 p#
deep 20 p# q#
ns k p# q#
ns en p# s q#
tuple (p# (q# [tuple (r#)]) $*v0)
keep $*v0
en $*v0 z#
idal [keep p#]
[list (p# q#)]
$[mkf p#] call q#
eval {keep p# [eval {keep q#}]}
tuple [keep $[keep p#] $(keep)(q#)]
list ($[keep p#] "$[keep q#]" [keep r#])
[coroutine {keep [yield 1] p#}] wait
set c [coroutine {en p# q# y r#}]; tuple ($c [$c wait])
set c [coroutine {keep p# [yield [keep q#]] r#}]; tuple ($c [$c wait])
keep a b c d e f g h i j k l m n o p#
ns k [ns k p#] [ns k q#]
idc $(p# q#)
keep ($*v0 p#) $*[keep q# $*v0]
`)
	calls = dedup(calls)
	k := 0
	name := func(i int) string { return fmt.Sprintf("v%d", i) }
	one := func(i int, c string) string {
		return "set " + name(i) + " [" + strings.ReplaceAll(c, "#", fmt.Sprint(i)) + "]"
	}
	resume := "if [exists c] {if [$c active] {set r$c1 [$c wait]} else {idem done}} else {idem none}"
	resume = "if [exists c] {catch {$c wait} error e {idem $e}} else {idem none}"
	seq := func(cs ...string) {
		k++
		if !e.Mine() {
			return
		}
		steps := []string{pre, "set v0 (i0 (j0 k0))"}
		show := "tuple ($v0"
		for i, c := range cs {
			show += " $" + name(i+1)
			steps = append(steps, one(i+1, c), show+")")
		}
		steps = append(steps, resume, show+")", resume, show+")")
		e.Do("prog", steps...)
	}
	gen.Seqs(calls, 2, func(s []string) { seq(s...) })
	if e.Thorough {
		gen.Seqs(calls, 3, func(s []string) { seq(s...) })
	} else {
		gen.Product(func(s []string) { seq(s...) }, calls, calls[:12], calls[12:26])
	}
	// the same within one sentence, where frames share one operand stack
	gen.Seqs(calls, 2, func(s []string) {
		if e.Mine() {
			a, b := strings.ReplaceAll(s[0], "#", "1"), strings.ReplaceAll(s[1], "#", "2")
			if strings.Contains(a, ";") || strings.Contains(b, ";") {
				a, b = "eval {"+a+"}", "eval {"+b+"}"
			}
			e.Do("progb", pre, "set v0 (i0 (j0 k0))",
				"set w (["+a+"] x ["+b+"] y ["+a+"]); idem $w",
				"tuple ($w $v0)",
				"set u [keep ["+a+"] $*["+b+"] z $*v0 ["+a+"]]; tuple ($u $w)",
				"loop i {if [$i > 2] {break}; set z$i ["+a+"]; set y$i ["+b+"]}; tuple ($z0 $z1 $z2 $y0 $y1 $y2 $w $u)",
				"proc pr {} {let l ["+b+"]; let m ["+strings.ReplaceAll(a, "$", "$")+"]; tuple ($l $m)}; catch {pr} error e {idem $e}", "tuple ($w $u $z0)")
		}
	})
}

func dedup(a []string) (b []string) {
	seen := map[string]bool{}
	for _, s := range a {
		if !seen[s] {
			seen[s] = true
			b = append(b, s)
		}
	}
	return
}
