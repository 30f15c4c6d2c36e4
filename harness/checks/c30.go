package checks

import (
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C30",
		Space: "all scripts of up to N sentences over calls, variables, blocks, comments, blank and empty sentences, result codes and suspensions, obtained by writing, parsing, splitting and appending in every grouping, or from tuples; " +
			"all histories up to a length of uses of one script value in all roles (evaluation, bodies of every kind of definition, conditions, sources of loops, lists, tuples, dictionaries, argument specifications, cases, handlers, operations on scripts) in several scopes; all histories of appends sharing pieces. State: log, root names and outcome.",
		Assume: []string{interp},
		Enum:   enumC30,
		Eval:   progs,
	})
}

func enumC30(e *mc.Env) {
	pre := lib.forText("T") + "; set a 1; set b (p q)"
	must(pre)
	emit := func(kind string, steps ...string) {
		if e.Mine() {
			e.Do(kind, append(append([]string{pre}, steps...), "idem $log")...)
		}
	}
	sents := []string{"T 1", "idem $a", "set a 2", "idem [T 2]", "return [T r]", "T $*b", "error e", "yield y", "idem {T 3}", "", " ", "# c", "#{c}# ", "a b c", "idem ^", "|> idem", "T \"s$a\"", "1", "[T c]", "$a", "break", "(x y)", "idem #{z}# k", "T \\\n 4"}
	seps := []string{";", "\n", ";;", " ; ", "\n\n"}
	uses := []string{"eval S", "script S length", "list S", "tuple S", "idem [idem S]", "closure f {} S; f; f", "list [script S split] length", "eval [script S append]", "eval [script S append S]; script [script S append S] length", "set q [script S split]; list $q foreach x {T <; catch {eval $x} error m {T $m} yield v {T $v} return v {T R} break {T B}; T >}", "set q [script S split]; catch {eval [script {} append $*$q]} error m {T $m}; script [script {} append $*$q] length", "set q [script S split]; list $q foreach x {T [script $x length]; list $x}", "eval [script (T t) append S (T u)]", "argspec S", "dict S", "list S foreach w {T \"$w\"}", "set q [list [script S split] range 1]; script [script {T h} append $*$q] length; eval [script {T h} append $*$q]"}
	e.Phase("scripts")
	quote := func(t string) string { return "\"\"\"\"" + t + "\n\"\"\"\"" }
	for n := 0; n <= e.Pick(2, 3); n++ {
		gen.Seqs(sents, n, func(s []string) {
			for k, sep := range seps {
				if n < 2 && k > 0 || n == 3 && k > 1 {
					continue
				}
				t := strings.Join(s, sep)
				if strings.Contains(t, "# c;") || strings.HasSuffix(t, "# c") {
					t += "\n"
				}
				for _, u := range uses {
					if n == 3 && strings.Contains(u, "append S") {
						continue
					}
					emit("prog", strings.ReplaceAll(u, "S", "{"+t+"}"))
					emit("prog", "set s [parse "+quote(t)+"]; idem 0", strings.ReplaceAll(u, "S", "$s"), strings.ReplaceAll(u, "S", "$s"))
				}
			}
		})
	}
	if !e.Thorough {
		gen.Seqs(sents[:12], 3, func(s []string) {
			t := strings.Join(s, ";")
			t = strings.ReplaceAll(t, "# c", "#{c}#")
			for _, u := range []string{uses[0], uses[1], uses[9], uses[10], uses[16]} {
				emit("prog", "set s {"+t+"}; idem 0", strings.ReplaceAll(u, "S", "$s"), strings.ReplaceAll(u, "S", "$s"))
			}
		})
	}
	e.Phase("texts")
	raw := []string{"a", "T 1", "{", "}", "\"", "[", "]", "(", ")", "#", "$", "\\", ";", "\n", " ", "x"}
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(raw, n, func(s []string) {
			t := strings.Join(s, "")
			if strings.Contains(t, "\"\"\"\"") {
				return
			}
			emit("prog", "set s [parse \"\"\"\"\"\" "+t+" \"\"\"\"\"\"]; script $s length", "eval $s", "list $s", "eval $s", "script [script $s append $s] length")
		})
	}
	e.Phase("roles")
	values := ln(`{T 1; idem $a}
{T $x}
{set x [T 2]; idem $x}
{let y 1; T $y}
{a b c}
{x y}
{(x 1) (y 2)}
{y 2}
{yield k; T after}
{error e}
{return [T r]}
{break}
{true}
{idem false}
{}
{?x}
{T 1
T 2}
{closure h {} {T h}; h}
{{T 1} {T 2} {T 3}}
{{T true} {T 2}}
(T 1)
(T $a)
()
[parse "T \$a; idem [T p]"]
[script {T 1} append {T 2} (T 3)]
[script (T 1) append]
[script {} append {idem x}]
{T [exists x]; set x 5}
{$*b}
{[T e] $a}
{^}
{closure x {} {idem xx}; x}`)
	roles := ln(`eval $s
set f [closure {} $s]; [$f]
closure f {x} $s; f 10
closure f {y} $s; f 11
macro f {x} $s; f 12
macro f {y ?x} $s; f 13
proc f {x} $s; f 14
proc f {y x} $s; f 15 16
scope f $s; f eval $s
namespace f $s; [f] eval $s
ensemble f {} $s; [f] eval $s
[coroutine $s] wait
set c [coroutine $s]; tuple ([$c wait] [$c done]); catch {$c wait}
if $s {idem T} else {idem F}
if true $s
while $s {break}
loop i {if [$i == 2] {break}; eval $s}
loop i {if [$i == 2] {break}; T $i; if true $s}
loop x [list (1 2)] $s
loop (x y) [list ((1 2))] $s
loop x $s {T "l$x"; break}
loop x [list $s] {T "l$x"}
catch $s error x {T "E$x"} return x {T R} break {T B} yield x {T Y; pass}
catch {error z} error x $s
catch {idem z} finally $s
when $s
when {$s {idem c}}
when true $s
&& $s true
|| $s false
! $s
list $s
tuple $s
dict $s
list $s foreach x {T "f$x"}
list (1 2) foreach x $s
list (2 1) sort $s
argspec $s
proc g $s {idem [exists x]}; g 1
script $s length
list [script $s split] length
set s2 [script $s append {T app}]; eval $s2
eval [script $s append $s]
alias f (eval $s); f
$s
idem $s
string $s
[$s]
set s [list $s]
module $s
[argspec $s] set (5)
dict $s size; dict $s get T -; dict $s has x
proc f {(?x $s)} {T $x}; f
proc f {($s x)} {T $x}; f 1
eval {set x 9; eval $s}
closure f {x} {eval $s}; f 7; f 8
proc f {s x} {eval $s}; f $s 6
macro f {x} {if true $s}; f 7; f 8`)
	states := []string{"idem 0", "set x 0"}
	tail := []string{"catch {get x}", "eval $s"}
	for _, v := range values {
		for _, st := range states {
			gen.Seqs(roles, 1, func(r []string) {
				for _, t := range roles {
					emit("prog", append([]string{st + "; set s " + v + "; idem 0", r[0], t}, tail...)...)
				}
				emit("progb", append([]string{st + "; set s " + v + "; idem 0", r[0], r[0], r[0]}, tail...)...)
				emit("prog", st, strings.ReplaceAll(r[0], "$s", v), "macro once {} {set s "+v+"; "+r[0]+"}; idem 0", "catch {once} error m {T $m}", "set x 3", "catch {once} error m {T $m}", "proc twice {x} {set s "+v+"; "+r[0]+"}; catch {twice 1} error m {T $m}", "twice 2")
			})
		}
	}
	few := []int{0, 2, 4, 6, 8, 13, 18, 20, 23, 31, 34, 37, 41, 42, 43, 55}
	var fr []string
	for _, k := range few {
		fr = append(fr, roles[k])
	}
	for _, v := range values {
		if !e.Thorough && strings.Contains(v, "{{T") {
			continue
		}
		gen.Seqs(fr, 3, func(r []string) {
			emit("prog", append([]string{"set s " + v + "; idem 0"}, append(append([]string{}, r...), tail...)...)...)
		})
	}
	e.Phase("histories of appends")
	ops := ln(`
set s1 [script $s1 append {T b}]
set s2 [script $s1 append {T c}]
set s3 [script $s1 append {T d}]
set s1 [script $s2 append $s3]
set s2 [script {T e} append $s2 (T f)]
set s3 [list [script $s2 split] at 0]
set s1 [script {} append $*[script $s2 split]]
eval $s1
eval $s2
set s2 (T g)
closure k {} $s1; k
list $s1
set s3 [script {} append $s3]
set s1 [script $s3 append]
`)
	shows := []string{"catch {eval $s1}", "catch {eval $s2}", "catch {eval $s3}", "tuple ([script $s1 length] [script $s2 length] [script $s3 length])"}
	for _, init := range []string{"{T a}", "{T a; T a2; T a3}", "{}"} {
		for n := 1; n <= e.Pick(4, 5); n++ {
			gen.Seqs(ops, n, func(h []string) {
				if n == 4 && init != "{T a; T a2; T a3}" && !e.Thorough {
					return
				}
				emit("prog", append(append([]string{"set s1 " + init + "; set s2 {T s2}; set s3 " + init + "; idem 0"}, strings.Join(h, "; ")), shows...)...)
			})
		}
	}
}
