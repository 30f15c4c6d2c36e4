package checks

import (
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C20",
		Space: "all sequences of operations (wait, yield with and without value, and status queries after each) up to a length on one coroutine with every body, and on two coroutines with every pair of bodies, including bodies that drive, query or create other coroutines or themselves, suspend inside every construct, or end with every result code; " +
			"drivers inside other constructs, suspended themselves in the middle of driving. State: log, status of each coroutine and outcome after every step.",
		Assume: []string{interp},
		Enum:   enumC20,
		Eval:   progs,
	})
}

var coBodies = ln(`
{}
{idem r}
{T 1}
{yield a}
{T 1; set x [yield a]; T "x$x"; set x [yield b]; T "y$x"; idem end}
{idem [yield [yield a]]}
{return r}
{error e}
{break}
{continue}
{pass}
{yield a; error e}
{yield a; break}
{yield a; continue}
{yield a; return r; T no}
{yield a; pass}
{yield}
{T [yield (a b)]}
{loop i v [list (u v w)] {T "$i[yield $v]"}}
{while true {set r [yield w]; T "$r"; if [string $r == stop] {break}}}
{list (p q) foreach v {yield $v; T $v}}
{if [yield t] {T yes} else {T no}}
{if {yield t; idem true} {yield yes; T b}}
{when {yield c; idem idem} {true {yield w; T v}}}
{&& {yield t; T true} {yield u; T false}}
{catch {yield a; T in} yield v {T "h$v"; pass} finally {T f}}
{catch {error e} error m {yield $m; T h} finally {yield f; T g}}
{proc p {} {T in; T [yield a]; return out}; p; yield b}
{closure p {} {T [yield a]; idem out}; T [p]}
{macro p {} {T [yield a]}; p}
{let l [yield a]; T $l; yield $l; T $l}
{set g [yield a]; T $g}
{scope {yield a; T s}}
{namespace {yield a; T s}}
{ensemble en {x} {closure s {x} {T [yield $x]}}; en k s; en [yield b] s}
{alias al yield; al a; T [al b]}
{tuple ([yield a] [yield b] "[yield c]" $[yield d])}
{eval {yield a; eval {yield b; T c}}}
{T [exists l2]; let l2 1; yield; T $l2}
{yield a; yield b; yield c; yield d}
{yield [error e]}
{set k [coroutine {yield in; T in2}]; yield [$k wait]; T [$k wait]; yield [$k done]}
{[coroutine {T in}] wait; yield a}
{list (b a) sort [[closure {a b} {yield z; idem 1}]]}
{undefined}
{yield a b}
{tuple ([yield a] [error e])}
{T 1; yield [T 2] ; T 3
yield [T 4]
T 5}
{proc p {n} {if [$n > 0] {yield $n; p [int [$n - 1]]} else {idem deep}}; p 3}
{catch {yield a}}
{catch {yield a; T x} finally {T y}}
`)

func enumC20(e *mc.Env) {
	must(lib.all())
	pre := lib.forText("T")
	q1 := "; list ($r [$c1 active] [$c1 done])"
	q2 := "; list ($r [$c1 active] [$c1 done] [$c2 active] [$c2 done])"
	tries := func(op string) string {
		return "catch {" + op + "} return v {set r ($v re)} error m {set r ($m er)} yield v {set r ($v yi)} break {set r br} continue {set r co}"
	}
	_ = tries
	ops := ln("$c1 wait\n$c1 yield v\n$c1 yield")
	step := func(op, q string) []string {
		return []string{"set r [" + op + "]" + q, "set r none" + q}
	}
	e.Phase("one coroutine")
	for n := 1; n <= e.Pick(5, 7); n++ {
		gen.Seqs(ops, n, func(s []string) {
			for _, b := range coBodies {
				if e.Mine() {
					st := []string{pre, "set c1 [coroutine " + b + "]; set r new" + q1}
					for _, o := range s {
						st = append(st, step(o, q1)[0])
					}
					e.Do("prog", append(st, "set r end"+q1, "idem $log")...)
				}
			}
		})
	}
	e.Phase("calls")
	// every spelling of a call, in every state
	calls := ln("$c1\n$c1 wait x\n$c1 yield a b\n$c1 active x\n$c1 done x\n$c1 foo\n$c1 ()\n$c1 subcommands\n$c1 subcommands x\nhelp $c1\nhelp $c1 wait\n[$c1] wait\n$c1 yield ()\n$c1 yield [$c1 done]\n$c1 yield [$c1 yield q]\nidem [$c1 wait] [$c1 wait]\ntuple ([$c1 wait] [$c1 yield u])\n$c1 wait; $c1 wait\nalias w ($c1 wait); w; w\n($c1 yield) z\nset d $c1; $d wait; $c1 active\n[coroutine] wait\ncoroutine {} {}\ncoroutine x\ncoroutine ()\ncoroutine {error}; idem ok\n$c1 (wait)\n$c1 [idem wait]\nif [$c1 done] {T d} else {$c1 wait}")
	for _, b := range coBodies {
		for _, before := range []string{"idem 0", "$c1 wait", "$c1 wait; $c1 wait", "$c1 wait; $c1 yield v; $c1 wait", "catch {$c1 wait}; catch {$c1 wait}; catch {$c1 wait}; catch {$c1 wait}; catch {$c1 wait}"} {
			for _, c := range calls {
				if e.Mine() {
					e.Do("progb", pre, "set c1 [coroutine "+b+"]; set r 0; idem 0", before, c, "set r 1"+q1, "$c1 wait", "set r 1"+q1, "idem $log")
				}
			}
		}
	}
	e.Phase("two coroutines")
	inter := ln(`
{$c1 wait}
{$c2 wait}
{yield [$c2 wait]; T [$c2 wait]; $c2 wait}
{yield [$c1 wait]; T [$c1 wait]; $c1 wait}
{$c2 yield z; yield [$c2 active]}
{$c1 yield z; yield [$c1 active]}
{T [$c1 active]; T [$c1 done]; yield [$c1 active]; T [$c2 done]; $c2 wait}
{$c2 wait; yield a; $c2 yield b; T z}
{catch {$c2 wait} error m {T "$m"}; yield m; catch {$c2 yield} error m {T "$m"}; $c2 done}
{catch {$c1 wait} error m {T "$m"}; yield m; catch {$c1 yield} error m {T "$m"}; $c1 done}
{loop i {if [$c2 done] {break}; yield [$c2 wait]; if [$i > 4] {break}}}
{yield [$c2 yield [yield p]]}
{tuple ([yield a] [$c2 wait] [yield b] [$c2 wait])}
{set c1 [coroutine {yield n1; T n2}]; yield o1; T o2}
{set c2 [coroutine {yield n1; T n2}]; yield o1; T o2}
{T 1; set x [yield a]; T "x$x"; set x [yield b]; T "y$x"; idem end}
{yield a; error e}
{yield a; break}
{idem r}
{proc p {} {T [yield a]; return [$c2 wait]}; p; p}
`)
	ops2 := ln("$c1 wait\n$c2 wait\n$c1 yield v\n$c2 yield w")
	gen.Product(func(b []string) {
		for n := e.Pick(4, 5); n <= e.Pick(4, 6); n++ {
			gen.Seqs(ops2, n, func(s []string) {
				if e.Mine() {
					st := []string{pre, "set c1 [coroutine " + b[0] + "]; set c2 [coroutine " + b[1] + "]; set r new" + q2}
					for _, o := range s {
						st = append(st, "set r ["+o+"]"+q2)
					}
					e.Do("prog", append(st, "set r end"+q2, "idem $log")...)
				}
			})
		}
	}, inter, inter)
	if !e.Thorough {
		gen.Product(func(b []string) {
			gen.Seqs(ops2[:2], 4, func(s []string) {
				if e.Mine() {
					st := []string{pre, "set c1 [coroutine " + b[0] + "]; set c2 [coroutine " + b[1] + "]; set r new" + q2}
					for _, o := range s {
						st = append(st, "set r ["+o+"]"+q2)
					}
					e.Do("prog", append(st, "set r end"+q2, "idem $log")...)
				}
			})
		}, coBodies, coBodies)
	}
	e.Phase("drivers")
	// driving from inside other constructs, suspended in between
	drivers := ln(`
loop i {if [$c1 done] {break}; T "[$c1 wait]"; if [$i > 5] {break}}
loop v {if [$c1 done] {break}; $c1 wait} {T "$v"}
loop i v {if [$c1 done] {break}; $c1 wait} w {if [$c2 done] {break}; $c2 wait} {T "$i$v$w"}
while {! [$c1 done]} {T [$c1 wait]; yield [$c2 wait]}
tuple ([$c1 wait] [yield t] [$c2 wait] [yield u] [$c1 wait] [$c2 yield k])
proc q {} {yield [$c1 wait]; T [$c2 wait]; yield [$c1 wait]; return [$c2 done]}; q
closure q {} {T [yield [$c1 wait]]; T [$c1 yield [yield z]]}; q
catch {$c1 wait; $c1 wait; $c1 wait; $c1 wait; $c1 wait} error m {T "$m"}
catch {$c1 wait; yield y; $c1 wait} yield v {T "$v"; pass} finally {$c1 wait}
[coroutine {yield [$c1 wait]; $c2 wait}] wait; $c1 wait; $c2 wait
set c3 [coroutine {yield [$c1 wait]; yield [$c2 wait]; $c1 wait}]; T "[$c3 wait]"; T "[$c1 wait]"; T "[$c3 wait]"; T "[$c2 wait]"; $c3 wait
list (1 2 3) foreach i {yield [$c1 wait]; T [$c2 done]; $c2 yield $i}
scope {$c1 wait; T a; yield [$c1 wait]}
if [$c1 done] {T 1} elseif [$c1 active] {T 2} else {$c1 wait}; $c1 yield [$c1 yield 2]
eval {$c1 wait; eval {yield [$c1 wait]}; $c1 wait}
namespace ns {proc k {} {idem z}; set c1 [coroutine {T [k]; yield [k]; T [k]}]; [coroutine {yield 1}] wait}; $c1 wait; idem $[namespace {set z 1}](z)
set ks [list ($c1 $c2 $c1)]; loop k $ks {T "[$k wait]"}
`)
	gen.Product(func(b []string) {
		if e.Mine() {
			e.Do("progb", pre, "set c1 [coroutine "+b[1]+"]; set c2 [coroutine "+b[2]+"]; set r 0; idem 0", b[0], "set r end"+q2, "$c1 wait", "$c2 yield z", "set r end"+q2, "idem $log")
		}
	}, drivers, coBodies, append(inter[2:9:9], coBodies[:8]...))
	e.Phase("scopes")
	// where bodies run: locals of the creating scope, redefinition, lifetime
	for _, mk := range ln(`
proc mk {x} {coroutine {T "$x"; set x [yield $x]; T $x; yield [exists y]; idem $x}}
closure mk {x} {coroutine {T "$x"; yield $x; T [exists y]; idem $x}}
macro mk {x} {coroutine {T [exists x]; yield [get x -]; T [exists y]}}
closure mk {x} {let l "l$x"; coroutine {T "$l"; let m 1; yield $l; T [exists m]; T $m}}
proc mk {x} {closure k {} {T "k$x"; yield $x}; coroutine {k; k; idem e}}
closure mk {x} {coroutine {proc pp {} {idem $x}; closure cc {} {idem $x}; yield [cc]; pp}}
proc mk {x} {set y 5; coroutine {unset y; yield $x; T [exists y]; set y 2}}
closure mk {x} {set c [coroutine {yield $x; T [exists x]; idem $x}]; $c wait; idem $c}
proc mk {x} {[coroutine {return [coroutine {yield $x; T "in$x"}]}] wait}
closure mk {x} {loop i v (a b) {if [$i == 1] {return [coroutine {T "$i$v$x"; yield $v; T "$i"}]}}}
closure mk {x} {list (p q) foreach e {break}; coroutine {T [exists e]; yield $x}}
closure mk {x} {catch {error "m$x"} error m {return [coroutine {T "$m"; yield $m; T "$m"}]}}
`) {
		gen.Seqs([]string{"$a wait", "$b wait", "set x g; set y h; $a wait", "$b yield q", "set a [mk 3]; idem 0", "proc z {} {$a wait}; z"}, e.Pick(4, 5), func(s []string) {
			if e.Mine() {
				e.Do("prog", append(append([]string{pre + "; " + mk + "; set a [mk 1]; set b [mk 2]; set y 0; idem 0"}, s...), "list ([$a done] [$b done] [exists x] [exists l] [get y -])", "idem $log")...)
			}
		})
	}
	_ = strings.Join
}
