package checks

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C05",
		Space: "all programs derived from a grammar of every construct that evaluates code, with constants as holes, and every subset of the holes of each program turned into a yield resumed with the constant: result and effects must be those of the program with constants, on the implementation, and every trace must be that of the model; " +
			"all schedules of 2 and 3 suspended evaluations of one interpreter (including abandoned ones) over a set of programs. State: trace of a program under a subset or schedule.",
		Assume: []string{interp},
		Enum:   enumC05,
		Eval: with(progs, map[string]func([]string) mc.Out{
			"holes": evalHoles, "sched": evalSched,
		}),
	})
}

var holeRe = regexp.MustCompile(`@([^@]*)@`)

// withYields replaces the holes of the subset by yields of their index, the
// others by their constants.
func withYields(tpl string, set uint) (src string, consts []string) {
	i := 0
	src = holeRe.ReplaceAllStringFunc(tpl, func(m string) string {
		c := m[1 : len(m)-1]
		consts = append(consts, c)
		i++
		if set>>(i-1)&1 == 1 {
			return fmt.Sprintf("[yield @%d]", i-1)
		}
		return c
	})
	return
}

func constValue(c string) core.Value {
	if strings.HasPrefix(c, "{") {
		s, _ := impl.Parse(c[1:len(c)-1], false)
		return core.NewScriptValue(*s, c[1:len(c)-1])
	}
	return core.STR(c)
}
func refConst(c string) ref.Value {
	if strings.HasPrefix(c, "{") {
		src := c[1 : len(c)-1]
		s, _ := ref.Parse(src)
		return &ref.Scr{S: s, Src: &src}
	}
	return ref.Str(c)
}

const maxResumes = 200

// runHoles drives a program on the implementation, giving back the constant of
// every yielded hole.
func runHoles(p *hd.Process, consts []string) (trace []string) {
	if c := impl.Guard(func() {
		for i := 0; ; i++ {
			r := p.Run()
			trace = append(trace, impl.CanonResult(r))
			if r.Code != core.ResultCode_YIELD || i >= maxResumes {
				return
			}
			v := core.Value(core.STR("?"))
			if s, k := r.Value.(core.StringValue); k && strings.HasPrefix(s.Value, "@") {
				if n, e := strconv.Atoi(s.Value[1:]); e == nil && n < len(consts) {
					v = constValue(consts[n])
				}
			}
			p.YieldBack(v)
		}
	}); c != "" {
		trace = append(trace, c)
	}
	return
}

func runHolesRef(p *ref.Fiber, consts []string) (trace []string) {
	for i := 0; ; i++ {
		r := p.Resume()
		trace = append(trace, r.C.String()+" "+ref.Canon(r.V))
		if r.C != ref.YIELD || i >= maxResumes {
			return
		}
		v := ref.Value(ref.Str("?"))
		if s, k := r.V.(ref.Str); k && strings.HasPrefix(string(s), "@") {
			if n, e := strconv.Atoi(string(s[1:])); e == nil && n < len(consts) {
				v = refConst(consts[n])
			}
		}
		p.In(v)
	}
}

func evalHoles(f []string) (o mc.Out) {
	setup, tpl, probe := f[0], f[1], f[2]
	n := len(holeRe.FindAllString(tpl, -1))
	base := ""
	for set := uint(0); set < 1<<n; set++ {
		src, consts := withYields(tpl, set)
		// model
		exp, expProbe, used, ok := func() (tr []string, pr string, used int, ok bool) {
			w := ref.NewWorldWith("/nonexistent", nil)
			defer w.Close()
			defer func() {
				if e := recover(); e != nil {
					if _, k := e.(ref.OutOfFuel); !k {
						panic(e)
					}
				}
			}()
			impl.EvalRef(w, setup)
			sc, msg := ref.Parse(src)
			if msg != "" {
				return []string{"syntax " + msg}, "", 0, true
			}
			tr = runHolesRef(w.Proc(sc), consts)
			pr = strings.Join(impl.EvalRef(w, probe), " | ")
			return tr, pr, w.Used(), true
		}()
		if !ok || len(exp) > maxResumes {
			o.Skip = true
			return
		}
		o.Steps += used
		o.Traces++
		o.States = append(o.States, mc.Hash(append(exp, expProbe)...))
		w := impl.NewWorld(impl.Options{})
		w.Eval(setup)
		sc, msg := impl.Parse(src, false)
		var tr []string
		if msg != "" {
			tr = []string{"syntax " + msg}
		} else {
			if c := impl.Guard(func() { tr = runHoles(w.Scope.PrepareProcess(w.Scope.Compile(*sc)), consts) }); c != "" {
				tr = append(tr, c)
			}
		}
		pr := strings.Join(w.Eval(probe), " | ")
		what := fmt.Sprintf("%q with yields %b", src, set)
		if d := diffTrace(append(exp, expProbe), append(tr, pr)); d != "" {
			o.Diff = what + ": " + d
			return
		}
		end := tr[len(tr)-1] + " / " + pr
		if set == 0 {
			base = end
		} else if end != base {
			o.Diff = what + ": the result is " + end + ", without yields it is " + base
			return
		}
	}
	return
}

// evalSched: f[0] setup, f[1] schedule (digits: evaluation to start or resume),
// f[2] probe, f[3:] programs. Every evaluation is compared with the model under
// the same schedule.
func evalSched(f []string) (o mc.Out) {
	setup, sched, probe, ps := f[0], f[1], f[2], f[3:]
	w := ref.NewWorldWith("/nonexistent", nil)
	defer w.Close()
	skip := false
	var exp []string
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, k := e.(ref.OutOfFuel); !k {
					panic(e)
				}
				skip = true
			}
		}()
		impl.EvalRef(w, setup)
		fs := make([]*ref.Fiber, len(ps))
		done := make([]bool, len(ps))
		for i, p := range ps {
			sc, _ := ref.Parse(p)
			fs[i] = w.Proc(sc)
		}
		n := 0
		for _, c := range sched {
			i := int(c - '0')
			if done[i] {
				continue
			}
			r := fs[i].Resume()
			exp = append(exp, fmt.Sprintf("%d: %s %s", i, r.C, ref.Canon(r.V)))
			done[i] = r.C != ref.YIELD
			fs[i].In(ref.Str(impl.ResumeValue(n)))
			n++
		}
		exp = append(exp, impl.EvalRef(w, probe)...)
	}()
	if skip {
		o.Skip = true
		return
	}
	o.Steps = w.Used()
	o.Traces = 1
	o.States = []uint64{mc.Hash(exp...)}
	iw := impl.NewWorld(impl.Options{})
	var got []string
	if c := impl.Guard(func() {
		iw.Eval(setup)
		fs := make([]*hd.Process, len(ps))
		done := make([]bool, len(ps))
		for i, p := range ps {
			sc, _ := impl.Parse(p, false)
			fs[i] = iw.Scope.PrepareProcess(iw.Scope.Compile(*sc))
		}
		n := 0
		for _, c := range sched {
			i := int(c - '0')
			if done[i] {
				continue
			}
			r := fs[i].Run()
			got = append(got, fmt.Sprintf("%d: %s", i, impl.CanonResult(r)))
			done[i] = r.Code != core.ResultCode_YIELD
			if !done[i] {
				fs[i].YieldBack(core.STR(impl.ResumeValue(n)))
			}
			n++
		}
		got = append(got, iw.Eval(probe)...)
	}); c != "" {
		got = append(got, c)
	}
	o.Diff = diffTrace(exp, got)
	return
}

var setup05 = newSetup(`
@ set log ""; closure T {v} {set log "$log$v "; idem $v}
l set l [list (a b c)]
d set d [dict (k v 1 w)]
n set n 0
p proc p {x} {T $x; idem <${x}>}
p2 proc p2 {x {?y def}} {T $x; return ($x $y)}
c closure c {x} {T $x; set cx $x}
m macro m {x} {T $x; idem [m2 $x]}
m2 macro m2 {x} {T "m$x"}
g proc g {x} (T {idem $x})
gm macro gm {x} ((list) {idem ($x 1)})
ns namespace ns {proc np {x} {T $x}; macro nm {x} {T n$x}}
en ensemble en {a} {proc ep {a x} {T $a; T $x}; macro em {a x} {T "$a$x"}}
e2 ensemble e2 {a b} {macro ep {a b x} {T "$a$b$x"}}
sc scope sc {proc f {x} {T s$x}}
al alias al (p)
al2 alias al2 (p2 q)
al3 alias al3 ((en))
cmd set cmd [[closure {x} {T $x}]]
o macro o {-a ?oa ?-f ?of x} {T $x; T [exists oa]}
yp proc yp {x} {T [yield @9]; idem $x}
yc closure yc {} {T [yield @9]}
`)

const grammar05 = `
prog:
 0 <st>
 1 <st>; <st>
st:
 1 T <e>
 1 set n <e>; T $n
 1 idem <e>
 1 idem (<e> <e>)
 1 idem "<es>-<es>"
 1 list (<e> <e>)
 1 if <b> {<st>} else {T 8}
 1 if {T <b>} {<st>} elseif <b> {T 7}
 1 if @false@ {T 1} elseif {T @true@} {<st>}
 1 if @false@ {T 1} else {<st>}
 1 while {[set n [+ $n @1@]] < 3} {<st>}
 1 while true {<st>; if [[set n [+ $n @1@]] >= 2] {break}; continue; T 9}
 1 when (<b> {<st>} {T 6})
 1 when {{T <b>} {<st>} {T 6}}
 1 when {T @true@; idem <cmd1>} (@true@ {<st>} {T 6})
 1 when (idem) (@false@ {T 5} (@true@) {<st>} {T 6})
 1 when (@false@ {T 5} {<st>})
 1 loop i {if $[$i >= 2] {break}; <st>}
 1 loop v [list (a b)] {T $v; <st>}
 1 loop i v [list (a b)] w [dict (k 1)] {T "$i$v"; <st>}
 1 loop v {if [[set n [+ $n 1]] > 2] {break}; <st>} {T <e>}
 1 loop v (idem @a@) {T <e>; if [[set n [+ $n @1@]] > 1] {break}}
 1 loop v {idem <e>} w {if [[set n [+ $n @1@]] > 2] {break} else {T @c@}} {T "$v$w"; if [$n > 1] {break}}
 1 catch {<st>} yield v {pass} finally {T f}
 1 catch {error <e>} error m {<st>} yield v {pass}
 1 catch {return <e>} return m {T $m; <st>} yield v {pass} finally {<st>}
 1 catch {break} break {<st>} finally {T <e>}
 1 catch {T 1; error x} error m {T <e>; pass} finally {T <e>}
 1 catch {continue} continue {<st>; pass} finally {T @z@}
 1 catch {<st>} yield v {T y; pass}
 1 p <e>
 1 p2 <e> <e>
 1 c <e>
 1 m <e>
 1 g <e>
 1 gm <e>
 1 ns np <e>
 1 ns nm <e>
 1 en <e> ep <e>
 1 en @A@ em <e>
 1 e2 <e> @B@ ep <e>
 1 [ns] eval {<st>}
 1 [en] call ep <e> <e>
 1 [ns] call np <e>
 1 al <e>
 1 al2 <e>
 1 al3 @q@ em <e>
 1 (p2 <e>) <e>
 1 ((en @a@) em) <e>
 1 $cmd <e>
 1 o -a <e> <e>
 1 eval {<st>}
 1 eval (T <e>)
 1 && @true@ {T <b>}
 1 || {T <b>} {<st>; idem @true@}
 1 ! {T <b>}
 1 && {T @true@} {T @true@} <b>
 1 proc z {x} {<st>; return $x}; z <e>
 1 proc z {x} (T {<st>; idem $x}); z <e>
 1 closure z {x} ((T) {<st>; idem $x}); z <e>
 1 macro z {x} {<st>; T <e>}; z <e>
 1 proc z ((?x <e>)) {T $x}; z
 1 macro z {(T x)} {<st>; T $x}; z <e>
 1 alias z (eval {<st>}); z; z
 1 [list (a b)] foreach v {T $v; <st>}
 1 [list (a b)] foreach i v {T $i; <st>}
 1 [dict (k v)] foreach (k v) {T $k; <st>}
 1 scope z {<st>; macro zz {} {T <e>}}; [z] eval {zz}
 1 [scope {set q <e>; <st>}] eval {T $q}
 1 namespace z {<st>; closure zz {} {T <e>}}; z zz
 1 ensemble z {x} {<st>; macro zz {x} {T $x; T <e>}}; z <e> zz
 1 <st>; |> T
 1 <st>; |> list (a) append
 1 T @1@; |> T; T ^
 1 <st>; T ^
 1 <st>; T [<st>; |> idem]
 1 p2 [<st>; |> idem] <e>
 1 T <e>; idem ^
 1 idem @x@; |> T [p <e>]
 1 idem @x@; |> p2 <e>
 1 catch {T <e>; idem z} yield v {pass}; |> T
 1 catch {error <e>} error m {T <e>; idem h} yield v {pass}; |> idem
 1 help T <e>
 1 get n <e>
 1 let (x1 x2) (<e> <e>); T "$x1$x2"
 1 [coroutine {T a; T $n}] wait; <st>
 1 set co [coroutine {T a; yield u; T b}]; $co wait; T <e>; $co wait
 1 yp <e>
 1 [yc]; <st>
 1 proc rec {x} {if [$x > 0] {T $x; rec [- $x @1@]; <st>}}; rec 2
 1 string <e> append <e>
 1 argspec (x ?y) set (<e>); T $x
 1 parse <e>
 1 idem $l[<i>]
 1 idem $d(<k>)
 1 idem $[p <e>]
 1 idem $*(<e> <e>)
 1 unset n; set n <e>; exists n
 1 return <e>
 1 error <e>
 1 if true {break}
 1 true ? <e> <e>
 1 $[idem 3] + <e2>
b:
 0 @true@
 1 @false@
e:
 0 @a@
 1 [T @b@]
 1 [idem @c@]
 1 [p @d@]
 1 "$n @s@"
es:
 0 @a@
 1 [T @b@]
 1 [p @d@]
 1 $[T @l@][idem <i>]
e2:
 0 @4@
i:
 0 @1@
k:
 0 @k@
cmd1:
 0 @idem@
`

func enumC05(e *mc.Env) {
	must(setup05.all())
	g := gen.New(grammar05)
	probe := "idem $log; list ($n [exists x] [exists cx])"
	e.Phase("holes")
	for cost := 1; cost <= e.Pick(3, 4); cost++ {
		max := 6
		if cost == 3 && !e.Thorough {
			max = 3
		}
		g.Each("prog", cost, func(t string) {
			if strings.Count(t, "@")/2 > max+strings.Count(t, "@9") {
				return
			}
			if e.Mine() {
				e.Do("holes", setup05.forText(t, probe), strings.ReplaceAll(t, "@9]", "9]"), probe)
			}
		})
	}
	e.Phase("wrapped suspensions")
	// suspensions that pass through chains of forwarding commands: W is the
	// inner command line, N a level, A the first argument of a call
	wraps := [][2]string{
		{"", "(W)"},
		{"alias aN W", "aN"}, {"alias aN (W)", "aN"}, {"alias aN ((W))", "(aN)"},
		{"ensemble eN {} {alias s (W)}", "eN s"}, {"ensemble eN {a} {alias s (W)}", "eN P s"},
		{"ensemble eN {a (int b)} {alias s (W)}", "eN P 2 s"},
		{"ensemble eN {} {alias s (W)}", "[eN] call s"}, {"ensemble eN {a} {alias s (W)}", "[eN] call s"},
		{"[list] eval {alias sN (W)}", "list (a) sN"}, {"[string] eval {alias sN (W)}", "string P sN"},
		{"[dict] eval {alias sN (W)}", "dict (a P) sN"}, {"[tuple] eval {alias sN (W)}", "tuple (P) sN"},
		{"[script] eval {alias sN (W)}", "script {P} sN"}, {"[int] eval {alias sN (W)}", "int 3 sN"},
		{"[real] eval {alias sN (W)}", "real 1.5 sN"}, {"[bool] eval {alias sN (W)}", "bool true sN"},
		{"[argspec] eval {alias sN (W)}", "argspec (a) sN"},
		{"macro mN {*args} {idem m[W $*args]}", "mN"}, {"proc pN {*args} {idem p[W $*args]}", "pN"},
		{"namespace nN {alias s (W)}", "nN s"}, {"namespace nN {alias s (W)}; [nN] import s iN", "iN"},
		{"scope cN {alias s (W)}", "cN call s"}, {"", "eval (W)"},
		{"module dN {macro s {*args} {W $*args}; export s}; [dN] import s dsN", "dsN"},
	}
	inner := []string{"yield", "Y", "T", "YY", "(yield)", "C"}
	var chain func(lvl int, set, call string)
	chain = func(lvl int, set, call string) {
		for _, use := range []string{"CALL v", "CALL", "T [CALL v]", "T \"<[CALL v]>[CALL w]\"", "catch {CALL v} yield y {T $y; pass} finally {T f}"} {
			if e.Mine() {
				e.Do("prog", "set log \"\"; closure T {*v} {set log \"$log$[list $v length]\"; idem ($v)}; macro Y {*args} {idem y[yield $args]}; macro YY {*args} {T $args; yield 1; idem [yield [yield $args]]}; macro C {*args} {catch {yield $args; error x} error m {idem $m} yield v {T $v; pass} finally {yield fin}}; "+set,
					strings.ReplaceAll(use, "CALL", call), "idem $log")
			}
		}
		if lvl == 3 {
			return
		}
		n := strconv.Itoa(lvl)
		for i, w := range wraps {
			if lvl == 2 && i%3 != 0 && !e.Thorough {
				continue
			}
			f := func(s string) string {
				return strings.ReplaceAll(strings.ReplaceAll(strings.ReplaceAll(s, "N", n), "P", "p"+n), "W", call)
			}
			st := set
			if w[0] != "" {
				if st != "" {
					st += "; "
				}
				st += f(w[0])
			}
			chain(lvl+1, st, f(w[1]))
		}
	}
	for _, c := range inner {
		chain(0, "", c)
	}
	e.Phase("schedules")
	progs := ln(`
T a; T [yield 1]; T b; T [yield 2]
idem "$[yield 1]-[yield 2]"
p [yield 1]; p2 [yield 2] [yield 3]
if {yield 1; idem true} {yield 2}
loop v [list (a b)] {T "$v[yield $v]"}
while {[set n [+ $n 1]] < 4} {T [yield w]}
en [yield 1] em [yield 2]
yp x; yp y
catch {yield 1; yield 2; idem z} yield v {pass} finally {T f}
[list (a b)] foreach v {T "$v[yield $v]"}
al [yield 1]; (p2 [yield 2]) x
when {{yield 1; idem false} {T q} {yield 2}}
&& {yield 1; idem true} {yield 2; idem true}
m [yc]; yc
[ns] eval {yield 1; np [yield 2]}
catch {yield 1; idem r} yield v {pass}; |> T; yield 2; |> T
eval {eval {T [yield 1]}; T [yield 2]}
catch {error e} error m {T "$m[yield 1]"; pass} finally {yield 2}
c [yield 1]; T $cx; c [yield 2]
loop i v {yield 1; if [$i > 0] {break}; idem $i} {T [yield $v]}
set x [yield 1]; T $x; set x [yield 2]; T $x; unset x
`)
	probe = "idem $log; list ($n [exists x] [get cx none])"
	for _, a := range progs {
		for _, b := range progs {
			each(e, []string{a, b}, 3, probe)
		}
	}
	e.Phase("schedules of three")
	sub := progs
	if !e.Thorough {
		sub = progs[:9]
	}
	for _, a := range sub {
		for _, b := range sub {
			for _, c := range sub[:e.Pick(5, 20)] {
				each(e, []string{a, b, c}, 2, probe)
			}
		}
	}
}

// each emits all interleavings where every program gets up to n turns.
func each(e *mc.Env, ps []string, n int, probe string) {
	left := make([]int, len(ps))
	for i := range left {
		left[i] = n
	}
	up := setup05.forText(append(ps, probe)...)
	var rec func(s string)
	rec = func(s string) {
		total := 0
		for i := range ps {
			if left[i] > 0 {
				total++
				left[i]--
				rec(s + strconv.Itoa(i))
				left[i]++
			}
		}
		if total == 0 {
			e.Emit("sched", append([]string{up, s, probe}, ps...)...)
		}
	}
	rec("")
}
