package checks

import (
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C21",
		Space: "all ensembles with up to three arguments (plain, guarded, malformed) over subcommands of every kind (closures, procedures, macros, aliases, ensembles, namespaces, built-in commands), called with every argument list up to a length, directly and through metacommands, tuples, aliases, procedures and coroutines; " +
			"all histories up to a length of extensions, redefinitions, queries and calls; guards and subcommands with effects, failures, suspension and every result code. State: log and outcome after each step.",
		Assume: []string{interp},
		Enum:   enumC21,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID: "C22",
		Space: "all histories up to a length of definitions inside and outside, extensions, calls, imports (own, other and existing names), key selections and removals over two namespaces, nested or not, with homonymous commands and variables everywhere; every command and variable probed in every scope at the end; " +
			"bodies and commands of every kind and result code. State: log, root names and outcome after each step.",
		Assume: []string{interp},
		Enum:   enumC22,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID: "C23",
		Space: "all nestings to depth three of aliases, tuples, command values and closures standing for the beginning of a sentence, over commands of every kind and argument lists, compared with the plain sentence, in every context (statement, argument, condition, comparator, guard, coroutine); all histories of redefinition of the aliased names; calls from other scopes. " +
			"State: log and outcome. The equality with the plain sentence is checked on the implementation itself, in addition to the model.",
		Assume: []string{interp},
		Enum:   enumC23,
		Eval: with(progs, map[string]func([]string) mc.Out{
			"same": evalSame,
		}),
	})
}

func enumC21(e *mc.Env) {
	pre := lib.forText("T")
	must(pre)
	hist := func(kind string, steps ...string) {
		if e.Mine() {
			e.Do(kind, append(append([]string{pre}, steps...), "idem $log")...)
		}
	}
	subs := `{
closure c {*args} {T cl; tuple ($args [exists loc] [get gx -])}
proc p {*args} {T pr; tuple ($args [exists loc] [get gx -])}
macro m {*args} {T ma; tuple ($args [exists loc] [get gx -])}
closure one {a} {T one; idem "o$a"}
closure two {a b} {T two; tuple ($a $b)}
closure y {*args} {T [yield $args]; idem yd}
closure er {*args} {error $args}
closure re {*args} {return $args}
closure br {*args} {break}
closure co {*args} {continue}
closure pa {*args} {pass}
closure st {*args} {set gx $args; let k 1; closure newc {} {idem 1}}
macro mst {*args} {set gx $args; closure newc {} {idem 2}}
alias al c
alias ali idem
alias alt (two x)
ensemble en {x y} {closure s {x y *r} {T s; tuple ($x $y $r)}}
ensemble e0 {} {closure s {*r} {T s0; tuple $r}}
namespace ns {closure s {*r} {T ns; tuple $r}}
let subconst 5
set subvar 6
}`
	subNames := ln("c\np\nm\none\ntwo\ny\ner\nre\nbr\nco\npa\nst\nmst\nal\nali\nalt\nen\ne0\nns\nsubcommands\nunknown\nT\n()\nsubvar")
	e.Phase("calls")
	specs := ln("\na\na b\na b c\n(int a)\na (int b)\n((T) a)\n(wrap a) (T b)\n(error a)\n((yield) a)\n((break) a)\n([list (tuple 1)] a)\n(list a)\n(undefd a)\n((return) a)\n((loc) a)")
	for _, s := range specs {
		n := strings.Count(s, "a")
		switch {
		case s == "":
			n = 0
		case strings.HasSuffix(s, "c"):
			n = 3
		case strings.HasSuffix(s, "b") || strings.HasSuffix(s, "b)"):
			n = 2
		default:
			n = 1
		}
		def := "ensemble ens (" + s + ") " + subs
		def = "closure wrap {v} {T w; idem \"<${v}>\"}; closure loc {v} {tuple (loc $v [exists gx])}; " + def + "; set gx g; idem 0"
		// all word lists: ensemble arguments, subcommand, arguments
		args := [][]string{{""}, {"5", "x"}, {"5 6", "x 6", "5 x"}, {"5 6 7", "x y z"}}[n]
		tails := ln("\n1\n1 2\n1 2 3\n() (q r)\n[T z] [yield k]\ns\ns 1\n1 s\n1 s 2\n1 2 s 3\ns s s")
		for _, a := range args {
			for _, c := range subNames {
				for _, t := range tails {
					call := "ens " + a + " " + c + " " + t
					hist("progb", def, call, "list ([exists loc] [get gx -] [exists newc] [exists k])")
					if len(t) < 8 {
						hist("prog", def, "proc q {} {let loc 1; set r ["+call+"]; tuple ($r [get gx -])}; q", "closure qc {} {let loc 1; "+call+"}; qc", "closure qc2 {loc} {"+call+"; T after}; qc2 1", "idem $gx")
						hist("prog", def, "alias z (ens "+a+"); z "+c+" "+t, "set z (ens "+a+" "+c+"); $z "+t, "("+call+")", "[idem ens] "+a+" "+c+" "+t, "set em [ens]; catch {$em call "+c+" "+a+" "+t+"}; [ens] subcommands", "[ens] call "+c+" "+a+" "+t)
						hist("prog", def, "set co [coroutine {T in; "+call+"}]; $co wait", "$co wait", "$co done", "catch {"+call+"} return v {tuple (r $v)} error v {tuple (e $v)} yield v {T y; pass} break {idem b} continue {idem c}", "loop i {if [$i > 1] {break}; "+call+"}", "if true {"+call+"}", "tuple (["+call+"] ["+call+"])", "help "+call)
					}
				}
			}
		}
		for k := 0; k <= 4; k++ {
			gen.Seqs([]string{"5", "c", "()"}, k, func(w []string) {
				j := strings.Join(w, " ")
				hist("prog", def, "ens "+j, "help ens "+j, "[[ens] argspec]", "argspec [[ens] argspec] usage", "list [ens "+j+" subcommands] sort")
			})
		}
	}
	e.Phase("definitions")
	for _, s := range ln("a\n?a\n*a\n(?a d)\n-o a\n?-f ?a\na ?b\na *b\n(int ?a)\n()\na a\n\"\"\n(a b c d)\n[list (a b)]\n{a b}\n{\"}\nx") {
		for _, b := range ln("{}\n{closure s {*a} {T s; idem $a}}\n{error e}\n{return r}\n{yield y; T z}\n{break}\n{continue}\n{pass}\nx\n()\n{T body; set v 1; closure s {*a} {idem s1}; closure s {*a} {idem s2}}\n{closure s {*a} {idem s}; return [closure r {} {idem r1}]}\n{closure s {*a} {T $outer}; undefinedcmd}\n{[idem [ensemble sube {q} {closure t {q} {idem $q}}]] eval {closure u {q} {idem u$q}}}") {
			hist("prog", "set outer o; idem 0", "ensemble ens ("+s+") "+b, "ens", "ens 1", "ens 1 s", "ens 1 s 2", "ens s", "ens 1 2 s", "exists v", "ensemble ("+s+") "+b, "set e [ensemble ("+s+") "+b+"]; idem 0", "$e call s 1", "$e foo", "$e argspec", "[[ensemble ("+s+") "+b+"] eval {idem ok}]", "ensemble ens ("+s+") "+b, "ens 1 s 3")
		}
	}
	for _, d := range ln("ensemble\nensemble a\nensemble a b c d\nensemble () {} {}\nensemble [] {} {}\nensemble 1 {} {}; 1 subcommands\nensemble x {} {} y\nensemble idem {v} {closure s {v} {idem 1}}; idem 1 s") {
		hist("prog", d)
	}
	e.Phase("histories")
	ops := ln(`
[ens] eval {closure s1 {v *r} {T s1a; tuple ($v $r)}}
[ens] eval {closure s1 {v *r} {T s1b; tuple (b $v $r)}}
[ens] eval {macro s2 {v} {T s2; s1 $v 9}}
[ens] eval {alias s3 (s1 x)}
[ens] eval {closure s1 {v} {error "e$v"}; error after}
ensemble ens {v} {closure s1 {v *r} {T new; tuple (new $v)}}
ensemble ens {v w} {closure s1 {v w} {tuple (two $v $w)}}
closure s1 {*a} {idem outer}
set old [ens]; idem 0
$old eval {closure s4 {v} {T s4; s1 $v}}
$old call s1 q
ens 1 s1
ens 1 s1 2 3
ens 1 s2
ens 1 s4
ens 1 s3
list [ens 1 subcommands] sort
alias s1 idem
[ens] eval {ensemble sub {q} {closure t {q *r} {tuple (t $q $r)}}}
ens 1 sub t
[[ens] call sub] eval {closure t {q} {idem t2$q}}
`)
	init := "ensemble ens {v} {closure s1 {v *r} {T s1; tuple ($v $r)}}; set old [ens]; idem 0"
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(ops, n, func(s []string) {
			hist("prog", append(append([]string{init}, s...), "ens 1 s1 2", "ens 1 s2", "$old call s1 5", "list [ens 1 subcommands] sort", "exists v")...)
		})
	}
	e.Phase("nesting")
	// ensembles of ensembles, with arguments passed through
	nest := `closure g {v} {T "g$v"; idem "<${v}>"}; ensemble e1 {((g) a)} {ensemble e2 {a b} {ensemble e3 {a b ((g) c)} {closure f {*r} {T f; idem $r}; closure y {*r} {tuple ($r [yield $r])}}; closure f {a b} {tuple ($a $b)}; closure self {a b *r} {e1 $b e2 $a e3 $*r}}; closure via {a *r} {T via; e2 $a $*r}; alias al (e2 k); macro mac {a *r} {e2 $a $*r}}`
	w := ln("1\ne2\ne3\nf\nvia\nal\nself\ny\nmac")
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(w, n, func(s []string) {
			j := strings.Join(s, " ")
			hist("prog", nest, "e1 1 "+j, "help e1 1 "+j)
			if n <= 3 {
				hist("progb", nest, "e1 1 e2 2 e3 3 "+j, "e1 1 via 2 "+j, "tuple ([e1 1 via 2 e3 3 "+j+"] [e1 4 e2 5 "+j+"])", "[[e1] call e2 1 2] eval {closure zz {*r} {T zz; idem $r}}")
			}
		})
	}
	e.Phase("built-in commands elsewhere")
	// commands imported under other names, into ensembles and namespaces,
	// behave as under their own
	names := sp("idem if while loop when catch list dict string tuple script && || ! eval tailcall set let get exists unset closure macro proc scope namespace ensemble coroutine alias yield return error help + - true false int argspec parse break")
	mo := "module mo {"
	for _, n := range names {
		mo += "export " + n + "; "
	}
	mo += "}; set n 0; closure N {} {set n [+ $n 1]; idem $n}; idem 0"
	must(mo)
	calls := ln(`
idem a
if true {T a} else {T b}
if {T [yield c]; idem true} {T a; yield b} else {T d}
if {yield b} {T a} elseif {yield q} {T z; yield k} else {T [yield w]}
if {idem false} {T a} elseif {idem false} {T z} else {T w; yield w; T v}
if {error e} {T a}
if false {T a} else
while {[N] < 3} {T w; yield x; T y}
while true {T w; yield x; break}
loop i {T $i; yield $i; if [$i > 1] {break}}
loop x [list (a b)] y {tuple [yield s]} {T $x; yield $y}
when {{yield t; idem false} {T a} {T b; yield u; T c}}
when {T [yield c]; idem idem} {false {T no} true {T yes; yield e}}
catch {T a; yield b; T c} yield v {T $v; yield d; pass} finally {T f; yield g}
catch {error e} error m {T [yield $m]} finally {T f; yield g; T h}
catch {return [yield a]} return v {T $v; yield b} break {T z}
catch {yield a; T b}
catch {break} continue {T a} break {T b; yield c}
list (a b c)
list (a b c) foreach x {T $x; yield $x}
list (a b c) at 1
list (b a) sort
dict (a b) foreach (k v) {T $k; yield $v}
string abc range 1
string abc
tuple (a b) foreach x {T $x}
script {a b} append {c}
&& {T [yield a]; idem true} {T b; yield c; idem true} {yield d}
|| {yield a; idem false} {T [yield b]; idem false} {yield c; idem true}
! {yield a; idem true}
eval {T a; set q [yield b]; T c}
eval (idem a)
tailcall {T a; yield b}
set q 1
set (q r) (1 2)
let k 1
get q 5
exists q
unset q
closure f {a} {T $a; yield b}
macro f {a} {T $a}
proc f {a ?b} {T $a}
scope {T [yield a]; set z 1}
scope sc {T a; yield b; closure c {} {T c}}
namespace nn {T [yield a]; closure c {} {T c}}
ensemble ee {x} {T a; yield b; closure c {x} {T c}}
coroutine {T a; yield b}
alias f (idem x)
yield a
return a
error a
help list
help if
+ 1 2
- 5 1 2
true ? {a} b
false !? a b
int 1
argspec (a ?b) usage
argspec (a ?b) set (1 2)
parse {idem a}
break
`)
	split := func(l string) (out []string) { // words at depth 0
		depth, start := 0, 0
		for i, c := range l + " " {
			switch c {
			case '{', '(', '[':
				depth++
			case '}', ')', ']':
				depth--
			case ' ':
				if depth == 0 {
					out = append(out, l[start:i])
					start = i + 1
				}
			}
		}
		return
	}
	for _, c := range calls {
		w := split(c)
		args := strings.Join(w[1:], " ")
		check := func(def, call string) {
			hist("progb", mo, def, call, call, "tuple ([exists q] [exists k] [exists f] [get n])")
			hist("prog", mo, def, "tuple (["+call+"] ["+call+"])")
			hist("prog", mo, def, "closure ff {} {T <; "+call+"; T >}; ff", "proc gg {} {set n 0; closure N {} {set n [+ $n 1]; idem $n}; tuple (a ["+call+"])}; gg", "set co [coroutine {"+call+"}]; $co wait", "$co wait", "$co wait", "("+call+")", "catch {"+call+"}", "help "+call)
		}
		for _, nm := range sp("zz else elseif finally error value 1 () \"\" {a\u00a0b} T") {
			nm = strings.ReplaceAll(nm, "\u00a0", " ")
			check("[mo] import "+w[0]+" "+nm, nm+" "+args)
		}
		check("closure zz {*r} {T z}; [mo] import "+w[0]+" T2; alias zz T2", "zz "+args)
		for _, pre := range sp("idem else") {
			check("alias "+pre+"2 ("+w[0]+"); alias "+pre+"3 "+pre+"2", pre+"3 "+args)
		}
		nms := sp("s else if")
		for _, nm := range nms {
			check("ensemble e {} {[mo] import "+w[0]+" "+nm+"}", "e "+nm+" "+args)
			check("namespace e {[mo] import "+w[0]+" "+nm+"}", "e "+nm+" "+args)
			check("namespace e {[mo] import "+w[0]+" "+nm+"}", "[e] call "+nm+" "+args)
			check("scope e {[mo] import "+w[0]+" "+nm+"}", "[e] call "+nm+" "+args)
			check("ensemble e {x} {[mo] import "+w[0]+" "+nm+"}", "[e] call "+nm+" "+args)
			for k := 1; k < len(w) && k <= 4; k++ {
				for _, g := range []string{"", "(idem) "} {
					spec := ""
					for j := 0; j < k; j++ {
						if g == "" {
							spec += " " + string(rune('p'+j))
						} else {
							spec += " (" + g + string(rune('p'+j)) + ")"
						}
					}
					if nm == "s" || k == 1 {
						lead, rest := strings.Join(w[1:1+k], " "), strings.Join(w[1+k:], " ")
						d := "ensemble e (" + spec + ") {[mo] import " + w[0] + " " + nm + "}"
						check(d, "e "+lead+" "+nm+" "+rest)
						check(d+"; alias ea (e "+lead+" "+nm+")", "ea "+rest)
						check("ensemble o {} {"+d+"}; idem 0", "o e "+lead+" "+nm+" "+rest)
					}
				}
			}
		}
	}
}

func enumC22(e *mc.Env) {
	pre := lib.forText("T")
	must(pre)
	hist := func(kind string, steps ...string) {
		if e.Mine() {
			e.Do(kind, append(append([]string{pre}, steps...), "idem $log")...)
		}
	}
	e.Phase("histories")
	ops := ln(`
namespace n1 {closure k {*a} {T n1k; tuple (n1k $a [get v -])}; set v 1}
namespace n2 {closure k {*a} {T n2k; tuple (n2k $a [get v -])}; set v 2}
set m1 [n1]; idem 0
set m2 [n2]; idem 0
$m1 eval {set v [T m1v]; let w 5}
$m1 eval {closure k2 {} {T k2; k [get v -]}}
$m1 eval {[n2] import k}
$m1 eval {unset v}
$m1 eval {namespace n3 {closure k {*a} {T n3k; tuple (n3k $a [get v -])}; set v 3}}
$m2 import k
$m1 import k
$m1 import k kk
$m1 import k2
$m2 import k T2
$m1 call k 5
n1 k 1
n2 k 2
k 3
kk 4
n1 k2
n1 n3 k 7
closure k {*a} {T rootk; tuple (rootk $a [get v -])}
set v 0
closure helper {} {idem h[get v -]}
$m1 eval {closure k {*a} {T over; helper}}
`)
	probe := []string{"tuple ([catch {k}] [catch {n1 k}] [catch {n2 k}] [catch {n1 k2}] [catch {kk}])", "tuple ([get v -] [catch {idem $m1(v)}] [catch {idem $m2(v)}] [catch {$m1 call k}])", "tuple ([catch {list [n1 subcommands] sort}] [catch {list [n2 subcommands] sort}])"}
	init := "namespace n1 {closure k {*a} {T i1k; tuple (i1k $a [get v -])}; set v 1}; namespace n2 {set v 2}; set m1 [n1]; set m2 [n2]; idem 0"
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(ops, n, func(s []string) {
			hist("prog", append(append([]string{init}, s...), probe...)...)
		})
	}
	e.Phase("visibility")
	// commands of every origin, reached through every access path with every
	// number of arguments
	vis := "closure out {*a} {T out; tuple (out $a [get v -])}; macro mout {*a} {out m $*a}; alias aout (idem al); set v 0; " +
		"namespace n1 {closure loc {*a} {T loc; tuple (loc $a [get v -])}; closure mout {*a} {T over; tuple (over $a)}; set v 1; " +
		"namespace n2 {closure in {*a} {T in; tuple (in $a [get v -])}; alias loc2 loc; set v 2}; " +
		"ensemble en {} {closure es {*a} {T es; tuple (es $a [get v -])}}; [n2] import in imp}; idem 0"
	for _, c := range sp("loc in imp out mout aout idem list T n1 n2 en es v set nosuch () 1 \"\" $v [n1] loc2 subcommands eval call import") {
		for _, p := range ln("n1\n[n1] call\n[n1] import\n[[n1] call n2] call\n[n1] eval\n[[n1] call n2] import\nn1 n2\nn1 en\n[[n1] call en] call\n[[n1] call en] eval") {
			for k := 0; k <= e.Pick(3, 4); k++ {
				gen.Seqs(sp("a (b c) {idem s} in out"), k, func(w []string) {
					if k >= 2 && (w[0] > w[1] || len(w) > 2 && w[1] > w[2]) {
						return
					}
					call := p + " " + c + " " + strings.ReplaceAll(strings.Join(w, " "), " ", " ")
					hist("progb", vis, call, "out 1", "n1 loc 1", "catch {a 1} error e {idem $e}", "list [n1 subcommands] sort")
					if k < 2 {
						hist("prog", vis, "closure q {v} {"+call+"}; q 7", "proc q {v} {"+call+"}; q 7", "namespace n3 {set v 3; "+call+"; catch {out 2}}", "catch {n3 out 3}")
					}
				})
			}
		}
	}
	e.Phase("bodies")
	bodies := ln("{}\n{T b}\n{error e}\n{return r}\n{yield y; T after; closure q {} {idem q}}\n{break}\n{continue}\n{pass}\nx\n()\n{closure q {} {idem q}; error after}\n{closure q {} {idem q}; return [closure r {} {idem r}]}\n{set v 1; T $v; let w 2; unset v}\n{undefinedcmd}\n{namespace ns {closure q {} {idem inner}}; closure q {} {ns q}}\n{closure q {} {ns q2}; closure q2 {} {idem self}}\n{closure namespace {*a} {idem hijacked}; closure q {} {namespace x {}}}\n{closure set {*a} {T myset}; set a b; closure q {} {set c d}}")
	for _, b := range bodies {
		for _, nm := range ln("ns\n()\n[]\n1\n\"\"\nidem") {
			hist("progb", "namespace "+nm+" "+b, "ns q", "ns", "list [ns subcommands] sort", "exists v", "exists w", "q")
		}
		hist("progb", "set x [namespace "+b+"]; idem 0", "$x call q", "$x eval {q}", "idem $x(w)", "idem $x(v)", "$x import q", "q", "$x foo", "$x subcommands", "$x import q zz; zz")
		hist("prog", "closure mk {p} {namespace ns "+b+"; ns q}; mk 1", "ns q")
		hist("prog", "proc mk {p} {namespace ns "+b+"; catch {ns q} error m {T \"$m\"}; [ns]}; set x [mk 1]; idem 0", "ns q", "$x call q", "set c [coroutine {namespace "+b+"}]; $c wait", "$c wait", "$c done")
	}
	for _, s := range ln("namespace\nnamespace a b c\nnamespace a {} {}\nns\nns a\n[namespace {}]\n[namespace {}] eval\n[namespace {}] call\n[namespace {}] import\n[namespace {}] import a b c\n[namespace {}] eval {} {}\n[namespace {}] call x\n[namespace {}] import x\n[namespace {}] import ()\n[namespace {closure a {} {}}] import a ()\n[namespace {}] call ()\n[namespace {}] ()\n[namespace {}] eval x\nidem $[namespace {set a 5}](a)\nidem $[namespace {set a [list (x y)]}](a)[1]\nidem $[namespace {let a 5}](a)\nidem $[namespace {}](a)\nidem $[namespace {}](())\nset n [namespace {set (a b) (1 2)}]; idem $n((a b))\nset n [namespace {set a 1}]; tuple ([exists n(a)] [exists n(b)] [get n(b) d] [get n(a)])\nset n [namespace {}]; set n(a) 1\nset n [namespace {set a [dict (k z)]}]; idem $n(a)(k)\nset n [namespace {set a 1}]; idem $n(a b)\nset n [namespace {set a 1}]; idem $n[0]\nset x 1; idem $[namespace {}](x)\nidem $[namespace {closure a {} {}}](a)") {
		hist("progb", s, "exists a")
	}
	e.Phase("commands")
	defs := ln(`
closure k {*a} {CODE}
proc k {*a} {CODE}
macro k {*a} {CODE}
alias k (f p)
ensemble k {x} {closure s {x *a} {CODE}}
namespace k {closure s {*a} {CODE}; set v kk}
closure k {} {closure k {} {idem re}; CODE}
`)
	codes := ln(`tuple ([get v -] [get lv -] [get a -])
set v changed; let nk 1; [get v -]
T [f]; f 1 2
yield $v; T "$v"; set v y
error "e$v"
return $v; T no
break
closure g {} {idem newg}; g
unset v; exists v
scope {set v s}; idem $v
T [g]; set z 1
eval {set v ev; idem $v}
local
k2 $v
[n] call f
catch {error "c$v"} error m {set v "$m"}
set c [coroutine {yield $v; set v co; idem "c$v"}]; $c wait; $c wait
loop i {if [$i > 1] {break}; set v $i; let u$i $i}; idem $v
namespace inner {set v iv; closure f {} {idem "in$v"}}; inner f`)
	calls := ln(`
n k 1
n k 1 s
n k s 2
[n] call k 1
[n] eval {k 1}
[n] import k; k 1
[n] import k j; j 1 s
proc q {v} {let lv l; n k $v}; q 9
closure q {v} {let lv l; T [n k 1]; tuple ([get v -] [exists nk] [exists z])}; q 9
set c [n]; closure q {lv} {$c eval {k 1}}; q l
alias al (n k); al 1
namespace n2 {set v n2v; closure f {} {idem n2f}; closure q {} {n k 1}; [n] import k k3}; n2 q; n2 k3 5
scope {set v sv; closure f {} {idem sf}; n k 1}
set c [coroutine {n k 1; T mid; n k 2}]; T "[$c wait]"; $c wait
`)
	gen.Product(func(s []string) {
		hist("progb", "set v root; let rc 1; closure f {*a} {T rootf; tuple (rootf $a [get v -])}; closure local {} {idem [exists lv]}",
			"namespace n {set v nv; closure f {*a} {T nf; tuple (nf $a [get v -])}; closure k2 {w} {idem \"k2$w\"}; "+strings.ReplaceAll(s[0], "CODE", s[1])+"}",
			s[2], "tuple ([get v -] [exists nk] [exists z] [exists lv] [exists u0])", "[n] eval {tuple ([get v -] [exists nk] [exists z] [exists lv] [exists u0] [exists rc])}", "tuple ([catch {f}] [catch {g}] [catch {n g}] [catch {n f}])")
	}, defs, codes, calls)
}

// evalSame compares the two spellings of a call on the implementation: fields
// are the common setup, the plain step and the other spelling.
func evalSame(f []string) (o mc.Out) {
	a := history([]string{f[0], f[1], "idem $log"}, false, nil)
	if a.Diff != "" || a.Skip {
		return a
	}
	b := history([]string{f[0], f[2], "idem $log"}, false, nil)
	if b.Diff != "" || b.Skip {
		return b
	}
	x, _, _ := runRef([]string{f[0], f[1], "idem $log"}, "", nil)
	y, _, _ := runRef([]string{f[0], f[2], "idem $log"}, "", nil)
	o = a
	o.Steps += b.Steps
	o.Traces = 2
	o.States = append(o.States, b.States...)
	for k := range x {
		if d := diffTrace(x[k], y[k]); d != "" {
			o.Diff = "the two spellings " + f[1] + " and " + f[2] + " differ: " + d
			return
		}
	}
	return
}

func enumC23(e *mc.Env) {
	pre := lib.forText("T") + `; closure c {*a} {T c; tuple (c $a [get lv -])}; macro m {*a} {T m; tuple (m $a [get lv -])}; proc p {*a} {T p; tuple (p $a [get lv -])}; closure y {*a} {T "y[yield $a]"; idem $a}; closure er {*a} {error "er"}; closure re {*a} {return $a}; closure br {*a} {break}; ensemble en {x} {closure s {x *a} {T s; tuple (s $x $a)}; closure y {x *a} {yield $a; idem $x}}; namespace ns {closure k {*a} {T k; tuple (k $a)}}; scope sc {closure k {*a} {T sk; tuple (sk $a)}}`
	must(pre)
	hist := func(kind string, steps ...string) {
		if e.Mine() {
			e.Do(kind, append(append([]string{pre}, steps...), "idem $log")...)
		}
	}
	words := [][]string{{"c"}, {"m"}, {"p"}, {"y"}, {"er"}, {"re"}, {"br"}, {"en", "1", "s"}, {"en", "1", "y"}, {"ns", "k"}, {"sc", "call", "k"}, {"idem"}, {"+", "1"}, {"if", "true"}, {"while", "{if $[exists z] {break} else {T w; set z 1; idem true}}"}, {"eval"}, {"list", "(a b c)", "foreach", "e"}, {"loop", "i", "v", "[list (a b)]"}, {"catch", "{error x}", "error", "v"}, {"let"}, {"set", "x"}, {"tuple"}, {"undefinedcmd"}, {"$c1", "wait"}, {"list", "(q)", "append"}, {"alias", "zz"}, {"help"}, {"string", "ab", "at"}, {"closure", "qq", "{}"}, {"&&", "true"}, {"12", "+"}, {"true", "?"}, {"when"}, {"argspec", "(a)"}, {"break"}, {"return"}, {"yield"}, {"error"}, {"unset"}, {"scope"}}
	tails := ln("\na\na b\n{T t; idem 5}\n(x y)\n[T q] [yield z]\n$*(u v)\n{break}\n{yield k; T k2}\n1\nx 2\n(true {T r})")
	// spellings of a prefix of words
	spell := func(w []string) (out [][2]string) {
		add := func(def, s string) { out = append(out, [2]string{def, s}) }
		for cut := 1; cut <= len(w); cut++ {
			a, b := strings.Join(w[:cut], " "), strings.Join(w[cut:], " ")
			add("", "("+a+") "+b)
			add("", "(("+a+")) "+b)
			add("", "(("+w[0]+") "+strings.Join(w[1:cut], " ")+") "+b)
			add("", "((("+a+"))) "+b)
			add("", "[idem ("+a+")] "+b)
			add("", "(() "+a+") "+b)
			add("alias z ("+a+"); ", "z "+b)
			add("alias z (("+a+")); ", "z "+b)
			add("alias z1 ("+w[0]+"); alias z (z1 "+strings.Join(w[1:cut], " ")+"); ", "z "+b)
			add("alias z ("+a+"); alias zz1 (z "+b+"); ", "zz1")
			add("alias z ("+a+"); ", "(z "+b+")")
			add("set z ("+a+"); ", "$z "+b)
			add("set z (("+a+") "+b+"); ", "$z")
			add("set z [alias ("+a+") x]; ", "("+a+" "+b+")")
			add("closure z {*r} {("+a+") $*r}; ", "z "+b)
			add("alias z ("+a+"); set t (z); ", "($t "+b+")")
			add("set al [alias z ("+a+")]; ", "[$al] "+b)
			add("set al [alias z ("+a+")]; ", "$[$al command] "+b)
		}
		return
	}
	e.Phase("spellings")
	for _, w := range words {
		for _, sp := range spell(w) {
			closureForm := strings.HasPrefix(sp[0], "closure")
			for _, t := range tails {
				plain := strings.Join(w, " ") + " " + t
				other := sp[0] + "; " + sp[1] + " " + t
				hist("progb", "set c1 [coroutine {yield 1; T 2}]; idem 0; set lv g; idem $lv", other, "tuple ([get x -] [get z2 -])")
				if closureForm || strings.Contains(sp[0], "set z") || strings.Contains(sp[0], "alias (") || w[0] == "()" || w[0] == "while" || w[0] == "help" || w[0] == "undefinedcmd" || w[0] == "scope" || w[0] == "closure" || w[0] == "alias" || strings.HasPrefix(sp[1], "(() ") {
					continue
				}
				if e.Mine() {
					e.Do("same", pre+"; set c1 [coroutine {yield 1; T 2}]; set lv g; idem 0", plain, "eval {"+sp[0]+"}; "+sp[1]+" "+t)
				}
			}
		}
	}
	e.Phase("contexts")
	ctxs := ln("@\ntuple ([@] [@])\nif true {@}\nif [@; idem true] {T i}\nloop i {if [$i > 1] {break}; @}\nproc q {} {let lv pl; @}; q\nclosure q {lv} {@}; q 4\nscope {set lv sl; @}\nnamespace {set lv nl; @}\ncatch {@} return v {tuple (R $v)} yield v {T Y; pass} error v {tuple (E $v)} break {idem B}\nset co [coroutine {@; T cend}]; T \"[$co wait]\"; T \"[$co wait]\"; $co done\n@; @\neval {@; T ev}\nlist (a) foreach e {@}\n$[@]\n@ @\nwhen true {@}\nlet r [@]; idem $r\n[@]")
	for _, w := range words[:13] {
		sps := spell(w)
		for k, sp := range sps {
			if k%2 == 1 && !e.Thorough {
				continue
			}
			for _, c := range ctxs {
				for _, t := range []string{"", "a b", "[yield z]"} {
					hist("prog", "set c1 [coroutine {yield 1; T 2}]; set lv g; idem 0", "eval {"+sp[0]+"}; "+strings.ReplaceAll(c, "@", sp[1]+" "+t), "get lv")
				}
			}
		}
	}
	e.Phase("as commands")
	// tuples and aliases where a command is expected
	for _, cm := range ln("c\n(c)\n((c) 1)\nz\n(z 2)\n$zv\n($zv 3)\n(ns k)\n(en 1 s)\n()\n(())\n(1)\n(1 +)\n(undefinedcmd)\n[list (c)]\n{c}\n(y)\n(er)\n(T)\n[[closure {*a} {T anon; idem $a}]]\n([[closure {*a} {T anon; idem $a}]] 7)\n((c) (1))\n(idem [yield q])\n[[alias zx c]]\n(zx)\n[alias zx (T)]\n1\n(true ? x)\n(& 1)") {
		for _, use := range ln("@ a\n@\nwhen @ {a {T w}}\nwhen @ (1 {T w} {T d})\nproc q ((@ v)) {idem $v}; q 5\nclosure q {v} (@ {idem $v}); q 5\nensemble ee ((@ v)) {closure s {v} {idem $v}}; ee 5 s\nlist (b a) sort @\nloop v @ {T \"$v\"; break}\nloop i v @ {T \"$v\"; if [$i > 0] {break}}\n[sc] eval {@ a}\nalias w @; w 1\nalias w (@); w 1\nalias w (@ k); w 1; alias w idem; w 2\nif [@ true] {T 1}\n@ [@ 1]\nset s @; $s a\ntuple (@ [@])\nhelp @\nhelp @ 1\n@ $*(a b)\n$*@ a\n$*(@) a") {
			hist("progb", "alias z (c z1); set zv (c v1); alias zx m; scope sc {}; closure sc {} {scope {}}; idem 0", strings.ReplaceAll(use, "@", cm))
		}
	}
	e.Phase("prefixes sharing storage")
	// the tuple standing for the beginning of a sentence is also a value that
	// others hold: calling it with arguments must change none of them
	srcs := ln("list (W a b c)\nlist (W a b c d e f g h)\ntuple (W a b c)\nidem (W a b c)")
	takes := ln("[tuple [list $l range 0 0]]\n[tuple [list $l range 0 1]]\n[tuple [list $l range 0 2]]\n([tuple [list $l range 0 0]])\n([tuple [list $l range 0 1]] x)\n([tuple [list $l range 0 0]] x)\n(([tuple [list $l range 0 1]]) x y)\n$*[list $l range 0 1]\n($*[list $l range 0 1])\n[tuple $l]\n($*[list $l])\n([tuple $l] x)\n$l\n[tuple [list $l remove 1 1]]\n[tuple [list $l remove 2 3]]\n[tuple [list [list $l range 0 2] range 0 0]]\n[tuple [list $l append ()]]\n[macro {*r} {idem $r}]")
	calls := ln("$t z\n$t z w\n$t z w v u\n($t z) y\n$t\n($t)\n$t $*$t\n$*$t z\n$t $t\n[alias al $t] z; al z w; al y\nalias al ($t q); al z; al y\nwhen $t (z {T z} y {T y})\nlist (b a) sort $t\ncatch {$t [yield 1] z}\nclosure f {*r} {$t $*r}; f z w; f y\ntuple ([$t z] [$t y] $t)")
	for _, w := range ln("idem\nc\nm\np\nlist\ntuple\ny\n+\n(c 1)\nen\nalias\nundefinedcmd") {
		gen.Product(func(s []string) {
			hist("prog", "set l ["+strings.ReplaceAll(s[0], "W", w)+"]; idem 0", "set t "+s[1], s[2], "idem $l", "idem $t", s[2], "list ($l $t)")
			if s[0] == srcs[0] && w == "c" {
				hist("prog", "set l ["+strings.ReplaceAll(s[0], "W", w)+"]; idem 0", "set t "+s[1], "set u ($t k)", s[2], "$u j", s[2], "list ($l $t $u)")
			}
		}, srcs, takes, calls)
	}
	e.Phase("histories")
	ops := ln(`
alias a c
alias a (c 1)
alias a b
alias b a
alias b (m 2)
closure c {*r} {T c2; tuple (c2 $r)}
closure a {*r} {tuple (aclo $r)}
macro m {*r} {T m2; c $*r}
set av [alias a (c 3)]; idem 0
scope s1 {alias a (c s); closure c {*r} {tuple (s1c $r)}}
closure q {} {closure c {*r} {tuple (qc $r)}; a q}
q
a x
b y
[get av idem] z
s1 eval {a w}
s1 call a w
namespace nn {closure c {*r} {tuple (nnc $r)}; closure t {*r} {a $*r}}; nn t u
catch {$av command}
(a 1) 2
`)
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(ops, n, func(s []string) {
			j := strings.Join(s, "\n")
			both := strings.Contains(j, "alias a b") && strings.Contains(j, "alias b a")
			if both {
				return // endless resolution
			}
			hist("prog", append(append([]string{"set av idem; idem 0"}, s...), "catch {a p r}", "catch {b p}", "catch {$av t}")...)
		})
	}
}
