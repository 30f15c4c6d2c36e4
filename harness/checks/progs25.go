package checks

import "strings"

// Progs25 are the programs run concurrently by C25.
var Progs25 = []string{
	`loop i v [list (a b)] {idem "$i$v"}`,
	`set i 0; while {$i < 2} {set i [+ $i 1]; if [$i == 2] {break}; idem $i}`,
	`if [idem false] {idem 1} elseif {idem true} {idem 2} else {idem 3}`,
	`when {idem 5} {{== 4} {idem a} {== 5} {idem b} {idem c}}`,
	`tuple ([&& true {idem true}] [|| {idem false} {! true}])`,
	`proc f {a ?b *c} {tuple ($a $c)}; tuple ([f 1 2 3] [f 4])`,
	`closure g {x} {yield $x; loop i [list (1)] {yield i; idem "$x"}}; tuple ([g 1] [g 2])`,
	`set c [coroutine {yield a; if true {yield b}; idem c}]; tuple ([$c wait] [$c wait] [$c wait] [$c done])`,
	`catch {if true {error e}} error m {idem "<$m>"} finally {idem f}`,
	`ensemble e {(int a)} {closure s {a b} {+ $a $b}}; e 1 s 2`,
	`list (3 1 2) sort [[closure {a b} {- $a $b}]]`,
	`namespace n {closure k {(?d {idem v})} {list ($d) foreach x {idem $x$x}}}; n k`,
	`set l [list (a b)]; set d [dict (k $l)]; idem "$d(k)[1] ${l}[0]"`,
	`string [+ 1 2.5] append [string abc range 1 2] "é"`,
	`eval [parse "set x \"\\x41\"; idem \$x"]`,
	`alias z (idem); tuple ([z 1] [(z) 2] [[macro {a} {return $a}] x])`,
	`{ set x (1 {a b} "c"); idem $x }; eval {error "$x"}`,
	`undefinedcmd`,
	`scope s {set v 1; macro m {} {set v [+ $v 1]}}; s eval {m; m}`,
	`true ? {idem a} {idem b}; [argspec (a ?b)] usage`,
}

func steps25(p string) []string { return strings.Split(p, "\n=\n") }

func want25(p string) []string {
	exp, _, _ := runRef(steps25(p), "", nil)
	if exp == nil {
		panic("endless program " + p)
	}
	var out []string
	for _, x := range exp {
		out = append(out, strings.Join(x, " | "))
	}
	return out
}

// Want25 is the expected observation of a program.
func Want25(p string) string { return strings.Join(want25(p), " || ") }
