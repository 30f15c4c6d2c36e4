package checks

import (
	"fmt"
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C17",
		Space: "all lists up to a length (and selected long ones) over elements of every kind, written as list, tuple, block and script, under every list and tuple operation with all pairs of indexes from minus two to length plus two and extreme, fractional and invalid indexes; all operand forms; all pairs of chained operations; " +
			"all iterations over element shapes, index names and bodies of every result code; sorting of all permutations with default and custom comparators. State: outcome and log.",
		Assume: []string{interp, "comparators passed to sort are consistent orders on the elements; how often they are called is not specified"},
		Enum:   enumC17,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID: "C18",
		Space: "all strings up to a length over ASCII, multi-byte, control and special characters, and numbers, booleans and other kinds of values used as strings, under every string operation with all pairs of indexes from minus two to length plus two and extreme, fractional and invalid indexes; all pairs of chained operations; " +
			"all comparisons of all pairs of strings, against the byte order. State: outcome.",
		Assume: []string{interp},
		Enum:   enumC18,
		Eval:   progs,
	})
	mc.Register(&mc.Check{
		ID: "C19",
		Space: "all histories up to a length of creations, additions, removals and merges over two dictionaries, three keys and values of several kinds, all queries (size, has, get, keys, values, entries, iteration, key selection) compared after every step; all operand forms, keys of every kind and malformed inputs under every operation. " +
			"State: dictionaries and outcomes. The order of entries is not specified, so enumerations are compared after sorting, and each entry must be visited exactly once.",
		Assume: []string{interp},
		Enum:   enumC19,
		Eval:   progs,
	})
}

var extremes = ln("9223372036854775807\n-9223372036854775808\n9223372036854775806\n9223372036854775808\n4294967296\n2147483647\n1.5\n1e2\n2.0\n\"\"\na\n()\ntrue\n[real 1]\n[int 1]\n\"1\"\n-0\n+1\n0x1\n[list (1)]\n[]\n\" 1\"\n{1}")

func indexes(n int) []string {
	var out []string
	for i := -2; i <= n+2; i++ {
		out = append(out, fmt.Sprint(i))
	}
	return out
}

func enumC17(e *mc.Env) {
	// many operations on the same list in one item
	batch := func(pre string, ops []string) {
		for len(ops) > 0 {
			n := 40
			if n > len(ops) {
				n = len(ops)
			}
			if e.Mine() {
				e.Do("prog", append([]string{pre}, ops[:n]...)...)
			}
			ops = ops[n:]
		}
	}
	elems := ln("a\nb\n\"\"\n(x y)\n[list (p q)]\n1")
	idx := func(n int, f string) (ops []string) {
		is := indexes(n)
		ext := extremes
		switch strings.Count(f, "%s") {
		case 0:
			return []string{f}
		case 1:
			for _, i := range append(is, ext...) {
				ops = append(ops, fmt.Sprintf(f, i))
			}
			return
		}
		for _, i := range is {
			for _, j := range is {
				ops = append(ops, fmt.Sprintf(f, i, j))
			}
			for _, j := range ext {
				ops = append(ops, fmt.Sprintf(f, i, j), fmt.Sprintf(f, j, i))
			}
		}
		for _, i := range ext[:6] {
			for _, j := range ext[:6] {
				ops = append(ops, fmt.Sprintf(f, i, j))
			}
		}
		return
	}
	forms := ln("list $v\nlist $v length\nlist $v at %s\nlist $v at %s dflt\nidem $v[%s]\nlist $v range %s\nlist $v range %s %s\nlist $v remove %s %s\nlist $v insert %s (x y)\nlist $v insert %s ()\nlist $v replace %s %s (x)\nlist $v replace %s %s ()\nlist $v append\nlist $v append (x)\nlist $v append (x) () {y z}\nlist $v append $v\nlist $v sort\ntuple $v\ntuple $v length\ntuple $v at %s\ntuple $v at %s dflt\nlist $v remove %s\nlist $v insert %s\nlist $v replace %s %s\nlist $v at\nlist $v range\nlist $v insert %s x\nlist $v insert %s $v\nlist $v replace %s %s $v\nlist $v range %s %s 3\nlist $v remove %s %s (x)")
	e.Phase("operations")
	each := func(words []string) {
		j := strings.Join(words, " ")
		pres := []string{"set v [list (" + j + ")]", "set v (" + j + ")"}
		if !strings.ContainsAny(j, "[") {
			pres = append(pres, "set v {"+j+"}", "set v [parse \""+strings.ReplaceAll(j, "\"", "\\\"")+"\"]")
		}
		for _, p := range pres {
			var ops []string
			for _, f := range forms {
				ops = append(ops, idx(len(words), f)...)
			}
			batch(p, append(ops, "list $v"))
		}
	}
	for n := 0; n <= e.Pick(2, 3); n++ {
		gen.Seqs(elems, n, each)
	}
	for n := 3; n <= e.Pick(6, 9); n++ {
		each(strings.Fields("d a c b e f h g i")[:n])
	}
	each(strings.Fields("0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16"))
	e.Phase("operand forms")
	vals := ln("()\n(a b)\n((a b))\n{a b}\n{}\n{a $[b]}\n{a; b}\n{a\nb}\n{(a b) {c}}\n{$a}\n{\"}\n[list ()]\n[list (a b)]\nabc\n\"\"\n1\ntrue\n[]\n[dict (a b)]\n[dict ()]\n[parse \"a b\"]\n[tuple {a b}]\n[closure {} {}]\n[argspec (a b)]\n{#c#; a}\n{$*(a b)}\n{a#x#b}\n{\"a b\" c[d]}\n{a[1]}\n[script (a b)]\n{a [idem b]}\n$a[0]\n$b")
	ops := ln("list @\nlist @ length\nlist @ at 0\nlist @ at -1\nlist @ at 9 d\nlist @ range 0\nlist @ range 0 0\nlist @ append @\nlist @ append (x)\nlist (x) append @\nlist @ remove 0 0\nlist @ insert 0 (x)\nlist (x) insert 1 @\nlist (x y) replace 0 0 @\nlist @ replace 0 0 (x)\nlist @ sort\nlist @ foreach e {T \"$e\"}\nlist @ foreach i e {T $i}\ntuple @\ntuple @ length\ntuple @ at 0\ntuple @ at 9 d\nlist @ foo\nlist @ subcommands x\nlist\nlist @ length x\nlist @ at\nlist [list @]\ntuple [list @]\nlist [tuple @]\ndict @\nset x [list @]; idem $x[0]\nlist $[list @]\n[list @] length\n[list @] at 0\nlist (x) range @\nlist (x) at @\nlist (x) at 5 @\nlist (x y) remove @ 0\nlist (x y) remove 0 @\nlist (x y) insert @ (z)\nlist (x y) replace @ 1 (z)\nlist (x y) replace 0 @ (z)\nlist (x y) sort @\nlist (x y) foreach @ {T 1}\nlist (x y) foreach i e @\nlist (x y) foreach @ e {T $e}\nlist @ @\nlist (x) @\ntuple @ append (x)\nlist @ range 1 0\nlist @ remove 1 0\nloop e @ {T 1}\nloop e [list @] {T 1}")
	pre := lib.forText("T") + "; set a (q r)"
	gen.Product(func(s []string) {
		if e.Mine() {
			var st []string
			for _, b := range s[1:] {
				st = append(st, strings.ReplaceAll(b, "@", s[0]))
			}
			e.Do("progb", append([]string{pre}, append(st, "idem $log")...)...)
		}
	}, vals, ops)
	e.Phase("chains")
	chain := ln("range 1 2\nrange 1\nrange -1 1\nrange 2 1\nremove 1 1\nremove 0 0\nremove -5 0\nremove 2 99\nremove 1 -1\ninsert 1 (x)\ninsert 99 (y z)\ninsert -1 (w)\nreplace 0 1 (u)\nreplace 1 0 (v)\nreplace 2 9 ()\nreplace 9 9 (k)\nappend (s t)\nappend\nsort\nappend (m) (n)\nreplace -2 -1 (h)")
	gen.Seqs(chain, 2, func(s []string) {
		if e.Mine() {
			st := []string{}
			for _, l := range []string{"()", "(a)", "(c a b)", "{d c b a e}", "[list (b b a)]"} {
				t := "list " + l + " " + s[0]
				t2 := "list [" + t + "] " + s[1]
				st = append(st, t, t2)
				for _, c := range chain[:e.Pick(3, len(chain))] {
					st = append(st, "list ["+t2+"] "+c)
				}
			}
			e.Do("prog", st...)
		}
	})
	e.Phase("sorting")
	comps := ln("\n[[closure {a b} {if [string $a < $b] {idem -1} else {idem 1}}]]\n[[closure {a b} {if [string $a > $b] {idem -1} elseif [string $a == $b] {idem 0} else {idem 1}}]]\n-\n[[closure {a b} {- $b $a}]]\n(error)\n(idem x)\nfoo\n[[closure {a b} {break}]]\n[[closure {a b} {yield y}]]\n[[closure {a b} {return -1}]]\n[[closure {a} {idem 1}]]\n()\n[[proc {a b} {- $a $b}]]\n{- $a $b}\n((-))\n[[closure {a b} {error \"cmp\"}]]\n[[closure {a b} {idem 1.5}]]\n[[macro {a b} {return [- $a $b]}]]")
	lists := [][]string{{}, {"1"}, {"1", "2"}, {"1", "2", "3"}, {"1", "10", "2", "20"}, {"a", "B", "b", "A"}, {"é", "e", "z", "~"}, {"1", "1", "2"}, {"5", "4", "3", "2", "1"}}
	if e.Thorough {
		lists = append(lists, []string{"1", "2", "3", "4", "5", "6"}, []string{"-1", "0", "10", "9", "-10", "1.5"})
	}
	for _, l := range lists {
		gen.Perms(l, func(p []string) {
			if e.Mine() {
				var st []string
				for _, c := range comps {
					st = append(st, "list ("+strings.Join(p, " ")+") sort "+c)
				}
				e.Do("prog", append(st, "list {"+strings.Join(p, " ")+"} sort - x", "set s [list ("+strings.Join(p, " ")+")]; list $s sort; idem $s")...)
			}
		})
	}
	for _, l := range []string{"(a ())", "(() ())", "(a [])", "(true false)", "([list ()] a)", "({b} {a})", "(1 2 10)", "(\"\" a)", "([int 10] [int 9])"} {
		for _, c := range comps {
			if e.Mine() {
				e.Do("prog", "list "+l+" sort "+c)
			}
		}
	}
	long := "19 3 7 11 2 17 13 5 23 1 0 4 6 8 9 10 12 14 15 16 18 20 21 22"
	for _, c := range []string{"-", "[[closure {a b} {- $b $a}]]", "", "[[closure {a b} {- [* $b 2] [* $a 2]}]]"} {
		if e.Mine() {
			e.Do("prog", "list ("+long+") sort "+c, "list ("+long+" "+long+") sort "+c)
		}
	}
	e.Phase("iteration")
	src := ln("()\n(a)\n(a b c)\n((a b) (c d))\n((a b) (c))\n((a b) c)\n{a b}\n[list ((a (b c)) (d (e f)))]\n(1 2 3 4 5 6 7 8 9)\n(() (a) (b c))\nx\n{\"}")
	shapes := ln("e\n(e)\n(e f)\n(e (f g))\n()\n(e e)\n[list (e)]\n1\n\"\"\n[]\n((e))")
	bodies := ln("{T \"$e\"}\n{T 1}\n{}\n{break}\n{continue}\n{error er}\n{return r}\n{yield y; T y2}\n{pass}\n{set e 1}\n{let z $i; break}\n{T [tuple ([get e -] [get f -] [get g -] [get i -])]; idem 5}\n{set e2 [get e -]; T [exists e]}\nx\n{set m [tuple ([get e -] [get m ()])]}\n{if [[get i 0] == 1] {break}; T [get i -]}\n{if [[get i 0] == 0] {continue}; T 9}")
	gen.Product(func(s []string) {
		if e.Mine() {
			t := "list " + s[0] + " foreach " + s[1] + " " + s[2]
			t2 := "list " + s[0] + " foreach i " + s[1] + " " + s[2]
			e.Do("progb", pre, t, "tuple ([exists e] [exists i] [get m -])", t2, "tuple ([exists e] [exists i] [get m -] [get z -])", "set e out; "+t, "idem $e", "proc q {} {T in; "+t2+"; T out}; q", "let i 1; "+t2, "list (1 2) foreach e {T $e; "+t+"}", "idem $log")
		}
	}, src, shapes, bodies)
	names := ln("i\n()\n(i)\n\"\"\n1\n[]\n$x\ne\n[list (i)]")
	gen.Product(func(s []string) {
		if e.Mine() {
			e.Do("prog", pre+"; set x (p q)", "list (a b) foreach "+s[0]+" "+s[1]+" "+s[2]+" ", "idem $log", "list (a b) foreach "+s[0]+" "+s[1], "list (a b) foreach "+s[0], "list (a b) foreach "+s[0]+" "+s[1]+" "+s[2]+" x")
		}
	}, names, append(shapes, "i"), bodies[:6])
}

func enumC18(e *mc.Env) {
	chars := []string{"a", "b", "é", "\\n", "\\x00", "世", " ", "$", "\\\"", "Z", "\\\\", "0", "\\xff"}
	forms := ln("string $v\nstring $v length\nstring $v at %s\nstring $v at %s dflt\nstring $v range %s\nstring $v range %s %s\nstring $v remove %s %s\nstring $v insert %s xyé\nstring $v insert %s \"\"\nstring $v replace %s %s X\nstring $v replace %s %s \"\"\nstring $v append\nstring $v append x\nstring $v append x \"\" 1 true\nstring $v append $v\nidem $v[%s]\nstring $v remove %s\nstring $v insert %s\nstring $v replace %s %s\nstring $v at\nstring $v range\nstring $v insert %s ()\nstring $v insert %s 1\nstring $v replace %s %s $v\nstring $v range %s %s 3\nstring $v remove %s %s x")
	emitAll := func(pre string, n int) {
		var ops []string
		is := indexes(n)
		for _, f := range forms {
			switch strings.Count(f, "%s") {
			case 0:
				ops = append(ops, f)
			case 1:
				for _, i := range is {
					ops = append(ops, fmt.Sprintf(f, i))
				}
				for _, i := range extremes {
					ops = append(ops, fmt.Sprintf(f, i))
				}
			case 2:
				for _, i := range is {
					for _, j := range is {
						ops = append(ops, fmt.Sprintf(f, i, j))
					}
					for _, j := range extremes {
						ops = append(ops, fmt.Sprintf(f, i, j), fmt.Sprintf(f, j, i))
					}
				}
				for _, i := range extremes[:6] {
					for _, j := range extremes[:6] {
						ops = append(ops, fmt.Sprintf(f, i, j))
					}
				}
			}
		}
		ops = append(ops, "idem $v")
		for len(ops) > 0 {
			k := 60
			if k > len(ops) {
				k = len(ops)
			}
			if e.Mine() {
				e.Do("prog", append([]string{pre}, ops[:k]...)...)
			}
			ops = ops[k:]
		}
	}
	e.Phase("operations")
	size := map[string]int{"é": 2, "世": 3}
	for n := 0; n <= e.Pick(2, 3); n++ {
		cs := chars
		if n == 3 {
			cs = chars[:6]
		}
		gen.Seqs(cs, n, func(s []string) {
			l := 0
			for _, c := range s {
				l++
				if k := size[c]; k > 0 {
					l += k - 1
				}
			}
			emitAll("set v \""+strings.ReplaceAll(strings.Join(s, ""), "$", "\\$")+"\"", l)
		})
	}
	for _, s := range []string{"abc", "abcdef", "héllo", "a b c d e f g", "0123456789abcdefghij", "世界"} {
		emitAll("set v \""+s+"\"", len(s))
	}
	for _, v := range ln("123\n-1.50\ntrue\n[int 12]\n[real 1.5]\n[real 2]\n[true]\n{a b}\n{}\n[1 / 3]\n()\n(a)\n[list (a)]\n[dict (a b)]\n[]\n[1 / 0]\n[int 9223372036854775807]\n[parse \"a b\"]\n[script (a b)]\n[closure {} {}]\n\"\"\"a\"b\"\"\"\n[real 1e21]\n[real -0.0]\n[argspec (a)]\n[real 123456789012345680]\n[string {x $y}]") {
		emitAll("set v "+v, 4)
	}
	e.Phase("chains")
	chain := ln("range 1 2\nrange 1\nrange -1 1\nrange 2 1\nremove 1 1\nremove 0 0\nremove -5 0\nremove 2 99\nremove 1 -1\ninsert 1 x\ninsert 99 yz\ninsert -1 w\nreplace 0 1 u\nreplace 1 0 v\nreplace 2 9 \"\"\nreplace 9 9 k\nappend s t\nappend\nat 1\nat 2 d\nappend m n\nreplace -2 -1 h")
	gen.Seqs(chain, 2, func(s []string) {
		if e.Mine() {
			st := []string{}
			for _, l := range []string{"\"\"", "a", "abc", "héé", "12.5", "\"a b\\nc\""} {
				t := "string " + l + " " + s[0]
				t2 := "string [" + t + "] " + s[1]
				st = append(st, t, t2)
				for _, c := range chain[:e.Pick(3, len(chain))] {
					st = append(st, "string ["+t2+"] "+c)
				}
			}
			e.Do("prog", st...)
		}
	})
	e.Phase("comparisons")
	var strs []string
	for n := 0; n <= 2; n++ {
		gen.Seqs([]string{"a", "b", "é", "A", "\\x00", "1", "\\xff", "~"}, n, func(s []string) { strs = append(strs, "\""+strings.Join(s, "")+"\"") })
	}
	strs = append(strs, ln("1\n1.0\n[int 1]\n[real 1]\n10\n9\ntrue\n[true]\nTRUE\n{a}\n()\n[list ()]\n[]\n[1 / 3]\n\"abc\"\n\"abd\"\n\"abcd\"\n世\n界\n\"a \"\n\" a\"\n[closure {} {}]\n(a)\n[dict ()]\n[real 1.5]\n1.5")...)
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	for _, a := range strs {
		for i := 0; i < len(strs); i += 20 {
			j := i + 20
			if j > len(strs) {
				j = len(strs)
			}
			if e.Mine() {
				var st []string
				for _, b := range strs[i:j] {
					for _, o := range ops {
						st = append(st, "string "+a+" "+o+" "+b)
					}
				}
				e.Do("prog", st...)
			}
		}
	}
	for _, o := range ops {
		for _, v := range []string{"()", "a", "[list ()]", "[closure {} {}]", "{x}", "1"} {
			if e.Mine() {
				e.Do("prog", "string "+v+" "+o, "set x "+v+"; string $x "+o+" $x", "string "+v+" "+o+" a b", "string "+o+" "+v, "help string a "+o, "help string a "+o+" b c", "help string a "+o+" b")
			}
		}
	}
	e.Phase("operand forms")
	vals := ln("()\n(a b)\n{a b}\n{}\n{\"}\n[list ()]\n[list (a b)]\nabc\n\"\"\n1\n-2\n1.5\ntrue\n[true]\n[]\n[dict (a b)]\n[parse \"a b\"]\n[closure {} {}]\n[argspec (a b)]\n[int 3]\n[real 4]\n[1 / 3]\n{$a}\n[script (a)]\n[tuple (a)]")
	fs := ln("string @\nstring @ length\nstring @ at 0\nstring @ at 9 d\nstring abc at 9 @\nstring abc at @\nstring abc range @\nstring abc range 0 @\nstring abc range @ 1\nstring @ append @\nstring abc append @\nstring abc append @ x\nstring abc append x @\nstring abc remove @ 1\nstring abc remove 0 @\nstring abc insert @ x\nstring abc insert 1 @\nstring abc replace @ 1 x\nstring abc replace 0 @ x\nstring abc replace 0 1 @\nstring abc == @\nstring @ == abc\nstring @ != @\nstring @ foo\nstring abc @\nstring\nstring @ length x\n\"a@\"\nset x @; string \"$x\"\nidem a$[string @]\nidem abc[@]\nstring @ @\nstring @ subcommands x")
	gen.Product(func(s []string) {
		if e.Mine() {
			e.Do("progb", strings.ReplaceAll(s[1], "@", s[0]))
		}
	}, vals, fs)
}

func enumC19(e *mc.Env) {
	e.Phase("histories")
	probe := `list ([dict $d size] [dict $d has a] [dict $d has b] [dict $d has c] [dict $d get a -] [dict $d get b -] [dict $d get c -] [list [dict $d keys] sort] $d $e)`
	vals := `set s 0; set k (); dict $d foreach (a b) {set s [+ $s 1]; set k ($*k "${a}=$b")}; tuple ($s [list [list $k] sort])`
	ops := ln(`
set d [dict $d add a 1]
set d [dict $d add b 2]
set d [dict $d add a $e]
set d [dict $d add c {x y}]
set d [dict $d remove a]
set d [dict $d remove b]
set d [dict $d remove a b]
set d [dict $d remove z]
set d [dict $d remove]
set d [dict $d merge $e]
set d [dict $d merge]
set d [dict $d merge (a m) $e (a n)]
set d [dict $e merge $d]
set e [dict $d]
set e [dict $d remove a]
set e [dict (b q c r)]
set d [dict ()]
set d [dict (a 1 a 2)]
set d [dict {a 1 b 2}]
set d [dict $d add a]
set d [dict $d merge (a)]
dict $d get zz
set d [dict ($*d x y)]
[dict $d] add a 9
set d [dict $e add "" 0]
`)
	pre := "set d [dict (a A b B)]; set e [dict (c E)]"
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(ops, n, func(s []string) {
			if e.Mine() {
				st := []string{pre}
				for _, o := range s {
					st = append(st, o, probe)
				}
				e.Do("prog", append(st, vals, "list [dict $e keys] sort")...)
			}
		})
	}
	e.Phase("entries")
	// each entry is visited exactly once
	entries := ln("\na 1\na 1 b 2\na 1 b 2 c 3\na 1 a 2\nb 2 a 1 b 3\na 1 b 2 c 3 d 4 e 5\n\"\" x\n1 one 2 two\nk1 1 k2 2 k3 3 k4 4 k5 5 k6 6 k7 7 k8 8 k9 9")
	for _, en := range entries {
		for _, form := range []string{"(" + en + ")", "{" + en + "}", "[list (" + en + ")]", "[dict (" + en + ")]"} {
			if e.Mine() {
				st := []string{"set d [dict " + form + "]; set k (); closure add {v} {set k ($*k $v)}; closure show {} {set r [list [list $k] sort]; set k (); idem $r}",
					"dict $d", "dict " + form + " size", "list [dict $d keys] sort", "list [dict $d keys] length", "list [dict $d values] sort", "list [dict $d values] length", "list [dict $d entries] length",
					"list [dict $d entries] foreach (a b) {add \"${a}=$b\"}; show",
					"list [dict $d entries] foreach e {add \"$e[0]=$e[1]\"}; show",
					"dict $d foreach e {add \"$e[0]=$e[1]\"}; show",
					"dict $d foreach (a b) {add \"${a}=$b\"}; show",
					"dict $d foreach (a) {add \"$a\"}; show",
					"dict $d foreach i (a b) {add \"$i\"}; show",
					"dict $d foreach i (a b) {if [$i == 1] {continue}; add \"$i\"}; show",
					"dict $d foreach i (a b) {if [$i == 2] {break}; add \"$i\"}; show",
					"loop i (a b) $d {add \"$i\"}; show", "loop (a b) $d {add \"${a}=$b\"}; show",
					"dict [dict ($*[dict $d keys])] size",
					"list [dict $d keys] foreach k {add \"${k}=$d($k)\"}; show",
					"tuple [dict $d]", "list [dict $d]",
					"set d3 [dict ()]; dict $d foreach (a b) {set d3 [dict $d3 add $b $a]}; dict $d3",
				}
				if strings.Count(en, " ") < 2 {
					st = append(st, "dict $d keys", "dict $d values", "dict $d entries", "dict $d foreach e {idem $e}", "dict $d foreach (a b c) {}", "dict $d foreach (a (b)) {}", "dict $d foreach x y {idem ($x $y)}", "dict $d foreach e {yield $e; error z}", "dict $d foreach e {return r}", "dict $d foreach e {error r}", "dict $d foreach () {idem 7}", "dict $d foreach e x", "dict $d foreach () e {}", "dict $d foreach e", "dict $d foreach", "dict $d foreach i e {} x")
				}
				e.Do("prog", st...)
			}
		}
	}
	e.Phase("several operands")
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(ln("a\nb\nz\n()\n[]\n1\n{a}\n[list (a)]"), n, func(s []string) {
			if e.Mine() {
				j := strings.Join(s, " ")
				var st []string
				for _, d := range []string{"()", "(a x)", "(a x b y)", "[dict (1 x a y)]"} {
					st = append(st, "dict "+d+" remove "+j, "dict "+d+" get ("+j+")")
				}
				e.Do("prog", st...)
			}
		})
	}
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(ln("()\n(a x)\n(a y b z)\n{a t}\n(b)\n(() c)\n[]\n[list (b u)]\n[dict (a v)]\n$d"), n, func(s []string) {
			if e.Mine() {
				j := strings.Join(s, " ")
				st := []string{"set d [dict (a 1)]"}
				for _, d := range []string{"()", "(a x)", "(c w b y)", "$d", "[dict ()]"} {
					st = append(st, "set r [dict "+d+" merge "+j+"]; tuple ([dict $r size] [dict $r get a -] [dict $r get b -] [dict $r get c -])", "idem $d")
				}
				e.Do("prog", st...)
			}
		})
	}
	e.Phase("operand forms")
	v := ln("()\n(a b)\n(a)\n(a b c)\n{a b}\n{}\n{a}\n{a $[b]}\n{\"}\n[list ()]\n[list (a b)]\nabc\n\"\"\n1\ntrue\n[]\n[dict (a b)]\n[dict ()]\n[closure {} {}]\n(() b)\n([] b)\n(1 b)\n(true b)\n([int 1] b [real 1] c)\n({x} y)\n((a b) c)\n([list ()] c)\n((a b) (c d))\n[argspec (a b)]\n[int 5]\n[dict (a (1 2) b [dict (c d)])]\n(a [])\n([dict ()] a)\n[real 2.5]\n([1 / 3] x)\na")
	ops2 := ln("dict @\ndict @ size\ndict @ has a\ndict @ get a\ndict @ get a d\ndict (a b) has @\ndict (a b) get @\ndict (a b) get @ d\ndict (1 b true c) get @\ndict (a b) get zz @\ndict @ add x y\ndict (a b) add @ y\ndict (a b) add a @\ndict @ remove a\ndict (a b) remove @\ndict (a b) remove x @\ndict @ merge (x y)\ndict (a b) merge @\ndict (a b) merge (c d) @\ndict @ merge @\nlist [dict @ keys] length\nlist [dict @ values] length\nlist [dict @ entries] length\nset x [dict @]; idem $x(a)\nset x @; idem $x(a)\nset x [dict (a b 1 c)]; idem $x(@)\ndict @ foo\ndict (a b) @\n[dict @] size\n[dict @] get a\ndict [dict @]\ndict\ndict @ size x\ndict @ has\ndict @ has a b\ndict @ get\ndict @ get a b c\ndict @ add a\ndict @ add a b c\ndict @ keys x\ndict @ values x\ndict @ entries x\ndict (a b) foreach @ {idem 1}\ndict (a b) foreach i @ {idem 1}\ndict (a b) foreach @ e {idem 1}\ndict (a b) foreach e @\nset x [dict @]; get x(a)\nset x [dict @]; exists x(a)\nset x [dict @]; get x(b) none\nset x [dict (a (u v) b w)]; dict $x get @\nset x [dict (a (u v) b [dict (a z)])]; idem $x(b)(@)\ndict (k @) get k\ndict (a 1 b 2 c 3) get @ d\ndict (a b) subcommands @")
	gen.Product(func(s []string) {
		if e.Mine() {
			e.Do("progb", strings.ReplaceAll(s[1], "@", s[0]))
		}
	}, v, ops2)
	gen.Product(func(s []string) {
		if e.Mine() {
			e.Do("prog", "dict ("+s[0]+" x "+s[1]+" y)", "dict ("+s[0]+" x) add "+s[1]+" y", "dict ("+s[0]+" x) has "+s[1], "dict ("+s[0]+" x) get "+s[1]+" -", "dict ("+s[0]+" x "+s[1]+" y) remove "+s[0], "dict ("+s[0]+" x) merge ("+s[1]+" y)", "set d [dict ("+s[0]+" x "+s[1]+" y z t)]; tuple ($d("+s[0]+") $d("+s[1]+") [dict $d size])", "dict ("+s[0]+" x "+s[1]+" y) get ("+s[0]+" "+s[1]+")", "dict ("+s[0]+" x "+s[1]+" y) get ("+s[0]+" zz) d")
		}
	}, ln("a\nb\n1\n1.0\n[int 1]\n[real 1]\n01\ntrue\n[true]\n\"\"\n\"a b\"\né\n{a}\n()\n(a b)\n[]\n\"a\\x00\""), ln("a\nb\n1\n1.0\n[int 1]\n[real 1]\n01\ntrue\n[true]\n\"\"\n\"a b\"\né\n{a}\n()\n(a b)\n[]\n\"a\\x00\""))
}
