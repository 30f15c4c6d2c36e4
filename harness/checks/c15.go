package checks

import (
	"fmt"
	"strings"

	"vharness/gen"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C15",
		Space: "all specifications up to a number of elements over every element form (required, optional, default, remainder, guarded, options, aliases and flags, with effects in defaults and guards), applied to all value lists up to a length over values, option names, unknown options and the terminator, through direct setting and through calls of procedures, closures and macros; " +
			"all element sequences up to a length over malformed elements; usage, help and arity messages of each; failing, breaking and yielding defaults and guards. State: outcome, bound names and effect log.",
		Assume: []string{interp},
		Enum:   enumC15,
		Eval:   progs,
	})
}

// element forms; @ is the argument name, # the option letter
var specForms = ln(`
@
?@
(?@ d@)
*@
(int @)
(int ?@)
((T) ?@ {T d})
(?@ {T e@})
((T) *@)
-# @
-# ?@
-# (?@ d@)
?-# ?@
(-# --long#) @
-# (int @)
-# (int ?@)
(?-# ?-l#) ?@
-# (?@ {T o})
`)

func specOf(forms []string) (spec string, names, opts []string) {
	var out []string
	for i, f := range forms {
		n, o := string(rune('a'+i)), string(rune('o'+i))
		out = append(out, strings.ReplaceAll(strings.ReplaceAll(f, "@", n), "#", o))
		names = append(names, n)
		if strings.Contains(f, "#") {
			opts = append(opts, "-"+o)
			if strings.Contains(f, "--long#") {
				opts = append(opts, "--long"+o)
			}
		}
	}
	return strings.Join(out, " "), names, opts
}

func enumC15(e *mc.Env) {
	base := lib.forText("T")
	must(base)
	probe := func(names []string) string {
		s := ""
		for _, n := range names {
			s += " [get " + n + " -]"
		}
		return s
	}
	// one item defines the command and makes all the calls
	calls := func(names []string, spec string, both bool, lists []string) {
		if e.Mine() {
			steps := []string{base, "argspec (" + spec + ")", "argspec (" + spec + ") usage", "proc q (" + spec + ") {T call; list (" + probe(names) + ")}", "help q"}
			for _, l := range lists {
				steps = append(steps, "q "+l)
				if !both {
					continue
				}
				steps = append(steps, "scope {T [catch {argspec ("+spec+") set ("+l+"); idem ok} error e {idem $e}]; list ("+probe(names)+")}")
			}
			e.Do("prog", append(steps, "idem $log")...)
		}
	}
	e.Phase("binding")
	for n := 0; n <= 3; n++ {
		gen.Seqs(specForms, n, func(s []string) {
			spec, names, opts := specOf(s)
			vals := []string{"1", "x"}
			max := e.Pick(5, 6)
			if len(opts) > 0 {
				vals = append(append([]string{"1"}, opts...), "--")
				max = e.Pick(4, 6)
				if len(vals) > 4 && !e.Thorough {
					vals = vals[:len(vals)-1]
				}
				if len(vals) > 4 {
					max = e.Pick(3, 5)
				}
			} else if strings.Contains(spec, "int") {
				vals = []string{"1", "2", "x"}
				max = e.Pick(4, 5)
			}
			if n == 3 && !e.Thorough {
				max--
			}
			var lists []string
			for k := 0; k <= max; k++ {
				gen.Seqs(vals, k, func(v []string) { lists = append(lists, strings.Join(v, " ")) })
			}
			if len(opts) > 0 && n < 3 {
				for k := 1; k <= 4; k++ {
					gen.Seqs([]string{"1", "-z", "()", opts[0], "--"}, k, func(v []string) { lists = append(lists, strings.Join(v, " ")) })
				}
			}
			calls(names, spec, n < 3 || e.Thorough, lists)
		})
	}
	e.Phase("longer specifications")
	pos := ln("@\n?@\n(?@ d@)\n*@\n-# @\n-# ?@\n?-# ?@")
	for n := 4; n <= e.Pick(5, 6); n++ {
		gen.Seqs(pos, n, func(s []string) {
			spec, names, opts := specOf(s)
			var lists []string
			if len(opts) == 0 {
				for k := 0; k <= n+2; k++ {
					lists = append(lists, strings.Join(strings.Fields("1 2 3 4 5 6 7 8")[:k], " "))
				}
			} else if strings.Count(spec, "*") <= 1 {
				v := append([]string{"1"}, opts...)
				max := 4
				if len(v) > 3 || n > 4 {
					max = 2
				}
				for k := 0; k <= max; k++ {
					gen.Seqs(v, k, func(v []string) { lists = append(lists, strings.Join(v, " ")) })
				}
				// all orders of the options between positional values
				var in []string
				for i := range s {
					if s[i][0] == '-' {
						in = append(in, fmt.Sprintf("-%c v%d", 'o'+i, i))
					} else if s[i][0] == '?' && s[i][1] == '-' {
						in = append(in, fmt.Sprintf("-%c", 'o'+i))
					} else {
						in = append(in, fmt.Sprintf("p%d", i))
					}
				}
				if n <= 4 || e.Thorough {
					gen.Perms(in, func(p []string) { lists = append(lists, strings.Join(p, " ")) })
				}
				lists = append(lists, strings.Join(in, " "), strings.Join(in, " ")+" x", strings.Join(in, " -- "), "-- "+strings.Join(in, " "))
			} else {
				lists = []string{""}
			}
			calls(names, spec, e.Thorough, lists)
		})
	}
	e.Phase("malformed specifications")
	mal := ln(`
a
?a
*a
*
?
""
-o
--
-
?-f
?-
()
(a)
(?a)
(*a)
(? d)
(a b)
(a b c)
(a ?b c)
(?a b c)
(a b c d)
(() a)
(a ())
(a *b)
(a *b c)
(-o)
(-o -p)
(-o ?-p)
(?-o -p)
(-o a)
(-o -o)
(-o ())
[]
[list ()]
[list (?x d)]
{?y d}
{-q -r}
{a "}
[dict (a b)]
({-o $x} a)
({$x} a)
(({$x}) a)
(({-o $x}))
(({$x}))
{$x}
({-o} a)
({-o; -p} ?a)
({-o} {-p} a)
({?-o})
({a} b)
(() a b c)
([list ()] a b c d)
((a b) c d e)
({k} a)
(-o {a})
(-o {?a d})
(-o {a "})
[1 + 1]
**
?*x
*?x
b
?b
*b
a-o
[list (-s)]
[true]
`)
	for n := 0; n <= e.Pick(2, 3); n++ {
		gen.Seqs(mal, n, func(s []string) {
			if e.Mine() {
				t := strings.Join(s, " ")
				e.Do("prog", "argspec ("+t+")", "argspec ("+t+") usage", "proc q ("+t+") {idem done}", "help q", "q", "q 1", "q 1 2 3 4 5", "argspec {"+t+"}", "argspec {"+t+"} set (1 2)", "get a none", "closure r {"+t+"} {idem $a}; r 1", "ensemble en ("+t+") {}")
			}
		})
	}
	if !e.Thorough {
		gen.Seqs(mal[:30], 3, func(s []string) {
			if e.Mine() {
				t := strings.Join(s, " ")
				e.Do("prog", "argspec ("+t+") usage", "proc q ("+t+") {idem done}", "q 1 2 3")
			}
		})
	}
	// every tuple of atoms as a single element, alone or followed by a name
	e.Phase("element forms")
	atoms := ln("a\n?a\n?abc\n*a\n-o\n-pq\n?-f\n?-gh\n-\n--\n?--\n?\n?b\n*\n\"\"\n()\n[]\n{T d}\n1\n[list (-o)]\n---")
	forms := func(n int, atoms []string) {
		gen.Seqs(atoms, n, func(s []string) {
			t := "(" + strings.Join(s, " ") + ")"
			for _, sp := range []string{t, t + " z", "y " + t + " z"} {
				if e.Mine() {
					e.Do("prog", base, "argspec ("+sp+") usage", "proc q ("+sp+") {list ([get a -] [get b -] [get abc -] [get bc -] [get z -] [get o -])}", "help q", "q", "q 1", "q 1 2", "q -o 1", "q -pq 1", "q -f 1", "q 1 -gh 2", "argspec {"+sp+"} usage", "idem $log")
				}
			}
		})
	}
	for n := 1; n <= 3; n++ {
		forms(n, atoms)
	}
	forms(4, atoms[:e.Pick(9, len(atoms))])
	e.Phase("defaults and guards")
	// evaluation of defaults and guards: when, how often, in which scope
	defs := ln("d\n{T d}\n{error ed}\n{break}\n{return r}\n{yield y}\n{idem}\n{set b changed}\n{T $x}\n{T $b}\n(1 2)\n{}\n$x\n{T a; return [T b]; T c}\n{pass}\n{k}\n{set x inner; T $x}\n{continue}\n{let nw 1}")
	guards := ln("int\n(T)\nT\n{T}\n(error)\n(break)\n(return)\n(yield)\n(idem $x)\nnone\n()\n[[closure {v} {T \"<${v}>\"}]]\n[[closure {v} {set x seen; idem [T \"$v$x\"]}]]\n[[macro {v} {T $v; set x m; idem [exists b]}]]\n[[proc {v} {idem p$v}]]\n(set w)\n((idem) 2)\nbad\nk\n(let nw)\n(list (a b c) at)\n[[closure {v} {continue}]]\n[[closure {v} {pass}]]")
	type tc struct{ def, call string }
	kinds := []tc{
		{"proc q (S) {T body; list ([get a -] [get b -] [get x -])}", "q "},
		{"closure q (S) {T body; list ([get a -] [get b -] [get x -])}", "q "},
		{"macro q (S) {T body; list ([get a -] [get b -] [get x -])}", "q "},
		{"set q [[proc (S) {T body; list ([get a -] [get b -])}]]", "$q "},
		{"namespace ns {set x nsx; closure k {args *} {T [idem nsk]}; proc q (S) {T body; list ([get a -] [get b -] [get x -])}}", "ns q "},
		{"scope sc {set x scx; closure q (S) {T body; list ([get a -] [get b -] [get x -])}}; closure q args {sc call q}; closure r {} {sc eval {q}}", "sc call q "},
		{"closure mk {} {let x lx; idem [[proc (S) {T body; list ([get a -] [get b -])}]]}; set q [mk]", "$q "},
	}
	pre := base + "; set x gx; closure k {*args} {T gk}"
	for _, k := range kinds {
		emit := func(spec string, lists ...string) {
			if e.Mine() {
				steps := []string{pre, strings.Replace(k.def, "S", spec, 1)}
				for _, l := range lists {
					steps = append(steps, k.call+l, "idem [T next]", "list ([get x -] [get b -] [exists nw] [get w -])")
				}
				e.Do("progb", append(steps, "idem $log")...)
			}
		}
		for _, d := range defs {
			emit("?b (?a "+d+")", "", "1", "1 2")
			emit("(?a "+d+") b", "1", "1 2")
			emit("(?a "+d+") *b", "", "1 2 3")
			emit("b -o (?a "+d+")", "1", "1 -o 2")
			emit("(?b {T first}) (?a "+d+")", "", "1", "1 2")
			for _, g := range guards {
				emit("("+g+" ?a "+d+") ?b", "", "1", "x 2")
			}
		}
		for _, g := range guards {
			emit("("+g+" a) ?b", "1", "x", "[list (1 2)]", "1 2")
			emit("b ("+g+" ?a)", "1", "2 1")
			emit("("+g+" *a) b", "1", "2 1", "1 2 3")
			emit("-o ("+g+" a) b", "-o 1 2", "-o x 2", "2")
			emit("?-f ("+g+" ?a) b", "-f 2", "2")
			for _, h := range guards {
				emit("("+g+" a) ("+h+" b)", "1 2", "x y", "1")
			}
		}
	}
	e.Phase("setting")
	// direct setting: all or nothing, constants, locals, forms of values
	for _, spec := range ln("a b\na ?b\na *b\n-o a b\n(int a) b\na (int b)\n(?a {T d}) b\n?-f ?a b\na (?b {error e})\na (a b)\n?a ?b ?c\n*a\n* b\na -o ?b -p ?c") {
		for _, vals := range ln("()\n(1)\n(1 2)\n(x 2)\n(1 x)\n(1 2 3)\n(-o 1 2)\n(-f 2)\n{1 2}\n[list (1 2)]\n{1 $[T z]}\n{\"}\nx\n[dict (a b)]\n(1 -o 2)\n(1 -p 2 -o 3)\n((1 2) 3)\n([] 2)") {
			for _, st := range []string{"idem 0", "let a 0", "let b 0", "set a 0; set b 0", "let c 9", "set b 0; let a 0"} {
				for _, wrap := range []string{"%", "scope {%; list ([get a -] [get b -])}", "proc pp {a} {%; list ([get a -] [get b -])}; pp zz", "[[closure {b} {%; list ([get a -] [get b -])}]] 5", "loop i a [list (l1 l2)] {%; T [get a -]}"} {
					if strings.HasPrefix(wrap, "loop") && (strings.Contains(st, "let b") || strings.Contains(st, "let c")) || strings.HasPrefix(wrap, "[[closure") && (strings.Contains(st, "let a") || strings.Contains(st, "let c")) {
						continue // two names cannot be set: which one is reported is unspecified
					}
					for _, op := range []string{"argspec (" + spec + ") set " + vals, "set s [argspec (" + spec + ")]; argspec $s set " + vals, "idem [argspec {" + spec + "}]; argspec [list (" + spec + ")] set " + vals} {
						if e.Mine() {
							e.Do("prog", base+"; "+st, strings.Replace(wrap, "%", op, 1), "list ([get a -] [get b -] [get c -] [get * -] [exists s])", "idem $log")
						}
					}
				}
			}
		}
	}
}
