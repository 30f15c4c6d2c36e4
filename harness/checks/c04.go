package checks

import (
	"fmt"
	"strings"

	"vharness/gen"
	"vharness/mc"
)

const pre = `set log ""; closure T {v} {set log "$log$v "; idem $v}; macro Y {v} {yield $v}; `

const vars04 = pre + `set a 1; set n a; set s "x y"; set l [list (10 11 12)]; set t (a n); set d [dict (k v a w)]; set e (); set q {idem z}; set i 2; set (u v) (true k)`

func init() {
	mc.Register(&mc.Check{
		ID: "C04",
		Space: "all words made of up to N raw pieces (dollars, stars, names, tuples, blocks, expressions, strings, here-strings, tagged strings, comments) in several sentence contexts; " +
			"all sentences of up to M words over effects, failures, result codes, yields, expansions; all scripts of short sentences with last-result words; long argument lists and deep nesting. " +
			"Effects are logged so that order and multiplicity of evaluations are observed. State: root variables and outcome after each script.",
		Assume: []string{interp},
		Enum:   enumC04,
		Eval:   progs,
	})
}

func enumC04(e *mc.Env) {
	must(vars04)
	ctx := []string{"idem %", "idem (%)", "list (% b)", "%", "idem \"<%>\"", "idem x%", "idem [idem %]", "T %; T 9", "idem {%}", "T 1; idem % [T 2]", "% b", "idem b(%)", "$$%"}
	pieces := []string{"$", "*", "a", "l", "d", "t", "[T 1]", "(k)", "(a n)", "{k}", "\"n\"", " ", "[list (b c)]", "#{c}#"}
	emit := func(kind, c, w string) {
		if e.Mine() {
			e.Do(kind, vars04, strings.ReplaceAll(c, "%", w), "idem $log")
		}
	}
	e.Phase("words")
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(pieces, n, func(s []string) {
			w := strings.Join(s, "")
			for _, c := range ctx {
				emit("progb", c, w)
			}
		})
	}
	for n := e.Pick(4, 5); n <= e.Pick(4, 5); n++ {
		gen.Seqs(pieces, n, func(s []string) {
			emit("prog", "idem %", strings.Join(s, ""))
			emit("prog", "idem $%", strings.Join(s, ""))
		})
	}
	e.Phase("words with other morphemes")
	more := []string{"$", "*", "a", "t", "l", "[T 1]", "[yield y]", "[error e]", "[]", "()", "(1)", "(0 2)", "[idem 1]", "{last}", "{}", "\"$a\"", "\"s[T 2]\"", "\"\"\"h\"h\"\"\"", "\"\"E\nt\nE\"\"", "\\$", "\\x61", "#", "\\\n", "$a", "$*t", "$e", "$[T l]", "-1", "3", "#{}#", "$$n", "[list ()]", "$q", "\"\""}
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(more, n, func(s []string) {
			emit("prog", "idem %", strings.Join(s, ""))
			if n <= 2 {
				for _, c := range ctx[1:] {
					emit("progb", c, strings.Join(s, ""))
				}
			}
		})
	}
	e.Phase("sentences")
	words := []string{"[T 1]", "$a", "$z", "[error e]", "[yield y]", "[return r]", "[break]", "$*t", "$*[T (p q)]", "()", "\"[T 2]$a\"", "(x [T 3])", "{b}", "#c", "$l[T 0]", "$d([T k])", "$*()", "a$b", "[T 4; T 5]"}
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(words, n, func(s []string) {
			w := strings.Join(s, " ")
			if n < 4 {
				emit("progb", "idem (%)", w)
				emit("progb", "%", w)
			}
			emit("prog", "list (%)", w)
			emit("prog", "idem \"%\"", w)
			if n <= 2 {
				emit("progb", "idem %", w)
				emit("progb", "+ %", w)
				emit("progb", "idem $*[list (%)]", w)
			}
		})
	}
	e.Phase("scripts")
	sents := []string{"T 1", "idem $a", "idem ^", "T ^", "idem [^]", "|> idem", "|> T", "[T 2]", "", "^", "|>", "error x", "return 5", "idem [T 3; ^]", "idem \"[T 4; ^]\"", "idem (a [^])", "yield 6", "break", "a$b", "|> list", "idem a |> idem ^", "|> + 1", "[idem idem] ^", "set a ^", "+ 1 |> + 2 |> T", "#", "idem [|> T]", "idem", "eval {^}", "eval {T ^; ^}", "idem $*[^]"}
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(sents, n, func(s []string) {
			emit("prog", "%", strings.Join(s, ";"))
			if n <= 2 {
				emit("progb", "%\n", strings.Join(s, "\n"))
				emit("progb", "idem <[%]>", strings.Join(s, ";"))
				emit("progb", "eval {%}; ^", strings.Join(s, ";"))
			}
		})
	}
	e.Phase("repeated evaluation of shared code")
	for _, w := range words {
		for _, v := range words {
			if e.Mine() {
				e.Do("prog", vars04, "proc f {x} {idem ($x "+w+" "+v+")}; closure g {x} {list ($x "+v+"); T "+w+"}", "f 1", "g 2", "f 3", "set a 5; g 4", "f [g 1]", "idem $log", "loop i [list (1 2 3)] {f $i}", "idem $log")
			}
		}
	}
	e.Phase("indirections")
	// chains of names: n0 is the name of n1, and so on to a value
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 17} {
		for _, end := range []string{"v", "[list (v w)]", "[dict (k v)]", "(v w)", "[idem n0]", "()"} {
			def := ""
			for i := 0; i < n; i++ {
				def += fmt.Sprintf("set n%d n%d; ", i, i+1)
			}
			def += fmt.Sprintf("set n%d %s; set k n1; set log \"\"; closure T {v} {set log \"$log$v \"; idem $v}", n, end)
			for d := 0; d <= n+3 && d <= 12; d++ {
				dol := strings.Repeat("$", d)
				for _, w := range []string{"n0", "{n0}", "(n0)", "(n0 n1)", "((n0) (n1 n0))", "[idem n0]", "\"n0\"", "[T n0]", "n0[0]", "n0(k)", "n0(v)", "n0[T 1]", "k", "(k)[0]", "zz", "(n0 zz)", "[idem (n0 n1)]"} {
					for _, c := range []string{"idem %", "idem x%", "idem (a %)", "idem \"<%>\"", "list (%)", "idem %y", "idem [idem %]", "idem $*%", "$*%", "idem %%", "get %", "idem ${a}%"} {
						if strings.HasPrefix(c, "idem $*") || c == "$*%" {
							if d == 0 {
								continue
							}
							if e.Mine() {
								e.Do("prog", def, strings.ReplaceAll(c, "$*%", "$*"+dol[1:]+w), "idem $log")
							}
							continue
						}
						if e.Mine() {
							e.Do("progb", def, strings.ReplaceAll(c, "%", dol+w), "idem $log")
						}
					}
				}
			}
		}
	}
	e.Phase("long and deep")
	rep := func(s string, n int) string { return strings.TrimSpace(strings.Repeat(s+" ", n)) }
	for _, n := range []int{1, 2, 3, 15, 16, 17, 31, 32, 33, 61, 62, 63, 64, 65, 66, 67, 100, 127, 128, 129, 130, 200, 257, 300} {
		for _, w := range []string{"a", "[T 1]", "$a", "$*t", "(b)", "$l[1]", "\"$a.\"", "[idem [idem 2]]"} {
			ws := rep(w, n)
			emit("progb", "idem (%)", ws)
			emit("progb", "list (%)", ws)
			emit("prog", "idem \"%\"", strings.ReplaceAll(ws, "\"", "\\\""))
			emit("prog", "idem [list (%)]", ws)
			emit("prog", "idem (x $*[list (%)] y)", ws)
			emit("prog", "macro m {*x} {idem ($*x)}; m %; idem [m %]; m x [m %] y", ws)
			emit("prog", "+ %", rep("1", n))
			emit("prog", "[list (%)] length", ws)
			emit("prog", "%", strings.Repeat("idem [", n)+"T 1"+strings.Repeat("]", n))
			emit("prog", "idem %", strings.Repeat("(", n)+w+strings.Repeat(")", n))
			emit("prog", "eval %", strings.Repeat("{eval ", n)+"{T 1}"+strings.Repeat("}", n))
			emit("prog", "idem %", strings.Repeat("\"[idem ", n)+w+strings.Repeat("]\"", n))
			emit("prog", "idem $l%", rep("[idem 0]", n))
			emit("prog", "%", strings.TrimSuffix(strings.Repeat("T 1;", n), ";"))
		}
	}
}
