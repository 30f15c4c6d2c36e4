package checks

import (
	"fmt"
	"strings"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C26",
		Space: "every command and subcommand (built-in, of values, of metacommands, user-defined with every argument specification up to a length, nested in namespaces and ensembles to depth three, extended, aliased, imported, anonymous, given as a tuple) with every number of arguments up to nine and every argument list over several kinds of words up to a length, called and passed to help, directly and through prefixes, with logged argument evaluations; " +
			"in addition, on the implementation alone, the numbers of arguments accepted by each command and by its help are compared with those its usage text admits. State: outcome, log.",
		Assume: []string{interp, "usage texts are read as: word = one argument, ?words? = optional arguments, ?words ...? = repeatable arguments"},
		Enum:   enumC26,
		Eval:   with(progs, map[string]func([]string) mc.Out{"usage": evalUsage}),
	})
}

// usageCounts returns which numbers of words up to max a usage text admits.
func usageCounts(u string, max int) []bool {
	type part struct {
		n      int
		opt, r bool
	}
	var ps []part
	words := func(s string) int {
		n := 0
		depth := 0
		in := false
		for _, c := range s {
			switch {
			case c == '{' || c == '(':
				depth++
				in = true
			case c == '}' || c == ')':
				depth--
			case c == ' ' && depth == 0:
				if in {
					n++
				}
				in = false
			default:
				in = true
			}
		}
		if in {
			n++
		}
		return n
	}
	for u != "" {
		u = strings.TrimLeft(u, " ")
		if u == "" {
			break
		}
		if u[0] == '?' && len(u) > 1 && u[1] != ' ' {
			end := 1 + strings.IndexByte(u[1:], '?')
			if end > 0 {
				in := u[1:end]
				u = u[end+1:]
				if strings.HasSuffix(in, " ...") {
					ps = append(ps, part{words(strings.TrimSuffix(in, " ...")), true, true})
				} else {
					ps = append(ps, part{words(in), true, false})
				}
				continue
			}
		}
		end, depth := 0, 0
		for end < len(u) && (depth > 0 || u[end] != ' ') {
			if u[end] == '{' || u[end] == '(' {
				depth++
			} else if u[end] == '}' || u[end] == ')' {
				depth--
			}
			end++
		}
		ps = append(ps, part{1, false, false})
		u = u[end:]
	}
	ok := make([]bool, max+1)
	ok[0] = true
	for _, p := range ps {
		next := make([]bool, max+1)
		for i, k := range ok {
			if !k {
				continue
			}
			if p.opt {
				next[i] = true
			}
			for j := i + p.n; j <= max; j += p.n {
				next[j] = true
				if !p.r {
					break
				}
			}
		}
		ok = next
	}
	return ok
}

// evalUsage compares the calls that a command accepts with those that its
// usage admits: fields are the setup, the words of the command and the word
// used as argument.
func evalUsage(f []string) (o mc.Out) {
	w := impl.NewWorld(impl.Options{})
	if r := w.Eval(f[0]); !strings.HasPrefix(r[len(r)-1], "ok") {
		panic(fmt.Sprint(f, r))
	}
	head, word := f[1], f[2]
	show := func(src string) string {
		r := w.Eval(src)
		return r[len(r)-1]
	}
	h := show("help " + head)
	if strings.HasPrefix(h, `error "no help for command`) {
		// some commands have no help (compared with the model above)
		o.Skip = true
		return
	}
	if !strings.HasPrefix(h, `ok "`) {
		o.Diff = "help " + head + " gives " + h
		return
	}
	u := strings.TrimSuffix(strings.TrimPrefix(h, `ok "`), `"`)
	const max = 12
	counts := usageCounts(u, max)
	given := len(strings.Fields(stripGroups(head)))
	can := func(n int) bool { // some longer call is admitted
		for m := n; m <= max; m++ {
			if counts[m] {
				return true
			}
		}
		return false
	}
	for n := 0; given+n <= max-1; n++ {
		args := strings.Repeat(" "+word, n)
		r := show(head + args)
		rejected := strings.HasPrefix(r, "error \"wrong # args: should be ") || strings.HasPrefix(r, "error \"wrong # operands: should be ")
		if rejected && !strings.HasSuffix(r, `should be \"`+u+`\""`) {
			// a command evaluated by this one, or another usage
			if counts[given+n] {
				rejected = false
			} else {
				o.Diff = fmt.Sprintf("%s%s: rejected with %s, help says %q", head, args, r, u)
				return
			}
		}
		if rejected == counts[given+n] {
			o.Diff = fmt.Sprintf("%s%s gives %s, its usage is %q", head, args, r, u)
			return
		}
		r = show("help " + head + args)
		if ok := strings.HasPrefix(r, "ok "); ok != can(given+n) {
			o.Diff = fmt.Sprintf("help %s%s gives %s, the usage is %q", head, args, r, u)
			return
		}
		o.Steps += 2
	}
	o.Traces = 1
	o.States = []uint64{mc.Hash(u)}
	return
}

// stripGroups replaces every bracketed group by one word.
func stripGroups(s string) string {
	var b strings.Builder
	depth := 0
	for _, c := range s {
		switch c {
		case '(', '[', '{':
			if depth == 0 {
				b.WriteByte('g')
			}
			depth++
		case ')', ']', '}':
			depth--
		default:
			if depth == 0 {
				b.WriteRune(c)
			}
		}
	}
	return b.String()
}

var builtins26 = sp("idem return yield tailcall error break continue pass eval help ^ |> let set get exists unset list dict string tuple script argspec int real bool true false ! && || + - * / if when while loop catch scope namespace ensemble coroutine alias closure macro proc module import export parse numbers if")

// heads of subcommands: one line per value, then its subcommands
const values26 = `
list (a b): length at range append remove insert replace sort foreach subcommands zork
dict (a b): size has get add remove merge keys values entries foreach subcommands zork
string ab: length at range append remove insert replace == != > >= < <= subcommands zork
tuple (a b): length at subcommands zork
script {a b}: length append split subcommands zork
argspec (a ?b): usage set subcommands zork
int 1: subcommands zork
real 1: subcommands zork
bool true: subcommands zork
true: ? !? subcommands zork
false: ? !? subcommands zork
1: + - * / == != > >= < <= subcommands zork
[closure {a} {}]: argspec subcommands zork
[macro {a} {}]: argspec subcommands zork
[proc {a} {}]: argspec subcommands zork
[alias al idem]: command subcommands zork
[namespace {}]: eval call import subcommands zork
[scope {}]: eval call subcommands zork
[ensemble {} {}]: eval call argspec subcommands zork
[coroutine {}]: wait active done subcommands zork
[module {}]: import exports subcommands zork
[list]: eval call argspec subcommands zork
[string]: eval call argspec subcommands zork
[dict]: eval call argspec subcommands zork
[argspec]: eval call argspec subcommands zork
`

const defs26 = `namespace ns {closure c {a ?b} {idem $a}; proc p {*r} {idem $r}; macro m {} {idem m}; alias al (c x); ensemble ens {x} {closure s {x a ?b} {idem $a}; namespace nn {closure d {a} {idem $a}}}; namespace in {closure e {a b} {idem $b}}}; ` +
	`ensemble ens {x ?y} {closure s {x y a ?b} {idem $a}}; ensemble en {x (int y)} {closure s {x y a ?b} {idem $a}; macro t {x y *r} {idem $r}; proc u {x} {idem u}; alias al list; alias ai idem; namespace nn {closure d {a ?c} {idem $a}}; ensemble sub {q r z} {closure f {q r z a} {idem $a}; macro g {*w} {idem g}}}; ` +
	`ensemble e0 {} {closure s {a} {idem $a}; alias w while}; scope sc {closure c {a ?b} {idem $a}}; module mo {closure c {a} {idem $a}; export c}; set co [coroutine {}]; ` +
	`[list] eval {proc foo {v a ?b} {idem $a}}; [string] eval {macro bar {v} {idem $v}; alias eq0 idem}; [dict] eval {ensemble baz {d k} {closure get2 {d k ?e} {idem $k}}}; closure c {a ?b} {idem $a}; alias ac (c 1); alias al2 (ens 1); alias als (en 1 2 s); alias at (list (a b))`

func enumC26(e *mc.Env) {
	pre := lib.forText("T")
	must(pre)
	defs := strings.Replace(defs26, "ensemble ens {x ?y} {closure s {x y a ?b} {idem $a}}; ", "", 1)
	must(defs)
	emit := func(kind string, steps ...string) {
		if e.Mine() {
			e.Do(kind, append(append([]string{pre}, steps...), "idem $log")...)
		}
	}
	fills := []string{"a", "1", "()", "{}", "[list ()]", "[dict ()]", "true", "[]", "{idem x}", "(idem x)", "[T x]", "[closure {*a} {idem x}]"}
	both := func(kind, setup, head string, n int, fs []string) {
		for k := 0; k <= n; k++ {
			for _, f := range fs {
				a := strings.Repeat(" "+f, k)
				emit(kind, setup, head+a, "help "+head+a, "help ("+head+a+")", "("+head+")"+a, "alias zz ("+head+"); zz"+a, "help zz"+a, "[idem "+strings.Fields(head)[0]+"]")
				if k == 0 {
					break
				}
			}
		}
	}
	e.Phase("every command")
	for _, c := range builtins26 {
		both("progb", "idem 0", c, e.Pick(9, 12), fills)
		for n := 1; n <= e.Pick(3, 4); n++ {
			gen.Seqs([]string{"a", "{}", "()", "1", "[T x]", "{idem y}", "subcommands"}, n, func(s []string) {
				j := strings.Join(s, " ")
				emit("prog", c+" "+j, "help "+c+" "+j)
			})
		}
	}
	e.Phase("every subcommand")
	for _, l := range ln(values26) {
		v, subs, _ := strings.Cut(l, ": ")
		both("prog", "idem 0", v, e.Pick(5, 7), fills)
		for _, s := range strings.Fields(subs) {
			both("prog", "idem 0", v+" "+s, e.Pick(7, 9), fills)
			n := 3
			if e.Thorough {
				n = 4
			}
			for k := 1; k <= n; k++ {
				gen.Seqs([]string{"a", "{}", "()", "1", "[T x]", s}, k, func(w []string) {
					j := strings.Join(w, " ")
					emit("prog", v+" "+s+" "+j, "help "+v+" "+s+" "+j)
				})
			}
		}
		h := strings.Fields(v)[0]
		for k := 0; k <= 4; k++ {
			gen.Seqs([]string{"a", "()", strings.Fields(subs)[0], "subcommands", "foo", "1"}, k, func(w []string) {
				j := strings.Join(w, " ")
				if !strings.HasPrefix(v, "[") {
					emit("prog", defs, h+" "+j, "help "+h+" "+j)
				}
			})
		}
	}
	e.Phase("user-defined")
	parts := []string{"a", "?b", "*c", "(int d)", "(?e v)", "(int ?f v)", "-o g", "?-p? h", "?-q? ?i", "?-r? (?j v)"}
	kinds := []string{"closure f SPEC {T body}", "macro f SPEC {T body}", "proc f SPEC {T body}", "ensemble f SPEC {closure s {*x} {T sub}}", "set f [closure SPEC {T body}]; alias f [idem $f]", "namespace nn {closure f SPEC {T body}}; alias f (nn f)", "ensemble nn {p} {macro f {p *z} {T pre}; proc f SPEC {T body}}; alias f (nn 1 f)"}
	for n := 0; n <= e.Pick(3, 4); n++ {
		gen.Seqs(parts, n, func(s []string) {
			spec := "(" + strings.Join(s, " ") + ")"
			for i, k := range kinds {
				if n == 3 && i > 3 || n == 4 && i != 0 {
					continue
				}
				def := strings.ReplaceAll(k, "SPEC", spec)
				for m := 0; m <= n+2; m++ {
					a := strings.Repeat(" 1", m)
					b := strings.Repeat(" -o", m)
					steps := []string{def, "f" + a, "help f" + a}
					if m > 0 {
						steps = append(steps, "help f"+b, "f"+b)
					}
					if m == 0 {
						steps = append(steps, "argspec "+spec+" usage", "[argspec "+spec+"] usage", "[[f]] argspec", "[f] argspec", "help f [T x]")
					}
					emit("prog", steps...)
				}
			}
		})
	}
	e.Phase("nested")
	w := []string{"ns", "ens", "en", "e0", "sc", "mo", "sub", "s", "c", "p", "m", "al", "in", "1", "a"}
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(w, n, func(s []string) {
			switch s[0] {
			case "ns", "en", "e0", "sc", "mo":
			default:
				return
			}
			j := strings.Join(s, " ")
			emit("prog", defs, "help "+j, j, "help ("+s[0]+") "+strings.Join(s[1:], " "))
		})
	}
	tails := ln("\n1\n1 2\n1 2 3\n1 2 3 4\n1 2 3 4 5")
	for _, h := range ln("ns\nns c\nns p\nns m\nns al\nns ens\nns ens 1\nns ens 1 s\nns ens 1 nn\nns ens 1 nn d\nns in\nns in e\nns zork\nns subcommands\nns subcommands x\nns ()\nns {}\nns ens ()\nns ens 1 ()\nns ens 1 subcommands\nns in subcommands\nns in ()\nen subcommands\nen 1 subcommands\nen 1 2 subcommands\nen ()\nen 1 ()\nen 1 2 ()\nsc subcommands\nsc ()\nmo subcommands\nmo ()\nmo exports\nmo zork\nlist subcommands\nlist ()\nlist (a) subcommands\nlist (a) ()\nstring s subcommands\nstring s ()\ndict (a b) subcommands\n$co subcommands\n$co ()\n[en] subcommands\n[en] ()\n[ns] subcommands\n[ns] ()\n[ns] call ()\n[c] ()\n[c] subcommands\nen\nen 1\nen 1 2\nen 1 2 s\nen 1 2 t\nen 1 2 u\nen 1 2 al\nen 1 2 al (a) length\nen 1 2 ai\nen 1 2 nn\nen 1 2 nn d\nen 1 2 sub\nen 1 2 sub 3\nen 1 2 sub 3 f\nen 1 2 sub 3 g\nen 1 2 zork\nen a b s\ne0\ne0 s\ne0 w\nsc\nsc call\nsc eval\nmo\nmo import\n$co\n$co wait\nlist (a) foo\nstring s bar\nstring s eq0\ndict (a b) baz\ndict (a b) baz a\ndict (a b) baz a get2\nac\nals\nat\nat length\nat foo\nal2\nal2 s\n(ns c)\n((ns) c)\n[ns]\n[ns] call\n[ns] call c\n[en] call s\n[en] argspec\n[c]\n[c] argspec\n[[en] call sub]\n[closure {a ?b} {}]\n[idem ns] c\n[idem en] 1 2 s\nhelp\nhelp help\nhelp ns c\n(help ns) c") {
		for _, t := range tails {
			emit("progb", defs, "help "+h+" "+t, h+" "+t, "help ("+h+") "+t, "alias zz ("+h+")", "zz "+t, "help zz "+t, "namespace deep {alias y ("+h+"); namespace deeper {alias y ("+h+")}}; help deep y "+t, "help deep deeper y "+t, "ensemble ey {} {alias y ("+h+")}; help ey y "+t, "ensemble ez {k} {alias y ("+h+")}; help ez 1 y "+t, "[ns] import c cc; help cc "+t)
		}
	}
	e.Phase("usage")
	usage := func(setup, head string) {
		for _, f := range []string{"a", "1", "()", "{}", "[list ()]"} {
			if e.Mine() {
				e.Do("usage", setup, head, f)
			}
		}
	}
	for _, c := range sp("idem return yield error break continue pass eval let set get exists unset ! && || + - * / while closure macro proc namespace scope ensemble coroutine alias module import parse when list dict string tuple script argspec int real bool help") {
		switch c {
		case "list", "dict", "string", "tuple", "script", "argspec", "help", "int", "real", "bool", "!":
			continue
		}
		usage("idem 0", c)
	}
	for _, l := range ln(values26) {
		v, subs, _ := strings.Cut(l, ": ")
		if v == "1" || strings.HasPrefix(v, "[list]") || strings.HasPrefix(v, "[string]") || strings.HasPrefix(v, "[dict]") || strings.HasPrefix(v, "[argspec]") {
			continue
		}
		for _, s := range strings.Fields(subs) {
			if s == "zork" {
				continue
			}
			usage("idem 0", v+" "+s)
		}
	}
}
