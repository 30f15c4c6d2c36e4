package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C24",
		Space: "all import graphs over three module files whose imports are drawn, in every order and number, from each other, themselves, failing, malformed, missing and well-formed files, caught or not, with all sequences of imports by the main script; every load, export and call observed; " +
			"all forms of exports and imports over modules defining commands of every kind; all histories of imports, redefinitions, file creations, changes and removals; all spellings of the path of one file across directories. " +
			"Real files are written in a scratch directory. State: log kept by a shared module, exports and outcomes after each step.",
		Assume: []string{interp, "the file system returns what was written; symbolic links are not explored"},
		Enum:   enumC24,
		Eval: map[string]func([]string) mc.Out{
			"mod":  func(f []string) mc.Out { return evalModules(f, false) },
			"modc": func(f []string) mc.Out { return evalModules(f, true) },
		},
	})
}

// evalModules runs steps over real files. Steps starting with ! change files:
// "!name content" writes one, "!-name" removes one.
func evalModules(f []string, capture bool) (o mc.Out) {
	dir, err := os.MkdirTemp("", "vh24")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	files := map[string]string{}
	w := impl.NewWorld(impl.Options{Capture: capture, Dir: dir})
	m := ref.NewWorldWith(dir, files)
	defer m.Close()
	defer func() {
		if e := recover(); e != nil {
			if _, k := e.(ref.OutOfFuel); k {
				o.Skip = true
				return
			}
			panic(e)
		}
	}()
	o.Traces = 1
	for k, s := range f {
		if strings.HasPrefix(s, "!-") {
			p := filepath.Join(dir, s[2:])
			os.Remove(p)
			delete(files, p)
			continue
		}
		if strings.HasPrefix(s, "!") {
			n, c, _ := strings.Cut(s[1:], " ")
			p := filepath.Join(dir, n)
			if strings.Contains(n, "/") {
				if err := os.MkdirAll(filepath.Dir(p), 0o700); err != nil {
					panic(err)
				}
			}
			if err := os.WriteFile(p, []byte(c), 0o600); err != nil {
				panic(err)
			}
			files[p] = c
			continue
		}
		s = strings.ReplaceAll(s, "@DIR@", dir)
		exp := impl.EvalRef(m, s)
		got := w.Eval(s)
		o.States = append(o.States, mc.Hash(append([]string{strings.ReplaceAll(m.Snapshot(), dir, "")}, strings.ReplaceAll(strings.Join(exp, "|"), dir, ""))...))
		if d := diffTrace(exp, got); d != "" {
			o.Diff = fmt.Sprintf("step %d %q: %s", k, s, strings.ReplaceAll(d, dir, "DIR"))
			return
		}
	}
	o.Steps = m.Used()
	return
}

func enumC24(e *mc.Env) {
	logger := "!log set log \"\"; closure T {v} {set log \"$log$v \"; idem $v}; closure show {} {idem $log}; export T; export show"
	emit := func(kind string, steps ...string) {
		if e.Mine() {
			e.Do(kind, append([]string{logger}, steps...)...)
		}
	}
	e.Phase("graphs")
	content := func(name string, imps []string) string {
		s := "!" + name + " import log (T); T in" + name + "; "
		for i, x := range imps {
			c := strings.HasSuffix(x, "?")
			x = strings.TrimSuffix(x, "?")
			st := fmt.Sprintf("import %s m%d", x, i)
			switch x {
			case "a", "b", "c":
				st = fmt.Sprintf("import %s m%d; m%d import f%s; T [f%s %s]", x, i, i, x, x, name)
			}
			if c {
				st = "catch {" + st + "} error e {T \"<${e}>\"}"
			}
			s += st + "; "
		}
		return s + "T out" + name + "; set n 0; closure f" + name + " {by} {set n [+ $n 1]; T \"" + name + "$n$by\"}; export f" + name
	}
	targets := ln("a\nb\nc\na?\nb?\nc?\nbad?\nerr?\nnone?\nyld?\nerr")
	var lists, short [][]string
	for n := 0; n <= 2; n++ {
		gen.Seqs(targets, n, func(s []string) {
			if n == 2 && !e.Thorough && (strings.TrimSuffix(s[0], "?") > "c" || strings.HasSuffix(s[1], "?") != strings.HasSuffix(s[0], "?")) {
				return
			}
			lists = append(lists, append([]string{}, s...))
			if n < 2 {
				short = append(short, append([]string{}, s...))
			}
		})
	}
	fixed := []string{"!bad import log (T); T badin; {", "!err import log (T); T errin; closure ferr {} {}; export ferr; error boom", "!yld import log (T); T yldin; yield x; T yldout"}
	main := [][]string{
		{"import a", "import b", "import c", "import a ma; ma import fa; fa main", "import b mb; mb import fb; fb main", "catch {import a x; x import fa; fa main}"},
		{"import c mc; mc import fc; fc main", "import a (fa); fa main", "import b (fb); fb main", "import c (fc); fc main"},
	}
	gr := func(a, b, c []string) {
		if !e.Mine() {
			return
		}
		for _, m := range main {
			st := append([]string{logger, content("a", a), content("b", b), content("c", c)}, fixed...)
			st = append(st, m...)
			e.Do("mod", append(st, "import log (T show); show")...)
		}
	}
	for _, a := range lists {
		for _, b := range short {
			for _, c := range short {
				gr(a, b, c)
				if e.Thorough {
					gr(b, a, c)
					gr(b, c, a)
				}
			}
		}
	}
	e.Phase("exports and imports")
	bodies := ln(`closure k {*a} {T k; tuple (k $a [get v -])}; set v 1; export k
proc k {*a} {T k; tuple (k $a [get v -])}; export k; set v 2; export kk; closure kk {} {k x}
macro k {*a} {T k; tuple (k $a [get v -])}; export k
export k
export k; closure k {} {idem 1}; closure k {} {idem 2}
closure k {} {closure k {} {idem redefined}; idem first}; export k
ensemble k {x} {closure s {x} {T s; idem "s$x"}}; export k
namespace k {closure s {} {T s; idem nss}}; export k
alias k (T ali); export k
closure k {} {local}; closure local {} {idem loc}; export k
export k; export k; export kk
set v 1; closure k {} {set v [+ $v 1]}; closure kk {} {idem $v}; export k; export kk
let k 5; export k
export (); closure k {} {}
export a b
export T; export k; alias k T
closure k {} {error ek}; export k
closure k {} {yield yk; idem resumed}; export k
closure k {*a} {return $a}; macro kk {*a} {return $a}; export k; export kk
closure k {*a} {tuple ($a [help export])}; export k; T [help export k]; T [catch {help export k k} error e {idem $e}]; T [catch {export} error e {idem $e}]; T [help import]
module sub {closure k {} {idem subk}; export k}; sub import k; export k; export sub
scope sc {closure k {} {idem sck}}; alias k (sc call k); export k; export sc
export k; catch {export k} finally {T fin}; closure k {} {idem 3}
closure export {n} {T "my$n"}; export k
return early; export k
break
export k; error "late"
yield y
closure k {} {import log (show); show}; export k
export idem; export k; closure idem {v} {error hijack}; closure k {} {idem 1}
export "k"; closure k {} {idem quoted}; export 1
closure mk {} {closure k {} {idem made}; export k}; mk; export mk
closure k {} {export later; closure later {} {idem lt}}; export k
`)
	uses := ln(`import m
import m mm; mm import k; k 1
import m (k); k 2
import m (k kk); k; kk
import m ((k j)); j 3
import m {k}; k 4
import m {$x}
import m {k; [idem kk]}
import m {(k j); kk}; j
import m {(k j
)}; j
import m {(k $x)}
import m {"k"}; k 4
import m {[k]}
import m ""
import m {}; k
import m [list (() k)]
import m {(k j) kk}; j
import m [list (k (k j))]; k; j
import m (kk k)
import m ((k kk j))
import m (() k)
import m ((k ()))
import m ()
import m (T2)
import m mm; mm exports; list [mm exports] sort
import m mm; mm import k z; z q
import m mm; mm import kk
import m mm; mm import ()
import m mm; mm import k ()
import m mm; mm import
import m mm; mm foo
import m mm; mm ()
import m mm; [mm] import k; k 5
set mm [import m]; $mm import k; k 6
import m mm; proc q {} {mm import k; k 7}; q; catch {k}
namespace ns {import m (k)}; ns k 8
import m 1
import m idem
import m (idem); idem 9
import m mm; mm subcommands
import m mm; help mm; help mm import; help mm import a b c
import m "mm m"
import () x
import m a b
import
import m {"}
set k 1; import m (k); tuple ($k [k])
closure k {} {idem mine}; import m (k); k; catch {k a}
import m (k); import m (k); k
catch {import m (k)}; k z
scope sc {import m (k); set v scv}; [sc] call k 1; sc eval {k 2}; exists k
set c [coroutine {import m (k); T "[k]"; yield 1; k}]; $c wait; $c wait
import m (later); later
import m (k); k; import m (later); later
import m (mk); mk; import m (k)
import m (sub); sub import k; k
import m (sc k); sc call k; k
`)
	gen.Product(func(s []string) {
		if e.Mine() {
			e.Do("modc", logger, "!m import log (T); "+s[0], "import log (T show); set v rootv; "+s[1], "tuple ([catch {k}] [catch {k 1}] [get v -])", "import m; idem $v", "show")
			e.Do("mod", logger, "import log (T show); module m0 {import log (T); "+s[0]+"}; set v rootv; closure import2 {*a} {tuple $a}; "+strings.ReplaceAll(strings.ReplaceAll(s[1], "import m mm; ", "alias mm m0; "), "import m (", "m0 import (")+"", "m0 import k; k", "m0 import kk; kk", "show", "list [m0 exports] sort")
		}
	}, bodies, uses)
	for _, s := range ln("module\nmodule a\nmodule a b c\nmodule x {} {}\nmodule ()  {}\nmodule [] {}; \nmodule {closure k {} {}; export k}\n[module {}] exports\n[module {}] subcommands\n[module {}] import a b c\n[module {}] exports x\nexport k\nset m [module {export k; closure k {} {idem 1}}]; $m import k; k\nmodule m {T x}\nmodule m {import log (T); T ok}\nclosure c {} {}; module m {c}\nset v 1; module m {set v 2}; idem $v\nset v 1; module m {idem $v}\nmodule m {exists v}\nmodule idem {export k; closure k {} {}}; idem exports") {
		emit("mod", s, "m exports", "m import k; k", "show")
	}
	e.Phase("histories")
	ops := ln(`
!m import log (T); T m1; closure k {} {idem k1}; export k
!m import log (T); T m2; closure k {} {idem k2}; export k
!m import log (T); T merr; error em
!m {
!m import n (kn); closure k {} {kn}; export k
!-m
!n import log (T); T n1; closure kn {} {idem n1}; export kn
!n import m (k); closure kn {} {k}; export kn
!-n
import m
import m (k)
import n (kn)
import m mm
catch {import m (k); k} error e {T "$e"}
mm import k z
import ./m (k); k
module mx {import m (k); export k}; mx import k kx; kx
`)
	for n := 1; n <= e.Pick(3, 4); n++ {
		gen.Seqs(ops, n, func(s []string) {
			if !strings.HasPrefix(s[0], "!") && n > 2 {
				return
			}
			if e.Mine() {
				for _, last := range []string{"import m (k); k", "!m import log (T); T m9; closure k {} {idem k9}; export k"} {
					st := append([]string{logger, "import log (T show); idem 0"}, s...)
					e.Do("mod", append(st, last, "import m (k)", "catch {k}", "!n closure kn {} {idem n9}; export kn", "import n (kn); kn", "catch {mm exports}", "catch {import m (k)} finally {T f}", "show")...)
				}
			}
		})
	}
	e.Phase("paths")
	paths := ln("m\n./m\nd/../m\n@DIR@/m\n../m\nd/m2\nd/./m2\nd//m2\n./d/m2\nd\n\"\"\n.\n@DIR@/d/m2\nd/../d/m2\nd/e/../m2\nd/e/m3\nd/none\nnone/../m\n\"m \"\nM")
	for n := 1; n <= e.Pick(2, 3); n++ {
		gen.Seqs(paths, n, func(s []string) {
			if !e.Mine() {
				return
			}
			st := []string{logger, "!m import log (T); T m; closure k {} {idem m}; export k", "!d/m2 import ../log (T); T m2; import ../m (k); T [k]; import e/m3 (k3); closure k {} {idem m2}; export k", "!d/e/m3 import ../../log (T); T m3; closure k3 {} {idem k3}; closure k {} {idem m3}; export k; export k3", "import log (T show); idem 0"}
			for i, p := range s {
				if strings.Contains(p, "@DIR@") && i == 0 && n == 1 {
					continue
				}
				if p == "d" || p == "." || p == "\"\"" {
					// reading a directory: only rejection is specified
					st = append(st, "catch {import "+p+"} error e {idem err}")
					continue
				}
				st = append(st, "import "+p+fmt.Sprintf(" x%d; x%d import k; k", i, i))
			}
			e.Do("mod", append(st, "show")...)
		})
	}
	e.Phase("file names")
	// the same file names in several directories, every file importing at most one other
	choices := ln("-\nm\nd/m\n./m\n../m\nd/d/m\n../d/m\n../../m")
	heads := ln("m\nd/m\nd/d/m\nd/../d/d/m")
	gen.Product(func(s []string) {
		if !e.Mine() {
			return
		}
		body := func(name, imp string) string {
			if imp == "-" {
				return "closure k {} {idem " + name + "}; export k"
			}
			return "catch {import " + imp + " (k kk); closure k {} {idem " + name + ":[kk]}} error e {set err \"$e\"; closure k {} {idem " + name + "!$err}}; export k"
		}
		st := []string{"!m " + body("m", s[0]), "!d/m " + body("dm", s[1]), "!d/d/m " + body("ddm", s[2])}
		for _, h := range heads {
			if h != s[3] {
				st = append(st, "import "+h+" (k); k")
			}
		}
		e.Do("mod", append(append([]string{}, st[:3]...), append([]string{"import " + s[3] + " (k); k"}, st[3:]...)...)...)
	}, choices, choices, choices, heads)
	must(lib.all())
}
