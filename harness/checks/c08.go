package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"helena/core"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func init() {
	mc.Register(&mc.Check{
		ID: "C08",
		Space: "stacks: all compositions up to a depth of constructs that evaluate code around a failing sentence, with every layout of the surrounding text (other sentences, lines, comments, multi-byte characters) and suspensions before the failure; the expected stack is known by construction. " +
			"transparency: all programs of a grammar under the eight combinations of position capture of the parser, position capture and error stack capture of the interpreter (times four of those of the module registry where modules occur), compared with each other and with the model. State: error stack, or trace.",
		Assume: []string{interp,
			"levels of calls synthesized by commands (guards, resolved tuples) have no source position and are not compared; the words shown by the level of a failing word are not compared, its position is",
		},
		Enum: enumC08,
		Eval: with(progs, map[string]func([]string) mc.Out{"stack": evalStack, "caps": evalCaps, "filestack": evalFileStack}),
	})
}

// Wrappers: % is the failing code, @ the depth, < and > (as «») surround the
// sentences that are expected in the stack.
var wrappers = ln(`
«eval {%}»
idem [%]
«if true {%}»
«if false {} else {%}»
«if {%} {}»
«while {%} {}»
«while true {%; break}»
«when {true {%}}»
«when {{%} {}}»
«loop i@ [list (a)] {%}»
«list (a b) foreach i@ {%}»
«dict (a b) foreach i@ {%}»
«catch {%} break {}»
«catch {%} error e {pass}»
«catch {error z} error e {%}»
«catch {%} finally {}»
«catch {} finally {%}»
«catch {return a} return r {%}»
«&& true {%}»
«|| {%} true»
«! {%}»
«scope {%}»
«namespace {%}»
«ensemble e@ {} {%}»
«module {%}»
«(eval {%})»
idem "a[«eval {%}»]"
idem $[«eval {%}»](a)
idem (a [idem b; «eval {%}»; idem c])
macro m@ {} {%}; idem x; «m@»
macro m@ {a} {%}; «m@ "x y"»; idem z
closure c@ {} {%}; «c@»
closure c@ {*a} {%}; «c@ 1 (2 3) {b}»
proc p@ {} {%}; «p@»
proc p@ {a (?b z)} {%}; «p@ [idem 1]»
alias a@ {eval}; «a@ {%}»
alias a@ (eval {%}); «a@»
ensemble e@ {} {macro s {} {%}}; «e@ s»
ensemble e@ {a} {proc s {a b} {%}}; «e@ 1 s 2»
namespace n@ {closure s {} {%}}; «n@ s»
scope s@ {}; «s@ eval {%}»
«[namespace {}] eval {%}»
list (a) length; «eval {%}»
«[coroutine {%}] wait»
alias co@ [coroutine {yield; %}]; co@ wait; «co@ wait»
`)

var cores = ln(`
«error msg»
«idem»
«idem a b c»
«unknown a (b c) {d}»
«list (1 2) at 9»
«+ a»
«error [idem msg]»
«list a b [idem (c d)] "e f"»
yield 1; «error msg»
idem a; yield; idem b; «idem»
idem [list (x y)]; «error "msg"»
idem ok; |> «error msg»
idem ok; |> «undefd»
«error [yield y]»
idem [«error msg»]
idem (a "b[«error msg»]")
«error a b»
«if {idem a} {}»
«! {idem 5}»
«while {idem b} {}»
«&& true {idem a}»
«when {{idem a} {}}»
«when {idem b} {c {}}»
catch {error a} error e {idem a}; «error a»
«list a»
«idem [idem a] b [idem c]»
`)

// Failing words: ¦ marks the operator that fails.
var fails08 = ln(`
idem ¦$zz
idem a¦$zz
idem "a¦$zz"
idem "a$[idem b]¦[9]"
list (¦$zz)
list (a b {} (c ¦$zz))
idem $[idem a]¦[9]
idem $[list (a)]¦[9]
idem $[idem a]¦(k)
idem $¦$zz
idem $$¦$zz
set zy zz; idem ¦$$zy
set zy zz; idem $¦$$zy
set zx zy; set zy zz; idem ¦$$$zx
set zx zy; set zy zz; idem "a ¦$$$zx b"
set zx zy; set zy zz; idem a¦$$$zx\ b
set zx zy; set zy zz; idem "$$zx $¦$$zy"
set zy z; idem ¦$\${z z}
idem ¦${z z}
idem $¦${z z}
idem a¦${z z}
idem "a$¦${z z}"
idem ¦$(a zz)
idem a (b c) ¦$*zz
idem ¦$*$[idem (a zz)]
idem $¦$(a zz)
idem $*[list (a)]¦[4]
idem ¦$zz(k)
idem ¦$zz[1]
set zl [dict (a b)]; idem $zl¦(k)
set zl [dict (a b)]; idem "c $zl¦(k)"
set zl [dict (a (b c))]; idem $zl(a)¦[9]
set zl [dict (a [list (b c)])]; idem $zl(a)[1]¦[1]
set zl [dict (a b)]; idem $zl¦{rule}
set zl [dict (a b)]; idem $zl(¦$zz)
set zl [dict (a b)]; idem $zl(a)[idem ¦$zz]
set zl [dict (a b)]; idem zl([idem ¦$zz])
idem ¦"a[list ()]b"
idem ¦a[list ()]b
idem b ¦"[list ()]$[idem c]"
set zt zz; idem $$zt¦(k)
set zt (a zz); idem ¦$$zt
`)

func enumC08(e *mc.Env) {
	e.Phase("stacks")
	layouts := []string{"%", "idem ok; %", "\n  %", "# c\n%", "idem \u00e9\u00e9; %", "idem {\n};%", "idem \"a\nb\" ;\t%; idem after", "list\\\n  (a); %", "#{ x }# \n%\n", "list (a) length\n\n  idem (a\nb)\n%"}
	var cs []string
	for _, c := range cores {
		if !strings.Contains(c, "|>") && strings.Contains(c, "«") {
			cs = append(cs, c)
		}
	}
	for d := 0; d <= e.Pick(2, 3); d++ {
		gen.Seqs(wrappers, d, func(w []string) {
			for _, c := range cs {
				for i, l := range layouts {
					if d == 2 && !e.Thorough && i > 2 && i%3 != len(c)%3 {
						continue
					}
					if d == 3 && i%5 != 1 {
						continue
					}
					e.Emit("stack", append([]string{c, l}, w...)...)
				}
			}
		})
	}
	e.Phase("failing words")
	for d := 0; d <= e.Pick(1, 2); d++ {
		gen.Seqs(wrappers, d, func(w []string) {
			for _, c := range fails08 {
				for _, l := range layouts {
					e.Emit("stack", append([]string{"«?" + c + "»", l}, w...)...)
				}
			}
		})
	}
	e.Phase("stacks across files")
	for d := 0; d <= 1; d++ {
		gen.Seqs(wrappers, d, func(w []string) {
			for _, c := range cs {
				for _, l := range layouts {
					e.Emit("filestack", append([]string{c, l}, w...)...)
				}
			}
		})
	}
	e.Phase("transparency")
	g := gen.New(`
p:
 0 <s>
 1 <s>; <s>
s:
 0 T $x
 0 error e
 0 yield y
 0 break
 0 return r
 0 k a
 0 k $zz
 1 k <w>
 1 if <t> {<p>}
 1 while {<p>} {<p>; break}
 1 catch {<p>} error e {<p>}
 1 catch {<p>} finally {<p>}
 1 catch {<p>} yield y {<p>} return r {pass}
 1 catch {<p>}
 1 macro k {a} {<p>}
 1 closure k {(?a d)} {<p>}
 1 proc k {*a} {<p>}
 1 proc k {a (?b {<p>})} {<p>}
 1 eval {<p>}
 1 scope {<p>}
 1 namespace {<p>}
 1 when {{<p>} {<p>}}
 1 list (a b) foreach i {<p>}
 1 [coroutine {<p>}] wait
 1 module {<p>}
 1 [module {export k; closure k {*a} {<p>}}] import k
 1 [module {export k; macro k {*a} {<p>}}] import k
 1 ensemble k {a} {macro idem {a} {<p>}}
 1 k idem <w>
 1 alias k {eval {<p>}}
 1 alias k (eval {<p>})
 1 set x [<p>]
 1 idem [<p>]; |> <s>
 1 parse {<p>}
 1 eval [parse "idem [idem]"]
 1 script {<p>} split
 1 list (a b) sort {<p>}
 1 help k <w>
w:
 0 [<p>]
 0 (<p> b)
 0 {<p>}
 0 "a[<p>]"
t:
 0 true
 0 {<p>}
`)
	g.UpTo("p", e.Pick(2, 3), func(s string) {
		if e.Mine() {
			e.Do("caps", "set log \"\"; closure T {v} {set log \"$log$v \"; idem $v}; set x (a b)", s, "idem $log", "T 2")
		}
	})
}

// composed text with the marks of the expected levels removed
type level08 struct {
	off, end int
	word     bool // failing word: only located
	at       int  // its failing operator, if it is known
}

func compose(f []string) (src string, levels []level08) {
	text := f[0]
	mark := func(s string, d int) string {
		s = strings.ReplaceAll(s, "«", "\x01"+string(rune('A'+d)))
		s = strings.ReplaceAll(s, "¦", "\x03"+string(rune('A'+d)))
		return strings.ReplaceAll(s, "»", "\x02"+string(rune('A'+d)))
	}
	text = mark(text, 0)
	text = strings.Replace(f[1], "%", text, 1)
	for i, w := range f[2:] {
		w = mark(w, i+1)
		w = strings.ReplaceAll(w, "@", fmt.Sprint(i+1))
		text = strings.Replace(w, "%", text, 1)
	}
	levels = make([]level08, len(f)-1)
	for i := range levels {
		levels[i].at = -1
	}
	used := make([]bool, len(levels))
	var b strings.Builder
	for i := 0; i < len(text); i++ {
		switch text[i] {
		case 1:
			d := int(text[i+1] - 'A')
			levels[d].off = b.Len()
			used[d] = true
			i++
			if i+1 < len(text) && text[i+1] == '?' {
				levels[d].word = true
				i++
			}
		case 2:
			levels[int(text[i+1]-'A')].end = b.Len()
			i++
		case 3:
			levels[int(text[i+1]-'A')].at = b.Len()
			i++
		default:
			b.WriteByte(text[i])
		}
	}
	out := levels[:0:0]
	for d, l := range levels {
		if used[d] {
			out = append(out, l)
		}
	}
	return b.String(), out
}

func posAt(src string, off int) string {
	n := 0
	for _, t := range ref.Lex(src) {
		if n == off {
			return fmt.Sprintf("%d:%d:%d", t.P.Idx, t.P.Line, t.P.Col)
		}
		n += len(t.Seq)
	}
	return fmt.Sprintf("?%d", off)
}

// frameOf is the canonical text of the words of a sentence.
func frameOf(sentence string, cache map[string]string) string {
	if c, k := cache[sentence]; k {
		return c
	}
	w := ref.NewWorldWith("/nonexistent", nil)
	defer w.Close()
	if !strings.Contains(sentence, "{") {
		sentence = strings.ReplaceAll(sentence, "[yield y]", "y")
	}
	r := impl.EvalRef(w, "idem ("+strings.TrimSuffix(sentence, "; ")+")")
	out := r[len(r)-1]
	cache[sentence] = out
	return out
}

var frameCache = map[string]string{}

func evalStack(f []string) (o mc.Out) { return runStack(f, "") }

func evalFileStack(f []string) (o mc.Out) {
	dir, err := os.MkdirTemp("", "vh08")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	return runStack(f, dir)
}

func runStack(f []string, dir string) (o mc.Out) {
	if strings.Contains(f[0], "yield") {
		// these give the yielded value back or reject it: nothing else fails
		for _, w := range f[2:] {
			if strings.Contains(w, "catch {%}") || strings.Contains(w, "coroutine {") || strings.Contains(w, "module {") {
				o.Skip = true
				return
			}
		}
		if dir != "" {
			o.Skip = true
			return
		}
	}
	src, levels := compose(f)
	w := impl.NewWorld(impl.Options{Capture: true, Dir: dir})
	want := []string{}
	if len(frameCache) > 5000 {
		frameCache = map[string]string{}
	}
	filename := "-"
	content := src
	if dir != "" {
		filename = filepath.Join(dir, "f.lna")
		if err := os.WriteFile(filename, []byte(src), 0o600); err != nil {
			panic(err)
		}
	}
	var spans [][2]int
	for _, l := range levels {
		s := src[l.off:l.end]
		fr := "?"
		if !l.word {
			fr = frameOf(s, frameCache)
		}
		spans = append(spans, [2]int{l.off, l.end})
		if l.at < 0 {
			l.at = l.off
		}
		want = append(want, filename+" "+posAt(src, l.at)+" "+fr)
	}
	main := src
	if dir != "" {
		main = "idem x\n  import f.lna"
		want = append(want, "- "+posAt(main, 9)+" "+frameOf("import f.lna", frameCache))
	}
	var res core.Result
	yields := 0
	if c := impl.Guard(func() {
		sc, msg := impl.Parse(main, true)
		if msg != "" {
			panic("bad composition " + main + ": " + msg)
		}
		p := w.Scope.PrepareProcess(w.Scope.Compile(*sc))
		for {
			res = p.Run()
			if res.Code != core.ResultCode_YIELD || yields > 3 {
				break
			}
			yields++
			p.YieldBack(core.STR("y"))
		}
	}); c != "" {
		o.Diff = c
		return
	}
	o.Steps = len(levels) + yields
	o.Traces = 1
	o.States = []uint64{mc.Hash(append(append([]string{}, f...), filename)...)}
	if res.Code != core.ResultCode_ERROR {
		o.Diff = fmt.Sprintf("%q: expected an error, got %s", main, impl.CanonResult(res))
		return
	}
	stack, is := res.Data.(*core.ErrorStack)
	if !is {
		o.Diff = fmt.Sprintf("%q: no error stack", main)
		return
	}
	got := []string{}
	for i := uint(0); i < stack.Depth(); i++ {
		l := stack.Level(i)
		if l.Position == nil {
			continue
		}
		file := "-"
		if l.Source != nil && l.Source.Filename != nil {
			file = *l.Source.Filename
		} else if l.Source == nil || l.Source.Content == nil || dir == "" && *l.Source.Content != content {
			file = "(no source)"
		}
		fr := "?"
		if l.Frame != nil {
			fr = "ok " + impl.Canon(core.TUPLE(*l.Frame))
		}
		k := len(got)
		pos := fmt.Sprintf("%d:%d:%d", l.Position.Index, l.Position.Line, l.Position.Column)
		if k < len(levels) && levels[k].word {
			fr = "?"
			for off := spans[k][0]; levels[k].at < 0 && off < spans[k][1]; off++ {
				if posAt(src, off) == pos {
					pos = posAt(src, spans[k][0])
					break
				}
			}
		}
		got = append(got, file+" "+pos+" "+fr)
	}
	if a, b := strings.Join(want, "\n "), strings.Join(got, "\n "); a != b {
		o.Diff = fmt.Sprintf("%q: expected stack\n %s\ngot\n %s", main, a, b)
	}
	return
}

func evalCaps(f []string) (o mc.Out) {
	base := history(f, false, nil)
	if base.Skip || base.Diff != "" {
		return base
	}
	o = base
	mods := strings.Contains(strings.Join(f, " "), "module")
	var first [][]string
	for c := 0; c < 32; c++ {
		if c >= 8 && !mods {
			break
		}
		w := impl.NewWorld(impl.Options{CapturePositions: c&1 != 0, CaptureStack: c&2 != 0, ParsePositions: c&4 != 0, FlipModulePositions: c&8 != 0, FlipModuleStack: c&16 != 0})
		var out [][]string
		for _, src := range f {
			out = append(out, w.Eval(src))
		}
		o.Traces++
		if c == 0 {
			first = out
			continue
		}
		for k := range out {
			if d := diffTrace(first[k], out[k]); d != "" {
				o.Diff = fmt.Sprintf("capture settings %05b, step %d %q: %s", c, k, f[k], d)
				return
			}
		}
	}
	return
}
