package checks

import (
	"fmt"
	"strings"

	"helena/core"

	"vharness/gen"
	"vharness/impl"
	"vharness/mc"
	"vharness/ref"
)

func fmtTok(t core.Token) string {
	return fmt.Sprintf("%d@%d:%d:%d%q=%q", t.Type, t.Position.Index, t.Position.Line, t.Position.Column, t.Sequence, t.Literal)
}

func sameTok(a ref.Tok, t core.Token) bool {
	return int(a.K) == int(t.Type) && uint(a.P.Idx) == t.Position.Index && uint(a.P.Line) == t.Position.Line &&
		uint(a.P.Col) == t.Position.Column && a.Seq == t.Sequence && a.Lit == t.Literal
}

func diffToks(how string, exp []ref.Tok, got []core.Token) string {
	for i := range exp {
		if i >= len(got) {
			return fmt.Sprintf("%s: missing token %d %+v", how, i, exp[i])
		}
		if !sameTok(exp[i], got[i]) {
			return fmt.Sprintf("%s: token %d: expected %+v, got %s", how, i, exp[i], fmtTok(got[i]))
		}
	}
	if len(got) > len(exp) {
		return fmt.Sprintf("%s: extra token %s", how, fmtTok(got[len(exp)]))
	}
	return ""
}

func pull(tz *core.Tokenizer, src string, max int) (out []core.Token) {
	tz.Begin(core.NewStringStream(src))
	for !tz.End() && (max < 0 || len(out) < max) {
		if t := tz.Next(); t != nil {
			out = append(out, *t)
		}
	}
	return
}

func evalTok(f []string) (o mc.Out) {
	src := f[0]
	exp := ref.Lex(src)
	o.Steps = len(exp)
	o.Traces = 1
	kinds := make([]byte, 0, 2*len(exp))
	for _, t := range exp {
		kinds = append(kinds, byte('a'+t.K))
		if t.Lit != t.Seq {
			kinds = append(kinds, '!')
		}
	}
	last := ""
	if n := len(exp); n > 0 {
		last = fmt.Sprint(exp[n-1].P.Line, exp[n-1].P.Col)
	}
	o.States = []uint64{mc.Hash(string(kinds), last)}
	if c := impl.Guard(func() {
		o.Diff = diffToks("at once", exp, core.Tokenizer{}.Tokenize(src))
		if o.Diff == "" {
			o.Diff = diffToks("incremental", exp, pull(&core.Tokenizer{}, src, -1))
		}
	}); c != "" {
		o.Diff = c
	}
	return
}

// evalTokReuse: one tokenizer used for a prefix of the first text, then for the
// second one, through both entry points and with a shared output stream.
func evalTokReuse(f []string) (o mc.Out) {
	exp := ref.Lex(f[1])
	o.Steps = len(exp)
	o.Traces = 1
	o.States = []uint64{mc.Hash(f[0], f[1])}
	if c := impl.Guard(func() {
		n := len(ref.Lex(f[0]))
		for k := 0; k <= n; k++ {
			tz := &core.Tokenizer{}
			pull(tz, f[0], k)
			if o.Diff = diffToks(fmt.Sprintf("after %d tokens of %q", k, f[0]), exp, pull(tz, f[1], -1)); o.Diff != "" {
				return
			}
			pull(tz, f[0], k)
			in := core.NewStringStream(f[1])
			out := core.NewArrayTokenStream(nil, in.Source())
			tz.TokenizeStream(in, out)
			var got []core.Token
			for !out.End() {
				i := out.CurrentIndex()
				c := out.Current()
				t := out.Next()
				if c != t || out.CurrentIndex() != i+1 || fmt.Sprint(out.Range(i, i+1)) != fmt.Sprint([]core.Token{t}) {
					o.Diff = fmt.Sprintf("stream accessors disagree at %d", i)
					return
				}
				got = append(got, t)
			}
			if o.Diff = diffToks("to a stream", exp, got); o.Diff != "" {
				return
			}
			if out.Source() != in.Source() || *in.Source().Content != f[1] {
				o.Diff = "the source of the stream is not the text"
				return
			}
		}
	}); c != "" {
		o.Diff = c
	}
	return
}

var lexAlpha = []string{"a", " ", "\n", "\\", "#", "\"", "$", "(", ")", "{", "}", "[", "]", ";", "*", "é",
	"\t", "\r", "\f", "x", "u", "U", "0", "7", "8", "n", "\x80", "f"}

func init() {
	mc.Register(&mc.Check{
		ID: "C01",
		Space: "all texts up to length N over 28 symbols covering every lexical class (two-byte characters and invalid bytes included); all pairs of bytes and their neighbours; " +
			"all numeric escapes over reduced digit sets up to the full length of each form followed by every class; all sequences of multi-line fragments; " +
			"long runs; every text tokenized at once and incrementally; all reuses of a tokenizer after every prefix of a text. State: sequence of token kinds with the position of the last one.",
		Assume: []string{interp},
		Enum:   enumC01,
		Eval:   map[string]func([]string) mc.Out{"tok": evalTok, "reuse": evalTokReuse},
	})
	mc.Register(&mc.Check{
		ID: "C02",
		Space: "all token sequences up to length N over one representative per lexical class (plus variants where the grammar looks at the text), with and without positions; " +
			"all texts up to a length over the characters of strings, here-strings, tagged strings and comments; all derivations of the grammar up to a size, and all their truncations. State: syntax tree or syntax error.",
		Assume: []string{interp},
		Enum:   enumC02,
		Eval:   map[string]func([]string) mc.Out{"parse": evalParse},
	})
	mc.Register(&mc.Check{
		ID: "C03",
		Space: "all pairs (and triples) of texts over a set covering every context, complete, failing or truncated, given to one parser object in every driving mode (at once, stream, token by token, token by token from a stream fed on demand by the tokenizer, abandoned after every prefix); " +
			"every outcome compared with the reference parser, and earlier results re-examined after later uses. State: outcome per use.",
		Assume: []string{interp},
		Enum:   enumC03,
		Eval:   map[string]func([]string) mc.Out{"modes": evalModes, "seq": evalParseSeq},
	})
}

func enumC01(e *mc.Env) {
	e.Phase("all texts")
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(lexAlpha, n, func(s []string) {
			if e.Mine() {
				e.Do("tok", strings.Join(s, ""))
			}
		})
	}
	e.Phase("all texts over reduced classes")
	red := []string{"a", " ", "\n", "\\", "#", "\"", "$", "(", "}", "é", "x", "1"}
	for n := 5; n <= e.Pick(5, 6); n++ {
		gen.Seqs(red, n, func(s []string) {
			if e.Mine() {
				e.Do("tok", strings.Join(s, ""))
			}
		})
	}
	e.Phase("all pairs of bytes")
	for a := 0; a < 256; a++ {
		for b := -1; b < 256; b++ {
			for _, pre := range []string{"", "a", "\\", "\"", " "} {
				for _, post := range []string{"", "a", "\n", "\\"} {
					if e.Mine() {
						s := pre + string([]byte{byte(a)})
						if b >= 0 {
							s += string([]byte{byte(b)})
						}
						e.Do("tok", s+post)
					}
				}
			}
		}
	}
	e.Phase("numeric escapes")
	posts := []string{"", "a", "g", " ", "\n", "\\", "0", "é", "\\x4", "\\\n "}
	for _, c := range []struct {
		p string
		d []string
		n int
	}{{"", sp("0 1 3 4 7 8 a"), 5}, {"x", sp("0 4 9 a f A F g :"), 4}, {"u", sp("0 2 9 D F g"), 6}, {"U", sp("0 1 F d"), 9}, {"U000", sp("0 1 F D 8 9"), 6}} {
		for n := 0; n <= c.n; n++ {
			gen.Seqs(c.d, n, func(s []string) {
				if e.Mine() {
					e.Do("tok", "\\"+c.p+strings.Join(s, "")+posts[e.Pick(0, 0)])
				}
				if n >= c.n-1 || n <= 2 {
					for _, p := range posts[1:] {
						if e.Mine() {
							e.Do("tok", "a\\"+c.p+strings.Join(s, "")+p+"b")
						}
					}
				}
			})
		}
	}
	e.Phase("multi-line fragments")
	frag := []string{"a", "é", " \t", "\n", "\\\n", "\\\n \t\f\r", "\r\n", "\\", "##", "\"\"\"", "\\x41", "\\u00e9", "\\\\", "$", "#{", "a\\"}
	for n := 3; n <= e.Pick(5, 6); n++ {
		gen.Seqs(frag, n, func(s []string) {
			if e.Mine() {
				e.Do("tok", strings.Join(s, ""))
			}
		})
	}
	e.Phase("runs")
	for _, c := range lexAlpha {
		for _, d := range []string{"", "a", "\\", "\n", " ", "#", "\""} {
			for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000} {
				e.Emit("tok", "b"+strings.Repeat(c, n)+d+"c")
				e.Emit("tok", strings.Repeat(c+d, n))
				e.Emit("tok", strings.Repeat(d+c, n)+"\nz\\")
			}
		}
	}
	e.Phase("reuse")
	texts := []string{"", "a", "ab c", " ", "\\", "a\\", "\\x4", "#", "###", "\"\"", "a\nb", "\\\n ", "$a*", "(a b)\n", "é", "a b;c"}
	gen.Seqs(texts, 2, func(s []string) { e.Emit("reuse", s...) })
}

// ---------------------------------------------------------------- parser

func canonRef(src string, ps bool) string {
	s, msg := ref.Parse(src)
	if msg != "" {
		return "error " + msg
	}
	if ps {
		return ref.CanonScriptPos(s)
	}
	return ref.CanonScript(s)
}

func canonParse(r core.ParseResult, ps bool) string {
	if !r.Success {
		return "error " + r.Message
	}
	if r.Script == nil {
		return "success without script"
	}
	return impl.CanonScript(*r.Script, ps)
}

func evalParse(f []string) (o mc.Out) {
	src := f[0]
	o.Traces = 1
	expP := canonRef(src, true)
	toks := ref.Lex(src)
	o.Steps = len(toks)
	o.States = []uint64{mc.Hash(expP)}
	if c := impl.Guard(func() {
		ts := core.Tokenizer{}.Tokenize(src)
		if got := canonParse(core.NewParser(&core.ParserOptions{CapturePositions: true}).ParseTokens(ts, &core.Source{Content: &src}), true); got != expP {
			o.Diff = fmt.Sprintf("with positions: expected %s, got %s", expP, got)
			return
		}
		exp := canonRef(src, false)
		if got := canonParse(core.NewParser(nil).ParseTokens(ts, nil), false); got != exp {
			o.Diff = fmt.Sprintf("expected %s, got %s", exp, got)
			return
		}
	}); c != "" {
		o.Diff = c
	}
	return
}

var parseAlpha = []string{"a", " ", "\n", ";", "(", ")", "{", "}", "[", "]", "$", "*", "\"", "\"\"", "#", "#{", "}#", "\\x41"}

func enumC02(e *mc.Env) {
	do := func(s string) {
		if e.Mine() {
			e.Do("parse", s)
		}
	}
	e.Phase("all token sequences")
	for n := 0; n <= e.Pick(5, 6); n++ {
		gen.Seqs(parseAlpha, n, func(s []string) { do(strings.Join(s, "")) })
	}
	e.Phase("strings")
	al := []string{"\"", "\"\"", "a", "\n", " ", "$", "[", "]", "{", "}", "(", ")", "\\\"", "*", "#"}
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(al, n, func(s []string) {
			if e.Mine() {
				e.Do("parse", "\""+strings.Join(s, ""))
			}
		})
	}
	e.Phase("here-strings and tagged strings")
	al = []string{"\"", "\"\"", "\"\"\"", "\"\"\"\"", "a", "b", "\n", " ", "$", "\\\n", "\\a", "#", "é"}
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(al, n, func(s []string) {
			if e.Mine() {
				e.Do("parse", "\"\"\""+strings.Join(s, ""))
			}
			if e.Mine() {
				e.Do("parse", "\"\"a\n"+strings.Join(s, ""))
			}
			if e.Mine() {
				e.Do("parse", "x \"\"\""+strings.Join(s, "")+"\"\"\" y")
			}
			if e.Mine() {
				e.Do("parse", "(\"\"ab\n"+strings.Join(s, "")+"\nab\"\")")
			}
		})
	}
	// closing lines with prefixes of every length, one to three content lines
	lines := []string{"", " ", "  ", "a", " a", "  a", "  EOF", "EOF", "b\"\"", "\t", "   é", "\\", "  \\", "$x", "\\x41 "}
	for n := 0; n <= e.Pick(3, 4); n++ {
		gen.Seqs(lines, n, func(s []string) {
			for _, p := range []string{"", " ", "  ", "\t", "   "} {
				if e.Mine() {
					e.Do("parse", "\"\"EOF\n"+strings.Join(append(append([]string{}, s...), p+"EOF\"\""), "\n"))
				}
			}
		})
	}
	e.Phase("comments")
	al = []string{"#", "##", "#{", "}#", "##{", "}##", "{", "}", "a", "\n", " ", "\\\n", "\\#", "\""}
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(al, n, func(s []string) {
			j := strings.Join(s, "")
			do("#" + j)
			do("#{" + j)
			do("a ##{" + j + "}##b")
			do("(" + "#{" + j + "}#)")
			do("{#" + j + "\n}")
		})
	}
	e.Phase("substitutions")
	al = []string{"$", "*", "a", "(", ")", "{", "}", "[", "]", " ", "\"", "\\a", "#{}#", "\n"}
	for n := 1; n <= e.Pick(4, 5); n++ {
		gen.Seqs(al, n, func(s []string) {
			j := strings.Join(s, "")
			do("$" + j)
			do("\"$" + j + "\"")
			do("($*a" + j + ")")
			do("a$" + j + "b")
		})
	}
	e.Phase("derivations and truncations")
	g := gen.New(parseGrammar)
	g.UpTo("script", e.Pick(6, 7), func(s string) {
		do(s)
	})
	g.UpTo("script", e.Pick(5, 6), func(s string) {
		for i := 1; i < len(s); i++ {
			do(s[:i])
		}
	})
	e.Phase("deep nesting")
	for _, o := range []string{"(", "{", "[", "\"[", "$", "$*", "a(", "(a ", "{a;", "[a\n", "#{", "$a(", "$(", "\"$[", "\"{", "${"} {
		for _, n := range []int{1, 2, 3, 10, 64, 65, 200, 1000} {
			do(strings.Repeat(o, n))
			for _, c := range []string{")", "}", "]", "]\"", "a", "}#", "\")", "a)", "\n)"} {
				do(strings.Repeat(o, n) + strings.Repeat(c, n))
				do(strings.Repeat(o, n) + "x" + strings.Repeat(c, n) + "y")
				do(strings.Repeat(o, n) + "x" + strings.Repeat(c, n-1))
				do(strings.Repeat(o, n) + "x" + strings.Repeat(c, n+1))
			}
		}
	}
}

const parseGrammar = `
script:
 0 <sentence>
 1 <sentence>;<sentence>
 1 <sentence>\n\n<sentence>\n
sentence:
 1 <word>
 1 <word> <word>
 2 <word>  <word> <word>
word:
 1 a
 0 (<inner>)
 0 {<inner>}
 0 [<inner>]
 1 "<str>"
 1 """h"h"""
 1 ""T\nt\nT""
 1 #{c#{d}#}#
 1 # c
 0 <subst>
 1 <sub>a
 1 a<sub>
 1 <sub><sub>
inner:
 0 <script>
 1 
 1 \n<word>\n
subst:
 1 $a
 1 $*a
 1 $$a
 1 $a<sel>
 1 $"<str>"
 1 $<sub>
 1 $*<sub><sel>
sub:
 0 [<inner>]
 0 (<inner>)
 0 {<inner>}
 0 <subst>
sel:
 0 (<inner>)
 0 [<inner>]
 0 {<inner>}
str:
 1 
 1 s <subst>
 1 [<word>]\n
 1 $
 1 \"}]
`

// ---------------------------------------------------------------- driving modes

// drive parses a text with a parser in one of the driving modes; max bounds the
// number of tokens given (the parser is then abandoned).
func drive(p *core.Parser, mode int, src string, ps bool, max int) (string, *core.Script) {
	toks := core.Tokenizer{}.Tokenize(src)
	source := &core.Source{Content: &src}
	var r core.ParseResult
	switch mode {
	case 0:
		r = p.ParseTokens(toks, source)
	case 1:
		r = p.Parse(core.NewArrayTokenStream(toks, source))
	case 2:
		r = p.ParseStream(core.NewArrayTokenStream(toks, source))
		if r.Success {
			r = p.CloseStream()
		}
	case 3, 4:
		var st core.TokenStream = core.NewArrayTokenStream(toks, source)
		if mode == 4 {
			st = newLazyStream(src, source)
		}
		p.Begin(st)
		for n := 0; !p.End(); n++ {
			if max >= 0 && n >= max {
				return "abandoned", nil
			}
			r = p.Next()
			if !r.Success {
				return canonParse(r, ps), nil
			}
		}
		if max >= 0 {
			return "abandoned", nil
		}
		r = p.CloseStream()
	case 5:
		r = p.Parse(newLazyStream(src, source))
	}
	return canonParse(r, ps), r.Script
}

// lazyStream is a token stream over a tokenizer that produces its tokens when
// they are needed.
type lazyStream struct {
	tz     *core.Tokenizer
	source *core.Source
	toks   []core.Token
	i      uint
}

func newLazyStream(src string, source *core.Source) *lazyStream {
	s := &lazyStream{tz: &core.Tokenizer{}, source: source}
	s.tz.Begin(core.NewStringStream(src))
	return s
}
func (s *lazyStream) need(n uint) bool {
	for uint(len(s.toks)) < n && !s.tz.End() {
		if t := s.tz.Next(); t != nil {
			s.toks = append(s.toks, *t)
		}
	}
	return uint(len(s.toks)) >= n
}
func (s *lazyStream) Source() *core.Source  { return s.source }
func (s *lazyStream) Emit(token core.Token) { panic("read-only stream") }
func (s *lazyStream) End() bool             { return !s.need(s.i + 1) }
func (s *lazyStream) Next() core.Token      { s.need(s.i + 1); s.i++; return s.toks[s.i-1] }
func (s *lazyStream) Current() core.Token   { s.need(s.i + 1); return s.toks[s.i] }
func (s *lazyStream) CurrentIndex() uint    { return s.i }
func (s *lazyStream) Range(a, b uint) []core.Token {
	s.need(b)
	return s.toks[a:b]
}

func evalModes(f []string) (o mc.Out) {
	src := f[0]
	o.Steps = 6 * len(src)
	o.Traces = 12
	if c := impl.Guard(func() {
		for _, ps := range []bool{false, true} {
			exp := canonRef(src, ps)
			o.States = append(o.States, mc.Hash(exp))
			shared := core.NewParser(&core.ParserOptions{CapturePositions: ps})
			for m := 0; m < 6; m++ {
				if got, _ := drive(core.NewParser(&core.ParserOptions{CapturePositions: ps}), m, src, ps, -1); got != exp {
					o.Diff = fmt.Sprintf("mode %d: expected %s, got %s", m, exp, got)
					return
				}
				if got, _ := drive(shared, m, src, ps, -1); got != exp {
					o.Diff = fmt.Sprintf("mode %d on a shared parser: expected %s, got %s", m, exp, got)
					return
				}
			}
		}
	}); c != "" {
		o.Diff = c
	}
	return
}

// evalParseSeq: all the texts are given in order to one parser, the last one in
// every mode, the others complete in one mode or abandoned after every prefix.
func evalParseSeq(f []string) (o mc.Out) {
	n := len(f) - 1
	last := f[n]
	exp := canonRef(last, true)
	o.States = []uint64{mc.Hash(f...)}
	if c := impl.Guard(func() {
		run := func(cut int, mode int) bool {
			p := core.NewParser(&core.ParserOptions{CapturePositions: true})
			type past struct {
				exp string
				s   *core.Script
				src string
			}
			var ps []past
			for i, t := range f[:n] {
				max := -1
				if i == n-1 {
					max = cut
				}
				got, s := drive(p, 3+i%2, t, true, max)
				o.Steps++
				if max < 0 {
					w := canonRef(t, true)
					if got != w {
						o.Diff = fmt.Sprintf("%q: expected %s, got %s", t, w, got)
						return false
					}
					if s != nil {
						ps = append(ps, past{w, s, t})
					}
				}
			}
			got, _ := drive(p, mode, last, true, -1)
			o.Traces++
			if got != exp {
				o.Diff = fmt.Sprintf("mode %d after %d tokens of %q: expected %s, got %s", mode, cut, f[n-1], exp, got)
				return false
			}
			for _, q := range ps {
				if c := impl.CanonScript(*q.s, true); c != q.exp {
					o.Diff = fmt.Sprintf("script of %q changed to %s", q.src, c)
					return false
				}
			}
			return true
		}
		k := len(ref.Lex(f[n-1]))
		for mode := 0; mode < 6; mode++ {
			for cut := -1; cut < k; cut++ {
				if !run(cut, mode) {
					return
				}
			}
		}
	}); c != "" {
		o.Diff = c
	}
	return
}

var contexts = []string{"", "a", "a b;c\nd", "(a b)", "(a", "(a $", "{a $b", "{a ;b}", "[a b", "[a $", "[a]b", "\"a $b [c]\"", "\"a $", "\"a", "\"a [b", "\"\"\"a\"\"", "\"\"\"a\"\"\" b",
	"\"\"T\na", "\"\"T\na\n  T\"\"", "# a", "(# a", "##{a", "#{a}#b", "#{#{", "$", "$*", "$a(b", "$a{b}[c]", "$$*a", "a$b", ")", "(a}", "a]", "{a {b", "(a\n) b", "{}c", "\"a\"b", "\n\n a", "\\x41\\\n b", "$[a"}

func enumC03(e *mc.Env) {
	e.Phase("modes")
	g := gen.New(parseGrammar)
	g.UpTo("script", e.Pick(5, 6), func(s string) {
		if e.Mine() {
			e.Do("modes", s)
		}
		for i := 1; i < len(s); i++ {
			if e.Mine() {
				e.Do("modes", s[:i])
			}
		}
	})
	for n := 0; n <= e.Pick(4, 5); n++ {
		gen.Seqs(parseAlpha, n, func(s []string) {
			if e.Mine() {
				e.Do("modes", strings.Join(s, ""))
			}
		})
	}
	e.Phase("pairs")
	gen.Seqs(contexts, 2, func(s []string) { e.Emit("seq", s...) })
	if e.Thorough {
		for n := 1; n <= 3; n++ {
			gen.Seqs(parseAlpha, n, func(s []string) {
				j := strings.Join(s, "")
				for _, c := range contexts {
					e.Emit("seq", j, c)
					e.Emit("seq", c, j)
				}
			})
		}
	}
	e.Phase("triples")
	short := contexts
	if !e.Thorough {
		short = []string{"", "a b;c", "(a $", "{a ;b}", "[a b", "\"a $b [c]\"", "\"a", "\"\"\"a\"\"", "\"\"T\na", "(# a", "#{#{", "$*", "$a{b}[c]", ")", "{a {b", "(a\n) b"}
	}
	gen.Seqs(short, 3, func(s []string) { e.Emit("seq", s...) })
}
