package ref

import "strings"

// MK is the morpheme kind.
type MK int

const (
	MLit MK = iota
	MTuple
	MBlock
	MExpr
	MStr
	MHere
	MTagged
	MLineC
	MBlockC
	MSubst
)

type Morph struct {
	K     MK
	P     Pos
	Val   string // literal / block text / here / tagged / comments / subst text
	Sub   *Script
	Parts []*Morph // MStr
	Delim int
	Tag   string
	Exp   bool
}
type Word struct {
	P  Pos
	Ms []*Morph
	V  Value // non-nil for pre-built (value) words
}
type Sentence struct {
	P     Pos
	Words []*Word
}
type Script struct {
	P     Pos
	Sents []*Sentence
}

type SyntaxErr string

type parser struct {
	toks []Tok
	i    int
}

// substitution state of the word/string being read
const (
	sNone = iota
	sSource
	sSelector
)

// wordState accumulates the morphemes of one word or one string.
type wordState struct {
	ms   *[]*Morph
	mode int
}

func (w *wordState) next() {
	if w.mode == sSource {
		w.mode = sSelector
	} else {
		w.mode = sNone
	}
}

func (w *wordState) lit(p Pos, s string) {
	if n := len(*w.ms); n > 0 && w.mode == sNone && (*w.ms)[n-1].K == MLit {
		(*w.ms)[n-1].Val += s
		return
	}
	*w.ms = append(*w.ms, &Morph{K: MLit, P: p, Val: s})
	w.next()
}

// stale turns a trailing run of `$` with nothing to substitute into text.
func (w *wordState) stale() {
	if w.mode != sSource {
		return
	}
	w.mode = sNone
	n := len(*w.ms)
	j := n
	txt := ""
	for j > 0 && (*w.ms)[j-1].K == MSubst {
		j--
		txt = (*w.ms)[j].Val + txt
	}
	p := (*w.ms)[j].P
	*w.ms = (*w.ms)[:j]
	w.lit(p, txt)
}

// Parse parses a source; on failure the second result is the error message.
func Parse(src string) (*Script, string) { return ParseToks(Lex(src)) }

func ParseToks(toks []Tok) (s *Script, msg string) {
	p := &parser{toks: toks}
	defer func() {
		if e := recover(); e != nil {
			if se, ok := e.(SyntaxErr); ok {
				s, msg = nil, string(se)
				return
			}
			panic(e)
		}
	}()
	return p.script(-1, Pos{}), ""
}

func (p *parser) eof() bool { return p.i >= len(p.toks) }
func (p *parser) peekIs(k Kind) bool {
	return p.i < len(p.toks) && p.toks[p.i].K == k
}

var closers = map[Kind]string{KRParen: "right parenthesis", KRBrace: "right brace", KRBracket: "right bracket"}

// script reads sentences up to the closing token (or the end of the stream if
// closer < 0); the opening token has been consumed already.
func (p *parser) script(closer Kind, at Pos) *Script {
	s := &Script{P: at}
	if closer < 0 && !p.eof() {
		s.P = p.toks[0].P
	}
	var sent *Sentence
	var word *Word
	var w *wordState
	endWord := func() {
		if w != nil {
			w.stale()
		}
		w, word = nil, nil
	}
	begin := func(at Pos) {
		if word != nil {
			return
		}
		if sent == nil {
			sent = &Sentence{P: at}
			s.Sents = append(s.Sents, sent)
		}
		word = &Word{P: at}
		sent.Words = append(sent.Words, word)
		w = &wordState{ms: &word.Ms}
	}
	for {
		if p.eof() {
			switch closer {
			case KRParen:
				panic(SyntaxErr("unmatched left parenthesis"))
			case KRBrace:
				panic(SyntaxErr("unmatched left brace"))
			case KRBracket:
				panic(SyntaxErr("unmatched left bracket"))
			}
			endWord()
			return s
		}
		t := p.toks[p.i]
		p.i++
		switch t.K {
		case KWs, KCont:
			endWord()
		case KNl, KSemi:
			endWord()
			sent = nil
		case KRParen, KRBrace, KRBracket:
			if t.K == closer {
				endWord()
				return s
			}
			if closer < 0 {
				panic(SyntaxErr("unmatched " + closers[t.K]))
			}
			panic(SyntaxErr("mismatched " + closers[t.K]))
		case KText, KEsc, KStar:
			begin(t.P)
			w.lit(t.P, t.Lit)
		case KDollar:
			begin(t.P)
			p.dollar(w, t)
		case KLParen, KLBrace, KLBracket:
			begin(t.P)
			p.nested(w, t)
		case KQuote:
			if word != nil {
				panic(SyntaxErr("unexpected string delimiter"))
			}
			begin(t.P)
			p.quote(w, t)
		case KComment:
			if w != nil && w.mode == sSource {
				panic(SyntaxErr("unexpected comment delimiter"))
			}
			if word != nil {
				w.lit(t.P, t.Lit)
				break
			}
			begin(t.P)
			if p.peekIs(KLBrace) {
				p.blockComment(w, t)
			} else {
				m := &Morph{K: MLineC, P: t.P, Delim: len(t.Lit)}
				*w.ms = append(*w.ms, m)
				for !p.eof() {
					u := p.toks[p.i]
					p.i++
					if u.K == KNl {
						endWord()
						sent = nil
						break
					}
					m.Val += u.Lit
				}
			}
		}
	}
}

// nested reads a tuple, block or expression whose opening token is t.
func (p *parser) nested(w *wordState, t Tok) {
	m := &Morph{P: t.P}
	*w.ms = append(*w.ms, m)
	start := p.i
	switch t.K {
	case KLParen:
		m.K = MTuple
		m.Sub = p.script(KRParen, t.P)
		if w.mode == sSource {
			w.mode = sSelector
		}
	case KLBrace:
		m.K = MBlock
		m.Sub = p.script(KRBrace, t.P)
		var b strings.Builder
		for _, u := range p.toks[start : p.i-1] {
			b.WriteString(u.Lit)
		}
		m.Val = b.String()
		if w.mode == sSource {
			w.mode = sSelector
		}
	case KLBracket:
		m.K = MExpr
		m.Sub = p.script(KRBracket, t.P)
		w.next()
	}
}

func (p *parser) dollar(w *wordState, t Tok) {
	m := &Morph{K: MSubst, P: t.P, Val: t.Lit}
	if p.peekIs(KStar) {
		n := len(*w.ms)
		m.Exp = n == 0 || (*w.ms)[n-1].K != MSubst // only the leading one expands
		m.Val += p.toks[p.i].Lit
		p.i++
	}
	*w.ms = append(*w.ms, m)
	w.mode = sSource
}

func (p *parser) quote(w *wordState, t Tok) {
	switch n := len(t.Lit); {
	case n == 1:
		p.str(w, t)
	case n == 2 && p.peekIs(KText):
		p.tagged(w, t)
	case n == 2:
		*w.ms = append(*w.ms, &Morph{K: MStr, P: t.P})
	default:
		m := &Morph{K: MHere, P: t.P, Delim: n}
		*w.ms = append(*w.ms, m)
		for {
			if p.eof() {
				panic(SyntaxErr("unmatched here-string delimiter"))
			}
			u := p.toks[p.i]
			p.i++
			if u.K == KQuote && len(u.Lit) == n {
				return
			}
			m.Val += u.Seq
		}
	}
}

func (p *parser) str(outer *wordState, t Tok) {
	m := &Morph{K: MStr, P: t.P}
	*outer.ms = append(*outer.ms, m)
	w := &wordState{ms: &m.Parts}
	for {
		if p.eof() {
			panic(SyntaxErr("unmatched string delimiter"))
		}
		u := p.toks[p.i]
		p.i++
		if w.mode == sSource && u.K != KText && u.K != KDollar && u.K != KLBrace && u.K != KLBracket {
			w.stale()
		}
		switch u.K {
		case KDollar:
			p.dollar(w, u)
		case KQuote:
			if len(u.Lit) != 1 {
				panic(SyntaxErr("extra characters after string delimiter"))
			}
			w.stale()
			return
		case KLParen, KLBrace:
			if w.mode != sNone {
				p.nested(w, u)
			} else {
				w.lit(u.P, u.Lit)
			}
		case KLBracket:
			p.nested(w, u)
		default:
			w.lit(u.P, u.Lit)
		}
	}
}

func (p *parser) tagged(w *wordState, t Tok) {
	m := &Morph{K: MTagged, P: t.P, Tag: p.toks[p.i].Lit}
	*w.ms = append(*w.ms, m)
	for !p.eof() {
		u := p.toks[p.i]
		p.i++
		if u.K == KNl {
			break
		}
	}
	raw := ""
	for {
		if p.eof() {
			panic(SyntaxErr("unmatched tagged string delimiter"))
		}
		u := p.toks[p.i]
		p.i++
		if u.K == KText && u.Lit == m.Tag && p.peekIs(KQuote) && len(p.toks[p.i].Lit) == 2 {
			p.i++
			break
		}
		raw += u.Seq
	}
	// the closing tag's indentation is removed from every line
	lines := strings.Split(raw, "\n")
	indent := len(lines[len(lines)-1])
	for i, l := range lines {
		if len(l) < indent {
			lines[i] = ""
		} else {
			lines[i] = l[indent:]
		}
	}
	m.Val = strings.Join(lines, "\n")
}

func (p *parser) blockComment(w *wordState, t Tok) {
	m := &Morph{K: MBlockC, P: t.P, Delim: len(t.Lit)}
	*w.ms = append(*w.ms, m)
	p.i++ // the brace
	depth := 1
	for {
		if p.eof() {
			panic(SyntaxErr("unmatched block comment delimiter"))
		}
		u := p.toks[p.i]
		p.i++
		if u.K == KComment && len(u.Lit) == m.Delim && p.peekIs(KLBrace) {
			depth++
		}
		if u.K == KRBrace && p.peekIs(KComment) && len(p.toks[p.i].Lit) == m.Delim {
			depth--
			if depth == 0 {
				p.i++
				return
			}
		}
		m.Val += u.Seq
	}
}

// WType is the syntactic class of a word.
type WType int

const (
	WRoot WType = iota
	WCompound
	WSubst
	WQualified
	WIgnored
	WInvalid
)

// Classify determines the syntactic class of a word from the grammar:
//
//	root      := any single non-comment, non-$ morpheme
//	qualified := (literal|tuple|block) selector+
//	stem      := '$'+ (literal|tuple|block|expr) selector* | literal | expr
//	subst     := exactly one '$' stem        compound := stem stem+ (no tuples)
//	selector  := tuple | block | expr
//
// A leading literal followed only by selectors is qualified, not compound.
func Classify(w *Word) WType {
	ks := make([]byte, len(w.Ms))
	for i, m := range w.Ms {
		ks[i] = "ltbesHTcC$"[m.K]
	}
	switch {
	case len(ks) == 0:
		return WInvalid
	case ks[0] == 's' || ks[0] == 'H' || ks[0] == 'T':
		if len(ks) == 1 {
			return WRoot
		}
		return WInvalid
	case ks[0] == 'c' || ks[0] == 'C':
		if len(ks) == 1 {
			return WIgnored
		}
		return WInvalid
	case ks[0] != '$' && len(ks) == 1:
		return WRoot
	}
	sel := func(c byte) bool { return c == 't' || c == 'b' || c == 'e' }
	if ks[0] == 'l' || ks[0] == 't' || ks[0] == 'b' {
		i := 1
		for i < len(ks) && sel(ks[i]) {
			i++
		}
		if i == len(ks) {
			return WQualified
		}
		if ks[0] != 'l' {
			return WInvalid
		}
	}
	stems, tuple := 0, false
	for i := 0; i < len(ks); {
		switch {
		case ks[i] == '$':
			for i < len(ks) && ks[i] == '$' {
				i++
			}
			if i == len(ks) {
				// dangling substitution: accepted by no rule
				if len(ks) == 1 {
					return WInvalid
				}
				return WInvalid
			}
			if ks[i] != 'l' && !sel(ks[i]) {
				return WInvalid
			}
			if ks[i] == 't' {
				tuple = true
			}
			i++
			for i < len(ks) && sel(ks[i]) {
				i++
			}
			stems++
		case ks[i] == 'l' || ks[i] == 'e':
			stems++
			i++
		default:
			return WInvalid
		}
	}
	if tuple && stems > 1 {
		return WInvalid
	}
	if stems > 1 {
		return WCompound
	}
	return WSubst
}
