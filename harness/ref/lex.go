// Package ref is an independent reference model of the Helena language: lexer,
// recursive-descent parser, word classifier and direct-style tree-walking
// interpreter. It shares no code with the implementation under test.
package ref

// Token kinds, in the documented order of lexeme classes.
type Kind int

const (
	KWs Kind = iota
	KNl
	KCont
	KText
	KEsc
	KComment
	KLParen
	KRParen
	KLBrace
	KRBrace
	KLBracket
	KRBracket
	KQuote
	KDollar
	KSemi
	KStar
)

// Pos is a zero-based source position.
type Pos struct{ Idx, Line, Col int }

// Tok is a lexeme of the source.
type Tok struct {
	K   Kind
	P   Pos
	Seq string
	Lit string
}

func isWs(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' }

const specials = " \t\r\f\n\\#(){}[]\"$;*"

func isSpecial(c byte) bool {
	for i := 0; i < len(specials); i++ {
		if specials[i] == c {
			return true
		}
	}
	return false
}

var singles = map[byte]Kind{'(': KLParen, ')': KRParen, '{': KLBrace, '}': KRBrace,
	'[': KLBracket, ']': KRBracket, '$': KDollar, ';': KSemi, '*': KStar, '\n': KNl}

func numEscape(s string, max int, base int) (int, int) {
	n, v := 0, int32(0)
	for n < len(s) && n < max {
		d := -1
		c := s[n]
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d < 0 || d >= base {
			break
		}
		v = v*int32(base) + int32(d)
		n++
	}
	return n, int(v)
}

// escape decodes the escape sequence at the start of s (s[0]=='\\', len>1, not
// a line continuation); it returns its length and its literal value.
func escape(s string) (int, string) {
	c := s[1]
	switch c {
	case 'a':
		return 2, "\a"
	case 'b':
		return 2, "\b"
	case 'f':
		return 2, "\f"
	case 'n':
		return 2, "\n"
	case 'r':
		return 2, "\r"
	case 't':
		return 2, "\t"
	case 'v':
		return 2, "\v"
	}
	if c >= '0' && c <= '7' {
		n, v := numEscape(s[1:], 3, 8)
		return 1 + n, string(rune(v))
	}
	max := 0
	switch c {
	case 'x':
		max = 2
	case 'u':
		max = 4
	case 'U':
		max = 8
	}
	if max > 0 {
		if n, v := numEscape(s[2:], max, 16); n > 0 {
			return 2 + n, string(rune(v))
		}
	}
	return 2, string(s[1:2])
}

// Lex splits a source into lexemes.
func Lex(src string) []Tok {
	var out []Tok
	i := 0
	line, col := 0, 0
	for i < len(src) {
		c := src[i]
		n := 1
		var k Kind
		lit := ""
		hasLit := false
		switch {
		case isWs(c):
			k = KWs
			for i+n < len(src) && isWs(src[i+n]) {
				n++
			}
		case c == '#' || c == '"':
			k = KComment
			if c == '"' {
				k = KQuote
			}
			for i+n < len(src) && src[i+n] == c {
				n++
			}
		case c == '\\':
			if i+1 == len(src) {
				k = KText
			} else if src[i+1] == '\n' {
				k = KCont
				n = 2
				for i+n < len(src) && isWs(src[i+n]) {
					n++
				}
				lit, hasLit = " ", true
			} else {
				k = KEsc
				n, lit = escape(src[i:])
				hasLit = true
			}
		case isSpecial(c):
			k = singles[c]
		default:
			k = KText
			for i+n < len(src) && !isSpecial(src[i+n]) {
				n++
			}
		}
		seq := src[i : i+n]
		if !hasLit {
			lit = seq
		}
		out = append(out, Tok{k, Pos{i, line, col}, seq, lit})
		for j := 0; j < n; j++ {
			if seq[j] == '\n' {
				line++
				col = 0
			} else {
				col++
			}
		}
		i += n
	}
	return out
}
