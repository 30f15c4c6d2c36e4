// Package gen enumerates the derivations of grammars and the sequences over
// alphabets, completely and in order of size.
package gen

import (
	"fmt"
	"strconv"
	"strings"
)

type part struct {
	lit string
	nt  string
}
type prod struct {
	cost  int
	parts []part
}

// G is a grammar.
type G struct {
	rules map[string][]prod
	memo  map[string][]string
}

// New reads a grammar: lines "name:" start a nonterminal, the following lines
// are its productions "cost text" where <name> stands for a nonterminal and \n
// for a newline.
func New(text string) *G {
	g := &G{map[string][]prod{}, map[string][]string{}}
	type raw struct {
		nt   string
		cost int
		text string
	}
	var raws []raw
	cur := ""
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "//") {
			continue
		}
		if strings.HasSuffix(t, ":") && !strings.Contains(t, " ") {
			cur = t[:len(t)-1]
			if _, k := g.rules[cur]; !k {
				g.rules[cur] = nil
			}
			continue
		}
		c, body, _ := strings.Cut(t, " ")
		n, err := strconv.Atoi(c)
		if err != nil || cur == "" {
			panic("bad grammar line: " + l)
		}
		raws = append(raws, raw{cur, n, strings.ReplaceAll(body, `\n`, "\n")})
	}
	for _, r := range raws {
		p := prod{cost: r.cost}
		s := r.text
		for s != "" {
			best := -1
			name := ""
			for i := 0; i < len(s); i++ {
				if s[i] != '<' {
					continue
				}
				if j := strings.IndexByte(s[i:], '>'); j > 0 {
					if _, k := g.rules[s[i+1:i+j]]; k {
						best, name = i, s[i+1:i+j]
						break
					}
				}
			}
			if best < 0 {
				p.parts = append(p.parts, part{lit: s})
				break
			}
			if best > 0 {
				p.parts = append(p.parts, part{lit: s[:best]})
			}
			p.parts = append(p.parts, part{nt: name})
			s = s[best+len(name)+2:]
		}
		g.rules[r.nt] = append(g.rules[r.nt], p)
	}
	return g
}

// Exact is the list of all derivations of a nonterminal of a given cost.
func (g *G) Exact(nt string, n int) []string {
	key := fmt.Sprintf("%s/%d", nt, n)
	if l, k := g.memo[key]; k {
		return l
	}
	g.memo[key] = nil // zero-cost cycles derive nothing
	var out []string
	g.Each(nt, n, func(s string) { out = append(out, s) })
	g.memo[key] = out
	return out
}

// Each calls f on all derivations of a nonterminal of a given cost, without
// storing those of the top level.
func (g *G) Each(nt string, n int, f func(string)) {
	for _, p := range g.rules[nt] {
		if p.cost <= n {
			g.expand(p.parts, n-p.cost, "", f)
		}
	}
}

func (g *G) expand(ps []part, n int, acc string, f func(string)) {
	if len(ps) == 0 {
		if n == 0 {
			f(acc)
		}
		return
	}
	p := ps[0]
	if p.nt == "" {
		g.expand(ps[1:], n, acc+p.lit, f)
		return
	}
	last := true
	for _, q := range ps[1:] {
		if q.nt != "" {
			last = false
		}
	}
	lo := 0
	if last {
		lo = n
	}
	for c := lo; c <= n; c++ {
		for _, s := range g.Exact(p.nt, c) {
			g.expand(ps[1:], n-c, acc+s, f)
		}
	}
}

// UpTo calls f on all derivations of cost at most n, smallest first.
func (g *G) UpTo(nt string, n int, f func(string)) {
	for c := 0; c <= n; c++ {
		g.Each(nt, c, f)
	}
}

// All lists all derivations of cost at most n.
func (g *G) All(nt string, n int) (out []string) {
	g.UpTo(nt, n, func(s string) { out = append(out, s) })
	return
}

// Seqs calls f on every sequence of exactly n elements of the alphabet. The
// slice is reused.
func Seqs(alpha []string, n int, f func([]string)) {
	s := make([]string, n)
	var rec func(int)
	rec = func(i int) {
		if i == n {
			f(s)
			return
		}
		for _, a := range alpha {
			s[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

// Product calls f on every choice of one element per list. The slice is reused.
func Product(f func([]string), lists ...[]string) {
	s := make([]string, len(lists))
	var rec func(int)
	rec = func(i int) {
		if i == len(lists) {
			f(s)
			return
		}
		for _, a := range lists[i] {
			s[i] = a
			rec(i + 1)
		}
	}
	rec(0)
}

// Perms calls f on every permutation of the elements. The slice is reused.
func Perms(el []string, f func([]string)) {
	s := append([]string{}, el...)
	var rec func(int)
	rec = func(i int) {
		if i == len(s) {
			f(s)
			return
		}
		for j := i; j < len(s); j++ {
			s[i], s[j] = s[j], s[i]
			rec(i + 1)
			s[i], s[j] = s[j], s[i]
		}
	}
	rec(0)
}
