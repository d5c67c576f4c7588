package prs

import (
	_ "embed"
	"fmt"
	"sort"
	"strings"
)

//go:embed grammar.txt
var grammarText string

// Prod is a production.
type Prod struct {
	LHS string
	RHS []string
}

// Grammar is the grammar the sentences are derived from: a reference copy of the productions of parser.y.
type Grammar struct {
	Term  map[string]string
	Prods map[string][]*Prod
	min   map[string][]string // shortest sentence (terminal names)
	ctx   map[string]*context
}

type context struct {
	pre, post []string
	cost      int
}

// LoadGrammar reads the reference copy.
func LoadGrammar() *Grammar {
	g := &Grammar{Term: map[string]string{}, Prods: map[string][]*Prod{}, min: map[string][]string{}, ctx: map[string]*context{}}
	for _, l := range strings.Split(grammarText, "\n") {
		f := strings.Fields(l)
		if len(f) < 2 {
			continue
		}
		if f[0] == "T" {
			g.Term[f[1]] = f[2]
		} else {
			g.Prods[f[1]] = append(g.Prods[f[1]], &Prod{f[1], f[2:]})
		}
	}
	names := g.names()
	for ch := true; ch; {
		ch = false
		for _, n := range names {
			for _, p := range g.Prods[n] {
				s, ok := g.minOf(p.RHS)
				if ok && (g.min[n] == nil || len(s) < len(g.min[n])) {
					if s == nil {
						s = []string{}
					}
					if g.min[n] == nil || len(g.min[n]) > len(s) {
						g.min[n] = s
						ch = true
					}
				}
			}
		}
	}
	g.ctx["command"] = &context{}
	for ch := true; ch; {
		ch = false
		for _, n := range names {
			c := g.ctx[n]
			if c == nil {
				continue
			}
			for _, p := range g.Prods[n] {
				for i, x := range p.RHS {
					if _, ok := g.Prods[x]; !ok {
						continue
					}
					a, ok1 := g.minOf(p.RHS[:i])
					b, ok2 := g.minOf(p.RHS[i+1:])
					if !ok1 || !ok2 {
						continue
					}
					cost := c.cost + len(a) + len(b)
					if o := g.ctx[x]; o == nil || cost < o.cost {
						g.ctx[x] = &context{cat(c.pre, a), cat(b, c.post), cost}
						ch = true
					}
				}
			}
		}
	}
	return g
}

func (g *Grammar) names() []string {
	var ns []string
	for n := range g.Prods {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

func cat(a ...[]string) []string {
	var out []string
	for _, x := range a {
		out = append(out, x...)
	}
	return out
}

func (g *Grammar) minOf(rhs []string) ([]string, bool) {
	var out []string
	for _, x := range rhs {
		if _, ok := g.Term[x]; ok {
			out = append(out, x)
			continue
		}
		m := g.min[x]
		if m == nil {
			return nil, false
		}
		out = append(out, m...)
	}
	return out, true
}

// Sentences derives, in the shortest context of every nonterminal, every production with each nonterminal of its right side
// expanded by each of its productions (depth 2), pairs of such expansions (pairs), and one level more (deep); everything
// else is as short as possible.  Sentences are terminal names.
func (g *Grammar) Sentences(pairs, deep bool, skip func(nt string) bool) [][]string {
	seen := map[string]bool{}
	var out [][]string
	for _, n := range g.names() {
		c := g.ctx[n]
		if c == nil || skip != nil && skip(n) {
			continue
		}
		emit := func(mid []string) {
			s := cat(c.pre, mid, c.post)
			k := strings.Join(s, " ")
			if !seen[k] {
				seen[k] = true
				out = append(out, s)
			}
		}
		for _, p := range g.Prods[n] {
			alts := make([][][]string, len(p.RHS))
			base := make([][]string, len(p.RHS))
			ok := true
			for i, x := range p.RHS {
				m, o := g.minOf([]string{x})
				ok = ok && o
				base[i] = m
				seenAlt := map[string]bool{}
				for _, q := range g.Prods[x] {
					s, o := g.minOf(q.RHS)
					if !o {
						continue
					}
					add := func(s []string) {
						if k := strings.Join(s, " "); !seenAlt[k] {
							seenAlt[k] = true
							alts[i] = append(alts[i], s)
						}
					}
					add(s)
					if deep {
						for j, y := range q.RHS {
							for _, r := range g.Prods[y] {
								if t, o := g.minOf(r.RHS); o {
									a, _ := g.minOf(q.RHS[:j])
									b, _ := g.minOf(q.RHS[j+1:])
									add(cat(a, t, b))
								}
							}
						}
					}
				}
			}
			if !ok {
				continue
			}
			with := func(r map[int][]string) {
				var mid []string
				for i := range base {
					if s, ok := r[i]; ok {
						mid = append(mid, s...)
					} else {
						mid = append(mid, base[i]...)
					}
				}
				emit(mid)
			}
			with(nil)
			for i := range alts {
				for _, s := range alts[i] {
					with(map[int][]string{i: s})
					if pairs {
						for j := i + 1; j < len(alts); j++ {
							for _, t := range alts[j] {
								with(map[int][]string{i: s, j: t})
							}
						}
					}
				}
			}
		}
	}
	return out
}

// Texts gives the token texts of a sentence; identifiers and literals are numbered so that none can pass for another.
func (g *Grammar) Texts(s []string) []string {
	out := make([]string, len(s))
	n := 0
	for i, x := range s {
		t := g.Term[x]
		switch x {
		case "ID":
			n++
			t = fmt.Sprintf("n%d", n)
		case "STRING":
			n++
			t = fmt.Sprintf("'s%d'", n)
		case "INTEGRAL":
			n++
			t = fmt.Sprint(n)
		case "FLOAT":
			n++
			t = fmt.Sprintf("%d.5", n)
		case "VALUE_ARG":
			n++
			t = fmt.Sprintf(":v%d", n)
		case "LIST_ARG":
			n++
			t = fmt.Sprintf("::l%d", n)
		}
		out[i] = t
	}
	return out
}
