// Package prs model checks the SQL parser: it explores the parser's own automaton breadth-first and enumerates token strings,
// operator trees and values up to bounds.
package prs

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"

	sp "github.com/k0kubun/sqldef/sqlparser"
)

// Modes are the dialect modes.
var Modes = []sp.ParserMode{sp.ParserModeMysql, sp.ParserModePostgres, sp.ParserModeSQLite3, sp.ParserModeMssql}

// ModeName names one.
func ModeName(m sp.ParserMode) string {
	switch m {
	case sp.ParserModeMysql:
		return "mysql"
	case sp.ParserModePostgres:
		return "postgres"
	case sp.ParserModeSQLite3:
		return "sqlite"
	}
	return "mssql"
}

// Safe runs f and returns the text of a panic, with the place in the parser where it happened.
func Safe(f func()) (pan string) {
	defer func() {
		if r := recover(); r != nil {
			pan = fmt.Sprint(r)
			pcs := make([]uintptr, 40)
			n := runtime.Callers(3, pcs)
			fr := runtime.CallersFrames(pcs[:n])
			for {
				f, more := fr.Next()
				if strings.Contains(f.Function, "sqldef/") {
					pan += " in " + f.Function[strings.LastIndex(f.Function, "/")+1:]
					break
				}
				if !more {
					break
				}
			}
		}
	}()
	f()
	return
}

// Tokens is the alphabet: the text of one token of every kind the scanner knows.
func Tokens() []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if s != "" && !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, s := range []string{"a", "'s'", "1", "1.5", "x'0a'", "0x1f", "b'1'", ":v", "::l", "?", "=", ",", "(", ")", "[", "]", "+", "-", "*", "/", "%", "^", "~", "&", "|", "&&", "||", ".", "<", ">", "<=", ">=", "<>", "<=>", "<<", ">>", "!=", "!", "->", "->>", "`q`", "\"d\"", "@@v", "@u"} {
		add(s)
	}
	var kw []string
	for id := 57000; id < 59000; id++ {
		if s := sp.KeywordString(id); s != "" {
			kw = append(kw, s)
		}
	}
	sort.Strings(kw)
	for _, s := range kw {
		add(s)
	}
	return out
}

// viable parses toks: whether nothing is wrong before the end, and whether it is a statement.
func viable(mode sp.ParserMode, text string) (ok, accepted bool, stmt sp.Statement) {
	tk := sp.NewStringTokenizer(text+"   ", mode)
	st, err := sp.ParseNext(tk)
	if tk.LastError == nil && err == nil {
		return true, true, st
	}
	if tk.LastError == nil {
		return false, false, nil
	}
	// an error at the very end, behind the blanks, is one that more tokens could mend
	m := tk.LastError.Error()
	return strings.HasPrefix(m, "syntax error") && !strings.Contains(m, " near '") && strings.HasSuffix(m, fmt.Sprintf(" at position %d", len(text)+4)), false, nil
}

// WState is a state of the parser as far as what may follow can tell.
type WState struct {
	ID     int
	Prefix []string // shortest
	Next   []int    // acceptable tokens
	To     []int    // their states
	Accept bool
	dist   int // tokens to the nearest accepting state
	via    int // which Next leads there
}

// Walk is the explored automaton.
type Walk struct {
	Mode   sp.ParserMode
	Toks   []string
	States []*WState
	Parses int64
}

// Explore builds the automaton breadth-first up to a number of states.
func Explore(mode sp.ParserMode, workers, max int, stop func() bool) *Walk {
	w := &Walk{Mode: mode, Toks: Tokens()}
	type job struct {
		from, tok int
		prefix    []string
	}
	ids := map[string]int{}
	sig := func(prefix []string) (string, []int, bool) {
		base := strings.Join(prefix, " ")
		_, acc, _ := viable(mode, base)
		var next []int
		b := make([]byte, (len(w.Toks)+8)/8)
		for i, t := range w.Toks {
			if ok, _, _ := viable(mode, base+" "+t); ok {
				next = append(next, i)
				b[i/8] |= 1 << uint(i%8)
			}
		}
		if acc {
			b[len(w.Toks)/8] |= 1 << uint(len(w.Toks)%8)
		}
		return string(b), next, acc
	}
	s0, n0, a0 := sig(nil)
	ids[s0] = 0
	w.States = append(w.States, &WState{Next: n0, Accept: a0})
	for lo := 0; lo < len(w.States) && (max == 0 || len(w.States) < max) && !stop(); {
		var jobs []job
		hi := len(w.States)
		for _, s := range w.States[lo:hi] {
			for _, t := range s.Next {
				jobs = append(jobs, job{s.ID, t, append(append([]string{}, s.Prefix...), w.Toks[t])})
			}
		}
		lo = hi
		type res struct {
			sig  string
			next []int
			acc  bool
		}
		rs := make([]res, len(jobs))
		var wg sync.WaitGroup
		var mu sync.Mutex
		at := 0
		for k := 0; k < workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					mu.Lock()
					i := at
					at++
					mu.Unlock()
					if i >= len(jobs) {
						return
					}
					s, n, a := sig(jobs[i].prefix)
					rs[i] = res{s, n, a}
				}
			}()
		}
		wg.Wait()
		w.Parses += int64(len(jobs)) * int64(len(w.Toks))
		for i, j := range jobs {
			id, ok := ids[rs[i].sig]
			if !ok {
				id = len(w.States)
				ids[rs[i].sig] = id
				w.States = append(w.States, &WState{ID: id, Prefix: j.prefix, Next: rs[i].next, Accept: rs[i].acc})
			}
			w.States[j.from].To = append(w.States[j.from].To, id)
		}
	}
	// distance to acceptance
	for _, s := range w.States {
		s.dist = 1 << 20
		if s.Accept {
			s.dist = 0
		}
	}
	for ch := true; ch; {
		ch = false
		for _, s := range w.States {
			for i, t := range s.To {
				if d := w.States[t].dist + 1; d < s.dist {
					s.dist, s.via, ch = d, i, true
				}
			}
		}
	}
	return w
}

// Complete extends a prefix that ends in state id to a statement.
func (w *Walk) Complete(prefix []string, id int) ([]string, bool) {
	out := append([]string{}, prefix...)
	for n := 0; ; n++ {
		s := w.States[id]
		if s.Accept {
			return out, true
		}
		if s.dist >= 1<<20 || n > 40 || len(s.To) == 0 {
			return out, false
		}
		out = append(out, w.Toks[s.Next[s.via]])
		id = s.To[s.via]
	}
}

// Viable tells about a token list.
func Viable(mode sp.ParserMode, toks []string) (ok, accepted bool, stmt sp.Statement) {
	return viable(mode, strings.Join(toks, " "))
}
