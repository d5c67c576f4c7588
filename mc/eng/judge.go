package eng

import (
	"fmt"
	"sort"
	"strings"
	"sync"
)

// Unmodelled tells that a model server doesn't know a statement which a real one may accept: no verdict.
func Unmodelled(err error) bool { return strings.Contains(err.Error(), ": model: ") }

// JudgeConverge: every statement accepted, and the result equals the oracle.
func JudgeConverge(t *Trans) []Failure {
	switch {
	case t.Panic != "":
		return []Failure{{Kind: "panic", Detail: t.Panic}}
	case t.PlanErr != nil:
		return []Failure{{Kind: "plan-error", Detail: t.PlanErr.Error()}}
	case t.ExecErr != nil && Unmodelled(t.ExecErr):
		return nil
	case t.ExecErr != nil:
		return []Failure{{Kind: "refused", Detail: fmt.Sprintf("%s\n  by the database: %v", t.Plan[t.ExecAt], t.ExecErr)}}
	}
	got, want := t.Sys.Canon(t.After), t.Sys.Canon(t.Oracle)
	if got != want {
		return []Failure{{Kind: "diverged", Detail: fmt.Sprintf("plan %q\n%s", t.Plan, Diff(want, got))}}
	}
	return nil
}

// memo judges what has the same key once, and returns the same verdict every time.
func memo(key func(t *Trans) string, judge func(t *Trans) []Failure) func(t *Trans) []Failure {
	type verdict struct {
		once sync.Once
		fs   []Failure
	}
	var seen sync.Map
	return func(t *Trans) []Failure {
		if t.PlanErr != nil || t.Panic != "" || t.ExecErr != nil {
			return nil // C01-C04 judge these
		}
		x, _ := seen.LoadOrStore(t.Sys.Name()+"\x00"+t.Fam.Name+"\x00"+key(t)+"\x00"+t.Sys.Key(t.After), &verdict{})
		v := x.(*verdict)
		v.once.Do(func() { v.fs = judge(t) })
		return append([]Failure{}, v.fs...)
	}
}

// JudgeIdem: the second run plans nothing.
func JudgeIdem() func(t *Trans) []Failure {
	return memo(func(t *Trans) string { return t.To.ID }, func(t *Trans) []Failure {
		d, err := t.Sys.Dump(t.After)
		if err != nil {
			return []Failure{{Kind: "dump-failed", Detail: err.Error()}}
		}
		p, err, pan := Plan(t.Sys.Mode(), t.To.SQL, d)
		switch {
		case pan != "":
			return []Failure{{Kind: "panic", Detail: pan}}
		case err != nil:
			return []Failure{{Kind: "plan-error", Detail: err.Error()}}
		case len(p) > 0:
			return []Failure{{Kind: "second-run-modifies", Detail: strings.Join(p, ";\n")}}
		}
		return nil
	})
}

// JudgeLocal: only objects that differ are touched, nothing kept is dropped on the way.
func JudgeLocal(t *Trans) []Failure {
	if t.PlanErr != nil || t.Panic != "" {
		return nil
	}
	from, want := t.Sys.Objects(t.From), t.Sys.Objects(t.Oracle)
	fp, wp := t.Sys.Pieces(t.From), t.Sys.Pieces(t.Oracle)
	var out []Failure
	prev := from
	for i, m := range t.Mid {
		cur := t.Sys.Objects(m)
		for _, k := range keys(prev, cur) {
			if prev[k] != cur[k] && from[k] == want[k] {
				out = append(out, Failure{Kind: "touches-equal-object", Detail: fmt.Sprintf("%s changed by %q", k, t.Plan[i])})
			}
		}
		pieces := t.Sys.Pieces(m)
		for k := range fp {
			if (strings.HasPrefix(k, "table ") || strings.HasPrefix(k, "column ")) && wp[k] && !pieces[k] {
				out = append(out, Failure{Kind: "drops-kept", Detail: fmt.Sprintf("%s dropped by %q", k, t.Plan[i])})
			}
		}
		prev = cur
		if len(out) > 0 {
			break
		}
	}
	return out
}

func keys(ms ...map[string]string) []string {
	s := map[string]bool{}
	for _, m := range ms {
		for k := range m {
			s[k] = true
		}
	}
	var o []string
	for k := range s {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
