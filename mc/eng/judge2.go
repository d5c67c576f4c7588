package eng

import (
	"fmt"
	"strings"
	"sync"
)

// JudgeExport judges the state a transition leads to (and, for an empty history, the empty database): exporting it twice gives the
// same text, the text as schema file changes nothing, and it builds the same schema on an empty database, both by the database
// itself and by the tool.
func JudgeExport() func(t *Trans) []Failure {
	return memo(func(t *Trans) string { return "" }, func(t *Trans) []Failure {
		d1, err := t.Sys.Dump(t.After)
		if err != nil {
			return []Failure{{Kind: "dump-failed", Detail: err.Error()}}
		}
		d2, err := t.Sys.Dump(t.After)
		if err != nil || d1 != d2 {
			return []Failure{{Kind: "nondeterministic", Detail: fmt.Sprintf("%s\nand then\n%s\n%v", d1, d2, err)}}
		}
		export := d1 + ";\n" // as printed
		if d1 == "" {
			export = "-- No table exists --\n"
		}
		p, err, pan := Plan(t.Sys.Mode(), export, d1)
		switch {
		case pan != "":
			return []Failure{{Kind: "panic", Detail: pan}}
		case err != nil:
			return []Failure{{Kind: "refuses-own-export", Detail: err.Error()}}
		case len(p) > 0:
			return []Failure{{Kind: "own-export-modifies", Detail: fmt.Sprintf("%s\n%q", export, p)}}
		}
		want := t.Sys.Canon(t.After)
		if st, err := load(t.Sys, t.Fam, export); err != nil {
			return []Failure{{Kind: "export-refused", Detail: fmt.Sprintf("%v\n%s", err, export)}}
		} else if got := t.Sys.Canon(st); got != want {
			return []Failure{{Kind: "export-incomplete", Detail: Diff(want, got)}}
		}
		st := t.Sys.Empty(t.Fam.Prelude)
		cur, err := t.Sys.Dump(st)
		if err != nil {
			return []Failure{{Kind: "dump-failed", Detail: err.Error()}}
		}
		p, err, pan = Plan(t.Sys.Mode(), export, cur)
		if err != nil || pan != "" {
			return []Failure{{Kind: "refuses-own-export", Detail: fmt.Sprint(err, pan)}}
		}
		for _, q := range p {
			if err := t.Sys.Exec(st, q); err != nil {
				return []Failure{{Kind: "export-refused", Detail: fmt.Sprintf("%v\n%q", err, p)}}
			}
		}
		if got := t.Sys.Canon(st); got != want {
			return []Failure{{Kind: "export-incomplete", Detail: "through the tool: " + Diff(want, got)}}
		}
		return nil
	})
}

// Loader is a system where an export is loaded in another order than it is printed in.
type Loader interface {
	LoadOrder(stmts []string) []string
}

func load(sys System, fam *Family, sql string) (State, error) {
	l, ok := sys.(Loader)
	if !ok {
		return Build(sys, fam, sql)
	}
	stmts, err := sys.Split(sql)
	if err != nil {
		return nil, err
	}
	st := sys.Empty(fam.Prelude)
	for _, q := range l.LoadOrder(stmts) {
		if err := sys.Exec(st, q); err != nil {
			return nil, fmt.Errorf("%v in %q", err, q)
		}
	}
	return st, nil
}

// Bystander is a part of a schema that has nothing to do with any family.
type Bystander struct {
	First, Last string   // files; the parts before and after in the order of names
	Changed     []string // other definitions of Last
	Mark        string   // marks the statements about Last
}

// JudgeAlone adds unrelated tables to both sides of a transition: the plan stays the same, wherever they stand in the file, and when
// they change too, their statements are added and nothing else changes.
func JudgeAlone(by func(system string) Bystander, deep bool) func(t *Trans) []Failure {
	type cur struct {
		from State
		dump string
		err  error
	}
	var mu sync.Mutex
	cache := map[System]cur{}
	alone := map[string][]string{}
	return func(t *Trans) []Failure {
		if t.PlanErr != nil || t.Panic != "" || !deep && len(t.Hist) > 1 {
			return nil
		}
		b := by(t.Sys.Name())
		mu.Lock()
		c := cache[t.Sys]
		mu.Unlock()
		if c.from != t.From || c.dump == "" {
			st := t.Sys.Clone(t.From)
			c = cur{from: t.From}
			stmts, err := t.Sys.Split(b.First + b.Last)
			if err != nil {
				panic(err)
			}
			for _, q := range stmts {
				if err := t.Sys.Exec(st, q); err != nil {
					panic(fmt.Sprint("bystander: ", err, " in ", q))
				}
			}
			c.dump, c.err = t.Sys.Dump(st)
			mu.Lock()
			cache[t.Sys] = c
			mu.Unlock()
		}
		if c.err != nil {
			return []Failure{{Kind: "dump-failed", Detail: c.err.Error()}}
		}
		for i, file := range []string{b.First + b.Last + t.To.SQL, t.To.SQL + b.Last + b.First, b.Last + t.To.SQL + b.First} {
			if i == 0 && !deep {
				continue
			}
			p, err, pan := Plan(t.Sys.Mode(), file, c.dump)
			if err != nil || pan != "" {
				return []Failure{{Kind: "unrelated-error", Detail: fmt.Sprintf("order %d: %v %s", i, err, pan)}}
			}
			if fmt.Sprintf("%q", p) != fmt.Sprintf("%q", t.Plan) {
				return []Failure{{Kind: "unrelated-tables", Detail: fmt.Sprintf("order %d: with unrelated tables %q\nwithout %q", i, p, t.Plan)}}
			}
		}
		for i, last := range b.Changed {
			if i > 0 && !deep && len(t.Hist) > 0 {
				break
			}
			p, err, pan := Plan(t.Sys.Mode(), b.First+last+t.To.SQL, c.dump)
			if err != nil || pan != "" {
				return []Failure{{Kind: "unrelated-error", Detail: fmt.Sprintf("%v %s", err, pan)}}
			}
			var rest, own []string
			for _, q := range p {
				if strings.Contains(q, b.Mark) {
					own = append(own, q)
				} else {
					rest = append(rest, q)
				}
			}
			mu.Lock()
			al, ok := alone[t.Sys.Name()+last]
			mu.Unlock()
			if !ok {
				if al, err, pan = Plan(t.Sys.Mode(), last, b.Last); err != nil || pan != "" {
					return []Failure{{Kind: "unrelated-error", Detail: fmt.Sprintf("%v %s", err, pan)}}
				}
				mu.Lock()
				alone[t.Sys.Name()+last] = al
				mu.Unlock()
			}
			if fmt.Sprintf("%q", rest) != fmt.Sprintf("%q", t.Plan) {
				return []Failure{{Kind: "unrelated-change", Detail: fmt.Sprintf("with an unrelated change %q\nwithout %q", p, t.Plan)}}
			}
			if fmt.Sprintf("%q", own) != fmt.Sprintf("%q", al) {
				return []Failure{{Kind: "unrelated-change", Detail: fmt.Sprintf("the unrelated change gives %q\nalone %q", own, al)}}
			}
		}
		return nil
	}
}
