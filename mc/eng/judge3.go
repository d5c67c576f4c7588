package eng

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"mc/spell"
	"mc/sqlx"
)

var dialects = map[string]sqlx.Dialect{"mysql": sqlx.MySQL, "postgres": sqlx.PG, "mssql": sqlx.MSSQL, "sqlite": sqlx.SQLite}

// SpellStats is measured.
type SpellStats struct {
	Spellings, NotSame, Refused, Plans int64
	mu                                 sync.Mutex
	Names                              map[string]*[3]int64 // per kind of spelling: same, not the same, not known to the tool
}

func (s *SpellStats) at(name string) *[3]int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.Names == nil {
		s.Names = map[string]*[3]int64{}
	}
	if s.Names[name] == nil {
		s.Names[name] = &[3]int64{}
	}
	return s.Names[name]
}

// JudgeSpelling repeats every transition with the file in other spellings: the plan has the same effect, and is empty when the file's
// own is; and a database made from another spelling needs nothing.
func JudgeSpelling(stats *SpellStats, deep bool) func(t *Trans) []Failure {
	type sp struct {
		spell.S
		st   State
		dump string
	}
	var mu sync.Mutex
	cache := map[string][]sp{}
	known := map[string]bool{}
	return func(t *Trans) []Failure {
		if t.PlanErr != nil || t.Panic != "" || t.ExecErr != nil || !deep && len(t.Hist) > 1 {
			return nil
		}
		d := dialects[t.Sys.Name()]
		key := t.Sys.Name() + ":" + t.Fam.Name + ":" + t.To.ID
		mu.Lock()
		sps, ok := cache[key]
		mu.Unlock()
		var fs []Failure
		failed := func(s spell.S, kind, f string, a ...interface{}) {
			fs = append(fs, Failure{Kind: "spelled-" + s.Name + "-" + kind, Detail: s.SQL + "\n" + fmt.Sprintf(f, a...)})
		}
		if !ok {
			for _, s := range append(spell.Lexical(t.To.SQL, d), spell.Structural(t.To.SQL, d)...) {
				n := stats.at(s.Name)
				st, err := Build(t.Sys, t.Fam, s.SQL)
				if err != nil || t.Sys.Canon(st) != t.Sys.Canon(t.Oracle) {
					atomic.AddInt64(&n[1], 1)
					atomic.AddInt64(&stats.NotSame, 1)
					if Debug {
						fmt.Printf("NOTSAME %s %s\n%s\n%v\n", key, s.Name, s.SQL, err)
						if err == nil {
							fmt.Println(Diff(t.Sys.Canon(t.Oracle), t.Sys.Canon(st)))
						}
					}
					continue
				}
				x := sp{S: s, st: st}
				if _, err, pan := Plan(t.Sys.Mode(), s.SQL, ""); pan != "" || err != nil && s.Lex {
					if _, err0, _ := Plan(t.Sys.Mode(), t.To.SQL, ""); err0 == nil {
						failed(s, "refused", "%v %s", err, pan)
					}
					continue
				} else if err != nil { // the tool doesn't know this one
					atomic.AddInt64(&n[2], 1)
					atomic.AddInt64(&stats.Refused, 1)
					if Debug {
						fmt.Printf("REFUSED %s %s\n%s\n%v\n", key, s.Name, s.SQL, err)
					}
					continue
				}
				atomic.AddInt64(&n[0], 1)
				atomic.AddInt64(&stats.Spellings, 1)
				if x.dump, err = DumpOnce(t.Sys, t.Fam, st); err != nil {
					failed(s, "dump", "%v", err)
					continue
				}
				sps = append(sps, x)
			}
			mu.Lock()
			cache[key] = sps
			mu.Unlock()
		}
		canon := t.Sys.Canon(t.After)
		akey := t.Sys.Key(t.After)
		mu.Lock()
		first := !known[key+akey]
		known[key+akey] = true
		mu.Unlock()
		dump2, again := "", false
		if first {
			var err error
			if dump2, err = DumpOnce(t.Sys, t.Fam, t.After); err == nil {
				p, err, pan := Plan(t.Sys.Mode(), t.To.SQL, dump2)
				again = err == nil && pan == "" && len(p) == 0
			}
		}
		for _, x := range sps {
			atomic.AddInt64(&stats.Plans, 1)
			p, err, pan := Plan(t.Sys.Mode(), x.SQL, t.Dump)
			if err != nil && !x.Lex && strings.Contains(err.Error(), "not handled yet") {
				n := stats.at(x.Name)
				atomic.AddInt64(&n[2], 1)
				continue
			}
			if err != nil || pan != "" {
				failed(x.S, "refused", "%v %s", err, pan)
				continue
			}
			if (len(p) == 0) != (len(t.Plan) == 0) {
				failed(x.S, "other-plan", "plans %q\ninstead of %q", p, t.Plan)
				continue
			}
			if strings.Join(p, "\x00") != strings.Join(t.Plan, "\x00") {
				st := t.Sys.Clone(t.From)
				bad := false
				for _, q := range p {
					if err := t.Sys.Exec(st, q); err != nil {
						failed(x.S, "refused-by-database", "%s: %v\ninstead of %q", q, err, t.Plan)
						bad = true
						break
					}
				}
				if bad {
					continue
				}
				if c := t.Sys.Canon(st); c != canon {
					failed(x.S, "other-effect", "plans %q\ninstead of %q\n%s", p, t.Plan, Diff(canon, c))
					continue
				}
			}
			if again {
				if p, err, pan := Plan(t.Sys.Mode(), x.SQL, dump2); err != nil || pan != "" || len(p) > 0 {
					failed(x.S, "not-noticed-as-same", "on the schema made from the other file: %v %s %q", err, pan, p)
					continue
				}
				if len(t.Hist) == 0 {
					// a database made by the server from the other spelling
					if p, err, pan := Plan(t.Sys.Mode(), t.To.SQL, x.dump); err != nil || pan != "" || len(p) > 0 {
						if p0, err0, pan0 := Plan(t.Sys.Mode(), t.To.SQL, mustDump(t.Sys, t.Fam, t.Oracle)); err0 == nil && pan0 == "" && len(p0) == 0 {
							failed(x.S, "database-not-same", "a database made from this file: %v %s %q", err, pan, p)
						}
					}
				}
			}
		}
		return fs
	}
}

// Debug prints what a judge leaves out.
var Debug bool

func mustDump(sys System, f *Family, st State) string {
	d, err := DumpOnce(sys, f, st)
	if err != nil {
		return "dump failed"
	}
	return d
}

// Kinds is how many spellings of each kind were used, left out as another schema, and not known to the tool.
func (s *SpellStats) Kinds() map[string][3]int64 {
	m := map[string][3]int64{}
	for k, v := range s.Names {
		m[k] = *v
	}
	return m
}
