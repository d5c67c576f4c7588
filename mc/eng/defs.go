package eng

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// DefStats is measured.
type DefStats struct {
	Definitions, NotAccepted, NotInGrammar, NotRead, Pairs, Same int64
	mu                                                           sync.Mutex
	Left                                                         []string
}

func (s *DefStats) left(f, why string) {
	s.mu.Lock()
	if len(s.Left) < 4000 {
		s.Left = append(s.Left, f+": "+why)
	}
	s.mu.Unlock()
}

type def struct {
	v      Variant
	st     State
	canon  string
	dump   string
	texts  []Variant // the file's own text, and what the server makes of it
	usable bool
}

// RunDefs explores all ordered pairs of the definitions of each family: the database was made by the server from one file, and the
// schema file is another, in its own words and in the server's.
//
// The own words are taken for every own-th pair.
func (x *Explorer) RunDefs(fams []*Family, stats *DefStats, own int, only string) {
	for _, f := range fams {
		if only != "" && !strings.HasPrefix(only, f.Name+":") {
			continue
		}
		atomic.AddInt64(&x.Stats.Families, 1)
		ds := make([]def, len(f.Variants))
		x.each(len(ds), func(sys System, w, i int) {
			v := f.Variants[i]
			d := &ds[i]
			d.v = v
			st, err := Build(sys, f, v.SQL)
			if err != nil {
				atomic.AddInt64(&stats.NotAccepted, 1)
				stats.left(f.Name+":"+v.ID, "not accepted by the database: "+err.Error()+"\n"+v.SQL)
				return
			}
			d.st, d.canon = st, sys.Canon(st)
			if d.dump, err = sys.Dump(st); err != nil {
				atomic.AddInt64(&stats.NotRead, 1)
				stats.left(f.Name+":"+v.ID, "not exported: "+err.Error())
				return // C06
			}
			if p, err, pan := Plan(sys.Mode(), d.dump, d.dump); err != nil || pan != "" || len(p) > 0 {
				atomic.AddInt64(&stats.NotRead, 1)
				stats.left(f.Name+":"+v.ID, fmt.Sprintf("its export is not read: %v %s %q\n%s", err, pan, p, d.dump))
				if err == nil && pan == "" {
					x.fail(Failure{Prop: x.Prop, Case: f.Name + ":" + v.ID + ">=" + v.ID, Kind: "invented", Detail: fmt.Sprintf("plan %q\n%s", p, d.dump)})
				}
				return // C06
			}
			d.usable = true
			if p, err, pan := Plan(sys.Mode(), v.SQL, ""); err == nil && pan == "" {
				_ = p
				d.texts = append(d.texts, v)
				atomic.AddInt64(&stats.Definitions, 1)
			} else {
				atomic.AddInt64(&stats.NotInGrammar, 1)
				stats.left(f.Name+":"+v.ID, fmt.Sprint("not in the grammar: ", err, pan))
			}
			d.texts = append(d.texts, Variant{ID: "=" + v.ID, SQL: d.dump + ";\n"})
		})
		x.each(len(ds), func(sys System, w, i int) {
			if !ds[i].usable {
				return
			}
			for j := range ds {
				if ds[j].st == nil || !ds[j].usable || f.Skip != nil && f.Skip(ds[i].v.ID, ds[j].v.ID) {
					continue
				}
				for _, to := range ds[j].texts {
					id := f.Name + ":" + ds[i].v.ID + ">" + to.ID
					if only != "" && only != id {
						continue
					}
					same := ds[i].canon == ds[j].canon
					if same && !strings.HasPrefix(to.ID, "=") {
						continue // other words for the same: C05, C12
					}
					if j%own != i%own && only == "" && !strings.HasPrefix(to.ID, "=") {
						continue
					}
					x.Journal.Begin(w, id)
					atomic.AddInt64(&stats.Pairs, 1)
					atomic.AddInt64(&x.Stats.Transitions, 1)
					t := x.Step(sys, f, []string{ds[i].v.ID}, sys.Clone(ds[i].st), ds[i].dump, to, ds[j].st)
					x.sample(t)
					var fs []Failure
					if same {
						atomic.AddInt64(&stats.Same, 1)
						if t.PlanErr != nil || t.Panic != "" || len(t.Plan) > 0 {
							fs = []Failure{{Kind: "invented", Detail: fmt.Sprintf("plan %q %v %s", t.Plan, t.PlanErr, t.Panic)}}
						}
					} else if fs = JudgeConverge(t); len(fs) == 0 {
						fs = JudgeLocal(t)
					}
					for _, fl := range fs {
						fl.Case, fl.Prop, fl.Repro = id, x.Prop, x.repro(t)
						x.fail(fl)
					}
				}
				if !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
					x.mu.Lock()
					x.Stats.Capped = true
					x.mu.Unlock()
					break
				}
			}
			x.Journal.End(w)
		})
		for _, d := range ds {
			if d.usable {
				x.Stats.States++
			}
		}
	}
}

func (x *Explorer) each(n int, do func(sys System, w, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < x.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			sys := x.get()
			defer x.put(sys)
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= n {
					return
				}
				do(sys, w, k)
			}
		}(w)
	}
	wg.Wait()
}
