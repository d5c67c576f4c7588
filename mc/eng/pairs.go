package eng

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

// RunPairs makes, for every variant of every family, the transition to it from the empty database and from what the tool made of up
// to near other variants (all of them if near is negative), in parallel over the variants.
func (x *Explorer) RunPairs(fams []*Family, near int) {
	type task struct {
		f *Family
		i int
	}
	var tasks []task
	for _, f := range fams {
		atomic.AddInt64(&x.Stats.Families, 1)
		for i := range f.Variants {
			tasks = append(tasks, task{f, i})
		}
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < x.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			sys := x.get()
			defer x.put(sys)
			for {
				k := int(atomic.AddInt64(&next, 1))
				if k >= len(tasks) {
					return
				}
				if !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
					x.mu.Lock()
					x.Stats.Capped = true
					x.mu.Unlock()
					return
				}
				x.pairsTo(sys, w, tasks[k].f, tasks[k].i, near)
				x.Journal.End(w)
			}
		}(w)
	}
	wg.Wait()
}

func (x *Explorer) pairsTo(sys System, w int, f *Family, i, near int) {
	to := f.Variants[i]
	oracle, err := Build(sys, f, to.SQL)
	if err != nil {
		panic(fmt.Sprintf("family %s variant %s is not a valid schema file for the model: %v", f.Name, to.ID, err))
	}
	empty := sys.Empty(f.Prelude)
	one := func(hist []string, from State) *Trans {
		dump, err := DumpOnce(sys, f, from)
		if err != nil {
			return nil // C06
		}
		t := x.Step(sys, f, hist, from, dump, to, oracle)
		x.Journal.Begin(w, t.ID())
		atomic.AddInt64(&x.Stats.Transitions, 1)
		atomic.AddInt64(&x.Stats.States, 1)
		if len(t.Plan) == 0 {
			atomic.AddInt64(&x.Stats.Empty, 1)
		}
		x.sample(t)
		for _, fl := range x.Judge(t) {
			if fl.Case == "" {
				fl.Case = t.ID()
			}
			fl.Prop = x.Prop
			fl.Repro = x.repro(t)
			x.fail(fl)
		}
		return t
	}
	one(nil, empty)
	n := len(f.Variants)
	done := map[int]bool{i: true}
	for k := 1; k < n; k++ {
		// the neighbours first: before, after, further away
		j := i
		switch {
		case near < 0:
			j = (i + k) % n
		case k > near:
			return
		case k == 1:
			j = (i + 1) % n
		case k == 2:
			j = (i + n - 1) % n
		default:
			j = (i + k*k*7) % n
		}
		if done[j] {
			continue
		}
		done[j] = true
		v := f.Variants[j]
		if f.Skip != nil && f.Skip(v.ID, to.ID) || f.Targets != nil && !f.Targets[to.ID] {
			continue
		}
		dump, err := DumpOnce(sys, f, empty)
		if err != nil {
			continue
		}
		t := x.Step(sys, f, nil, sys.Clone(empty), dump, v, nil)
		if t.PlanErr != nil || t.Panic != "" || t.ExecErr != nil {
			continue
		}
		one([]string{v.ID}, t.After)
	}
}
