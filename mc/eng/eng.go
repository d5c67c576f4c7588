// Package eng is the explicit-state explorer: states are catalogs, transitions are runs of the real plan generator on the
// real adapter's dump, executed by a database (model server or real engine).
package eng

import (
	"crypto/sha1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io/ioutil"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/k0kubun/sqldef/schema"
)

// State is an opaque catalog state.
type State interface{}

// System is one database under exploration.  An instance is used by one worker at a time.
type System interface {
	Name() string
	Mode() schema.GeneratorMode
	Empty(prelude []string) State
	Clone(State) State
	Exec(s State, sql string) error
	Canon(State) string              // what the properties compare
	Key(State) string                // everything that can influence the future
	Objects(State) map[string]string // object -> canonical definition (comparison level)
	Pieces(State) map[string]bool    // droppable pieces
	Dump(State) (string, error)      // through the real adapter
	Split(sql string) ([]string, error)
	Close()
}

// PlanExecer executes a whole plan at once; it returns the index of the refused statement.
type PlanExecer interface {
	ExecPlan(s State, plan []string) (int, error)
}

// Variant is one schema file of a family.
type Variant struct {
	ID  string
	SQL string
	// Spell lists variants of the same family that denote the same schema (used by C12).
	Same string
}

// Family is a finite space of schema files over which all ordered pairs are explored.
type Family struct {
	Name     string
	Prelude  []string // statements that prepare the environment (schemas, roles, functions)
	Variants []Variant
	Targets  map[string]bool // if set, only these variants are used as desired files
	Tags     map[string]bool
	Skip     func(from, to string) bool // pairs outside the documented support
	Depth    int                        // BFS levels beyond the first; 0 means until closure
}

// Trans is one explored transition.
type Trans struct {
	Sys     System
	Fam     *Family
	Hist    []string // variants applied from the empty database, excluding To
	From    State
	Dump    string
	To      Variant
	Plan    []string
	PlanErr error
	Panic   string
	ExecErr error // first refused statement
	ExecAt  int
	After   State
	Oracle  State
	OrErr   error
	Mid     []State // state after each statement, when KeepMid
}

// ID identifies the transition.
func (t *Trans) ID() string {
	return t.Fam.Name + ":" + strings.Join(append(append([]string{}, t.Hist...), t.To.ID), ">")
}

// Failure is one violated judgement.
type Failure struct {
	Prop   string
	Case   string
	Kind   string
	Detail string
	Repro  map[string]interface{}
}

// FKey identifies a failure in the known-findings file: the case, the kind and a digest of what exactly went wrong.
func (f Failure) FKey() string { return f.Case + " " + f.Kind + " " + hash(f.Detail)[:8] }

// Plan runs the real generator, turning a panic into text.
func Plan(mode schema.GeneratorMode, desired, current string) (plan []string, err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			pan = fmt.Sprint(r)
			_ = buf
		}
	}()
	plan, err = schema.GenerateIdempotentDDLs(mode, desired, current)
	return
}

// Stats are measured on the run.
type Stats struct {
	States, Transitions, Plans, Statements, Empty int64
	Families                                      int64
	Pairs                                         int64
	Capped                                        bool
	Samples                                       []interface{}
}

// Explorer runs families.
type Explorer struct {
	NewSys   func() System
	Workers  int
	Deadline time.Time
	Judge    func(t *Trans) []Failure
	KeepMid  bool
	MaxDepth int // BFS levels
	Journal  *Journal
	Prop     string
	Stats    Stats
	mu       sync.Mutex
	Fails    []Failure
	pool     chan System
	NoBFS    bool
}

// Journal lets the supervisor attribute a crash or a hang: a shared file mapping holds what every worker is doing.
type Journal struct {
	mem []byte
	mu  []sync.Mutex
	at  []int64
}

const jrec = 4096

// NewJournal maps path; hang is how long one case may take.
func NewJournal(path string, workers int, hang time.Duration) *Journal {
	if path == "" {
		return nil
	}
	f, err := os.OpenFile(path, os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0644)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(int64(workers * jrec)); err != nil {
		panic(err)
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, workers*jrec, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	j := &Journal{mem: mem, at: make([]int64, workers), mu: make([]sync.Mutex, workers)}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			for w := range j.at {
				at := atomic.LoadInt64(&j.at[w])
				if at != 0 && time.Now().UnixNano()-at > int64(hang) {
					j.mu[w].Lock()
					fmt.Fprintf(os.Stderr, "HANG: worker %d\n", w)
					// leave only the hanging case in the journal
					for v := range j.at {
						if v != w {
							binary.LittleEndian.PutUint32(j.mem[v*jrec:], 0)
						}
					}
					os.Exit(77)
				}
			}
		}
	}()
	return j
}

// Begin records the case a worker starts.
func (j *Journal) Begin(w int, id string) {
	if j == nil {
		return
	}
	if len(id) > jrec-4 {
		id = id[:jrec-4]
	}
	b := j.mem[w*jrec : (w+1)*jrec]
	binary.LittleEndian.PutUint32(b, 0)
	copy(b[4:], id)
	binary.LittleEndian.PutUint32(b, uint32(len(id)))
	atomic.StoreInt64(&j.at[w], time.Now().UnixNano())
}

// End records that the worker is idle.
func (j *Journal) End(w int) {
	if j == nil {
		return
	}
	atomic.StoreInt64(&j.at[w], 0)
	binary.LittleEndian.PutUint32(j.mem[w*jrec:], 0)
}

// ReadJournal lists the cases that were running when the process ended.
func ReadJournal(path string) []string {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []string
	for ; len(b) >= jrec; b = b[jrec:] {
		if n := int(binary.LittleEndian.Uint32(b)); n > 0 && n <= jrec-4 {
			out = append(out, string(b[4:4+n]))
		}
	}
	return out
}

type node struct {
	st   State
	hist []string
}

func hash(s string) string {
	h := sha1.Sum([]byte(s))
	return hex.EncodeToString(h[:10])
}

func (x *Explorer) get() System  { return <-x.pool }
func (x *Explorer) put(s System) { x.pool <- s }

// Init prepares the worker pool.
func (x *Explorer) Init() {
	if x.Workers == 0 {
		x.Workers = runtime.NumCPU()
	}
	x.pool = make(chan System, x.Workers)
	for i := 0; i < x.Workers; i++ {
		x.pool <- x.NewSys()
	}
}

// Done closes the pool.
func (x *Explorer) Done() {
	for i := 0; i < x.Workers; i++ {
		(<-x.pool).Close()
	}
}

// Build executes a schema file on an empty database.
func Build(sys System, fam *Family, sql string) (State, error) {
	st := sys.Empty(fam.Prelude)
	stmts, err := sys.Split(sql)
	if err != nil {
		return nil, err
	}
	for _, q := range stmts {
		if err := sys.Exec(st, q); err != nil {
			return nil, fmt.Errorf("%v in %q", err, q)
		}
	}
	return st, nil
}

// Step makes one transition.
func (x *Explorer) Step(sys System, fam *Family, hist []string, from State, dump string, to Variant, oracle State) *Trans {
	t := &Trans{Sys: sys, Fam: fam, Hist: hist, From: from, Dump: dump, To: to, Oracle: oracle}
	t.Plan, t.PlanErr, t.Panic = Plan(sys.Mode(), to.SQL, dump)
	atomic.AddInt64(&x.Stats.Plans, 1)
	if t.PlanErr != nil || t.Panic != "" {
		return t
	}
	t.After = sys.Clone(from)
	if px, ok := sys.(PlanExecer); ok && !x.KeepMid {
		t.ExecAt, t.ExecErr = px.ExecPlan(t.After, t.Plan)
		atomic.AddInt64(&x.Stats.Statements, int64(len(t.Plan)))
		return t
	}
	for i, q := range t.Plan {
		atomic.AddInt64(&x.Stats.Statements, 1)
		if err := sys.Exec(t.After, q); err != nil {
			t.ExecErr, t.ExecAt = err, i
			break
		}
		if x.KeepMid {
			t.Mid = append(t.Mid, sys.Clone(t.After))
		}
	}
	return t
}

// Run explores one family.
func (x *Explorer) Run(fam *Family) {
	atomic.AddInt64(&x.Stats.Families, 1)
	sys := x.get()
	oracles := map[string]State{}
	for _, v := range fam.Variants {
		st, err := Build(sys, fam, v.SQL)
		if err != nil {
			panic(fmt.Sprintf("family %s variant %s is not a valid schema file for the model: %v", fam.Name, v.ID, err))
		}
		oracles[v.ID] = st
	}
	seen := map[string]bool{}
	var level []node
	e := sys.Empty(fam.Prelude)
	seen[sys.Key(e)] = true
	level = append(level, node{e, nil})
	// every fresh state is an initial state too; it is what applying the file to an empty database must give
	x.put(sys)
	for depth := 0; len(level) > 0; depth++ {
		atomic.AddInt64(&x.Stats.States, int64(len(level)))
		if x.MaxDepth > 0 && depth > x.MaxDepth || fam.Depth > 0 && depth > fam.Depth {
			x.Stats.Capped = true
			break
		}
		type found struct {
			key string
			n   node
		}
		results := make([][]found, len(level))
		var wg sync.WaitGroup
		var next int64 = -1
		for w := 0; w < x.Workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				sys := x.get()
				defer x.put(sys)
				for {
					i := int(atomic.AddInt64(&next, 1))
					if i >= len(level) {
						return
					}
					if !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
						x.mu.Lock()
						x.Stats.Capped = true
						x.mu.Unlock()
						return
					}
					n := level[i]
					x.Journal.Begin(w, fam.Name+":"+strings.Join(n.hist, ">"))
					dump, err := sys.Dump(n.st)
					if err != nil {
						x.fail(Failure{Prop: x.Prop, Case: fam.Name + ":" + strings.Join(n.hist, ">"), Kind: "dump-failed", Detail: err.Error()})
						x.Journal.End(w)
						continue
					}
					for _, to := range fam.Variants {
						if fam.Targets != nil && !fam.Targets[to.ID] && len(n.hist) > 0 {
							continue
						}
						if fam.Skip != nil && len(n.hist) > 0 && fam.Skip(n.hist[len(n.hist)-1], to.ID) {
							continue
						}
						x.Journal.Begin(w, fam.Name+":"+strings.Join(append(append([]string{}, n.hist...), to.ID), ">"))
						t := x.Step(sys, fam, n.hist, n.st, dump, to, oracles[to.ID])
						atomic.AddInt64(&x.Stats.Transitions, 1)
						if len(t.Plan) == 0 {
							atomic.AddInt64(&x.Stats.Empty, 1)
						}
						fs := x.Judge(t)
						x.sample(t)
						bad := t.PlanErr != nil || t.Panic != "" || t.ExecErr != nil
						for _, f := range fs {
							if f.Case == "" {
								f.Case = t.ID()
							}
							f.Prop = x.Prop
							f.Repro = x.repro(t)
							x.fail(f)
						}
						if bad || x.NoBFS {
							continue
						}
						if k := sys.Key(t.After); len(fs) == 0 {
							results[i] = append(results[i], found{k, node{t.After, append(append([]string{}, n.hist...), to.ID)}})
						}
					}
					x.Journal.End(w)
				}
			}(w)
		}
		wg.Wait()
		var nl []node
		for _, r := range results {
			for _, f := range r {
				if !seen[f.key] {
					seen[f.key] = true
					nl = append(nl, f.n)
				}
			}
		}
		level = nl
	}
}

// RunCase replays one history of one family, judging only the last step.
func (x *Explorer) RunCase(fam *Family, path []string) {
	sys := x.get()
	defer x.put(sys)
	st := sys.Empty(fam.Prelude)
	for i, id := range path {
		dump, err := sys.Dump(st)
		if err != nil {
			x.fail(Failure{Case: fam.Name + ":" + strings.Join(path[:i], ">"), Kind: "dump-failed", Detail: err.Error()})
			return
		}
		var to *Variant
		for k := range fam.Variants {
			if fam.Variants[k].ID == id {
				to = &fam.Variants[k]
			}
		}
		if to == nil {
			return
		}
		oracle, err := Build(sys, fam, to.SQL)
		if err != nil {
			panic(err)
		}
		t := x.Step(sys, fam, path[:i], st, dump, *to, oracle)
		if i == len(path)-1 {
			for _, f := range x.Judge(t) {
				if f.Case == "" {
					f.Case = t.ID()
				}
				f.Repro = x.repro(t)
				x.fail(f)
			}
		}
		if t.PlanErr != nil || t.Panic != "" || t.ExecErr != nil {
			return
		}
		st = t.After
	}
	if dump, err := sys.Dump(st); err != nil {
		x.fail(Failure{Case: fam.Name + ":" + strings.Join(path, ">"), Kind: "dump-failed", Detail: err.Error()})
		_ = dump
	}
}

func (x *Explorer) repro(t *Trans) map[string]interface{} {
	m := map[string]interface{}{"system": t.Sys.Name(), "family": t.Fam.Name, "prelude": t.Fam.Prelude, "history": t.Hist, "current_dump": t.Dump, "desired_id": t.To.ID, "desired": t.To.SQL, "plan": t.Plan}
	if t.PlanErr != nil {
		m["plan_error"] = t.PlanErr.Error()
	}
	if t.Panic != "" {
		m["panic"] = t.Panic
	}
	if t.ExecErr != nil {
		m["refused"] = t.ExecErr.Error()
		m["refused_statement"] = t.Plan[t.ExecAt]
	}
	return m
}

func (x *Explorer) sample(t *Trans) {
	n := atomic.LoadInt64(&x.Stats.Transitions)
	if n < 3 || n%1009 == 0 {
		x.mu.Lock()
		if len(x.Stats.Samples) < 6 {
			x.Stats.Samples = append(x.Stats.Samples, map[string]interface{}{"case": t.ID(), "plan": t.Plan})
		}
		x.mu.Unlock()
	}
}

func (x *Explorer) fail(f Failure) {
	x.mu.Lock()
	x.Fails = append(x.Fails, f)
	x.mu.Unlock()
}

// Diff shows how two canonical texts differ, line by line.
func Diff(a, b string) string {
	am, bm := map[string]int{}, map[string]int{}
	for _, l := range strings.Split(a, "\n") {
		am[l]++
	}
	for _, l := range strings.Split(b, "\n") {
		bm[l]++
	}
	var out []string
	for _, l := range strings.Split(a, "\n") {
		if bm[l] < am[l] {
			out = append(out, "- "+l)
			am[l]--
		}
	}
	am = map[string]int{}
	for _, l := range strings.Split(a, "\n") {
		am[l]++
	}
	for _, l := range strings.Split(b, "\n") {
		if am[l] < bm[l] {
			out = append(out, "+ "+l)
			bm[l]--
		}
	}
	if len(out) == 0 && a != b {
		out = append(out, "(order differs)")
	}
	return strings.Join(out, "\n")
}

// SortFails orders failures by case.
func (x *Explorer) SortFails() {
	sort.Slice(x.Fails, func(a, b int) bool { return x.Fails[a].FKey() < x.Fails[b].FKey() })
}
