// Package chk runs the checks: a supervisor process, a worker process per check, known findings, evidence.
package chk

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mc/eng"
)

// Ctx is what a running check sees.
type Ctx struct {
	Repo     string
	Verif    string
	Work     string // scratch directory of this run
	Thorough bool
	Deadline time.Time
	Journal  *eng.Journal
	Workers  int

	mu      sync.Mutex
	fails   []eng.Failure
	nfail   int
	Cov     map[string]interface{}
	Samples []interface{}
	capped  int32
	n       map[string]*int64
}

// Fail reports a violation.
func (c *Ctx) Fail(f eng.Failure) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.nfail++
	if len(c.fails) < 20000 {
		c.fails = append(c.fails, f)
	}
}

// Count adds to a measured counter.
func (c *Ctx) Count(name string, d int64) {
	c.mu.Lock()
	p := c.n[name]
	if p == nil {
		p = new(int64)
		c.n[name] = p
	}
	c.mu.Unlock()
	atomic.AddInt64(p, d)
}

// Counter returns a counter to add to atomically.
func (c *Ctx) Counter(name string) *int64 {
	c.mu.Lock()
	defer c.mu.Unlock()
	p := c.n[name]
	if p == nil {
		p = new(int64)
		c.n[name] = p
	}
	return p
}

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Samples) < 8 {
		c.Samples = append(c.Samples, v)
	}
}

// Expired says that the time is used up; what was not explored is reported.
func (c *Ctx) Expired() bool {
	if time.Now().After(c.Deadline) {
		atomic.StoreInt32(&c.capped, 1)
		return true
	}
	return false
}

// Parallel runs f(worker, i) for i in [0,n), with the deadline.
func (c *Ctx) Parallel(n int, f func(w, i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < c.Workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Expired() {
					return
				}
				f(w, i)
				c.Journal.End(w)
			}
		}(w)
	}
	wg.Wait()
}

// Check is one registered check.
type Check struct {
	ID       string
	Level    string
	Rule     string // exploration: how cases are made
	Assume   []string
	Hang     time.Duration
	QuickS   int // seconds of exploration
	ThoroS   int
	Run      func(c *Ctx)
	One      func(c *Ctx, id string) // runs a single case
	Evidence func(c *Ctx, cov map[string]interface{})
}

type result struct {
	Fails   []eng.Failure
	NFail   int
	Cov     map[string]interface{}
	N       map[string]int64
	Samples []interface{}
	Capped  bool
}

func newCtx(k *Check, repo, verif, work string, thorough bool) *Ctx {
	s := k.QuickS
	if s == 0 {
		s = 400
	}
	if thorough {
		s = k.ThoroS
		if s == 0 {
			s = 3000
		}
	}
	return &Ctx{Repo: repo, Verif: verif, Work: work, Thorough: thorough, Deadline: time.Now().Add(time.Duration(s) * time.Second), Workers: 8, Cov: map[string]interface{}{}, n: map[string]*int64{}}
}

// Child is the worker process: it explores and writes its result.
func Child(k *Check, repo, verif, work, only string, thorough bool) int {
	debug.SetGCPercent(800) // the heap is small and the garbage is much
	debug.SetMemoryLimit(16 << 30)
	c := newCtx(k, repo, verif, work, thorough)
	hang := k.Hang
	if hang == 0 {
		hang = 60 * time.Second
	}
	c.Journal = eng.NewJournal(filepath.Join(work, "journal"), c.Workers, hang)
	if only != "" {
		c.Journal.Begin(0, only)
		k.One(c, only)
	} else {
		k.Run(c)
	}
	r := result{Fails: c.fails, NFail: c.nfail, Cov: c.Cov, N: map[string]int64{}, Samples: c.Samples, Capped: c.capped != 0}
	for n, p := range c.n {
		r.N[n] = *p
	}
	b, err := json.Marshal(r)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := ioutil.WriteFile(filepath.Join(work, "result.json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

type known struct {
	prop, key, text string
}

func loadKnown(path string) (out []known) {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		p := strings.SplitN(l, " | ", 3)
		if len(p) != 3 {
			continue
		}
		out = append(out, known{p[0], p[1], p[2]})
	}
	return
}

func runChild(exe string, k *Check, repo, verif, work, only string, thorough bool, limit time.Duration) (*result, string, error) {
	os.Remove(filepath.Join(work, "result.json"))
	args := []string{"child", k.ID, "-repo", repo, "-verif", verif, "-work", work}
	if thorough {
		args = append(args, "-thorough")
	}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(exe, args...)
	ef, err := os.Create(filepath.Join(work, "stderr"))
	if err != nil {
		return nil, "", err
	}
	defer ef.Close()
	cmd.Stderr = ef
	cmd.Stdout = ef
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		err = fmt.Errorf("ran over %v", limit)
	}
	eb, _ := ioutil.ReadFile(filepath.Join(work, "stderr"))
	tail := string(eb)
	if len(tail) > 4000 {
		tail = tail[:2000] + "\n...\n" + tail[len(tail)-2000:]
	}
	b, rerr := ioutil.ReadFile(filepath.Join(work, "result.json"))
	if err == nil && rerr == nil {
		var r result
		if jerr := json.Unmarshal(b, &r); jerr != nil {
			return nil, tail, jerr
		}
		return &r, tail, nil
	}
	if err == nil {
		err = rerr
	}
	return nil, tail, err
}

// Main supervises one check and returns the exit status.
func Main(k *Check, exe, repo, verif string, thorough bool, listFindings bool) int {
	start := time.Now()
	work, err := ioutil.TempDir("", "mc-"+k.ID+"-")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)
	limit := 700 * time.Second
	if thorough {
		limit = 3 * time.Hour
	}
	if k.QuickS > 500 && !thorough {
		limit = time.Duration(k.QuickS+150) * time.Second
	}
	var fails []eng.Failure
	r, tail, err := runChild(exe, k, repo, verif, work, "", thorough, limit)
	if r == nil {
		// the process died or hung: find the case that does it
		cases := eng.ReadJournal(filepath.Join(work, "journal"))
		fmt.Printf("exploration ended abnormally (%v); %d cases in flight\n%s\n", err, len(cases), tail)
		r = &result{Cov: map[string]interface{}{"aborted": err.Error()}, N: map[string]int64{}, Capped: true}
		if len(cases) == 0 {
			fmt.Println("no case in flight; this is an error of the check")
			return 2
		}
		for _, id := range cases {
			rr, t2, e2 := runChild(exe, k, repo, verif, work, id, thorough, 100*time.Second)
			if rr == nil {
				fails = append(fails, eng.Failure{Prop: k.ID, Case: id, Kind: "process-died", Detail: fmt.Sprintf("%v\n%s", e2, firstLines(t2, 12))})
			} else {
				fails = append(fails, rr.Fails...)
			}
		}
		if len(fails) == 0 {
			fmt.Println("not reproduced by any case alone; this is an error of the check")
			return 2
		}
	} else {
		fails = r.Fails
	}
	kn := loadKnown(filepath.Join(verif, "known_findings.txt"))
	sort.SliceStable(fails, func(a, b int) bool { return fails[a].FKey() < fails[b].FKey() })
	var viol []eng.Failure
	seen := map[string]bool{}
	nk := 0
	for _, f := range fails {
		if seen[f.FKey()] {
			continue
		}
		seen[f.FKey()] = true
		hit := false
		for _, q := range kn {
			if q.prop == k.ID && q.key == f.FKey() {
				hit = true
				nk++
				fmt.Printf("KNOWN-FINDING: property=%s %s -- %s\n", k.ID, q.key, q.text)
				break
			}
		}
		if hit {
			continue
		}
		if listFindings {
			fmt.Printf("finding: property=%s | %s | %s\n", k.ID, f.FKey(), strings.Replace(firstLines(f.Detail, 3), "\n", " / ", -1))
		}
		viol = append(viol, f)
	}
	// confirm: a violation must show again on its own
	var confirmed []eng.Failure
	tried := 0
	for _, f := range viol {
		if f.Kind == "process-died" || k.One == nil {
			confirmed = append(confirmed, f)
			continue
		}
		if tried >= 12 {
			break
		}
		tried++
		ok := false
		for a := 0; a < 6 && !ok; a++ {
			rr, _, _ := runChild(exe, k, repo, verif, work, f.Case, thorough, 200*time.Second)
			if rr == nil || len(rr.Fails) > 0 {
				ok = true
			}
		}
		if ok {
			confirmed = append(confirmed, f)
		} else {
			fmt.Printf("not reproduced: %s\n", f.FKey())
		}
	}
	status := 0
	if len(viol) > 0 && len(confirmed) == 0 {
		fmt.Println("failures were seen that do not reproduce; this is an error of the check")
		status = 2
	}
	rdir := filepath.Join(verif, "replays")
	for i, f := range confirmed {
		status = 1
		if i >= 10 {
			break
		}
		os.MkdirAll(rdir, 0755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", k.ID, i))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": k.ID, "case": f.Case, "kind": f.Kind, "detail": f.Detail, "repro": f.Repro, "replay_cmd": "./run.sh " + k.ID + " -only <case>"}, "", " ")
		ioutil.WriteFile(path, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", k.ID, path)
		fmt.Printf("  case %s: %s\n  %s\n", f.Case, f.Kind, strings.Replace(firstLines(f.Detail, 12), "\n", "\n  ", -1))
	}
	if len(viol) > len(confirmed) || len(confirmed) > 10 {
		fmt.Printf("(%d distinct violations in total)\n", len(viol))
	}
	writeEvidence(k, verif, thorough, r, len(viol), nk, time.Since(start).Seconds())
	fmt.Printf("%s: %s in %.1fs, %d known findings, %d violations\n", k.ID, summary(r), time.Since(start).Seconds(), nk, len(viol))
	return status
}

func summary(r *result) string {
	var ks []string
	for k := range r.N {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%d", k, r.N[k]))
	}
	return strings.Join(p, " ")
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = append(l[:n], "...")
	}
	return strings.Join(l, "\n")
}

func writeEvidence(k *Check, verif string, thorough bool, r *result, viol, nk int, wall float64) {
	cov := map[string]interface{}{}
	for a, b := range r.Cov {
		cov[a] = b
	}
	for a, b := range r.N {
		cov[a] = b
	}
	cov["samples"] = r.Samples
	if r.Samples == nil {
		cov["samples"] = []interface{}{}
	}
	cov["exhaustive"] = !r.Capped
	cov["known_findings"] = nk
	if k.Rule != "" {
		cov["rule"] = k.Rule
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	e := map[string]interface{}{"property": k.ID, "tier": tier, "seed": seed, "level": k.Level, "coverage": cov, "wall_s": wall, "violations": viol, "assumptions": k.Assume}
	if k.Assume == nil {
		e["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(verif, "evidence", k.ID+".json"), b, 0644)
}
