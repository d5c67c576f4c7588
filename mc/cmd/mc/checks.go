package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"mc/chk"
	"mc/cli"
	"mc/conform"
	"mc/eng"
	"mc/fam"
	"mc/ms"
	"mc/my"
	"mc/pg"
	"mc/prs"
	"mc/sys"
)

var checks []*chk.Check

func reg(k *chk.Check) { checks = append(checks, k) }

func find(id string) *chk.Check {
	for _, k := range checks {
		if k.ID == id {
			return k
		}
	}
	return nil
}

func cmdCheck(args []string, child bool) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	rp := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	work := fs.String("work", "", "")
	only := fs.String("only", "", "")
	thorough := fs.Bool("thorough", os.Getenv("VERIF_TIER") == "thorough", "")
	list := fs.Bool("list", false, "print findings in the form of the known-findings file")
	if len(args) == 0 {
		return 2
	}
	k := find(args[0])
	if k == nil {
		fmt.Println("unknown check", args[0])
		return 2
	}
	fs.Parse(args[1:])
	repo = *rp
	if child {
		return chk.Child(k, *rp, *verif, *work, *only, *thorough)
	}
	exe, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	return chk.Main(k, exe, *rp, *verif, *thorough, *list)
}

// exploration of families over systems
type explore struct {
	systems []string
	filter  func(f *eng.Family) bool
	judge   func(t *eng.Trans) []eng.Failure
	judgeOf func(thorough bool) func(t *eng.Trans) []eng.Failure // instead of judge
	keepMid bool
	replay  []string // model servers whose recorded traces are replayed first
}

func (e explore) run(c *chk.Ctx) {
	if e.judgeOf != nil {
		e.judge = e.judgeOf(c.Thorough)
	}
	for _, s := range e.systems {
		x := &eng.Explorer{NewSys: newSys(s), Judge: e.judge, KeepMid: e.keepMid, Deadline: c.Deadline, Journal: c.Journal, Workers: c.Workers}
		x.Init()
		for _, f := range families(s, c.Thorough) {
			if e.filter != nil && !e.filter(f) {
				continue
			}
			x.Run(f)
		}
		x.Done()
		for _, f := range x.Fails {
			c.Fail(f)
		}
		st := x.Stats
		c.Count("states", st.States)
		c.Count("transitions", st.Transitions)
		c.Count("plans_by_real_generator", st.Plans)
		c.Count("statements_executed", st.Statements)
		c.Count("empty_plans", st.Empty)
		c.Count("families", st.Families)
		for _, sm := range st.Samples {
			c.Sample(sm)
		}
		if st.Capped {
			c.Expired()
			c.Cov["capped"] = true
		}
	}
	for _, s := range e.replay {
		ok, bad := replayTraces(s)
		c.Count("traces_validated_against_impl", int64(ok))
		if len(bad) > 0 {
			c.Cov["traces_not_matching_"+s] = bad
		}
	}
}

func (e explore) one(c *chk.Ctx, id string) {
	i := strings.Index(id, ":")
	if i < 0 {
		return
	}
	if e.judgeOf != nil {
		e.judge = e.judgeOf(c.Thorough)
	}
	for _, s := range e.systems {
		for _, f := range families(s, c.Thorough) {
			if f.Name != id[:i] || e.filter != nil && !e.filter(f) {
				continue
			}
			x := &eng.Explorer{NewSys: newSys(s), Judge: e.judge, KeepMid: e.keepMid, Workers: 1}
			x.Init()
			var path []string
			if id[i+1:] != "" {
				path = strings.Split(id[i+1:], ">")
			}
			x.RunCase(f, path)
			x.Done()
			for _, fl := range x.Fails {
				c.Fail(fl)
			}
		}
	}
}

// replayTraces runs the repository's recorded server test suite against the model server.
func replayTraces(s string) (int, []string) {
	var r *conform.Result
	switch s {
	case "psql":
		os.Setenv("PGSSLMODE", "disable")
		sv := pg.NewServer()
		if err := sv.StartAt("tcp", "127.0.0.1:5432"); err != nil {
			return 0, []string{err.Error()}
		}
		r, _ = conform.Replay(repo, "psqldef", "psql", sv, "")
		sv.Close()
	case "mysql":
		sv := my.NewServer()
		if err := sv.StartAt("tcp", "127.0.0.1:3306"); err != nil {
			return 0, []string{err.Error()}
		}
		r, _ = conform.Replay(repo, "mysqldef", "mysql", sv, "")
		sv.Close()
	case "mssql":
		sv := ms.NewServer()
		if err := sv.StartAt("tcp", "127.0.0.1:1433"); err != nil {
			return 0, []string{err.Error()}
		}
		r, _ = conform.Replay(repo, "mssqldef", "sqlcmd", sv, "")
		sv.Close()
	}
	if r == nil {
		return 0, []string{"replay did not run"}
	}
	var bad []string
	for k := range r.Failed {
		bad = append(bad, k)
	}
	return len(r.Passed), bad
}

var _ = atomic.AddInt64

const trustModels = "the model servers (mc/my, mc/pg, mc/ms) agree with the real servers on the statements that occur; bound by replaying the repository's recorded test suites"

// judges asks several judges until one objects.
func judges(js ...func(t *eng.Trans) []eng.Failure) func(t *eng.Trans) []eng.Failure {
	return func(t *eng.Trans) []eng.Failure {
		for _, j := range js {
			if fs := j(t); len(fs) > 0 {
				return fs
			}
		}
		return nil
	}
}

func init() {
	my := explore{systems: []string{"mysql"}, judge: eng.JudgeConverge, replay: []string{"mysql"}}
	reg(&chk.Check{ID: "C01", Level: "model_checking", Run: my.run, One: my.one, Assume: []string{trustModels}})
	po := explore{systems: []string{"postgres"}, judge: eng.JudgeConverge, replay: []string{"psql"}}
	reg(&chk.Check{ID: "C02", Level: "model_checking", Run: po.run, One: po.one, Assume: []string{trustModels}})
	mq := explore{systems: []string{"mssql"}, judge: eng.JudgeConverge, replay: []string{"mssql"}}
	reg(&chk.Check{ID: "C03", Level: "model_checking", Run: mq.run, One: mq.one, Assume: []string{trustModels}})
	sq := explore{systems: []string{"sqlite"}, judge: judges(eng.JudgeConverge, sys.JudgeRows)}
	reg(&chk.Check{ID: "C04", Level: "model_checking", Run: sq.run, One: sq.one, Assume: []string{"the SQLite linked into the tool is the reference"}})
	idem := explore{systems: []string{"mysql", "postgres", "mssql", "sqlite"}, judgeOf: func(bool) func(t *eng.Trans) []eng.Failure { return eng.JudgeIdem() }}
	reg(&chk.Check{ID: "C05", Level: "model_checking", Run: idem.run, One: idem.one, Assume: []string{trustModels}})
	export := explore{systems: []string{"mysql", "postgres", "mssql", "sqlite"}, judgeOf: func(bool) func(t *eng.Trans) []eng.Failure { return eng.JudgeExport() }}
	reg(&chk.Check{ID: "C06", Level: "model_checking", Run: export.run, One: export.one, Assume: []string{trustModels}})
	local := explore{systems: []string{"mysql", "postgres", "mssql", "sqlite"}, keepMid: true, judgeOf: func(thorough bool) func(t *eng.Trans) []eng.Failure {
		return judges(eng.JudgeLocal, eng.JudgeAlone(fam.By, thorough))
	}}
	reg(&chk.Check{ID: "C10", Level: "model_checking", Run: local.run, One: local.one, Assume: []string{trustModels}})
	reg(&chk.Check{ID: "C07", Level: "model_checking", Run: cli.RunDry, One: cli.OneDry, Hang: 120 * time.Second, Assume: []string{trustModels}})
	reg(&chk.Check{ID: "C08", Level: "model_checking", Run: cli.RunSkip, One: cli.OneSkip, Hang: 120 * time.Second, Assume: []string{trustModels}})
	reg(&chk.Check{ID: "C09", Level: "fault_enumeration", Rule: "every request of every run of a family of migrations fails: once, together with everything after it, or by a cut connection; every SQLite plan over four tables with the refused statements anywhere; every kind of lock; non-trivial means a fault was injected", Run: cli.RunFault, One: cli.OneFault, Hang: 200 * time.Second, Assume: []string{trustModels}})
	reg(&chk.Check{ID: "C11", Level: "exploration", Hang: 120 * time.Second, Assume: []string{trustModels}, Rule: "every small schema file with every one-token change (deletion, duplication, replacement, insertion), every truncation, every semantic defect before, between and after valid statements, in each dialect; each is planned, and one of each kind goes through the real tool on an existing database; non-trivial means a bad file", Run: cli.RunBad, One: cli.OneBad})
	reg(&chk.Check{ID: "C17", Level: "exploration", Hang: 120 * time.Second, Assume: []string{trustModels}, Rule: "every subset of the documented options of the four tools, every spelling of each, every order of small sets, every wrong or unreadable one, on databases in different states; non-trivial means an invocation", Run: cli.RunOpts, One: cli.OneOpts})
	reg(&chk.Check{ID: "C16", Level: "exploration", Hang: 120 * time.Second, Assume: []string{trustModels}, Rule: "every byte and every pair of separators as user name, password (by option, environment and prompt), database name, socket path and SQLite file name, every combination of ten nasty strings in all three places, every subset of the settings left out, hosts and ports with decoys listening beside them; non-trivial means a run whose login was observed", Run: cli.RunConn, One: cli.OneConn})
	reg(&chk.Check{ID: "C13", Level: "exploration", Rule: "every sentence derived from the grammar with each nonterminal of every production expanded in every way (pairs), every one-token change and truncation of the short ones, every byte string over the scanner's alphabet up to a length; non-trivial means accepted as a statement", Run: prs.RunCrash, One: prs.OneCrash, Hang: 20 * time.Second})
	reg(&chk.Check{ID: "C14", Level: "exploration", Rule: "every query or data-changing statement among the grammar's derived sentences (pairs of productions), every identifier and literal form in every position, every operator tree up to three operators; printed, read again and compared; non-trivial means accepted by the parser", Run: prs.RunLossless, One: prs.OneLossless, Hang: 60 * time.Second})
	reg(&chk.Check{ID: "C18", Level: "exploration", Rule: "every string of up to two bytes as every column type, every string over the bytes that need escaping up to a length, every number-like text up to a length, all hexadecimal values up to two bytes, and every such value in every position of a query; non-trivial means the type takes the value", Run: prs.RunEncode, One: prs.OneEncode, Hang: 120 * time.Second})
	reg(&chk.Check{ID: "C19", Level: "exploration", Rule: "every query among the grammar's derived sentences, every combination of four literals or variables from a pool in every position of a set of queries, every combination of existing variable names; normalised, substituted back, redacted; non-trivial means a query with literals", Run: prs.RunNormalize, One: prs.OneNormalize, Hang: 120 * time.Second})
	reg(&chk.Check{ID: "C20", Level: "exploration", Rule: "every sequence of statement fragments up to a length, split and read as a stream in every chunking; non-trivial means the text has a quote, a comment, a semicolon or an error", Run: prs.RunStream, One: prs.OneStream, Hang: 300 * time.Second})
}
