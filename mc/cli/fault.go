package cli

import (
	"database/sql"
	"errors"
	"fmt"
	"io/ioutil"
	"strings"
	"sync/atomic"
	"time"

	"mc/chk"
	"mc/eng"
	"mc/srv"
	"mc/sys"
)

var quickFaultMySQL = map[string]bool{"my.fkdrop": true, "my.trigger": true, "my.indexlen": true, "my.viewview": true, "my.fkmove": true, "my.fktarget": true, "my.skipdrop": true}

var quickFaultMS = map[string]bool{"ms.skipdrop": true, "ms.fk.composite": true, "ms.check3": true}

var quickFaultPG = map[string]bool{"pg.fkdrop": true, "pg.skipdrop": true, "pg.viewdrop": true, "pg.schemafk": true}

// RunFault is the check of C09.
func RunFault(c *chk.Ctx) {
	w := newWorld(c, "mysqldef", "psqldef", "mssqldef", "sqlite3def")
	defer w.close()
	w.all(func(t string, f *eng.Family) bool {
		if t == "sqlite" {
			return false
		}
		if c.Thorough {
			return len(f.Variants) < 30
		}
		return t == "mysql" && quickFaultMySQL[f.Name] || t == "postgres" && quickFaultPG[f.Name] || t == "mssql" && quickFaultMS[f.Name]
	}, w.fault)
	ops := sqOps()
	c.Parallel(len(ops), func(i, k int) {
		c.Journal.Begin(i, "sqlite:ops:"+ops[k])
		w.sqReport(ops[k], w.sqFault(i, ops[k]))
	})
	locks := sqLocks()
	c.Parallel(len(locks), func(i, k int) {
		c.Journal.Begin(i, "sqlite:lock:"+locks[k])
		for _, f := range w.sqLock(i, locks[k]) {
			f.Case = "sqlite:lock:" + locks[k]
			c.Fail(f)
		}
	})
	c.Cov["evaluations"] = *c.Counter("tool_runs")
	c.Cov["distinct_nontrivial"] = *c.Counter("faults_injected")
	c.Cov["bounds"] = "every request of every run over the families, each failing once, failing together with everything after it, and cut off, and every result failing before and after its first row; for SQLite every plan over four tables with any statements refused, and locks of every kind"
}

// OneFault runs one recorded case.
func OneFault(c *chk.Ctx, id string) {
	w := newWorld(c, "mysqldef", "psqldef", "mssqldef", "sqlite3def")
	defer w.close()
	switch {
	case strings.HasPrefix(id, "sqlite:ops:"):
		w.sqReport(id[11:], w.sqFault(0, id[11:]))
	case strings.HasPrefix(id, "sqlite:lock:"):
		for _, f := range w.sqLock(0, id[12:]) {
			f.Case = id
			c.Fail(f)
		}
	default:
		w.one(id, w.fault)
	}
}

func show(ev []srv.Event) string {
	var l []string
	for n, e := range ev {
		s := fmt.Sprintf("%d %s %s", n, e.Kind, e.SQL)
		if e.Err != "" {
			s += " -- " + e.Err
		}
		l = append(l, s)
	}
	return strings.Join(l, "\n")
}

// orderly checks a log by itself: reads, then one transaction with the statements in order; nothing after a failure but a rollback.
func orderly(ev []srv.Event, plan []string, exit int) string {
	at, state := 0, "reading"
	failed := false
	conn := 0
	var lost *srv.Event // the request a connection was lost with, while nothing was changed yet: the driver may repeat it on another one
	for n, e := range ev {
		bad := e.Err != ""
		if lost != nil && e.Kind != "connect" && e.Kind == lost.Kind && e.SQL == lost.SQL && !bad {
			failed, lost = false, nil
		}
		if failed && e.Kind != "rollback" {
			// what is read after a failure changes nothing, as long as nothing else follows (a result may also fail while others are read)
			if !(state == "reading" && (e.Kind == "connect" || e.Kind == "query") || lost != nil && bad) {
				return fmt.Sprintf("request %d follows a failure", n)
			}
		}
		switch {
		case e.Kind == "connect":
			if state != "reading" {
				return fmt.Sprintf("request %d connects again", n)
			}
		case e.Kind == "begin":
			if state != "reading" {
				return fmt.Sprintf("request %d begins again", n)
			}
			if !bad {
				state, conn = "tx", e.Conn
			}
		case e.Write:
			if state != "tx" || e.Conn != conn {
				return fmt.Sprintf("request %d changes something outside the transaction", n)
			}
			if at >= len(plan) || e.SQL != plan[at] {
				return fmt.Sprintf("request %d is not statement %d of the plan", n, at)
			}
			at++
		case e.Kind == "commit":
			if state != "tx" || at != len(plan) {
				return fmt.Sprintf("request %d commits early", n)
			}
			if !bad {
				state = "done"
			} else {
				state = "failed"
			}
		case e.Kind == "rollback":
			if state != "tx" && state != "failed" {
				return fmt.Sprintf("request %d rolls back without need", n)
			}
			state = "rolled back"
		default:
			if state != "reading" {
				return fmt.Sprintf("request %d reads while applying", n)
			}
		}
		if bad && e.Kind != "rollback" {
			failed = true
			if e.Err == hangup && state == "reading" && e.Kind != "connect" {
				x := e
				lost = &x
			}
		}
	}
	if exit == 0 && state != "done" {
		return "reports success without a commit"
	}
	if exit != 0 && state == "done" {
		return "reports failure after a commit"
	}
	if exit != 0 && state == "tx" && len(ev) > 0 && !cut(ev) {
		return "leaves the transaction open"
	}
	return ""
}

func cut(ev []srv.Event) bool {
	for _, e := range ev {
		if e.Err == hangup {
			return true
		}
	}
	return false
}

// driverPanic is how go-mssqldb v0.10.0 reports a connection that is lost in the middle of a transaction. Everything else still has to hold.
const driverPanic = "driver.ErrBadConn in checkBadConn"

const hangup = "the connection is cut"

func (w *world) fault(i int, s scen) []eng.Failure {
	t := w.target(i, s.target)
	dump, err := t.Sys().Dump(s.st)
	if err != nil {
		return nil
	}
	plan, err, pan := eng.Plan(t.Sys().Mode(), s.to.SQL, dump)
	if err != nil || pan != "" || len(plan) == 0 {
		return nil
	}
	t.Set(s.st)
	r := w.run(i, t, nil, s.to.SQL, true)
	ev, ok := t.Sent()
	if !ok {
		return nil
	}
	if m := orderly(ev, plan, r.Exit); m != "" {
		return fail("order", "%s\n%v\n%s", m, r, show(ev))
	}
	if f := w.failure(r, ev, plan); f != nil {
		return f
	}
	for n := 0; n < len(ev); n++ {
		for mode := 0; mode < 5; mode++ {
			if mode > 2 && ev[n].Kind != "query" {
				continue
			}
			t.Set(s.st)
			t.Fault(func(k int, e *srv.Event) error {
				if k < n || mode != 1 && k > n {
					return nil
				}
				if mode == 2 {
					return srv.ErrHangup
				}
				if mode > 2 {
					return srv.RowFault(mode - 3)
				}
				return errors.New("injected failure")
			})
			r := w.run(i, t, nil, s.to.SQL, true)
			atomic.AddInt64(w.c.Counter("faults_injected"), 1)
			ev, _ := t.Sent()
			what := fmt.Sprintf("request %d fails (%s)", n, []string{"once", "and everything after it", "by a cut connection", "instead of its first row", "after its first row"}[mode])
			if r.Crashed() && !(mode == 2 && t.Name() == "mssql" && strings.Contains(r.Err, driverPanic)) || r.Timeout {
				return fail("crash", "%s\n%v\n%s", what, r, show(ev))
			}
			if m := orderly(ev, plan, r.Exit); m != "" {
				return fail("order", "%s: %s\n%v\n%s", what, m, r, show(ev))
			}
			if mode != 2 && r.Exit == 0 {
				return fail("success-reported", "%s\n%v\n%s", what, r, show(ev))
			}
			if f := w.failure(r, ev, plan); f != nil {
				f[0].Detail = what + "\n" + f[0].Detail
				return f
			}
			if (len(Executed(ev)) == 0 || r.Exit != 0 && t.Name() != "mysql") && !soon(func() bool { return same(t, s.st) }) {
				return fail("changed", "%s\n%v\n%s", what, r, show(ev))
			}
		}
	}
	if i == 0 {
		w.c.Sample(map[string]interface{}{"case": s.id(), "requests": strings.Split(show(ev), "\n")})
	}
	return nil
}

// soon waits for something that happens after the tool has ended, as a server that rolls back when a connection is gone.
func soon(f func() bool) bool {
	for n := 0; n < 300; n++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// failure checks what a run shows against what it sent.
func (w *world) failure(r Result, ev []srv.Event, plan []string) []eng.Failure {
	ex := Executed(ev)
	begun := false
	for _, e := range ev {
		if e.Kind == "begin" && e.Err == "" {
			begun = true
		}
	}
	if r.Exit != 0 && strings.TrimSpace(r.Err) == "" {
		return fail("no-message", "%v\n%s", r, show(ev))
	}
	if r.Exit == 0 && (len(ex) != len(plan) || r.Err != "") {
		return fail("incomplete", "%v\n%s", r, show(ev))
	}
	want := ""
	if begun {
		want = "-- Apply --\n"
		for _, q := range ex {
			want += q + ";\n"
		}
	}
	// a statement may have been cut off before it reached the server
	if r.Out != want && !(cut(ev) && strings.HasPrefix(r.Out, want) && len(ex) < len(plan) && r.Out == want+plan[len(ex)]+";\n") && !(want == "" && r.Out == "-- Apply --\n" && cut(ev)) {
		return fail("printed-differs", "printed %s\nexpected %s\n%s", r.Out, want, show(ev))
	}
	return nil
}

// sqOps are the plans over four tables: a is kept, gets a column, gets a column SQLite refuses, is dropped, or is new.
func sqOps() []string {
	var out []string
	var rec func(s string)
	rec = func(s string) {
		if len(s) == 4 {
			out = append(out, s)
			return
		}
		for _, o := range "kabdnv" {
			rec(s + string(o))
		}
	}
	rec("")
	return out
}

func sqFiles(ops string) (cur, want string) {
	for n, o := range ops {
		t := string('p' + rune(n))
		base := "CREATE TABLE " + t + " (id integer PRIMARY KEY, x text"
		switch o {
		case 'k':
			cur += base + ");\n"
			want += base + ");\n"
		case 'a':
			cur += base + ");\n"
			want += base + ", n int DEFAULT 1);\n"
		case 'b':
			cur += base + ");\n"
			want += base + ", n int NOT NULL);\n"
		case 'd':
			cur += base + ");\n"
		case 'n':
			want += base + ");\n"
		case 'v':
			cur += base + ");\n"
			want += base + ");\nCREATE VIEW v" + t + " AS SELECT id FROM " + t + ";\n"
		}
	}
	return
}

func (w *world) sqReport(ops string, fs []eng.Failure) {
	for _, f := range fs {
		f.Case = "sqlite:ops:" + ops
		cur, want := sqFiles(ops)
		f.Repro = map[string]interface{}{"current": cur, "file": want}
		w.c.Fail(f)
	}
}

func (w *world) sqFault(i int, ops string) []eng.Failure {
	t := w.target(i, "sqlite")
	cur, want := sqFiles(ops)
	st, err := eng.Build(t.Sys(), &eng.Family{}, cur)
	if err != nil {
		panic(err)
	}
	dump, err := t.Sys().Dump(st)
	if err != nil {
		return fail("dump-failed", "%v", err)
	}
	plan, err, pan := eng.Plan(t.Sys().Mode(), want, dump)
	if err != nil || pan != "" {
		return fail("plan-failed", "%v %s", err, pan)
	}
	refused := -1
	run := t.Sys().Clone(st)
	for n, q := range plan {
		if err := t.Sys().Exec(run, q); err != nil {
			refused = n
			break
		}
	}
	t.Set(st)
	r := w.run(i, t, nil, want, true)
	if r.Crashed() || r.Timeout {
		return fail("crash", "%v", r)
	}
	switch {
	case refused < 0:
		if r.Exit != 0 || r.Out != Lines("-- Apply --", plan) || r.Err != "" {
			return fail("incomplete", "%q\n%v", plan, r)
		}
		if a, b := t.Sys().Canon(run), t.Sys().Canon(t.Get()); a != b {
			return fail("incomplete", "%s", eng.Diff(a, b))
		}
	default:
		atomic.AddInt64(w.c.Counter("faults_injected"), 1)
		if r.Exit == 0 {
			return fail("success-reported", "%v", r)
		}
		if strings.TrimSpace(r.Err) == "" {
			return fail("no-message", "%v", r)
		}
		if r.Out != Lines("-- Apply --", plan[:refused+1]) {
			return fail("printed-differs", "%q is refused\n%v", plan[refused], r)
		}
		if a, b := t.Sys().Canon(st), t.Sys().Canon(t.Get()); a != b {
			return fail("not-rolled-back", "%q is refused\n%s", plan[refused], eng.Diff(a, b))
		}
	}
	return nil
}

func sqLocks() []string {
	var out []string
	for _, l := range []string{"shared", "reserved", "exclusive"} {
		for _, o := range []string{"a", "n", "d", "v", "andv", "k"} {
			for _, opt := range []string{"", "--dry-run", "--export"} {
				out = append(out, l+"/"+o+"/"+opt)
			}
		}
	}
	return append(out, "corrupt/a/", "corrupt/a/--export", "corrupt/a/--dry-run", "directory/a/", "directory/a/--export")
}

// sqLock runs the tool while another connection holds a lock.
func (w *world) sqLock(i int, id string) []eng.Failure {
	p := strings.Split(id, "/")
	t := w.target(i, "sqlite")
	cur, want := sqFiles(p[1])
	if cur == "" {
		cur = "CREATE TABLE z (x int);\n"
		want += cur
	}
	st, err := eng.Build(t.Sys(), &eng.Family{}, cur)
	if err != nil {
		panic(err)
	}
	t.Set(st)
	var opts []string
	if p[2] != "" {
		opts = []string{p[2]}
	}
	path := t.Conn()[0]
	if p[0] == "corrupt" || p[0] == "directory" {
		junk := []byte(strings.Repeat("not a database ", 100))
		ioutil.WriteFile(path, junk, 0644)
		var r Result
		if p[0] == "directory" {
			c := Cmd{Bin: w.bin + "/sqlite3def", Dir: w.dir[i], Args: append(opts, w.dir[i]), Stdin: want}
			r = c.Run()
		} else {
			r = w.run(i, t, opts, want, true)
		}
		if r.Crashed() || r.Timeout || r.Exit == 0 || strings.TrimSpace(r.Err) == "" {
			return fail("success-reported", "%v", r)
		}
		if b, _ := ioutil.ReadFile(path); string(b) != string(junk) {
			return fail("changed", "%v", r)
		}
		return nil
	}
	atomic.AddInt64(w.c.Counter("faults_injected"), 1)
	db, err := sql.Open("sqlite3", path)
	if err != nil {
		panic(err)
	}
	defer db.Close()
	db.SetMaxOpenConns(1)
	q := map[string]string{"shared": "BEGIN", "reserved": "BEGIN IMMEDIATE", "exclusive": "BEGIN EXCLUSIVE"}[p[0]]
	if _, err := db.Exec(q); err != nil {
		panic(err)
	}
	if p[0] == "shared" {
		var n int
		if err := db.QueryRow("SELECT count(*) FROM sqlite_master").Scan(&n); err != nil {
			panic(err)
		}
	}
	r := w.run(i, t, opts, want, true)
	if _, err := db.Exec("ROLLBACK"); err != nil {
		panic(err)
	}
	if r.Crashed() || r.Timeout {
		return fail("crash", "%v", r)
	}
	// what cannot be read or written because of the lock
	blocked := p[0] == "exclusive" || p[2] == "" && p[1] != "k"
	if blocked != (r.Exit != 0) {
		return fail("status", "with a lock of the kind %s: %v", p[0], r)
	}
	if r.Exit != 0 && strings.TrimSpace(r.Err) == "" {
		return fail("no-message", "%v", r)
	}
	if a, b := t.Sys().Canon(st), t.Sys().Canon(t.Get()); a != b {
		return fail("changed", "%v\n%s", r, eng.Diff(a, b))
	}
	return nil
}

var _ = sys.NewSQLite
