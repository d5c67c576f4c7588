package cli

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"

	"mc/chk"
	"mc/eng"
	"mc/sqlx"
	"mc/srv"
)

// scen is one pair of a database state and a schema file.
type scen struct {
	target string
	fam    *eng.Family
	from   string // variant, or "" for the empty database
	to     eng.Variant
	st     eng.State
}

func (s scen) id() string { return s.target + ":" + s.fam.Name + ":" + s.from + ">" + s.to.ID }

// world holds the tools, and per worker a database of each kind.
type world struct {
	marker []byte
	c      *chk.Ctx
	bin    string
	dir    []string
	t      []map[string]Target
}

func newWorld(c *chk.Ctx, tools ...string) *world {
	w := &world{c: c, bin: filepath.Join(c.Work, "bin")}
	if err := os.MkdirAll(w.bin, 0755); err != nil {
		panic(err)
	}
	if len(tools) == 0 {
		tools = Tools
	}
	if err := Build(c.Repo, w.bin, tools...); err != nil {
		panic(err)
	}
	w.dir = make([]string, c.Workers)
	w.t = make([]map[string]Target, c.Workers)
	for i := range w.dir {
		w.dir[i] = filepath.Join(c.Work, fmt.Sprintf("w%d", i))
		if err := os.MkdirAll(w.dir[i], 0755); err != nil {
			panic(err)
		}
		w.t[i] = map[string]Target{}
	}
	return w
}

func (w *world) target(i int, name string) Target {
	if w.t[i][name] == nil {
		w.t[i][name] = NewTarget(name, w.dir[i])
	}
	return w.t[i][name]
}

func (w *world) close() {
	for _, m := range w.t {
		for _, t := range m {
			if s := t.Inconclusive(); s != "" {
				w.c.Cov["inconclusive"] = s
			}
			t.Close()
		}
	}
}

// file writes a schema file and returns its path.
func (w *world) file(i int, sql string) string {
	p := filepath.Join(w.dir[i], "schema.sql")
	if err := ioutil.WriteFile(p, []byte(sql), 0644); err != nil {
		panic(err)
	}
	return p
}

// run starts the tool; the file is given by path or on standard input.
func (w *world) run(i int, t Target, opts []string, sql string, stdin bool) Result {
	c := Cmd{Bin: filepath.Join(w.bin, t.Bin()), Dir: w.dir[i]}
	c.Args = append(c.Args, opts...)
	if stdin {
		c.Stdin = sql
	} else {
		c.Args = append(c.Args, "--file="+w.file(i, sql))
	}
	c.Args = append(c.Args, t.Conn()...)
	r := c.Run()
	atomic.AddInt64(w.c.Counter("tool_runs"), 1)
	return r
}

// scenarios are all pairs over the families that pass the filter.
func (w *world) scenarios(pick func(t string, f *eng.Family) bool) []scen {
	var out []scen
	for _, name := range Targets {
		t := w.target(0, name)
		for _, f := range t.Families(w.c.Thorough) {
			if pick != nil && !pick(name, f) {
				continue
			}
			out = append(out, pairs(t, f)...)
		}
	}
	return out
}

func pairs(t Target, f *eng.Family) []scen {
	var out []scen
	states := map[string]eng.State{"": t.Sys().Empty(f.Prelude)}
	ids := []string{""}
	for _, v := range f.Variants {
		st, err := eng.Build(t.Sys(), f, v.SQL)
		if err != nil {
			panic(err)
		}
		states[v.ID] = st
		ids = append(ids, v.ID)
	}
	for _, from := range ids {
		for _, v := range f.Variants {
			if from != "" && f.Skip != nil && f.Skip(from, v.ID) {
				continue
			}
			out = append(out, scen{t.Name(), f, from, v, states[from]})
		}
	}
	return out
}

// pick builds the filter of the quick tier: families with plans of every kind.
func (w *world) pick(t string, f *eng.Family) bool {
	if w.c.Thorough {
		return len(f.Variants) < 60
	}
	switch t {
	case "mysql":
		return quickMySQL[f.Name]
	case "postgres":
		return quickPG[f.Name]
	case "mssql":
		return quickMS[f.Name]
	case "sqlite":
		return f.Name == "sq.tables" || f.Name == "sq.view" || f.Name == "sq.addtypes"
	}
	return len(f.Variants) <= 14
}

var quickMySQL = map[string]bool{"my.colindex": true, "my.fk": true, "my.fktarget": true, "my.fkdrop": true, "my.view": true, "my.trigger": true, "my.tables": true, "my.indexlen": true, "my.fkmove": true, "my.skipdrop": true, "my.wide.PRIMARY_KEY": true, "my.viewview": true}

var quickMS = map[string]bool{"ms.skipdrop": true, "ms.tables": true, "ms.trigger": true, "ms.fk.composite": true, "ms.check3": true}

var quickPG = map[string]bool{"pg.colindex": true, "pg.fkdrop": true, "pg.view": true, "pg.schemafk": true, "pg.skipdrop": true, "pg.tables": true, "pg.viewdrop": true, "pg.namespol": true, "pg.checktext": true, "pg.unique": true, "pg.serial": true}

func (w *world) all(pick func(string, *eng.Family) bool, f func(i int, s scen) []eng.Failure) {
	sc := w.scenarios(pick)
	w.c.Count("transitions", int64(len(sc)))
	st := map[string]bool{}
	for _, s := range sc {
		st[s.target+":"+s.fam.Name+":"+s.from] = true
	}
	w.c.Count("states", int64(len(st)))
	w.c.Parallel(len(sc), func(i, k int) {
		w.c.Journal.Begin(i, sc[k].id())
		w.report(sc[k], f(i, sc[k]))
	})
}

func (w *world) report(s scen, fs []eng.Failure) {
	for _, x := range fs {
		x.Case = s.id()
		x.Repro = map[string]interface{}{"target": s.target, "family": s.fam.Name, "from": s.from, "file": s.to.SQL, "what": x.Detail}
		w.c.Fail(x)
	}
}

func (w *world) one(id string, f func(i int, s scen) []eng.Failure) {
	p := strings.SplitN(id, ":", 3)
	if len(p) < 3 {
		return
	}
	for _, s := range w.scenarios(func(t string, f *eng.Family) bool { return t == p[0] && f.Name == p[1] }) {
		if s.id() == id {
			w.report(s, f(0, s))
		}
	}
}

func fail(kind, format string, a ...interface{}) []eng.Failure {
	return []eng.Failure{{Kind: kind, Detail: fmt.Sprintf(format, a...)}}
}

// same tells whether the database still is exactly what it was.
func same(t Target, st eng.State) bool {
	if t.Name() == "sqlite" {
		b, err := ioutil.ReadFile(t.Conn()[0])
		return err == nil && string(b) == string(t.(*sqliteT).s.Bytes(st))
	}
	return t.Sys().Key(t.Get()) == t.Sys().Key(st)
}

// RunDry is the check of C07.
func RunDry(c *chk.Ctx) {
	w := newWorld(c, "mysqldef", "psqldef", "mssqldef", "sqlite3def")
	defer w.close()
	w.all(w.pick, w.dry)
	c.Cov["traces_validated_against_impl"] = *c.Counter("tool_runs")
}

// OneDry runs one recorded case.
func OneDry(c *chk.Ctx, id string) {
	w := newWorld(c, "mysqldef", "psqldef", "mssqldef", "sqlite3def")
	defer w.close()
	w.one(id, w.dry)
}

func (w *world) dry(i int, s scen) []eng.Failure {
	t := w.target(i, s.target)
	quiet := func(what string, r Result) []eng.Failure {
		if r.Crashed() || r.Timeout {
			return fail("crash", "%s: %v", what, r)
		}
		if ev, ok := t.Sent(); ok {
			if q := Executed(ev); len(q) > 0 {
				return fail("writes", "%s sent %q", what, q)
			}
		}
		if !same(t, s.st) {
			return fail("changed", "%s changed the database: %s", what, eng.Diff(t.Sys().Canon(s.st), t.Sys().Canon(t.Get())))
		}
		return nil
	}
	var outs []string
	for _, o := range [][]string{{"--dry-run"}, {"--dry-run", "--skip-drop"}} {
		for _, stdin := range []bool{true, false} {
			if len(o) > 1 && stdin {
				continue
			}
			t.Set(s.st)
			r := w.run(i, t, o, s.to.SQL, stdin)
			if f := quiet(fmt.Sprint(o), r); f != nil {
				return f
			}
			if r.Exit != 0 {
				// whatever it is, a real run must not do anything either
				t.Set(s.st)
				r2 := w.run(i, t, nil, s.to.SQL, stdin)
				if f := quiet("a run with an unusable file", r2); f != nil {
					return f
				}
				if r2.Exit == 0 {
					return fail("dry-run-differs", "dry run fails: %v\nreal run: %v", r, r2)
				}
				return nil
			}
			outs = append(outs, r.Out)
		}
	}
	if outs[0] != outs[1] {
		return fail("input-differs", "from standard input %s\nfrom a file %s", outs[0], outs[1])
	}
	// a file that ends in an error, and one that does not exist
	for k, bad := range []string{s.to.SQL + "CREATE TABLE broken (x int;\n", ""} {
		for _, o := range [][]string{nil, {"--dry-run"}, {"--skip-drop"}} {
			if k == 1 && o != nil || k == 0 && o != nil && s.from != "" {
				continue
			}
			t.Set(s.st)
			var r Result
			if k == 0 {
				r = w.run(i, t, o, bad, true)
			} else {
				r = w.run(i, t, append(o, "--file="+filepath.Join(w.dir[i], "missing.sql")), "", true)
			}
			if f := quiet("a run with an unusable file", r); f != nil {
				return f
			}
			if r.Exit == 0 {
				return fail("unusable-accepted", "%q %v", bad, r)
			}
		}
	}
	if s.to.ID == s.fam.Variants[0].ID {
		var dumps []string
		for _, o := range [][]string{{"--export"}, {"--export", "--dry-run"}, {"--skip-drop", "--export"}} {
			t.Set(s.st)
			r := w.run(i, t, o, s.to.SQL, len(o) == 1)
			if f := quiet(fmt.Sprint(o), r); f != nil {
				return f
			}
			if r.Exit != 0 {
				return fail("export-fails", "%v", r)
			}
			dumps = append(dumps, r.Out)
		}
		for _, d := range dumps[1:] {
			if d != dumps[0] {
				return fail("export-differs", "%s\n%s", dumps[0], d)
			}
		}
		if d, err := t.Sys().Dump(s.st); err == nil {
			if d == "" {
				d = "-- No table exists --\n"
			} else {
				d += ";\n"
			}
			if d != dumps[0] {
				return fail("export-differs", "%s\nthe catalog is read as\n%s", dumps[0], d)
			}
		}
	}
	for k, o := range [][]string{nil, {"--skip-drop"}} {
		t.Set(s.st)
		r := w.run(i, t, o, s.to.SQL, k == 0)
		if r.Crashed() || r.Timeout {
			return fail("crash", "%v", r)
		}
		dry := outs[0]
		if k == 1 {
			dry = outs[2]
		}
		if dry == "-- Nothing is modified --\n" || r.Out == "-- Nothing is modified --\n" {
			if dry != r.Out || r.Exit != 0 {
				return fail("dry-run-differs", "dry run: %s\nreal run: %v", dry, r)
			}
			if f := quiet("a run with nothing to do", r); f != nil {
				return f
			}
			continue
		}
		want := strings.Replace(dry, "-- dry run --\n", "-- Apply --\n", 1)
		if r.Exit == 0 && r.Out != want || !strings.HasPrefix(want, r.Out) {
			return fail("dry-run-differs", "dry run: %s\nreal run %v: %v", dry, o, r)
		}
		if ev, ok := t.Sent(); ok {
			printed := "-- Apply --\n"
			ex := Executed(ev)
			shown := r.Out
			for _, q := range ex {
				// withheld statements are printed in between
				for rest := strings.TrimPrefix(shown, printed); k == 1 && strings.HasPrefix(rest, "-- Skipped: "); rest = strings.TrimPrefix(shown, printed) {
					n := strings.Index(rest, ";\n")
					if n < 0 {
						break
					}
					for !(strings.HasPrefix(rest[n+2:], "-- Skipped: ") || strings.HasPrefix(rest[n+2:], q+";\n") || n+2 == len(rest)) {
						m := strings.Index(rest[n+2:], ";\n")
						if m < 0 {
							break
						}
						n += 2 + m
					}
					printed += rest[:n+2]
				}
				printed += q + ";\n"
			}
			if !strings.HasPrefix(shown, printed) || k == 0 && printed != shown {
				return fail("printed-differs", "printed: %s\nexecuted: %q", shown, ex)
			}
		} else if k == 0 && r.Exit == 0 {
			// the state must be what the printed statements give
			st := t.Sys().Clone(s.st)
			body := strings.TrimPrefix(dry, "-- dry run --\n")
			stmts, err := t.Sys().Split(body)
			if err != nil {
				return fail("printed-differs", "%v in %s", err, body)
			}
			for _, q := range stmts {
				if err := t.Sys().Exec(st, q); err != nil {
					return fail("printed-differs", "%v in %s", err, q)
				}
			}
			if a, b := t.Sys().Canon(st), t.Sys().Canon(t.Get()); a != b {
				return fail("printed-differs", "printed: %s\n%s", dry, eng.Diff(a, b))
			}
		}
	}
	if i == 0 {
		w.c.Sample(map[string]interface{}{"case": s.id(), "dry": outs[0]})
	}
	return nil
}

// drops tells whether a statement has a DROP clause.
func drops(q string, d sqlx.Dialect) bool {
	toks, err := sqlx.Lex(q, d)
	if err != nil {
		return true
	}
	for n, k := range toks {
		if k.K == sqlx.Word {
			if k.U == "CREATE" && n == 0 {
				return false
			}
			if k.U == "DROP" {
				return true
			}
		}
	}
	return false
}

// RunSkip is the check of C08.
func RunSkip(c *chk.Ctx) {
	w := newWorld(c, "mysqldef", "psqldef", "mssqldef", "sqlite3def")
	defer w.close()
	w.all(w.pick, w.skip)
	c.Cov["traces_validated_against_impl"] = *c.Counter("tool_runs")
}

// OneSkip runs one recorded case.
func OneSkip(c *chk.Ctx, id string) {
	w := newWorld(c, "mysqldef", "psqldef", "mssqldef", "sqlite3def")
	defer w.close()
	w.one(id, w.skip)
}

func (w *world) skip(i int, s scen) []eng.Failure {
	t := w.target(i, s.target)
	dump, err := t.Sys().Dump(s.st)
	if err != nil {
		return nil
	}
	plan, err, pan := eng.Plan(t.Sys().Mode(), s.to.SQL, dump)
	if err != nil || pan != "" || len(plan) == 0 {
		return nil
	}
	d := sqlx.MySQL
	switch s.target {
	case "sqlite":
		d = sqlx.SQLite
	case "postgres":
		d = sqlx.PG
	case "mssql":
		d = sqlx.MSSQL
	}
	var want []string // executed
	var shown []string
	skipped := 0
	for _, q := range plan {
		if drops(q, d) {
			shown = append(shown, "-- Skipped: "+q)
			skipped++
		} else {
			shown = append(shown, q)
			want = append(want, q)
		}
	}
	atomic.AddInt64(w.c.Counter("statements_withheld"), int64(skipped))
	t.Set(s.st)
	r := w.run(i, t, []string{"--dry-run", "--skip-drop"}, s.to.SQL, true)
	if r.Crashed() || r.Timeout || r.Exit != 0 {
		return fail("dry-run-fails", "%v", r)
	}
	if r.Out != Lines("-- dry run --", shown) {
		return fail("shown", "expected %s\ngot %s", Lines("-- dry run --", shown), r.Out)
	}
	t.Set(s.st)
	r = w.run(i, t, []string{"--skip-drop"}, s.to.SQL, true)
	if r.Crashed() || r.Timeout {
		return fail("crash", "%v", r)
	}
	lines := Lines("-- Apply --", shown)
	if r.Exit == 0 && r.Out != lines || !strings.HasPrefix(lines, r.Out) {
		return fail("shown", "expected %s\ngot %v", lines, r)
	}
	if ev, ok := t.Sent(); ok {
		ex := Executed(ev)
		n := len(ex)
		if n > len(want) || r.Exit == 0 && n != len(want) || fmt.Sprintf("%q", ex) != fmt.Sprintf("%q", want[:n]) {
			return fail("executed", "expected %q\nexecuted %q", want, ex)
		}
		if r.Exit != 0 && (n == 0 || ev[len(ev)-1].Kind != "rollback") {
			return fail("failed", "%v\n%v", r, ev)
		}
	}
	now := t.Sys().Pieces(t.Get())
	auto := map[string]bool{}
	if a, ok := t.Sys().(interface {
		AutoPieces(eng.State) map[string]bool
	}); ok {
		auto = a.AutoPieces(s.st)
	}
	for p := range t.Sys().Pieces(s.st) {
		if !now[p] && !auto[p] {
			return fail("destroyed", "%s\n%q", p, want)
		}
	}
	if i == 0 && skipped > 0 {
		w.c.Sample(map[string]interface{}{"case": s.id(), "shown": r.Out})
	}
	return nil
}

var _ = srv.Event{}
