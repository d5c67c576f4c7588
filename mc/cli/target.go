package cli

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"mc/eng"
	"mc/fam"
	"mc/ms"
	"mc/my"
	"mc/pg"
	"mc/srv"
	"mc/sys"
)

// Target is a database together with the tool that manages it.
type Target interface {
	Name() string
	Sys() eng.System
	Families(thorough bool) []*eng.Family
	Bin() string                                // the tool
	Set(st eng.State)                           // the database gets this state
	Get() eng.State                             // the state it has now
	Conn() []string                             // connection arguments and database name
	Sent() ([]srv.Event, bool)                  // what the server received since Reset, if it can tell
	Reset()                                     // forgets that
	Fault(func(n int, e *srv.Event) error) bool // installs a fault plan, if it can
	Inconclusive() string
	Close()
}

// Targets are the systems with a model server or a real engine here.
var Targets = []string{"mysql", "postgres", "mssql", "sqlite"}

// NewTarget makes one.
func NewTarget(name, dir string) Target {
	switch name {
	case "mysql":
		m := sys.NewMySQL().(*sys.MySQL)
		return &mysqlT{m: m}
	case "postgres":
		return &pgT{m: sys.NewPostgres().(*sys.Postgres)}
	case "mssql":
		return &mssqlT{m: sys.NewMSSQL().(*sys.MSSQL)}
	case "sqlite":
		return &sqliteT{s: sys.NewSQLite().(*sys.SQLite), dir: dir}
	}
	panic(name)
}

type mysqlT struct{ m *sys.MySQL }

func (t *mysqlT) Name() string                   { return "mysql" }
func (t *mysqlT) Sys() eng.System                { return t.m }
func (t *mysqlT) Families(th bool) []*eng.Family { return fam.MySQL(th) }
func (t *mysqlT) Bin() string                    { return "mysqldef" }
func (t *mysqlT) Set(st eng.State) {
	t.m.S.Mu.Lock()
	t.m.S.DBs["mcdb"] = st.(*my.DB).Clone()
	t.m.S.Touch()
	t.m.S.Mu.Unlock()
	t.Reset()
}
func (t *mysqlT) Get() eng.State {
	t.m.S.Mu.Lock()
	defer t.m.S.Mu.Unlock()
	return t.m.S.DBs["mcdb"]
}
func (t *mysqlT) Conn() []string {
	return []string{"-uroot", "-h127.0.0.1", fmt.Sprintf("-P%d", t.m.S.Port()), "mcdb"}
}
func (t *mysqlT) Sent() ([]srv.Event, bool) { return t.m.S.Events(), true }
func (t *mysqlT) Reset()                    { t.m.S.Reset() }
func (t *mysqlT) Fault(f func(n int, e *srv.Event) error) bool {
	t.m.S.Mu.Lock()
	t.m.S.Core.Fault = f
	t.m.S.Mu.Unlock()
	return true
}
func (t *mysqlT) Inconclusive() string { return t.m.S.Inconclusive }
func (t *mysqlT) Close()               { t.m.Close() }

// Server gives access to the model server.
func (t *mysqlT) Server() *my.Server { return t.m.S }

type pgT struct{ m *sys.Postgres }

func (t *pgT) Name() string                   { return "postgres" }
func (t *pgT) Sys() eng.System                { return t.m }
func (t *pgT) Families(th bool) []*eng.Family { return fam.Postgres(th) }
func (t *pgT) Bin() string                    { return "psqldef" }
func (t *pgT) Set(st eng.State) {
	t.m.S.Mu.Lock()
	t.m.S.DBs["mcdb"] = st.(*pg.DB).Clone()
	t.m.S.Mu.Unlock()
	t.Reset()
}
func (t *pgT) Get() eng.State {
	t.m.S.Mu.Lock()
	defer t.m.S.Mu.Unlock()
	return t.m.S.DBs["mcdb"]
}
func (t *pgT) Conn() []string {
	return []string{"-Upostgres", "-h127.0.0.1", fmt.Sprintf("-p%d", t.m.S.Port()), "mcdb"}
}
func (t *pgT) Sent() ([]srv.Event, bool) { return t.m.S.Events(), true }
func (t *pgT) Reset()                    { t.m.S.Reset() }
func (t *pgT) Fault(f func(n int, e *srv.Event) error) bool {
	t.m.S.Mu.Lock()
	t.m.S.Core.Fault = f
	t.m.S.Mu.Unlock()
	return true
}
func (t *pgT) Inconclusive() string { return t.m.S.Inconclusive }
func (t *pgT) Close()               { t.m.Close() }

// Server gives access to the model server.
func (t *pgT) Server() *pg.Server { return t.m.S }

type mssqlT struct{ m *sys.MSSQL }

func (t *mssqlT) Name() string                   { return "mssql" }
func (t *mssqlT) Sys() eng.System                { return t.m }
func (t *mssqlT) Families(th bool) []*eng.Family { return fam.MSSQL(th) }
func (t *mssqlT) Bin() string                    { return "mssqldef" }
func (t *mssqlT) Set(st eng.State) {
	t.m.S.Mu.Lock()
	t.m.S.DBs["mcdb"] = st.(*ms.DB).Clone()
	t.m.S.Mu.Unlock()
	t.Reset()
}
func (t *mssqlT) Get() eng.State {
	t.m.S.Mu.Lock()
	defer t.m.S.Mu.Unlock()
	return t.m.S.DBs["mcdb"]
}
func (t *mssqlT) Conn() []string {
	return []string{"-Usa", "-h127.0.0.1", fmt.Sprintf("-p%d", t.m.S.Port()), "mcdb"}
}
func (t *mssqlT) Sent() ([]srv.Event, bool) { return t.m.S.Events(), true }
func (t *mssqlT) Reset()                    { t.m.S.Reset() }
func (t *mssqlT) Fault(f func(n int, e *srv.Event) error) bool {
	t.m.S.Mu.Lock()
	t.m.S.Core.Fault = f
	t.m.S.Mu.Unlock()
	return true
}
func (t *mssqlT) Inconclusive() string { return t.m.S.Inconclusive }
func (t *mssqlT) Close()               { t.m.Close() }

// Server gives access to the model server.
func (t *mssqlT) Server() *ms.Server { return t.m.S }

type sqliteT struct {
	s   *sys.SQLite
	dir string
}

func (t *sqliteT) Name() string                   { return "sqlite" }
func (t *sqliteT) Sys() eng.System                { return t.s }
func (t *sqliteT) Families(th bool) []*eng.Family { return fam.SQLite(th) }
func (t *sqliteT) Bin() string                    { return "sqlite3def" }
func (t *sqliteT) path() string                   { return filepath.Join(t.dir, "db") }
func (t *sqliteT) Set(st eng.State) {
	os.Remove(t.path() + "-journal")
	os.Remove(t.path() + "-wal")
	if err := ioutil.WriteFile(t.path(), t.s.Bytes(st), 0644); err != nil {
		panic(err)
	}
}
func (t *sqliteT) Get() eng.State {
	b, err := ioutil.ReadFile(t.path())
	if err != nil {
		panic(err)
	}
	return &sys.SQState{B: b}
}
func (t *sqliteT) Conn() []string                         { return []string{t.path()} }
func (t *sqliteT) Sent() ([]srv.Event, bool)              { return nil, false }
func (t *sqliteT) Reset()                                 {}
func (t *sqliteT) Fault(func(int, *srv.Event) error) bool { return false }
func (t *sqliteT) Inconclusive() string                   { return "" }
func (t *sqliteT) Close()                                 { t.s.Close() }

// Executed are the statements among what a server received that are not part of reading the catalog.
func Executed(ev []srv.Event) []string {
	var out []string
	for _, e := range ev {
		if e.Write {
			out = append(out, e.SQL)
		}
	}
	return out
}

// Lines renders statements as the tools print them.
func Lines(head string, stmts []string) string {
	if len(stmts) == 0 {
		return "-- Nothing is modified --\n"
	}
	return head + "\n" + strings.Join(stmts, ";\n") + ";\n"
}
