package sys

import (
	"fmt"
	"os"
	"strings"

	"github.com/k0kubun/sqldef/adapter"
	apg "github.com/k0kubun/sqldef/adapter/postgres"
	"github.com/k0kubun/sqldef/schema"

	"mc/eng"
	"mc/pg"
	"mc/sqlx"
)

// Postgres is a System over the PostgreSQL model server.
type Postgres struct {
	S  *pg.Server
	ad adapter.Database
}

func NewPostgres() eng.System {
	os.Setenv("PGSSLMODE", "disable")
	s := pg.NewServer()
	if err := s.Start(); err != nil {
		panic(err)
	}
	s.DBs["mcdb"] = pg.NewDB("mcdb")
	// another database of the server, with the same names
	o := pg.NewDB("aadb")
	for _, q := range []string{"CREATE TABLE t (id int NOT NULL PRIMARY KEY, u int UNIQUE)", "CREATE VIEW foo AS select 1 as one"} {
		if err := o.Exec(q); err != nil {
			panic(err)
		}
	}
	s.DBs["aadb"] = o
	ad, err := apg.NewDatabase(adapter.Config{DbName: "mcdb", User: "postgres", Host: "127.0.0.1", Port: s.Port()})
	if err != nil {
		panic(err)
	}
	return &Postgres{S: s, ad: ad}
}

func (m *Postgres) Name() string               { return "postgres" }
func (m *Postgres) Mode() schema.GeneratorMode { return schema.GeneratorModePostgres }
func (m *Postgres) Empty(prelude []string) eng.State {
	d := pg.NewDB("mcdb")
	for _, q := range prelude {
		if err := d.Exec(q); err != nil {
			panic(fmt.Sprint(err, " in prelude ", q))
		}
	}
	return d
}
func (m *Postgres) Clone(s eng.State) eng.State           { return s.(*pg.DB).Clone() }
func (m *Postgres) Exec(s eng.State, sql string) error    { return s.(*pg.DB).Exec(sql) }
func (m *Postgres) Canon(s eng.State) string              { return s.(*pg.DB).Canon() }
func (m *Postgres) Key(s eng.State) string                { return s.(*pg.DB).Key() }
func (m *Postgres) Objects(s eng.State) map[string]string { return s.(*pg.DB).Objects() }
func (m *Postgres) Pieces(s eng.State) map[string]bool    { return s.(*pg.DB).Pieces() }
func (m *Postgres) Split(sql string) ([]string, error)    { return sqlx.SplitStatements(sql, sqlx.PG) }
func (m *Postgres) Close()                                { m.ad.Close(); m.S.Close() }

func (m *Postgres) Dump(s eng.State) (string, error) {
	m.S.Mu.Lock()
	m.S.DBs["mcdb"] = s.(*pg.DB)
	m.S.Log = nil
	m.S.Mu.Unlock()
	out, err := DumpVia(m.ad)
	if m.S.Inconclusive != "" {
		panic("model server did not understand: " + m.S.Inconclusive)
	}
	return out, err
}

// LoadOrder puts foreign keys last: psqldef's export prints them next to their table, for psqldef itself.
func (m *Postgres) LoadOrder(stmts []string) []string {
	var first, last []string
	for _, q := range stmts {
		if strings.HasPrefix(q, "ALTER TABLE") && strings.Contains(q, " FOREIGN KEY ") {
			last = append(last, q)
		} else {
			first = append(first, q)
		}
	}
	return append(first, last...)
}
