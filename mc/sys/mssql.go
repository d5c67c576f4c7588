package sys

import (
	"fmt"

	"github.com/k0kubun/sqldef/adapter"
	ams "github.com/k0kubun/sqldef/adapter/mssql"
	"github.com/k0kubun/sqldef/schema"

	"mc/eng"
	"mc/ms"
	"mc/sqlx"
)

// MSSQL is a System over the SQL Server model server.
type MSSQL struct {
	S  *ms.Server
	ad adapter.Database
}

func NewMSSQL() eng.System {
	s := ms.NewServer()
	if err := s.Start(); err != nil {
		panic(err)
	}
	s.DBs["mcdb"] = ms.NewDB("mcdb")
	s.Users["sa"] = ""
	// another database of the server, with the same names
	o := ms.NewDB("aadb")
	for _, q := range []string{"CREATE TABLE t (id int NOT NULL PRIMARY KEY, u int CONSTRAINT uu UNIQUE)", "CREATE VIEW foo AS select 1 as one"} {
		if err := o.Exec(q); err != nil {
			panic(err)
		}
	}
	s.DBs["aadb"] = o
	ad, err := ams.NewDatabase(adapter.Config{DbName: "mcdb", User: "sa", Host: "127.0.0.1", Port: s.Port()})
	if err != nil {
		panic(err)
	}
	return &MSSQL{S: s, ad: ad}
}

func (m *MSSQL) Name() string               { return "mssql" }
func (m *MSSQL) Mode() schema.GeneratorMode { return schema.GeneratorModeMssql }
func (m *MSSQL) Empty(prelude []string) eng.State {
	d := ms.NewDB("mcdb")
	for _, q := range prelude {
		if err := d.Exec(q); err != nil {
			panic(fmt.Sprint(err, " in prelude ", q))
		}
	}
	return d
}
func (m *MSSQL) Clone(s eng.State) eng.State           { return s.(*ms.DB).Clone() }
func (m *MSSQL) Exec(s eng.State, sql string) error    { return s.(*ms.DB).Exec(sql) }
func (m *MSSQL) Canon(s eng.State) string              { return s.(*ms.DB).Canon() }
func (m *MSSQL) Key(s eng.State) string                { return s.(*ms.DB).Key() }
func (m *MSSQL) Objects(s eng.State) map[string]string { return s.(*ms.DB).Objects() }
func (m *MSSQL) Pieces(s eng.State) map[string]bool    { return s.(*ms.DB).Pieces() }
func (m *MSSQL) Split(sql string) ([]string, error)    { return sqlx.SplitStatements(sql, sqlx.MSSQL) }
func (m *MSSQL) Close()                                { m.ad.Close(); m.S.Close() }

func (m *MSSQL) Dump(s eng.State) (string, error) {
	m.S.Mu.Lock()
	m.S.DBs["mcdb"] = s.(*ms.DB)
	m.S.Log = nil
	m.S.Mu.Unlock()
	out, err := DumpVia(m.ad)
	if m.S.Inconclusive != "" {
		panic("model server did not understand: " + m.S.Inconclusive)
	}
	return out, err
}
