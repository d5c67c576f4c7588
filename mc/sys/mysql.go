// Package sys binds the databases (model servers through real adapters, real SQLite) to the explorer.
package sys

import (
	"fmt"

	"github.com/k0kubun/sqldef/adapter"
	amysql "github.com/k0kubun/sqldef/adapter/mysql"
	"github.com/k0kubun/sqldef/schema"

	"mc/eng"
	"mc/my"
	"mc/sqlx"
)

// MySQL is a System over the MySQL model server.
type MySQL struct {
	S  *my.Server
	ad adapter.Database
}

func NewMySQL() eng.System {
	s := my.NewServer()
	if err := s.Start(); err != nil {
		panic(err)
	}
	s.DBs["mcdb"] = my.NewDB("mcdb")
	// another database of the server, with the same names
	for _, n := range []string{"aadb", "zzdb"} {
		o := my.NewDB(n)
		for _, q := range []string{
			"CREATE TABLE users (id int NOT NULL PRIMARY KEY, other varchar(3))", "CREATE TABLE t (id int NOT NULL PRIMARY KEY, u int, CONSTRAINT fk1 FOREIGN KEY (u) REFERENCES users (id))",
			"CREATE VIEW foo AS select other from users", "CREATE VIEW bar AS select 1 as one", "CREATE TRIGGER tg BEFORE DELETE ON t FOR EACH ROW delete from users",
		} {
			if err := o.Exec(q); err != nil {
				panic(err)
			}
		}
		s.DBs[n] = o
	}
	ad, err := amysql.NewDatabase(adapter.Config{DbName: "mcdb", User: "root", Host: "127.0.0.1", Port: s.Port()})
	if err != nil {
		panic(err)
	}
	return &MySQL{S: s, ad: ad}
}

func (m *MySQL) Name() string               { return "mysql" }
func (m *MySQL) Mode() schema.GeneratorMode { return schema.GeneratorModeMysql }
func (m *MySQL) Empty(prelude []string) eng.State {
	d := my.NewDB("mcdb")
	for _, q := range prelude {
		if err := d.Exec(q); err != nil {
			panic(fmt.Sprint(err, " in prelude ", q))
		}
	}
	return d
}
func (m *MySQL) Clone(s eng.State) eng.State { return s.(*my.DB).Clone() }
func (m *MySQL) Exec(s eng.State, sql string) error {
	return s.(*my.DB).Exec(sql)
}
func (m *MySQL) Canon(s eng.State) string              { return s.(*my.DB).Canon() }
func (m *MySQL) Key(s eng.State) string                { return s.(*my.DB).Key() }
func (m *MySQL) Objects(s eng.State) map[string]string { return s.(*my.DB).Objects() }
func (m *MySQL) Pieces(s eng.State) map[string]bool    { return s.(*my.DB).Pieces() }
func (m *MySQL) Split(sql string) ([]string, error)    { return sqlx.SplitStatements(sql, sqlx.MySQL) }
func (m *MySQL) Close()                                { m.ad.Close(); m.S.Close() }

func (m *MySQL) Dump(s eng.State) (string, error) {
	m.S.Mu.Lock()
	m.S.DBs["mcdb"] = s.(*my.DB)
	m.S.Log = nil
	m.S.Mu.Unlock()
	return DumpVia(m.ad)
}

// DumpVia runs the real dump, turning a panic into an error.
func DumpVia(ad adapter.Database) (out string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("adapter panic: %v", r)
		}
	}()
	return adapter.DumpDDLs(ad)
}

// AutoPieces are indexes the server made for a foreign key and drops by itself.
func (m *MySQL) AutoPieces(s eng.State) map[string]bool {
	o := map[string]bool{}
	for n, t := range s.(*my.DB).Tables {
		for _, i := range t.Idx {
			if i.Gen {
				o["index "+n+"."+i.Name] = true
			}
		}
	}
	return o
}
