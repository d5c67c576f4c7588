// Package catq evaluates catalog queries: the catalog is materialised into an in-memory SQLite database and the query text
// runs against it, so the answer depends on what the query says and not on what it looks like.
package catq

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"strings"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// Rel is one catalog relation.
type Rel struct {
	Schema string // attached database, "" for main
	Name   string
	Cols   []string // name, optionally "name INTEGER"
	Rows   [][]interface{}
}

// Ev is one evaluator; it is not safe for concurrent use.
type Ev struct {
	conn    *sqlite3.SQLiteConn
	rels    map[string]bool
	Funcs   map[string]string // text of per-object functions, keyed "fn\x00arg"
	version interface{}
	Nocase  bool
}

func New(nocase bool, schemas []string, reg func(*sqlite3.SQLiteConn, *Ev) error) (*Ev, error) {
	e := &Ev{rels: map[string]bool{}, Funcs: map[string]string{}, Nocase: nocase}
	drv := &sqlite3.SQLiteDriver{}
	c, err := drv.Open(":memory:")
	if err != nil {
		return nil, err
	}
	e.conn = c.(*sqlite3.SQLiteConn)
	for _, s := range schemas {
		if err := e.exec("ATTACH ':memory:' AS " + s); err != nil {
			return nil, err
		}
	}
	e.exec("PRAGMA synchronous=OFF")
	e.exec("PRAGMA case_sensitive_like=" + map[bool]string{true: "OFF", false: "ON"}[nocase])
	if reg != nil {
		if err := reg(e.conn, e); err != nil {
			return nil, err
		}
	}
	return e, nil
}

func (e *Ev) exec(q string, args ...driver.Value) error {
	_, err := e.conn.Exec(q, args)
	return err
}

// Q quotes a name.
func Q(n string) string { return "\"" + strings.Replace(n, "\"", "\"\"", -1) + "\"" }

// Load replaces the contents of the relations unless version is already loaded.
func (e *Ev) Load(version interface{}, rels func() []Rel) error {
	if version != nil && e.version == version {
		return nil
	}
	e.version = version
	e.Funcs = map[string]string{}
	e.exec("BEGIN")
	defer e.exec("COMMIT")
	for _, r := range rels() {
		full := Q(r.Name)
		if r.Schema != "" {
			full = r.Schema + "." + full
		}
		if !e.rels[full] {
			var cs []string
			for _, c := range r.Cols {
				f := strings.SplitN(c, " ", 2)
				if strings.HasPrefix(c, "Tables_in_") {
					f = []string{c}
				}
				ty := "TEXT"
				if len(f) > 1 {
					ty = f[1]
				}
				x := Q(f[0]) + " " + ty
				if e.Nocase && ty == "TEXT" {
					x += " COLLATE NOCASE"
				}
				cs = append(cs, x)
			}
			if err := e.exec("CREATE TABLE " + full + " (" + strings.Join(cs, ",") + ")"); err != nil {
				return err
			}
			e.rels[full] = true
		} else if err := e.exec("DELETE FROM " + full); err != nil {
			return err
		}
		if len(r.Rows) == 0 {
			continue
		}
		st, err := e.conn.Prepare("INSERT INTO " + full + " VALUES (" + strings.TrimSuffix(strings.Repeat("?,", len(r.Cols)), ",") + ")")
		if err != nil {
			return err
		}
		for _, row := range r.Rows {
			if len(row) != len(r.Cols) {
				return fmt.Errorf("catq: %s: %d values for %d columns", full, len(row), len(r.Cols))
			}
			vs := make([]driver.Value, len(row))
			for i, v := range row {
				switch x := v.(type) {
				case nil:
				case bool:
					if x {
						vs[i] = int64(1)
					} else {
						vs[i] = int64(0)
					}
				case int:
					vs[i] = int64(x)
				default:
					vs[i] = v
				}
			}
			if _, err := st.Exec(vs); err != nil {
				st.Close()
				return err
			}
		}
		st.Close()
	}
	return nil
}

// Query runs q and returns column names and rows; values are nil, int64, float64 or string.
func (e *Ev) Query(q string, args ...driver.Value) ([]string, [][]interface{}, error) {
	rows, err := e.conn.Query(q, args)
	if err != nil {
		return nil, nil, err
	}
	defer rows.Close()
	cols := rows.Columns()
	var out [][]interface{}
	for {
		vals := make([]driver.Value, len(cols))
		err := rows.Next(vals)
		if err == io.EOF {
			return cols, out, nil
		}
		if err != nil {
			return nil, nil, err
		}
		r := make([]interface{}, len(vals))
		for i, v := range vals {
			switch x := v.(type) {
			case []byte:
				r[i] = string(x)
			default:
				r[i] = x
			}
		}
		out = append(out, r)
	}
}

var _ = sql.ErrNoRows
