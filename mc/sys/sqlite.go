package sys

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/k0kubun/sqldef/adapter"
	asqlite "github.com/k0kubun/sqldef/adapter/sqlite3"
	"github.com/k0kubun/sqldef/schema"
	sqlite3 "github.com/mattn/go-sqlite3"

	"mc/eng"
	"mc/sqlx"
)

// SQLite is a System over the real engine; a state is a database file.
type SQLite struct {
	dir string

	// the state transitions are being explored from, loaded into memory and filled with rows
	mem    *sqlite3.SQLiteConn
	base   *byte
	loaded bool
	before map[string]string
}

// SQState is the content of a database file, plus statements that are still to be executed on it.
type SQState struct {
	B    []byte
	plan []string

	objects map[string]string
	key     string
	before  map[string]string // rows the state had before the plan
	after   map[string]string // rows after it
	mu      sync.Mutex
}

// bytes are the database file's content.
// Bytes are the content of the database file of a state.
func (m *SQLite) Bytes(s eng.State) []byte { return m.bytes(s) }

func (m *SQLite) bytes(s eng.State) []byte {
	st := s.(*SQState)
	st.mu.Lock()
	defer st.mu.Unlock()
	if len(st.plan) > 0 {
		n := &SQState{B: st.B}
		if _, err := m.exec(n, st.plan); err != nil {
			panic(err)
		}
		st.B, st.plan = n.B, nil
	}
	return st.B
}

func first(b []byte) *byte {
	if len(b) == 0 {
		return nil
	}
	return &b[0]
}

// load makes the in-memory database equal to the file content b, with rows in every table.
func (m *SQLite) load(b []byte) error {
	if m.loaded && m.base == first(b) {
		return nil
	}
	m.loaded = false
	if m.mem != nil {
		m.mem.Close()
	}
	c, err := (&sqlite3.SQLiteDriver{}).Open(":memory:")
	if err != nil {
		return err
	}
	m.mem = c.(*sqlite3.SQLiteConn)
	m.mem.Exec("PRAGMA temp_store=MEMORY", nil)
	m.base = first(b)
	err = m.with(&SQState{B: b}, func(f *sqlite3.SQLiteConn) error {
		bk, err := m.mem.Backup("main", f, "main")
		if err != nil {
			return err
		}
		if _, err := bk.Step(-1); err != nil {
			return err
		}
		return bk.Finish()
	})
	if err != nil {
		return err
	}
	if err := m.fill(m.mem); err != nil {
		return fmt.Errorf("cannot insert rows: %v", err)
	}
	m.before, err = m.rows(m.mem)
	m.loaded = err == nil
	return err
}

func NewSQLite() eng.System {
	sqliteConfig()
	base := ""
	if st, err := os.Stat("/dev/shm"); err == nil && st.IsDir() {
		base = "/dev/shm"
	}
	d, err := ioutil.TempDir(base, "mcsq")
	if err != nil {
		panic(err)
	}
	return &SQLite{dir: d}
}

func (m *SQLite) Name() string               { return "sqlite" }
func (m *SQLite) Mode() schema.GeneratorMode { return schema.GeneratorModeSQLite3 }
func (m *SQLite) Close() {
	if m.mem != nil {
		m.mem.Close()
	}
	os.RemoveAll(m.dir)
}
func (m *SQLite) path() string { return filepath.Join(m.dir, "db") }
func (m *SQLite) Split(q string) ([]string, error) {
	return sqlx.SplitStatements(q, sqlx.SQLite)
}

func (m *SQLite) put(b []byte) {
	os.Remove(m.path() + "-journal")
	if err := ioutil.WriteFile(m.path(), b, 0644); err != nil {
		panic(err)
	}
}

func (m *SQLite) with(s *SQState, f func(c *sqlite3.SQLiteConn) error) error {
	m.put(s.B)
	c, err := (&sqlite3.SQLiteDriver{}).Open("file:" + m.path() + "?vfs=unix-none")
	if err != nil {
		return err
	}
	defer c.Close()
	sc := c.(*sqlite3.SQLiteConn)
	sc.Exec("PRAGMA journal_mode=OFF", nil)
	sc.Exec("PRAGMA synchronous=OFF", nil)
	return f(sc)
}

// ExecPlan runs statements on the state, stopping at the first refused one.
func (m *SQLite) ExecPlan(s eng.State, qs []string) (at int, err error) {
	st := s.(*SQState)
	if err := m.load(m.bytes(s)); err != nil {
		return 0, err
	}
	c := m.mem
	c.Exec("SAVEPOINT mc", nil)
	defer func() {
		c.Exec("ROLLBACK TO mc", nil)
		if _, e := c.Exec("RELEASE mc", nil); e != nil {
			m.loaded = false // the plan ended the transaction
		}
	}()
	for i, q := range qs {
		if _, err := c.Exec(q, nil); err != nil {
			return i, err
		}
	}
	st.objects, st.key = m.readConn(c)
	if st.after, err = m.rows(c); err != nil {
		return 0, err
	}
	st.before, st.plan = m.before, qs
	return 0, nil
}

// ExecAll runs statements on the state.
func (m *SQLite) ExecAll(s eng.State, qs ...string) error {
	st := s.(*SQState)
	st.B = m.bytes(s)
	_, err := m.exec(st, qs)
	st.objects, st.key = nil, ""
	return err
}

func (m *SQLite) exec(st *SQState, qs []string) (int, error) {
	if len(qs) == 0 {
		return 0, nil
	}
	at := 0
	err := m.with(st, func(c *sqlite3.SQLiteConn) error {
		// one transaction, as the tool does it
		c.Exec("BEGIN", nil)
		for i, q := range qs {
			if _, err := c.Exec(q, nil); err != nil {
				at = i
				c.Exec("COMMIT", nil)
				return err
			}
		}
		_, err := c.Exec("COMMIT", nil)
		return err
	})
	b, rerr := ioutil.ReadFile(m.path())
	if rerr != nil {
		panic(rerr)
	}
	st.B = b
	return at, err
}

func (m *SQLite) Empty(prelude []string) eng.State {
	s := &SQState{}
	for _, q := range prelude {
		if err := m.ExecAll(s, q); err != nil {
			panic(fmt.Sprint(err, " in prelude ", q))
		}
	}
	return s
}
func (m *SQLite) Clone(s eng.State) eng.State {
	return &SQState{B: m.bytes(s)}
}
func (m *SQLite) Exec(s eng.State, q string) error { return m.ExecAll(s, q) }

func query(c *sqlite3.SQLiteConn, q string) ([]string, [][]string, error) {
	r, err := c.Query(q, nil)
	if err != nil {
		return nil, nil, err
	}
	defer r.Close()
	var out [][]string
	cols := r.Columns()
	for {
		v := make([]driver.Value, len(cols))
		if err := r.Next(v); err == io.EOF {
			return cols, out, nil
		} else if err != nil {
			return nil, nil, err
		}
		row := make([]string, len(cols))
		for i, x := range v {
			switch y := x.(type) {
			case nil:
				row[i] = "\x00NULL"
			case []byte:
				row[i] = string(y)
			default:
				row[i] = fmt.Sprint(y)
			}
		}
		out = append(out, row)
	}
}

func qi(s string) string { return `"` + strings.Replace(s, `"`, `""`, -1) + `"` }

// Objects: tables (columns in name order, keys, foreign keys, indexes), views and triggers.
func (m *SQLite) Objects(s eng.State) map[string]string {
	st := s.(*SQState)
	if st.objects == nil {
		o, k := m.read(s)
		st.mu.Lock()
		st.objects, st.key = o, k
		st.mu.Unlock()
	}
	return st.objects
}

// Key adds what the real dump depends on: the stored texts up to spelling, and the order of the entries and columns.
func (m *SQLite) Key(s eng.State) string {
	m.Objects(s)
	return s.(*SQState).key
}

func def(s string) string {
	if f, err := strconv.ParseFloat(s, 64); err == nil && strings.Contains(s, ".") {
		return fmt.Sprint(f)
	}
	if strings.EqualFold(s, "null") {
		return "\x00NULL"
	}
	return s
}

func (m *SQLite) read(s eng.State) (o map[string]string, key string) {
	b := m.bytes(s)
	if len(b) == 0 {
		return map[string]string{}, ""
	}
	if err := m.with(&SQState{B: b}, func(c *sqlite3.SQLiteConn) error { o, key = m.readConn(c); return nil }); err != nil {
		panic(err)
	}
	return
}

// the catalog is a function of sqlite_master's content
type master struct {
	o   map[string]string
	key string
}

var masters sync.Map

func (m *SQLite) readConn(c *sqlite3.SQLiteConn) (map[string]string, string) {
	key := ""
	out := map[string]string{}
	err := func() error {
		_, ms, err := query(c, "select type, name, tbl_name, sql from sqlite_master order by rowid")
		if err != nil {
			return err
		}
		raw := ""
		for _, r := range ms {
			raw += strings.Join(r, "\x01") + "\x02"
		}
		if v, ok := masters.Load(raw); ok {
			e := v.(master)
			out, key = e.o, e.key
			return nil
		}
		defer func() { masters.Store(raw, master{out, key}) }()
		for _, r := range ms {
			key += strings.NewReplacer("`", "", "\"", "", "\n", " ", "  ", " ", ", ", ",").Replace(strings.Join(r, "\x01")) + "\x02"
			switch r[0] {
			case "table":
				if strings.HasPrefix(r[1], "sqlite_") {
					continue
				}
				var l []string
				_, ti, err := query(c, "PRAGMA table_xinfo("+qi(r[1])+")")
				if err != nil {
					return err
				}
				for _, x := range ti {
					l = append(l, fmt.Sprintf("col %s %s nn=%s def=%s pk=%s hidden=%s", x[1], strings.Replace(strings.ToLower(x[2]), ", ", ",", -1), x[3], def(x[4]), x[5], x[6]))
				}
				_, fk, err := query(c, "PRAGMA foreign_key_list("+qi(r[1])+")")
				if err != nil {
					return err
				}
				for _, x := range fk {
					l = append(l, "fk "+strings.Join(x[1:], " "))
				}
				_, il, err := query(c, "PRAGMA index_list("+qi(r[1])+")")
				if err != nil {
					return err
				}
				for _, x := range il {
					_, ii, err := query(c, "PRAGMA index_xinfo("+qi(x[1])+")")
					if err != nil {
						return err
					}
					d := "idx unique=" + x[2] + " origin=" + x[3] + " partial=" + x[4]
					if x[3] == "c" {
						d += " " + x[1]
					}
					for _, y := range ii {
						if y[5] == "1" {
							d += " " + y[2] + "/" + y[3] + "/" + y[4]
						}
					}
					l = append(l, d)
				}
				if strings.Contains(strings.ToUpper(r[3]), "AUTOINCREMENT") {
					l = append(l, "autoincrement")
				}
				sort.Strings(l)
				out["table "+r[1]] = strings.Join(l, "\n ")
			case "view":
				out["view "+r[1]] = viewCanon(r[3])
			case "trigger":
				out["trigger "+r[1]] = sqlx.BodyCanon(r[3], sqlx.SQLite)
			}
		}
		return nil
	}()
	if err != nil {
		panic(err)
	}
	return out, key
}

func viewCanon(q string) string {
	toks, err := sqlx.Lex(q, sqlx.SQLite)
	if err != nil {
		return "unread " + q
	}
	for _, t := range toks {
		if t.K == sqlx.Word && t.U == "AS" {
			sel, err := sqlx.ParseSelect(q[t.End:], sqlx.SQLite)
			if err != nil {
				return "unparsed " + q
			}
			return sel.Canon()
		}
	}
	return q
}

func (m *SQLite) Canon(s eng.State) string {
	o := m.Objects(s)
	var ks []string
	for k := range o {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var l []string
	for _, k := range ks {
		l = append(l, k, " "+o[k])
	}
	return strings.Join(l, "\n")
}

func (m *SQLite) Pieces(s eng.State) map[string]bool {
	out := map[string]bool{}
	for k, v := range m.Objects(s) {
		out[k] = true
		if strings.HasPrefix(k, "table ") {
			for _, l := range strings.Split(v, "\n ") {
				if strings.HasPrefix(l, "col ") {
					out["column "+k[6:]+"."+strings.Fields(l)[1]] = true
				}
			}
		}
	}
	return out
}

func (m *SQLite) Dump(s eng.State) (string, error) {
	m.put(m.bytes(s))
	ad, err := asqlite.NewDatabase(adapter.Config{DbName: m.path()})
	if err != nil {
		return "", err
	}
	defer ad.Close()
	return DumpVia(ad)
}

var _ = sql.ErrNoRows

// JudgeRows: rows of tables and columns present in both states are untouched by the plan.
func JudgeRows(t *eng.Trans) []eng.Failure {
	if t.PlanErr != nil || t.Panic != "" || t.ExecErr != nil || len(t.Plan) == 0 {
		return nil
	}
	m := t.Sys.(*SQLite)
	st := t.After.(*SQState)
	fp, wp := m.Pieces(t.From), m.Pieces(t.Oracle)
	for k := range fp {
		if strings.HasPrefix(k, "column ") && wp[k] {
			c := k[len("column "):]
			if st.before[c] != st.after[c] || st.before[c] == "" {
				return []eng.Failure{{Kind: "rows-lost", Detail: fmt.Sprintf("values of %s were %q and are %q after %q", c, st.before[c], st.after[c], t.Plan)}}
			}
		}
	}
	return nil
}

func (m *SQLite) fill(c *sqlite3.SQLiteConn) error {
	_, ts, err := query(c, "select name from sqlite_master where type = 'table' and substr(name,1,7) <> 'sqlite_' order by name")
	if err != nil {
		return err
	}
	for ti, t := range ts {
		_, cols, err := query(c, "PRAGMA table_info("+qi(t[0])+")")
		if err != nil {
			return err
		}
		for r := 1; r <= 3; r++ {
			var cn, vs []string
			for ci, c := range cols {
				cn = append(cn, qi(c[1]))
				if strings.Contains(strings.ToLower(c[2]), "int") || c[5] != "0" {
					vs = append(vs, fmt.Sprint(1000*ti+100*ci+r))
				} else {
					vs = append(vs, fmt.Sprintf("'%s%d'", c[1], r))
				}
			}
			if _, err := c.Exec(fmt.Sprintf("INSERT INTO %s (%s) VALUES (%s)", qi(t[0]), strings.Join(cn, ","), strings.Join(vs, ",")), nil); err != nil {
				return err
			}
		}
	}
	return nil
}

func (m *SQLite) rows(c *sqlite3.SQLiteConn) (map[string]string, error) {
	out := map[string]string{}
	_, ts, err := query(c, "select name from sqlite_master where type = 'table' and substr(name,1,7) <> 'sqlite_'")
	if err != nil {
		return nil, err
	}
	for _, t := range ts {
		cols, rows, err := query(c, "SELECT * FROM "+qi(t[0])+" ORDER BY rowid")
		if err != nil {
			return nil, err
		}
		for i, c := range cols {
			var l []string
			for _, r := range rows {
				l = append(l, r[i])
			}
			out[t[0]+"."+c] = strings.Join(l, "|")
		}
	}
	return out, nil
}
