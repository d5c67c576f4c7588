package cli

import (
	"fmt"
	"strings"
	"sync/atomic"

	"github.com/k0kubun/sqldef/schema"
	"github.com/k0kubun/sqldef/sqlparser"

	"mc/chk"
	"mc/eng"
	"mc/sqlx"
	"mc/sys"
)

// C11: bad input is refused before anything is executed.

type dialect struct {
	name string
	mode schema.GeneratorMode
	pm   sqlparser.ParserMode
	d    sqlx.Dialect
	base []string
	tbl  string // a table definition with a slot for one more element
	ref  []string
	dup  [][2]string
}

var dialects = []dialect{
	{"mysql", schema.GeneratorModeMysql, sqlparser.ParserModeMysql, sqlx.MySQL, []string{
		"CREATE TABLE users (id bigint NOT NULL AUTO_INCREMENT, name varchar(40) DEFAULT 'x', age int, PRIMARY KEY (id), KEY k_age (age))",
		"CREATE TABLE posts (id bigint NOT NULL, user_id bigint NOT NULL, body varchar(20) NOT NULL DEFAULT '', PRIMARY KEY (id), KEY k_user (user_id), CONSTRAINT fk_user FOREIGN KEY (user_id) REFERENCES users (id) ON DELETE CASCADE)",
		"CREATE UNIQUE INDEX u_name ON users (name)",
		"ALTER TABLE posts ADD INDEX k_body (body(5), user_id)",
		"CREATE VIEW v1 AS SELECT id, name FROM users WHERE age > 3",
		"CREATE TRIGGER tr1 BEFORE INSERT ON users FOR EACH ROW INSERT INTO posts (id) VALUES (1)",
	}, "CREATE TABLE %s (id int, x int%s)", []string{
		"CREATE INDEX i1 ON %s (id)", "CREATE UNIQUE INDEX i1 ON %s (id)", "ALTER TABLE %s ADD INDEX i1 (id)", "ALTER TABLE %s ADD UNIQUE INDEX i1 (id)", "ALTER TABLE %s ADD PRIMARY KEY (id)",
		"ALTER TABLE %s ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)", "ALTER TABLE ONLY %s ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)", "CREATE FULLTEXT INDEX i1 ON %s (id)",
	}, [][2]string{
		{"CREATE INDEX i1 ON users (age)", "CREATE INDEX i1 ON users (age)"},
		{"CREATE INDEX i1 ON users (age)", "CREATE INDEX i1 ON users (name)"},
		{"CREATE INDEX i1 ON users (age)", "ALTER TABLE users ADD INDEX i1 (age)"},
		{"ALTER TABLE users ADD INDEX i1 (age)", "ALTER TABLE users ADD UNIQUE INDEX i1 (age)"},
		{"", "ALTER TABLE users ADD INDEX k_age (age)"},
		{"", "CREATE INDEX k_age ON users (name)"},
		{"", "CREATE UNIQUE INDEX u_name ON users (age)"},
		{"", "CREATE TABLE t9 (id int, x int, KEY i1 (id), KEY i1 (x))"},
		{"", "CREATE TABLE t9 (id int, x int, KEY i1 (id), UNIQUE KEY i1 (id))"},
		{"", "CREATE TABLE t9 (id int, x int, PRIMARY KEY (id), PRIMARY KEY (x))"},
		{"", "CREATE TABLE t9 (id int PRIMARY KEY, x int, PRIMARY KEY (x))"},
		{"", "CREATE TABLE t9 (id bigint, x bigint, CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id), CONSTRAINT f1 FOREIGN KEY (x) REFERENCES users (id))"},
		{"CREATE VIEW v2 AS SELECT id FROM users", "CREATE VIEW v2 AS SELECT id FROM users"},
		{"CREATE VIEW v2 AS SELECT id FROM users", "CREATE OR REPLACE VIEW v2 AS SELECT age FROM users"},
		{"", "CREATE VIEW v1 AS SELECT age FROM users"},
	}},
	{"postgres", schema.GeneratorModePostgres, sqlparser.ParserModePostgres, sqlx.PG, []string{
		"CREATE TABLE users (id bigint NOT NULL, name varchar(40) DEFAULT 'x', age int CHECK (age > 0), PRIMARY KEY (id))",
		"CREATE TABLE posts (id bigint NOT NULL, user_id bigint NOT NULL, body text, CONSTRAINT fk_user FOREIGN KEY (user_id) REFERENCES users (id) ON DELETE CASCADE)",
		"CREATE UNIQUE INDEX u_name ON users (name)",
		"CREATE INDEX k_body ON posts USING btree (body, user_id) WHERE id > 5",
		"ALTER TABLE ONLY posts ADD CONSTRAINT fk_id FOREIGN KEY (id) REFERENCES users (id)",
		"CREATE POLICY p_all ON users AS PERMISSIVE FOR ALL TO PUBLIC USING (age > 1) WITH CHECK (age > 2)",
		"CREATE VIEW v1 AS SELECT id, name FROM users WHERE age > 3",
	}, "CREATE TABLE %s (id int, x int%s)", []string{
		"CREATE INDEX i1 ON %s (id)", "CREATE UNIQUE INDEX i1 ON %s (id)", "CREATE INDEX i1 ON %s USING btree (id) WHERE id > 1", "ALTER TABLE %s ADD PRIMARY KEY (id)", "ALTER TABLE ONLY %s ADD CONSTRAINT k1 PRIMARY KEY (id)",
		"ALTER TABLE %s ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)", "ALTER TABLE ONLY %s ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)", "CREATE POLICY p1 ON %s TO PUBLIC", "CREATE POLICY p1 ON %s AS PERMISSIVE FOR ALL TO PUBLIC USING (id > 1)",
	}, [][2]string{
		{"CREATE INDEX i1 ON users (age)", "CREATE INDEX i1 ON users (age)"},
		{"CREATE INDEX i1 ON users (age)", "CREATE UNIQUE INDEX i1 ON users (name)"},
		{"CREATE INDEX i1 ON users (age)", "CREATE INDEX i1 ON public.users (name)"},
		{"", "CREATE UNIQUE INDEX u_name ON users (age)"},
		{"", "CREATE INDEX k_body ON posts (body)"},
		{"ALTER TABLE ONLY posts ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)", "ALTER TABLE ONLY posts ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)"},
		{"ALTER TABLE ONLY posts ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)", "ALTER TABLE ONLY public.posts ADD CONSTRAINT f1 FOREIGN KEY (user_id) REFERENCES users (id)"},
		{"", "CREATE TABLE t9 (id bigint, x bigint, CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id), CONSTRAINT f1 FOREIGN KEY (x) REFERENCES users (id))"},
		{"", "CREATE TABLE t9 (id bigint, x bigint, CONSTRAINT u1 UNIQUE (id), CONSTRAINT u1 UNIQUE (x))"},
		{"", "CREATE TABLE t9 (id bigint, x bigint, PRIMARY KEY (id), PRIMARY KEY (x))"},
		{"", "ALTER TABLE ONLY posts ADD CONSTRAINT fk_user FOREIGN KEY (user_id) REFERENCES users (id)"},
		{"CREATE POLICY p1 ON users TO PUBLIC", "CREATE POLICY p1 ON users TO PUBLIC"},
		{"CREATE POLICY p1 ON users AS PERMISSIVE FOR ALL TO PUBLIC USING (id > 1)", "CREATE POLICY p1 ON users AS RESTRICTIVE FOR SELECT TO PUBLIC USING (id > 1)"},
		{"", "CREATE POLICY p_all ON users AS PERMISSIVE FOR ALL TO PUBLIC USING (age > 1)"},
		{"CREATE VIEW v2 AS SELECT id FROM users", "CREATE VIEW v2 AS SELECT id FROM users"},
		{"CREATE VIEW v2 AS SELECT id FROM users", "CREATE OR REPLACE VIEW v2 AS SELECT age FROM users"},
		{"CREATE VIEW v2 AS SELECT id FROM users", "CREATE VIEW public.v2 AS SELECT age FROM users"},
		{"", "CREATE VIEW v1 AS SELECT age FROM users"},
	}},
	{"sqlite", schema.GeneratorModeSQLite3, sqlparser.ParserModeSQLite3, sqlx.SQLite, []string{
		"CREATE TABLE users (id integer PRIMARY KEY, name text DEFAULT 'x', age integer)",
		"CREATE TABLE posts (id integer NOT NULL, user_id integer NOT NULL, body text, PRIMARY KEY (id), CONSTRAINT fk_user FOREIGN KEY (user_id) REFERENCES users (id))",
		"CREATE TABLE tags (id integer NOT NULL, tag varchar(20))",
		"CREATE VIEW v1 AS SELECT id, name FROM users WHERE age > 3",
		"CREATE VIEW v2 AS SELECT user_id FROM posts",
	}, "CREATE TABLE %s (id int, x int%s)", []string{
		"CREATE INDEX i1 ON %s (id)", "CREATE UNIQUE INDEX i1 ON %s (id)",
	}, [][2]string{
		{"CREATE VIEW v3 AS SELECT id FROM users", "CREATE VIEW v3 AS SELECT id FROM users"},
		{"", "CREATE VIEW v1 AS SELECT age FROM users"},
		{"CREATE INDEX i1 ON users (age)", "CREATE INDEX i1 ON users (name)"},
	}},
	{"mssql", schema.GeneratorModeMssql, sqlparser.ParserModeMssql, sqlx.MSSQL, []string{
		"CREATE TABLE users (id bigint NOT NULL IDENTITY(1,1), name varchar(40) DEFAULT 'x', age int CHECK (age > 0), CONSTRAINT pk_users PRIMARY KEY CLUSTERED (id), INDEX k_age (age))",
		"CREATE TABLE posts (id bigint NOT NULL, user_id bigint NOT NULL, body varchar(20), CONSTRAINT fk_user FOREIGN KEY (user_id) REFERENCES users (id) ON DELETE CASCADE)",
		"CREATE UNIQUE INDEX u_name ON users (name)",
		"CREATE NONCLUSTERED INDEX k_body ON posts (body, user_id) INCLUDE (id)",
		"CREATE VIEW v1 AS SELECT id, name FROM users WHERE age > 3",
		"CREATE TRIGGER tr1 ON users AFTER INSERT AS DELETE FROM posts",
	}, "CREATE TABLE %s (id int, x int%s)", []string{
		"CREATE INDEX i1 ON %s (id)", "CREATE UNIQUE INDEX i1 ON %s (id)", "CREATE CLUSTERED INDEX i1 ON %s (id)", "ALTER TABLE %s ADD CONSTRAINT k1 PRIMARY KEY (id)",
		"ALTER TABLE %s ADD CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id)",
	}, [][2]string{
		{"CREATE INDEX i1 ON users (age)", "CREATE INDEX i1 ON users (age)"},
		{"CREATE INDEX i1 ON users (age)", "CREATE UNIQUE INDEX i1 ON users (name)"},
		{"", "CREATE INDEX k_age ON users (name)"},
		{"", "CREATE UNIQUE INDEX u_name ON users (age)"},
		{"", "CREATE TABLE t9 (id bigint, x bigint, CONSTRAINT f1 FOREIGN KEY (id) REFERENCES users (id), CONSTRAINT f1 FOREIGN KEY (x) REFERENCES users (id))"},
		{"", "CREATE TABLE t9 (id bigint, x bigint, INDEX i1 (id), INDEX i1 (x))"},
		{"CREATE VIEW v2 AS SELECT id FROM users", "CREATE VIEW v2 AS SELECT id FROM users"},
		{"", "CREATE VIEW v1 AS SELECT age FROM users"},
	}},
}

// notDDL are statements that are no schema definition, in whatever dialect.
var notDDL = []string{
	"SELECT 1", "SELECT id FROM users", "(SELECT 1)", "SELECT 1 UNION SELECT 2", "INSERT INTO users (id) VALUES (1)", "INSERT INTO users SELECT 1", "REPLACE INTO users (id) VALUES (1)", "UPDATE users SET age = 1", "UPDATE users SET age = 1 WHERE id = 2", "DELETE FROM users", "DELETE FROM users WHERE id = 1",
	"SET x = 1", "SET NAMES utf8", "SET @@session.autocommit = 0", "SHOW TABLES", "SHOW CREATE TABLE users", "SHOW DATABASES", "USE otherdb", "USE", "BEGIN", "START TRANSACTION", "COMMIT", "ROLLBACK",
	"DROP TABLE users", "DROP TABLE IF EXISTS users", "DROP VIEW v1", "DROP INDEX u_name", "DROP INDEX u_name ON users", "TRUNCATE TABLE users", "TRUNCATE users", "RENAME TABLE users TO people",
	"ALTER TABLE users DROP COLUMN age", "ALTER TABLE users ADD COLUMN z int", "ALTER TABLE users DROP INDEX k_age", "ALTER TABLE users DROP PRIMARY KEY", "ALTER TABLE users RENAME TO people", "ALTER TABLE users MODIFY age bigint", "ALTER TABLE users DROP FOREIGN KEY fk_user", "ALTER TABLE users ENGINE=InnoDB", "ALTER TABLE users ALTER COLUMN age TYPE bigint", "ALTER VIEW v1 AS SELECT 1", "ALTER TABLE users",
	"CREATE DATABASE d1", "CREATE SCHEMA s1", "CREATE USER u1", "GRANT ALL ON users TO u1", "REVOKE ALL ON users FROM u1", "ANALYZE TABLE users", "OPTIMIZE TABLE users", "REPAIR TABLE users", "DESCRIBE users", "EXPLAIN SELECT 1", "CALL f()", "LOCK TABLES users WRITE", "VACUUM", "PRAGMA foreign_keys = 1", "EXEC sp_help", "CREATE FUNCTION f1() RETURNS int", "DROP DATABASE mcdb",
	"STREAM * FROM users", "OTHER",
	// no statement at all
	"x", "foo bar", "1", "'x'", "(", ")", "()", ",", "=", "CREATE", "CREATE TABLE", "CREATE TABLE t9", "CREATE TABLE t9 (", "CREATE TABLE t9 ()", "CREATE TABLE t9 (a int", "CREATE TABLE t9 (a int,)", "CREATE TABLE t9 (,a int)", "CREATE TABLE t9 (a int b int)", "CREATE TABLE t9 (a int))", "CREATE TABLE t9 (a int) (b int)", "CREATE TABLE t9 a int", "CREATE TABLE (a int)", "CREATE TABLE t9 (a)", "CREATE TABLE t9 (a nosuchtype)", "CREATE TABLE t9 (a int nonsense)", "CREATE TABLE t9 (a int default)", "CREATE TABLE t9 (a int not)", "CREATE TABLE t9 (a varchar())", "CREATE TABLE t9 (a varchar(x y))", "CREATE TABLE t9 (a int, PRIMARY KEY)", "CREATE TABLE t9 (a int, PRIMARY KEY ())", "CREATE TABLE t9 (a int, PRIMARY KEY (a)", "CREATE TABLE t9 (a int, FOREIGN KEY (a))", "CREATE TABLE t9 (a int, CONSTRAINT f1 FOREIGN KEY (a) REFERENCES)", "CREATE TABLE t9 (a int, CONSTRAINT f1 FOREIGN KEY (a) REFERENCES users)", "CREATE TABLE t9 (a int, CONSTRAINT f1 FOREIGN KEY REFERENCES users (id))",
	"CREATE INDEX", "CREATE INDEX i9", "CREATE INDEX i9 ON", "CREATE INDEX i9 ON users", "CREATE INDEX i9 ON users ()", "CREATE INDEX i9 ON users (id", "CREATE INDEX i9 ON users (id,)", "CREATE INDEX i9 users (id)", "CREATE INDEX ON (id)", "CREATE VIEW", "CREATE VIEW v9", "CREATE VIEW v9 AS", "CREATE VIEW v9 AS nothing", "CREATE VIEW v9 AS SELECT", "CREATE VIEW AS SELECT 1", "CREATE TRIGGER", "CREATE TRIGGER g9", "CREATE TRIGGER g9 BEFORE", "CREATE TRIGGER g9 BEFORE INSERT ON users", "CREATE POLICY", "CREATE POLICY p9", "CREATE POLICY p9 ON", "CREATE POLICY p9 ON users TO", "CREATE POLICY p9 ON users FOR NOTHING TO PUBLIC", "ALTER", "ALTER TABLE", "ALTER TABLE users ADD", "ALTER TABLE users ADD INDEX", "ALTER TABLE users ADD INDEX i9", "ALTER TABLE users ADD INDEX i9 ()", "ALTER TABLE users ADD PRIMARY", "ALTER TABLE users ADD PRIMARY KEY", "ALTER TABLE users ADD CONSTRAINT", "ALTER TABLE users ADD CONSTRAINT f9", "ALTER TABLE users ADD CONSTRAINT f9 FOREIGN KEY (age)", "TABLE t9 (a int)", "CREATE CREATE TABLE t9 (a int)", "CRATE TABLE t9 (a int)", "create tabel t9 (a int)", "CREATE TABLE t9 (a int) CREATE TABLE t8 (a int)", "CREATE TABLE t9 (a int), CREATE TABLE t8 (a int)", "\\", "@", "\x00", "CREATE TABLE t9 (a int) \x00", "\xff\xfe", "CREATE TABLE t9 (\x01 int)", "%", "CREATE TABLE t9 (a int) /", "-", "--x\nfoo", "/* x */ foo", "\\d", "GO", "DELIMITER //",
}

// endless are texts that end inside a quotation or a comment, so they take in what follows and are put last.
var endless = map[string][]string{
	"":         {"CREATE TABLE t9 (a int DEFAULT 'x)", "CREATE TABLE t9 (a varchar(9) DEFAULT 'x''", "'", "CREATE VIEW v9 AS SELECT 'x FROM users", "/* comment", "CREATE TABLE t9 (a int) /* comment", "CREATE TABLE t9 (/* a int)", "CREATE TABLE t9 (a int); /* CREATE TABLE t8 (a int);", "/*", "/* *", "/*/", "CREATE TABLE t9 (a int); /*/"},
	"mysql":    {"CREATE TABLE `t9 (a int)", "CREATE TABLE t9 (`a int)", "`", "CREATE TABLE t9 (a int DEFAULT \"x)"},
	"postgres": {"CREATE TABLE \"t9 (a int)", "CREATE TABLE t9 (\"a int)", "\""},
	"sqlite":   {"CREATE TABLE \"t9 (a int)", "CREATE TABLE t9 (\"a int)", "\"", "CREATE TABLE `t9 (a int)"},
	"mssql":    {"CREATE TABLE \"t9 (a int)", "CREATE TABLE [t9 (a int)", "CREATE TABLE t9 ([a int)", "["},
}

type badCase struct {
	dia  *dialect
	kind string
	list []string // the file's statements
	at   int      // which one is bad
	st   string   // current state: empty, same, more
}

func (b badCase) file() string { return strings.Join(b.list, ";\n") + ";\n" }
func (b badCase) id() string {
	return fmt.Sprintf("%s:%s:%d:%s:%q", b.dia.name, b.kind, b.at, b.st, b.list[b.at])
}

func insert(l []string, at int, s string) []string {
	out := append([]string{}, l[:at]...)
	out = append(out, s)
	return append(out, l[at:]...)
}

func badStates(d *dialect) map[string]string {
	join := func(l []string) string {
		s := ""
		for _, q := range l {
			if d.name != "mysql" || !strings.HasPrefix(q, "ALTER") { // a dump has the table as a whole
				s += q + ";\n"
			}
		}
		return s
	}
	more := append(append([]string{}, d.base...), fmt.Sprintf(d.tbl, "other", ""))
	return map[string]string{"empty": "", "same": join(d.base), "more": join(more)}
}

// badCases are the files that must be refused.
func badCases(d *dialect, states []string, pos func(n int) []int) (out []badCase) {
	add := func(kind string, l []string, at int) {
		for _, s := range states {
			out = append(out, badCase{d, kind, l, at, s})
		}
	}
	ins := func(kind string, l []string, s string) {
		for _, p := range pos(len(l) + 1) {
			add(kind, insert(l, p, s), p)
		}
	}
	for _, s := range notDDL {
		ins("text", d.base, s)
		add("text", []string{s}, 0)
	}
	for _, k := range []string{"", d.name} {
		for _, s := range endless[k] {
			add("endless", insert(d.base, len(d.base), s), len(d.base))
			add("endless", []string{s}, 0)
		}
	}
	for _, r := range d.ref {
		for _, name := range []string{"nowhere", "other", "v1"} {
			ins("undefined", d.base, fmt.Sprintf(r, name))
			add("undefined", []string{fmt.Sprintf(r, name)}, 0)
		}
	}
	noname := " ADD FOREIGN KEY (id) REFERENCES users (id)"
	if d.name != "sqlite" {
		ins("nameless", d.base, "ALTER TABLE posts"+noname)
	}
	ins("nameless", d.base, fmt.Sprintf(d.tbl, "t9", ", FOREIGN KEY (id) REFERENCES users (id)"))
	for _, p := range d.dup {
		if p[0] == "" {
			add("twice", append(append([]string{}, d.base...), p[1]), len(d.base))
			continue
		}
		for a := 2; a <= len(d.base); a++ { // behind the tables
			l := insert(d.base, a, p[0])
			for b := a + 1; b <= len(l); b++ {
				add("twice", insert(l, b, p[1]), b)
			}
		}
	}
	// the statements of the file cut short, the rest of the file behind
	for i, s := range d.base {
		tk := pieces(d, s)
		for n := 1; n < len(tk); n++ {
			cut := strings.TrimSpace(strings.Join(tk[:n], ""))
			if !complete[d.name+":"+cut] {
				l := append([]string{}, d.base...)
				l[i] = cut
				add("cut", l, i)
			}
		}
	}
	return
}

// complete are beginnings of base statements that are statements themselves.
var complete = map[string]bool{
	"mssql:CREATE NONCLUSTERED INDEX k_body ON posts (body, user_id)":   true,
	"postgres:CREATE INDEX k_body ON posts USING btree (body, user_id)": true, "postgres:CREATE INDEX k_body ON posts USING btree (body, user_id) WHERE id": true,
	"postgres:CREATE POLICY p_all ON users AS PERMISSIVE FOR ALL TO PUBLIC": true, "postgres:CREATE POLICY p_all ON users AS PERMISSIVE FOR ALL TO PUBLIC USING (age > 1)": true,
	"mysql:CREATE VIEW v1 AS SELECT id": true, "mysql:CREATE VIEW v1 AS SELECT id, name": true, "mysql:CREATE VIEW v1 AS SELECT id, name FROM users": true, "mysql:CREATE VIEW v1 AS SELECT id, name FROM users WHERE age": true,
	"postgres:CREATE VIEW v1 AS SELECT id": true, "postgres:CREATE VIEW v1 AS SELECT id, name": true, "postgres:CREATE VIEW v1 AS SELECT id, name FROM users": true, "postgres:CREATE VIEW v1 AS SELECT id, name FROM users WHERE age": true,
	"mssql:CREATE VIEW v1 AS SELECT id": true, "mssql:CREATE VIEW v1 AS SELECT id, name": true, "mssql:CREATE VIEW v1 AS SELECT id, name FROM users": true, "mssql:CREATE VIEW v1 AS SELECT id, name FROM users WHERE age": true,
	"sqlite:CREATE VIEW v1 AS SELECT id": true, "sqlite:CREATE VIEW v1 AS SELECT id, name": true, "sqlite:CREATE VIEW v1 AS SELECT id, name FROM users": true, "sqlite:CREATE VIEW v1 AS SELECT id, name FROM users WHERE age": true, "sqlite:CREATE VIEW v2 AS SELECT user_id": true,
}

// pieces are the tokens of a statement, each with the white space before it.
func pieces(d *dialect, s string) []string {
	tk, err := sqlx.Lex(s, d.d)
	if err != nil {
		panic(err)
	}
	var out []string
	at := 0
	for _, t := range tk {
		if t.K == sqlx.EOF {
			break
		}
		out = append(out, s[at:t.End])
		at = t.End
	}
	return out
}

func (b badCase) judge() []eng.Failure {
	cur := badStates(b.dia)[b.st]
	plan, err, pan := eng.Plan(b.dia.mode, b.file(), cur)
	if pan != "" {
		return fail("panic", "%s", pan)
	}
	if err == nil {
		return fail("accepted", "the file\n%sis accepted: %q", b.file(), plan)
	}
	if strings.TrimSpace(err.Error()) == "" {
		return fail("unexplained", "%s", b.file())
	}
	return nil
}

func everywhere(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return
}

// RunBad is the check of C11.
func RunBad(c *chk.Ctx) { bad(c, "") }

// OneBad runs one recorded case.
func OneBad(c *chk.Ctx, id string) { bad(c, id) }

func bad(c *chk.Ctx, only string) {
	var cs []badCase
	states := []string{"empty", "same", "more"}
	files, runs := c.Counter("files"), c.Counter("refused")
	report := func(id string, fs []eng.Failure) {
		if only != "" && only != id {
			return
		}
		for _, f := range fs {
			f.Case = id
			c.Fail(f)
		}
	}
	for i := range dialects {
		d := &dialects[i]
		for st, cur := range badStates(d) {
			if _, err, pan := eng.Plan(d.mode, strings.Join(d.base, ";\n"), cur); err != nil || pan != "" {
				report(d.name+":base:"+st, fail("good-refused", "%v%v", err, pan))
			}
		}
		for _, b := range badCases(d, states, everywhere) {
			if only == "" || b.id() == only {
				cs = append(cs, b)
			}
		}
	}
	c.Parallel(len(cs), func(w, i int) {
		c.Journal.Begin(w, cs[i].id())
		report(cs[i].id(), cs[i].judge())
		atomic.AddInt64(files, 1)
		atomic.AddInt64(runs, 1)
	})
	badMutants(c, only, report)
	badTools(c, only, report)
	if only != "" {
		return
	}
	c.Count("evaluations", *files)
	c.Count("distinct_nontrivial", *runs)
}

// badMutants changes one token of every statement, in its place in the file.
func badMutants(c *chk.Ctx, only string, report func(string, []eng.Failure)) {
	type mut struct {
		d    *dialect
		k    int
		m    string
		free bool
	}
	var ms []mut
	for i := range dialects {
		d := &dialects[i]
		for k, b := range d.base {
			for _, m := range mutants(d, b) {
				x := mut{d: d, k: k, m: m}
				if only == "" || only == mutID(d.name, m) {
					ms = append(ms, x)
				}
			}
		}
	}
	pool := make([]map[string]eng.System, c.Workers)
	for i := range pool {
		pool[i] = map[string]eng.System{}
	}
	defer func() {
		for _, m := range pool {
			for _, s := range m {
				s.Close()
			}
		}
	}()
	files, refused := c.Counter("files"), c.Counter("refused")
	c.Parallel(len(ms), func(w, i int) {
		x := ms[i]
		d := x.d
		id := mutID(d.name, x.m)
		c.Journal.Begin(w, id)
		atomic.AddInt64(files, 1)
		l := append([]string{}, d.base...)
		l[x.k] = x.m
		plan := func(l []string) error {
			_, err, pan := eng.Plan(d.mode, strings.Join(l, ";\n")+";\n", "")
			if pan != "" {
				report(id, fail("panic", "%s\n%s", x.m, pan))
			}
			return err
		}
		err := plan(l)
		if err != nil {
			atomic.AddInt64(refused, 1)
		} else if unbalanced(d, x.m) {
			report(id, fail("unbalanced-accepted", "%s", x.m))
			return
		} else if sqlparserRefuses(d, x.m) {
			report(id, fail("accepted-in-a-file", "%s", x.m))
			return
		}
		// other statements before, behind and on both sides don't change the verdict on one that is wrong by itself
		if sqlparserRefuses(d, x.m) {
			for _, l := range [][]string{{x.m}, append([]string{x.m}, d.base...), append(append([]string{}, d.base...), x.m), {"", x.m, ""}, {d.base[0], "", x.m}, {"-- x", x.m}, {"/* ; */", x.m, "-- ;\n"}} {
				if plan(l) == nil {
					report(id, fail("accepted-elsewhere", "%q", l))
					return
				}
			}
			return
		}
		if err != nil || lenient(d, d.base[x.k], x.m) {
			return
		}
		s := pool[w][d.name]
		if s == nil {
			if s = newSystem(d.name); s == nil {
				return
			}
			pool[w][d.name] = s
		}
		st := s.Empty(nil)
		for _, q := range l[:x.k+1] {
			if e := s.Exec(st, q); e != nil {
				if m := e.Error(); strings.Contains(m, "1064") || strings.Contains(m, ": syntax error") {
					report(id, fail("syntax-error-accepted", "%s\nthe server: %s", x.m, m))
				}
				return
			}
		}
	})
}

func mutID(d, m string) string { return fmt.Sprintf("mut:%s:%q", d, m) }

func newSystem(name string) eng.System {
	switch name {
	case "mysql":
		return sys.NewMySQL()
	case "postgres":
		return sys.NewPostgres()
	case "mssql":
		return sys.NewMSSQL()
	case "sqlite":
		return sys.NewSQLite()
	}
	return nil
}

// lenient are changes that give a statement of another server or one with table options, which are not looked at.
func lenient(d *dialect, was, m string) bool {
	if strings.HasPrefix(was, "CREATE TABLE") && strings.HasPrefix(m, was) {
		return true
	}
	if strings.HasPrefix(was, "CREATE TRIGGER") { // the model takes fewer bodies than the server
		return true
	}
	n := func(s string) int {
		return strings.Count(s, "'q'")*100 + strings.Count(s, "DEFAULT")*10 + strings.Count(s, "KEY") // words every dialect's parser takes
	}
	return n(was) != n(m)
}

// badTools runs the tools on bad files.
func badTools(c *chk.Ctx, only string, report func(string, []eng.Failure)) {
	w := newWorld(c, "mysqldef", "psqldef", "mssqldef", "sqlite3def")
	defer w.close()
	type run struct {
		badCase
		opt string
	}
	var rs []run
	for i := range dialects {
		d := &dialects[i]
		if d.name == "mssql" {
			continue
		}
		some := func(n int) []int {
			if c.Thorough {
				return everywhere(n)
			}
			return []int{0, n - 1}
		}
		for _, b := range badCases(d, []string{"empty", "more"}, some) {
			if b.kind == "cut" && !c.Thorough && b.st == "more" || b.kind == "twice" && b.at < len(b.list)-1 && !c.Thorough {
				continue
			}
			for _, o := range []string{"", "--dry-run", "--skip-drop"} {
				if !c.Thorough && o != "" && (b.st == "empty" || b.at == 0) {
					continue
				}
				r := run{b, o}
				if only == "" || only == "tool"+o+":"+b.id() {
					rs = append(rs, r)
				}
			}
		}
	}
	states := map[string]eng.State{}
	for i := range dialects {
		d := &dialects[i]
		if s := newSystem(d.name); s != nil {
			states[d.name+"empty"] = s.Empty(nil)
			st := s.Empty(nil)
			for _, q := range append(append([]string{}, d.base...), fmt.Sprintf(d.tbl, "other", "")) {
				if err := s.Exec(st, q); err != nil {
					panic(fmt.Sprint(d.name, q, err))
				}
			}
			states[d.name+"more"] = st
			s.Close()
		}
	}
	c.Parallel(len(rs), func(i, k int) {
		r := rs[k]
		id := "tool" + r.opt + ":" + r.id()
		c.Journal.Begin(i, id)
		t := w.target(i, r.dia.name)
		st := states[r.dia.name+r.st]
		t.Set(st)
		var opts []string
		if r.opt != "" {
			opts = []string{r.opt}
		}
		report(id, refused(t, st, w.run(i, t, opts, r.file(), k%2 == 0)))
	})
	if n := *c.Counter("tool_runs"); only == "" {
		c.Cov["runs_of_the_tools"] = n
	}
}

// refused is what a run with a bad file has to look like.
func refused(t Target, st eng.State, r Result) []eng.Failure {
	switch {
	case r.Timeout:
		return fail("hang", "%v", r)
	case r.Crashed():
		return fail("crash", "%v", r)
	case r.Exit == 0:
		return fail("success", "%v", r)
	case strings.TrimSpace(r.Err) == "":
		return fail("unexplained", "%v", r)
	case strings.Contains(r.Out, "-- Apply --") || strings.Contains(r.Out, "-- dry run --") || strings.Contains(r.Out, "-- Nothing is modified --"):
		return fail("result-shown", "%v", r)
	}
	if ev, ok := t.Sent(); ok {
		if q := Executed(ev); len(q) > 0 {
			return fail("writes", "%q\n%v", q, r)
		}
	}
	if !same(t, st) {
		return fail("changed", "%v", r)
	}
	return nil
}

// mutTokens replace or join the tokens of a statement.
var mutTokens = strings.Fields("( ) , = . ; 'q' 7 zz SELECT TABLE NOT NULL KEY AS ON DEFAULT CREATE DROP")

// mutants are all one-token changes of a statement.
func mutants(d *dialect, s string) (out []string) {
	seen := map[string]bool{s: true}
	tk := pieces(d, s)
	add := func(p []string) {
		m := strings.TrimSpace(strings.Join(p, ""))
		if m != "" && !seen[m] {
			seen[m] = true
			out = append(out, m)
		}
	}
	for i := range tk {
		cut := append(append([]string{}, tk[:i]...), tk[i+1:]...)
		add(cut)
		add(insert(tk, i, " "+strings.TrimSpace(tk[i])))
		if i+1 < len(tk) {
			sw := append([]string{}, tk...)
			sw[i], sw[i+1] = " "+strings.TrimSpace(tk[i+1]), " "+strings.TrimSpace(tk[i])
			add(sw)
		}
		for _, m := range mutTokens {
			if m == ";" {
				continue
			}
			add(insert(tk, i, " "+m+" "))
			add(insert(cut, i, " "+m+" "))
		}
	}
	for _, m := range mutTokens {
		add(append(append([]string{}, tk...), " "+m))
	}
	return
}

func sqlparserRefuses(d *dialect, s string) bool {
	_, err := sqlparser.ParseStrictDDLWithMode(s, d.pm)
	return err != nil
}

// unbalanced tells whether the parentheses don't match.
func unbalanced(d *dialect, s string) bool {
	tk, err := sqlx.Lex(s, d.d)
	if err != nil {
		return true
	}
	n := 0
	for _, t := range tk {
		if t.K == sqlx.Op && t.S == "(" {
			n++
		}
		if t.K == sqlx.Op && t.S == ")" {
			n--
			if n < 0 {
				return true
			}
		}
	}
	return n != 0
}
