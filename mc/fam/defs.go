package fam

import (
	"fmt"
	"strings"

	"mc/eng"
)

// intExprs are conditions on two integer columns: every comparison, every near miss of grouping and of literals.
func intExprs(a, b string) []string {
	var out []string
	for _, op := range []string{"=", "<>", "<", ">", "<=", ">="} {
		out = append(out, a+" "+op+" 1")
		if b != "" {
			out = append(out, a+" "+op+" "+b)
		}
	}
	for _, v := range []string{"0", "2", "10", "-1", "1.5", "1.50", "'1'", "100000000000", "1 + 1", "1 - 1"} {
		out = append(out, a+" = "+v)
	}
	out = append(out, a+" IS NULL", a+" IS NOT NULL", "NOT ("+a+" IS NULL)", "NOT ("+a+" = 1)", a+" <> -1", "- "+a+" = 1", "1 < "+a, "- (- "+a+") = 1")
	x, y, z := a+" > 1", a+" < 9", a+" = 5"
	if b != "" {
		y = b + " < 9"
	}
	out = append(out, groupings(x, y, z)...)
	out = append(out, arith(a, b)...)
	return append(out, a+" BETWEEN 1 AND 5", a+" NOT BETWEEN 1 AND 5", a+" BETWEEN 1 AND 6", a+" IN (1, 2)", a+" IN (1, 3)", a+" NOT IN (1, 2)", a+" IN (1)", a+" IN (1, 2, 3)",
		"coalesce("+a+", 1) = 1", "coalesce("+a+", 2) = 1", "abs("+a+") = 1", "CASE WHEN "+x+" THEN "+a+" ELSE 0 END = 1", "CASE WHEN "+x+" THEN "+a+" ELSE 1 END = 1", "CASE WHEN "+x+" THEN "+a+" END = 1", "CASE "+a+" WHEN 1 THEN 2 ELSE 3 END = 2")
}

// groupings are the ways to connect three conditions.
func groupings(x, y, z string) []string {
	var out []string
	for _, o1 := range []string{"AND", "OR"} {
		out = append(out, x+" "+o1+" "+y, y+" "+o1+" "+x, "NOT ("+x+" "+o1+" "+y+")", "(NOT ("+x+")) "+o1+" "+y)
		for _, o2 := range []string{"AND", "OR"} {
			out = append(out, "("+x+" "+o1+" "+y+") "+o2+" "+z, x+" "+o1+" ("+y+" "+o2+" "+z+")")
		}
	}
	return append(out, "NOT ("+x+") AND NOT ("+y+")", "NOT (NOT ("+x+"))")
}

func arith(a, b string) []string {
	if b == "" {
		b = "3"
	}
	var out []string
	for _, o1 := range []string{"+", "-", "*"} {
		for _, o2 := range []string{"+", "-", "*"} {
			out = append(out, "("+a+" "+o1+" "+b+") "+o2+" 2 > 3", a+" "+o1+" ("+b+" "+o2+" 2) > 3")
		}
	}
	return append(out, a+" / 2 > 3", a+" % 2 > 3", a+" + 1 > 2", a+" - 1 > 2", a+" - -1 > 2", a+" + -1 > 2")
}

// strExprs are conditions on a text column: every near miss of a literal.
func strExprs(s string) []string {
	var out []string
	for _, v := range Literals {
		out = append(out, s+" = "+v)
	}
	for _, op := range []string{"<>", "<", ">=", "LIKE", "NOT LIKE"} {
		out = append(out, s+" "+op+" 'x'")
	}
	return append(out, s+" LIKE 'X'", s+" LIKE 'x%'", s+" LIKE '%x'", s+" IN ('x', 'y')", s+" IN ('x', 'Y')", s+" IN ('x,y')", s+" IN ('x, y')", s+" IN ('x', ' y')", s+" IS NULL", s+" IS NOT NULL",
		"lower("+s+") = 'x'", "upper("+s+") = 'x'", "lower("+s+") = 'X'", "length("+s+") > 1", "length("+s+") > 2", "length(lower("+s+")) > 2", "coalesce("+s+", 'x') = 'x'", "coalesce("+s+", 'X') = 'x'",
		s+" = 'x' OR "+s+" = 'y'", s+" = 'x' OR "+s+" = 'Y'", s+" = 'x'' OR y = ''z'", s+" = 'x AND y'", s+" = 'x and y'", s+" = 'a\\' OR "+s+" = 'B'", s+" = 'a\\' OR "+s+" = 'b'", s+" = '(x)'", s+" = 'true'", s+" = 'now()'")
}

// Literals differ in what a comparison of texts may lose.
var Literals = []string{"'x'", "'X'", "' x'", "'x '", "'x y'", "'x  y'", "'xy'", "''", "'1'", "'null'", "'NULL'", "'it''s'", "'its'", "'''x'", "'x'''", "''''", "'\"x\"'", "'\"X\"'", "'`x`'", "'--x'", "'x;y'", "'/*x*/'", "'%s'", "'x''Y'", "'x''y'", "'a\tb'", "'a\nb'", "'é'", "'É'"}

// backslashes are literals PostgreSQL and SQLite take as they are and MySQL as escapes.
var backslashes = []string{`'a\\b'`, `'a\\B'`, `'\\'`, `'a\\'`, `'a\\'' B'`, `'a\\'' b'`, `'a\nb'`, `'a\tb'`, `'\''B'''`, `'\''b'''`}

type defs struct {
	b    *B
	out  *[]*eng.Family
	base string
	n    int
}

func newDefs(out *[]*eng.Family, name, base string, prelude ...string) *defs {
	d := &defs{b: New(name, prelude...), out: out, base: base}
	*out = append(*out, d.b.F())
	return d
}

func (d *defs) add(sql string) {
	d.b.Add(fmt.Sprintf("d%d", d.n), sql)
	d.n++
}

// Defs are the families of definitions, each explored in all ordered pairs: the tables and the bystanders are the same in all files of
// a family, one definition changes.
func Defs(system string, thorough bool) []*eng.Family {
	var out []*eng.Family
	view := func(name, base, other string, queries []string) {
		d := newDefs(&out, name, "")
		for _, q := range queries {
			d.add(base + "CREATE VIEW bystander AS " + other + ";\nCREATE VIEW v AS " + q + ";\n")
		}
	}
	switch system {
	case "mysql":
		base := Tbl("t", "id int NOT NULL", "a int", "b int", "s varchar(20)") + Tbl("u", "id int NOT NULL", "a int")
		var w, it []string
		for _, e := range append(intExprs("a", "b"), append(strExprs("s"), eqs("s", backslashes)...)...) {
			w = append(w, "select id from t where "+e)
		}
		for _, e := range items("a", "b", "s") {
			it = append(it, "select "+e+" as x from t")
		}
		other := "select id from t where a = 1"
		view("my.def.where", base, other, w)
		view("my.def.item", base, other, it)
		view("my.def.query", base, other, queries("mysql"))
		// triggers
		tb := Tbl("t", "id int NOT NULL", "a int", "s varchar(20)") + Tbl("logs", "id int NOT NULL", "log varchar(20)")
		d := newDefs(&out, "my.def.trigger", tb)
		trig := func(time, event, table, body string) {
			d.add(tb + "CREATE TRIGGER bystander AFTER DELETE ON logs FOR EACH ROW insert into t(id) values (1);\nCREATE TRIGGER tg " + time + " " + event + " ON " + table + " FOR EACH ROW " + body + ";\n")
		}
		for _, time := range []string{"BEFORE", "AFTER"} {
			for _, event := range []string{"INSERT", "UPDATE", "DELETE"} {
				for _, table := range []string{"t", "logs"} {
					to := "logs"
					if table == "logs" {
						to = "t"
					}
					trig(time, event, table, "insert into "+to+"(id) values (1)")
				}
			}
		}
		for _, l := range Literals {
			trig("AFTER", "INSERT", "t", "insert into logs(log) values ("+l+")")
		}
		for _, b := range []string{"insert into logs(id, log) values (1, 'x')", "insert into logs(log, id) values ('x', 1)", "insert into logs(id, log) values (1, 'x'), (2, 'y')", "insert into logs(id) values (2)", "insert into logs(id) values (-1)", "insert into logs(id) values (NEW.id)", "insert into logs(id) values (NEW.a)",
			"insert into logs(id) values (NEW.id + 1)", "insert into logs(id) select id from t", "insert into logs(id) select a from t", "insert into logs(id) select id from t where a = 1", "delete from logs where id = 1", "delete from logs where id = 2", "delete from logs", "update logs set id = 1", "update logs set id = 2", "update logs set id = 1 where id = 2", "update logs set log = 'x', id = 1"} {
			trig("AFTER", "INSERT", "t", b)
		}
		// defaults
		for _, c := range []struct {
			n, typ string
			vals   []string
		}{
			{"int", "int", []string{"", "DEFAULT 0", "DEFAULT 1", "DEFAULT -1", "DEFAULT 10", "DEFAULT '2'", "DEFAULT NULL"}},
			{"varchar", "varchar(20)", append([]string{"", "DEFAULT NULL", "DEFAULT 1"}, prefix("DEFAULT ", append(append([]string{}, Literals...), backslashes...))...)},
			{"decimal", "decimal(6,2)", []string{"", "DEFAULT 0", "DEFAULT 0.00", "DEFAULT 1.5", "DEFAULT 1.50", "DEFAULT 1.51", "DEFAULT -1.5", "DEFAULT 15", "DEFAULT '1.5'"}},
			{"datetime", "datetime", []string{"", "DEFAULT CURRENT_TIMESTAMP", "DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", "DEFAULT '2020-01-01 00:00:00'", "DEFAULT '2020-01-02 00:00:00'", "ON UPDATE CURRENT_TIMESTAMP"}},
			{"datetime6", "datetime(6)", []string{"", "DEFAULT CURRENT_TIMESTAMP(6)", "DEFAULT CURRENT_TIMESTAMP(6) ON UPDATE CURRENT_TIMESTAMP(6)", "DEFAULT '2020-01-01 00:00:00.000000'"}},
			{"enum", "enum('x','X y','it''s')", []string{"", "DEFAULT 'x'", "DEFAULT 'X y'", "DEFAULT 'it''s'"}},
			{"bit", "bit(8)", []string{"", "DEFAULT b'0'", "DEFAULT b'1'", "DEFAULT b'101'"}},
		} {
			d := newDefs(&out, "my.def.default."+c.n, "")
			for _, v := range c.vals {
				for _, nn := range []string{"", " NOT NULL"} {
					if nn != "" && v == "DEFAULT NULL" {
						continue
					}
					d.add(Tbl("t", "id int NOT NULL", "o "+c.typ, "x "+c.typ+nn+" "+v))
				}
			}
		}
		fkrules(&out, "my.def.fk", "KEY k (u_id)", []string{"", "RESTRICT", "CASCADE", "SET NULL", "NO ACTION"})
		indexes(&out, "my.def.index", system)
	case "postgres":
		cols := []string{"id int NOT NULL", "a int", "b int", "s text", "v varchar(10)", "\"S\" text", "f boolean"}
		base := Tbl("t", cols...) + Tbl("u", "id int NOT NULL", "a int")
		conds := append(intExprs("a", "b"), strExprs("s")...)
		conds = append(conds, eqs("s", backslashes)...)
		conds = append(conds, "\"S\" = 'x'", "\"S\" = s", "s = \"S\"", "\"S\" = \"S\"", "v = 'x'", "v = 'X'", "v = s", "(a)::text = 'x'", "a = (s)::int", "(a)::bigint = 1", "s = ('x')::text", "(s)::varchar = 'x'", "f", "NOT f", "f = true", "f IS TRUE", "f IS NOT TRUE", "f IS FALSE", "s ILIKE 'x'", "s ~ 'x'", "s ~* 'x'",
			"s ~ 'X'", "a IS DISTINCT FROM b", "a = ANY (ARRAY[1, 2])", "a = ANY (ARRAY[1, 3])", "a <> ALL (ARRAY[1, 2])", "current_user = s", "true", "false", "now() > '2020-01-01 00:00:00+00'")
		var w, it []string
		for _, e := range conds {
			w = append(w, "SELECT t.id FROM t WHERE ("+e+")")
		}
		for _, e := range items("a", "b", "s") {
			it = append(it, "SELECT "+e+" AS x FROM t")
		}
		other := "SELECT t.id FROM t WHERE (t.a = 1)"
		view("pg.def.where", base, other, w)
		view("pg.def.item", base, other, it)
		view("pg.def.query", base, other, queries("postgres"))
		d := newDefs(&out, "pg.def.using", "")
		for _, e := range conds {
			d.add(base + "CREATE POLICY bystander ON t AS PERMISSIVE FOR ALL TO PUBLIC USING ((a = 1));\nCREATE POLICY p ON t AS PERMISSIVE FOR ALL TO PUBLIC USING (" + e + ");\n")
		}
		d = newDefs(&out, "pg.def.withcheck", "")
		for i, e := range conds {
			if i%3 == 0 || thorough {
				d.add(base + "CREATE POLICY bystander ON t AS PERMISSIVE FOR ALL TO PUBLIC USING ((a = 1));\nCREATE POLICY p ON t AS PERMISSIVE FOR INSERT TO PUBLIC WITH CHECK (" + e + ");\n")
			}
		}
		d = newDefs(&out, "pg.def.policy", "", "CREATE ROLE alice", "CREATE ROLE bob", "CREATE ROLE \"Bob\"")
		for _, as := range []string{"PERMISSIVE", "RESTRICTIVE"} {
			for _, cmd := range []string{"ALL", "SELECT", "INSERT", "UPDATE", "DELETE"} {
				for _, to := range []string{"PUBLIC", "alice", "bob", "\"Bob\"", "alice, bob", "alice, \"Bob\""} {
					for k, e := range []string{" USING ((a = 1))", " WITH CHECK ((a = 1))", " USING ((a = 1)) WITH CHECK ((a = 1))", " USING ((a = 1)) WITH CHECK ((a = 2))"} {
						if cmd == "INSERT" && k != 1 || (cmd == "SELECT" || cmd == "DELETE") && k != 0 || !thorough && k == 3 || !thorough && to == "alice, \"Bob\"" {
							continue
						}
						d.add(base + "CREATE POLICY p ON u AS PERMISSIVE FOR ALL TO PUBLIC USING ((a = 1));\nCREATE POLICY p ON t AS " + as + " FOR " + cmd + " TO " + to + e + ";\n")
					}
				}
			}
		}
		// checks
		d = newDefs(&out, "pg.def.checkint", "")
		for _, e := range intExprs("a", "") {
			d.add(Tbl("t", "id int NOT NULL", "o int CHECK (o > 1)", "a int CHECK ("+e+")"))
		}
		d = newDefs(&out, "pg.def.checktext", "")
		for _, e := range append(strExprs("s"), eqs("s", backslashes)...) {
			d.add(Tbl("t", "id int NOT NULL", "o text CHECK (o = 'x'::text)", "s text CHECK ("+e+")"))
		}
		d = newDefs(&out, "pg.def.indexwhere", "")
		for _, e := range conds {
			d.add(base + "CREATE INDEX bystander ON t (a) WHERE (a = 1);\nCREATE INDEX i ON t (a) WHERE (" + e + ");\n")
		}
		for _, c := range []struct {
			n, typ string
			vals   []string
		}{
			{"int", "int", []string{"", "DEFAULT 0", "DEFAULT 1", "DEFAULT -1", "DEFAULT 10", "DEFAULT NULL", "DEFAULT 1.0"}},
			{"text", "text", append([]string{"", "DEFAULT NULL", "DEFAULT now()", "DEFAULT CURRENT_USER"}, prefix("DEFAULT ", append(append([]string{}, Literals...), backslashes...))...)},
			{"varchar", "varchar(20)", append([]string{"", "DEFAULT NULL", "DEFAULT 1"}, prefix("DEFAULT ", Literals)...)},
			{"numeric", "numeric(6,2)", []string{"", "DEFAULT 0", "DEFAULT 0.00", "DEFAULT 1.5", "DEFAULT 1.50", "DEFAULT 1.51", "DEFAULT -1.5", "DEFAULT 15"}},
			{"timestamp", "timestamp", []string{"", "DEFAULT CURRENT_TIMESTAMP", "DEFAULT now()", "DEFAULT '2020-01-01 00:00:00'", "DEFAULT '2020-01-02 00:00:00'"}},
			{"boolean", "boolean", []string{"", "DEFAULT true", "DEFAULT false", "DEFAULT NULL"}},
			{"jsonb", "jsonb", []string{"", "DEFAULT '{}'", "DEFAULT '[]'", "DEFAULT '{\"a\": 1}'", "DEFAULT '{\"A\": 1}'", "DEFAULT '{}'::jsonb"}},
		} {
			d := newDefs(&out, "pg.def.default."+c.n, "")
			for _, v := range c.vals {
				for _, nn := range []string{"", " NOT NULL"} {
					if nn != "" && v == "DEFAULT NULL" {
						continue
					}
					d.add(Tbl("t", "id int NOT NULL", "o "+c.typ, "x "+c.typ+nn+" "+v))
				}
			}
		}
		fkrules(&out, "pg.def.fk", "", []string{"", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT", "NO ACTION"})
		indexes(&out, "pg.def.index", system)
	case "mssql":
		base := Tbl("t", "id int NOT NULL", "a int", "b int", "s varchar(20)") + Tbl("u", "id int NOT NULL", "a int")
		var w, it []string
		for _, e := range append(intExprs("a", "b"), append(strExprs("s"), eqs("s", backslashes)...)...) {
			w = append(w, "select id from t where "+e)
		}
		for _, e := range items("a", "b", "s") {
			it = append(it, "select "+e+" as x from t")
		}
		other := "select id from t where a = 1"
		view("ms.def.where", base, other, w)
		view("ms.def.item", base, other, it)
		view("ms.def.query", base, other, queries("mssql"))
		tb := Tbl("t", "id int NOT NULL", "a int", "s varchar(20)") + Tbl("logs", "id int NOT NULL", "log varchar(20)")
		d := newDefs(&out, "ms.def.trigger", tb)
		trig := func(event, table, body string) {
			d.add(tb + "CREATE TRIGGER bystander ON logs AFTER DELETE AS insert into t(id) values (1);\nCREATE TRIGGER tg ON " + table + " AFTER " + event + " AS " + body + ";\n")
		}
		for _, event := range []string{"INSERT", "UPDATE", "DELETE"} {
			trig(event, "t", "insert into logs(id) values (1)")
			trig(event, "logs", "insert into t(id) values (1)")
		}
		for _, l := range Literals {
			trig("INSERT", "t", "insert into logs(log) values ("+l+")")
		}
		for _, b := range []string{"insert into logs(id, log) values (1, 'x')", "insert into logs(log, id) values ('x', 1)", "insert into logs(id, log) values (1, 'x'), (2, 'y')", "insert into logs(id) values (2)", "insert into logs(id) values (-1)", "insert into logs(id) select id from t", "insert into logs(id) select a from t", "insert into logs(id) select id from inserted", "insert into logs(id) select id from t where a = 1", "delete from logs where id = 1", "delete from logs where id = 2", "delete from logs", "update logs set id = 1", "update logs set id = 2", "update logs set id = 1 where id = 2", "update logs set log = 'x', id = 1"} {
			trig("INSERT", "t", b)
		}
		d = newDefs(&out, "ms.def.checkint", "")
		for _, e := range intExprs("a", "") {
			d.add(Tbl("t", "id int NOT NULL", "o int CHECK (o > 1)", "a int CHECK ("+e+")"))
		}
		d = newDefs(&out, "ms.def.checktext", "")
		for _, e := range append(strExprs("s"), eqs("s", backslashes)...) {
			d.add(Tbl("t", "id int NOT NULL", "o varchar(20) CHECK (o = 'x')", "s varchar(20) CHECK ("+e+")"))
		}
		for _, c := range []struct {
			n, typ string
			vals   []string
		}{
			{"int", "int", []string{"", "DEFAULT 0", "DEFAULT 1", "DEFAULT -1", "DEFAULT 10", "DEFAULT NULL"}},
			{"varchar", "varchar(20)", append([]string{"", "DEFAULT NULL"}, prefix("DEFAULT ", append(append([]string{}, Literals...), backslashes...))...)},
			{"decimal", "decimal(6,2)", []string{"", "DEFAULT 0", "DEFAULT 1.5", "DEFAULT 1.51", "DEFAULT -1.5", "DEFAULT 15"}},
			{"datetime", "datetime", []string{"", "DEFAULT CURRENT_TIMESTAMP", "DEFAULT getdate()", "DEFAULT '2020-01-01 00:00:00'", "DEFAULT '2020-01-02 00:00:00'"}},
			{"bit", "bit", []string{"", "DEFAULT 0", "DEFAULT 1"}},
		} {
			for _, nn := range []string{"", " NOT NULL"} { // a column that is there keeps its NULL or NOT NULL
				d := newDefs(&out, "ms.def.default."+c.n+strings.Replace(nn, " ", "", -1), "")
				for _, v := range c.vals {
					if nn != "" && v == "DEFAULT NULL" {
						continue
					}
					d.add(Tbl("t", "id int NOT NULL", "o "+c.typ, "x "+c.typ+nn+" "+v))
				}
			}
		}
		fkrules(&out, "ms.def.fk", "", []string{"", "CASCADE", "SET NULL", "SET DEFAULT", "NO ACTION"})
		d = newDefs(&out, "ms.def.index", "")
		for _, kind := range []string{"", "UNIQUE ", "CLUSTERED ", "UNIQUE CLUSTERED ", "NONCLUSTERED "} {
			for _, cols := range []string{"a", "b", "a, b", "b, a", "a, b, c", "c, b, a", "a DESC", "a DESC, b", "a, b DESC", "a DESC, b DESC", "s"} {
				for _, tail := range []string{"", " INCLUDE (d)", " INCLUDE (e)", " INCLUDE (d, e)", " INCLUDE (e, d)", " WITH (PAD_INDEX = ON)", " WITH (FILLFACTOR = 10)", " WITH (FILLFACTOR = 20)"} {
					if strings.Contains(kind, "CLUSTERED ") && !strings.Contains(kind, "NON") && strings.Contains(tail, "INCLUDE") || tail != "" && len(cols) > 4 {
						continue
					}
					d.add(Tbl("t", "id int NOT NULL", "a int", "b int", "c int", "d int", "e int", "s varchar(20)") + "CREATE INDEX o ON t (a, b);\nCREATE " + kind + "INDEX i ON t (" + cols + ")" + tail + ";\n")
				}
			}
		}
	case "sqlite":
		base := Tbl("t", "id integer NOT NULL", "a integer", "b integer", "s text") + Tbl("u", "id integer NOT NULL", "a integer")
		var w, it []string
		for _, e := range append(intExprs("a", "b"), append(strExprs("s"), eqs("s", backslashes)...)...) {
			w = append(w, "select id from t where "+e)
		}
		for _, e := range items("a", "b", "s") {
			it = append(it, "select "+e+" as x from t")
		}
		other := "select id from t where a = 1"
		view("sq.def.where", base, other, w)
		view("sq.def.item", base, other, it)
		view("sq.def.query", base, other, queries("sqlite"))
	}
	return out
}

func prefix(p string, xs []string) []string {
	var out []string
	for _, x := range xs {
		out = append(out, p+x)
	}
	return out
}

func eqs(s string, ls []string) []string { return prefix(s+" = ", ls) }

func items(a, b, s string) []string {
	out := []string{a, b, s, "1", "-1", "1.5", "NULL", a + " + 1", a + " - 1", "- " + a, "count(*)", "count(" + a + ")", "count(" + b + ")", "count(DISTINCT " + a + ")", "sum(" + a + ")", "min(" + a + ")", "max(" + a + ")", "min(" + b + ")",
		"coalesce(" + a + ", " + b + ")", "coalesce(" + b + ", " + a + ")", "lower(" + s + ")", "upper(" + s + ")", "length(" + s + ")", "CASE WHEN " + a + " = 1 THEN 'x' ELSE 'y' END", "CASE WHEN " + a + " = 1 THEN 'X' ELSE 'y' END", "CASE WHEN " + a + " = 1 THEN 'x' END", "(SELECT max(u.a) FROM u)", "(SELECT min(u.a) FROM u)"}
	for _, o1 := range []string{"+", "-", "*"} {
		for _, o2 := range []string{"+", "-", "*"} {
			out = append(out, "("+a+" "+o1+" "+b+") "+o2+" 2", a+" "+o1+" ("+b+" "+o2+" 2)")
		}
	}
	for _, l := range Literals {
		out = append(out, l)
	}
	return out
}

// queries differ in clauses, joins, order, aliases and set operations.
func queries(system string) []string {
	out := []string{}
	for _, x := range []string{
		"SELECT t.id FROM t", "SELECT t.a FROM t", "SELECT t.id, t.a FROM t", "SELECT t.a, t.id FROM t", "SELECT t.id AS x FROM t", "SELECT t.id AS y FROM t", "SELECT x.id FROM t x", "SELECT u.id FROM u", "SELECT DISTINCT t.id FROM t", "SELECT DISTINCT t.a FROM t",
		"SELECT t.id, u.a FROM (t JOIN u ON ((t.id = u.id)))", "SELECT t.id, u.a FROM (t LEFT JOIN u ON ((t.id = u.id)))", "SELECT t.id, u.a FROM (t JOIN u ON ((t.a = u.id)))", "SELECT t.id, u.a FROM (t JOIN u ON ((t.id = u.a)))", "SELECT t.id, u.a FROM (u JOIN t ON ((t.id = u.id)))", "SELECT x.id, y.a FROM (t x JOIN t y ON ((x.id = y.a)))", "SELECT x.id, y.a FROM (t x JOIN t y ON ((y.id = x.a)))",
		"SELECT t.id, u.a FROM t, u", "SELECT t.id, u.a FROM t, u WHERE (t.id = u.id)", "SELECT t.id, u.a FROM (t JOIN u ON ((t.id = u.id))) WHERE (t.a = 1)", "SELECT t.id, u.a FROM (t JOIN u ON (((t.id = u.id) AND (t.a = 1))))",
		"SELECT t.id FROM t ORDER BY t.id", "SELECT t.id FROM t ORDER BY t.id DESC", "SELECT t.id FROM t ORDER BY t.a", "SELECT t.id FROM t ORDER BY t.id, t.a", "SELECT t.id FROM t ORDER BY t.a, t.id", "SELECT t.id FROM t ORDER BY t.id DESC, t.a", "SELECT t.id FROM t ORDER BY t.id, t.a DESC",
		"SELECT t.id FROM t LIMIT 1", "SELECT t.id FROM t LIMIT 2", "SELECT t.id FROM t LIMIT 10", "SELECT t.id FROM t LIMIT 1 OFFSET 1", "SELECT t.id FROM t LIMIT 1 OFFSET 2", "SELECT t.id FROM t LIMIT 2 OFFSET 1", "SELECT t.id FROM t ORDER BY t.id LIMIT 1", "SELECT t.id FROM t WHERE (t.a = 1) ORDER BY t.id LIMIT 1",
		"SELECT t.a, count(*) AS n FROM t GROUP BY t.a", "SELECT t.a, count(*) AS n FROM t GROUP BY t.a HAVING (count(*) > 1)", "SELECT t.a, count(*) AS n FROM t GROUP BY t.a HAVING (count(*) > 2)", "SELECT t.a, count(t.b) AS n FROM t GROUP BY t.a", "SELECT t.a, count(DISTINCT t.b) AS n FROM t GROUP BY t.a", "SELECT t.a, t.b FROM t GROUP BY t.a, t.b", "SELECT t.a, t.b FROM t GROUP BY t.b, t.a", "SELECT t.b AS a, count(*) AS n FROM t GROUP BY t.b", "SELECT t.a, sum(t.b) AS n FROM t GROUP BY t.a",
		"SELECT t.a FROM t WHERE (t.b = 1) GROUP BY t.a", "SELECT t.id FROM t UNION SELECT u.id FROM u", "SELECT t.id FROM t UNION ALL SELECT u.id FROM u", "SELECT t.id FROM t UNION SELECT u.a FROM u", "SELECT u.id FROM u UNION SELECT t.id FROM t", "SELECT t.id FROM t UNION SELECT u.id FROM u UNION SELECT t.a FROM t", "SELECT t.id FROM t UNION ALL SELECT u.id FROM u UNION SELECT t.a FROM t",
		"SELECT t.id FROM t WHERE (t.a IN ( SELECT u.a FROM u))", "SELECT t.id FROM t WHERE (NOT (t.a IN ( SELECT u.a FROM u)))", "SELECT t.id FROM t WHERE (t.a IN ( SELECT u.id FROM u))", "SELECT t.id FROM t WHERE (EXISTS ( SELECT u.a FROM u WHERE (u.id = t.id)))", "SELECT t.id FROM t WHERE (NOT (EXISTS ( SELECT u.a FROM u WHERE (u.id = t.id))))", "SELECT t.id FROM t WHERE (EXISTS ( SELECT u.a FROM u WHERE (u.id = t.a)))",
		"SELECT x.id FROM ( SELECT t.id FROM t) x", "SELECT x.id FROM ( SELECT t.id FROM t WHERE (t.a = 1)) x", "SELECT x.id FROM ( SELECT u.id FROM u) x", "SELECT t.id FROM t WHERE (t.a = ( SELECT max(u.a) FROM u))", "SELECT t.id FROM t WHERE (t.a = ( SELECT min(u.a) FROM u))", "SELECT * FROM t", "SELECT t.* FROM t", "SELECT t.id, t.* FROM t", "SELECT 1 AS x", "SELECT 2 AS x",
	} {
		if system != "postgres" {
			x = strings.Replace(x, "( SELECT", "(SELECT", -1)
		}
		out = append(out, x)
	}
	return out
}

func fkrules(out *[]*eng.Family, name, key string, acts []string) {
	d := newDefs(out, name, "")
	users := Tbl("u", "id bigint NOT NULL PRIMARY KEY") + Tbl("w", "id bigint NOT NULL PRIMARY KEY")
	key2 := strings.Replace(key, "k (u_id)", "k2 (o_id)", 1)
	rule := func(on, a string) string {
		if a == "" {
			return ""
		}
		return " ON " + on + " " + a
	}
	for _, del := range acts {
		for _, up := range acts {
			d.add(users + Tbl("t", "id bigint NOT NULL", "u_id bigint", "o_id bigint", key, key2, "CONSTRAINT f FOREIGN KEY (u_id) REFERENCES u (id)"+rule("DELETE", del)+rule("UPDATE", up), "CONSTRAINT g FOREIGN KEY (o_id) REFERENCES u (id)"))
		}
		for _, ref := range []string{"(o_id) REFERENCES u (id)", "(u_id) REFERENCES w (id)", "(o_id) REFERENCES w (id)"} {
			d.add(users + Tbl("t", "id bigint NOT NULL", "u_id bigint", "o_id bigint", key, key2, "CONSTRAINT f FOREIGN KEY "+ref+rule("DELETE", del), "CONSTRAINT g FOREIGN KEY (o_id) REFERENCES u (id)"))
		}
	}
}

func indexes(out *[]*eng.Family, name, system string) {
	d := newDefs(out, name, "")
	for _, uniq := range []string{"", "UNIQUE "} {
		for _, cols := range []string{"a", "b", "a, b", "b, a", "a, b, c", "a, c", "c, b, a", "a DESC", "a DESC, b", "a, b DESC", "a DESC, b DESC", "s(5)", "s(6)", "s(5), a", "a, s(5)", "a, s", "s"} {
			for _, tail := range []string{"", " WHERE (a = 1)", " WHERE (a = 2)", " WHERE (b = 1)"} {
				if system == "mysql" && (tail != "" || strings.Contains(cols, "DESC")) || system == "postgres" && strings.Contains(cols, "s(") {
					continue
				}
				t := Tbl("t", "id int NOT NULL", "a int", "b int", "c int", "s varchar(20)")
				d.add(t + "CREATE INDEX o ON t (a, b);\nCREATE " + uniq + "INDEX i ON t (" + cols + ")" + tail + ";\n")
			}
		}
	}
	if system == "postgres" {
		for _, m := range []string{"hash (a)", "hash (b)", "btree (a)", "gin (j)", "gist (p)", "brin (a)"} {
			d.add(Tbl("t", "id int NOT NULL", "a int", "b int", "c int", "s varchar(20)", "j jsonb", "p point") + "CREATE INDEX o ON t (a, b);\nCREATE INDEX i ON t USING " + m + ";\n")
		}
	}
}
