package fam

import (
	"fmt"
	"strings"

	"mc/eng"
)

// SQLite families.
func SQLite(thorough bool) []*eng.Family {
	var out []*eng.Family
	add := func(b *B) { out = append(out, b.F()) }
	// column subsets and orders
	{
		b := New("sq.columns")
		def := map[string]string{"a": "a integer", "b": "b text DEFAULT 'x'", "c": "c varchar(20)", "d": "d int NOT NULL DEFAULT 7"}
		for _, p := range Perms([]string{"a", "b", "c", "d"}, 0) {
			if len(p) == 4 && !thorough {
				continue
			}
			cs := []string{"id integer PRIMARY KEY"}
			for _, c := range p {
				cs = append(cs, def[c])
			}
			b.Add(join(p), Tbl("t", cs...))
		}
		add(b)
	}
	// added columns of every shape
	{
		b := New("sq.addtypes")
		cols := []string{"x int", "x integer", "x text", "x real", "x numeric", "x blob", "x varchar(20)", "x char(10)", "x decimal(10,2)", "x boolean", "x bigint", "x smallint", "x double precision", "x float", "x datetime", "x date", "x timestamp", "x time",
			"x int DEFAULT 1", "x int DEFAULT -1", "x int DEFAULT 0", "x int NOT NULL DEFAULT 5", "x text DEFAULT 'a'", "x text DEFAULT ''", "x text DEFAULT 'it''s'", "x text DEFAULT 'A b'", "x text DEFAULT NULL", "x text NULL", "x real DEFAULT 1.5", "x real DEFAULT 0.25", "x text NOT NULL DEFAULT 'n'",
			"x text DEFAULT '1'", "x text DEFAULT 'new\nline'"}
		b.Add("none", Tbl("t", "id integer PRIMARY KEY"))
		for i, c := range cols {
			b.Add(fmt.Sprintf("%d_%s", i, strings.Replace(strings.TrimPrefix(c, "x "), " ", "_", -1)), Tbl("t", "id integer PRIMARY KEY", c))
		}
		b.F().Skip = func(a, c string) bool { return a != "none" && c != "none" && a != c } // changing a column is not supported
		add(b)
	}
	// a backslash in a literal
	{
		b := New("sq.backslash")
		b.Add("none", Tbl("t", "id integer PRIMARY KEY"))
		b.Add("slash", Tbl("t", "id integer PRIMARY KEY", "x text DEFAULT 'back\\slash'"))
		add(b)
	}
	// tables
	{
		b := New("sq.tables")
		ts := map[string]string{
			"a": Tbl("a", "id integer PRIMARY KEY AUTOINCREMENT", "x int"),
			"b": Tbl("b", "id integer NOT NULL", "x text", "PRIMARY KEY (id)"),
			"c": Tbl("c", "x int", "y int", "PRIMARY KEY (x, y)"),
			"d": Tbl("`d d`", "x int UNIQUE", "`select` int"),
			"e": Tbl("sqlitetable", "x int"),
		}
		names := []string{"a", "b", "c"}
		if thorough {
			names = append(names, "d")
		}
		for _, p := range Perms(names, 0) {
			s := ""
			for _, t := range p {
				s += ts[t]
			}
			b.Add(join(p), s)
		}
		b.Add("d", ts["d"])
		b.Add("a.d", ts["a"]+ts["d"])
		b.Add("d.b", ts["d"]+ts["b"])
		b.Add("e", ts["e"])
		b.Add("a.e", ts["a"]+ts["e"])
		add(b)
	}
	// tables and columns together, with views
	{
		b := New("sq.mixed")
		t1 := []string{"", Tbl("t", "id integer PRIMARY KEY", "a int"), Tbl("t", "id integer PRIMARY KEY", "a int", "b text"), Tbl("t", "id integer PRIMARY KEY", "b text")}
		u1 := []string{"", Tbl("u", "id integer PRIMARY KEY", "k int"), Tbl("u", "id integer PRIMARY KEY", "k int", "l text DEFAULT 'q'")}
		vs := []string{"", "CREATE VIEW v AS SELECT id FROM t;\n", "CREATE VIEW v AS SELECT id, id + 1 AS n FROM t;\n", "CREATE VIEW v AS SELECT id FROM t WHERE id > 5;\n"}
		ws := []string{"", "CREATE VIEW w AS SELECT k FROM u;\n"}
		Prod([]int{4, 3, 4, 2}, func(ix []int) {
			if ix[2] > 0 && ix[0] == 0 || ix[3] > 0 && ix[1] == 0 {
				return
			}
			b.Add(id(ix), t1[ix[0]]+u1[ix[1]]+vs[ix[2]]+ws[ix[3]])
			if ix[0] > 0 && ix[1] > 0 && (thorough || ix[2] == 0) {
				b.Add(id(ix)+"r", u1[ix[1]]+t1[ix[0]]+vs[ix[2]]+ws[ix[3]])
			}
		})
		if !thorough {
			b.F().Depth = 1
		}
		add(b)
	}
	// views
	{
		b := New("sq.view")
		base := Tbl("users", "id integer PRIMARY KEY", "name text", "age int") + Tbl("posts", "id integer PRIMARY KEY", "user_id int", "is_deleted int")
		b.Add("none", base)
		b.Add("empty", "")
		for i, v := range []string{
			"select id from users", "select id, name from users", "select id as uid from users", "select id from users where age = 1", "select id from users where age = 2",
			"select id from users where age > 1 and age < 9", "select id from users where age > 1 or age < 9", "select id from users where not (age > 1 and id = 3)", "select id from users where (age > 1 or id = 2) and id = 3",
			"select u.id, p.id as post_id from users as u join posts as p on u.id = p.user_id", "select u.id, p.id as post_id from users as u left join posts as p on u.id = p.user_id",
			"select u.id, p.id as post_id from users as u inner join posts as p on u.id = p.user_id and p.is_deleted = 0",
			"select distinct age from users", "select id from users order by id desc", "select id from users order by id", "select id from users limit 5", "select age, count(*) as n from users group by age", "select age, count(*) as n from users group by age having count(*) > 1",
			"select id from users where name = 'a'", "select id from users where name = 'b'", "select id from users union select id from posts", "select id from users union all select id from posts",
			"select id from users where id in (select user_id from posts)", "select id - 1 - 2 as n from users", "select id - (1 - 2) as n from users", "select case when age > 1 then 'x' else 'y' end as k from users",
		} {
			b.Add(fmt.Sprintf("v%d", i), base+"CREATE VIEW foo AS "+v+";\n")
		}
		b.Add("two", base+"CREATE VIEW foo AS select id from users;\nCREATE VIEW bar AS select name from users;\n")
		b.Add("bar", base+"CREATE VIEW bar AS select id from users;\n")
		add(b)
	}
	return out
}
