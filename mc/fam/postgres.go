package fam

import (
	"fmt"
	"strings"

	"mc/eng"
)

func u(s string) string { return strings.Replace(s, " ", "_", -1) }

// Postgres families.  thorough widens the products.
func Postgres(thorough bool) []*eng.Family {
	var out []*eng.Family
	add := func(b *B) { out = append(out, b.F()) }

	// columns come, go and move
	{
		b := New("pg.cols")
		def := map[string]string{"a": "a int NOT NULL", "b": "b varchar(20)", "c": "c bigint DEFAULT 5", "d": "d date"}
		names := []string{"a", "b", "c"}
		if thorough {
			names = append(names, "d")
		}
		for _, p := range Perms(names, 0) {
			var cs []string
			for _, c := range p {
				cs = append(cs, def[c])
			}
			b.Add("id_"+join(p), Tbl("t", append([]string{"id int NOT NULL"}, cs...)...))
		}
		for _, p := range Subsets(names) {
			if len(p) < 1 {
				continue
			}
			var cs []string
			for _, c := range p {
				cs = append(cs, def[c])
			}
			b.Add("nid_"+join(p), Tbl("t", cs...))
		}
		add(b)
	}
	// types: every pair inside a group can be changed by the server without a USING clause
	for gi, g := range [][]string{
		{"smallint", "integer", "int", "bigint", "numeric", "numeric(10,2)", "numeric(10)", "numeric(12,2)", "decimal(10,3)", "real", "double precision"},
		{"varchar(10)", "varchar(20)", "varchar", "character varying(30)", "character varying", "char(10)", "char(12)", "character(12)", "text"},
		{"timestamp", "timestamp without time zone", "timestamp with time zone", "date"},
		{"timestamp(3)", "timestamp(6)", "timestamp(0) with time zone", "timestamp(3) with time zone"},
		{"time", "time without time zone", "time with time zone", "time(3)"},
		{"json", "jsonb"}, {"uuid"}, {"boolean", "bool"}, {"bit(1)", "bit(8)"}, {"bit", "bit(3)"}, {"citext", "text", "varchar(20)"},
		{"integer[]", "bigint[]", "smallint[]"}, {"text[]", "varchar(10)[]", "character varying[]"}, {"timestamp[]", "date[]"},
		{"uuid[]"}, {"jsonb[]"}, {"boolean[]"}, {"time[]", "time with time zone[]"}, {"numeric(10,2)[]", "numeric(8,1)[]"}, {"timestamp with time zone[]", "timestamp[]", "timestamp(3) with time zone[]"}, {"money"}, {"point"}, {"polygon"}, {"float", "real"},
	} {
		b := New(fmt.Sprintf("pg.type%d.%s", gi, u(g[0])), "CREATE EXTENSION citext")
		for _, t := range g {
			b.Add(u(t), Tbl("t", "id int NOT NULL", "x "+t))
			b.Add(u(t)+"_nn", Tbl("t", "id int NOT NULL", "x "+t+" NOT NULL"))
		}
		b.Add("none", Tbl("t", "id int NOT NULL"))
		add(b)
	}
	// nullability and defaults, grouped by type
	for gi, g := range [][]string{
		{"x int", "x int NULL", "x int NOT NULL", "x int DEFAULT NULL", "x int DEFAULT 0", "x int DEFAULT 1", "x int DEFAULT 10", "x int NOT NULL DEFAULT 0", "x bigint DEFAULT 1", "x bigint NOT NULL DEFAULT 12", "x smallint DEFAULT 3", "x int DEFAULT -1", "x bigint DEFAULT -1", "x bigint DEFAULT 9223372036854775807"},
		{"x numeric(10,2) DEFAULT 1.5", "x numeric(10,2) DEFAULT 1.50", "x numeric(10,2) DEFAULT 0", "x numeric(10,2) DEFAULT 0.0", "x numeric(10,2) DEFAULT -1.5", "x numeric(10,2)", "x double precision DEFAULT 1.5", "x double precision DEFAULT 0", "x real DEFAULT 2.25"},
		{"x varchar(20)", "x varchar(20) NOT NULL", "x varchar(20) DEFAULT ''", "x varchar(20) DEFAULT 'a'", "x varchar(20) DEFAULT 'b'", "x varchar(20) DEFAULT 'A'", "x varchar(20) NOT NULL DEFAULT 'a'", "x varchar(20) DEFAULT '1'", "x varchar(20) DEFAULT 'NULL'", "x varchar(20) DEFAULT 'a b'", "x varchar(20) DEFAULT 'a  b'", "x varchar(20) DEFAULT ' a'", "x varchar(20) DEFAULT 'it''s'", "x varchar(20) DEFAULT 'a,b'", "x varchar(20) DEFAULT '(('", "x varchar(20) DEFAULT 'DROP'", "x varchar(20) DEFAULT 'a\"b'"},
		{"x text", "x text DEFAULT ''", "x text DEFAULT 'a'", "x text NOT NULL DEFAULT 'a'", "x text DEFAULT 'a::b'", "x text DEFAULT '日本'", "x char(3) DEFAULT 'a'", "x char(3) DEFAULT 'abc'", "x character(3) NOT NULL DEFAULT 'b'"},
		{"x boolean", "x boolean DEFAULT true", "x boolean DEFAULT false", "x boolean NOT NULL DEFAULT false", "x bool DEFAULT TRUE", "x boolean DEFAULT NULL"},
		{"x timestamp", "x timestamp DEFAULT CURRENT_TIMESTAMP", "x timestamp NOT NULL DEFAULT CURRENT_TIMESTAMP", "x timestamp DEFAULT now()", "x timestamp NOT NULL DEFAULT now()", "x timestamp DEFAULT '2020-01-01 00:00:00'", "x timestamp with time zone DEFAULT CURRENT_TIMESTAMP", "x timestamp(3) with time zone DEFAULT now()", "x date DEFAULT CURRENT_DATE"},
		{"x date", "x date DEFAULT '2020-01-01'", "x date DEFAULT '2020-01-02'"},
		{"x time", "x time DEFAULT CURRENT_TIME", "x time DEFAULT '10:00:00'"},
		{"x jsonb", "x jsonb DEFAULT '{}'", "x jsonb NOT NULL DEFAULT '{}'", "x jsonb DEFAULT '[]'"},
		{"x json DEFAULT '{}'", "x json"},
		{"x uuid", "x uuid DEFAULT '00000000-0000-0000-0000-000000000000'"},
		{"x text[]", "x text[] DEFAULT '{}'", "x text[] NOT NULL DEFAULT '{}'"}, {"x integer[] DEFAULT '{}'", "x integer[]"},
		{"x citext", "x citext DEFAULT 'a'", "x citext NOT NULL"},
		{"x bit(1)", "x bit(1) DEFAULT B'0'", "x bit(1) DEFAULT B'1'"},
	} {
		b := New(fmt.Sprintf("pg.attrs%d", gi), "CREATE EXTENSION citext")
		for _, c := range g {
			b.Add(u(strings.TrimPrefix(c, "x ")), Tbl("t", "id int NOT NULL", c))
		}
		b.Add("none", Tbl("t", "id int NOT NULL"))
		add(b)
	}
	// serial and identity
	{
		b := New("pg.serial")
		for _, c := range []string{"", "x serial", "x bigserial", "x smallserial", "x serial PRIMARY KEY", "x bigserial NOT NULL PRIMARY KEY"} {
			b.Add(u(strings.TrimPrefix(c, "x ")), Tbl("t", "id int NOT NULL", c))
			b.Add(u(strings.TrimPrefix(c, "x "))+"_y", Tbl("t", "id int NOT NULL", c, "y int"))
		}
		b.F().Skip = func(a, c string) bool {
			// a serial column is created, kept or dropped: it is not made of another type
			f := func(s string) string { return strings.Split(s, "_")[0] }
			return f(a) != "" && f(c) != "" && f(a) != f(c)
		}
		add(b)
		b = New("pg.identity")
		for _, c := range []string{"", "x int NOT NULL", "x int GENERATED ALWAYS AS IDENTITY", "x int GENERATED BY DEFAULT AS IDENTITY", "x bigint GENERATED BY DEFAULT AS IDENTITY", "x int GENERATED ALWAYS AS IDENTITY PRIMARY KEY", "x int NOT NULL GENERATED BY DEFAULT AS IDENTITY (START WITH -100 INCREMENT BY 5 MINVALUE -100 MAXVALUE 100)", "x int"} {
			b.Add(u(strings.TrimPrefix(c, "x ")), Tbl("t", "id int NOT NULL", c))
		}
		b.F().Skip = func(a, c string) bool {
			// the options of an identity's sequence are applied when it is made, not changed
			return strings.Contains(c, "START") && strings.Contains(a, "IDENTITY")
		}
		add(b)
	}
	// primary keys
	{
		b := New("pg.pk")
		for _, ty := range []string{"int", "bigint"} {
			for pi, pk := range []string{"", "PRIMARY KEY (a)", "PRIMARY KEY (b)", "PRIMARY KEY (a, b)", "PRIMARY KEY (b, a)", "inline"} {
				for ki, key := range []string{"", "@CREATE INDEX ka ON t (a)", "@CREATE UNIQUE INDEX ka ON t (a)"} {
					a := "a " + ty + " NOT NULL"
					p := pk
					if pk == "inline" {
						a += " PRIMARY KEY"
						p = ""
					}
					s := Tbl("t", a, "b int NOT NULL", "c int", p)
					if key != "" {
						s += key[1:] + ";\n"
					}
					b.Add(fmt.Sprintf("%s_pk%d_k%d", ty, pi, ki), s)
				}
			}
		}
		b.F().Skip = func(a, c string) bool {
			// an inline PRIMARY KEY on another column than the current key is refused ("This is not handled yet")
			return (strings.Contains(a, "pk2") || strings.Contains(a, "pk4")) && strings.Contains(c, "pk5")
		}
		add(b)
		b = New("pg.pkname")
		for _, k := range []string{"", "CONSTRAINT my_key PRIMARY KEY (a)", "CONSTRAINT my_key PRIMARY KEY (a, b)", "PRIMARY KEY (b)", "CONSTRAINT t_pkey PRIMARY KEY (a)"} {
			b.Add(u(k), Tbl("t", "a int NOT NULL", "b int NOT NULL", k))
		}
		add(b)
		// columns of the key without NOT NULL of their own
		b = New("pg.pknull")
		for _, k := range []string{"", "PRIMARY KEY (a)", "PRIMARY KEY (a, b)"} {
			b.Add("n_"+u(k), Tbl("t", "a int", "b int", k))
			b.Add("m_"+u(k), Tbl("t", "a int NOT NULL", "b int", k))
		}
		b.Add("ia", Tbl("t", "a int PRIMARY KEY", "b int"))
		b.Add("ib", Tbl("t", "b int", "a bigint PRIMARY KEY"))
		b.F().Skip = func(a, c string) bool { return false }
		add(b)
	}
	// indexes
	{
		b := New("pg.index")
		i1 := []string{"", "INDEX i1 ON t (a)", "INDEX i1 ON t (b)", "INDEX i1 ON t (a, b)", "INDEX i1 ON t (b, a)", "UNIQUE INDEX i1 ON t (a)", "UNIQUE INDEX i1 ON t (a, b)", "INDEX i1 ON t (a DESC)", "INDEX i1 ON t (a, b DESC)", "INDEX i1 ON t USING btree (a)", "INDEX i1 ON public.t (c, a)",
			"INDEX i1 ON t (a) WHERE (b > 1)", "INDEX i1 ON t (a) WHERE (b > 2)", "UNIQUE INDEX i1 ON t (a) WHERE (b > 1)", "INDEX i1 ON t (a) WHERE ((b > 1) AND (a < 5))", "INDEX i1 ON t (a) WHERE (a IS NOT NULL)", "INDEX i1 ON t (a) WHERE ((c)::text = 'x'::text)", "INDEX i1 ON t (a) WHERE b > 1"}
		i2 := []string{"", "INDEX i2 ON t (a)", "UNIQUE INDEX i2 ON t (b)"}
		if thorough {
			i2 = append(i2, "INDEX i2 ON t (c) WHERE (a > 0)", "INDEX i2 ON t (a, b, c)")
		}
		for x, p := range i1 {
			for y, q := range i2 {
				s := Tbl("t", "id int NOT NULL", "a int", "b int NOT NULL", "c varchar(50)", "PRIMARY KEY (id)")
				for _, i := range []string{p, q} {
					if i != "" {
						s += "CREATE " + i + ";\n"
					}
				}
				b.Add(fmt.Sprintf("i%d_j%d", x, y), s)
			}
		}
		add(b)
		for _, m := range []string{"hash", "brin"} {
			b := New("pg.index." + m)
			b.Add("none", Tbl("t", "id int", "a int"))
			b.Add("x", Tbl("t", "id int", "a int")+"CREATE INDEX i ON t USING "+m+" (a);\n")
			b.Add("b", Tbl("t", "id int", "a int")+"CREATE INDEX i ON t (a);\n")
			add(b)
		}
	}
	// indexes and columns that come and go together
	{
		b := New("pg.colindex")
		for _, cs := range Subsets([]string{"a", "b", "c"}) {
			has := map[string]bool{}
			var defs []string
			for _, c := range cs {
				has[c] = true
				defs = append(defs, c+" int")
			}
			for ki, k := range []string{"", "a", "a, b", "!b, c", "c", "a|b", "!a, b, c"} {
				ok := true
				s := ""
				for i, one := range strings.Split(k, "|") {
					un := ""
					if strings.HasPrefix(one, "!") {
						un, one = "UNIQUE ", one[1:]
					}
					for _, c := range strings.Split(one, ", ") {
						if c != "" && !has[c] {
							ok = false
						}
					}
					if one != "" {
						s += fmt.Sprintf("CREATE %sINDEX k%d ON t (%s);\n", un, i, one)
					}
				}
				if ok {
					b.Add(fmt.Sprintf("%s_k%d", join(cs), ki), Tbl("t", append([]string{"id int NOT NULL PRIMARY KEY"}, defs...)...)+s)
				}
			}
		}
		add(b)
	}
	// unique constraints
	{
		b := New("pg.unique")
		b.Add("none", Tbl("t", "id int NOT NULL", "a int", "b int"))
		b.Add("a", Tbl("t", "id int NOT NULL", "a int UNIQUE", "b int"))
		b.Add("ann", Tbl("t", "id int NOT NULL", "a int UNIQUE NOT NULL", "b int"))
		b.Add("b", Tbl("t", "id int NOT NULL", "a int", "b int UNIQUE"))
		b.Add("ab", Tbl("t", "id int NOT NULL", "a int UNIQUE", "b int UNIQUE"))
		b.Add("onlya", Tbl("t", "id int NOT NULL", "a int UNIQUE"))
		b.Add("noa", Tbl("t", "id int NOT NULL", "b int"))
		b.Add("pk", Tbl("t", "id int NOT NULL PRIMARY KEY", "a bigint UNIQUE", "b int"))
		add(b)
	}
	// column checks
	{
		b := New("pg.check")
		b.Add("none", Tbl("t", "id int NOT NULL", "a int", "b int"))
		for i, c := range []string{"a > 0", "a > 1", "(a > 0) AND (a < 10)", "(a > 0) OR (a = 5)", "(a > 0 OR a = 5) AND a < 10", "a > 0 OR a = 5 AND a < 10", "a + 1 > a * 2", "a <> 5", "a IS NOT NULL", "a > 0) NO INHERIT --"} {
			c = "a int CHECK (" + c + ")"
			if strings.HasSuffix(c, "--)") {
				c = strings.TrimSuffix(c, " --)")
			}
			b.Add(fmt.Sprintf("c%d", i), Tbl("t", "id int NOT NULL", c, "b int"))
			b.Add(fmt.Sprintf("c%dn", i), Tbl("t", "id int NOT NULL", strings.Replace(c, "int CHECK", "int NOT NULL CHECK", 1), "b int"))
		}
		b.Add("noa", Tbl("t", "id int NOT NULL", "b int"))
		b.Add("two", Tbl("t", "id int NOT NULL", "a int CHECK (a > 0)", "b int CHECK (b > 0)"))
		b.Add("twob", Tbl("t", "id int NOT NULL", "a int CHECK (a > 0)", "b int DEFAULT 3 CHECK (b > 1)"))
		add(b)
		b = New("pg.checktext")
		b.Add("none", Tbl("t", "id int NOT NULL", "a varchar(20)"))
		for i, c := range []string{"(a)::text = 'x'::text", "(a)::text = 'y'::text", "(a)::text <> ''::text", "length((a)::text) > 3"} {
			b.Add(fmt.Sprintf("c%d", i), Tbl("t", "id int NOT NULL", "a varchar(20) CHECK ("+c+")"))
		}
		add(b)
		// not in the form the server shows
		for i, c := range []string{"a int CHECK (a > -5)", "a varchar(20) CHECK (length(a) > 3)", "a varchar(20) CHECK (a <> '')", "a int CHECK (a BETWEEN 1 AND 5)", "a int CHECK (a IN (1, 2))"} {
			b := New(fmt.Sprintf("pg.checkform%d", i))
			b.Add("c", Tbl("t", "id int NOT NULL", c))
			add(b)
		}
		b = New("pg.checkname")
		for ti, t := range []string{"t", "\"Tab\"", "\"a-b\"", "\"order\"", "s.t"} {
			for _, c := range []string{"c", "\"x y\"", "\"group\""} {
				for k, e := range []string{"", " CHECK (@ > 0)", " CHECK (@ > 1)"} {
					b.Add(fmt.Sprintf("t%d_%s_%d", ti, u(strings.Trim(c, "\"")), k), Tbl(t, "id int NOT NULL", c+" int"+strings.Replace(e, "@", c, -1)))
				}
			}
		}
		b.F().Prelude = []string{"CREATE SCHEMA s"}
		b.F().Depth = 1
		add(b)
		// a mixed-case column in an expression
		b = New("pg.checkcase")
		b.Add("none", Tbl("t", "id int NOT NULL", "\"Col\" int"))
		b.Add("c", Tbl("t", "id int NOT NULL", "\"Col\" int CHECK (\"Col\" > 0)"))
		add(b)
	}
	// foreign keys
	{
		rules := []string{"", " ON DELETE CASCADE", " ON DELETE SET NULL", " ON UPDATE CASCADE", " ON DELETE CASCADE ON UPDATE CASCADE", " ON DELETE SET NULL ON UPDATE CASCADE", " ON UPDATE SET NULL", " ON DELETE NO ACTION", " ON DELETE RESTRICT", " ON UPDATE RESTRICT ON DELETE SET DEFAULT"}
		users := Tbl("users", "id bigint NOT NULL PRIMARY KEY", "alt bigint NOT NULL") + "CREATE UNIQUE INDEX ualt ON users (alt);\n"
		others := Tbl("others", "id bigint NOT NULL PRIMARY KEY")
		base := users + others
		post := func(keys ...string) string {
			return Tbl("posts", append([]string{"id bigint NOT NULL PRIMARY KEY", "user_id bigint", "o_id bigint"}, keys...)...)
		}
		b := New("pg.fk")
		b.Add("none", base+post())
		for i, r := range rules {
			b.Add(fmt.Sprintf("r%d", i), base+post("CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)"+r))
			if i < 3 || thorough {
				b.Add(fmt.Sprintf("r%dtwo", i), base+post("CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)", "CONSTRAINT fk2 FOREIGN KEY (o_id) REFERENCES others (id)"+r))
				b.Add(fmt.Sprintf("r%dnamed2", i), base+post("CONSTRAINT fk2 FOREIGN KEY (user_id) REFERENCES users (id)"+r))
			}
		}
		for i, k := range []string{"(user_id) REFERENCES users (alt)", "(o_id) REFERENCES users (id)", "(user_id) REFERENCES others (id)", "(user_id) REFERENCES public.users (id)", "(user_id) REFERENCES posts (id)"} {
			b.Add(fmt.Sprintf("t%d", i), base+post("CONSTRAINT fk1 FOREIGN KEY "+k))
		}
		b.Add("alter", base+post()+"ALTER TABLE ONLY public.posts ADD CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users(id) ON DELETE CASCADE;\n")
		b.Add("noposts", base)
		b.Add("nofktables", users)
		b.Add("nothing", "")
		b.Add("alter2", users+others+post()+"ALTER TABLE ONLY public.posts ADD CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users(id);\n")
		add(b)
	}
	// foreign keys over several columns
	{
		b := New("pg.fkwide")
		base := Tbl("p", "x int NOT NULL", "y int NOT NULL", "z int NOT NULL", "PRIMARY KEY (x, y, z)") + "CREATE UNIQUE INDEX pyx ON p (y, x);\nCREATE UNIQUE INDEX pxz ON p (x, z);\nCREATE UNIQUE INDEX px ON p (x);\n"
		post := func(keys ...string) string {
			return Tbl("q", append([]string{"id int NOT NULL PRIMARY KEY", "a int", "b int", "c int"}, keys...)...)
		}
		b.Add("none", base+post())
		for i, k := range []string{"(a) REFERENCES p (x)", "(a, b) REFERENCES p (x, y)", "(b, a) REFERENCES p (y, x)", "(a, b) REFERENCES p (y, x)", "(a, b, c) REFERENCES p (x, y, z)", "(a, c) REFERENCES p (x, z)", "(c, a) REFERENCES p (x, y)"} {
			b.Add(fmt.Sprintf("f%d", i), base+post("CONSTRAINT fk FOREIGN KEY "+k))
			b.Add(fmt.Sprintf("f%dc", i), base+post("CONSTRAINT fk FOREIGN KEY "+k+" ON DELETE CASCADE"))
		}
		add(b)
	}
	// the same constraint name in several tables
	{
		b := New("pg.fkname")
		base := Tbl("p", "x int NOT NULL PRIMARY KEY") + Tbl("r", "x int NOT NULL PRIMARY KEY")
		for i, k := range []string{"", "p", "r"} {
			for j, l := range []string{"", "p", "r"} {
				f := func(n, t string) string {
					if t == "" {
						return Tbl(n, "id int", "a int")
					}
					return Tbl(n, "id int", "a int", "CONSTRAINT fk FOREIGN KEY (a) REFERENCES "+t+" (x)")
				}
				b.Add(fmt.Sprintf("%d%d", i, j), base+f("s", k)+f("t", l))
			}
		}
		add(b)
	}
	// tables
	{
		b := New("pg.tables")
		ts := map[string]string{
			"a": Tbl("a", "id int NOT NULL PRIMARY KEY", "x int"),
			"b": Tbl("b", "id int NOT NULL PRIMARY KEY", "x int") + "CREATE INDEX bx ON b (x);\n",
			"c": Tbl("c", "id serial PRIMARY KEY", "name varchar(10)"),
		}
		for _, p := range Perms([]string{"a", "b", "c"}, 0) {
			s := ""
			for _, t := range p {
				s += ts[t]
			}
			b.Add(join(p), s)
		}
		add(b)
	}
	{
		b := New("pg.fkdrop")
		users := Tbl("users", "id int NOT NULL PRIMARY KEY")
		tab := func(n, fk string) string {
			return Tbl(n, "id int NOT NULL PRIMARY KEY", "user_id int", fk)
		}
		zz, aa := tab("zz", "CONSTRAINT zfk FOREIGN KEY (user_id) REFERENCES users (id)"), tab("aa", "CONSTRAINT afk FOREIGN KEY (user_id) REFERENCES users (id)")
		zn, an := tab("zz", ""), tab("aa", "")
		b.Add("empty", "")
		b.Add("users", users)
		b.Add("uz", users+zz)
		b.Add("ua", users+aa)
		b.Add("uza", users+zz+aa)
		b.Add("z-nofk", zn)
		b.Add("a-nofk", an)
		b.Add("uz-nofk", users+zn)
		b.Add("za-nofk", zn+an)
		add(b)
	}
	// references written in the column
	{
		b := New("pg.ref")
		a := Tbl("a", "a_id int PRIMARY KEY", "t text UNIQUE NOT NULL")
		for i, c := range []string{"x int REFERENCES a", "x int REFERENCES a (a_id)", "x int"} {
			b.Add(fmt.Sprintf("r%d", i), a+Tbl("b", "b_id int PRIMARY KEY", c))
			b.Add(fmt.Sprintf("r%dt", i), a+Tbl("b", "b_id int PRIMARY KEY", c, "y text REFERENCES a (t)"))
		}
		b.Add("nob", a)
		b.Add("empty", "")
		b.F().Skip = func(x, y string) bool {
			// adding REFERENCES to a column that exists is not supported (TODO in the generator)
			r := func(s string) (bool, bool) {
				return s == "r0" || s == "r1" || s == "r0t" || s == "r1t", strings.HasSuffix(s, "t")
			}
			if x == "nob" || x == "empty" || y == "nob" || y == "empty" {
				return false
			}
			xr, xt := r(x)
			yr, yt := r(y)
			return yr && !xr || yt && !xt
		}
		add(b)
	}
	// views, written the way the server reports them
	{
		b := New("pg.view")
		base := Tbl("users", "id bigint NOT NULL", "name varchar(20)", "age int") + Tbl("posts", "id bigint NOT NULL", "user_id bigint", "is_deleted boolean")
		vs := []string{
			"SELECT users.id FROM users",
			"SELECT users.id, users.name FROM users",
			"SELECT users.id, users.name, users.age FROM users",
			"SELECT users.id FROM users WHERE (users.age = 1)",
			"SELECT users.id FROM users WHERE (users.age = 2)",
			"SELECT users.id FROM users WHERE ((users.age > 1) AND (users.age < 9))",
			"SELECT users.id FROM users WHERE ((users.age > 1) OR (users.age < 9))",
			"SELECT u.id, p.id AS post_id FROM (users u JOIN posts p ON ((u.id = p.user_id)))",
			"SELECT u.id, p.id AS post_id FROM (users u LEFT JOIN posts p ON ((u.id = p.user_id)))",
			"SELECT u.id FROM (users u JOIN posts p ON (((u.id = p.user_id) AND (p.is_deleted = false))))",
			"SELECT DISTINCT users.id FROM users",
			"SELECT users.id FROM users ORDER BY users.id DESC",
			"SELECT users.id FROM users LIMIT 5",
			"SELECT users.id, count(*) AS n FROM users GROUP BY users.id",
			"SELECT users.id FROM users WHERE (users.age IS NULL)",
			"SELECT users.id FROM users UNION SELECT posts.id FROM posts",
			"SELECT users.id FROM users UNION ALL SELECT posts.id FROM posts",
			"SELECT users.age FROM users",
			"SELECT users.id AS uid FROM users",
		}
		b.Add("none", base)
		for i, v := range vs {
			b.Add(fmt.Sprintf("v%d", i), base+"CREATE VIEW foo AS "+v+";\n")
		}
		b.Add("two", base+"CREATE VIEW foo AS "+vs[0]+";\nCREATE VIEW bar AS "+vs[3]+";\n")
		b.Add("bar", base+"CREATE VIEW bar AS "+vs[0]+";\n")
		b.Add("qual", base+"CREATE VIEW public.foo AS "+vs[0]+";\n")
		b.Add("empty", "")
		b.Add("onlyusers", Tbl("users", "id bigint NOT NULL", "name varchar(20)", "age int"))
		add(b)
	}
	// a view of a table whose column goes
	{
		b := New("pg.viewdrop")
		b.Add("none", Tbl("t", "id int", "x int", "y int"))
		b.Add("v", Tbl("t", "id int", "x int", "y int")+"CREATE VIEW v AS SELECT t.x FROM t;\n")
		b.Add("nox", Tbl("t", "id int", "y int"))
		b.Add("noxv", Tbl("t", "id int", "y int")+"CREATE VIEW v AS SELECT t.y AS x FROM t;\n")
		b.Add("gone", Tbl("s", "id int"))
		b.Add("other", Tbl("t", "id int", "x bigint", "y int"))
		add(b)
		b = New("pg.viewlit")
		base := Tbl("t", "id int", "x text")
		b.Add("none", base)
		for i, v := range []string{"'a'", "'A'", "'a  b'", "'a b'", "'it''s'", "'x;y'"} {
			b.Add(fmt.Sprintf("v%d", i), base+"CREATE VIEW v AS SELECT t.id FROM t WHERE (t.x = "+v+"::text);\n")
		}
		add(b)
	}
	// row-level policies
	{
		b := New("pg.policy", "CREATE ROLE bob", "CREATE ROLE alice")
		base := Tbl("t", "id bigint PRIMARY KEY", "name text") + Tbl("s", "id bigint PRIMARY KEY")
		ps := []string{
			"AS PERMISSIVE FOR ALL TO PUBLIC USING (id = 1)", "AS PERMISSIVE FOR ALL TO PUBLIC USING (id = 2)", "AS RESTRICTIVE FOR ALL TO PUBLIC USING (id = 1)", "AS PERMISSIVE FOR SELECT TO PUBLIC USING (id = 1)", "AS PERMISSIVE FOR INSERT TO PUBLIC WITH CHECK (id = 1)",
			"AS PERMISSIVE FOR UPDATE TO PUBLIC USING (id = 1) WITH CHECK (id > 1)", "AS PERMISSIVE FOR UPDATE TO PUBLIC USING (id = 1) WITH CHECK (id > 2)", "AS PERMISSIVE FOR DELETE TO PUBLIC USING (id = 1)", "AS PERMISSIVE FOR ALL TO bob USING (id = 1)", "AS PERMISSIVE FOR ALL TO bob, alice USING (id = 1)", "AS PERMISSIVE FOR ALL TO alice USING (id = 1)",
			"AS PERMISSIVE FOR ALL TO bob USING (true)", "AS PERMISSIVE FOR ALL TO bob USING ((name = 'x'::text))", "AS PERMISSIVE FOR ALL TO bob USING ((name = 'X'::text))", "AS PERMISSIVE FOR ALL TO bob USING (((id > 1) AND (id < 5)))",
		}
		b.Add("none", base)
		for i, p := range ps {
			b.Add(fmt.Sprintf("p%d", i), base+"CREATE POLICY p ON t "+p+";\n")
		}
		b.Add("two", base+"CREATE POLICY p ON t "+ps[0]+";\nCREATE POLICY q ON t "+ps[3]+";\n")
		b.Add("onS", base+"CREATE POLICY p ON s "+ps[0]+";\n")
		b.Add("both", base+"CREATE POLICY p ON s "+ps[0]+";\nCREATE POLICY p ON t "+ps[1]+";\n")
		b.Add("notable", Tbl("s", "id bigint PRIMARY KEY"))
		add(b)
	}
	// several schemas with the same names
	{
		b := New("pg.schemas", "CREATE SCHEMA aa", "CREATE SCHEMA zz")
		one := func(s string, k int) string {
			switch k {
			case 1:
				return Tbl(s+".t", "id int NOT NULL PRIMARY KEY", "x varchar(10)")
			case 2:
				return Tbl(s+".t", "id bigint NOT NULL PRIMARY KEY", "x varchar(20) DEFAULT 'q'", "y int UNIQUE")
			case 3:
				return Tbl(s+".t", "id int NOT NULL", "x varchar(10) NOT NULL", "PRIMARY KEY (id, x)") + "CREATE INDEX tx ON " + s + ".t (x);\n"
			}
			return ""
		}
		for i := 0; i < 4; i++ {
			for j := 0; j < 4; j++ {
				for k := 0; k < 4; k++ {
					if k > 1 && !thorough && (i == 0 || j == 0) {
						continue
					}
					b.Add(fmt.Sprintf("%d%d%d", i, j, k), one("aa", i)+one("public", j)+one("zz", k))
				}
			}
		}
		b.F().Depth = 1
		add(b)
		b = New("pg.schemafk", "CREATE SCHEMA aa")
		p := Tbl("p", "x int NOT NULL PRIMARY KEY")
		ap := Tbl("aa.p", "x int NOT NULL PRIMARY KEY")
		q := func(s, r string) string { return Tbl(s+"q", "a int", r) }
		for i, r := range []string{"", "CONSTRAINT fk FOREIGN KEY (a) REFERENCES p (x)", "CONSTRAINT fk FOREIGN KEY (a) REFERENCES public.p (x)", "CONSTRAINT fk FOREIGN KEY (a) REFERENCES aa.p (x)", "CONSTRAINT fk FOREIGN KEY (a) REFERENCES aa.p (x) ON DELETE CASCADE"} {
			b.Add(fmt.Sprintf("pub%d", i), p+ap+q("", r))
			b.Add(fmt.Sprintf("aa%d", i), p+ap+q("aa.", r))
		}
		add(b)
		b = New("pg.schemaview", "CREATE SCHEMA aa")
		base := Tbl("t", "x int", "y int") + Tbl("aa.t", "x int", "y int")
		b.Add("none", base)
		for i, v := range []string{"CREATE VIEW v AS SELECT t.x FROM t", "CREATE VIEW v AS SELECT t.x, t.y FROM t", "CREATE VIEW aa.v AS SELECT t.x FROM t", "CREATE VIEW aa.v AS SELECT t.x FROM aa.t", "CREATE VIEW v AS SELECT t.x FROM t;\nCREATE VIEW aa.v AS SELECT t.x, t.y FROM aa.t"} {
			b.Add(fmt.Sprintf("v%d", i), base+v+";\n")
		}
		add(b)
		b = New("pg.schemapol", "CREATE SCHEMA aa")
		base = Tbl("t", "x int") + Tbl("aa.t", "x int")
		b.Add("none", base)
		for i, v := range []string{"ON t AS PERMISSIVE FOR ALL TO PUBLIC USING (x = 1)", "ON aa.t AS PERMISSIVE FOR ALL TO PUBLIC USING (x = 1)", "ON aa.t AS PERMISSIVE FOR ALL TO PUBLIC USING (x = 2)"} {
			b.Add(fmt.Sprintf("p%d", i), base+"CREATE POLICY p "+v+";\n")
		}
		add(b)
	}
	// names that need quoting
	{
		b := New("pg.names")
		for ti, t := range []string{"\"order\"", "\"a-b\"", "\"with space\"", "\"Upper\"", "\"日本\"", "\"1st\"", "\"a\"\"b\"", "users_pkey_t"} {
			for ci, c := range []string{"\"group\"", "\"x-y\"", "\"x y\"", "\"Mixed\"", "\"ä\"", "\"user\"", "\"2\"", "\"q\"\"r\""} {
				b.Add(fmt.Sprintf("t%d_c%d", ti, ci), Tbl(t, "id int NOT NULL PRIMARY KEY", c+" int"))
				if ti < 4 {
					b.Add(fmt.Sprintf("t%d_c%d_k", ti, ci), Tbl(t, "id int NOT NULL PRIMARY KEY", "z int", c+" bigint NOT NULL")+"CREATE INDEX "+strings.TrimSuffix(c, "\"")+fmt.Sprintf("-%d\"", ti)+" ON "+t+" ("+c+", z);\n")
				}
			}
		}
		b.F().Depth = 1
		add(b)
		b = New("pg.namesfk")
		for ti, t := range []string{"p", "\"Order\"", "\"a-b\"", "\"order\""} {
			for ci, c := range []string{"x", "\"Col\"", "\"x y\""} {
				for k, r := range []string{"", "CONSTRAINT \"Fk 1\" FOREIGN KEY (@) REFERENCES # (@)", "CONSTRAINT \"Fk 1\" FOREIGN KEY (@) REFERENCES # (@) ON DELETE CASCADE"} {
					r = strings.Replace(strings.Replace(r, "@", c, -1), "#", t, -1)
					b.Add(fmt.Sprintf("t%d_c%d_%d", ti, ci, k), Tbl(t, c+" int NOT NULL PRIMARY KEY")+Tbl("q", "id int", c+" int", r))
				}
			}
		}
		b.F().Skip = func(x, y string) bool {
			// an inline PRIMARY KEY on another column is refused ("This is not handled yet")
			return strings.HasPrefix(x, "t") && x[:2] == y[:2] && x[:5] != y[:5]
		}
		b.F().Depth = 1
		add(b)
		b = New("pg.namesview")
		for ti, t := range []string{"\"Order\"", "\"a-b\"", "\"order\""} {
			for vi, v := range []string{"v", "\"v w\"", "\"select\""} {
				b.Add(fmt.Sprintf("t%d_v%d_1", ti, vi), Tbl(t, "x int", "y int")+"CREATE VIEW "+v+" AS SELECT "+t+".x FROM "+t+";\n")
				b.Add(fmt.Sprintf("t%d_v%d_2", ti, vi), Tbl(t, "x int", "y int")+"CREATE VIEW "+v+" AS SELECT "+t+".x, "+t+".y FROM "+t+";\n")
			}
		}
		add(b)
		b = New("pg.namespol", "CREATE ROLE \"Bob\"")
		for ti, t := range []string{"t", "\"Order\"", "\"a-b\""} {
			b.Add(fmt.Sprintf("t%d", ti), Tbl(t, "x int"))
			for pi, p := range []string{"p", "\"P q\"", "\"all\""} {
				b.Add(fmt.Sprintf("t%d_p%d", ti, pi), Tbl(t, "x int")+"CREATE POLICY "+p+" ON "+t+" AS PERMISSIVE FOR ALL TO PUBLIC USING (x = 1);\n")
				b.Add(fmt.Sprintf("t%d_p%d_2", ti, pi), Tbl(t, "x int")+"CREATE POLICY "+p+" ON "+t+" AS PERMISSIVE FOR ALL TO \"Bob\" USING (x = 2);\n")
			}
		}
		add(b)
	}
	// names that differ in case only
	{
		b := New("pg.case", "CREATE ROLE \"Bob\"", "CREATE ROLE bob")
		var up, lo []string
		for i, t := range []string{"\"Item\"", "item"} {
			l := []string{""}
			for _, c := range []string{"x int", "x int NOT NULL", "\"X\" int"} {
				l = append(l, Tbl(t, "id int NOT NULL PRIMARY KEY", c, "y int"))
			}
			l = append(l, Tbl(t, "id int NOT NULL PRIMARY KEY", "x int", "\"X\" int"),
				Tbl(t, "id int NOT NULL PRIMARY KEY", "x int")+[]string{"CREATE INDEX \"Ix\" ON \"Item\" (x);\n", "CREATE INDEX ix ON item (x, id);\n"}[i],
				Tbl(t, "id int NOT NULL PRIMARY KEY", "x int")+[]string{"CREATE POLICY p ON \"Item\" AS PERMISSIVE FOR ALL TO bob USING (x = 1);\n", "CREATE POLICY \"P\" ON item AS PERMISSIVE FOR ALL TO \"Bob\" USING (x = 1);\n"}[i])
			if i == 0 {
				up = l
			} else {
				lo = l
			}
		}
		for i, u := range up {
			for j, l := range lo {
				if i+j > 0 {
					b.Add(fmt.Sprintf("%d.%d", i, j), u+l)
				}
			}
		}
		add(b)
	}
	// several features at once, in two tables
	{
		b := New("pg.mixed")
		cols := [][]string{{}, {"a int"}, {"b varchar(20) DEFAULT 'x'", "a bigint NOT NULL"}}
		pk := []string{"id int NOT NULL|PRIMARY KEY (id)", "id serial|PRIMARY KEY (id)", "id int NOT NULL|", "id int GENERATED BY DEFAULT AS IDENTITY PRIMARY KEY|"}
		keys := []string{"", "INDEX k ON t (c)", "UNIQUE INDEX k ON t (c, h)", "INDEX h ON t (h)"}
		fks := []string{"", "CONSTRAINT f FOREIGN KEY (g) REFERENCES u (id)"}
		uu := []string{Tbl("u", "id int NOT NULL PRIMARY KEY"), Tbl("u", "n int", "id int NOT NULL PRIMARY KEY") + "CREATE INDEX n ON u (n);\n"}
		Prod([]int{len(cols), len(pk), len(keys), len(fks), len(uu)}, func(ix []int) {
			if !thorough && ix[4] == 1 && ix[0] == 1 {
				return
			}
			p := strings.Split(pk[ix[1]], "|")
			k := keys[ix[2]]
			if k != "" {
				k = "CREATE " + k + ";\n"
			}
			parts := append([]string{p[0]}, cols[ix[0]]...)
			parts = append(parts, "g int", "h int", "c int", p[1], fks[ix[3]])
			b.Add(id(ix), uu[ix[4]]+Tbl("t", parts...)+k)
		})
		b.F().Skip = func(x, y string) bool {
			// a serial column is not made of another kind, nor the other way round
			f := func(s string) bool { return strings.Split(s, ".")[1] == "1" }
			return f(x) != f(y)
		}
		b.F().Depth = 1
		add(b)
	}
	// the word DROP where nothing is dropped
	{
		b := New("pg.skipdrop")
		b.Add("none", Tbl("t", "id int NOT NULL PRIMARY KEY"))
		b.Add("col", Tbl("t", "id int NOT NULL PRIMARY KEY", "DROPPED_at timestamp"))
		b.Add("def", Tbl("t", "id int NOT NULL PRIMARY KEY", "x text DEFAULT 'DROP TABLE t'", "y int"))
		b.Add("idx", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(50)")+"CREATE INDEX \"DROP I\" ON t (x);\nCREATE UNIQUE INDEX \"IX DROP\" ON t (x);\n")
		b.Add("tbl", Tbl("t", "id int NOT NULL PRIMARY KEY")+Tbl("\"BACKDROP\"", "id int")+Tbl("\"DROP\"", "id int NOT NULL PRIMARY KEY", "\"DROP\" int"))
		b.Add("view", Tbl("t", "id int NOT NULL PRIMARY KEY", "x text")+"CREATE VIEW foo AS SELECT t.id FROM t WHERE (t.x = 'DROP'::text);\n")
		b.Add("pol", Tbl("t", "id int NOT NULL PRIMARY KEY", "x text", "w text")+"CREATE POLICY \"DROP p\" ON t AS PERMISSIVE FOR ALL TO PUBLIC USING ((w = 'DROP'::text));\n")
		b.Add("empty", "")
		add(b)
	}
	return out
}
