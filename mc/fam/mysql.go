package fam

import (
	"fmt"
	"strings"

	"mc/eng"
)

// MySQL families.  thorough widens the products.
func MySQL(thorough bool) []*eng.Family {
	var out []*eng.Family
	add := func(b *B) { out = append(out, b.F()) }

	// column subsets and orders
	{
		b := New("my.colorder").Tag("order")
		def := map[string]string{"a": "a int NOT NULL", "b": "b varchar(20) DEFAULT NULL", "c": "c bigint(20) DEFAULT '5'", "d": "d date DEFAULT NULL"}
		names := []string{"a", "b", "c"}
		if thorough {
			names = append(names, "d")
		}
		for _, p := range Perms(names, 0) {
			var cs []string
			for _, c := range p {
				cs = append(cs, def[c])
			}
			b.Add("id_"+join(p), Tbl("t", append([]string{"id int NOT NULL"}, cs...)...))
		}
		for _, p := range Perms(names, 1) {
			if len(p) > 3 || len(p) < 2 {
				continue
			}
			var cs []string
			for _, c := range p {
				cs = append(cs, def[c])
			}
			b.Add("nid_"+join(p), Tbl("t", cs...))
		}
		add(b)
	}
	// order together with a type change of one column
	{
		b := New("my.ordertype").Tag("order")
		for _, p := range Perms([]string{"a", "b", "c"}, 2) {
			for i, ty := range []string{"int", "bigint NOT NULL"} {
				var cs []string
				for _, c := range p {
					if c == "b" {
						cs = append(cs, "b "+ty)
					} else {
						cs = append(cs, c+" int")
					}
				}
				b.Add(fmt.Sprintf("%s_%d", join(p), i), Tbl("t", cs...))
			}
		}
		add(b)
	}
	// types
	{
		b := New("my.types")
		types := []string{"int", "int unsigned", "int(11) unsigned NOT NULL", "bigint", "bigint unsigned", "tinyint(1)", "boolean", "smallint", "mediumint",
			"varchar(10)", "varchar(20)", "char(10)", "char(12)", "text", "mediumtext", "longtext", "decimal(10,2)", "decimal(10,3)", "decimal(12,2)", "decimal(10)", "numeric(5,1)", "float", "double", "double precision",
			"datetime(3)", "datetime(6)", "timestamp NULL", "date", "time", "enum('a','b')", "enum('a','b','c')", "enum('b','a')", "set('a','b')", "json", "blob", "longblob", "binary(4)", "varbinary(8)", "bit(1)", "bit(8)", "integer"}
		for _, t := range types {
			b.Add(strings.Replace(t, " ", "_", -1), Tbl("t", "id int NOT NULL", "x "+t))
		}
		add(b)
	}
	// omitted lengths, attributes the generator does not know: small spaces, mostly known findings
	for _, g := range [][]string{{"int", "int(5)"}, {"tinyint", "tinyint(1)"}, {"char", "char(10)"}, {"datetime", "datetime(3)"}, {"timestamp NULL", "timestamp(6) NULL"}, {"int", "int(10) zerofill"}, {"int", "year"}, {"decimal(10)", "decimal(10,2)"}} {
		b := New("my.typelen." + strings.Replace(g[1], " ", "_", -1))
		for _, t := range g {
			b.Add(strings.Replace(t, " ", "_", -1), Tbl("t", "id int NOT NULL", "x "+t))
		}
		add(b)
	}
	// nullability, default, comments
	{
		b := New("my.attrs")
		cols := []string{
			"x int", "x int NULL", "x int NOT NULL", "x int DEFAULT NULL", "x int DEFAULT 0", "x int DEFAULT 1", "x int DEFAULT -1", "x int DEFAULT '1'", "x int NOT NULL DEFAULT 0", "x int NOT NULL DEFAULT 1", "x int NOT NULL DEFAULT 10", "x int unsigned NOT NULL DEFAULT 1",
			"x varchar(20)", "x varchar(20) NOT NULL", "x varchar(20) DEFAULT ''", "x varchar(20) DEFAULT 'a'", "x varchar(20) DEFAULT 'b'", "x varchar(20) DEFAULT 'A'", "x varchar(20) NOT NULL DEFAULT 'a'", "x varchar(20) DEFAULT '1'", "x varchar(20) DEFAULT 'NULL'", "x varchar(20) DEFAULT 'a b'", "x varchar(20) DEFAULT ' a'",
			"x tinyint(1) DEFAULT 0", "x tinyint(1) DEFAULT 1", "x tinyint(1) NOT NULL DEFAULT 0",
			"x decimal(10,2) DEFAULT 1.50", "x decimal(10,2) DEFAULT 0.00", "x decimal(10,2) DEFAULT '2.25'", "x double DEFAULT 1.5",
			"x datetime", "x datetime NOT NULL", "x datetime DEFAULT CURRENT_TIMESTAMP", "x datetime NOT NULL DEFAULT CURRENT_TIMESTAMP", "x datetime DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", "x datetime ON UPDATE CURRENT_TIMESTAMP", "x datetime DEFAULT '2020-01-01 00:00:00'",
			"x datetime(6) DEFAULT CURRENT_TIMESTAMP(6)", "x datetime(6) DEFAULT CURRENT_TIMESTAMP(6) ON UPDATE CURRENT_TIMESTAMP(6)",
			"x timestamp NULL DEFAULT NULL", "x timestamp NULL DEFAULT CURRENT_TIMESTAMP", "x timestamp NOT NULL DEFAULT CURRENT_TIMESTAMP", "x timestamp NOT NULL DEFAULT CURRENT_TIMESTAMP ON UPDATE CURRENT_TIMESTAMP", "x timestamp NULL ON UPDATE CURRENT_TIMESTAMP",
			"x bit(1) DEFAULT b'0'", "x bit(1) DEFAULT b'1'", "x bit(1) NOT NULL DEFAULT b'1'",
			"x enum('a','b') DEFAULT 'a'", "x enum('a','b') NOT NULL DEFAULT 'b'", "x date DEFAULT '2020-01-01'",
		}
		for _, c := range cols {
			b.Add(strings.Replace(strings.TrimPrefix(c, "x "), " ", "_", -1), Tbl("t", "id int NOT NULL", c))
		}
		add(b)
	}
	// character sets
	{
		b := New("my.charset")
		for _, c := range []string{"x varchar(20)", "x varchar(20) CHARACTER SET utf8mb4", "x varchar(20) CHARACTER SET utf8", "x varchar(20) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin", "x varchar(20) COLLATE utf8mb4_bin", "x varchar(20) CHARACTER SET utf8mb4 COLLATE utf8mb4_bin NOT NULL", "x varchar(20) CHARACTER SET utf8mb4 COLLATE utf8mb4_unicode_ci", "x text CHARACTER SET utf8mb4 COLLATE utf8mb4_bin", "x varchar(20) CHARACTER SET ascii"} {
			for i, o := range []string{"", " DEFAULT CHARSET=utf8mb4"} {
				s := strings.TrimSuffix(Tbl("t", "id int NOT NULL", c), ";\n") + o + ";\n"
				b.Add(fmt.Sprintf("%s_%d", strings.Replace(strings.TrimPrefix(c, "x "), " ", "_", -1), i), s)
			}
		}
		b.F().Skip = func(a, c string) bool {
			// table options are not managed; a character set is managed where the file spells it
			return a[len(a)-1] != c[len(c)-1] || strings.Contains(a, "CHARACTER") && !strings.Contains(c, "CHARACTER") || strings.Contains(a, "COLLATE") && !strings.Contains(c, "COLLATE")
		}
		add(b)
	}
	// primary key and auto_increment
	{
		b := New("my.pk")
		for _, ty := range []string{"int", "bigint"} {
			for pi, pk := range []string{"", "PRIMARY KEY (a)", "PRIMARY KEY (b)", "PRIMARY KEY (a, b)", "PRIMARY KEY (b, a)", "inline"} {
				for ai, inc := range []string{"", " AUTO_INCREMENT"} {
					for ki, key := range []string{"", "KEY ka (a)", "UNIQUE KEY ka (a)"} {
						if inc != "" && key == "" && (pk == "" || pk == "PRIMARY KEY (b)" || pk == "PRIMARY KEY (b, a)") {
							continue
						}
						a := "a " + ty + " NOT NULL" + inc
						p := pk
						if pk == "inline" {
							a += " PRIMARY KEY"
							p = ""
						}
						b.Add(fmt.Sprintf("%s_pk%d_ai%d_k%d", ty, pi, ai, ki), Tbl("t", a, "b int NOT NULL", "c int", p, key))
					}
				}
			}
		}
		b.F().Skip = func(a, c string) bool {
			// an inline PRIMARY KEY on another column than the current key is refused ("This is not handled yet")
			return (strings.Contains(a, "pk2") || strings.Contains(a, "pk4")) && strings.Contains(c, "pk5")
		}
		add(b)
	}
	// a primary key makes its columns NOT NULL, whether they say so or not
	{
		b := New("my.pknull")
		for i, a := range []string{"a int", "a int NOT NULL", "a int DEFAULT 5", "a int NOT NULL DEFAULT 5", "a varchar(5)", "a int AUTO_INCREMENT"} {
			for j, x := range []string{"b int", "b int NOT NULL"} {
				for k, pk := range []string{"", "PRIMARY KEY (a)", "PRIMARY KEY (a, b)", "inline", "PRIMARY KEY (c)"} {
					c := a
					if pk == "inline" {
						c, pk = a+" PRIMARY KEY", ""
					}
					if strings.Contains(a, "AUTO") && (k == 0 || k == 4) {
						continue
					}
					b.Add(fmt.Sprintf("%d.%d.%d", i, j, k), Tbl("t", c, x, "c int", pk))
				}
			}
		}
		b.F().Skip = func(a, c string) bool {
			// an inline PRIMARY KEY on another column than the current key is refused ("This is not handled yet")
			return strings.HasSuffix(a, ".4") && strings.HasSuffix(c, ".3")
		}
		add(b)
	}
	// indexes
	{
		b := New("my.index")
		i1 := []string{"", "KEY i1 (a)", "KEY i1 (b)", "KEY i1 (a, b)", "KEY i1 (b, a)", "UNIQUE KEY i1 (a)", "UNIQUE KEY i1 (a, b)", "@CREATE INDEX i1 ON t (a)", "@CREATE UNIQUE INDEX i1 ON t (a)", "@ALTER TABLE t ADD INDEX i1 (a, b)", "@ALTER TABLE t ADD UNIQUE INDEX i1 (b)", "KEY i1 (c(5), a)"}
		i2 := []string{"", "KEY i2 (a)", "UNIQUE KEY i2 (b)", "FULLTEXT KEY i2 (c)"}
		for x, p := range i1 {
			for y, q := range i2 {
				s := Tbl("t", "id int NOT NULL", "a int", "b int NOT NULL", "c varchar(50)", "PRIMARY KEY (id)", p, q)
				if strings.HasPrefix(p, "@") {
					s = Tbl("t", "id int NOT NULL", "a int", "b int NOT NULL", "c varchar(50)", "PRIMARY KEY (id)", q) + p[1:] + ";\n"
				}
				b.Add(fmt.Sprintf("i%d_j%d", x, y), s)
			}
		}
		for _, u := range []string{"a int UNIQUE", "a int UNIQUE KEY"} {
			b.Add(strings.Replace(u, " ", "_", -1), Tbl("t", "id int NOT NULL", u, "b int NOT NULL", "c varchar(50)", "PRIMARY KEY (id)"))
		}
		b.Add("allcomma", Tbl("t", "id int NOT NULL", "a int", "b int NOT NULL", "c varchar(50)", "PRIMARY KEY (id)")+"ALTER TABLE t ADD INDEX i1 (a);\nALTER TABLE t ADD UNIQUE KEY i2 (b);\n")
		add(b)
	}
	// prefix lengths (not compared by the generator)
	{
		b := New("my.indexlen")
		b.Add("c5", Tbl("t", "id int NOT NULL", "c varchar(50)", "KEY i1 (c(5))"))
		b.Add("c10", Tbl("t", "id int NOT NULL", "c varchar(50)", "KEY i1 (c(10))"))
		b.Add("c", Tbl("t", "id int NOT NULL", "c varchar(50)", "KEY i1 (c)"))
		add(b)
	}
	// indexes and columns that come and go together
	{
		b := New("my.colindex")
		for _, cs := range Subsets([]string{"a", "b", "c"}) {
			has := map[string]bool{}
			var defs []string
			for _, c := range cs {
				has[c] = true
				defs = append(defs, c+" int")
			}
			for ki, k := range []string{"", "KEY k (a)", "KEY k (a, b)", "UNIQUE KEY k (b, c)", "KEY k (c)", "KEY k (a),\n  KEY l (b)", "UNIQUE KEY k (a, b, c)"} {
				ok := true
				for _, c := range []string{"a", "b", "c"} {
					if strings.Contains(strings.Replace(k, "UNIQUE", "", 1), "("+c) || strings.Contains(k, " "+c+")") || strings.Contains(k, " "+c+",") {
						if !has[c] {
							ok = false
						}
					}
				}
				if ok {
					b.Add(fmt.Sprintf("%s_k%d", join(cs), ki), Tbl("t", append(append([]string{"id int NOT NULL PRIMARY KEY"}, defs...), k)...))
				}
			}
		}
		add(b)
	}
	// foreign keys
	{
		b := New("my.fk")
		rules := []string{"", " ON DELETE CASCADE", " ON DELETE SET NULL", " ON UPDATE CASCADE", " ON DELETE CASCADE ON UPDATE CASCADE", " ON UPDATE SET NULL", " ON DELETE NO ACTION", " ON DELETE RESTRICT"}
		users := Tbl("users", "id bigint NOT NULL PRIMARY KEY", "alt bigint NOT NULL", "UNIQUE KEY ualt (alt)")
		others := Tbl("others", "id bigint NOT NULL PRIMARY KEY")
		base := users + others
		post := func(keys ...string) string {
			return Tbl("posts", append([]string{"id bigint NOT NULL PRIMARY KEY", "user_id bigint", "o_id bigint"}, keys...)...)
		}
		// without explicit index: the server makes one named like the constraint
		b.Add("none", base+post())
		b.Add("nonekey", base+post("KEY fk1 (user_id)"))
		for i, r := range rules {
			b.Add(fmt.Sprintf("r%d", i), base+post("CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)"+r))
		}
		b.Add("two", base+post("CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)", "CONSTRAINT fk2 FOREIGN KEY (o_id) REFERENCES others (id)"))
		b.Add("onlysecond", base+post("CONSTRAINT fk2 FOREIGN KEY (o_id) REFERENCES others (id) ON DELETE CASCADE"))
		b.Add("noposts", base)
		b.Add("nofktables", users)
		add(b)
		// with explicit indexes, which stay
		b = New("my.fkidx")
		base = base + ""
		full := func(keys ...string) string {
			return post(append([]string{"KEY ku (user_id)", "KEY ko (o_id)"}, keys...)...)
		}
		b.Add("none", base+full())
		for i, r := range rules {
			b.Add(fmt.Sprintf("r%d", i), base+full("CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)"+r))
			b.Add(fmt.Sprintf("r%dtwo", i), base+full("CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)", "CONSTRAINT fk2 FOREIGN KEY (o_id) REFERENCES others (id)"+r))
		}
		b.Add("named2", base+full("CONSTRAINT fk2 FOREIGN KEY (user_id) REFERENCES users (id)"))
		b.Add("onlysecond", base+full("CONSTRAINT fk2 FOREIGN KEY (o_id) REFERENCES others (id) ON DELETE CASCADE"))
		b.Add("noposts", base)
		b.Add("nofktables", users)
		add(b)
		// the index a foreign key uses is swapped for another
		b = New("my.fkswap")
		b.Add("k1", base+post("KEY k1 (user_id)", "CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)"))
		b.Add("k2", base+post("KEY k2 (user_id)", "CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)"))
		b.Add("k1k2", base+post("KEY k1 (user_id)", "KEY k2 (user_id, o_id)", "CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)"))
		add(b)
		for _, g := range [][]string{{"KEY k1 (user_id)", "CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)"}, {"CONSTRAINT fk1 FOREIGN KEY (user_id) REFERENCES users (id)", "CONSTRAINT fk2 FOREIGN KEY (user_id) REFERENCES users (id)"}} {
			b = New(map[bool]string{true: "my.fkimplicit", false: "my.fkrename"}[g[0][0] == 'K'])
			b.Add("a", base+post(g[0]))
			b.Add("b", base+post(g[1]))
			add(b)
		}
	}
	// foreign key target changes: columns and referenced tables under the same name
	{
		b := New("my.fktarget")
		users := Tbl("users", "id bigint NOT NULL PRIMARY KEY", "alt bigint NOT NULL", "UNIQUE KEY ualt (alt)")
		others := Tbl("others", "id bigint NOT NULL PRIMARY KEY")
		base := users + others
		post := func(keys ...string) string {
			return Tbl("posts", append([]string{"id bigint NOT NULL PRIMARY KEY", "user_id bigint", "o_id bigint", "KEY ku (user_id)", "KEY ko (o_id)"}, keys...)...)
		}
		for i, k := range []string{"FOREIGN KEY (user_id) REFERENCES users (id)", "FOREIGN KEY (user_id) REFERENCES users (alt)", "FOREIGN KEY (o_id) REFERENCES users (id)", "FOREIGN KEY (user_id) REFERENCES others (id)"} {
			b.Add(fmt.Sprintf("t%d", i), base+post("CONSTRAINT fk1 "+k))
		}
		add(b)
	}
	// tables: subsets, with a foreign key chain
	{
		b := New("my.tables")
		ts := map[string]string{
			"a": Tbl("a", "id int NOT NULL PRIMARY KEY", "x int"),
			"b": Tbl("b", "id int NOT NULL PRIMARY KEY", "x int", "KEY bx (x)"),
			"c": Tbl("c", "id int NOT NULL PRIMARY KEY", "name varchar(10)"),
		}
		for _, p := range Perms([]string{"a", "b", "c"}, 0) {
			s := ""
			for _, t := range p {
				s += ts[t]
			}
			b.Add(join(p), s)
		}
		add(b)
	}
	{
		b := New("my.fkdrop")
		users := Tbl("users", "id int NOT NULL PRIMARY KEY")
		zz := Tbl("zz", "id int NOT NULL PRIMARY KEY", "user_id int", "KEY ku (user_id)", "CONSTRAINT zfk FOREIGN KEY (user_id) REFERENCES users (id)")
		aa := Tbl("aa", "id int NOT NULL PRIMARY KEY", "user_id int", "KEY ku (user_id)", "CONSTRAINT afk FOREIGN KEY (user_id) REFERENCES users (id)")
		zn := Tbl("zz", "id int NOT NULL PRIMARY KEY", "user_id int", "KEY ku (user_id)")
		an := Tbl("aa", "id int NOT NULL PRIMARY KEY", "user_id int", "KEY ku (user_id)")
		b.Add("empty", "")
		b.Add("users", users)
		b.Add("uz", users+zz)
		b.Add("ua", users+aa)
		b.Add("uza", users+zz+aa)
		b.Add("z-nofk", zn)
		b.Add("a-nofk", an)
		b.Add("uz-nofk", users+zn)
		b.Add("za-nofk", zn+an)
		add(b)
	}
	// views, written the way the server reports them
	{
		b := New("my.view")
		base := Tbl("users", "id bigint(20) NOT NULL", "name varchar(20)", "age int") + Tbl("posts", "id bigint(20) NOT NULL", "user_id bigint(20)", "is_deleted tinyint(1)")
		vs := []string{
			"select mcdb.users.id as id from mcdb.users",
			"select mcdb.users.id as id, mcdb.users.name as name from mcdb.users",
			"select mcdb.users.id as uid from mcdb.users",
			"select mcdb.users.id as id from mcdb.users where (mcdb.users.age = 1)",
			"select mcdb.users.id as id from mcdb.users where (mcdb.users.age = 2)",
			"select mcdb.users.id as id from mcdb.users where ((mcdb.users.age > 1) and (mcdb.users.age < 9))",
			"select mcdb.users.id as id from mcdb.users where ((mcdb.users.age > 1) or (mcdb.users.age < 9))",
			"select u.id as id, p.id as post_id from (mcdb.users as u join mcdb.posts as p on ((u.id = p.user_id)))",
			"select u.id as id, p.id as post_id from (mcdb.users as u left join mcdb.posts as p on ((u.id = p.user_id)))",
			"select u.id as id, p.id as post_id from (mcdb.users as u join mcdb.posts as p on (((u.id = p.user_id) and (p.is_deleted = 0))))",
			"select distinct mcdb.users.age as age from mcdb.users",
			"select mcdb.users.id as id from mcdb.users order by mcdb.users.id desc",
			"select mcdb.users.id as id from mcdb.users limit 5",
			"select mcdb.users.age as age, count(0) as n from mcdb.users group by mcdb.users.age",
		}
		b.Add("none", base)
		for i, v := range vs {
			b.Add(fmt.Sprintf("v%d", i), base+"CREATE VIEW foo AS "+v+";\n")
		}
		b.Add("two", base+"CREATE VIEW foo AS "+vs[0]+";\nCREATE VIEW bar AS "+vs[3]+";\n")
		b.Add("bar", base+"CREATE VIEW bar AS "+vs[0]+";\n")
		b.Add("empty", "")
		add(b)
	}
	// triggers
	{
		b := New("my.trigger")
		base := Tbl("users", "id int NOT NULL AUTO_INCREMENT", "name varchar(20)", "PRIMARY KEY (id)") + Tbl("logs", "id int NOT NULL AUTO_INCREMENT", "log varchar(20)", "PRIMARY KEY (id)")
		b.Add("none", base)
		for i, v := range []string{
			"CREATE TRIGGER tg AFTER INSERT ON users FOR EACH ROW insert into logs(log) values ('a')",
			"CREATE TRIGGER tg AFTER INSERT ON users FOR EACH ROW insert into logs(log) values ('b')",
			"CREATE TRIGGER tg BEFORE INSERT ON users FOR EACH ROW insert into logs(log) values ('a')",
			"CREATE TRIGGER tg AFTER UPDATE ON users FOR EACH ROW insert into logs(log) values ('a')",
			"CREATE TRIGGER tg AFTER DELETE ON users FOR EACH ROW insert into logs(log) values ('a')",
			"CREATE TRIGGER tg AFTER INSERT ON logs FOR EACH ROW insert into users(name) values ('a')",
			"CREATE TRIGGER tg AFTER INSERT ON users FOR EACH ROW insert into logs(log, id) values ('a', 1)",
		} {
			b.Add(fmt.Sprintf("t%d", i), base+v+";\n")
		}
		b.F().Skip = func(a, c string) bool { return a != "none" && c == "none" } // dropping triggers is not supported
		add(b)
	}
	// keys over up to four columns, with prefix lengths anywhere
	for _, kind := range []string{"KEY k", "UNIQUE KEY k", "PRIMARY KEY"} {
		b := New("my.wide." + strings.Replace(kind, " ", "_", -1))
		cols := []string{"a int NOT NULL", "b int NOT NULL", "c varchar(50) NOT NULL", "d varchar(50) NOT NULL"}
		keys := [][]string{}
		for _, p := range Perms([]string{"a", "b", "c"}, 1) {
			keys = append(keys, p)
		}
		keys = append(keys, strings.Fields("a b c d"), strings.Fields("a b d c"), strings.Fields("a b d"), strings.Fields("d c b a"), strings.Fields("a c b d"))
		keys = append(keys, []string{"a", "c(10)"}, []string{"a", "c(5)"}, []string{"c(10)", "d(10)"}, []string{"c(10)", "d(5)"}, []string{"c", "d(5)"}, []string{"a", "b", "c(5)"}, []string{"a", "b", "d(7)"})
		b.Add("none", Tbl("t", cols...))
		for _, k := range keys {
			b.Add(strings.Join(k, "."), Tbl("t", append(append([]string{}, cols...), kind+" ("+strings.Join(k, ", ")+")")...))
		}
		add(b)
	}
	// foreign keys over several columns
	{
		b := New("my.fkwide")
		base := Tbl("p", "x int NOT NULL", "y int NOT NULL", "z int NOT NULL", "PRIMARY KEY (x, y, z)", "KEY pyx (y, x)", "KEY pxz (x, z)")
		post := func(keys ...string) string {
			return Tbl("q", append([]string{"id int NOT NULL PRIMARY KEY", "a int", "b int", "c int", "KEY kabc (a, b, c)", "KEY kba (b, a)", "KEY kac (a, c)"}, keys...)...)
		}
		b.Add("none", base+post())
		for i, k := range []string{"(a) REFERENCES p (x)", "(a, b) REFERENCES p (x, y)", "(b, a) REFERENCES p (y, x)", "(a, b) REFERENCES p (y, x)", "(a, b, c) REFERENCES p (x, y, z)", "(a, c) REFERENCES p (x, z)", "(a, c) REFERENCES p (x, y)"} {
			b.Add(fmt.Sprintf("f%d", i), base+post("CONSTRAINT fk FOREIGN KEY "+k))
			b.Add(fmt.Sprintf("f%dc", i), base+post("CONSTRAINT fk FOREIGN KEY "+k+" ON DELETE CASCADE"))
		}
		add(b)
	}
	// names that need quoting
	{
		b := New("my.names")
		for ti, t := range []string{"`order`", "`a-b`", "`with space`", "`Upper`", "`日本`", "`1st`", "`a.b`"} {
			for ci, c := range []string{"`group`", "`x-y`", "`x y`", "`Mixed`", "`ä`", "`key`", "`2`"} {
				b.Add(fmt.Sprintf("t%d_c%d", ti, ci), Tbl(t, "id int NOT NULL PRIMARY KEY", c+" int"))
				if ti < 3 {
					b.Add(fmt.Sprintf("t%d_c%d_k", ti, ci), Tbl(t, "id int NOT NULL PRIMARY KEY", "z int", c+" bigint NOT NULL", "KEY "+c+" ("+c+", z)"))
				}
			}
		}
		add(b)
	}
	// tables whose names differ in case only
	{
		b := New("my.case")
		var l []string
		for _, d := range []string{"x int", "x int NOT NULL", "x int|KEY k (x)", "x int, z int"} {
			q := strings.Split(d+"|", "|")
			l = append(l, Tbl("#", "id int NOT NULL PRIMARY KEY", q[0], q[1]))
		}
		l = append(l, "")
		for i, u := range l {
			for j, v := range l {
				if u+v != "" {
					b.Add(fmt.Sprintf("%d.%d", i, j), strings.Replace(u, "#", "`Item`", 1)+strings.Replace(v, "#", "item", 1))
				}
			}
		}
		add(b)
	}
	// several features at once, in two tables
	{
		b := New("my.mixed")
		cols := [][]string{{}, {"a int"}, {"b varchar(20) DEFAULT 'x'", "a bigint NOT NULL"}}
		pk := []string{"id int NOT NULL|PRIMARY KEY (id)", "id int NOT NULL AUTO_INCREMENT|PRIMARY KEY (id)", "id int NOT NULL|"}
		keys := []string{"", "KEY k (c)", "UNIQUE KEY k (c, h)", "KEY h (h)"}
		fks := []string{"", "CONSTRAINT f FOREIGN KEY (g) REFERENCES u (id)"}
		uu := []string{Tbl("u", "id int NOT NULL PRIMARY KEY"), Tbl("u", "n int", "id int NOT NULL PRIMARY KEY", "KEY n (n)")}
		Prod([]int{len(cols), len(pk), len(keys), len(fks), len(uu)}, func(ix []int) {
			p := strings.Split(pk[ix[1]], "|")
			k := keys[ix[2]]
			f := fks[ix[3]]
			parts := append([]string{p[0]}, cols[ix[0]]...)
			parts = append(parts, "g int", "h int", "c int", "KEY kg (g)", p[1], k, f)
			b.Add(id(ix), uu[ix[4]]+Tbl("t", parts...))
			if ix[4] == 1 {
				b.Add(id(ix)+"r", Tbl("t", append(append([]string{p[0]}, cols[ix[0]]...), "g int", "h int", "c int", "KEY kg (g)", p[1], k)...)+uu[1])
			}
		})
		add(b)
	}
	// more spellings of defaults
	{
		b := New("my.attrs2")
		for _, c := range []string{"x tinyint(1) DEFAULT true", "x tinyint(1) DEFAULT false", "x tinyint(1) DEFAULT TRUE", "x timestamp NULL DEFAULT now()", "x datetime DEFAULT now()", "x datetime DEFAULT current_timestamp()", "x datetime DEFAULT CURRENT_TIMESTAMP()", "x varchar(20) DEFAULT 'it''s'", "x varchar(20) DEFAULT \"q\"", "x varchar(20) DEFAULT 'a,b'", "x varchar(20) DEFAULT '(('", "x varchar(20) DEFAULT 'DROP'", "x decimal(10,2) DEFAULT 1", "x decimal(10,2) DEFAULT 1.5", "x decimal(10,2) DEFAULT 1.59", "x decimal(10,2) DEFAULT 10", "x decimal(10,2) DEFAULT 0", "x decimal(10,2) DEFAULT 0.0", "x double DEFAULT 1e3", "x double DEFAULT 1", "x double DEFAULT 1.25", "x double DEFAULT 1.0", "x double DEFAULT -1.5", "x decimal(10,2) DEFAULT -1.50", "x bigint DEFAULT 9223372036854775807"} {
			b.Add(strings.Replace(strings.TrimPrefix(c, "x "), " ", "_", -1), Tbl("t", "id int NOT NULL", c))
		}
		add(b)
	}
	// the index of a foreign key changes
	{
		b := New("my.fkkey")
		u := Tbl("u", "id int NOT NULL PRIMARY KEY")
		for i, k := range []string{"KEY k (g)", "KEY k (g, h)", "UNIQUE KEY k (g)"} {
			b.Add(fmt.Sprintf("k%d", i), u+Tbl("t", "g int", "h int", k))
			b.Add(fmt.Sprintf("k%df", i), u+Tbl("t", "g int", "h int", k, "CONSTRAINT f FOREIGN KEY (g) REFERENCES u (id)"))
		}
		add(b)
	}
	// a number written as a string in a form of its own
	{
		b := New("my.defstr")
		for _, c := range []string{"x int(11) DEFAULT '007'", "x int(11) DEFAULT '7'"} {
			b.Add(strings.Replace(strings.TrimPrefix(c, "x "), " ", "_", -1), Tbl("t", "id int NOT NULL", c))
		}
		add(b)
	}
	// names of views and triggers
	{
		base := Tbl("t", "id int NOT NULL PRIMARY KEY", "x int") + Tbl("tt", "x int")
		for i, n := range []string{"`Up`", "`a-b`", "`with space`", "`order`", "`it's`", "`日本`", "`1st`", "`a.b`", "`a``b`"} {
			b := New(fmt.Sprintf("my.viewname%d", i))
			b.Add("none", base)
			b.Add("v1", base+"CREATE VIEW "+n+" AS select mcdb.t.id as id from mcdb.t;\n")
			b.Add("v2", base+"CREATE VIEW "+n+" AS select mcdb.t.x as x from mcdb.t;\n")
			b.Add("other", base+"CREATE VIEW v AS select mcdb.t.x as x from mcdb.t;\n")
			add(b)
			b = New(fmt.Sprintf("my.trigname%d", i))
			b.Add("none", base)
			b.Add("t1", base+"CREATE TRIGGER "+n+" BEFORE INSERT ON t FOR EACH ROW insert into tt(x) values (1);\n")
			b.Add("t2", base+"CREATE TRIGGER "+n+" BEFORE INSERT ON t FOR EACH ROW insert into tt(x) values (2);\n")
			b.F().Skip = func(a, c string) bool { return a != "none" && c == "none" }
			add(b)
			b = New(fmt.Sprintf("my.tblname%d", i))
			b.Add("none", base)
			b.Add("t1", base+Tbl(n, "id int NOT NULL PRIMARY KEY", "x int"))
			b.Add("t2", base+Tbl(n, "id int NOT NULL PRIMARY KEY", "x int", "y int", "KEY k (x)"))
			b.Add("fk", base+Tbl(n, "id int NOT NULL PRIMARY KEY", "x int", "KEY k (x)", "CONSTRAINT f FOREIGN KEY (x) REFERENCES t (id)"))
			b.Add("fkto", base+Tbl(n, "id int NOT NULL PRIMARY KEY")+Tbl("aa", "x int", "KEY k (x)", "CONSTRAINT f2 FOREIGN KEY (x) REFERENCES "+n+" (id)"))
			b.Add("trig", base+Tbl(n, "id int NOT NULL PRIMARY KEY", "x int")+"CREATE TRIGGER tr BEFORE INSERT ON "+n+" FOR EACH ROW insert into tt(x) values (1);\n")
			b.F().Skip = func(a, c string) bool { return a == "trig" }
			add(b)
		}
	}
	// a foreign key or its name moves, and its column changes
	{
		b := New("my.fkmove")
		u := Tbl("u", "id int NOT NULL PRIMARY KEY")
		b.Add("a", u+Tbl("a", "x int", "KEY k (x)", "CONSTRAINT f FOREIGN KEY (x) REFERENCES u (id)")+Tbl("c", "x int", "KEY k (x)"))
		b.Add("c", u+Tbl("a", "x int", "KEY k (x)")+Tbl("c", "x int", "KEY k (x)", "CONSTRAINT f FOREIGN KEY (x) REFERENCES u (id)"))
		b.Add("big", u+Tbl("a", "x bigint", "KEY k (x)")+Tbl("c", "x int", "KEY k (x)"))
		add(b)
	}
	// views on views
	{
		b := New("my.viewview")
		base := Tbl("t", "id int NOT NULL", "x int")
		b.Add("none", base)
		b.Add("v", base+"CREATE VIEW m AS select mcdb.t.id as id from mcdb.t;\n")
		b.Add("after", base+"CREATE VIEW m AS select mcdb.t.id as id from mcdb.t;\nCREATE VIEW z AS select mcdb.m.id as id from mcdb.m;\n")
		b.Add("before", base+"CREATE VIEW m AS select mcdb.t.id as id from mcdb.t;\nCREATE VIEW a AS select mcdb.m.id as id from mcdb.m;\n")
		add(b)
	}
	// the word DROP where nothing is dropped
	{
		b := New("my.skipdrop")
		b.Add("none", Tbl("t", "id int NOT NULL PRIMARY KEY"))
		b.Add("col", Tbl("t", "id int NOT NULL PRIMARY KEY", "DROPPED_at datetime"))
		b.Add("def", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(50) DEFAULT 'DROP TABLE t'", "y int"))
		b.Add("esc", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(50) DEFAULT 'it''s DROP'"))
		b.Add("idx", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(50)", "KEY `DROP` (x)", "UNIQUE KEY `IX DROP` (x)"))
		b.Add("tbl", Tbl("t", "id int NOT NULL PRIMARY KEY")+Tbl("`BACKDROP`", "id int")+Tbl("`DROP`", "id int NOT NULL PRIMARY KEY", "`DROP` int"))
		b.Add("tbl2", Tbl("`DROP`", "`DROP` int", "z int", "KEY k (`DROP`)"))
		b.Add("com", Tbl("t", "id int NOT NULL PRIMARY KEY")+"CREATE TABLE u (\n  id int /* DROP it */\n);\n")
		b.Add("view", Tbl("t", "id int NOT NULL PRIMARY KEY")+"CREATE VIEW foo AS select 'DROP' as `drop` from mcdb.t;\n")
		b.Add("trig", Tbl("t", "id int NOT NULL PRIMARY KEY")+"CREATE TRIGGER tr BEFORE INSERT ON t FOR EACH ROW insert into t(id) values ('DROP');\n")
		b.Add("empty", "")
		b.F().Skip = func(a, c string) bool { return a == "trig" }
		add(b)
	}
	return out
}
