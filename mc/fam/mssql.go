package fam

import (
	"fmt"
	"strings"

	"mc/eng"
)

// MSSQL families: what the README and mssqldef's tests support; no change of a kept column's type or nullability.
func MSSQL(thorough bool) []*eng.Family {
	var out []*eng.Family
	add := func(b *B) { out = append(out, b.F()) }

	// tables come and go
	{
		b := New("ms.tables")
		def := map[string]string{
			"a": Tbl("a", "id int NOT NULL PRIMARY KEY", "x varchar(20)"), "b": Tbl("b", "id bigint NOT NULL", "y int DEFAULT 0"),
			"c": Tbl("[c d]", "[my id] int NOT NULL", "[select] int"), "d": Tbl("dbo.d", "id int IDENTITY(1,1) PRIMARY KEY"),
		}
		for _, p := range Perms([]string{"a", "b", "c", "d"}, 0) {
			if len(p) > 2 && !thorough {
				continue
			}
			s := ""
			for _, k := range p {
				s += def[k]
			}
			if s == "" {
				s = Tbl("z", "id int")
			}
			b.Add(join(p), s)
		}
		add(b)
	}
	// columns come and go
	{
		b := New("ms.cols")
		def := map[string]string{"a": "a int NOT NULL", "b": "b varchar(20)", "c": "c bigint DEFAULT 5", "d": "d date"}
		names := []string{"a", "b", "c"}
		if thorough {
			names = append(names, "d")
		}
		for _, p := range Perms(names, 0) {
			var cs []string
			for _, c := range p {
				cs = append(cs, def[c])
			}
			b.Add("id_"+join(p), Tbl("t", append([]string{"id int NOT NULL"}, cs...)...))
		}
		for _, p := range Subsets(names) {
			if len(p) < 1 {
				continue
			}
			var cs []string
			for _, c := range p {
				cs = append(cs, def[c])
			}
			b.Add("nid_"+join(p), Tbl("t", cs...))
		}
		add(b)
	}
	// types: a column of each is added, kept and dropped
	{
		b := New("ms.types")
		for _, t := range []string{"tinyint", "smallint", "int", "bigint", "bit", "decimal", "decimal(10)", "decimal(10,2)", "numeric(12,3)", "money", "smallmoney", "float", "real",
			"date", "time", "time(3)", "datetime", "datetime2", "smalldatetime", "datetimeoffset", "datetimeoffset(2)", "char", "char(3)", "varchar", "varchar(20)",
			"nchar(3)", "nvarchar(20)", "text", "ntext", "binary(4)", "varbinary(8)"} {
			n := strings.NewReplacer("(", "_", ")", "", ",", "_").Replace(t)
			b.Add(n, Tbl("t", "id int NOT NULL", "x_"+n+" "+t))
			b.Add(n+"_nn", Tbl("t", "id int NOT NULL", "y_"+n+" "+t+" NOT NULL"))
		}
		add(b)
	}
	// defaults
	for gi, g := range [][]string{
		{"x int", "x int DEFAULT 0", "x int DEFAULT 1", "x int DEFAULT -1", "x int DEFAULT 10", "x int DEFAULT NULL", "x int CONSTRAINT df_x DEFAULT 0", "x int CONSTRAINT df_x DEFAULT 1", "x int CONSTRAINT df_y DEFAULT 1", "x int CONSTRAINT [df x] DEFAULT 2", "x int DEFAULT (0)", "x int DEFAULT ((1))", "x int CONSTRAINT df_x DEFAULT ((0))", "x int CONSTRAINT df_x DEFAULT ((-1))"},
		{"x bigint NOT NULL", "x bigint NOT NULL DEFAULT 0", "x bigint NOT NULL CONSTRAINT df_x DEFAULT 12", "x bigint NOT NULL DEFAULT 9223372036854775807"},
		{"x varchar(20)", "x varchar(20) DEFAULT ''", "x varchar(20) DEFAULT 'a'", "x varchar(20) DEFAULT 'A'", "x varchar(20) DEFAULT 'b'", "x varchar(20) DEFAULT 'it''s'", "x varchar(20) DEFAULT 'a b'", "x varchar(20) DEFAULT '(('", "x varchar(20) DEFAULT '1'", "x varchar(20) DEFAULT 'NULL'", "x varchar(20) DEFAULT 'DROP'", "x varchar(20) CONSTRAINT df_x DEFAULT 'a'", "x varchar(20) CONSTRAINT df_x DEFAULT ('b')"},
		{"x decimal(10,2)", "x decimal(10,2) DEFAULT 1.5", "x decimal(10,2) DEFAULT 0", "x decimal(10,2) DEFAULT 0.0", "x decimal(10,2) DEFAULT 1.50", "x decimal(10,2) DEFAULT -1.5"},
		{"x datetime", "x datetime DEFAULT getdate()", "x datetime DEFAULT CURRENT_TIMESTAMP", "x datetime DEFAULT (getdate())", "x datetime DEFAULT GETDATE()", "x datetime CONSTRAINT df_x DEFAULT getdate()", "x datetime DEFAULT '2020-01-01'"},
		{"x bit", "x bit DEFAULT 0", "x bit DEFAULT 1", "x bit CONSTRAINT df_x DEFAULT ((1))"},
		{"x float", "x float DEFAULT 1.5", "x float DEFAULT 0"},
	} {
		b := New(fmt.Sprintf("ms.default%d", gi))
		for i, a := range g {
			b.Add(fmt.Sprint(i), Tbl("t", "id int NOT NULL", a))
		}
		b.Add("none", Tbl("t", "id int NOT NULL"))
		add(b)
	}
	// checks
	for gi, g := range [][]string{
		{"x int", "x int CHECK (x > 0)", "x int CHECK (x > 1)", "x int CHECK (x >= 0)", "x int CONSTRAINT ck_x CHECK (x > 0)", "x int CONSTRAINT ck_x CHECK ([x]>(1))", "x int CONSTRAINT ck_x CHECK ([x]>(0))", "x int CONSTRAINT ck_y CHECK ([x]>(0))", "x int CHECK NOT FOR REPLICATION (x > 0)", "x int CONSTRAINT [ck x] CHECK (x > 0)"},
		{"x int", "x int CHECK (x > 0 AND x < 10)", "x int CHECK (x = 1 OR x = 2)", "x int CHECK (x > 0 AND x < 10 OR x = 20)", "x int CHECK (x > 0 AND (x < 10 OR x = 20))", "x int CHECK ((x > 0 AND x < 10) OR x = 20)", "x int CHECK (x <> 3)", "x int CHECK (NOT x = 3)", "x int CHECK (x + 1 > 2)", "x int CHECK (x IS NOT NULL)", "x int CHECK (x > -1)"},
		{"x varchar(20)", "x varchar(20) CHECK (x <> '')", "x varchar(20) CHECK (x = 'a')", "x varchar(20) CHECK (x = 'A')", "x varchar(20) CHECK (x = 'a' OR x = 'b')", "x varchar(20) CHECK (len(x) > 2)", "x varchar(20) CHECK (x LIKE 'a%')", "x varchar(20) CHECK (x = 'it''s')", "x varchar(20) CHECK (x = ')')", "x varchar(20) CHECK (x = 'a  b')"},
		{"x int DEFAULT 1", "x int DEFAULT 1 CHECK (x > 0)", "x int CONSTRAINT df_x DEFAULT 1 CONSTRAINT ck_x CHECK (x > 0)", "x int CONSTRAINT ck_x CHECK (x > 0)", "x int CHECK (x > 0)"},
	} {
		b := New(fmt.Sprintf("ms.check%d", gi))
		for i, a := range g {
			b.Add(fmt.Sprint(i), Tbl("t", "id int NOT NULL", a))
		}
		b.Add("none", Tbl("t", "id int NOT NULL"))
		add(b)
	}
	// checks that the server writes in another way
	for _, c := range []string{"in x int CHECK (x IN (1,2))", "between x int CHECK (x BETWEEN 1 AND 5)"} {
		f := strings.SplitN(c, " ", 2)
		b := New("ms.checkform." + f[0])
		b.Add("c", Tbl("t", "id int NOT NULL", f[1]))
		b.Add("none", Tbl("t", "id int NOT NULL", "x int"))
		add(b)
	}
	// identity
	{
		b := New("ms.identity")
		for i, a := range []string{"", "x int IDENTITY(1,1)", "x int IDENTITY(1,1) NOT FOR REPLICATION", "x bigint IDENTITY(1,1)", "x int NOT NULL IDENTITY(1,1)", "x int IDENTITY(10,5)", "x int IDENTITY(1,1) PRIMARY KEY", "x bigint IDENTITY(100,1)"} {
			for j, o := range []string{"y int", "z int"} {
				// a column of another type or identity has another name, so that it is added and dropped
				b.Add(fmt.Sprintf("%d.%d", i, j), Tbl("t", strings.Replace(a, "x ", fmt.Sprintf("x%d ", i), 1), o))
			}
		}
		b.F().Skip = func(x, y string) bool {
			// a table that had both identity columns for a moment is refused
			return x[0] != y[0] && x[0] != '0' && y[0] != '0'
		}
		add(b)
		// a column becomes an identity, or stops to be one, by dropping and adding it
		b = New("ms.identity.change")
		for i, a := range []string{"x int NOT NULL IDENTITY(1,1)", "x int NOT NULL IDENTITY(1,1) NOT FOR REPLICATION"} {
			b.Add(fmt.Sprint(i), Tbl("t", "y int", a))
		}
		add(b)
	}
	// indexes
	{
		b := New("ms.index")
		ix := []string{"", "CREATE INDEX ix_a ON t (a);\n", "CREATE INDEX ix_a ON t (b);\n", "CREATE INDEX ix_a ON t (a DESC);\n", "CREATE INDEX ix_a ON t (a, b);\n", "CREATE INDEX ix_a ON t (b, a);\n", "CREATE UNIQUE INDEX ix_a ON t (a);\n",
			"CREATE NONCLUSTERED INDEX ix_a ON t (a);\n", "CREATE CLUSTERED INDEX ix_a ON t (a);\n", "CREATE UNIQUE CLUSTERED INDEX ix_a ON t (a);\n", "CREATE UNIQUE NONCLUSTERED INDEX ix_a ON t (a, b DESC);\n",
			"CREATE NONCLUSTERED INDEX ix_a ON t (a) INCLUDE (b);\n", "CREATE NONCLUSTERED INDEX ix_a ON t (a) INCLUDE (b, c);\n", "CREATE NONCLUSTERED INDEX ix_a ON t (a) INCLUDE (c);\n", "CREATE NONCLUSTERED INDEX [ix b] ON [dbo].[t] ([b]);\n",
			"CREATE NONCLUSTERED INDEX ix_a ON dbo.t (a);\n", "CREATE INDEX ix_a ON t (a, b DESC);\n", "CREATE INDEX ix_a ON t (a DESC, b);\n", "CREATE INDEX ix_a ON t (a DESC, b DESC);\n", "CREATE UNIQUE NONCLUSTERED INDEX ix_a ON t (a, b);\n",
			"CREATE NONCLUSTERED INDEX ix_a ON t (a, b DESC, c) INCLUDE (id);\n", "CREATE NONCLUSTERED INDEX ix_a ON t (a, b, c DESC) INCLUDE (id);\n"}
		for i, x := range ix {
			b.Add(fmt.Sprint("s", i), Tbl("t", "id int NOT NULL", "a int", "b int", "c int")+x)
		}
		for i, x := range []string{"INDEX ix_a (a)", "INDEX ix_a NONCLUSTERED (a)", "INDEX ix_a CLUSTERED (a)", "INDEX ix_a UNIQUE CLUSTERED (a)", "INDEX ix_a UNIQUE NONCLUSTERED (a DESC)", "INDEX ix_a NONCLUSTERED (a, b)"} {
			b.Add(fmt.Sprint("i", i), Tbl("t", "id int NOT NULL", "a int", "b int", "c int", x))
		}
		add(b)
		b = New("ms.index.many")
		two := []string{"CREATE NONCLUSTERED INDEX ix_a ON t (a);\n", "CREATE NONCLUSTERED INDEX ix_b ON t (b);\n", "CREATE UNIQUE NONCLUSTERED INDEX ix_c ON t (c, a);\n", "CREATE CLUSTERED INDEX ix_d ON t (d);\n"}
		for m, p := range Subsets(two) {
			b.Add(fmt.Sprint(m), Tbl("t", "id int NOT NULL", "a int", "b int", "c int", "d int")+strings.Join(p, ""))
			if len(p) == 2 {
				b.Add(fmt.Sprint(m, "r"), Tbl("t", "id int NOT NULL", "a int", "b int", "c int", "d int")+p[1]+p[0])
			}
		}
		b.Add("nocols", Tbl("t", "id int NOT NULL"))
		add(b)
		b = New("ms.index.options")
		opts := []string{"", "PAD_INDEX = ON", "FILLFACTOR = 10", "FILLFACTOR = 90", "IGNORE_DUP_KEY = ON", "STATISTICS_NORECOMPUTE = ON", "ALLOW_ROW_LOCKS = OFF", "ALLOW_PAGE_LOCKS = OFF", "PAD_INDEX = ON, FILLFACTOR = 10", "PAD_INDEX = OFF", "PAD_INDEX = OFF, STATISTICS_NORECOMPUTE = OFF, IGNORE_DUP_KEY = OFF, ALLOW_ROW_LOCKS = ON, ALLOW_PAGE_LOCKS = ON"}
		for i, o := range opts {
			w := ""
			if o != "" {
				w = " WITH (" + o + ")"
			}
			b.Add(fmt.Sprint("i", i), Tbl("t", "id int NOT NULL", "a int", "INDEX ix_a UNIQUE NONCLUSTERED (a)"+w))
			b.Add(fmt.Sprint("p", i), Tbl("t", "id int NOT NULL", "a int", "CONSTRAINT pk PRIMARY KEY CLUSTERED (id)"+w))
		}
		add(b)
	}
	// primary keys
	{
		b := New("ms.pk")
		for i, x := range []string{"", "PRIMARY KEY (id)", "CONSTRAINT pk_t PRIMARY KEY (id)", "CONSTRAINT pk_t PRIMARY KEY CLUSTERED (id)", "CONSTRAINT pk_t PRIMARY KEY NONCLUSTERED (id)", "CONSTRAINT pk_t PRIMARY KEY (id, a)", "CONSTRAINT pk_t PRIMARY KEY (a, id)", "CONSTRAINT pk_t PRIMARY KEY (id DESC)", "CONSTRAINT pk_t PRIMARY KEY (id, a DESC)", "CONSTRAINT pk_u PRIMARY KEY (id)", "CONSTRAINT pk_t PRIMARY KEY (a)", "PRIMARY KEY (a)", "CONSTRAINT [pk t] PRIMARY KEY CLUSTERED ([id], [a])"} {
			b.Add(fmt.Sprint(i), Tbl("t", "id int NOT NULL", "a int NOT NULL", x))
		}
		b.Add("inline", Tbl("t", "id int NOT NULL PRIMARY KEY", "a int NOT NULL"))
		b.Add("inline2", Tbl("t", "id int PRIMARY KEY", "a int NOT NULL"))
		b.Add("inlinea", Tbl("t", "id int NOT NULL", "a int NOT NULL PRIMARY KEY"))
		b.Add("noid", Tbl("t", "a int NOT NULL"))
		b.Add("noidpk", Tbl("t", "a int NOT NULL", "CONSTRAINT pk_t PRIMARY KEY (a)"))
		b.Add("noa", Tbl("t", "id int NOT NULL", "CONSTRAINT pk_t PRIMARY KEY (id)"))
		b.F().Skip = func(x, y string) bool {
			// an inline PRIMARY KEY on another column than the current key is refused ("This is not handled yet")
			return strings.HasPrefix(y, "inline")
		}
		add(b)
		b = New("ms.pk.inline")
		for i, x := range []string{"id int NOT NULL PRIMARY KEY", "id int PRIMARY KEY", "id int NOT NULL", "id int NOT NULL|CONSTRAINT pk_t PRIMARY KEY (id)", "id int NOT NULL|CONSTRAINT pk_t PRIMARY KEY NONCLUSTERED (id)", "id int NOT NULL|PRIMARY KEY (id, a)"} {
			q := strings.Split(x+"|", "|")
			b.Add(fmt.Sprint(i), Tbl("t", q[0], "a int NOT NULL", q[1]))
			b.Add(fmt.Sprint(i, "b"), Tbl("t", q[0], "a int NOT NULL", "b int", q[1]))
		}
		add(b)
	}
	// unique
	{
		b := New("ms.unique")
		for i, x := range []string{"a int", "a int UNIQUE"} {
			for j, y := range []string{"b int", "b int UNIQUE"} {
				b.Add(fmt.Sprintf("%d.%d", i, j), Tbl("t", "id int NOT NULL", x, y))
			}
		}
		b.Add("gone", Tbl("t", "id int NOT NULL"))
		b.F().Skip = func(x, y string) bool {
			// UNIQUE isn't added to columns that exist, and not taken from them
			return x != y && x != "gone" && !(y == "gone" && x == "0.0")
		}
		add(b)
	}
	// foreign keys
	{
		b := New("ms.fk")
		par := Tbl("p", "id int NOT NULL PRIMARY KEY", "a int") + Tbl("q", "id int NOT NULL PRIMARY KEY")
		for i, x := range []string{"", "CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES p (id)", "CONSTRAINT fk_1 FOREIGN KEY (y) REFERENCES p (id)", "CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES q (id)", "CONSTRAINT fk_2 FOREIGN KEY (x) REFERENCES p (id)",
			"CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES p (id) ON DELETE CASCADE", "CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES p (id) ON DELETE SET NULL ON UPDATE CASCADE", "CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES p (id) ON UPDATE SET DEFAULT",
			"CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES p (id) ON DELETE NO ACTION ON UPDATE NO ACTION", "CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES p (id) NOT FOR REPLICATION", "CONSTRAINT [fk 1] FOREIGN KEY ([x]) REFERENCES [dbo].[p] ([id])",
			"CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES p (id),\n  CONSTRAINT fk_2 FOREIGN KEY (y) REFERENCES q (id)", "CONSTRAINT fk_2 FOREIGN KEY (y) REFERENCES q (id)", "CONSTRAINT fk_1 FOREIGN KEY (x) REFERENCES dbo.p (id)"} {
			b.Add(fmt.Sprint(i), par+Tbl("t", "id int NOT NULL", "x int", "y int", x))
		}
		b.Add("nox", par+Tbl("t", "id int NOT NULL", "y int"))
		b.Add("not", par)
		b.Add("nop", Tbl("q", "id int NOT NULL PRIMARY KEY")+Tbl("t", "id int NOT NULL", "x int", "y int"))
		b.Add("none", Tbl("t", "id int NOT NULL", "x int", "y int"))
		add(b)
		b = New("ms.fk.composite")
		par = Tbl("p", "a int NOT NULL", "b int NOT NULL", "CONSTRAINT pk_p PRIMARY KEY (a, b)")
		for i, x := range []string{"", "CONSTRAINT fk_1 FOREIGN KEY (x, y) REFERENCES p (a, b)", "CONSTRAINT fk_1 FOREIGN KEY (y, x) REFERENCES p (a, b)", "CONSTRAINT fk_1 FOREIGN KEY (x, y) REFERENCES p (a, b) ON DELETE CASCADE", "CONSTRAINT fk_2 FOREIGN KEY (x, y) REFERENCES p (a, b)"} {
			b.Add(fmt.Sprint(i), par+Tbl("t", "id int NOT NULL", "x int", "y int", x))
		}
		b.Add("not", par)
		add(b)
	}
	// views
	{
		b := New("ms.view")
		base := Tbl("t", "id int NOT NULL", "a int", "b varchar(20)")
		for i, v := range []string{"", "CREATE VIEW v AS SELECT id FROM t;\n", "CREATE VIEW v AS SELECT id, a FROM t;\n", "CREATE VIEW v AS SELECT a FROM t;\n", "CREATE VIEW w AS SELECT id FROM t;\n", "CREATE VIEW v AS SELECT id FROM t WHERE a > 0;\n", "CREATE VIEW v AS SELECT id FROM t WHERE b = 'x y';\n", "CREATE VIEW v AS SELECT id FROM t WHERE b = 'x  y';\n",
			"CREATE VIEW v AS\nSELECT id\nFROM t\nWHERE a > 0;\n", "CREATE VIEW v AS SELECT t.id AS i, t.a FROM t;\n", "CREATE VIEW [dbo].[v] AS SELECT [id] FROM [dbo].[t];\n", "CREATE VIEW v AS SELECT x.id, y.a FROM t x INNER JOIN t y ON x.id = y.id;\n", "CREATE VIEW v AS SELECT count(*) AS n FROM t GROUP BY a;\n", "CREATE VIEW v AS SELECT id FROM t;\nCREATE VIEW w AS SELECT id FROM t;\n", "CREATE VIEW v AS SELECT id FROM t;\nCREATE VIEW w AS SELECT id FROM v;\n", "CREATE VIEW dbo.v AS SELECT id FROM dbo.t;\n", "CREATE VIEW v AS SELECT id FROM t WHERE b = 'X y';\n"} {
			b.Add(fmt.Sprint(i), base+v)
		}
		b.Add("not", Tbl("u", "id int"))
		b.Add("viewcol", Tbl("t", "id int NOT NULL", "b varchar(20)")+"CREATE VIEW v AS SELECT id FROM t;\n")
		add(b)
	}
	// triggers
	{
		b := New("ms.trigger")
		base := Tbl("t", "id int NOT NULL", "a int") + Tbl("l", "id int NOT NULL", "a int")
		for i, v := range []string{"", "CREATE TRIGGER g ON t AFTER INSERT AS INSERT INTO l (id) VALUES (1);\n", "CREATE TRIGGER g ON t AFTER INSERT AS INSERT INTO l (id) VALUES (2);\n", "CREATE TRIGGER g ON t AFTER UPDATE AS INSERT INTO l (id) VALUES (1);\n", "CREATE TRIGGER g ON t AFTER DELETE AS DELETE FROM l WHERE id = 1;\n", "CREATE TRIGGER g ON t AFTER INSERT AS UPDATE l SET a = 1;\n", "CREATE TRIGGER [g] ON [dbo].[t] AFTER INSERT AS INSERT INTO [l] ([id]) VALUES (1);\n", "CREATE TRIGGER g ON t AFTER INSERT AS\nINSERT INTO l (id)\nVALUES (1);\n"} {
			b.Add(fmt.Sprint(i), base+v)
			if i > 0 {
				b.Add(fmt.Sprint(i, "+"), base+v+"CREATE TRIGGER h ON l AFTER INSERT AS DELETE FROM t WHERE id = 3;\n")
			}
		}
		b.F().Skip = func(x, y string) bool {
			// triggers are not dropped
			return x != "0" && y == "0" || strings.HasSuffix(x, "+") && !strings.HasSuffix(y, "+")
		}
		add(b)
	}
	// words and names that look like statements
	{
		b := New("ms.skipdrop")
		b.Add("none", Tbl("t", "id int NOT NULL PRIMARY KEY"))
		b.Add("col", Tbl("t", "id int NOT NULL PRIMARY KEY", "DROPPED_at datetime"))
		b.Add("def", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(30) CONSTRAINT df_x DEFAULT 'DROP TABLE t'", "y int"))
		b.Add("def2", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(30) CONSTRAINT df_x DEFAULT 'DROP VIEW'", "y int CONSTRAINT ck_y CHECK (y > 0)"))
		b.Add("idx", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(30)")+"CREATE NONCLUSTERED INDEX [DROP I] ON t (x);\nCREATE UNIQUE INDEX [IX DROP] ON t (x);\n")
		b.Add("tbl", Tbl("t", "id int NOT NULL PRIMARY KEY")+Tbl("BACKDROP", "id int")+Tbl("[DROP]", "id int NOT NULL PRIMARY KEY", "[DROP] int"))
		b.Add("view", Tbl("t", "id int NOT NULL PRIMARY KEY", "x varchar(30)")+"CREATE VIEW foo AS SELECT id FROM t WHERE x = 'DROP';\n")
		b.Add("fk", Tbl("t", "id int NOT NULL PRIMARY KEY")+Tbl("u", "id int NOT NULL", "t_id int", "CONSTRAINT [DROP fk] FOREIGN KEY (t_id) REFERENCES t (id)"))
		b.Add("empty", "")
		add(b)
	}
	// several kinds together
	{
		b := New("ms.mixed")
		for m := 0; m < 64; m++ {
			on := func(i int, s string) string {
				if m>>uint(i)&1 == 1 {
					return s
				}
				return ""
			}
			s := Tbl("p", "id int NOT NULL PRIMARY KEY")
			s += Tbl("t", "id int NOT NULL", on(0, "x int CONSTRAINT df_x DEFAULT 1"), on(1, "y varchar(10) CONSTRAINT ck_y CHECK (y <> '')"), "r int", on(2, "CONSTRAINT pk_t PRIMARY KEY (id)"), on(3, "CONSTRAINT fk_r FOREIGN KEY (r) REFERENCES p (id)"))
			s += on(4, "CREATE NONCLUSTERED INDEX ix_r ON t (r);\n") + on(5, "CREATE VIEW v AS SELECT id, r FROM t;\n")
			b.Add(fmt.Sprint(m), s)
		}
		add(b)
	}
	return out
}
