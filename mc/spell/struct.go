package spell

import (
	"fmt"
	"strings"

	"mc/sqlx"
)

// item is one element of a CREATE TABLE: tokens [from, to).
type item struct{ from, to int }

type table struct {
	start    int // CREATE
	name     [2]int
	open     int // (
	items    []item
	close    int // )
	end      int // ; or the end
	nameText string
}

func (x *toks) n() int {
	n := len(x.t)
	for n > 0 && x.t[n-1].K == sqlx.EOF {
		n--
	}
	return n
}

// end is the index of the ; that ends the statement of token i.
func (x *toks) end(i int) int {
	for i < x.n() && !x.op(i, ";") {
		i++
	}
	return i
}

func (x *toks) tables() (out []table) {
	for i := 0; i < x.n(); i++ {
		if !x.first(i) || !x.words(i, "CREATE", "TABLE") {
			continue
		}
		t := table{start: i, end: x.end(i)}
		j := i + 2
		for j < t.end && !x.op(j, "(") {
			j++
		}
		t.name = [2]int{i + 2, j}
		t.nameText = x.span(i+2, j)
		t.open = j
		d, from := 0, j+1
		for ; j < t.end; j++ {
			switch {
			case x.op(j, "("):
				d++
			case x.op(j, ")"):
				d--
			}
			if d == 0 || d == 1 && x.op(j, ",") {
				t.items = append(t.items, item{from, j})
				from = j + 1
				if d == 0 {
					break
				}
			}
		}
		t.close = j
		if j < t.end {
			out = append(out, t)
		}
	}
	return
}

// span is the text of tokens [a, b).
func (x *toks) span(a, b int) string {
	if a >= b {
		return ""
	}
	return x.src[x.t[a].Pos:x.t[b-1].End]
}

var itemWords = map[string]bool{"PRIMARY": true, "KEY": true, "UNIQUE": true, "INDEX": true, "CONSTRAINT": true, "FOREIGN": true, "CHECK": true, "FULLTEXT": true, "SPATIAL": true, "EXCLUDE": true, "LIKE": true}

func (x *toks) isColumn(it item) bool {
	return it.from < it.to && !(x.t[it.from].K == sqlx.Word && itemWords[x.t[it.from].U])
}

// has finds a sequence of words outside parentheses.
func (x *toks) has(it item, s ...string) int {
	d := 0
	for i := it.from; i < it.to; i++ {
		if x.op(i, "(") {
			d++
		} else if x.op(i, ")") {
			d--
		} else if d == 0 && x.words(i, s...) && i+len(s) <= it.to {
			return i
		}
	}
	return -1
}

// typeEnd is where the type of a column ends.
func (x *toks) typeEnd(it item) int {
	i := it.from + 2
	for i < it.to && (x.word(i, "VARYING") || x.word(i, "PRECISION") || x.word(i, "WITH") || x.word(i, "WITHOUT") || x.word(i, "TIME") || x.word(i, "ZONE")) {
		i++
	}
	if x.op(i, "(") {
		for i < it.to && !x.op(i, ")") {
			i++
		}
		i++
	}
	for i < it.to && (x.word(i, "WITH") || x.word(i, "WITHOUT") || x.word(i, "TIME") || x.word(i, "ZONE") || x.word(i, "UNSIGNED") || x.word(i, "ZEROFILL") || x.op(i, "[") || x.op(i, "]") || x.op(i, "[]")) {
		i++
	}
	return i
}

// edit is a replacement of tokens [from, to) by text, or an insertion when they are equal.
type edit struct {
	from, to int
	text     string
}

func (x *toks) apply(es []edit) string {
	var b strings.Builder
	pos := 0
	for _, e := range es {
		if e.from == e.to {
			p := len(x.src)
			if e.from > 0 {
				p = x.t[e.from-1].End
			} else {
				p = 0
			}
			b.WriteString(x.src[pos:p] + e.text)
			pos = p
			continue
		}
		b.WriteString(x.src[pos:x.t[e.from].Pos] + e.text)
		pos = x.t[e.to-1].End
	}
	return b.String() + x.src[pos:]
}

// synonyms of types, per dialect; the first words are looked for at a column's type, and what is in parentheses is kept.
var synonyms = map[sqlx.Dialect][][2]string{
	sqlx.MySQL: {{"INT", "integer"}, {"INTEGER", "int"}, {"INT", "int(11)"}, {"BIGINT", "bigint(20)"}, {"TINYINT(1)", "boolean"}, {"TINYINT(1)", "bool"}, {"BOOLEAN", "bool"}, {"BOOLEAN", "tinyint(1)"}, {"BOOL", "tinyint(1)"},
		{"DECIMAL", "numeric"}, {"DECIMAL", "dec"}, {"NUMERIC", "decimal"}, {"DECIMAL(10)", "decimal(10,0)"}, {"DECIMAL(10)", "decimal"}, {"DOUBLE", "double precision"}, {"DOUBLE PRECISION", "double"}, {"DOUBLE", "real"}, {"VARCHAR", "character varying"}, {"CHAR", "character"}, {"SMALLINT", "smallint(6)"}, {"MEDIUMINT", "mediumint(9)"},
		{"CHAR(1)", "char"}, {"BIT(1)", "bit"}, {"DATETIME", "datetime(0)"}},
	sqlx.PG: {{"INT", "integer"}, {"INTEGER", "int"}, {"INT", "int4"}, {"INTEGER", "int4"}, {"BIGINT", "int8"}, {"SMALLINT", "int2"}, {"VARCHAR", "character varying"}, {"CHARACTER VARYING", "varchar"}, {"CHAR", "character"}, {"CHARACTER", "char"}, {"BOOL", "boolean"}, {"BOOLEAN", "bool"},
		{"DECIMAL", "numeric"}, {"NUMERIC", "decimal"}, {"TIMESTAMP", "timestamp without time zone"}, {"TIMESTAMP WITHOUT TIME ZONE", "timestamp"}, {"TIMESTAMPTZ", "timestamp with time zone"}, {"TIMESTAMP WITH TIME ZONE", "timestamptz"}, {"TIME", "time without time zone"}, {"TIMETZ", "time with time zone"}, {"DOUBLE PRECISION", "float8"}, {"REAL", "float4"}, {"DOUBLE PRECISION", "float"}, {"SERIAL", "serial4"}, {"BIGSERIAL", "serial8"}, {"FLOAT", "double precision"}},
	sqlx.MSSQL: {{"INT", "integer"}, {"INTEGER", "int"}, {"DECIMAL", "dec"}, {"DECIMAL", "numeric"}, {"NUMERIC", "decimal"}},
}

// Structural are spellings of another kind: types by other names, what is the default anyway, keys and indexes inside or outside.
func Structural(sql string, d sqlx.Dialect) (out []S) {
	x := lex(sql, d)
	add := func(name string, es []edit) {
		if len(es) > 0 {
			out = append(out, S{Name: name, SQL: x.apply(es)})
		}
	}
	ts := x.tables()
	cols := func(f func(t table, it item) (edit, bool)) (es []edit) {
		for _, t := range ts {
			for _, it := range t.items {
				if x.isColumn(it) {
					if e, ok := f(t, it); ok {
						es = append(es, e)
					}
				}
			}
		}
		return
	}
	others := func(f func(t table, it item) (edit, bool)) (es []edit) {
		for _, t := range ts {
			for _, it := range t.items {
				if it.from < it.to && !x.isColumn(it) {
					if e, ok := f(t, it); ok {
						es = append(es, e)
					}
				}
			}
		}
		return
	}
	for _, sy := range synonyms[d] {
		w := strings.Fields(strings.NewReplacer("(", " ( ", ")", " )").Replace(sy[0]))
		add("type:"+sy[0]+"="+sy[1], cols(func(t table, it item) (edit, bool) {
			i := it.from + 1
			for _, s := range w {
				if i >= it.to || !(x.word(i, s) || x.op(i, s) || x.t[i].K == sqlx.Num && x.text(i) == s) {
					return edit{}, false
				}
				i++
			}
			if len(w) == 1 && x.op(i, "(") && strings.Contains(sy[1], "(") {
				return edit{}, false
			}
			if len(w) == 1 && (x.word(i, "PRECISION") || x.word(i, "VARYING") || x.word(i, "WITH") || x.word(i, "WITHOUT")) {
				return edit{}, false
			}
			if j := strings.Index(sy[1], " with"); j > 0 && x.op(i, "(") { // timestamp(3) without time zone
				k := i
				for !x.op(k, ")") {
					k++
				}
				return edit{it.from + 1, k + 1, sy[1][:j] + x.span(i, k+1) + sy[1][j:]}, true
			}
			return edit{it.from + 1, i, sy[1]}, true
		}))
	}
	isKey := func(it item) bool {
		return x.has(it, "PRIMARY") >= 0 || x.has(it, "GENERATED") >= 0 || x.has(it, "AS") >= 0
	}
	nullable := func(it item) bool { return x.has(it, "NULL") < 0 && !isKey(it) && x.has(it, "AUTO_INCREMENT") < 0 }
	last := func(text string, ok func(t table, it item) bool) []edit {
		return cols(func(t table, it item) (edit, bool) { return edit{it.to, it.to, text}, ok(t, it) })
	}
	after := func(text string, ok func(t table, it item) bool) []edit {
		return cols(func(t table, it item) (edit, bool) {
			e := x.typeEnd(it)
			for e < it.to && (x.word(e, "CHARACTER") || x.word(e, "SET") || x.word(e, "COLLATE")) { // with its argument
				e++
				if !x.word(e, "SET") {
					e++
				}
			}
			return edit{e, e, text}, ok(t, it)
		})
	}
	nul := func(t table, it item) bool {
		return nullable(it)
	}
	add("null", after(" NULL", nul))
	add("null-last", last(" NULL", nul))
	noDefault := func(t table, it item) bool { return nullable(it) && x.has(it, "DEFAULT") < 0 }
	add("default-null", after(" DEFAULT NULL", noDefault))
	add("null-default-null", after(" NULL DEFAULT NULL", noDefault))
	add("no-default-null", cols(func(t table, it item) (edit, bool) {
		i := x.has(it, "DEFAULT", "NULL")
		return edit{i, i + 2, ""}, i > 0
	}))
	add("not-null-first", cols(func(t table, it item) (edit, bool) { // NOT NULL DEFAULT x = DEFAULT x NOT NULL
		i, j := x.has(it, "NOT", "NULL"), x.has(it, "DEFAULT")
		if i < 0 || j != i+2 || j+2 > it.to || x.op(j+2, "(") || j+2 < it.to && x.t[j+2].K == sqlx.Op {
			return edit{}, false
		}
		return edit{i, j + 2, x.span(j, j+2) + " NOT NULL"}, true
	}))
	// indexes
	asc := func(word string) (es []edit) {
		in := func(from, to int) {
			dep := 0
			for i := from; i < to; i++ {
				switch {
				case x.op(i, "("):
					dep++
				case x.op(i, ")"):
					dep--
				}
				if dep == 1 && x.op(i, ",") || dep == 0 && x.op(i, ")") {
					if !x.word(i-1, "ASC") && !x.word(i-1, "DESC") && !x.word(i-1, "FIRST") && !x.word(i-1, "LAST") {
						es = append(es, edit{i, i, word})
					}
					if dep == 0 {
						return
					}
				}
			}
		}
		for i := 0; i < x.n(); i++ {
			if x.first(i) && x.words(i, "CREATE", "INDEX") || x.first(i) && x.words(i, "CREATE", "UNIQUE", "INDEX") {
				j := i
				for j < x.end(i) && !x.op(j, "(") {
					j++
				}
				in(j, x.end(i))
			}
			if d == sqlx.MySQL {
				for _, t := range ts {
					if t.start != i {
						continue
					}
					for _, it := range t.items {
						if x.isColumn(it) || x.has(it, "FOREIGN") >= 0 || x.has(it, "CHECK") >= 0 || x.has(it, "FULLTEXT") >= 0 || x.has(it, "SPATIAL") >= 0 {
							continue
						}
						j := it.from
						for j < it.to && !x.op(j, "(") {
							j++
						}
						in(j, it.to)
					}
				}
			}
		}
		return
	}
	add("asc", asc(" ASC"))
	if d == sqlx.PG {
		var es []edit
		for i := 0; i < x.n(); i++ {
			if !x.first(i) || !x.word(i, "CREATE") || !(x.word(i+1, "INDEX") || x.words(i+1, "UNIQUE", "INDEX")) {
				continue
			}
			j := i
			for j < x.end(i) && !x.op(j, "(") && !x.word(j, "USING") {
				j++
			}
			if x.op(j, "(") {
				es = append(es, edit{j, j, " USING btree "})
			} else if x.words(j, "USING", "BTREE") {
				es = append(es, edit{j, j + 2, ""})
			}
		}
		add("btree", es)
		es = nil
		for i := 0; i < x.n(); i++ {
			if x.first(i) && x.words(i, "CREATE", "POLICY") {
				if k := x.has(item{i, x.end(i)}, "AS", "PERMISSIVE"); k > 0 {
					es = append(es, edit{k, k + 2, ""})
				}
			}
		}
		add("policy-no-as", es)
		es = nil
		for i := 0; i < x.n(); i++ {
			if x.first(i) && x.words(i, "CREATE", "POLICY") {
				if k := x.has(item{i, x.end(i)}, "FOR", "ALL"); k > 0 {
					es = append(es, edit{k, k + 2, ""})
				}
			}
		}
		add("policy-no-for", es)
		// public.
		es = nil
		for i := 0; i < x.n(); i++ {
			if i > 0 && (x.word(i-1, "TABLE") || x.word(i-1, "REFERENCES") || x.word(i-1, "ONLY") || x.word(i-1, "VIEW") || x.word(i-1, "ON") && (x.t[i].K == sqlx.Word || x.t[i].K == sqlx.Quoted) && !x.word(i, "DELETE") && !x.word(i, "UPDATE")) && !x.word(i, "ONLY") && !x.op(i+1, ".") {
				es = append(es, edit{i, i + 1, "public." + x.text(i)})
			}
		}
		add("public", es)
		es = nil
		for i := 0; i < x.n(); i++ {
			if x.word(i, "PUBLIC") && x.op(i+1, ".") {
				es = append(es, edit{i, i + 2, ""})
			}
		}
		add("no-public", es)
	}
	// CREATE OR REPLACE VIEW
	if d == sqlx.PG || d == sqlx.MySQL {
		var es []edit
		for i := 0; i < x.n(); i++ {
			if x.first(i) && x.words(i, "CREATE", "VIEW") {
				es = append(es, edit{i, i + 2, "CREATE OR REPLACE VIEW"})
			}
		}
		add("or-replace", es)
	}
	// foreign keys
	rule := "NO ACTION"
	if d == sqlx.MySQL {
		rule = "RESTRICT"
	}
	for _, w := range [][2]string{{"DELETE", "UPDATE"}, {"UPDATE", "DELETE"}} {
		w := w
		fk := func(it item) (edit, bool) {
			i := x.has(it, "REFERENCES")
			if i < 0 || x.has(it, "ON", w[0]) >= 0 {
				return edit{}, false
			}
			for i < it.to && !x.op(i, ")") {
				i++
			}
			return edit{i + 1, i + 1, " ON " + w[0] + " " + rule}, true
		}
		es := others(func(t table, it item) (edit, bool) { return fk(it) })
		for i := 0; i < x.n(); i++ {
			if x.first(i) && x.word(i, "ALTER") {
				if e, ok := fk(item{i, x.end(i)}); ok {
					es = append(es, e)
				}
			}
		}
		add("fk-on-"+strings.ToLower(w[0]), es)
	}
	// keys and indexes elsewhere
	var es []edit
	var inline []edit
	for _, t := range ts {
		for k, it := range t.items {
			// PRIMARY KEY (c) -> c ... PRIMARY KEY
			if it.to-it.from == 5 && x.words(it.from, "PRIMARY", "KEY") && x.op(it.from+2, "(") && k > 0 {
				for _, c := range t.items {
					if x.isColumn(c) && norm(x, c.from) == norm(x, it.from+3) && x.has(c, "REFERENCES") < 0 && x.has(c, "CHECK") < 0 {
						inline = append(inline, edit{c.to, c.to, " PRIMARY KEY"}, edit{it.from - 1, it.to, ""})
					}
				}
			}
			// c ... PRIMARY KEY -> PRIMARY KEY (c)
			if i := x.has(it, "PRIMARY", "KEY"); i > 0 && x.isColumn(it) {
				es = append(es, edit{i, i + 2, ""}, edit{t.close, t.close, ",\n  PRIMARY KEY (" + x.text(it.from) + ")\n"})
			}
		}
	}
	add("pk-inline", sorted(inline))
	add("pk-separate", es)
	if d == sqlx.PG || d == sqlx.MSSQL {
		es = nil
		for _, t := range ts {
			tail := ""
			for _, it := range t.items {
				if x.words(it.from, "PRIMARY", "KEY") {
					es = append(es, edit{it.from - 1, it.to, ""})
					tail += fmt.Sprintf(";\nALTER TABLE ONLY %s ADD CONSTRAINT %s_pkey %s", t.nameText, bare(t.nameText), x.span(it.from, it.to))
				}
				if x.word(it.from, "CONSTRAINT") && x.has(it, "FOREIGN", "KEY") == it.from+2 {
					es = append(es, edit{it.from - 1, it.to, ""})
					tail += fmt.Sprintf(";\nALTER TABLE ONLY %s ADD %s", t.nameText, x.span(it.from, it.to))
				}
			}
			if tail != "" {
				es = append(es, edit{t.end, t.end, tail})
			}
		}
		add("constraints-outside", es)
	}
	if d == sqlx.MySQL {
		es = nil
		var us, ks []edit
		for _, t := range ts {
			tail := ""
			for _, it := range t.items {
				i := it.from
				kind := ""
				switch {
				case x.word(i, "KEY") || x.word(i, "INDEX"):
					kind = "INDEX"
					i++
					o := "KEY"
					if x.word(it.from, "KEY") {
						o = "INDEX"
					}
					ks = append(ks, edit{it.from, it.from + 1, o})
				case x.words(i, "UNIQUE", "KEY") || x.words(i, "UNIQUE", "INDEX"):
					kind = "UNIQUE INDEX"
					i += 2
					us = append(us, edit{it.from + 1, it.from + 2, ""})
				case x.words(i, "FULLTEXT", "KEY"):
					kind = "FULLTEXT INDEX"
					i += 2
				default:
					continue
				}
				if x.op(i, "(") || it.from-1 == t.open {
					continue
				}
				es = append(es, edit{it.from - 1, it.to, ""})
				tail += fmt.Sprintf(";\nCREATE %s %s ON %s %s", kind, x.text(i), t.nameText, x.span(i+1, it.to))
			}
			if tail != "" {
				es = append(es, edit{t.end, t.end, tail})
			}
		}
		add("indexes-outside", es)
		add("key-index", ks)
		add("unique", us)
		// CREATE INDEX i ON t (c) -> inside
		in := map[string]string{}
		es = nil
		for i := 0; i < x.n(); i++ {
			if !x.first(i) || !x.word(i, "CREATE") {
				continue
			}
			kind, j := "KEY", i+1
			if x.word(j, "UNIQUE") || x.word(j, "FULLTEXT") {
				kind = x.t[j].U + " KEY"
				j++
			}
			if !x.word(j, "INDEX") || !x.word(j+2, "ON") || !x.op(j+4, "(") {
				continue
			}
			es = append(es, edit{i, x.end(i), ""})
			in[bare(x.text(j+3))] += ",\n  " + kind + " " + x.text(j+1) + " " + x.span(j+4, x.end(i))
		}
		for _, t := range ts {
			if s := in[bare(t.nameText)]; s != "" {
				es = append(es, edit{t.close, t.close, s})
			}
		}
		add("indexes-inside", sorted(es))
	}
	return
}

func norm(x *toks, i int) string { return strings.ToLower(x.t[i].S) }

func bare(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		s = s[i+1:]
	}
	return strings.Trim(s, "`\"[]")
}

func sorted(es []edit) []edit {
	for i := range es {
		for j := i; j > 0 && (es[j].from < es[j-1].from || es[j].from == es[j-1].from && es[j].to < es[j-1].to); j-- {
			es[j], es[j-1] = es[j-1], es[j]
		}
	}
	return es
}
