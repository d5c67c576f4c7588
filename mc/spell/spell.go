// Package spell writes schema files in other ways that mean the same.  It works on tokens of its own lexer; whether a
// respelled file really means the same is decided by the database (model server or engine), not here.
package spell

import (
	"strings"

	"mc/sqlx"
)

// S is one other spelling of a file.
type S struct {
	Name string
	SQL  string
	Lex  bool // differs in the spelling of tokens, white space and comments only: never to be refused
}

// words that are not names, wherever they stand in the files of the families
var keywords = map[string]bool{}

func init() {
	for _, w := range strings.Fields(`
create table view index unique key primary foreign references constraint check default not null on delete update cascade restrict set no action
auto_increment comment character charset collate unsigned zerofill engine using btree hash fulltext spatial after first add alter only drop
int integer bigint smallint tinyint mediumint varchar char character text mediumtext longtext tinytext decimal numeric dec fixed float double precision real
datetime timestamp date time timestamptz timetz year enum json jsonb blob longblob mediumblob tinyblob binary varbinary bit bool boolean money polygon point line lseg box path circle inet cidr macaddr macaddr8 interval citext xml tsvector tsquery hstore geometry int2 int4 int8 float4 float8 bpchar varbit uuid bytea serial bigserial smallserial
varying with without zone interval inet cidr xml point hstore citext int2 int4 int8 float4 float8 array
as select from where and or in is like between exists case when then else end distinct group by having order limit offset union all join inner left right outer cross natural asc desc
current_timestamp now true false generated always stored virtual identity policy permissive restrictive for to public current_user session_user insert
trigger before each row begin end new old into values if replace or materialized nulls last concurrently include or
temporary exists any some cast extension schema sequence owned start increment collation deferrable initially deferred immediate match full simple
autoincrement rowid without pragma strict instead of raise recursive nocase rtrim glob regexp escape
datetime2 datetimeoffset ntext smalldatetime smallmoney nvarchar nchar rowversion uniqueidentifier image
clustered nonclustered go pad_index fillfactor ignore_dup_key statistics_norecompute statistics_incremental allow_row_locks allow_page_locks on off replication`) {
		keywords[w] = true
	}
}

type toks struct {
	src string
	t   []sqlx.Tok
	d   sqlx.Dialect
}

func lex(sql string, d sqlx.Dialect) *toks {
	t, err := sqlx.Lex(sql, d)
	if err != nil {
		panic(err)
	}
	return &toks{sql, t, d}
}

func (x *toks) text(i int) string { return x.src[x.t[i].Pos:x.t[i].End] }

// gap is what stands before token i.
func (x *toks) gap(i int) string {
	if i == 0 {
		return x.src[:x.t[0].Pos]
	}
	return x.src[x.t[i-1].End:x.t[i].Pos]
}

// build writes the tokens with other texts and gaps.
func (x *toks) build(text func(i int) string, gap func(i int) string) string {
	var b strings.Builder
	n := 0
	for i := range x.t {
		if x.t[i].K == sqlx.EOF {
			break
		}
		b.WriteString(gap(i))
		b.WriteString(text(i))
		n = x.t[i].End
	}
	b.WriteString(x.src[n:])
	return b.String()
}

func (x *toks) kw(i int) bool {
	return x.t[i].K == sqlx.Word && keywords[strings.ToLower(x.t[i].S)]
}

func (x *toks) op(i int, s string) bool {
	return i >= 0 && i < len(x.t) && x.t[i].K == sqlx.Op && x.t[i].S == s
}
func (x *toks) word(i int, s string) bool {
	return i >= 0 && i < len(x.t) && x.t[i].K == sqlx.Word && x.t[i].U == s
}
func (x *toks) words(i int, s ...string) bool {
	for k, w := range s {
		if !x.word(i+k, w) {
			return false
		}
	}
	return true
}

// first says that a statement starts at token i.
func (x *toks) first(i int) bool { return i == 0 || x.op(i-1, ";") }

// Lexical are the spellings that change nothing but white space, comments, case of keywords and quotes around names.
func Lexical(sql string, d sqlx.Dialect) (out []S) {
	x := lex(sql, d)
	add := func(name, s string) {
		if s != sql {
			out = append(out, S{name, s, true})
		}
	}
	with := func(name string, text, gap func(i int) string) {
		if text == nil {
			text = x.text
		}
		if gap == nil {
			gap = x.gap
		}
		add(name, x.build(text, gap))
	}
	kase := func(f func(string) string) func(i int) string {
		return func(i int) string {
			if x.kw(i) {
				return f(x.text(i))
			}
			return x.text(i)
		}
	}
	with("lower", kase(strings.ToLower), nil)
	with("upper", kase(strings.ToUpper), nil)
	with("mixed", kase(func(s string) string { return strings.ToUpper(s[:1]) + strings.ToLower(s[1:]) }), nil)
	tight := func(i int) string { // as little white space as possible
		if x.gap(i) == "" || i == 0 {
			return ""
		}
		for _, p := range []string{"(", ")", ",", ";"} {
			if x.op(i, p) || x.op(i-1, p) {
				return ""
			}
		}
		return " "
	}
	between := func(s string, edge bool) func(i int) string {
		return func(i int) string {
			if x.gap(i) == "" && !(i == 0 && edge) {
				return ""
			}
			return s
		}
	}
	with("tight", nil, tight)
	with("wide", nil, between("\n\t  \n", true))
	with("crlf", nil, func(i int) string { return strings.Replace(x.gap(i), "\n", "\r\n", -1) })
	with("tabs", nil, between("\t", false))
	with("block", nil, func(i int) string {
		if x.first(i) {
			return "/* it's; a \"comment\" */" + x.gap(i)
		}
		return x.gap(i)
	})
	with("block-inside", nil, between(" /* it's; a `comment` */ ", false))
	with("line", nil, func(i int) string {
		if x.first(i) {
			return x.gap(i) + "-- it's; a \"comment\"\n--\n"
		}
		return x.gap(i)
	})
	with("line-inside", nil, between(" -- it's; a `comment`\n", false))
	with("line-after", nil, func(i int) string {
		if i > 0 && (x.op(i-1, ",") || x.op(i-1, ";") || x.op(i-1, "(") && strings.Contains(x.gap(i), "\n")) {
			return " -- it's a \"comment\n" + x.gap(i)
		}
		return x.gap(i)
	})
	add("line-end", sql+"-- it's the end")
	add("block-end", sql+"/* it's the ; end */")
	if d == sqlx.MySQL {
		with("hash", nil, func(i int) string {
			if x.first(i) {
				return x.gap(i) + "# it's; a \"comment\"\n"
			}
			return x.gap(i)
		})
		with("hash-inside", nil, between(" # it's; a `comment`\n", false))
	}
	add("blank", ";\n ; "+strings.Replace(sql, ";\n", ";;\n ;\n", -1)+"\n\n;\n")
	add("no-end", strings.TrimRight(sql, "; \n"))
	add("around", "\n\n  \t"+sql+"\n\n\t ")
	quote := func(i int) string {
		t := x.t[i]
		if t.K != sqlx.Word || x.kw(i) || t.Pre != "" {
			return x.text(i)
		}
		if x.op(i+1, "(") && x.gap(i+1) == "" { // a function
			return x.text(i)
		}
		if d == sqlx.PG && t.S != strings.ToLower(t.S) {
			return x.text(i)
		}
		switch d {
		case sqlx.MySQL, sqlx.SQLite:
			return "`" + t.S + "`"
		case sqlx.MSSQL:
			return "[" + t.S + "]"
		}
		return "\"" + t.S + "\""
	}
	with("quoted", quote, nil)
	if d == sqlx.SQLite || d == sqlx.MSSQL {
		with("quoted2", func(i int) string {
			if s := quote(i); s != x.text(i) {
				return "\"" + x.t[i].S + "\""
			}
			return x.text(i)
		}, nil)
	}
	with("unquoted", func(i int) string {
		t := x.t[i]
		if t.K != sqlx.Quoted || keywords[strings.ToLower(t.S)] || d == sqlx.PG && t.S != strings.ToLower(t.S) {
			return x.text(i)
		}
		for k, c := range t.S {
			if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || k > 0 && c >= '0' && c <= '9') {
				return x.text(i)
			}
		}
		return t.S
	}, nil)
	// everything at once
	with("all", func(i int) string {
		if x.kw(i) {
			return strings.ToLower(x.text(i))
		}
		return quote(i)
	}, func(i int) string {
		if x.first(i) {
			return "-- one\n/* two */ ;\n"
		}
		return tight(i)
	})
	return
}
