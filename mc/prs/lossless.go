package prs

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"mc/chk"
	"mc/eng"

	sp "github.com/k0kubun/sqldef/sqlparser"
)

// Dump renders a syntax tree completely; with strip, parentheses around expressions are left out.
func Dump(n interface{}, strip bool) string {
	d := dumper{strip: strip}
	d.dump(reflect.ValueOf(n), 0)
	return d.String()
}

// DumpWith renders a syntax tree with values in place of bind variables.
func DumpWith(n interface{}, subst map[string]interface{}) string {
	d := dumper{subst: subst}
	d.dump(reflect.ValueOf(n), 0)
	return d.String()
}

type dumper struct {
	bytes.Buffer
	strip bool
	subst map[string]interface{}
}

// number is the numeric literal that an expression is, if it is one.
func (b *dumper) number(e sp.Expr) *sp.SQLVal {
	if u, ok := e.(*sp.UnaryExpr); ok && u.Operator == "-" {
		l := b.number(u.Expr)
		if l == nil {
			return nil
		}
		if l.Val[0] == '-' {
			return &sp.SQLVal{Type: l.Type, Val: l.Val[1:]}
		}
		return &sp.SQLVal{Type: l.Type, Val: append([]byte("-"), l.Val...)}
	}
	l, ok := e.(*sp.SQLVal)
	if !ok {
		return nil
	}
	if l.Type == sp.ValArg {
		if l, ok = b.subst[string(l.Val)].(*sp.SQLVal); !ok {
			return nil
		}
	}
	if (l.Type == sp.IntVal || l.Type == sp.FloatVal || l.Type == sp.HexNum) && len(l.Val) > 0 {
		return l
	}
	return nil
}

func (b *dumper) dump(v reflect.Value, d int) {
	strip := b.strip
	if d > 60 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if strip && v.Kind() == reflect.Ptr && v.Type().Elem().Name() == "ParenExpr" {
			b.dump(v.Elem().Field(0), d)
			return
		}
		if u, ok := v.Interface().(*sp.UnaryExpr); ok && u.Operator == "-" {
			// minus one and a half is the same value as the literal -1.5
			if l := b.number(u); l != nil {
				b.dump(reflect.ValueOf(l), d)
				return
			}
		}
		if l, ok := v.Interface().(*sp.SQLVal); ok && l.Type == sp.ValArg && b.subst[string(l.Val)] != nil {
			b.dump(reflect.ValueOf(b.subst[string(l.Val)]), d)
			return
		}
		if o, ok := v.Interface().(*sp.Order); ok {
			_, null := o.Expr.(*sp.NullVal)
			if l, ok := o.Expr.(*sp.SQLVal); ok && l.Type == sp.ValArg {
				_, null = b.subst[string(l.Val)].(*sp.NullVal)
			}
			if null { // has no direction
				b.dump(reflect.ValueOf(&sp.NullVal{}), d)
				return
			}
		}
		b.dump(v.Elem(), d+1)
	case reflect.Struct:
		t := v.Type()
		b.WriteString(t.Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).Name == "Metadata" || t.Field(i).Name == "_" || t.Field(i).Name == "lowered" || t.Field(i).Name == "Comments" {
				continue
			}
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(t.Field(i).Name + ":")
			b.dump(v.Field(i), d+1)
		}
		b.WriteByte('}')
	case reflect.Slice:
		if l, ok := v.Interface().(sp.ListArg); ok && b.subst[string(l)] != nil {
			b.dump(reflect.ValueOf(b.subst[string(l)]), d)
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%q", v.Bytes())
			return
		}
		b.WriteString(v.Type().Name() + "[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.dump(v.Index(i), d+1)
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float64:
		fmt.Fprint(b, v.Float())
	default:
		fmt.Fprintf(b, "<%s>", v.Kind())
	}
}

// queryKind says whether a statement is a query or changes data, which is what printing is for; the rest is printed for display.
func queryKind(st sp.Statement) bool {
	switch st.(type) {
	case *sp.Select, *sp.Union, *sp.ParenSelect, *sp.Insert, *sp.Update, *sp.Delete, *sp.Stream, *sp.Set:
		return true
	}
	return false
}

// payload lists the identifiers and literals of a text; words are what can be a name or a keyword.
func payload(mode sp.ParserMode, in string) (pay []string, words, quals map[string]int) {
	words, quals = map[string]int{}, map[string]int{}
	last := ""
	t := sp.NewStringTokenizer(in, mode)
	for i := 0; i < 2*len(in)+4; i++ {
		k, v := t.Scan()
		if k == '.' && last != "" {
			quals[last]++
		}
		last = string(v)
		switch k {
		case 0, sp.LEX_ERROR:
			return
		case sp.ID, sp.STRING:
			if string(v) != "dual" { // select without a table prints "from dual"
				pay = append(pay, string(v))
			}
		case sp.INTEGRAL, sp.FLOAT, sp.HEXNUM, sp.HEX, sp.BIT_LITERAL, sp.VALUE_ARG, sp.LIST_ARG:
			pay = append(pay, fmt.Sprintf("%d %s", k, strings.TrimLeft(string(v), "-")))
		default:
			if len(v) > 0 {
				words[string(v)]++
			}
		}
	}
	return
}

// samePayload says whether the printed form has the same identifiers and literals as the input, each as often; a name that is
// a keyword is quoted when printed.
func samePayload(mode sp.ParserMode, insert bool, in, printed string) (string, bool) {
	a, words, quals := payload(mode, in)
	b, printedWords, _ := payload(mode, back(mode, printed))
	left := map[string]int{}
	for _, x := range a {
		left[x]++
	}
	ok := true
	for _, x := range b {
		if left[x] > 0 {
			left[x]--
		} else if words[strings.ToLower(x)] > 0 {
			words[strings.ToLower(x)]--
		} else {
			ok = false
		}
	}
	for w, n := range left {
		if insert {
			n -= quals[w] // INSERT INTO t (t.a) is kept as INSERT INTO t (a)
		}
		if n > printedWords[strings.ToLower(w)] {
			ok = false
		}
	}
	if ok {
		return "", true
	}
	sort.Strings(a)
	sort.Strings(b)
	return fmt.Sprintf("identifiers and literals of the input %q\nof the printed form %q", a, b), false
}

type lossless struct {
	c *chk.Ctx
}

func (x *lossless) fail(kind, mode, in, detail string) {
	x.c.Fail(eng.Failure{Prop: "C14", Case: "in:" + mode + ":" + fmt.Sprintf("%q", in), Kind: kind, Detail: detail})
}

// exprs are the expressions and queries inside a DDL that the schema generator compares and prints.
func exprs(st sp.Statement) []sp.SQLNode {
	d, ok := st.(*sp.DDL)
	if !ok {
		return nil
	}
	var out []sp.SQLNode
	if d.View != nil && d.View.Definition != nil {
		out = append(out, d.View.Definition)
	}
	if d.Policy != nil {
		if d.Policy.Using != nil && d.Policy.Using.Expr != nil {
			out = append(out, d.Policy.Using.Expr)
		}
		if d.Policy.WithCheck != nil && d.Policy.WithCheck.Expr != nil {
			out = append(out, d.Policy.WithCheck.Expr)
		}
	}
	if d.IndexSpec != nil && d.IndexSpec.Where != nil {
		out = append(out, d.IndexSpec.Where.Expr)
	}
	if d.TableSpec != nil {
		for _, c := range d.TableSpec.Columns {
			if c.Type.Check != nil {
				out = append(out, c.Type.Check.Where.Expr)
			}
		}
	}
	return out
}

// one checks one text in one mode; it returns whether it was a query.
func (x *lossless) one(mode sp.ParserMode, in string) int {
	var st sp.Statement
	var err error
	if p := Safe(func() { st, err = sp.ParseStrictDDLWithMode(in, mode) }); p != "" || err != nil || st == nil {
		return 0
	}
	if queryKind(st) {
		x.roundtrip(mode, in, st, sp.String(st), true)
		return 1
	}
	n := 0
	for _, e := range exprs(st) {
		n++
		s := sp.String(e)
		if _, ok := e.(sp.SelectStatement); !ok {
			s = "select 1 from t where " + s
			w, err := sp.ParseStrictDDLWithMode(back(mode, s), mode)
			if err != nil {
				x.fail("printed-not-accepted", ModeName(mode), in, "printed: "+s+"\nerror: "+err.Error())
				continue
			}
			e = w.(*sp.Select)
			// the expression as it was and as it is read again
			if a, b := Dump(exprs(st)[n-1], false), Dump(w.(*sp.Select).Where.Expr, false); a != b {
				x.fail("changed", ModeName(mode), in, "printed: "+s+"\nwas "+a+"\nis  "+b)
			}
			continue
		}
		x.roundtrip(mode, in, e, s, false)
	}
	return n
}

// back is the printed form as it is written in the mode: printing quotes names with backticks, which PostgreSQL's mode does not
// know, and escapes strings with backslashes, which only MySQL's mode does.
func back(mode sp.ParserMode, printed string) string {
	if mode == sp.ParserModeMysql || !strings.ContainsAny(printed, "`'") {
		return printed
	}
	var b bytes.Buffer
	for i := 0; i < len(printed); i++ {
		switch c := printed[i]; {
		case c == '\'':
			v, rest, ok := decodeString(printed[i:])
			if !ok {
				return printed // not accepted then
			}
			b.WriteString("'" + strings.Replace(v, "'", "''", -1) + "'")
			i = len(printed) - len(rest) - 1
		case c == '`' && mode == sp.ParserModePostgres:
			b.WriteByte('"')
			for i++; i < len(printed); i++ {
				if printed[i] == '`' {
					if i+1 == len(printed) || printed[i+1] != '`' {
						break
					}
					i++
				} else if printed[i] == '"' {
					b.WriteByte('"')
				}
				b.WriteByte(printed[i])
			}
			b.WriteByte('"')
		case c == '`':
			b.WriteByte(c)
			for i++; i < len(printed) && printed[i] != '`'; i++ {
				b.WriteByte(printed[i])
			}
			b.WriteByte(c)
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

func (x *lossless) roundtrip(mode sp.ParserMode, in string, st sp.SQLNode, s string, whole bool) {
	st2, err := sp.ParseStrictDDLWithMode(back(mode, s), mode)
	if err != nil {
		x.fail("printed-not-accepted", ModeName(mode), in, "printed: "+s+"\nerror: "+err.Error())
		return
	}
	if s2 := sp.String(st2); strings.Replace(s2, " ", "", -1) != strings.Replace(s, " ", "", -1) {
		x.fail("not-stable", ModeName(mode), in, "printed: "+s+"\nagain:   "+s2)
		return
	}
	if a, b := Dump(st, false), Dump(st2, false); a != b {
		x.fail("changed", ModeName(mode), in, "printed: "+s+"\nwas "+a+"\nis  "+b)
		return
	}
	_, insert := st.(*sp.Insert)
	if _, set := st.(*sp.Set); whole && !set && !strings.Contains(s, " next 1 values") { // the scope word of SET is a comment to the parser
		if d, ok := samePayload(mode, insert, in, s); !ok {
			x.fail("lost", ModeName(mode), in, "printed: "+s+"\n"+d)
		}
	}
}

// --- operators

type op struct {
	text string
	prec int // MySQL reference manual, "Operator Precedence", lowest 1
	kind int // 2 binary, 1 prefix, 0 suffix
}

// ops is the operator table of the MySQL reference manual, lowest to highest, as far as the parser knows the operators.
var ops = []op{
	{"or", 1, 2}, {"and", 2, 2}, {"&&", 2, 2}, {"not", 3, 1},
	{"= ", 5, 2}, {"<=>", 5, 2}, {">=", 5, 2}, {"<", 5, 2}, {"<>", 5, 2}, {"like", 5, 2}, {"not like", 5, 2}, {"regexp", 5, 2}, {"is null", 5, 0}, {"is not true", 5, 0},
	{"|", 6, 2}, {"&", 7, 2}, {"<<", 8, 2}, {">>", 8, 2}, {"-", 9, 2}, {"+", 9, 2}, {"*", 10, 2}, {"/", 10, 2}, {"div", 10, 2}, {"%", 10, 2}, {"mod", 10, 2}, {"^", 11, 2},
	{"-", 12, 1}, {"~", 12, 1}, {"+", 12, 1}, {"!", 13, 1}, {"binary", 14, 1}, {"collate utf8_bin", 15, 0},
}

type tree struct {
	o    *op
	l, r *tree
}

func (t *tree) full(leaf *int) string {
	if t == nil {
		*leaf++
		return fmt.Sprintf("c%d", *leaf)
	}
	switch t.o.kind {
	case 2:
		l := t.l.full(leaf)
		return "(" + l + " " + t.o.text + " " + t.r.full(leaf) + ")"
	case 1:
		return "(" + t.o.text + " " + t.l.full(leaf) + ")"
	}
	return "(" + t.l.full(leaf) + " " + t.o.text + ")"
}

// min writes the tree with only the parentheses that precedence and left associativity require.
func (t *tree) min(leaf *int) string {
	if t == nil {
		*leaf++
		return fmt.Sprintf("c%d", *leaf)
	}
	sub := func(k *tree, right bool) string {
		s := k.min(leaf)
		if k != nil {
			paren := k.o.prec < t.o.prec || k.o.prec == t.o.prec && right
			if !paren && !right && endsLow(k, t.o.prec) {
				paren = true // ... not a = b, written to the left of something that binds tighter than "not"
			}
			if t.o.kind == 1 && k.o.kind == 1 {
				paren = false // prefix operators nest
			}
			if right && k.o.kind == 1 {
				paren = k.o.prec < t.o.prec
			}
			if paren {
				s = "(" + s + ")"
			}
		}
		return s
	}
	switch t.o.kind {
	case 2:
		l := sub(t.l, false)
		return l + " " + t.o.text + " " + sub(t.r, true)
	case 1:
		return t.o.text + " " + sub(t.l, true)
	}
	return sub(t.l, false) + " " + t.o.text
}

// endsLow: a prefix operator at the right edge would take what follows
func endsLow(k *tree, prec int) bool {
	for k != nil {
		if k.o.kind == 1 && k.o.prec < prec {
			return true
		}
		switch k.o.kind {
		case 2:
			k = k.r
		case 1:
			k = k.l
		default:
			return false
		}
	}
	return false
}

func trees(n int, f func(t *tree)) {
	if n == 0 {
		f(nil)
		return
	}
	for i := range ops {
		o := &ops[i]
		if o.kind != 2 {
			trees(n-1, func(l *tree) { f(&tree{o: o, l: l}) })
			continue
		}
		for k := 0; k < n; k++ {
			trees(k, func(l *tree) {
				trees(n-1-k, func(r *tree) { f(&tree{o: o, l: l, r: r}) })
			})
		}
	}
}

// group checks that a tree written with few parentheses is read as the tree.
func (x *lossless) group(t *tree) (accepted bool) {
	var i, j int
	min, full := t.min(&i), t.full(&j)
	in := "select 1 from t where " + min
	a, err := sp.ParseStrictDDL(in)
	if err != nil {
		return false
	}
	b, err := sp.ParseStrictDDL("select 1 from t where " + full)
	if err != nil {
		return false
	}
	da, db := Dump(a, true), Dump(b, true)
	if da != db {
		x.fail("grouping", "mysql", in, "is not read as "+full)
		return true
	}
	x.roundtrip(sp.ParserModeMysql, in, a, sp.String(a), true)
	x.roundtrip(sp.ParserModeMysql, "select 1 from t where "+full, b, sp.String(b), true)
	return true
}

// --- forms of identifiers and literals

var idForms = []string{"a", "A", "Ab", "`a`", "`select`", "`Select`", "`a b`", "`a``b`", "```a`", "`a```", "`1a`", "`1`", "`a-b`", "`a.b`", "`日本`", "`é`", "`\xff`", "`a\xe6`", "`\U00010061`", "`\U00010061\U00010062`", "`'`", "`\"`", "`a\\`", "`\n`", "`@a`", "@a", "`dual`", "`Dual`", "`x'1'`", "`b`", "`x`", "`/*a*/`", "`--`", "`a;b`", "`:v`", "`?`", "`$`", "`a$b`", "`_binary`", "`null`", "`true`", "`default`", "`current_timestamp`", "`Key`", "`interval`", "`\U00020041`", "_a", "a1", "`div`", "`MOD`", "`%s`", "`a%vb`"}

var idSlots = []string{"select %s from t", "select 1 from %s", "select t.%s from t", "select %s.a from t", "select %s.* from t", "select s.%s.a from t", "select 1 as %s from t", "select 1 from t as %s", "select %s(a) from t", "select 1 from t order by %s", "select 1 from t use index (%s)", "select 1 from t group by %s having %s > 1", "insert into %s(a) values (1)", "insert into t(%s) values (1)", "insert into t(a) values (1) on duplicate key update %s = values(%s)", "update %s set a = 1", "update t set %s = 1", "update t set t.%s = 1", "delete from %s", "delete %s from t", "select 1 from t join u using (%s)", "select a from t where %s in (1, 2)", "set %s = 1", "select s.%s(a) from t", "select 1 from (select 1 from t) as %s", "select a -> '$' , %s from t", "select next value from %s", "select 1 from s.%s", "select 1 from %s.t", "insert into t partition (%s) values (1)", "select match(%s) against ('x') from t", "create view v as select %s from t"}

var litForms = []string{"''", "'a'", "'it''s'", "'\\''", "'\\\\'", "'\\n'", "'\n'", "'\\0'", "'\x00'", "'\\Z'", "'\\%'", "'\\_'", "'\"'", "\"a\"", "\"'\"", "\"\"\"\"", "'日本'", "'\xff\xfe'", "'`'", "'/*'", "'--'", "';'", "'%s'", "'%v'", "':v'", "'\\t\\r\\b'", "0", "1", "00", "9223372036854775808", "-1", "- 1", "--1", "-(-1)", "- -1", "+1", "+ 1", "-a", "- -a", "1.5", ".5", "5.", "1e3", "1E3", "1.5e-3", "1e+3", "-1.5", "- 1.5", "- -1.5", "-.5", "x'0a'", "X'0A'", "x''", "0x1F", "0X1f", "0x", "b'01'", "B'1'", "b''", "-x'0a'", "-0x1f", "- b'1'", ":v", ":v1.a", "-:v", "?", "null", "NULL", "true", "TRUE", "false", "- null", "~1", "~-1", "-~1", "!1", "! -1", "not 1", "- - - 1", "-(1)", "binary 'a'", "_binary 'a'", "binary binary 'a'", "'a' 'b'", "N'a'", "current_timestamp", "current_timestamp()", "now()", "date '2020-01-01'", "a", "default", "default(a)", "values(a)", "interval 1 day", "interval -1 day", "interval '1' hour", "'a' collate utf8_bin", "(1)", "((1))", "(1, 2)", "(select 1)", "exists (select 1)", "case when 1 then 2 end", "case a when 1 then 2 else 3 end", "case when 1 then 2 when 3 then 4 end", "cast(1 as char)", "cast('a' as char(3))", "cast(1 as decimal(3,1))", "cast(1 as signed)", "convert('a' using utf8)", "convert(1, unsigned)", "if(1, 2, 3)", "group_concat(a)", "group_concat(distinct a order by b desc separator '''')", "group_concat(a separator ',')", "group_concat(a separator '')", "count(*)", "count(distinct a)", "a -> '$.x'", "a ->> '$.x'", "substr('a', 1, 2)", "substring('a' from 1 for 2)", "match(a) against ('x' in boolean mode)", "utc_timestamp", "left(a, 1)", "replace(a, 'b', '')"}

var litSlots = []string{"select %s from t", "select 1 + %s from t", "select 1 - %s from t", "select 1 -%s from t", "select a from t where %s", "select a from t where a = %s", "select a from t where a in (%s)", "select a from t where a like %s", "select a from t where a like 'x' escape %s", "select a from t where a between %s and 2", "select a from t limit %s", "select a from t limit 1, %s", "select a from t limit 1 offset %s", "select a from t order by %s desc", "insert into t(a) values (%s)", "update t set a = %s where b = 1", "set a = %s", "select f(%s, %s) from t", "select - %s from t", "select -%s from t", "select ~%s from t", "select not %s from t", "select %s is null from t", "select %s as x from t", "select 1 from t group by %s", "select (%s) from t", "delete from t where a = 1 limit %s", "select case %s when 1 then %s end from t", "select %s * %s from t", "create table t (a int check (a > %s))", "create view v as select %s from t", "create index i on t (a) where a = %s"}

func (x *lossless) forms(k int) int64 {
	slots, fs := idSlots, idForms
	if k >= len(slots) {
		k -= len(slots)
		slots, fs = litSlots, litForms
	}
	n := int64(0)
	for _, f := range fs {
		in := strings.Replace(slots[k], "%s", f, -1)
		for _, m := range Modes {
			n += int64(x.one(m, in))
			if strings.HasPrefix(f, "`") {
				// the mode's own quotes
				switch own := back(m, f); {
				case own != f:
					n += int64(x.one(m, strings.Replace(slots[k], "%s", own, -1)))
				case m == sp.ParserModeMssql && !strings.ContainsAny(f, "[]"):
					n += int64(x.one(m, strings.Replace(slots[k], "%s", "["+strings.Replace(f[1:len(f)-1], "``", "`", -1)+"]", -1)))
				}
			}
		}
	}
	return n
}

// RunLossless is C14.
func RunLossless(c *chk.Ctx) {
	x := &lossless{c: c}
	g := LoadGrammar()
	ss := g.Sentences(true, false, nil)
	if c.Thorough {
		ss = append(ss, g.Sentences(false, true, nil)...)
	}
	const chunk = 200
	ns := c.Counter("sentences_printed")
	c.Parallel((len(ss)+chunk-1)/chunk, func(w, j int) {
		c.Journal.Begin(w, fmt.Sprintf("sentences:%d", j))
		addN(ns, x.sentences(g, ss, j*chunk, chunk))
	})
	nf := c.Counter("forms_printed")
	c.Parallel(len(idSlots)+len(litSlots), func(w, j int) {
		c.Journal.Begin(w, fmt.Sprintf("forms:%d", j))
		addN(nf, x.forms(j))
	})
	// operator trees
	var ts []*tree
	max := 3
	for n := 1; n <= max; n++ {
		trees(n, func(t *tree) { ts = append(ts, t) })
	}
	nt, na := c.Counter("operator_trees"), c.Counter("operator_trees_accepted")
	c.Parallel((len(ts)+chunk-1)/chunk, func(w, j int) {
		c.Journal.Begin(w, fmt.Sprintf("trees:%d", j))
		for i := j * chunk; i < (j+1)*chunk && i < len(ts); i++ {
			addN(nt, 1)
			if x.group(ts[i]) {
				addN(na, 1)
			}
		}
	})
	c.Cov["evaluations"] = *ns + *nf + *na
	c.Cov["distinct_nontrivial"] = *ns + *nf + *na
	for _, i := range []int{0, len(ss) / 3, len(ss) / 2} {
		in := strings.Join(g.Texts(ss[i]), " ")
		st, err := sp.ParseStrictDDL(in)
		if err == nil {
			c.Sample(map[string]interface{}{"input": in, "printed": sp.String(st)})
		}
	}
}

func (x *lossless) sentences(g *Grammar, ss [][]string, lo, n int) int64 {
	k := int64(0)
	for i := lo; i < lo+n && i < len(ss); i++ {
		in := strings.Join(g.Texts(ss[i]), " ")
		for _, m := range Modes {
			k += int64(x.one(m, in))
		}
	}
	return k
}

// OneLossless runs one recorded case.
func OneLossless(c *chk.Ctx, id string) {
	x := &lossless{c: c}
	a := 0
	switch {
	case strings.HasPrefix(id, "in:"):
		p := strings.SplitN(id, ":", 3)
		var in string
		fmt.Sscanf(p[2], "%q", &in)
		for _, m := range Modes {
			if ModeName(m) == p[1] {
				x.one(m, in)
			}
		}
		for n := 1; n <= 3; n++ {
			trees(n, func(t *tree) {
				i := 0
				if "select 1 from t where "+t.min(&i) == in {
					x.group(t)
				}
			})
		}
	case strings.HasPrefix(id, "sentences:"):
		fmt.Sscanf(id, "sentences:%d", &a)
		g := LoadGrammar()
		ss := g.Sentences(true, false, nil)
		if c.Thorough {
			ss = append(ss, g.Sentences(false, true, nil)...)
		}
		x.sentences(g, ss, a*200, 200)
	case strings.HasPrefix(id, "forms:"):
		fmt.Sscanf(id, "forms:%d", &a)
		x.forms(a)
	case strings.HasPrefix(id, "trees:"):
		fmt.Sscanf(id, "trees:%d", &a)
		var ts []*tree
		for n := 1; n <= 3; n++ {
			trees(n, func(t *tree) { ts = append(ts, t) })
		}
		for i := a * 200; i < (a+1)*200 && i < len(ts); i++ {
			x.group(ts[i])
		}
	}
}
