package prs

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"

	"mc/chk"
	"mc/eng"
)

// decodeString reads a MySQL string literal (reference manual, "String Literals") and returns the value and what follows.
func decodeString(s string) (val, rest string, ok bool) {
	if s == "" || s[0] != '\'' {
		return "", "", false
	}
	var b []byte
	for i := 1; i < len(s); i++ {
		switch c := s[i]; c {
		case '\'':
			if i+1 < len(s) && s[i+1] == '\'' {
				b = append(b, '\'')
				i++
				continue
			}
			return string(b), s[i+1:], true
		case '\\':
			i++
			if i == len(s) {
				return "", "", false
			}
			switch s[i] {
			case '0':
				b = append(b, 0)
			case 'b':
				b = append(b, 8)
			case 'n':
				b = append(b, 10)
			case 'r':
				b = append(b, 13)
			case 't':
				b = append(b, 9)
			case 'Z':
				b = append(b, 26)
			case '%', '_':
				b = append(b, '\\', s[i])
			default:
				b = append(b, s[i])
			}
		default:
			b = append(b, c)
		}
	}
	return "", "", false
}

type encoding struct {
	c     *chk.Ctx
	types []querypb.Type
}

func newEncoding(c *chk.Ctx) *encoding {
	x := &encoding{c: c}
	for t := range querypb.Type_name {
		x.types = append(x.types, querypb.Type(t))
	}
	sort.Slice(x.types, func(i, j int) bool { return x.types[i] < x.types[j] })
	return x
}

func (x *encoding) fail(kind, id, detail string) {
	x.c.Fail(eng.Failure{Prop: "C18", Case: id, Kind: kind, Detail: detail})
}

// one encodes a value of a type; it returns whether the type takes the value.
func (x *encoding) one(t querypb.Type, val string, modes []sp.ParserMode) bool {
	id := fmt.Sprintf("enc:%d:%q", int(t), val)
	v, err := sqltypes.NewValue(t, []byte(val))
	if err != nil || t == sqltypes.Null {
		return false
	}
	var b bytes.Buffer
	v.EncodeSQL(&b)
	s := b.String()
	if sqltypes.IsQuoted(t) {
		if d, rest, ok := decodeString(s); !ok || d != val || rest != "" {
			x.fail("encoding", id, fmt.Sprintf("encoded as %q, which MySQL reads as %q followed by %q", s, d, rest))
			return true
		}
		b.Reset()
		v.EncodeASCII(&b)
		a := b.String()
		if d, err := base64.StdEncoding.DecodeString(strings.Trim(a, "'")); err != nil || string(d) != val || len(a) < 2 || a[0] != '\'' || a[len(a)-1] != '\'' {
			x.fail("ascii", id, fmt.Sprintf("encoded as %q", a))
		}
	}
	for _, m := range modes {
		if m != sp.ParserModeMysql && strings.Contains(s, "\\") {
			continue // the escapes are MySQL's
		}
		if bad := x.token(m, s, sqltypes.IsQuoted(t), val); bad != "" {
			x.fail("tokens", id, fmt.Sprintf("encoded as %q; %s reads %s", s, ModeName(m), bad))
			return true
		}
	}
	return true
}

// token reads the text as one literal between parentheses and compares the value; it returns what is wrong.
func (x *encoding) token(m sp.ParserMode, s string, quoted bool, val string) (bad string) {
	if p := Safe(func() {
		t := sp.NewStringTokenizer("("+s+")end", m)
		if k, _ := t.Scan(); k != '(' {
			bad = "no parenthesis"
			return
		}
		k, v := t.Scan()
		neg := false
		for !quoted && (k == '-' || k == '+') {
			neg = neg != (k == '-')
			k, v = t.Scan()
		}
		switch {
		case quoted:
			if k != sp.STRING || string(v) != val {
				bad = fmt.Sprintf("token %d %q", k, v)
				return
			}
		default:
			if k != sp.INTEGRAL && k != sp.FLOAT && k != sp.HEXNUM {
				bad = fmt.Sprintf("token %d %q", k, v)
				return
			}
			got := string(v)
			if neg {
				got = "-" + got
			}
			if a, b := number(got), number(val); a == nil || b == nil || a.Cmp(b) != 0 {
				bad = fmt.Sprintf("the number %q", got)
				return
			}
		}
		if k, _ = t.Scan(); k != ')' {
			bad = fmt.Sprintf("token %d after the literal", k)
			return
		}
		if k, _ = t.Scan(); k != sp.END {
			bad = fmt.Sprintf("token %d in place of the next word", k)
			return
		}
		if k, _ = t.Scan(); k != 0 {
			bad = "more than was written"
		}
	}); p != "" {
		return "panic: " + p
	}
	return
}

// number is the value of a number as SQL writes it: decimal, with fraction and exponent, or hexadecimal.
func number(s string) *big.Rat {
	sign := ""
	for strings.HasPrefix(s, "-") || strings.HasPrefix(s, "+") {
		if s[0] == '-' {
			if sign == "" {
				sign = "-"
			} else {
				sign = ""
			}
		}
		s = s[1:]
	}
	if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
		i, ok := new(big.Int).SetString(sign+"0"+s[2:], 16)
		if !ok {
			return nil
		}
		return new(big.Rat).SetInt(i)
	}
	for _, c := range s {
		if !strings.ContainsRune("0123456789.eE+-", c) {
			return nil
		}
	}
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		if e, err := strconv.Atoi(s[i+1:]); err != nil || e > 5000 || e < -5000 {
			return nil
		}
	}
	r, ok := new(big.Rat).SetString(sign + s)
	if !ok {
		return nil
	}
	return r
}

const escapees = "\x00'\"\b\n\r\t\x1a\\%_n0Z`\xff;-"

// words calls f with every string over the alphabet up to the length.
func words(alphabet string, max int, f func(s string)) {
	var rec func(p []byte)
	rec = func(p []byte) {
		f(string(p))
		if len(p) == max {
			return
		}
		for i := 0; i < len(alphabet); i++ {
			rec(append(p, alphabet[i]))
		}
	}
	rec(nil)
}

const numAlphabet = "0189-+.exX_bonaif"

// floats are numbers at every exponent.
func floats() []float64 {
	out := []float64{0, math.Copysign(0, -1), 0.1, 1.0 / 3, 123456789, 1e21, 1e20, 1e-5, 1e-4, 123456.789e3, math.MaxFloat64, math.SmallestNonzeroFloat64}
	for e := uint64(0); e < 2047; e++ {
		for _, m := range []uint64{0, 1, 1 << 51, 1<<52 - 1, 0x5555555555555} {
			out = append(out, math.Float64frombits(e<<52|m), -math.Float64frombits(e<<52|m))
		}
	}
	return out
}

func ints() []int64 {
	out := []int64{math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, math.MinInt64 + 1}
	for i := int64(-1100); i <= 1100; i++ {
		out = append(out, i)
	}
	for p := uint(10); p < 63; p++ {
		out = append(out, 1<<p, 1<<p-1, -(1 << p), -(1<<p)+1, 1<<p+1)
	}
	return out
}

func (x *encoding) numbers() (n int64) {
	for _, f := range floats() {
		n++
		v := sqltypes.NewFloat64(f)
		var b bytes.Buffer
		v.EncodeSQL(&b)
		if g, err := strconv.ParseFloat(b.String(), 64); err != nil || g != f {
			x.fail("float", fmt.Sprintf("float:%x", math.Float64bits(f)), "encoded as "+b.String())
			continue
		}
		if bad := x.token(sp.ParserModeMysql, b.String(), false, b.String()); bad != "" {
			x.fail("float", fmt.Sprintf("float:%x", math.Float64bits(f)), b.String()+" is read as "+bad)
		}
	}
	for _, i := range ints() {
		for k, v := range []sqltypes.Value{sqltypes.NewInt64(i), sqltypes.NewUint64(uint64(i)), sqltypes.NewInt32(int32(i))} {
			n++
			want := []string{fmt.Sprint(i), fmt.Sprint(uint64(i)), fmt.Sprint(int32(i))}[k]
			var b bytes.Buffer
			v.EncodeSQL(&b)
			if b.String() != want {
				x.fail("integer", fmt.Sprintf("int:%d:%d", k, i), "encoded as "+b.String())
			}
			w, err := sqltypes.NewIntegral(want)
			b.Reset()
			w.EncodeSQL(&b)
			if err != nil || b.String() != want {
				x.fail("integer", fmt.Sprintf("int:%d:%d", k, i), "NewIntegral gives "+b.String())
			}
		}
	}
	return
}

// integral: the value of an integer literal is what the literal says.
func (x *encoding) integral(s string) bool {
	if strings.Trim(s, "0123456789") != "" && (s[0] != '-' || strings.Trim(s[1:], "0123456789") != "") {
		return false // not an integer literal
	}
	n, err := sp.NewPlanValue(sp.NewIntVal([]byte(s)))
	if err != nil {
		return false
	}
	var b bytes.Buffer
	n.Value.EncodeSQL(&b)
	if p, q := number(s), number(b.String()); p == nil || q == nil || p.Cmp(q) != 0 {
		x.fail("plan-value", "plan:"+fmt.Sprintf("%q", s), "the literal is taken for "+b.String())
	}
	return true
}

func (x *encoding) hexs() (n int64) {
	one := func(v string) {
		n++
		h := hex.EncodeToString([]byte(v))
		for _, h := range []string{h, strings.ToUpper(h)} {
			s := sp.String(sp.NewHexVal([]byte(h)))
			st, err := sp.Parse("select " + s + " from t")
			id := fmt.Sprintf("hex:%q", v)
			if err != nil {
				x.fail("hex", id, s+" is not accepted: "+err.Error())
				continue
			}
			l, ok := st.(*sp.Select).SelectExprs[0].(*sp.AliasedExpr).Expr.(*sp.SQLVal)
			if !ok || l.Type != sp.HexVal {
				x.fail("hex", id, s+" is read as something else")
				continue
			}
			if d, err := l.HexDecode(); err != nil || string(d) != v {
				x.fail("hex", id, fmt.Sprintf("%s is read as %q", s, d))
			}
			if p, err := sp.NewPlanValue(l); err != nil || string(p.Value.Raw()) != v {
				x.fail("hex", id, fmt.Sprintf("the value of %s is %q", s, p.Value.Raw()))
			}
		}
	}
	for a := 0; a < 256; a++ {
		one(string([]byte{byte(a)}))
		for b := 0; b < 256; b++ {
			one(string([]byte{byte(a), byte(b)}))
		}
	}
	words("01", 10, func(v string) {
		n++
		for _, l := range []*sp.SQLVal{sp.NewBitVal([]byte(v)), sp.NewHexNum([]byte("0x" + v)), sp.NewHexNum([]byte("0X" + v))} {
			s := sp.String(l)
			st, err := sp.Parse("select " + s + " from t")
			if err != nil {
				x.fail("bit", "bit:"+v, s+" is not accepted: "+err.Error())
				continue
			}
			if g, ok := st.(*sp.Select).SelectExprs[0].(*sp.AliasedExpr).Expr.(*sp.SQLVal); !ok || g.Type != l.Type || string(g.Val) != string(l.Val) {
				x.fail("bit", "bit:"+v, s+" is read as something else")
			}
		}
	})
	return
}

// --- bind values in queries

var bindSlots = []string{"select :v from t", "select 1 -:v from t", "select - :v, -:v, ~:v, !:v, not :v from t", "select :v+:v*:v from t where :v", "select a from t where a = :v and b < :v or c like :v escape :v", "select a from t where a in (:v, :w, :v)", "select a from t where a in ::l", "select a from t where (a, b) not in ::l and c = :v", "select a from t where a between :v and :w", "select a from t limit :v", "select a from t limit :v, :w", "insert into t(a, b) values (:v, :w), (:w, :v)", "insert into t(a) values (:v) on duplicate key update a = :w", "update t set a = :v, b = :w where c = :v", "delete from t where a = :v limit 1", "select f(:v, :w), count(distinct :v) from t group by :v having :w order by :v desc", "select case :v when :w then :v else :w end from t", "select cast(:v as char), convert(:v using utf8), :v collate utf8_bin, binary :v, _binary :v from t", "select interval :v day from t", "select match(a) against (:v) from t", "select (select :v from t where a = :w) from (select :w from t) as x union select :v from t", "select if(:v, :w, :v), left(:v, 1), group_concat(:v separator ',') from t", "set a = :v", "select :v is null, :v is not true, exists (select :w) from t", "select a from t where a = -:v-:w--:v", "select substr(a from :w for :v), values(a), a->:v from t"}

type bound struct {
	t   querypb.Type
	val string
}

func (b bound) bindVar() *querypb.BindVariable {
	if b.t == sqltypes.Null {
		return sqltypes.NullBindVariable
	}
	return &querypb.BindVariable{Type: b.t, Value: []byte(b.val)}
}

// node is the literal that stands for the value in a syntax tree.
func (b bound) node() interface{} {
	switch {
	case b.t == sqltypes.Null:
		return &sp.NullVal{}
	case sqltypes.IsQuoted(b.t):
		return sp.NewStrVal([]byte(b.val))
	case strings.ContainsAny(b.val, ".eE"):
		return sp.NewFloatVal([]byte(b.val))
	}
	return sp.NewIntVal([]byte(b.val))
}

// bind substitutes the values into a query and reads the result.
func (x *encoding) bind(slot string, v, w bound) bool {
	id := fmt.Sprintf("bind:%q:%d:%q:%d:%q", slot, int(v.t), v.val, int(w.t), w.val)
	st := mustParse(slot)
	tuple := &querypb.BindVariable{Type: querypb.Type_TUPLE}
	for _, b := range []bound{v, w, v} {
		tuple.Values = append(tuple.Values, &querypb.Value{Type: b.t, Value: []byte(b.val)})
	}
	out, err := sp.NewParsedQuery(st).GenerateQuery(map[string]*querypb.BindVariable{"v": v.bindVar(), "w": w.bindVar(), "l": tuple}, nil)
	if err != nil {
		x.fail("bind", id, "error: "+err.Error())
		return true
	}
	st2, err := sp.ParseStrictDDL(string(out))
	if err != nil {
		x.fail("bind", id, fmt.Sprintf("gives %q: %s", out, err))
		return true
	}
	want := DumpWith(st, map[string]interface{}{":v": v.node(), ":w": w.node(), "::l": sp.ValTuple{v.node().(sp.Expr), w.node().(sp.Expr), v.node().(sp.Expr)}})
	if got := DumpWith(st2, nil); got != want {
		x.fail("bind", id, fmt.Sprintf("gives %q\nread as  %s\nexpected %s", out, got, want))
	}
	return true
}

type raw string

// EncodeSQL writes the text as it is.
func (r raw) EncodeSQL(b *bytes.Buffer) { b.WriteString(string(r)) }

// rows encodes rows of an INSERT and a list of composite keys.
func (x *encoding) rows(v, w bound) {
	id := fmt.Sprintf("rows:%d:%q:%d:%q", int(v.t), v.val, int(w.t), w.val)
	a, b := sqltypes.MakeTrusted(v.t, []byte(v.val)), sqltypes.MakeTrusted(w.t, []byte(w.val))
	subst := map[string]interface{}{":v": v.node(), ":w": w.node()}
	compare := func(name, slot string, e sp.Encodable, expected string) {
		st, err := sp.Parse(slot)
		if err != nil {
			return
		}
		out, err := sp.NewParsedQuery(st).GenerateQuery(nil, map[string]sp.Encodable{"x": e})
		if err != nil {
			x.fail(name, id, err.Error())
			return
		}
		got, err := sp.ParseStrictDDL(string(out))
		if err != nil {
			x.fail(name, id, fmt.Sprintf("gives %q: %s", out, err))
			return
		}
		want, err := sp.Parse(expected)
		if err != nil {
			panic(expected + ": " + err.Error())
		}
		if g, e := DumpWith(got, nil), DumpWith(want, subst); g != e {
			x.fail(name, id, fmt.Sprintf("gives %q\nread as  %s\nexpected %s", out, g, e))
		}
	}
	type vals = []sqltypes.Value
	one, two := []sp.ColIdent{sp.NewColIdent("a`b")}, []sp.ColIdent{sp.NewColIdent("select"), sp.NewColIdent("c d")}
	compare("rows", "select 1 from t where :x", sp.Encodable(&sp.TupleEqualityList{Columns: one, Rows: [][]sqltypes.Value{{a}, {b}, {a}}}), "select 1 from t where `a``b` in (:v, :w, :v)")
	compare("rows", "select 1 from t where :x", &sp.TupleEqualityList{Columns: two, Rows: [][]sqltypes.Value{{a, b}, {b, a}, {a, a}}}, "select 1 from t where (`select` = :v and `c d` = :w) or (`select` = :w and `c d` = :v) or (`select` = :v and `c d` = :v)")
	compare("rows", "select 1 from t where :x", &sp.TupleEqualityList{Columns: two, Rows: [][]sqltypes.Value{{a, b}}}, "select 1 from t where (`select` = :v and `c d` = :w)")
	// every shape of up to four columns and four rows, the two values taking turns
	for nc := 1; nc <= 4; nc++ {
		for nr := 1; nr <= 4; nr++ {
			var cs []sp.ColIdent
			for j := 0; j < nc; j++ {
				cs = append(cs, sp.NewColIdent(fmt.Sprint("c", j)))
			}
			var rs [][]sqltypes.Value
			var want, ins []string
			for i := 0; i < nr; i++ {
				var r []sqltypes.Value
				var eq, lit []string
				for j := 0; j < nc; j++ {
					n, val := ":v", a
					if (i+j)%2 == 1 {
						n, val = ":w", b
					}
					r = append(r, val)
					eq = append(eq, fmt.Sprint("c", j, " = ", n))
					lit = append(lit, n)
				}
				rs = append(rs, r)
				if nc == 1 {
					want = append(want, lit[0])
				} else {
					want = append(want, "("+strings.Join(eq, " and ")+")")
				}
				ins = append(ins, "("+strings.Join(lit, ", ")+")")
			}
			w := strings.Join(want, " or ")
			if nc == 1 {
				w = "c0 in (" + strings.Join(want, ", ") + ")"
			}
			compare("rows", "select 1 from t where :x", &sp.TupleEqualityList{Columns: cs, Rows: rs}, "select 1 from t where "+w)
			var buf bytes.Buffer
			buf.WriteString("insert into t values ")
			sp.InsertValues(rs).EncodeSQL(&buf)
			compare("rows", "insert into t values (:x)", raw(buf.String()[len("insert into t values ("):buf.Len()-1]), "insert into t values "+strings.Join(ins, ", "))
		}
	}
	// the rows of an INSERT stand for a whole list, which has no place in a syntax tree
	for k, iv := range []sp.InsertValues{{vals{a}}, {vals{a, b}}, {vals{a, b}, vals{b, a}}, {vals{a}, vals{b}, vals{a}}} {
		var buf bytes.Buffer
		buf.WriteString("insert into t values ")
		iv.EncodeSQL(&buf)
		got, err := sp.ParseStrictDDL(buf.String())
		if err != nil {
			x.fail("rows", id, fmt.Sprintf("gives %q: %s", buf.String(), err))
			continue
		}
		want, err := sp.Parse("insert into t values " + []string{"(:v)", "(:v, :w)", "(:v, :w), (:w, :v)", "(:v), (:w), (:v)"}[k])
		if err != nil {
			panic(err)
		}
		if g, e := DumpWith(got, nil), DumpWith(want, subst); g != e {
			x.fail("rows", id, fmt.Sprintf("gives %q\nread as  %s\nexpected %s", buf.String(), g, e))
		}
	}
}

// bounds are the values that are put into queries.
func bounds() []bound {
	out := []bound{{sqltypes.Null, ""}}
	for _, s := range []string{"0", "1", "-1", "-0", "10", "9223372036854775807", "-9223372036854775808"} {
		out = append(out, bound{sqltypes.Int64, s})
	}
	out = append(out, bound{sqltypes.Uint64, "18446744073709551615"}, bound{sqltypes.Float64, "1.5"}, bound{sqltypes.Float64, "-1.5"}, bound{sqltypes.Float64, "1e+21"}, bound{sqltypes.Float64, "-1e-07"}, bound{sqltypes.Decimal, "-0.10"})
	return out
}

func strs(n int) (out []bound) {
	words(escapees, n, func(s string) {
		for _, t := range []querypb.Type{sqltypes.VarBinary, sqltypes.VarChar} {
			out = append(out, bound{t, s})
		}
	})
	for _, s := range []string{"' or 1=1 --", "\\' or 1=1 #", "'; drop table t; --", ":v", "::l", "?", "/*", "*/", "a'b\\'c", "日本", "X'00'", strings.Repeat("x", 4094) + "'", strings.Repeat("\\", 4096)} {
		out = append(out, bound{sqltypes.VarBinary, s}, bound{sqltypes.Text, s}, bound{sqltypes.TypeJSON, s})
	}
	return
}

// RunEncode is C18.
func RunEncode(c *chk.Ctx) {
	x := newEncoding(c)
	all := Modes
	ne := c.Counter("values_encoded")
	// every string of at most two bytes, as every type
	c.Parallel(256, func(w, a int) {
		c.Journal.Begin(w, fmt.Sprintf("bytes:%d", a))
		n := int64(0)
		for _, t := range x.types {
			if a == 0 {
				x.one(t, "", all)
			}
			if x.one(t, string([]byte{byte(a)}), all) {
				n++
			}
			for b := 0; b < 256; b++ {
				if x.one(t, string([]byte{byte(a), byte(b)}), []sp.ParserMode{sp.ParserModeMysql}) {
					n++
				}
			}
		}
		addN(ne, n)
	})
	depth := 4
	if c.Thorough {
		depth = 5
	}
	c.Parallel(len(escapees), func(w, a int) {
		c.Journal.Begin(w, fmt.Sprintf("specials:%d", a))
		n := int64(0)
		words(escapees, depth-1, func(s string) {
			n++
			x.one(sqltypes.VarBinary, escapees[a:a+1]+s, all[:1+3*b2i(len(s) < depth-1)])
		})
		addN(ne, n)
	})
	nn := c.Counter("numbers_encoded")
	nd := 5
	if c.Thorough {
		nd = 6
	}
	c.Parallel(len(numAlphabet), func(w, a int) {
		c.Journal.Begin(w, fmt.Sprintf("numbers:%d", a))
		n := int64(0)
		words(numAlphabet, nd-1, func(s string) {
			for _, t := range []querypb.Type{sqltypes.Int64, sqltypes.Uint64, sqltypes.Float64, sqltypes.Decimal} {
				if x.one(t, numAlphabet[a:a+1]+s, all[:1]) {
					n++
				}
			}
			if x.integral(numAlphabet[a:a+1] + s) {
				n++
			}
		})
		addN(nn, n)
	})
	addN(nn, x.numbers())
	nh := c.Counter("hex_and_bit_values")
	addN(nh, x.hexs())
	nb := c.Counter("bind_substitutions")
	vs := append(bounds(), strs(2+b2i(c.Thorough))...)
	c.Parallel(len(bindSlots), func(w, k int) {
		c.Journal.Begin(w, fmt.Sprintf("binds:%d", k))
		n := int64(0)
		other := append(bounds()[:3], bound{sqltypes.VarBinary, "\\'"})
		for _, v := range vs {
			for _, o := range other {
				if x.bind(bindSlots[k], v, o) {
					n++
				}
				if x.bind(bindSlots[k], o, v) {
					n++
				}
			}
		}
		addN(nb, n)
	})
	rs := append(bounds(), strs(1)...)
	c.Parallel(len(rs), func(w, k int) {
		c.Journal.Begin(w, fmt.Sprintf("rows:%d", k))
		for _, o := range rs {
			x.rows(rs[k], o)
			addN(nb, 1)
		}
	})
	c.Cov["evaluations"] = *ne + *nn + *nh + *nb
	c.Cov["distinct_nontrivial"] = *ne + *nn + *nh + *nb
	for _, v := range []bound{{sqltypes.VarBinary, "a'\\\x00"}, {sqltypes.Int64, "-1"}} {
		out, _ := sp.NewParsedQuery(mustParse("select 1 -:v from t")).GenerateQuery(map[string]*querypb.BindVariable{"v": v.bindVar()}, nil)
		c.Sample(map[string]interface{}{"type": v.t.String(), "value": fmt.Sprintf("%q", v.val), "query": string(out)})
	}
}

func mustParse(s string) sp.Statement {
	st, err := sp.Parse(s)
	if err != nil {
		panic(err)
	}
	return st
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// OneEncode runs one recorded case.
func OneEncode(c *chk.Ctx, id string) {
	x := newEncoding(c)
	var t, u int
	var s, r, q string
	switch {
	case strings.HasPrefix(id, "enc:"):
		fmt.Sscanf(id, "enc:%d:%q", &t, &s)
		x.one(querypb.Type(t), s, Modes)
	case strings.HasPrefix(id, "plan:"):
		fmt.Sscanf(id, "plan:%q", &s)
		x.integral(s)
	case strings.HasPrefix(id, "float:"), strings.HasPrefix(id, "int:"):
		x.numbers()
	case strings.HasPrefix(id, "hex:"), strings.HasPrefix(id, "bit:"):
		x.hexs()
	case strings.HasPrefix(id, "bind:"):
		fmt.Sscanf(id, "bind:%q:%d:%q:%d:%q", &q, &t, &s, &u, &r)
		x.bind(q, bound{querypb.Type(t), s}, bound{querypb.Type(u), r})
	case strings.HasPrefix(id, "rows:"):
		fmt.Sscanf(id, "rows:%d:%q:%d:%q", &t, &s, &u, &r)
		x.rows(bound{querypb.Type(t), s}, bound{querypb.Type(u), r})
	}
}
