package prs

import (
	"fmt"
	"sort"
	"strings"

	sp "github.com/k0kubun/sqldef/sqlparser"
	"github.com/k0kubun/sqldef/sqlparser/dependency/querypb"
	"github.com/k0kubun/sqldef/sqlparser/dependency/sqltypes"

	"mc/chk"
	"mc/eng"
)

type normalizing struct {
	c *chk.Ctx
}

func (x *normalizing) fail(kind, in, prefix, detail string) {
	x.c.Fail(eng.Failure{Prop: "C19", Case: "in:" + prefix + ":" + fmt.Sprintf("%q", in), Kind: kind, Detail: detail})
}

// args are the bind variables and list variables that a text has, by its tokens.
func args(in string) (vals, lists map[string]bool) {
	vals, lists = map[string]bool{}, map[string]bool{}
	t := sp.NewStringTokenizer(in, sp.ParserModeMysql)
	for i := 0; i < 2*len(in)+4; i++ {
		k, v := t.Scan()
		switch k {
		case 0, sp.LEX_ERROR:
			return
		case sp.VALUE_ARG:
			vals[string(v[1:])] = true
		case sp.LIST_ARG:
			lists[string(v[2:])] = true
		}
	}
	return
}

// literals are the literal tokens of a text, without the lengths of types.
func literals(in string) (out []string) {
	t := sp.NewStringTokenizer(in, sp.ParserModeMysql)
	depth := -1 // inside the parentheses of a type
	prev, prev2 := 0, 0
	for i := 0; i < 2*len(in)+4; i++ {
		k, v := t.Scan()
		switch k {
		case 0, sp.LEX_ERROR:
			return
		case '(':
			switch prev {
			case sp.CHAR, sp.NCHAR, sp.BINARY, sp.DECIMAL, sp.TIME, sp.DATETIME:
				if prev2 == sp.AS || prev2 == ',' {
					depth = 0
				}
			}
		case ')':
			depth = -1
		case sp.STRING, sp.INTEGRAL, sp.FLOAT, sp.HEX, sp.HEXNUM, sp.BIT_LITERAL:
			if depth < 0 && !(prev == sp.NEXT && string(v) == "1") {
				out = append(out, string(v))
			}
		}
		prev2, prev = prev, k
	}
	return
}

func literal(b *querypb.BindVariable) sp.Expr {
	switch {
	case b.Type == querypb.Type_TUPLE:
		var t sp.ValTuple
		for _, v := range b.Values {
			t = append(t, literal(&querypb.BindVariable{Type: v.Type, Value: v.Value}))
		}
		return t
	case b.Type == sqltypes.Int64:
		return sp.NewIntVal(b.Value)
	case b.Type == sqltypes.Float64:
		return sp.NewFloatVal(b.Value)
	case b.Type == sqltypes.VarBinary:
		return sp.NewStrVal(b.Value)
	}
	return nil
}

// one normalises, puts the values back and redacts; it returns whether the text is a query with literals.
func (x *normalizing) one(in string, prefixes ...string) int {
	st, err := sp.ParseStrictDDL(in)
	if err != nil || !queryKind(st) {
		return 0
	}
	lits := literals(in)
	for _, prefix := range prefixes {
		st, _ = sp.ParseStrictDDL(in)
		before := Dump(st, false)
		vals, lists := args(in)
		got := sp.GetBindvars(st)
		for n := range got {
			if !vals[n] && !lists[n] {
				x.fail("bind-variables", in, prefix, "GetBindvars reports "+n)
			}
		}
		for _, m := range []map[string]bool{vals, lists} {
			for n := range m {
				if _, ok := got[n]; !ok && !strings.Contains(in, "?") {
					x.fail("bind-variables", in, prefix, "GetBindvars does not report "+n)
				}
			}
		}
		bv := map[string]*querypb.BindVariable{}
		if p := Safe(func() { sp.Normalize(st, bv, prefix) }); p != "" {
			x.fail("panic", in, prefix, p)
			return 1
		}
		subst := map[string]interface{}{}
		all := map[string]*querypb.BindVariable{}
		for n, b := range bv {
			all[n] = b
			if vals[n] || lists[n] {
				x.fail("captured", in, prefix, "the statement's own variable "+n+" was given the value "+string(b.Value))
			}
			l := literal(b)
			if l == nil {
				x.fail("value", in, prefix, fmt.Sprintf("%s has the type %v", n, b.Type))
				return 1
			}
			if b.Type == querypb.Type_TUPLE {
				subst["::"+n] = l
			} else {
				subst[":"+n] = l
			}
		}
		printed := sp.String(st)
		pv, pl := args(printed)
		for n, b := range bv {
			if tuple := b.Type == querypb.Type_TUPLE; tuple && !pl[n] || !tuple && !pv[n] {
				x.fail("unused", in, prefix, n+" is collected but not in "+printed)
			}
		}
		for _, m := range []map[string]bool{pv, pl} {
			for n := range m {
				if bv[n] == nil && !vals[n] && !lists[n] {
					x.fail("missing", in, prefix, n+" is in "+printed+" without a value")
				}
			}
		}
		if after := DumpWith(st, subst); after != before {
			x.fail("changed", in, prefix, "normalised: "+printed+"\nwas "+before+"\nis  "+after)
			continue
		}
		// as text, with values for the variables that were there before
		mine := map[string]interface{}{}
		for n := range vals {
			all[n] = sqltypes.StringBindVariable("value of " + n)
			mine[":"+n] = sp.NewStrVal([]byte("value of " + n))
		}
		for n := range lists {
			if vals[n] {
				continue
			}
			all[n] = &querypb.BindVariable{Type: querypb.Type_TUPLE, Values: []*querypb.Value{{Type: sqltypes.VarBinary, Value: []byte("of " + n)}, {Type: sqltypes.Int64, Value: []byte("-7")}}}
			mine["::"+n] = sp.ValTuple{sp.NewStrVal([]byte("of " + n)), sp.NewIntVal([]byte("-7"))}
		}
		both := strings.Contains(in, " next :") // takes an integer only
		for n := range lists {
			both = both || vals[n] // one name for a value and a list: no query can be made
		}
		if both {
			continue
		}
		out, err := sp.NewParsedQuery(st).GenerateQuery(all, nil)
		if err != nil {
			x.fail("substitution", in, prefix, "normalised: "+printed+"\nerror: "+err.Error())
			continue
		}
		orig, _ := sp.ParseStrictDDL(in)
		want := DumpWith(orig, mine)
		again, err := sp.ParseStrictDDL(string(out))
		if err != nil {
			x.fail("substitution", in, prefix, "gives "+string(out)+"\nerror: "+err.Error())
			continue
		}
		if g := DumpWith(again, nil); g != want {
			x.fail("substitution", in, prefix, "gives "+string(out)+"\nwas "+want+"\nis  "+g)
		}
	}
	if _, set := st.(*sp.Set); set {
		return 1
	}
	r := ""
	if p := Safe(func() { r, err = sp.RedactSQLQuery(in) }); p != "" || err != nil {
		x.fail("redact", in, "", fmt.Sprint("fails: ", p, err))
		return 1
	}
	if l := literals(r); len(l) > 0 && !(len(l) == 1 && l[0] == "1" && strings.Contains(r, " next 1 values")) {
		x.fail("leak", in, "", fmt.Sprintf("redacted to %s\nwith the literals %q", r, l))
	}
	if len(lits) > 0 {
		return 1
	}
	return 0
}

var normSlots = []string{"select %s from t where a = %s and b in (%s, %s)", "select a from t where a = %s union select b from u where b = %s order by %s limit %s", "insert into t(a, b) values (%s, %s), (%s, %s)", "insert into t select %s from u where a in (%s, %s) and b = %s", "update t set a = %s, b = (select %s from u where c = %s) where d not in (%s)", "delete from t where a = %s or b in (%s, %s) limit %s", "select (select %s from t), %s from (select %s from t) as x where exists (select %s from t)", "select a from t where (a, b) in ((%s, %s), (%s, %s))", "select case %s when %s then %s else %s end from t", "select f(%s) from t group by %s having %s order by %s desc", "insert into t(a) values (%s) on duplicate key update a = %s, b = f(%s) + %s", "(select %s from t) union all (select %s from t where a in (%s)) limit %s", "select a from t join u on a = %s and b in (%s) where c between %s and %s"}

var normPool = []string{"1", "'1'", "1.0", ":v1", ":v2", "-1", "0x1", "12345678901234567890", "null", "?", "'a'", "''''"}

func (x *normalizing) combos(k int) (n int64) {
	slot := normSlots[k/len(normPool)]
	a := normPool[k%len(normPool)]
	pool := normPool
	if !x.c.Thorough {
		pool = pool[:9]
	}
	for _, b := range pool {
		for _, c := range pool {
			for _, d := range pool {
				n += int64(x.one(fmt.Sprintf(slot, a, b, c, d), "v"))
			}
		}
	}
	return
}

func (x *normalizing) forms(k int) (n int64) {
	for _, f := range litForms {
		n += int64(x.one(strings.Replace(litSlots[k], "%s", f, -1), "v", "bv"))
		for _, g := range litForms {
			if c := strings.Count(litSlots[k], "%s"); c == 1 {
				break
			} else if c == 2 {
				n += int64(x.one(fmt.Sprintf(litSlots[k], f, g), "v"))
			}
		}
	}
	return
}

func (x *normalizing) long() (n int64) {
	for l := 250; l <= 260; l++ {
		s, d := strings.Repeat("x", l), strings.Repeat("1", l)
		for _, in := range []string{
			fmt.Sprintf("select '%s', '%s', '%sy' from t where a in ('%s', '%s')", s, s, s, s, s),
			fmt.Sprintf("select %s, %s, '%s', 1.%s from t where a in (%s, 0.%s)", d, d, d, d, d, d),
			fmt.Sprintf("update t set a = '%s', b = (select '%s' from t where c = '%s')", s, s, s),
		} {
			n += int64(x.one(in, "v", "bv"))
		}
	}
	return
}

// names: existing variables with every combination of the names that normalising makes
func (x *normalizing) names(k int) (n int64) {
	pool := []string{":v1", ":v2", ":v3", "::v1", "::v2", "::v3", ":v01", ":V1", "1", "'1'", "2", "?"}
	for _, b := range pool {
		for _, c := range pool {
			for _, d := range pool {
				pick := []string{pool[k], b, c, d}
				var conds []string
				for i, p := range pick {
					if strings.HasPrefix(p, "::") {
						conds = append(conds, fmt.Sprintf("c%d in %s", i, p))
					} else {
						conds = append(conds, fmt.Sprintf("c%d = %s", i, p))
					}
				}
				n += int64(x.one("select a from t where "+strings.Join(conds, " and ")+" and x in (3, 4) and y = 5", "v"))
				n += int64(x.one("update t set x = 5, y = 5 where "+strings.Join(conds, " or ")+" or x in (5, 5)", "v"))
			}
		}
	}
	return
}

func (x *normalizing) sentences(g *Grammar, ss [][]string, lo, n int) (k int64) {
	for i := lo; i < lo+n && i < len(ss); i++ {
		k += int64(x.one(strings.Join(g.Texts(ss[i]), " "), "v", "bv"))
	}
	return
}

// RunNormalize is C19.
func RunNormalize(c *chk.Ctx) {
	x := &normalizing{c: c}
	g := LoadGrammar()
	ss := g.Sentences(true, false, nil)
	if c.Thorough {
		ss = append(ss, g.Sentences(false, true, nil)...)
	}
	const chunk = 200
	ns := c.Counter("sentences_normalised")
	c.Parallel((len(ss)+chunk-1)/chunk, func(w, j int) {
		c.Journal.Begin(w, fmt.Sprintf("sentences:%d", j))
		addN(ns, x.sentences(g, ss, j*chunk, chunk))
	})
	nc := c.Counter("literal_combinations")
	c.Parallel(len(normSlots)*len(normPool), func(w, j int) {
		c.Journal.Begin(w, fmt.Sprintf("combos:%d", j))
		addN(nc, x.combos(j))
	})
	c.Parallel(len(litSlots), func(w, j int) {
		c.Journal.Begin(w, fmt.Sprintf("forms:%d", j))
		addN(nc, x.forms(j))
	})
	c.Parallel(12, func(w, j int) {
		c.Journal.Begin(w, fmt.Sprintf("names:%d", j))
		addN(nc, x.names(j))
	})
	addN(nc, x.long())
	c.Cov["evaluations"] = *ns + *nc
	c.Cov["distinct_nontrivial"] = *ns + *nc
	in := "select 1, '1' from t where a in (1, 'x') and b = 1 and c = :v2"
	st := mustParse(in)
	bv := map[string]*querypb.BindVariable{}
	sp.Normalize(st, bv, "v")
	var vs []string
	for n, b := range bv {
		vs = append(vs, fmt.Sprintf("%s=%v", n, b))
	}
	sort.Strings(vs)
	c.Sample(map[string]interface{}{"input": in, "normalised": sp.String(st), "values": vs})
}

// OneNormalize runs one recorded case.
func OneNormalize(c *chk.Ctx, id string) {
	x := &normalizing{c: c}
	a := 0
	switch {
	case strings.HasPrefix(id, "in:"):
		p := strings.SplitN(id, ":", 3)
		var in string
		fmt.Sscanf(p[2], "%q", &in)
		if p[1] == "" {
			x.one(in)
		} else {
			x.one(in, p[1])
		}
	case strings.HasPrefix(id, "sentences:"):
		fmt.Sscanf(id, "sentences:%d", &a)
		g := LoadGrammar()
		ss := g.Sentences(true, false, nil)
		if c.Thorough {
			ss = append(ss, g.Sentences(false, true, nil)...)
		}
		x.sentences(g, ss, a*200, 200)
	case strings.HasPrefix(id, "combos:"):
		fmt.Sscanf(id, "combos:%d", &a)
		x.combos(a)
	case strings.HasPrefix(id, "forms:"):
		fmt.Sscanf(id, "forms:%d", &a)
		x.forms(a)
	case strings.HasPrefix(id, "names:"):
		fmt.Sscanf(id, "names:%d", &a)
		x.names(a)
	}
}
