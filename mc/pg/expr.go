package pg

import (
	"regexp"
	"strconv"
	"strings"

	. "mc/sqlx"
)

// Node is an analysed expression.
type Node struct {
	K    string // var const op and or not cast func agg saop null bool case coalesce minmax nullif array sqlv exists insub scalar distinct
	S    string // operator, function, test, quantifier
	T    T
	A    []*Node
	Fmt  int // cast: 1 explicit, 2 implicit
	Cast string
	Rel  int // var: relation and attribute, or range table entry
	Num  int
	RT   *rte
	Lvl  int
	Null bool
	Val  bool // case has an operand
	Else bool
	Dist bool
	Q    *Query
}

const (
	cImplicit = iota
	cAssign
	cExplicit
)

type rte struct {
	alias string // name used in references
	shown string // what FROM prints
	rel   *Rel
	sub   *Query
	names []string
	types []T
	nums  []int
	left  bool
}

type scope struct {
	d     *DB
	rt    []*rte
	up    *scope
	agg   *bool // aggregates allowed and seen
	table *Rel  // for constraints: unqualified variables
	what  string
}

var simpleIdent = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)

// keywords that need quotes (every category but unreserved)
var quoted = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(`all analyse analyze and any array as asc asymmetric authorization between bigint binary bit boolean both case cast char character check
 coalesce collate collation column concurrently constraint create cross current_catalog current_date current_role current_schema current_time current_timestamp current_user
 dec decimal default deferrable desc distinct do else end except exists extract false fetch float for foreign freeze from full grant greatest group grouping having ilike in
 initially inner inout int integer intersect interval into is isnull join lateral leading least left like limit localtime localtimestamp national natural nchar none not
 notnull null nullif numeric offset on only or order out outer overlaps overlay placing position precision primary real references returning right row select session_user
 setof similar smallint some substring symmetric table tablesample then time timestamp to trailing treat trim true union unique user using values varchar variadic verbose
 when where window with xmlattributes xmlconcat xmlelement xmlexists xmlforest xmlnamespaces xmlparse xmlpi xmlroot xmlserialize xmltable`) {
		m[w] = true
	}
	return m
}()

func qi(s string) string {
	if simpleIdent.MatchString(s) && !quoted[s] {
		return s
	}
	return `"` + strings.Replace(s, `"`, `""`, -1) + `"`
}

// qs is a literal as expressions are shown: never in the E” form.
func qs(s string) string {
	return "'" + strings.Replace(s, "'", "''", -1) + "'"
}

func cnst(t T, s string) *Node { return &Node{K: "const", S: s, T: t} }

// coerce turns n into t; nil if there is no such cast in the context.
func (d *DB) coerce(n *Node, t T, ctx int) *Node {
	f := 2
	if ctx == cExplicit {
		f = 1
	}
	length := func(x *Node) *Node {
		if t.Mod == "" || x.T.Mod == t.Mod && x.T.N == t.N {
			return x
		}
		return &Node{K: "cast", Cast: "func", T: t, A: []*Node{x}, Fmt: f}
	}
	if n.T.N == "unknown" {
		if n.K == "const" {
			c := &Node{K: "const", T: t.base(), Null: n.Null, S: n.S}
			if !n.Null {
				c.S = d.input(t.base(), n.S)
				if t.N == "numeric" || t.N == "varchar" {
					c.S = d.input(t.base(), n.S)
				}
			}
			return length(c)
		}
		unsupported("unknown expression")
	}
	if n.T.base() == t.base() {
		return length(n)
	}
	k := castKind(n.T, t, ctx)
	if k == "" {
		return nil
	}
	if k == "none" && n.T.N == t.N {
		return length(n)
	}
	c := &Node{K: "cast", Cast: k, T: t.base(), A: []*Node{n}, Fmt: f}
	if t.Mod != "" {
		if k == "none" || k == "func" && !t.A {
			// a length coercion on top, hidden or collapsed when shown
			in := &Node{K: "cast", Cast: k, T: t.base(), A: []*Node{n}, Fmt: 2}
			return &Node{K: "cast", Cast: "func", T: t, A: []*Node{in}, Fmt: f}
		}
		in := &Node{K: "cast", Cast: k, T: t.base(), A: []*Node{n}, Fmt: 2}
		return &Node{K: "cast", Cast: "func", T: t, A: []*Node{in}, Fmt: f}
	}
	return c
}

func (d *DB) must(n *Node, t T, ctx int) *Node {
	c := d.coerce(n, t, ctx)
	if c == nil {
		fail("42846", "cannot cast type %s to %s", n.T.Show(), t.Show())
	}
	return c
}

func (s *scope) d_() *DB { return s.d }

func (s *scope) boolean(e *Expr, what string) *Node {
	n := s.expr(e)
	return s.asBool(n, what)
}

func (s *scope) asBool(n *Node, what string) *Node {
	if n.T.N == "unknown" {
		return s.d.must(n, tBool, cImplicit)
	}
	if n.T != tBool {
		fail("42804", "argument of %s must be type boolean, not type %s", what, n.T.Show())
	}
	return n
}

func number(x string) *Node {
	if !strings.ContainsAny(x, ".eE") {
		if v, err := strconv.ParseInt(x, 10, 64); err == nil {
			if v <= 2147483647 && v >= -2147483648 {
				return cnst(tInt4, strconv.FormatInt(v, 10))
			}
			return cnst(tInt8, strconv.FormatInt(v, 10))
		}
	}
	return nil
}

// expr analyses e.
func (s *scope) expr(e *Expr) *Node {
	d := s.d
	switch e.K {
	case "col":
		return s.column(e)
	case "str":
		return cnst(tUnknown, e.S)
	case "null":
		return &Node{K: "const", T: tUnknown, Null: true}
	case "num":
		if n := number(e.S); n != nil {
			return n
		}
		return cnst(tNumeric, d.input(tNumeric, e.S))
	case "bit":
		return cnst(T{N: "bit"}, e.S)
	case "bool":
		return cnst(tBool, strings.ToLower(e.S))
	case "un":
		switch e.S {
		case "NOT":
			return &Node{K: "not", T: tBool, A: []*Node{s.boolean(e.A[0], "NOT")}}
		case "-":
			if e.A[0].K == "num" {
				if n := number("-" + e.A[0].S); n != nil {
					return n
				}
				return cnst(tNumeric, d.input(tNumeric, "-"+e.A[0].S))
			}
			n := s.expr(e.A[0])
			if !isNum(n.T) {
				fail("42883", "operator does not exist: - %s", n.T.Show())
			}
			return &Node{K: "op", S: "-", T: n.T.base(), A: []*Node{n}}
		case "+":
			n := s.expr(e.A[0])
			if !isNum(n.T) {
				fail("42883", "operator does not exist: + %s", n.T.Show())
			}
			return &Node{K: "op", S: "+", T: n.T.base(), A: []*Node{n}}
		}
		unsupported("operator %s", e.S)
	case "bin":
		switch e.S {
		case "AND", "OR":
			k := strings.ToLower(e.S)
			l := s.boolean(e.A[0], e.S)
			r := s.boolean(e.A[1], e.S)
			if l.K == k && e.A[0].K == "bin" {
				return &Node{K: k, T: tBool, A: append(append([]*Node{}, l.A...), r)}
			}
			return &Node{K: k, T: tBool, A: []*Node{l, r}}
		}
		return s.binop(e.S, s.expr(e.A[0]), s.expr(e.A[1]))
	case "like":
		op := map[string]string{"LIKE": "~~", "NOT LIKE": "!~~", "ILIKE": "~~*", "NOT ILIKE": "!~~*"}[e.S]
		if op == "" || len(e.A) > 2 {
			unsupported("%s", e.S)
		}
		return s.binop(op, s.expr(e.A[0]), s.expr(e.A[1]))
	case "between":
		x, a, b := s.expr(e.A[0]), s.expr(e.A[1]), s.expr(e.A[2])
		if e.S == "" {
			return &Node{K: "and", T: tBool, A: []*Node{s.binop(">=", x, a), s.binop("<=", x, b)}}
		}
		return &Node{K: "or", T: tBool, A: []*Node{s.binop("<", x, a), s.binop(">", x, b)}}
	case "in":
		x := s.expr(e.A[0])
		var el []*Node
		vars := false
		for _, a := range e.A[1:] {
			n := s.expr(a)
			vars = vars || n.hasVar()
			el = append(el, n)
		}
		op, q := "=", "ANY"
		if e.S != "" {
			op, q = "<>", "ALL"
		}
		if len(el) > 1 && !vars {
			t := s.common(append([]*Node{x}, el...), "IN")
			arr := &Node{K: "array", T: T{N: t.N, A: true}}
			for _, n := range el {
				arr.A = append(arr.A, d.must(n, t, cImplicit))
			}
			return s.saop(op, q, x, arr)
		}
		var out *Node
		for _, n := range el {
			c := s.binop(op, x, n)
			if out == nil {
				out = c
			} else if e.S == "" {
				out = &Node{K: "or", T: tBool, A: flat("or", out, c)}
			} else {
				out = &Node{K: "and", T: tBool, A: flat("and", out, c)}
			}
		}
		return out
	case "quant":
		p := strings.SplitN(e.S, " ", 2)
		x := s.expr(e.A[0])
		if e.A[1].K == "subq" {
			unsupported("quantified subquery")
		}
		a := s.expr(e.A[1])
		if a.T.N == "unknown" {
			a = d.must(a, T{N: x.T.N, A: true}, cImplicit)
		}
		q := p[1]
		if q == "SOME" {
			q = "ANY"
		}
		return s.saop(p[0], q, x, a)
	case "array":
		var el []*Node
		for _, a := range e.A {
			el = append(el, s.expr(a))
		}
		if len(el) == 0 {
			fail("42P18", "cannot determine type of empty array")
		}
		t := s.common(el, "ARRAY")
		arr := &Node{K: "array", T: T{N: t.N, A: true}}
		for _, n := range el {
			arr.A = append(arr.A, d.must(n, t, cImplicit))
		}
		return arr
	case "is":
		n := s.expr(e.A[0])
		if strings.HasSuffix(e.S, "NULL") {
			if n.T.N == "unknown" {
				n = d.must(n, tText, cImplicit)
			}
			return &Node{K: "null", S: e.S, T: tBool, A: []*Node{n}}
		}
		return &Node{K: "bool", S: e.S, T: tBool, A: []*Node{s.asBool(n, "IS "+e.S)}}
	case "distinct":
		o := s.binop("=", s.expr(e.A[0]), s.expr(e.A[1]))
		o = &Node{K: "distinct", T: tBool, A: o.A}
		if e.S != "" {
			return &Node{K: "not", T: tBool, A: []*Node{o}}
		}
		return o
	case "cast":
		t := d.typ(e.Type)
		if e.A[0].K == "array" && t.A {
			arr := &Node{K: "array", T: t.base()}
			el := t.base()
			el.A = false
			for _, a := range e.A[0].A {
				arr.A = append(arr.A, d.must(s.expr(a), el, cExplicit))
			}
			if len(arr.A) == 0 {
				arr.S = "empty"
			}
			return arr
		}
		return d.must(s.expr(e.A[0]), t, cExplicit)
	case "kwfunc":
		t := map[string]T{"CURRENT_TIMESTAMP": {N: "timestamptz"}, "CURRENT_DATE": {N: "date"}, "CURRENT_TIME": {N: "timetz"}, "LOCALTIME": {N: "time"},
			"LOCALTIMESTAMP": {N: "timestamp"}, "CURRENT_USER": tName, "SESSION_USER": tName, "USER": tName, "CURRENT_ROLE": tName}[e.S]
		n := &Node{K: "sqlv", S: e.S, T: t}
		if len(e.A) > 0 {
			if t.N == "name" || t.N == "date" {
				fail("42601", "syntax error at or near \"(\"")
			}
			n.S += "(" + e.A[0].S + ")"
			n.T.Mod = e.A[0].S
		}
		return n
	case "case":
		n := &Node{K: "case", Val: e.Val, Else: e.Else}
		a := e.A
		var x *Node
		if e.Val {
			x = s.expr(a[0])
			if x.T.N == "unknown" {
				x = d.must(x, tText, cImplicit)
			}
			n.A = append(n.A, x)
			a = a[1:]
		}
		var res []*Node
		var conds []*Node
		for len(a) >= 2 {
			c := s.expr(a[0])
			if e.Val {
				c = s.binop("=", x, c)
			} else {
				c = s.asBool(c, "CASE/WHEN")
			}
			conds = append(conds, c)
			res = append(res, s.expr(a[1]))
			a = a[2:]
		}
		if e.Else {
			res = append(res, s.expr(a[0]))
		}
		t := s.common(res, "CASE")
		for i := range res {
			res[i] = d.must(res[i], t, cImplicit)
		}
		for i, c := range conds {
			n.A = append(n.A, c, res[i])
		}
		if e.Else {
			n.A = append(n.A, res[len(res)-1])
		} else {
			n.A = append(n.A, &Node{K: "const", T: t, Null: true})
			n.Else = true
		}
		n.T = t
		return n
	case "func":
		return s.call(e)
	case "exists", "insub", "subq":
		if s.rt == nil && s.table != nil {
			fail("0A000", "cannot use subquery in %s", s.what)
		}
		q := s.d.query(e.Sel, s)
		switch e.K {
		case "exists":
			return &Node{K: "exists", T: tBool, Q: q}
		case "insub":
			if len(q.Items) != 1 {
				fail("42601", "subquery has too many columns")
			}
			x := s.expr(e.A[0])
			o := s.binop("=", x, &Node{K: "subout", T: q.Items[0].N.T})
			if o.A[1].K != "subout" || o.A[0] != x {
				unsupported("IN with a cast")
			}
			n := &Node{K: "insub", T: tBool, A: []*Node{x}, Q: q}
			if e.S != "" {
				return &Node{K: "not", T: tBool, A: []*Node{n}}
			}
			return n
		}
		if len(q.Items) != 1 {
			fail("42601", "subquery must return only one column")
		}
		return &Node{K: "scalar", T: q.Items[0].N.T, Q: q}
	case "default":
		fail("42601", "DEFAULT is not allowed in this context")
	case "star":
		fail("42601", "syntax error at or near \"*\"")
	}
	unsupported("expression %s", e.K)
	return nil
}

func flat(k string, l, r *Node) []*Node {
	if l.K == k {
		return append(append([]*Node{}, l.A...), r)
	}
	return []*Node{l, r}
}

func (n *Node) hasVar() bool {
	if n.K == "var" {
		return true
	}
	for _, a := range n.A {
		if a.hasVar() {
			return true
		}
	}
	return false
}

// walk visits n and what is below it, subqueries included.
func (n *Node) walk(f func(*Node)) {
	if n == nil {
		return
	}
	f(n)
	for _, a := range n.A {
		a.walk(f)
	}
	if n.Q != nil {
		n.Q.walk(f)
	}
}

func (s *scope) column(e *Expr) *Node {
	lvl := 0
	for sc := s; sc != nil; sc = sc.up {
		var hit *Node
		for _, r := range sc.rt {
			if len(e.Qual) > 0 && e.Qual[len(e.Qual)-1] != r.alias {
				continue
			}
			for i, c := range r.names {
				if c == e.S {
					if hit != nil {
						fail("42702", "column reference %q is ambiguous", e.S)
					}
					hit = &Node{K: "var", S: c, T: r.types[i], RT: r, Lvl: lvl}
					if r.rel != nil {
						hit.Rel, hit.Num = r.rel.OID, r.nums[i]
					}
				}
			}
		}
		if hit != nil {
			return hit
		}
		lvl++
	}
	if len(e.Qual) > 0 {
		for sc := s; sc != nil; sc = sc.up {
			for _, r := range sc.rt {
				if r.alias == e.Qual[len(e.Qual)-1] {
					fail("42703", "column %s.%s does not exist", e.Qual[len(e.Qual)-1], e.S)
				}
			}
		}
		fail("42P01", "missing FROM-clause entry for table %q", e.Qual[len(e.Qual)-1])
	}
	fail("42703", "column %q does not exist", e.S)
	return nil
}

// common is select_common_type.
func (s *scope) common(l []*Node, what string) T {
	t := tUnknown
	for _, n := range l {
		x := n.T.base()
		if x == tUnknown || x == t {
			continue
		}
		if t == tUnknown {
			t = x
			continue
		}
		if castKind(t, x, cImplicit) != "" && castKind(x, t, cImplicit) == "" {
			t = x
		} else if castKind(t, x, cImplicit) != "" && t.N != "text" && x.N == "text" {
			t = x
		} else if castKind(x, t, cImplicit) == "" {
			fail("42804", "%s types %s and %s cannot be matched", what, t.Show(), x.Show())
		}
	}
	if t == tUnknown {
		t = tText
	}
	return t
}

func (s *scope) saop(op, q string, x, arr *Node) *Node {
	if !arr.T.A {
		fail("42809", "op ANY/ALL (array) requires array on right side")
	}
	el := arr.T
	el.A = false
	o := s.binop(op, x, &Node{K: "elem", T: el})
	l := o.A[0]
	want := o.A[1].T
	if want.base() != el.base() {
		k := castKind(el, want, cImplicit)
		arr = &Node{K: "cast", Cast: k, T: T{N: want.N, A: true}, A: []*Node{arr}, Fmt: 2}
	}
	return &Node{K: "saop", S: op + " " + q, T: tBool, A: []*Node{l, arr}}
}

func cmp(op string) bool { return in(op, "=", "<>", "<", ">", "<=", ">=") }

// binop resolves a binary operator.
func (s *scope) binop(op string, l, r *Node) *Node {
	d := s.d
	lt, rt := l.T.base(), r.T.base()
	no := func() {
		fail("42883", "operator does not exist: %s %s %s", lt.Show(), op, rt.Show())
	}
	mk := func(t T, a, b *Node) *Node { return &Node{K: "op", S: op, T: t, A: []*Node{a, b}} }
	to := func(n *Node, t T) *Node { return d.must(n, t, cImplicit) }
	like := in(op, "~~", "!~~", "~~*", "!~~*", "~", "!~", "~*", "!~*")
	res := tBool
	if !cmp(op) && !like {
		res = T{}
	}
	switch {
	case lt == tUnknown && rt == tUnknown:
		if in(op, "+", "-", "*", "/", "%") {
			fail("42725", "operator is not unique: unknown %s unknown", op)
		}
		if res.N == "" {
			res = tText
		}
		return mk(res, to(l, tText), to(r, tText))
	case like || op == "||" && (isStr(lt) || isStr(rt) || lt == tUnknown || rt == tUnknown):
		conv := func(n *Node, first bool) *Node {
			t := n.T.base()
			switch {
			case t == tUnknown || t.N == "varchar":
				return to(n, tText)
			case t.N == "text":
				return n
			case like && (t.N == "bpchar" || t.N == "name") && first:
				return n
			case t.N == "bpchar" || t.N == "name":
				return to(n, tText)
			case t.N == "citext":
				unsupported("citext operator")
			case op == "||" && !t.A:
				return n // anynonarray
			}
			no()
			return nil
		}
		if res.N == "" {
			res = tText
		}
		return mk(res, conv(l, true), conv(r, false))
	}
	if lt == tUnknown || rt == tUnknown {
		t := lt
		if lt == tUnknown {
			t = rt
		}
		if in(t.N, "varchar") && !t.A {
			t = tText
		}
		if !cmp(op) && in(t.N, "timestamp", "timestamptz", "date") && in(op, "+", "-") {
			unsupported("date arithmetic with an untyped literal")
		}
		if lt == tUnknown {
			return s.binop(op, to(l, t), r)
		}
		return s.binop(op, l, to(r, t))
	}
	switch {
	case isNum(lt) && isNum(rt):
		rank := map[string]int{"int2": 1, "int4": 2, "int8": 3, "numeric": 4, "float4": 5, "float8": 6}
		switch {
		case isInt(lt) && isInt(rt), lt == rt, in(lt.N, "float4", "float8") && in(rt.N, "float4", "float8"):
		default:
			t := lt
			if rank[rt.N] > rank[lt.N] {
				t = rt
			}
			if t.N == "float4" {
				t = tFloat8
				// float4 has cross-type operators with float8
				if lt.N != "float4" {
					l = to(l, t)
				}
				if rt.N != "float4" {
					r = to(r, t)
				}
			} else {
				l, r = to(l, t), to(r, t)
			}
		}
		if res.N == "" {
			if !in(op, "+", "-", "*", "/", "%") || op == "%" && in(r.T.N, "float4", "float8") {
				no()
			}
			res = l.T.base()
			if rank[r.T.N] > rank[res.N] {
				res = r.T.base()
			}
		}
		return mk(res, l, r)
	case isStr(lt) && isStr(rt):
		if res.N == "" {
			no()
		}
		switch {
		case lt.N == "citext" || rt.N == "citext":
			if lt != rt {
				unsupported("citext operator")
			}
			return mk(res, l, r)
		case lt.N == "bpchar" && rt.N == "bpchar", lt.N == "name" && rt.N == "name":
			return mk(res, l, r)
		}
		conv := func(n, other *Node) *Node {
			if n.T.N == "varchar" || n.T.N == "bpchar" {
				return to(n, tText)
			}
			return n
		}
		return mk(res, conv(l, r), conv(r, l))
	case in(lt.N, "date", "timestamp", "timestamptz") && in(rt.N, "date", "timestamp", "timestamptz") && !lt.A && !rt.A:
		if res.N == "" {
			if op != "-" {
				no()
			}
			res = T{N: "interval"}
			if lt.N == "date" && rt.N == "date" {
				res = tInt4
			} else if lt != rt {
				unsupported("date arithmetic")
			}
		}
		return mk(res, l, r)
	case in(lt.N, "timestamp", "timestamptz") && rt.N == "interval" && in(op, "+", "-"):
		return mk(lt, l, r)
	case lt.N == "date" && rt.N == "interval" && in(op, "+", "-"):
		return mk(T{N: "timestamp"}, l, r)
	case lt.N == "date" && rt.N == "int4" && in(op, "+", "-"):
		return mk(lt, l, r)
	case lt == rt && cmp(op):
		if in(lt.N, "json", "xml", "point", "polygon") {
			no()
		}
		return mk(res, l, r)
	}
	if castKind(rt, lt, cImplicit) != "" && lt.N != rt.N {
		return s.binop(op, l, to(r, lt))
	}
	if castKind(lt, rt, cImplicit) != "" && lt.N != rt.N {
		return s.binop(op, to(l, rt), r)
	}
	no()
	return nil
}

type fn struct {
	args []T
	ret  T
}

var any1 = T{N: "any"}

var funcs = map[string][]fn{
	"lower": {{[]T{tText}, tText}}, "upper": {{[]T{tText}, tText}}, "length": {{[]T{tText}, tInt4}}, "char_length": {{[]T{tText}, tInt4}}, "character_length": {{[]T{tText}, tInt4}},
	"btrim": {{[]T{tText}, tText}}, "now": {{nil, T{N: "timestamptz"}}}, "random": {{nil, tFloat8}}, "md5": {{[]T{tText}, tText}},
	"replace": {{[]T{tText, tText, tText}, tText}}, "current_setting": {{[]T{tText}, tText}}, "substr": {{[]T{tText, tInt4}, tText}, {[]T{tText, tInt4, tInt4}, tText}},
	"date_trunc":      {{[]T{tText, {N: "timestamp"}}, T{N: "timestamp"}}, {[]T{tText, {N: "timestamptz"}}, T{N: "timestamptz"}}},
	"abs":             {{[]T{tInt4}, tInt4}, {[]T{tInt8}, tInt8}, {[]T{tNumeric}, tNumeric}, {[]T{tFloat8}, tFloat8}},
	"round":           {{[]T{tNumeric}, tNumeric}, {[]T{tFloat8}, tFloat8}, {[]T{tNumeric, tInt4}, tNumeric}},
	"clock_timestamp": {{nil, T{N: "timestamptz"}}}, "left": {{[]T{tText, tInt4}, tText}}, "right": {{[]T{tText, tInt4}, tText}},
	"nextval": {{[]T{{N: "regclass"}}, tInt8}}, "pg_sleep": {{[]T{tFloat8}, T{N: "void"}}},
}
var aggs = map[string]bool{"count": true, "sum": true, "min": true, "max": true, "avg": true}

func (s *scope) call(e *Expr) *Node {
	d := s.d
	name := strings.TrimPrefix(e.S, "pg_catalog.")
	var args []*Node
	if !(len(e.A) == 1 && e.A[0].K == "star") {
		for _, a := range e.A {
			args = append(args, s.expr(a))
		}
	}
	show := func(l []*Node) string {
		var o []string
		for _, a := range l {
			o = append(o, a.T.Show())
		}
		return strings.Join(o, ", ")
	}
	switch name {
	case "coalesce", "greatest", "least", "nullif":
		if name == "nullif" {
			o := s.binop("=", args[0], args[1])
			return &Node{K: "coalesce", S: "NULLIF", T: args[0].T.base(), A: o.A}
		}
		t := s.common(args, strings.ToUpper(name))
		n := &Node{K: "coalesce", S: strings.ToUpper(name), T: t}
		for _, a := range args {
			n.A = append(n.A, d.must(a, t, cImplicit))
		}
		return n
	case "trim":
		name = "btrim"
	}
	if aggs[name] {
		if s.agg == nil {
			fail("42803", "aggregate functions are not allowed in %s", s.what)
		}
		*s.agg = true
		n := &Node{K: "agg", S: name, Dist: e.Dist, A: args}
		if name == "count" {
			n.T = tInt8
			if len(args) == 0 {
				n.Val = true
			}
			return n
		}
		if len(args) != 1 {
			fail("42883", "function %s(%s) does not exist", name, show(args))
		}
		t := args[0].T.base()
		switch name {
		case "min", "max":
			if t.N == "varchar" {
				args[0] = d.must(args[0], tText, cImplicit)
				t = tText
			}
			n.T = t
		case "sum":
			n.T = map[string]T{"int2": tInt8, "int4": tInt8, "int8": tNumeric, "numeric": tNumeric, "float4": {N: "float4"}, "float8": tFloat8}[t.N]
		case "avg":
			n.T = map[string]T{"int2": tNumeric, "int4": tNumeric, "int8": tNumeric, "numeric": tNumeric, "float4": tFloat8, "float8": tFloat8}[t.N]
		}
		if n.T.N == "" {
			fail("42883", "function %s(%s) does not exist", name, show(args))
		}
		return n
	}
	var best *fn
	bestN := -1
	for i := range funcs[name] {
		f := &funcs[name][i]
		if len(f.args) != len(args) {
			continue
		}
		sc := 0
		ok := true
		for k, a := range args {
			switch {
			case a.T.base() == f.args[k]:
				sc += 2
			case a.T.N == "unknown":
				sc++
			case castKind(a.T, f.args[k], cImplicit) == "":
				ok = false
			}
		}
		if ok && sc > bestN {
			best, bestN = f, sc
		}
	}
	if best == nil {
		fail("42883", "function %s(%s) does not exist", name, show(args))
	}
	n := &Node{K: "func", S: name, T: best.ret}
	for i, a := range args {
		n.A = append(n.A, d.must(a, best.args[i], cImplicit))
	}
	if name == "nextval" && n.A[0].K == "const" {
		q := splitName(n.A[0].S)
		r := d.find(q)
		if r == nil {
			fail("42P01", "relation %q does not exist", n.A[0].S)
		}
		n.A[0].S = r.shown()
		n.Rel = r.OID
	}
	return n
}

func splitName(s string) []string {
	p, err := NewP(s, PG)
	if err != nil {
		return []string{s}
	}
	var q []string
	if Try(func() { q = p.QName() }) != nil {
		return []string{s}
	}
	return q
}
