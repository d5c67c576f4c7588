package pg

import (
	"strings"
)

// printer renders analysed expressions the way ruleutils does.
type printer struct {
	pretty bool // PRETTYFLAG_PAREN
	indent int
	qual   bool // qualify variables
	b      *strings.Builder
}

func (d *DB) show(n *Node, pretty bool) string {
	p := &printer{pretty: pretty, b: &strings.Builder{}}
	p.expr(n, false, nil)
	return p.b.String()
}

func (p *printer) w(s string) { p.b.WriteString(s) }
func (p *printer) nl() {
	s := strings.TrimRight(p.b.String(), " ")
	p.b.Reset()
	p.b.WriteString(s)
	p.w("\n")
	if p.indent > 0 {
		p.w(strings.Repeat(" ", p.indent))
	}
}

// paren is get_rule_expr_paren.
func (p *printer) paren(n *Node, implicit bool, parent *Node) {
	need := p.pretty && !simple(n, parent)
	if need {
		p.w("(")
	}
	p.expr(n, implicit, parent)
	if need {
		p.w(")")
	}
}

func simple(n, parent *Node) bool {
	switch n.K {
	case "var", "const", "sqlv", "array", "coalesce", "func", "agg", "case":
		return true
	case "cast":
		if n.Cast == "func" {
			return true
		}
		return simple(n.A[0], n)
	case "op":
		if parent != nil && parent.K == "op" {
			if len(n.A) != 2 || len(parent.A) != 2 {
				return false
			}
			lo := in(n.S, "+", "-")
			hi := in(n.S, "*", "/", "%")
			plo := in(parent.S, "+", "-")
			phi := in(parent.S, "*", "/", "%")
			if !(lo || hi) || !(plo || phi) {
				return false
			}
			if hi && plo {
				return true
			}
			if lo && phi {
				return false
			}
			return n == parent.A[0]
		}
		return inside(parent)
	case "null", "bool", "distinct", "exists", "insub", "scalar":
		return inside(parent)
	case "and", "or", "not":
		if parent != nil && in(parent.K, "and", "or", "not") {
			if n.K == "or" {
				return parent.K == "or"
			}
			return parent.K == "and" || parent.K == "or"
		}
		if parent == nil {
			return false
		}
		return in(parent.K, "array", "coalesce", "agg", "case", "func")
	}
	return false
}

func inside(parent *Node) bool {
	if parent == nil {
		return false
	}
	return in(parent.K, "func", "and", "or", "not", "array", "coalesce", "agg", "case")
}

func (p *printer) cast(n *Node) {
	a := n.A[0]
	if a.K == "const" && a.T.base() == n.T.base() && !a.Null {
		p.constant(a, -1)
	} else {
		if !p.pretty {
			p.w("(")
		}
		p.paren(a, false, n)
		if !p.pretty {
			p.w(")")
		}
	}
	p.w("::" + n.T.Show())
}

func (p *printer) constant(n *Node, show int) {
	if n.Null {
		p.w("NULL")
		if show >= 0 {
			p.w("::" + n.T.Show())
		}
		return
	}
	label := true
	switch {
	case n.T == tBool:
		p.w(n.S)
		label = false
	case n.T == tUnknown:
		p.w(qs(n.S))
		label = false
	case n.T == tInt4:
		if strings.HasPrefix(n.S, "-") {
			p.w("'" + n.S + "'")
		} else {
			p.w(n.S)
			label = false
		}
	case n.T == tNumeric:
		if n.S != "" && n.S[0] >= '0' && n.S[0] <= '9' {
			p.w(n.S)
			label = !strings.Contains(n.S, ".") // an integer would be read as one
		} else {
			p.w("'" + n.S + "'")
		}
	case !n.T.A && (n.T.N == "bit" || n.T.N == "varbit"):
		p.w("B'" + n.S + "'")
	default:
		p.w(qs(n.S))
	}
	if show < 0 {
		return
	}
	if label || show > 0 {
		p.w("::" + n.T.Show())
	}
}

// expr is get_rule_expr.
func (p *printer) expr(n *Node, implicit bool, parent *Node) {
	open := func() {
		if !p.pretty {
			p.w("(")
		}
	}
	close := func() {
		if !p.pretty {
			p.w(")")
		}
	}
	switch n.K {
	case "var":
		if p.qual && n.RT != nil {
			p.w(qi(n.RT.alias) + ".")
		}
		p.w(qi(n.S))
	case "const":
		p.constant(n, 0)
	case "sqlv":
		p.w(n.S)
	case "cast":
		if n.Fmt == 2 && !implicit {
			p.paren(n.A[0], false, n)
			return
		}
		p.cast(n)
	case "func":
		p.w(n.S + "(")
		p.list(n.A)
		p.w(")")
	case "agg":
		p.w(n.S + "(")
		if n.Dist {
			p.w("DISTINCT ")
		}
		if n.Val {
			p.w("*")
		}
		p.list(n.A)
		p.w(")")
	case "coalesce":
		p.w(n.S + "(")
		p.list(n.A)
		p.w(")")
	case "array":
		p.w("ARRAY[")
		p.list(n.A)
		p.w("]")
		if n.S == "empty" {
			p.w("::" + n.T.Show())
		}
	case "op":
		open()
		if len(n.A) == 1 {
			p.w(n.S + " ")
			p.paren(n.A[0], true, n)
		} else {
			p.paren(n.A[0], true, n)
			p.w(" " + n.S + " ")
			p.paren(n.A[1], true, n)
		}
		close()
	case "distinct":
		open()
		p.paren(n.A[0], true, n)
		p.w(" IS DISTINCT FROM ")
		p.paren(n.A[1], true, n)
		close()
	case "saop":
		f := strings.SplitN(n.S, " ", 2)
		open()
		p.paren(n.A[0], true, n)
		p.w(" " + f[0] + " " + f[1] + " (")
		p.paren(n.A[1], true, n)
		p.w(")")
		close()
	case "and", "or":
		open()
		for i, a := range n.A {
			if i > 0 {
				p.w(" " + strings.ToUpper(n.K) + " ")
			}
			p.paren(a, false, n)
		}
		close()
	case "not":
		open()
		p.w("NOT ")
		p.paren(n.A[0], false, n)
		close()
	case "null":
		open()
		p.paren(n.A[0], true, n)
		p.w(" IS " + n.S)
		close()
	case "bool":
		open()
		p.paren(n.A[0], false, n)
		p.w(" IS " + n.S)
		close()
	case "case":
		p.nl()
		p.indent += 4
		p.w("CASE")
		a := n.A
		if n.Val {
			p.w(" ")
			p.expr(a[0], true, n)
			a = a[1:]
		}
		for len(a) >= 2 {
			p.nl()
			p.w("WHEN ")
			c := a[0]
			if n.Val && c.K == "op" {
				c = c.A[1]
			}
			p.expr(c, false, n)
			p.w(" THEN ")
			p.expr(a[1], true, n)
			a = a[2:]
		}
		if n.Else {
			p.nl()
			p.w("ELSE ")
			p.expr(a[0], true, n)
		}
		p.indent -= 4
		p.nl()
		p.w("END")
	case "exists":
		p.w("(EXISTS (")
		p.query(n.Q, nil)
		p.w("))")
	case "insub":
		p.w("(")
		p.paren(n.A[0], true, n)
		p.w(" IN (")
		p.query(n.Q, nil)
		p.w("))")
	case "scalar":
		p.w("(")
		p.query(n.Q, nil)
		p.w(")")
	default:
		unsupported("printing %s", n.K)
	}
}

func (p *printer) list(l []*Node) {
	for i, a := range l {
		if i > 0 {
			p.w(", ")
		}
		p.expr(a, true, nil)
	}
}

// query prints a select the way pg_get_viewdef does.
func (p *printer) query(q *Query, names []string) {
	oq := p.qual
	p.qual = true
	defer func() { p.qual = oq }()
	if q.Op != "" {
		side := func(x *Query) {
			par := x.Op != "" && x.Op != q.Op || len(x.Order) > 0 || x.Limit != nil || x.Offset != nil
			if par {
				p.w("(")
			}
			p.query(x, names)
			if par {
				p.w(")")
			}
		}
		side(q.L)
		p.nl()
		p.w(q.Op)
		p.nl()
		if q.R.Op != "" {
			p.w("(")
			p.query(q.R, names)
			p.w(")")
		} else {
			side(q.R)
		}
	} else {
		p.w(" SELECT ")
		p.indent += 8
		if q.Distinct {
			p.w("DISTINCT ")
		}
		for i, it := range q.Items {
			if i > 0 {
				p.w(",")
				old := p.indent
				p.indent = old - 4
				p.nl()
				p.indent = old
			}
			at := "?column?"
			p.expr(it.N, true, nil)
			if it.N.K == "var" {
				at = it.N.S
			}
			nm := it.Name
			if i < len(names) {
				nm = names[i]
			}
			if nm != at {
				p.w(" AS " + qi(nm))
			}
		}
		for i, f := range q.From {
			if i == 0 {
				p.indent -= 5
				p.nl()
				p.indent += 5
				p.w("FROM ")
			} else {
				p.w(",")
				p.indent -= 4
				p.nl()
				p.indent += 4
			}
			p.from(f)
		}
		if q.Where != nil {
			p.indent -= 6
			p.nl()
			p.indent += 6
			p.w("WHERE ")
			p.expr(q.Where, false, nil)
		}
		if len(q.Group) > 0 {
			p.indent -= 6
			p.nl()
			p.indent += 6
			p.w("GROUP BY ")
			for i, g := range q.Group {
				if i > 0 {
					p.w(", ")
				}
				p.sortExpr(g)
			}
		}
		if q.Having != nil {
			p.indent -= 7
			p.nl()
			p.indent += 7
			p.w("HAVING ")
			p.expr(q.Having, false, nil)
		}
		p.indent -= 8
	}
	if len(q.Order) > 0 {
		p.indent += 2
		p.nl()
		p.w("ORDER BY ")
		for i, o := range q.Order {
			if i > 0 {
				p.w(", ")
			}
			if o.Pos > 0 {
				p.w(itoa(o.Pos))
			} else if o.Name != "" {
				p.w(qi(o.Name))
			} else {
				p.sortExpr(o.N)
			}
			if o.Desc {
				p.w(" DESC")
			}
			if o.Nulls != "" && (o.Nulls == "FIRST") != o.Desc {
				p.w(" NULLS " + o.Nulls)
			}
		}
		p.indent -= 2
	}
	if q.Offset != nil {
		p.indent++
		p.nl()
		p.indent--
		p.w("OFFSET ")
		p.expr(q.Offset, false, nil)
	}
	if q.Limit != nil {
		p.indent++
		p.nl()
		p.indent--
		p.w("LIMIT ")
		p.expr(q.Limit, false, nil)
	}
}

func (p *printer) from(f *FromItem) {
	switch {
	case f.RT != nil && f.RT.sub != nil:
		p.w("(")
		p.indent += 9
		p.query(f.RT.sub, nil)
		p.indent -= 9
		p.w(") " + qi(f.RT.alias))
	case f.RT != nil:
		p.w(f.RT.rel.shown())
		if f.RT.alias != f.RT.rel.Name {
			p.w(" " + qi(f.RT.alias))
		}
	default:
		p.w("(")
		p.from(f.L)
		p.indent -= 3
		p.nl()
		p.indent += 3
		j := f.Join
		if j == "JOIN" && f.On == nil {
			j = "CROSS JOIN"
		}
		p.w(j + " ")
		p.from(f.R)
		if f.On != nil {
			p.w(" ON (")
			p.expr(f.On, false, nil)
			p.w(")")
		}
		p.w(")")
	}
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + itoa(n%10)
}

// sortExpr is get_rule_sortgroupclause: functions are always parenthesised.
func (p *printer) sortExpr(n *Node) {
	switch {
	case n.K == "const":
		p.constant(n, 1)
		return
	case n.K == "func" || n.K == "agg" || n.K == "cast" && n.Cast == "func" || p.pretty && n.K != "var":
		p.w("(")
		p.expr(n, true, nil)
		p.w(")")
		return
	}
	p.expr(n, true, nil)
}
