package my

import (
	"strings"

	. "mc/sqlx"
)

// scope maps table aliases to column lists.
type scope struct {
	db  *DB
	tab []scopeTab
	up  *scope
}
type scopeTab struct {
	alias string // printed qualifier (already quoted)
	name  string
	cols  []string
}

func (d *DB) relCols(n string) []string {
	if t := d.Tables[n]; t != nil {
		var o []string
		for _, c := range t.Cols {
			o = append(o, c.Name)
		}
		return o
	}
	if v := d.Views[n]; v != nil {
		return v.Cols
	}
	fail(1146, "Table '%s.%s' doesn't exist", d.Name, n)
	return nil
}

func (s *scope) add(f *From) {
	switch f.K {
	case "table":
		if f.Schema != "" && f.Schema != s.db.Name {
			fail(1049, "Unknown database '%s'", f.Schema)
		}
		al := f.Alias
		q := qi(al)
		if al == "" {
			al = f.Name
			q = qi(s.db.Name) + "." + qi(f.Name)
		}
		for _, o := range s.tab {
			if o.name == al {
				fail(1066, "Not unique table/alias: '%s'", al)
			}
		}
		s.tab = append(s.tab, scopeTab{q, al, s.db.relCols(f.Name)})
	case "sub":
		_, names := s.db.deparseSelect(f.Sub, nil)
		s.tab = append(s.tab, scopeTab{qi(f.Alias), f.Alias, names})
	default:
		s.add(f.L)
		s.add(f.R)
	}
}

func (s *scope) resolve(e *Expr) string {
	for sc := s; sc != nil; sc = sc.up {
		hit := ""
		for _, t := range sc.tab {
			if len(e.Qual) > 0 && !strings.EqualFold(e.Qual[len(e.Qual)-1], t.name) {
				continue
			}
			for _, c := range t.cols {
				if strings.EqualFold(c, e.S) {
					if hit != "" {
						fail(1052, "Column '%s' in field list is ambiguous", e.S)
					}
					hit = t.alias + "." + qi(c)
				}
			}
		}
		if hit != "" {
			return hit
		}
	}
	fail(1054, "Unknown column '%s' in 'field list'", strings.Join(append(append([]string{}, e.Qual...), e.S), "."))
	return ""
}

// deparse prints an expression as MySQL stores it.
func (d *DB) deparse(e *Expr, s *scope) string {
	r := func(x *Expr) string { return d.deparse(x, s) }
	list := func(l []*Expr) string {
		var o []string
		for _, x := range l {
			o = append(o, r(x))
		}
		return strings.Join(o, ",")
	}
	switch e.K {
	case "col":
		if s == nil {
			return qi(e.S)
		}
		return s.resolve(e)
	case "str":
		return "'" + strings.Replace(strings.Replace(e.S, "\\", "\\\\", -1), "'", "\\'", -1) + "'"
	case "num":
		return e.S
	case "hex":
		return "0x" + strings.ToLower(e.S)
	case "bit":
		return "b'" + e.S + "'"
	case "null":
		return "NULL"
	case "bool":
		return strings.ToLower(e.S)
	case "bin":
		op := strings.ToLower(e.S)
		return "(" + r(e.A[0]) + " " + op + " " + r(e.A[1]) + ")"
	case "un":
		if e.S == "NOT" || e.S == "!" {
			return "(not(" + r(e.A[0]) + "))"
		}
		if e.S == "-" && e.A[0].K == "num" {
			return "-(" + e.A[0].S + ")"
		}
		return e.S + "(" + r(e.A[0]) + ")"
	case "is":
		if strings.HasSuffix(e.S, "NULL") {
			return "(" + r(e.A[0]) + " is " + strings.ToLower(e.S) + ")"
		}
		return "(" + r(e.A[0]) + " is " + strings.ToLower(e.S) + ")"
	case "between":
		return "(" + r(e.A[0]) + " " + strings.ToLower(e.S) + "between " + r(e.A[1]) + " and " + r(e.A[2]) + ")"
	case "in":
		return "(" + r(e.A[0]) + " " + strings.ToLower(e.S) + "in (" + list(e.A[1:]) + "))"
	case "insub":
		q, _ := d.subSelect(e.Sel, s)
		return r(e.A[0]) + " " + strings.ToLower(e.S) + "in (" + q + ")"
	case "like":
		return "(" + r(e.A[0]) + " " + strings.ToLower(e.S) + " " + r(e.A[1]) + ")"
	case "exists":
		q, _ := d.subSelect(e.Sel, s)
		return "exists(" + q + ")"
	case "subq":
		q, _ := d.subSelect(e.Sel, s)
		return "(" + q + ")"
	case "func":
		n := e.S
		if e.Dist {
			return n + "(distinct " + list(e.A) + ")"
		}
		if n == "count" && len(e.A) == 1 && e.A[0].K == "star" {
			return "count(0)"
		}
		return n + "(" + list(e.A) + ")"
	case "kwfunc":
		m := map[string]string{"CURRENT_TIMESTAMP": "now()", "CURRENT_DATE": "curdate()", "CURRENT_USER": "current_user()", "CURRENT_TIME": "curtime()"}
		return m[e.S]
	case "interval":
		return "interval " + r(e.A[0]) + " " + e.S
	case "cast":
		if e.Type == "binary" {
			return "cast(" + r(e.A[0]) + " as char charset binary)"
		}
		return "cast(" + r(e.A[0]) + " as " + e.Type + ")"
	case "case":
		b := "(case"
		i := 0
		if e.Val {
			b += " " + r(e.A[0])
			i = 1
		}
		n := len(e.A)
		if e.Else {
			n--
		}
		for ; i+1 < n+0 || i+1 <= n-1; i += 2 {
			b += " when " + r(e.A[i]) + " then " + r(e.A[i+1])
		}
		if e.Else {
			b += " else " + r(e.A[len(e.A)-1])
		}
		return b + " end)"
	}
	fail(1235, "expression kind %s is not modelled", e.K)
	return ""
}

func (d *DB) from(f *From, s *scope) string {
	switch f.K {
	case "table":
		o := qi(d.Name) + "." + qi(f.Name)
		if f.Alias != "" {
			o += " " + qi(f.Alias)
		}
		return o
	case "sub":
		q, _ := d.deparseSelect(f.Sub, nil)
		return "(" + q + ") " + qi(f.Alias)
	}
	j := map[string]string{"JOIN": "join", "CROSS JOIN": "join", "LEFT JOIN": "left join", "RIGHT JOIN": "left join"}[f.Join]
	l, r := f.L, f.R
	if f.Join == "RIGHT JOIN" {
		l, r = r, l
	}
	o := "(" + d.from(l, s) + " " + j + " " + d.from(r, s)
	if f.On != nil {
		o += " on(" + d.deparse(f.On, s) + ")"
	}
	return o + ")"
}

func (d *DB) deparseSelect(q *Select, cols []string) (string, []string) {
	return d.sel(q, nil, cols)
}
func (d *DB) subSelect(q *Select, up *scope) (string, []string) { return d.sel(q, up, nil) }

func (d *DB) sel(q *Select, up *scope, cols []string) (string, []string) {
	if q.Op != "" {
		a, n := d.sel(q.L, up, cols)
		b, n2 := d.sel(q.R, up, nil)
		if len(n) != len(n2) {
			fail(1222, "The used SELECT statements have a different number of columns")
		}
		return a + " " + strings.ToLower(q.Op) + " " + b, n
	}
	s := &scope{db: d, up: up}
	if len(q.From) == 1 && q.From[0].K == "table" && strings.EqualFold(q.From[0].Name, "dual") && q.From[0].Alias == "" {
		c := *q // no table
		c.From = nil
		q = &c
	}
	for _, f := range q.From {
		s.add(f)
	}
	var items, names []string
	i := 0
	emit := func(x, n string) {
		if i < len(cols) {
			n = cols[i]
		}
		i++
		for _, o := range names {
			if strings.EqualFold(o, n) {
				fail(1060, "Duplicate column name '%s'", n)
			}
		}
		names = append(names, n)
		items = append(items, x+" AS "+qi(n))
	}
	for _, it := range q.Items {
		if it.IsStar {
			for _, t := range s.tab {
				if len(it.Star) > 0 && it.Star[len(it.Star)-1] != t.name {
					continue
				}
				for _, c := range t.cols {
					emit(t.alias+"."+qi(c), c)
				}
			}
			continue
		}
		n := it.Alias
		x := d.deparse(it.E, s)
		if n == "" {
			if it.E.K == "col" {
				n = it.E.S
			} else {
				n = exprName(it.E)
			}
		}
		emit(x, n)
	}
	if len(cols) > 0 && len(cols) != len(names) {
		fail(1353, "View's SELECT and view's field list have different column counts")
	}
	o := "select "
	if q.Distinct {
		o += "distinct "
	}
	o += strings.Join(items, ",")
	for k, f := range q.From {
		if k == 0 {
			o += " from "
			if len(q.From) > 1 {
				o += "("
			}
		} else {
			o += " join "
		}
		o += d.from(f, s)
	}
	if len(q.From) > 1 {
		o += ")"
	}
	var on func(f *From)
	on = func(f *From) {
		if f.K == "join" {
			on(f.L)
			on(f.R)
			if f.On != nil {
				d.deparse(f.On, s)
			}
		}
	}
	for _, f := range q.From {
		on(f)
	}
	if q.Where != nil {
		w := d.deparse(q.Where, s)
		if !strings.HasPrefix(w, "(") {
			w = w + ""
		}
		o += " where " + w
	}
	if len(q.Group) > 0 {
		var g []string
		for _, e := range q.Group {
			g = append(g, d.deparse(e, s))
		}
		o += " group by " + strings.Join(g, ",")
	}
	if q.Having != nil {
		o += " having " + d.deparse(q.Having, s)
	}
	if len(q.Order) > 0 {
		var g []string
		for _, e := range q.Order {
			x := ""
			if e.E.K == "col" && len(e.E.Qual) == 0 && hasName(names, e.E.S) {
				x = d.orderCol(e.E, s)
			} else {
				x = d.deparse(e.E, s)
			}
			if e.Desc {
				x += " desc"
			}
			g = append(g, x)
		}
		o += " order by " + strings.Join(g, ",")
	}
	if q.Limit != nil {
		o += " limit "
		if q.Offset != nil {
			o += d.deparse(q.Offset, s) + ","
		}
		o += d.deparse(q.Limit, s)
	}
	return o, names
}

func (d *DB) orderCol(e *Expr, s *scope) string {
	for _, t := range s.tab {
		for _, c := range t.cols {
			if strings.EqualFold(c, e.S) {
				return t.alias + "." + qi(c)
			}
		}
	}
	return qi(e.S)
}

func hasName(l []string, n string) bool {
	for _, x := range l {
		if strings.EqualFold(x, n) {
			return true
		}
	}
	return false
}

func exprName(e *Expr) string {
	switch e.K {
	case "num", "str":
		return e.S
	case "func":
		if len(e.A) == 1 && e.A[0].K == "star" {
			return e.S + "(*)"
		}
	}
	return "Name_exp_1"
}
