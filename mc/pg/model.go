package pg

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	. "mc/sqlx"
)

// DB is one database.
type DB struct {
	Name    string
	Schemas []string
	Rels    []*Rel // creation order
	Enums   map[string][]string
	Exts    map[string]bool
	Roles   map[string]bool
	next    int
	inTx    bool
}

// Rel is an entry of pg_class: table r, view v, index i, sequence S.
type Rel struct {
	OID          int
	Schema, Name string
	Kind         string
	Cols         []*Col
	Cons         []*Con
	Pols         []*Pol
	RLS, Force   bool
	// index
	Table  int
	Unique bool
	Method string
	Keys   []Key
	Where  *Node
	// view
	Q   *Query
	Ext string // owning extension
	// sequence
	OwnCol int
	Opts   string
	Ident  bool
}

type Key struct {
	Num   int
	E     *Node
	Desc  bool
	Nulls string
	Class string
}

type Col struct {
	Num     int
	Name    string
	T       T
	NotNull bool
	Def     *Node
	Ident   string
	Dropped bool
	Coll    string
}

type Con struct {
	OID          int
	Name         string
	Kind         string // p u c f
	Cols         []int
	Expr         *Node
	NoInherit    bool
	Ref          int
	RefCols      []int
	RefIdx       int
	OnUpd, OnDel string
	Deferrable   bool
	Deferred     bool
	Idx          int
}

type Pol struct {
	Name         string
	Permissive   bool
	Cmd          string
	Roles        []string
	Using, Check *Node
}

// NewDB is a database as created.
func NewDB(name string) *DB {
	return &DB{Name: name, Schemas: []string{"public"}, Enums: map[string][]string{}, Exts: map[string]bool{}, Roles: map[string]bool{"postgres": true}, next: 16384}
}

func (d *DB) oid() int { d.next++; return d.next }

// Clone copies everything that statements change; analysed expressions are immutable and shared.
func (d *DB) Clone() *DB {
	n := *d
	n.Schemas = append([]string{}, d.Schemas...)
	n.Enums = map[string][]string{}
	for k, v := range d.Enums {
		n.Enums[k] = v
	}
	n.Exts = map[string]bool{}
	for k, v := range d.Exts {
		n.Exts[k] = v
	}
	n.Roles = map[string]bool{}
	for k, v := range d.Roles {
		n.Roles[k] = v
	}
	n.Rels = make([]*Rel, len(d.Rels))
	for i, r := range d.Rels {
		x := *r
		x.Cols = make([]*Col, len(r.Cols))
		for k, c := range r.Cols {
			y := *c
			x.Cols[k] = &y
		}
		x.Cons = make([]*Con, len(r.Cons))
		for k, c := range r.Cons {
			y := *c
			x.Cons[k] = &y
		}
		x.Pols = make([]*Pol, len(r.Pols))
		for k, c := range r.Pols {
			y := *c
			x.Pols[k] = &y
		}
		n.Rels[i] = &x
	}
	return &n
}

func (d *DB) hasSchema(n string) bool { return in(n, d.Schemas...) }

func (d *DB) rel(oid int) *Rel {
	for _, r := range d.Rels {
		if r.OID == oid {
			return r
		}
	}
	return nil
}

func (d *DB) get(schema, name string) *Rel {
	for _, r := range d.Rels {
		if r.Schema == schema && r.Name == name {
			return r
		}
	}
	return nil
}

// find looks a possibly qualified name up (search_path is public).
func (d *DB) find(q []string) *Rel {
	if len(q) == 3 && q[0] == d.Name {
		q = q[1:]
	}
	if len(q) == 2 {
		return d.get(q[0], q[1])
	}
	return d.get("public", q[0])
}

func (d *DB) target(q []string) (string, string) {
	if len(q) == 3 && q[0] == d.Name {
		q = q[1:]
	}
	if len(q) > 2 {
		fail("0A000", "cross-database references are not implemented: %q", strings.Join(q, "."))
	}
	if len(q) == 2 {
		if !d.hasSchema(q[0]) {
			fail("3F000", "schema %q does not exist", q[0])
		}
		return q[0], q[1]
	}
	return "public", q[0]
}

// shown is the name as generate_relation_name gives it.
func (r *Rel) shown() string {
	if r.Schema == "public" {
		return qi(r.Name)
	}
	return qi(r.Schema) + "." + qi(r.Name)
}

func (r *Rel) full() string { return qi(r.Schema) + "." + qi(r.Name) }

func (r *Rel) col(n string) *Col {
	for _, c := range r.Cols {
		if c.Name == n && !c.Dropped {
			return c
		}
	}
	return nil
}

func (r *Rel) num(n int) *Col {
	for _, c := range r.Cols {
		if c.Num == n {
			return c
		}
	}
	return nil
}

func (r *Rel) live() []*Col {
	var o []*Col
	for _, c := range r.Cols {
		if !c.Dropped {
			o = append(o, c)
		}
	}
	return o
}

func (r *Rel) con(n string) *Con {
	for _, c := range r.Cons {
		if c.Name == n {
			return c
		}
	}
	return nil
}

func (r *Rel) pk() *Con {
	for _, c := range r.Cons {
		if c.Kind == "p" {
			return c
		}
	}
	return nil
}

func (d *DB) conOfIdx(oid int) (*Rel, *Con) {
	for _, r := range d.Rels {
		for _, c := range r.Cons {
			if c.Idx == oid {
				return r, c
			}
		}
	}
	return nil, nil
}

func (d *DB) indexes(t *Rel) []*Rel {
	var o []*Rel
	for _, r := range d.Rels {
		if r.Kind == "i" && r.Table == t.OID {
			o = append(o, r)
		}
	}
	return o
}

func (d *DB) remove(oid int) {
	for i, r := range d.Rels {
		if r.OID == oid {
			d.Rels = append(append([]*Rel{}, d.Rels[:i]...), d.Rels[i+1:]...)
			return
		}
	}
}

// ---- queries

type FromItem struct {
	RT   *rte
	L, R *FromItem
	Join string
	On   *Node
}

type Item struct {
	N    *Node
	Name string
}

type Order struct {
	N     *Node
	Pos   int
	Name  string
	Desc  bool
	Nulls string
}

// Query is an analysed select.
type Query struct {
	Items         []*Item
	From          []*FromItem
	Where, Having *Node
	Group         []*Node
	Order         []*Order
	Limit, Offset *Node
	Distinct      bool
	Op            string
	L, R          *Query
	rels          []int
}

func (f *FromItem) walk(fn func(*Node)) {
	if f == nil {
		return
	}
	f.L.walk(fn)
	f.R.walk(fn)
	f.On.walk(fn)
	if f.RT != nil && f.RT.sub != nil {
		f.RT.sub.walk(fn)
	}
}

func (q *Query) walk(fn func(*Node)) {
	if q == nil {
		return
	}
	q.L.walk(fn)
	q.R.walk(fn)
	for _, i := range q.Items {
		i.N.walk(fn)
	}
	for _, f := range q.From {
		f.walk(fn)
	}
	q.Where.walk(fn)
	q.Having.walk(fn)
	for _, g := range q.Group {
		g.walk(fn)
	}
	for _, o := range q.Order {
		o.N.walk(fn)
	}
}

func (q *Query) relOIDs(m map[int]bool) {
	if q == nil {
		return
	}
	q.L.relOIDs(m)
	q.R.relOIDs(m)
	var fr func(f *FromItem)
	fr = func(f *FromItem) {
		if f == nil {
			return
		}
		fr(f.L)
		fr(f.R)
		if f.RT != nil {
			if f.RT.rel != nil {
				m[f.RT.rel.OID] = true
			}
			f.RT.sub.relOIDs(m)
		}
	}
	for _, f := range q.From {
		fr(f)
	}
	q.walk(func(n *Node) {
		if n.Q != nil {
			n.Q.relOIDs(m)
		}
	})
}

func figure(n *Node, e *Expr) string {
	switch e.K {
	case "col":
		return e.S
	case "func":
		p := strings.Split(e.S, ".")
		f := p[len(p)-1]
		if f == "trim" {
			return "btrim"
		}
		return f
	case "cast":
		if f := figure(nil, e.A[0]); f != "?column?" {
			return f
		}
		t := strings.TrimSuffix(modRe.ReplaceAllString(e.Type, ""), "[]")
		if a := typeAlias[t]; a != "" {
			return a
		}
		return t
	case "case":
		if e.Else {
			if f := figure(nil, e.A[len(e.A)-1]); f != "?column?" {
				return f
			}
		}
		return "case"
	case "array":
		return "array"
	case "bool":
		return "bool"
	case "exists":
		return "exists"
	case "kwfunc":
		return strings.ToLower(e.S)
	case "subq":
		s := e.Sel
		for s.Op != "" {
			s = s.L
		}
		if len(s.Items) == 1 && !s.Items[0].IsStar {
			if s.Items[0].Alias != "" {
				return s.Items[0].Alias
			}
			return figure(nil, s.Items[0].E)
		}
	}
	return "?column?"
}

func (d *DB) rteOf(f *From, up *scope, rt *[]*rte) *rte {
	r := &rte{alias: f.Alias}
	if f.K == "sub" {
		r.sub = d.query(f.Sub, up)
		for _, i := range r.sub.Items {
			r.names = append(r.names, i.Name)
			r.types = append(r.types, i.N.T)
			r.nums = append(r.nums, 0)
		}
	} else {
		q := []string{f.Name}
		if f.Schema != "" {
			q = []string{f.Schema, f.Name}
		}
		r.rel = d.find(q)
		if r.rel == nil || !in(r.rel.Kind, "r", "v") {
			fail("42P01", "relation %q does not exist", strings.Join(q, "."))
		}
		if r.alias == "" {
			r.alias = f.Name
		}
		for _, c := range r.rel.live() {
			r.names = append(r.names, c.Name)
			r.types = append(r.types, c.T)
			r.nums = append(r.nums, c.Num)
		}
	}
	for _, o := range *rt {
		if o.alias == r.alias {
			fail("42712", "table name %q specified more than once", r.alias)
		}
	}
	*rt = append(*rt, r)
	return r
}

func (d *DB) query(s *Select, up *scope) *Query {
	q := &Query{}
	if s.Op != "" {
		q.Op = s.Op
		q.L, q.R = d.query(s.L, up), d.query(s.R, up)
		if len(q.L.Items) != len(q.R.Items) {
			fail("42601", "each %s query must have the same number of columns", s.Op)
		}
		sc := &scope{d: d}
		for i, l := range q.L.Items {
			r := q.R.Items[i]
			t := sc.common([]*Node{l.N, r.N}, s.Op)
			if l.N.T.base() != t || r.N.T.base() != t {
				if l.N.K != "const" && l.N.T.base() != t || r.N.K != "const" && r.N.T.base() != t {
					unsupported("%s of different types", s.Op)
				}
				l.N, r.N = d.must(l.N, t, cImplicit), d.must(r.N, t, cImplicit)
			}
			q.Items = append(q.Items, &Item{N: &Node{K: "setcol", T: l.N.T}, Name: l.Name})
		}
		for _, o := range s.Order {
			x := &Order{Desc: o.Desc, Nulls: o.Nulls}
			for i, it := range q.Items {
				if o.E.K == "col" && len(o.E.Qual) == 0 && o.E.S == it.Name || o.E.K == "num" && o.E.S == itoa(i+1) {
					x.Pos = i + 1
				}
			}
			if x.Pos == 0 {
				fail("42703", "column %q does not exist", o.E.S)
			}
			q.Order = append(q.Order, x)
		}
		d.limits(q, s)
		return q
	}
	agg := false
	sc := &scope{d: d, up: up, agg: &agg}
	var rts []*rte
	var fromItem func(f *From) *FromItem
	fromItem = func(f *From) *FromItem {
		if f.K != "join" {
			return &FromItem{RT: d.rteOf(f, up, &rts)}
		}
		n := len(rts)
		l := fromItem(f.L)
		r := fromItem(f.R)
		it := &FromItem{L: l, R: r, Join: f.Join}
		if f.Using != nil {
			unsupported("JOIN USING")
		}
		if f.On != nil {
			one := &scope{d: d, up: up, rt: rts[n:], what: "JOIN conditions"}
			it.On = one.boolean(f.On, "JOIN/ON")
		}
		return it
	}
	for _, f := range s.From {
		q.From = append(q.From, fromItem(f))
	}
	sc.rt = rts
	for _, it := range s.Items {
		if it.IsStar {
			hit := false
			for _, r := range rts {
				if len(it.Star) > 0 && it.Star[len(it.Star)-1] != r.alias {
					continue
				}
				hit = true
				for i, c := range r.names {
					n := &Node{K: "var", S: c, T: r.types[i], RT: r}
					if r.rel != nil {
						n.Rel, n.Num = r.rel.OID, r.nums[i]
					}
					q.Items = append(q.Items, &Item{N: n, Name: c})
				}
			}
			if !hit {
				if len(it.Star) == 0 {
					fail("42601", "SELECT * with no tables specified is not valid")
				}
				fail("42P01", "missing FROM-clause entry for table %q", it.Star[len(it.Star)-1])
			}
			continue
		}
		n := sc.expr(it.E)
		name := it.Alias
		if name == "" {
			name = figure(n, it.E)
		}
		if n.T.N == "unknown" && n.K == "const" {
			n = d.must(n, tText, cImplicit)
		}
		q.Items = append(q.Items, &Item{N: n, Name: name})
	}
	if s.Where != nil {
		w := &scope{d: d, up: up, rt: rts, what: "WHERE"}
		q.Where = w.boolean(s.Where, "WHERE")
	}
	byName := func(e *Expr, clause string) *Node {
		if e.K == "num" {
			i := 0
			fmt.Sscan(e.S, &i)
			if i < 1 || i > len(q.Items) {
				fail("42P10", "%s position %s is not in select list", clause, e.S)
			}
			return q.Items[i-1].N
		}
		if e.K == "col" && len(e.Qual) == 0 {
			if clause == "GROUP BY" {
				for _, r := range rts {
					if in(e.S, r.names...) {
						return nil
					}
				}
			}
			for _, it := range q.Items {
				if it.Name == e.S {
					return it.N
				}
			}
		}
		return nil
	}
	for _, g := range s.Group {
		n := byName(g, "GROUP BY")
		if n == nil {
			n = sc.expr(g)
		}
		q.Group = append(q.Group, n)
	}
	if s.Having != nil {
		q.Having = sc.boolean(s.Having, "HAVING")
	}
	q.Distinct = s.Distinct
	for _, o := range s.Order {
		n := byName(o.E, "ORDER BY")
		if n == nil {
			n = sc.expr(o.E)
		}
		q.Order = append(q.Order, &Order{N: n, Desc: o.Desc, Nulls: o.Nulls})
	}
	if len(q.Group) > 0 || agg || q.Having != nil {
		var chk func(n *Node)
		chk = func(n *Node) {
			if n == nil || n.K == "agg" {
				return
			}
			for _, g := range q.Group {
				if d.show(g, false) == d.show(n, false) && (g.K != "var" || g.RT == n.RT) {
					return
				}
			}
			if n.K == "var" && n.Lvl == 0 {
				// functional dependency on a primary key
				for _, g := range q.Group {
					if g.K == "var" && g.RT == n.RT && n.RT.rel != nil {
						if pk := d.rel(n.RT.rel.OID).pk(); pk != nil && len(pk.Cols) == 1 && pk.Cols[0] == g.Num {
							unsupported("view that depends on a primary key")
						}
					}
				}
				fail("42803", "column %q must appear in the GROUP BY clause or be used in an aggregate function", n.RT.alias+"."+n.S)
			}
			for _, a := range n.A {
				chk(a)
			}
		}
		for _, it := range q.Items {
			chk(it.N)
		}
		chk(q.Having)
		for _, o := range q.Order {
			chk(o.N)
		}
	}
	d.limits(q, s)
	return q
}

func (d *DB) limits(q *Query, s *Select) {
	sc := &scope{d: d, what: "LIMIT"}
	if s.Limit != nil {
		q.Limit = d.must(sc.expr(s.Limit), tInt8, cImplicit)
	}
	if s.Offset != nil {
		q.Offset = d.must(sc.expr(s.Offset), tInt8, cImplicit)
	}
}

func (d *DB) viewdef(r *Rel) string {
	p := &printer{b: &strings.Builder{}}
	var names []string
	for _, c := range r.live() {
		names = append(names, c.Name)
	}
	p.query(r.Q, names)
	return p.b.String() + ";"
}

// ---- definitions

func (d *DB) indexdef(x *Rel) string {
	t := d.rel(x.Table)
	var b strings.Builder
	b.WriteString("CREATE ")
	if x.Unique {
		b.WriteString("UNIQUE ")
	}
	m := x.Method
	if m == "" {
		m = "btree"
	}
	b.WriteString("INDEX " + qi(x.Name) + " ON " + t.full() + " USING " + m + " (")
	for i, k := range x.Keys {
		if i > 0 {
			b.WriteString(", ")
		}
		if k.E != nil {
			s := d.show(k.E, false)
			if k.E.K == "func" || k.E.K == "coalesce" {
				b.WriteString(s)
			} else {
				b.WriteString("(" + s + ")")
			}
		} else {
			b.WriteString(qi(t.num(k.Num).Name))
		}
		if k.Class != "" {
			b.WriteString(" " + k.Class)
		}
		if k.Desc {
			b.WriteString(" DESC")
			if k.Nulls == "LAST" {
				b.WriteString(" NULLS LAST")
			}
		} else if k.Nulls == "FIRST" {
			b.WriteString(" NULLS FIRST")
		}
	}
	b.WriteString(")")
	if x.Where != nil {
		b.WriteString(" WHERE " + d.show(x.Where, false))
	}
	return b.String()
}

func (d *DB) colNames(t *Rel, nums []int) []string {
	var o []string
	for _, n := range nums {
		o = append(o, t.num(n).Name)
	}
	return o
}

func qil(l []string) string {
	var o []string
	for _, x := range l {
		o = append(o, qi(x))
	}
	return strings.Join(o, ", ")
}

// condef is pg_get_constraintdef.
func (d *DB) condef(t *Rel, c *Con, pretty bool) string {
	s := ""
	switch c.Kind {
	case "p":
		s = "PRIMARY KEY (" + qil(d.colNames(t, c.Cols)) + ")"
	case "u":
		s = "UNIQUE (" + qil(d.colNames(t, c.Cols)) + ")"
	case "c":
		s = "CHECK (" + d.show(c.Expr, pretty) + ")"
		if c.NoInherit {
			s += " NO INHERIT"
		}
	case "f":
		r := d.rel(c.Ref)
		s = "FOREIGN KEY (" + qil(d.colNames(t, c.Cols)) + ") REFERENCES " + r.shown() + "(" + qil(d.colNames(r, c.RefCols)) + ")"
		if c.OnUpd != "NO ACTION" {
			s += " ON UPDATE " + c.OnUpd
		}
		if c.OnDel != "NO ACTION" {
			s += " ON DELETE " + c.OnDel
		}
	}
	if c.Deferrable {
		s += " DEFERRABLE"
	}
	if c.Deferred {
		s += " INITIALLY DEFERRED"
	}
	return s
}

func (d *DB) poldef(p *Pol) string {
	s := "PERMISSIVE"
	if !p.Permissive {
		s = "RESTRICTIVE"
	}
	s += " " + p.Cmd + " TO " + strings.Join(p.Roles, ",")
	if p.Using != nil {
		s += " USING " + d.show(p.Using, false)
	}
	if p.Check != nil {
		s += " CHECK " + d.show(p.Check, false)
	}
	return s
}

var (
	castLit = regexp.MustCompile(`^('(?:[^']|'')*')::[a-z" ]+(\([^)]*\))?[a-z ]*(\[\])?$`)
	plainNo = regexp.MustCompile(`^'?(-?[0-9]+)(\.[0-9]*)?'?$`)
)

// canonDefault drops what makes no difference to the values a default gives: the type of a literal and zeros at the end.
func canonDefault(s string) string {
	if m := castLit.FindStringSubmatch(s); m != nil {
		s = m[1]
	}
	if m := plainNo.FindStringSubmatch(s); m != nil {
		s = m[1] + strings.TrimRight(strings.TrimRight(m[2], "0"), ".")
	}
	return s
}

// Canon renders a table for comparison: the column order and the name of the primary key are not part of it.
func (d *DB) tableCanon(t *Rel) string {
	var l []string
	for _, c := range t.live() {
		s := "col " + c.Name + " " + c.T.Show()
		if c.NotNull {
			s += " not null"
		}
		if c.Def != nil {
			s += " default " + canonDefault(d.show(c.Def, false))
		}
		if c.Ident != "" {
			s += " identity " + c.Ident
		}
		if c.Coll != "" {
			s += " collate " + c.Coll
		}
		l = append(l, s)
	}
	for _, c := range t.Cons {
		n := c.Name + " "
		if c.Kind == "p" {
			n = ""
		}
		l = append(l, "con "+n+d.condef(t, c, true))
	}
	for _, x := range d.indexes(t) {
		if _, c := d.conOfIdx(x.OID); c == nil {
			l = append(l, d.indexdef(x))
		}
	}
	for _, p := range t.Pols {
		l = append(l, "policy "+p.Name+" "+d.poldef(p))
	}
	sort.Strings(l)
	if t.RLS {
		l = append(l, "rls")
	}
	return strings.Join(l, ", ")
}

func (d *DB) Objects() map[string]string {
	m := map[string]string{}
	for _, r := range d.Rels {
		if r.Ext != "" {
			continue
		}
		switch r.Kind {
		case "r":
			m["table "+r.Schema+"."+r.Name] = d.tableCanon(r)
		case "v":
			var ty []string
			for _, c := range r.live() {
				ty = append(ty, c.Name+" "+c.T.Show())
			}
			m["view "+r.Schema+"."+r.Name] = d.viewdef(r) + " (" + strings.Join(ty, ", ") + ")"
		}
	}
	return m
}

// Pieces lists the droppable things.
func (d *DB) Pieces() map[string]bool {
	m := map[string]bool{}
	for _, r := range d.Rels {
		n := r.Schema + "." + r.Name
		if r.Ext != "" {
			continue
		}
		switch r.Kind {
		case "r":
			m["table "+n] = true
			for _, c := range r.live() {
				m["column "+n+"."+c.Name] = true
			}
			for _, c := range r.Cons {
				switch c.Kind {
				case "p":
					m["index "+n+".PRIMARY"] = true
				case "u":
					m["index "+n+"."+c.Name] = true
				case "c":
					m["check "+n+"."+c.Name] = true
				default:
					m["fk "+n+"."+c.Name] = true
				}
			}
			for _, p := range r.Pols {
				m["policy "+n+"."+p.Name] = true
			}
		case "i":
			if _, c := d.conOfIdx(r.OID); c == nil {
				t := d.rel(r.Table)
				m["index "+t.Schema+"."+t.Name+"."+r.Name] = true
			}
		case "v":
			m["view "+n] = true
		}
	}
	return m
}

func (d *DB) Canon() string {
	var l []string
	for k, v := range d.Objects() {
		l = append(l, k+": "+v)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Key is everything that can influence a later run.
func (d *DB) Key() string {
	var b strings.Builder
	for _, r := range d.Rels {
		fmt.Fprintf(&b, "%s %s.%s", r.Kind, r.Schema, r.Name)
		switch r.Kind {
		case "r":
			for _, c := range r.live() {
				b.WriteString(" " + c.Name)
			}
			for _, c := range r.Cons {
				b.WriteString(" " + c.Name)
			}
		case "S":
			if o := d.rel(r.Table); o != nil {
				fmt.Fprintf(&b, " of %s %d", o.Name, r.OwnCol)
			}
		}
		b.WriteString("\n")
	}
	return d.Canon() + "\n" + b.String()
}

func (d *DB) tables() []*Rel {
	var o []*Rel
	for _, r := range d.Rels {
		if r.Kind == "r" {
			o = append(o, r)
		}
	}
	return o
}

// dependants of a column (num>0) or of a whole relation: views, policies of any table, foreign keys of other tables.
func (d *DB) usesView(oid, num int) *Rel {
	for _, r := range d.Rels {
		if r.Kind != "v" {
			continue
		}
		hit := false
		if num == 0 {
			m := map[int]bool{}
			r.Q.relOIDs(m)
			hit = m[oid]
		} else {
			r.Q.walk(func(n *Node) { hit = hit || n.K == "var" && n.Rel == oid && n.Num == num })
		}
		if hit {
			return r
		}
	}
	return nil
}

func uses(n *Node, oid, num int) bool {
	hit := false
	n.walk(func(x *Node) { hit = hit || x.K == "var" && x.Rel == oid && x.Num == num })
	return hit
}
