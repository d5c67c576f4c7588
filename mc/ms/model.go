// Package ms is a model of a SQL Server (2017) catalog: the data definition statements schema files and mssqldef use.
package ms

import (
	"crypto/sha1"
	"fmt"
	"sort"
	"strings"

	. "mc/sqlx"
)

// Err is a server error.
type Err struct {
	Num int
	Msg string
}

func (e *Err) Error() string { return fmt.Sprintf("mssql: %s (%d)", e.Msg, e.Num) }

func fail(num int, f string, a ...interface{}) { panic(Bail{&Err{num, fmt.Sprintf(f, a...)}}) }

// Const is a named constraint.
type Const struct {
	Name string
	Sys  bool // the server chose the name
	Def  string
}

type Ident struct {
	Seed, Incr string
	NFR        bool
}

type Column struct {
	Name    string
	Type    string
	Len     int // max_length in bytes, -1 for max
	Prec    int
	Scale   int
	NotNull bool
	Default *Const
	Ident   *Ident
	Collate string
}

// plainNumber writes a parenthesized decimal number without the zeros at its end; they make no difference.
func plainNumber(def string) string {
	n := strings.Trim(def, "()")
	if !strings.Contains(n, ".") || strings.Trim(n, "-0123456789.") != "" {
		return def
	}
	return strings.Replace(def, n, strings.TrimSuffix(strings.TrimRight(n, "0"), "."), 1)
}

type Check struct {
	Const
	NFR bool
	Col string // the only column it is about, or ""
	E   *Expr
}

type Part struct {
	Col  string
	Desc bool
}

type Index struct {
	Name                                                              string
	Sys                                                               bool
	Kind                                                              string // PK UQ IX
	Unique                                                            bool
	Clustered                                                         bool
	Parts                                                             []Part
	Incl                                                              []string
	Where                                                             string
	Pad, IgnoreDup, NoRecompute, Incremental, NoRowLocks, NoPageLocks bool
	Fill                                                              int
}

type FK struct {
	Name               string
	Sys                bool
	Cols               []string
	RefSchema, RefName string
	RefCols            []string
	OnUpd, OnDel       string // NO_ACTION CASCADE SET_NULL SET_DEFAULT
	NFR                bool
}

type Table struct {
	Schema, Name string
	Cols         []*Column
	Checks       []*Check
	Idx          []*Index
	FKs          []*FK
}

type View struct {
	Schema, Name, Text string
	Sel                *Select
	Cols               []string
}

type Trigger struct {
	Schema, Name string
	TSchema      string
	Table        string
	Text         string
	Time, Event  string
	Body         string
}

// DB is one database.
type DB struct {
	Name     string
	Schemas  []string
	Tables   []*Table
	Views    []*View
	Triggers []*Trigger
	Order    []string // names of tables, views, triggers in the order of creation
}

func NewDB(name string) *DB { return &DB{Name: name, Schemas: []string{"dbo"}} }

func strs(x []string) []string { return append([]string{}, x...) }

func (d *DB) Clone() *DB {
	n := &DB{Name: d.Name, Schemas: strs(d.Schemas), Order: strs(d.Order)}
	for _, t := range d.Tables {
		u := &Table{Schema: t.Schema, Name: t.Name}
		for _, c := range t.Cols {
			x := *c
			if c.Default != nil {
				y := *c.Default
				x.Default = &y
			}
			if c.Ident != nil {
				y := *c.Ident
				x.Ident = &y
			}
			u.Cols = append(u.Cols, &x)
		}
		for _, c := range t.Checks {
			x := *c
			u.Checks = append(u.Checks, &x)
		}
		for _, i := range t.Idx {
			x := *i
			x.Parts = append([]Part{}, i.Parts...)
			x.Incl = strs(i.Incl)
			u.Idx = append(u.Idx, &x)
		}
		for _, f := range t.FKs {
			x := *f
			x.Cols, x.RefCols = strs(f.Cols), strs(f.RefCols)
			u.FKs = append(u.FKs, &x)
		}
		n.Tables = append(n.Tables, u)
	}
	for _, v := range d.Views {
		x := *v
		n.Views = append(n.Views, &x)
	}
	for _, t := range d.Triggers {
		x := *t
		n.Triggers = append(n.Triggers, &x)
	}
	return n
}

func eq(a, b string) bool { return strings.EqualFold(a, b) }

// b quotes a name.
func br(n string) string { return "[" + strings.Replace(n, "]", "]]", -1) + "]" }

func (t *Table) col(n string) *Column {
	for _, c := range t.Cols {
		if eq(c.Name, n) {
			return c
		}
	}
	return nil
}

func (d *DB) findTable(schema, name string) *Table {
	for _, t := range d.Tables {
		if eq(t.Schema, schema) && eq(t.Name, name) {
			return t
		}
	}
	return nil
}

func (d *DB) findView(schema, name string) *View {
	for _, v := range d.Views {
		if eq(v.Schema, schema) && eq(v.Name, name) {
			return v
		}
	}
	return nil
}

// taken tells whether an object of this name exists in the schema.
func (d *DB) taken(schema, name string) bool {
	for _, t := range d.Tables {
		if !eq(t.Schema, schema) {
			continue
		}
		if eq(t.Name, name) {
			return true
		}
		for _, c := range t.Cols {
			if c.Default != nil && eq(c.Default.Name, name) {
				return true
			}
		}
		for _, c := range t.Checks {
			if eq(c.Name, name) {
				return true
			}
		}
		for _, i := range t.Idx {
			if i.Kind != "IX" && eq(i.Name, name) {
				return true
			}
		}
		for _, f := range t.FKs {
			if eq(f.Name, name) {
				return true
			}
		}
	}
	for _, v := range d.Views {
		if eq(v.Schema, schema) && eq(v.Name, name) {
			return true
		}
	}
	for _, t := range d.Triggers {
		if eq(t.Schema, schema) && eq(t.Name, name) {
			return true
		}
	}
	return false
}

func (d *DB) claim(schema, name string) {
	if d.taken(schema, name) {
		fail(2714, "There is already an object named '%s' in the database.", name)
	}
}

// sysName makes a name the way the server does; what it depends on is only what it is for, so that states stay comparable.
func (d *DB) sysName(kind string, t *Table, col string) string {
	cut := func(s string, n int) string {
		r := []rune(s)
		if len(r) > n {
			r = r[:n]
		}
		return string(r)
	}
	for i := 0; ; i++ {
		h := fmt.Sprintf("%X", sha1.Sum([]byte(fmt.Sprint(kind, t.Schema, ".", t.Name, ".", col, "#", i))))
		n := kind + "__" + cut(t.Name, 9) + "__"
		if kind == "PK" || kind == "UQ" {
			n += h[:16]
		} else {
			n += cut(col, 9) + "__" + h[:8]
		}
		if !d.taken(t.Schema, n) {
			return n
		}
	}
}

// ---- canon

func (c *Column) typ() string {
	switch c.Type {
	case "char", "varchar", "binary", "varbinary":
		if c.Len < 0 {
			return c.Type + "(max)"
		}
		return fmt.Sprintf("%s(%d)", c.Type, c.Len)
	case "nchar", "nvarchar":
		if c.Len < 0 {
			return c.Type + "(max)"
		}
		return fmt.Sprintf("%s(%d)", c.Type, c.Len/2)
	case "decimal", "numeric":
		return fmt.Sprintf("%s(%d,%d)", c.Type, c.Prec, c.Scale)
	case "float":
		return fmt.Sprintf("float(%d)", c.Prec)
	case "datetime2", "datetimeoffset", "time":
		return fmt.Sprintf("%s(%d)", c.Type, c.Scale)
	}
	return c.Type
}

func (c *Column) Canon() string {
	s := c.typ()
	if c.Collate != "" {
		s += " collate " + c.Collate
	}
	if c.NotNull {
		s += " not null"
	}
	if c.Default != nil && c.Default.Def != "(NULL)" {
		s += " default " + plainNumber(c.Default.Def)
	}
	if c.Ident != nil {
		s += fmt.Sprintf(" identity(%s,%s) %v", c.Ident.Seed, c.Ident.Incr, c.Ident.NFR)
	}
	return s
}

func parts(ps []Part) string {
	var l []string
	for _, p := range ps {
		s := br(p.Col)
		if p.Desc {
			s += " desc"
		}
		l = append(l, s)
	}
	return strings.Join(l, ",")
}

func (i *Index) Canon() string {
	s := i.Kind
	if i.Unique {
		s += " unique"
	}
	if i.Clustered {
		s += " clustered"
	}
	s += " (" + parts(i.Parts) + ")"
	if len(i.Incl) > 0 {
		l := strs(i.Incl)
		s += " include " + strings.Join(l, ",")
	}
	if i.Where != "" {
		s += " where " + i.Where
	}
	return s + fmt.Sprintf(" pad=%v fill=%d dup=%v norecompute=%v incremental=%v norow=%v nopage=%v", i.Pad, i.Fill, i.IgnoreDup, i.NoRecompute, i.Incremental, i.NoRowLocks, i.NoPageLocks)
}

func (f *FK) Canon() string {
	return fmt.Sprintf("(%s) -> %s.%s(%s) upd %s del %s nfr %v", strings.Join(f.Cols, ","), f.RefSchema, f.RefName, strings.Join(f.RefCols, ","), f.OnUpd, f.OnDel, f.NFR)
}

// Canon leaves out the order of columns and the names of default, check and key constraints.
func (t *Table) Canon() string {
	var l []string
	for _, c := range t.Cols {
		l = append(l, "column "+c.Name+" "+c.Canon())
	}
	for _, c := range t.Checks {
		l = append(l, fmt.Sprintf("check %s %v", c.Def, c.NFR))
	}
	for _, i := range t.Idx {
		n := i.Name
		if i.Kind != "IX" {
			n = ""
		}
		l = append(l, "index "+n+" "+i.Canon())
	}
	for _, f := range t.FKs {
		n := f.Name
		if f.Sys {
			n = ""
		}
		l = append(l, "fk "+n+" "+f.Canon())
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func (d *DB) Objects() map[string]string {
	m := map[string]string{}
	for _, t := range d.Tables {
		m["table "+t.Schema+"."+t.Name] = t.Canon()
	}
	for _, v := range d.Views {
		m["view "+v.Schema+"."+v.Name] = v.Sel.Canon()
	}
	for _, t := range d.Triggers {
		m["trigger "+t.Schema+"."+t.Name] = fmt.Sprintf("%s %s on %s.%s: %s", t.Time, t.Event, t.TSchema, t.Table, BodyCanon(t.Body, MSSQL))
	}
	return m
}

func (d *DB) Pieces() map[string]bool {
	m := map[string]bool{}
	for _, t := range d.Tables {
		n := t.Schema + "." + t.Name
		m["table "+n] = true
		for _, c := range t.Cols {
			m["column "+n+"."+c.Name] = true
			if c.Default != nil {
				m["default "+n+"."+c.Default.Name] = true
			}
		}
		for _, c := range t.Checks {
			m["check "+n+"."+c.Name] = true
		}
		for _, i := range t.Idx {
			m["index "+n+"."+i.Name] = true
		}
		for _, f := range t.FKs {
			m["fk "+n+"."+f.Name] = true
		}
	}
	for _, v := range d.Views {
		m["view "+v.Schema+"."+v.Name] = true
	}
	for _, t := range d.Triggers {
		m["trigger "+t.Schema+"."+t.Name] = true
	}
	return m
}

func (d *DB) Canon() string {
	var l []string
	for k, v := range d.Objects() {
		l = append(l, k+": "+v)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// Key is everything that can influence the future.
func (d *DB) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q\n", d.Schemas, d.Order)
	for _, t := range d.Tables {
		fmt.Fprintf(&b, "%s.%s\n", t.Schema, t.Name)
		for _, c := range t.Cols {
			fmt.Fprintf(&b, " %s %s", c.Name, c.Canon())
			if c.Default != nil {
				fmt.Fprintf(&b, " %s %s", c.Default.Name, c.Default.Def)
			}
			b.WriteString("\n")
		}
		for _, c := range t.Checks {
			fmt.Fprintf(&b, " %s %s %v %s\n", c.Name, c.Def, c.NFR, c.Col)
		}
		for _, i := range t.Idx {
			fmt.Fprintf(&b, " %s %s\n", i.Name, i.Canon())
		}
		for _, f := range t.FKs {
			fmt.Fprintf(&b, " %s %s\n", f.Name, f.Canon())
		}
	}
	for _, v := range d.Views {
		fmt.Fprintf(&b, "%s.%s %s\n", v.Schema, v.Name, v.Text)
	}
	for _, t := range d.Triggers {
		fmt.Fprintf(&b, "%s.%s %s\n", t.Schema, t.Name, t.Text)
	}
	return b.String()
}

// ---- statements

// Exec executes a batch: all of it or nothing.
func (d *DB) Exec(sql string) error {
	p, err := NewP(sql, MSSQL)
	if err != nil {
		return &Err{102, "Incorrect syntax: " + err.Error()}
	}
	n := d.Clone()
	err = Try(func() { n.batch(p) })
	if err != nil {
		if _, ok := err.(*SyntaxError); ok {
			return &Err{102, "Incorrect syntax: " + err.Error()}
		}
		return err
	}
	*d = *n
	return nil
}

func (d *DB) batch(p *P) {
	first := true
	for {
		for p.Acc(";") {
		}
		if p.EOF() {
			return
		}
		d.statement(p, first)
		first = false
	}
}

// obj reads the name of an object.
func (d *DB) obj(p *P) (schema, name string) {
	q := p.QName()
	switch len(q) {
	case 1:
		return "dbo", q[0]
	case 3:
		if !eq(q[0], d.Name) {
			fail(911, "Database '%s' does not exist.", q[0])
		}
		q = q[1:]
	}
	if len(q) != 2 {
		fail(117, "The object name contains more than the maximum number of prefixes.")
	}
	return d.schema(q[0]), q[1]
}

func (d *DB) schema(n string) string {
	for _, s := range d.Schemas {
		if eq(s, n) {
			return s
		}
	}
	fail(2760, "The specified schema name %q either does not exist or you do not have permission to use it.", n)
	return ""
}

func (d *DB) note(schema, name string) { d.Order = append(d.Order, schema+"."+name) }
func (d *DB) forget(schema, name string) {
	for i, o := range d.Order {
		if o == schema+"."+name {
			d.Order = append(strs(d.Order[:i]), d.Order[i+1:]...)
			return
		}
	}
}

func (d *DB) statement(p *P, first bool) {
	start := p.Peek().Pos
	end := func() {
		if !p.Acc(";") && !p.EOF() && !p.Is("CREATE") && !p.Is("ALTER") && !p.Is("DROP") {
			p.Unexpected()
		}
	}
	alone := func() {
		if !first {
			fail(111, "'CREATE VIEW' must be the first statement in a query batch.")
		}
	}
	switch {
	case p.Acc("CREATE", "TABLE"):
		d.createTable(p)
		end()
	case p.Acc("CREATE", "SCHEMA"):
		alone()
		n := p.Ident()
		for _, s := range d.Schemas {
			if eq(s, n) {
				fail(2714, "There is already an object named '%s' in the database.", n)
			}
		}
		d.Schemas = append(d.Schemas, n)
		end()
	case p.Is("CREATE", "UNIQUE"), p.Is("CREATE", "CLUSTERED"), p.Is("CREATE", "NONCLUSTERED"), p.Is("CREATE", "INDEX"):
		p.Next()
		x := &Index{Kind: "IX"}
		x.Unique = p.Acc("UNIQUE")
		x.Clustered = d.clustered(p, false)
		p.Exp("INDEX")
		x.Name = p.Ident()
		p.Exp("ON")
		t := d.table(p)
		x.Parts = d.partList(p)
		d.indexTail(p, x)
		d.addIndex(t, x)
		end()
	case p.Is("CREATE", "VIEW") || p.Is("CREATE", "OR", "ALTER", "VIEW") || p.Is("ALTER", "VIEW"):
		alone()
		d.view(p, p.Src[start:])
	case p.Is("CREATE", "TRIGGER") || p.Is("CREATE", "OR", "ALTER", "TRIGGER") || p.Is("ALTER", "TRIGGER"):
		alone()
		d.trigger(p, start)
	case p.Acc("ALTER", "TABLE"):
		d.alterTable(p)
		end()
	case p.Acc("DROP", "TABLE"):
		ife := p.Acc("IF", "EXISTS")
		for {
			schema, name := d.obj(p)
			t := d.findTable(schema, name)
			if t == nil {
				if !ife {
					fail(3701, "Cannot drop the table '%s', because it does not exist or you do not have permission.", name)
				}
			} else {
				d.dropTable(t)
			}
			if !p.Acc(",") {
				break
			}
		}
		end()
	case p.Acc("DROP", "VIEW"):
		ife := p.Acc("IF", "EXISTS")
		schema, name := d.obj(p)
		v := d.findView(schema, name)
		if v == nil {
			if !ife {
				fail(3701, "Cannot drop the view '%s', because it does not exist or you do not have permission.", name)
			}
		} else {
			for i := range d.Views {
				if d.Views[i] == v {
					d.Views = append(append([]*View{}, d.Views[:i]...), d.Views[i+1:]...)
					break
				}
			}
			d.forget(v.Schema, v.Name)
		}
		end()
	case p.Acc("DROP", "TRIGGER"):
		ife := p.Acc("IF", "EXISTS")
		schema, name := d.obj(p)
		found := false
		for i, t := range d.Triggers {
			if eq(t.Schema, schema) && eq(t.Name, name) {
				d.Triggers = append(append([]*Trigger{}, d.Triggers[:i]...), d.Triggers[i+1:]...)
				d.forget(t.Schema, t.Name)
				found = true
				break
			}
		}
		if !found && !ife {
			fail(3701, "Cannot drop the trigger '%s', because it does not exist or you do not have permission.", name)
		}
		end()
	case p.Acc("DROP", "INDEX"):
		ife := p.Acc("IF", "EXISTS")
		n := p.Ident()
		p.Exp("ON")
		t := d.table(p)
		i := t.index(n)
		if i == nil {
			if !ife {
				fail(3701, "Cannot drop the index '%s.%s', because it does not exist or you do not have permission.", t.Name, n)
			}
		} else {
			if i.Kind != "IX" {
				fail(3723, "An explicit DROP INDEX is not allowed on index '%s.%s'. It is being used for %s constraint enforcement.", t.Name, n, map[string]string{"PK": "PRIMARY KEY", "UQ": "UNIQUE KEY"}[i.Kind])
			}
			d.needed(t, i)
			t.dropIndex(i)
		}
		end()
	case p.Is("INSERT") || p.Is("UPDATE") || p.Is("DELETE") || p.Is("SELECT"):
		fail(50000, "model: %s is not modelled", p.Peek().U)
	default:
		p.Unexpected()
	}
}

func (d *DB) table(p *P) *Table {
	schema, name := d.obj(p)
	t := d.findTable(schema, name)
	if t == nil {
		if d.findView(schema, name) != nil {
			fail(4909, "Cannot alter '%s' because it is not a table.", name)
		}
		fail(4902, "Cannot find the object \"%s\" because it does not exist or you do not have permissions.", name)
	}
	return t
}

func (d *DB) clustered(p *P, def bool) bool {
	if p.Acc("CLUSTERED") {
		return true
	}
	if p.Acc("NONCLUSTERED") {
		return false
	}
	return def
}

func (t *Table) index(n string) *Index {
	for _, i := range t.Idx {
		if eq(i.Name, n) {
			return i
		}
	}
	return nil
}

func (t *Table) dropIndex(x *Index) {
	for i := range t.Idx {
		if t.Idx[i] == x {
			t.Idx = append(append([]*Index{}, t.Idx[:i]...), t.Idx[i+1:]...)
			return
		}
	}
}

// uses tells whether a foreign key needs the index.
func (d *DB) uses(f *FK, t *Table, x *Index) bool {
	if !eq(f.RefSchema, t.Schema) || !eq(f.RefName, t.Name) || !x.Unique || x.Where != "" {
		return false
	}
	return sameSet(f.RefCols, x)
}

func sameSet(cols []string, x *Index) bool {
	if len(cols) != len(x.Parts) {
		return false
	}
	for _, c := range cols {
		ok := false
		for _, p := range x.Parts {
			ok = ok || eq(p.Col, c)
		}
		if !ok {
			return false
		}
	}
	return true
}

// needed refuses to drop an index that a foreign key refers to.
func (d *DB) needed(t *Table, x *Index) {
	for _, u := range d.Tables {
		for _, f := range u.FKs {
			if !d.uses(f, t, x) {
				continue
			}
			other := false
			for _, i := range t.Idx {
				other = other || i != x && d.uses(f, t, i)
			}
			if !other {
				fail(3725, "The constraint '%s' is being referenced by table '%s', foreign key constraint '%s'.", x.Name, u.Name, f.Name)
			}
		}
	}
}

func (d *DB) dropTable(t *Table) {
	for _, u := range d.Tables {
		for _, f := range u.FKs {
			if u != t && eq(f.RefSchema, t.Schema) && eq(f.RefName, t.Name) {
				fail(3726, "Could not drop object '%s' because it is referenced by a FOREIGN KEY constraint.", t.Name)
			}
		}
	}
	for i := range d.Tables {
		if d.Tables[i] == t {
			d.Tables = append(append([]*Table{}, d.Tables[:i]...), d.Tables[i+1:]...)
			break
		}
	}
	d.forget(t.Schema, t.Name)
	var keep []*Trigger
	for _, g := range d.Triggers {
		if eq(g.TSchema, t.Schema) && eq(g.Table, t.Name) {
			d.forget(g.Schema, g.Name)
		} else {
			keep = append(keep, g)
		}
	}
	d.Triggers = keep
}

// pend is a constraint that is made when all columns are known.
type pend struct {
	kind string // PK UQ IX FK CK
	name string
	idx  *Index
	fk   *FK
	ck   *Check
	col  string // of a column constraint
	set  bool   // clustered or not was said
	null bool   // the column was explicitly nullable
}

func (d *DB) createTable(p *P) {
	schema, name := d.obj(p)
	d.claim(schema, name)
	t := &Table{Schema: schema, Name: name}
	d.Tables = append(d.Tables, t)
	d.note(schema, name)
	p.Exp("(")
	var ps []*pend
	for {
		if p.Is(")") && len(t.Cols) > 0 {
			break // a trailing comma is accepted
		}
		if c := d.tableConstraint(p, t); c != nil {
			ps = append(ps, c)
		} else {
			ps = append(ps, d.columnDef(p, t)...)
		}
		if !p.Acc(",") && !p.Is("INDEX") && !p.Is("CONSTRAINT") && !p.Is("PRIMARY") && !p.Is("FOREIGN") {
			break
		}
	}
	p.Exp(")")
	d.onFilegroup(p)
	if len(t.Cols) == 0 {
		p.Unexpected()
	}
	d.finish(t, ps, true)
}

// finish makes the collected constraints.
func (d *DB) finish(t *Table, ps []*pend, create bool) {
	// which key gets the clustered index
	taken := false
	for _, i := range t.Idx {
		taken = taken || i.Clustered
	}
	for _, c := range ps {
		if c.idx != nil && c.set && c.idx.Clustered {
			taken = true
		}
	}
	for _, c := range ps {
		if c.kind == "PK" && !c.set {
			c.idx.Clustered = !taken
			taken = true
		}
	}
	if create { // columns of the primary key are not null unless that was said
		for _, c := range ps {
			if c.kind != "PK" {
				continue
			}
			for _, k := range c.idx.Parts {
				if x := t.col(k.Col); x != nil && !x.NotNull {
					for _, q := range ps {
						if q.null && eq(q.col, k.Col) {
							fail(8111, "Cannot define PRIMARY KEY constraint on nullable column in table '%s'.", t.Name)
						}
					}
					x.NotNull = true
				}
			}
		}
	}
	for _, kind := range []string{"PK", "UQ", "IX", "FK", "CK"} {
		for _, c := range ps {
			if c.kind != kind {
				continue
			}
			switch kind {
			case "PK", "UQ":
				c.idx.Name = c.name
				if c.name == "" {
					c.idx.Sys = true
					var l []string
					for _, k := range c.idx.Parts {
						l = append(l, k.Col)
					}
					c.idx.Name = d.sysName(kind, t, strings.Join(l, ","))
				} else {
					d.claim(t.Schema, c.name)
				}
				d.addIndex(t, c.idx)
			case "IX":
				c.idx.Name = c.name
				d.addIndex(t, c.idx)
			case "FK":
				c.fk.Name = c.name
				if c.name == "" {
					c.fk.Sys = true
					c.fk.Name = d.sysName("FK", t, strings.Join(c.fk.Cols, ","))
				} else {
					d.claim(t.Schema, c.name)
				}
				d.addFK(t, c.fk)
			case "CK":
				c.ck.Name = c.name
				if c.name == "" {
					c.ck.Sys = true
					c.ck.Name = d.sysName("CK", t, c.col)
				} else {
					d.claim(t.Schema, c.name)
				}
				d.addCheck(t, c.ck, c.col)
			}
		}
	}
}

func (d *DB) onFilegroup(p *P) {
	if p.Acc("ON") {
		n := p.Label()
		if p.Acc("(") {
			fail(7726, "Partition scheme '%s' does not exist.", n)
		}
		if !eq(n, "PRIMARY") && !eq(n, "default") {
			fail(1921, "Invalid filegroup '%s' specified.", n)
		}
	}
	if p.Acc("TEXTIMAGE_ON") {
		p.Label()
	}
}

func (d *DB) partList(p *P) []Part {
	p.Exp("(")
	var out []Part
	for {
		x := Part{Col: p.Ident()}
		if p.Acc("DESC") {
			x.Desc = true
		} else {
			p.Acc("ASC")
		}
		out = append(out, x)
		if !p.Acc(",") {
			break
		}
	}
	p.Exp(")")
	return out
}

func (d *DB) indexTail(p *P, x *Index) {
	if p.Acc("INCLUDE") {
		if x.Kind != "IX" {
			p.I--
			p.Unexpected()
		}
		x.Incl = p.IdentList()
	}
	if x.Kind == "IX" && p.Acc("WHERE") {
		x.Where = deparse(p.Expr())
	}
	if p.Acc("WITH") {
		par := p.Acc("(")
		for {
			n := strings.ToUpper(p.Label())
			p.Exp("=")
			on := false
			v := p.Next()
			switch {
			case n == "FILLFACTOR" || n == "MAXDOP":
				k := 0
				fmt.Sscan(v.S, &k)
				if n == "FILLFACTOR" {
					if k < 1 || k > 100 {
						fail(129, "Fillfactor %d is not a valid percentage; fillfactor must be between 1 and 100.", k)
					}
					x.Fill = k
				}
			case v.U == "ON":
				on = true
			case v.U != "OFF":
				p.I--
				p.Unexpected()
			}
			switch n {
			case "FILLFACTOR", "MAXDOP", "ONLINE", "SORT_IN_TEMPDB", "DROP_EXISTING":
			case "PAD_INDEX":
				x.Pad = on
			case "IGNORE_DUP_KEY":
				x.IgnoreDup = on
			case "STATISTICS_NORECOMPUTE":
				x.NoRecompute = on
			case "STATISTICS_INCREMENTAL":
				x.Incremental = on
			case "ALLOW_ROW_LOCKS":
				x.NoRowLocks = !on
			case "ALLOW_PAGE_LOCKS":
				x.NoPageLocks = !on
			default:
				fail(155, "'%s' is not a recognized CREATE INDEX option.", n)
			}
			if !p.Acc(",") {
				break
			}
		}
		if par {
			p.Exp(")")
		}
		if x.Incremental {
			fail(9108, "This type of statistics is not supported to be incremental.")
		}
		if x.IgnoreDup && !x.Unique {
			fail(1916, "CREATE INDEX options nonunique and ignore_dup_key are mutually exclusive.")
		}
	}
	d.onFilegroup(p)
}

var notKey = words("text ntext image xml")

func words(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func (d *DB) addIndex(t *Table, x *Index) {
	if t.index(x.Name) != nil {
		fail(1913, "The operation failed because an index or statistics with name '%s' already exists on table '%s'.", x.Name, t.Name)
	}
	seen := map[string]bool{}
	for i, k := range x.Parts {
		c := t.col(k.Col)
		if c == nil {
			fail(1911, "Column name '%s' does not exist in the target table or view.", k.Col)
		}
		if seen[strings.ToLower(k.Col)] {
			fail(1909, "Cannot use duplicate column names in index. Column name '%s' listed more than once.", k.Col)
		}
		seen[strings.ToLower(k.Col)] = true
		if notKey[c.Type] || c.Len < 0 {
			fail(1919, "Column '%s' in table '%s' is of a type that is invalid for use as a key column in an index.", c.Name, t.Name)
		}
		if x.Kind == "PK" && !c.NotNull {
			fail(8111, "Cannot define PRIMARY KEY constraint on nullable column in table '%s'.", t.Name)
		}
		x.Parts[i].Col = c.Name
	}
	for i, k := range x.Incl {
		c := t.col(k)
		if c == nil {
			fail(1911, "Column name '%s' does not exist in the target table or view.", k)
		}
		if seen[strings.ToLower(k)] {
			fail(1909, "Cannot use duplicate column names in index. Column name '%s' listed more than once.", k)
		}
		seen[strings.ToLower(k)] = true
		if c.Type == "text" || c.Type == "ntext" || c.Type == "image" {
			fail(1999, "Column '%s' in table '%s' is of a type that is invalid for use as included column in an index.", c.Name, t.Name)
		}
		x.Incl[i] = c.Name
	}
	if len(x.Incl) > 0 && x.Clustered {
		fail(10601, "Cannot specify included columns for a clustered index.")
	}
	if x.Clustered {
		for _, o := range t.Idx {
			if o.Clustered {
				if x.Kind == "IX" {
					fail(1902, "Cannot create more than one clustered index on table '%s'. Drop the existing clustered index '%s' before creating another.", t.Name, o.Name)
				}
				fail(1902, "Cannot add multiple clustered constraints to table '%s'.", t.Name)
			}
		}
	}
	if x.Kind == "PK" {
		for _, o := range t.Idx {
			if o.Kind == "PK" {
				fail(1779, "Table '%s' already has a primary key defined on it.", t.Name)
			}
		}
	}
	t.Idx = append(t.Idx, x)
}

func (d *DB) addFK(t *Table, f *FK) {
	r := d.findTable(f.RefSchema, f.RefName)
	if r == nil {
		fail(1767, "Foreign key '%s' references invalid table '%s'.", f.Name, f.RefName)
	}
	f.RefSchema, f.RefName = r.Schema, r.Name
	if len(f.RefCols) == 0 {
		for _, i := range r.Idx {
			if i.Kind == "PK" {
				for _, k := range i.Parts {
					f.RefCols = append(f.RefCols, k.Col)
				}
			}
		}
		if len(f.RefCols) == 0 {
			fail(1773, "Foreign key '%s' has implicit reference to object '%s' which does not have a primary key defined on it.", f.Name, r.Name)
		}
	}
	if len(f.Cols) != len(f.RefCols) {
		fail(8139, "Number of referencing columns in foreign key differs from number of referenced columns, table '%s'.", t.Name)
	}
	for i := range f.Cols {
		a, b := t.col(f.Cols[i]), r.col(f.RefCols[i])
		if a == nil {
			fail(1769, "Foreign key '%s' references invalid column '%s' in referencing table '%s'.", f.Name, f.Cols[i], t.Name)
		}
		if b == nil {
			fail(1770, "Foreign key '%s' references invalid column '%s' in referenced table '%s'.", f.Name, f.RefCols[i], r.Name)
		}
		f.Cols[i], f.RefCols[i] = a.Name, b.Name
		if a.typ() != b.typ() {
			fail(1778, "Column '%s.%s' is not the same data type as referencing column '%s.%s' in foreign key '%s'.", r.Name, b.Name, t.Name, a.Name, f.Name)
		}
		if (f.OnDel == "SET_NULL" || f.OnUpd == "SET_NULL") && a.NotNull {
			fail(1761, "Cannot create the foreign key \"%s\" with the SET NULL referential action, because one or more referencing columns are not nullable.", f.Name)
		}
	}
	ok := false
	for _, i := range r.Idx {
		ok = ok || i.Unique && i.Where == "" && sameSet(f.RefCols, i)
	}
	if !ok {
		fail(1776, "There are no primary or candidate keys in the referenced table '%s' that match the referencing column list in the foreign key '%s'.", r.Name, f.Name)
	}
	acts := func(f *FK) bool { return f.OnDel != "NO_ACTION" || f.OnUpd != "NO_ACTION" }
	if acts(f) {
		if r == t {
			fail(1785, "Introducing FOREIGN KEY constraint '%s' on table '%s' may cause cycles or multiple cascade paths.", f.Name, t.Name)
		}
		for _, o := range t.FKs {
			if acts(o) && eq(o.RefName, f.RefName) && eq(o.RefSchema, f.RefSchema) {
				fail(1785, "Introducing FOREIGN KEY constraint '%s' on table '%s' may cause cycles or multiple cascade paths.", f.Name, t.Name)
			}
		}
	}
	t.FKs = append(t.FKs, f)
}

func (d *DB) addCheck(t *Table, c *Check, col string) {
	cols := map[string]bool{}
	c.E.Walk(func(e *Expr) {
		if e.Sel != nil {
			fail(1046, "Subqueries are not allowed in this context. Only scalar expressions are allowed.")
		}
		if e.K == "col" {
			x := t.col(e.S)
			if x == nil {
				fail(207, "Invalid column name '%s'.", e.S)
			}
			e.S, e.Qual = x.Name, nil
			cols[x.Name] = true
		}
	})
	if col != "" {
		for n := range cols {
			if !eq(n, col) {
				fail(8141, "Column CHECK constraint for column '%s' references another column, table '%s'.", col, t.Name)
			}
		}
		c.Col = t.col(col).Name
	} else if len(cols) == 1 {
		for n := range cols {
			c.Col = n
		}
	}
	if !isCond(c.E) {
		fail(4145, "An expression of non-boolean type specified in a context where a condition is expected.")
	}
	c.Def = "(" + deparse(c.E) + ")"
	t.Checks = append(t.Checks, c)
}

func isCond(e *Expr) bool {
	switch e.K {
	case "bin":
		switch e.S {
		case "=", "<>", "!=", "<", ">", "<=", ">=":
			return true
		case "AND", "OR":
			return isCond(e.A[0]) && isCond(e.A[1])
		}
		return false
	case "and", "or", "not", "un":
		if e.K == "un" && e.S != "NOT" {
			return false
		}
		for _, a := range e.A {
			if !isCond(a) {
				return false
			}
		}
		return true
	case "is", "between", "in", "insub", "like", "exists", "quant":
		return true
	}
	return false
}

func (d *DB) fkTail(p *P, f *FK) {
	f.OnUpd, f.OnDel = "NO_ACTION", "NO_ACTION"
	for {
		var a *string
		switch {
		case p.Acc("ON", "DELETE"):
			a = &f.OnDel
		case p.Acc("ON", "UPDATE"):
			a = &f.OnUpd
		case p.Acc("NOT", "FOR", "REPLICATION"):
			f.NFR = true
			continue
		default:
			return
		}
		switch {
		case p.Acc("NO", "ACTION"):
			*a = "NO_ACTION"
		case p.Acc("CASCADE"):
			*a = "CASCADE"
		case p.Acc("SET", "NULL"):
			*a = "SET_NULL"
		case p.Acc("SET", "DEFAULT"):
			*a = "SET_DEFAULT"
		default:
			p.Unexpected()
		}
	}
}

func (d *DB) tableConstraint(p *P, t *Table) *pend {
	c := &pend{}
	named := false
	if p.Acc("CONSTRAINT") {
		c.name = p.Ident()
		named = true
	}
	switch {
	case p.Is("PRIMARY", "KEY") || p.Is("UNIQUE"):
		c.kind = "UQ"
		if p.Acc("PRIMARY", "KEY") {
			c.kind = "PK"
		} else {
			p.Next()
		}
		c.idx = &Index{Kind: c.kind, Unique: true}
		c.set = p.Is("CLUSTERED") || p.Is("NONCLUSTERED")
		c.idx.Clustered = d.clustered(p, false)
		c.idx.Parts = d.partList(p)
		d.indexTail(p, c.idx)
	case p.Acc("FOREIGN", "KEY"):
		c.kind = "FK"
		c.fk = &FK{Cols: p.IdentList()}
		p.Exp("REFERENCES")
		c.fk.RefSchema, c.fk.RefName = d.obj(p)
		if p.Is("(") {
			c.fk.RefCols = p.IdentList()
		}
		d.fkTail(p, c.fk)
	case p.Acc("CHECK"):
		c.kind = "CK"
		c.ck = &Check{NFR: p.Acc("NOT", "FOR", "REPLICATION")}
		p.Exp("(")
		c.ck.E = p.Expr()
		p.Exp(")")
	case p.Is("INDEX") && !named:
		p.Next()
		c.kind = "IX"
		c.name = p.Ident()
		c.idx = &Index{Kind: "IX", Unique: p.Acc("UNIQUE")}
		c.set = p.Is("CLUSTERED") || p.Is("NONCLUSTERED")
		c.idx.Clustered = d.clustered(p, false)
		c.idx.Parts = d.partList(p)
		d.indexTail(p, c.idx)
	default:
		if named {
			p.Unexpected()
		}
		return nil
	}
	return c
}

// columnDef reads a column definition, adds the column and returns its constraints.
func (d *DB) columnDef(p *P, t *Table) []*pend {
	c := &Column{Name: p.Ident()}
	if t.col(c.Name) != nil {
		fail(2705, "Column names in each table must be unique. Column name '%s' in table '%s' is specified more than once.", c.Name, t.Name)
	}
	setType(c, p.TypeName())
	t.Cols = append(t.Cols, c)
	var ps []*pend
	nulls := ""
	for {
		name := ""
		if p.Acc("CONSTRAINT") {
			name = p.Ident()
		}
		switch {
		case name == "" && p.Acc("COLLATE"):
			c.Collate = p.Label()
		case p.Acc("NOT", "NULL"):
			if nulls != "" {
				fail(8150, "Multiple NULL constraints were specified for column '%s', table '%s'.", c.Name, t.Name)
			}
			nulls = "NOT NULL"
			c.NotNull = true
		case p.Acc("NULL"):
			if nulls != "" {
				fail(8150, "Multiple NULL constraints were specified for column '%s', table '%s'.", c.Name, t.Name)
			}
			nulls = "NULL"
			ps = append(ps, &pend{col: c.Name, null: true})
		case p.Acc("DEFAULT"):
			if c.Default != nil {
				fail(8148, "More than one column DEFAULT constraint specified for column '%s', table '%s'.", c.Name, t.Name)
			}
			d.setDefault(t, c, name, p.Expr())
		case name == "" && p.Acc("IDENTITY"):
			c.Ident = &Ident{Seed: "1", Incr: "1"}
			if p.Acc("(") {
				num := func() string {
					s := ""
					if p.Acc("-") {
						s = "-"
					}
					if p.Peek().K != Num {
						p.Unexpected()
					}
					return s + p.Next().S
				}
				c.Ident.Seed = num()
				p.Exp(",")
				c.Ident.Incr = num()
				p.Exp(")")
			}
			if p.Acc("NOT", "FOR", "REPLICATION") {
				c.Ident.NFR = true
			}
		case p.Acc("CHECK"):
			x := &pend{kind: "CK", name: name, col: c.Name, ck: &Check{NFR: p.Acc("NOT", "FOR", "REPLICATION")}}
			p.Exp("(")
			x.ck.E = p.Expr()
			p.Exp(")")
			ps = append(ps, x)
		case p.Is("PRIMARY", "KEY") || p.Is("UNIQUE"):
			k := "UQ"
			if p.Acc("PRIMARY", "KEY") {
				k = "PK"
			} else {
				p.Next()
			}
			x := &pend{kind: k, name: name, col: c.Name, idx: &Index{Kind: k, Unique: true, Parts: []Part{{Col: c.Name}}}}
			x.set = p.Is("CLUSTERED") || p.Is("NONCLUSTERED")
			x.idx.Clustered = d.clustered(p, false)
			if p.Is("WITH") {
				d.indexTail(p, x.idx)
			}
			ps = append(ps, x)
		case p.Is("REFERENCES") || p.Is("FOREIGN", "KEY"):
			p.Acc("FOREIGN", "KEY")
			p.Exp("REFERENCES")
			x := &pend{kind: "FK", name: name, col: c.Name, fk: &FK{Cols: []string{c.Name}}}
			x.fk.RefSchema, x.fk.RefName = d.obj(p)
			if p.Is("(") {
				x.fk.RefCols = p.IdentList()
			}
			d.fkTail(p, x.fk)
			ps = append(ps, x)
		default:
			if name != "" {
				p.Unexpected()
			}
			if c.Ident != nil {
				switch c.Type {
				case "int", "bigint", "smallint", "tinyint", "decimal", "numeric":
				default:
					fail(2749, "Identity column '%s' must be of data type int, bigint, smallint, tinyint, or decimal or numeric with a scale of 0.", c.Name)
				}
				if nulls == "NULL" {
					fail(8147, "Could not create IDENTITY attribute on nullable column '%s', table '%s'.", c.Name, t.Name)
				}
				if c.Default != nil {
					fail(1754, "Defaults cannot be created on columns with an IDENTITY attribute. Table '%s', column '%s'.", t.Name, c.Name)
				}
				c.NotNull = true
				for _, o := range t.Cols {
					if o != c && o.Ident != nil {
						fail(2744, "Multiple identity columns specified for table '%s'. Only one identity column per table is allowed.", t.Name)
					}
				}
			}
			return ps
		}
	}
}

func (d *DB) setDefault(t *Table, c *Column, name string, e *Expr) {
	e.Walk(func(x *Expr) {
		if x.K == "col" {
			fail(128, "The name \"%s\" is not permitted in this context.", x.S)
		}
		if x.Sel != nil {
			fail(1046, "Subqueries are not allowed in this context. Only scalar expressions are allowed.")
		}
	})
	if isCond(e) {
		fail(102, "Incorrect syntax near a condition.")
	}
	x := &Const{Name: name, Def: "(" + deparse(e) + ")"}
	if name == "" {
		x.Sys = true
		x.Name = d.sysName("DF", t, c.Name)
	} else {
		d.claim(t.Schema, name)
	}
	if c.Type == "timestamp" {
		fail(1755, "Defaults cannot be created on columns of data type timestamp. Table '%s', column '%s'.", t.Name, c.Name)
	}
	c.Default = x
}

func (d *DB) alterTable(p *P) {
	t := d.table(p)
	p.Acc("WITH", "CHECK")
	p.Acc("WITH", "NOCHECK")
	switch {
	case p.Acc("ADD"):
		var ps []*pend
		for {
			save := p.I
			name := ""
			if p.Acc("CONSTRAINT") {
				name = p.Ident()
			}
			if p.Acc("DEFAULT") {
				e := p.Expr()
				p.Exp("FOR")
				n := p.Ident()
				c := t.col(n)
				if c == nil {
					fail(1752, "Column '%s' in table '%s' is invalid for creating a default constraint.", n, t.Name)
				}
				if c.Default != nil {
					fail(1781, "Column already has a DEFAULT bound to it.")
				}
				if c.Ident != nil {
					fail(1754, "Defaults cannot be created on columns with an IDENTITY attribute. Table '%s', column '%s'.", t.Name, c.Name)
				}
				d.setDefault(t, c, name, e)
			} else {
				p.I = save
				if c := d.tableConstraint(p, t); c != nil {
					ps = append(ps, c)
				} else {
					ps = append(ps, d.columnDef(p, t)...)
					d.newKey(t, ps)
				}
			}
			if !p.Acc(",") {
				break
			}
		}
		d.finish(t, ps, false)
	case p.Acc("DROP"):
		for {
			if p.Acc("COLUMN") {
				ife := p.Acc("IF", "EXISTS")
				for {
					d.dropColumn(t, p.Ident(), ife)
					if p.Is(",") && !(strings.ToUpper(p.PeekN(1).S) == "CONSTRAINT" || strings.ToUpper(p.PeekN(1).S) == "COLUMN") {
						p.Next()
						continue
					}
					break
				}
			} else {
				p.Acc("CONSTRAINT")
				ife := p.Acc("IF", "EXISTS")
				d.dropConstraint(t, p.Ident(), ife)
			}
			if !p.Acc(",") {
				break
			}
		}
	case p.Is("ALTER") || p.Is("CHECK") || p.Is("NOCHECK") || p.Is("REBUILD") || p.Is("ENABLE") || p.Is("DISABLE"):
		fail(50000, "model: ALTER TABLE %s is not modelled", p.Peek().U)
	default:
		p.Unexpected()
	}
}

// newKey: a column added together with its primary key is not null.
func (d *DB) newKey(t *Table, ps []*pend) {
	for _, c := range ps {
		if c.kind == "PK" && c.col != "" {
			t.col(c.col).NotNull = true
		}
	}
}

func (d *DB) dropColumn(t *Table, n string, ife bool) {
	c := t.col(n)
	if c == nil {
		if ife {
			return
		}
		fail(4924, "ALTER TABLE DROP COLUMN failed because column '%s' does not exist in table '%s'.", n, t.Name)
	}
	dep := func(what, name string) {
		fail(5074, "The %s '%s' is dependent on column '%s'.", what, name, c.Name)
	}
	if c.Default != nil {
		dep("object", c.Default.Name)
	}
	for _, k := range t.Checks {
		k.E.Walk(func(e *Expr) {
			if e.K == "col" && eq(e.S, c.Name) {
				dep("object", k.Name)
			}
		})
	}
	for _, i := range t.Idx {
		for _, k := range i.Parts {
			if eq(k.Col, c.Name) {
				dep(map[bool]string{true: "index", false: "object"}[i.Kind == "IX"], i.Name)
			}
		}
		for _, k := range i.Incl {
			if eq(k, c.Name) {
				dep("index", i.Name)
			}
		}
	}
	for _, u := range d.Tables {
		for _, f := range u.FKs {
			if u == t {
				for _, k := range f.Cols {
					if eq(k, c.Name) {
						dep("object", f.Name)
					}
				}
			}
			if eq(f.RefSchema, t.Schema) && eq(f.RefName, t.Name) {
				for _, k := range f.RefCols {
					if eq(k, c.Name) {
						dep("object", f.Name)
					}
				}
			}
		}
	}
	if len(t.Cols) == 1 {
		fail(4923, "ALTER TABLE DROP COLUMN failed because '%s' is the only data column in table '%s'.", c.Name, t.Name)
	}
	for i := range t.Cols {
		if t.Cols[i] == c {
			t.Cols = append(append([]*Column{}, t.Cols[:i]...), t.Cols[i+1:]...)
			return
		}
	}
}

func (d *DB) dropConstraint(t *Table, n string, ife bool) {
	for _, c := range t.Cols {
		if c.Default != nil && eq(c.Default.Name, n) {
			c.Default = nil
			return
		}
	}
	for i, c := range t.Checks {
		if eq(c.Name, n) {
			t.Checks = append(append([]*Check{}, t.Checks[:i]...), t.Checks[i+1:]...)
			return
		}
	}
	for i, f := range t.FKs {
		if eq(f.Name, n) {
			t.FKs = append(append([]*FK{}, t.FKs[:i]...), t.FKs[i+1:]...)
			return
		}
	}
	for _, i := range t.Idx {
		if i.Kind != "IX" && eq(i.Name, n) {
			d.needed(t, i)
			t.dropIndex(i)
			return
		}
	}
	if !ife {
		fail(3728, "'%s' is not a constraint.", n)
	}
}

// ---- views and triggers

func (d *DB) view(p *P, text string) {
	alter := p.Acc("ALTER")
	orAlter := false
	if !alter {
		p.Exp("CREATE")
		orAlter = p.Acc("OR", "ALTER")
	}
	p.Exp("VIEW")
	schema, name := d.obj(p)
	v := d.findView(schema, name)
	switch {
	case alter && v == nil:
		fail(208, "Invalid object name '%s'.", name)
	case !alter && !(orAlter && v != nil):
		d.claim(schema, name)
	}
	var cols []string
	if p.Is("(") {
		cols = p.IdentList()
	}
	if p.Is("WITH") {
		fail(50000, "model: view attributes are not modelled")
	}
	p.Exp("AS")
	s := p.Select()
	p.Acc(";")
	if !p.EOF() {
		p.Unexpected()
	}
	if len(s.Order) > 0 && s.Top == nil {
		fail(1033, "The ORDER BY clause is invalid in views unless TOP, OFFSET or FOR XML is also specified.")
	}
	out := d.selectCols(s, nil)
	if cols != nil {
		if len(cols) != len(out) {
			fail(8158, "'%s' has more columns than were specified in the column list.", name)
		}
		out = cols
	}
	seen := map[string]bool{}
	for i, c := range out {
		if c == "" {
			fail(4511, "Create View or Function failed because no column name was specified for column %d.", i+1)
		}
		if seen[strings.ToLower(c)] {
			fail(4506, "Column names in each view or function must be unique. Column name '%s' in view or function '%s' is specified more than once.", c, name)
		}
		seen[strings.ToLower(c)] = true
	}
	n := &View{Schema: schema, Name: name, Text: stored(text), Sel: s, Cols: out}
	if v != nil {
		n.Schema, n.Name = v.Schema, v.Name
		*v = *n
		return
	}
	d.Views = append(d.Views, n)
	d.note(schema, name)
}

// stored is the text the server keeps of a CREATE, ALTER or CREATE OR ALTER.
func stored(text string) string {
	toks, err := Lex(text, MSSQL)
	if err != nil || len(toks) == 0 {
		return text
	}
	switch {
	case toks[0].U == "ALTER":
		return text[:toks[0].Pos] + "CREATE" + text[toks[0].End:]
	case len(toks) > 2 && toks[1].U == "OR":
		return text[:toks[0].End] + text[toks[2].End:]
	}
	return text
}

type rel struct {
	name, schema string
	cols         []string
}

// selectCols binds a query and returns the names of its columns, "" for one without.
func (d *DB) selectCols(s *Select, outer []rel) []string {
	if s.Op != "" {
		l := d.selectCols(s.L, outer)
		r := d.selectCols(s.R, outer)
		if len(l) != len(r) {
			fail(205, "All queries combined using a UNION, INTERSECT or EXCEPT operator must have an equal number of expressions in their target lists.")
		}
		return l
	}
	var rels []rel
	var ons []*Expr
	var from func(f *From)
	from = func(f *From) {
		if f == nil {
			return
		}
		switch f.K {
		case "table":
			schema := "dbo"
			if f.Schema != "" {
				schema = f.Schema
			}
			r := rel{name: f.Name, schema: schema}
			if t := d.findTable(schema, f.Name); t != nil {
				for _, c := range t.Cols {
					r.cols = append(r.cols, c.Name)
				}
			} else if v := d.findView(schema, f.Name); v != nil {
				r.cols = v.Cols
			} else {
				fail(208, "Invalid object name '%s'.", f.Name)
			}
			if f.Alias != "" {
				r.name, r.schema = f.Alias, ""
			}
			rels = append(rels, r)
		case "sub":
			rels = append(rels, rel{name: f.Alias, cols: d.selectCols(f.Sub, nil)})
		default:
			from(f.L)
			from(f.R)
			if f.On != nil {
				ons = append(ons, f.On)
			}
		}
	}
	for _, f := range s.From {
		from(f)
	}
	scope := append(append([]rel{}, rels...), outer...)
	var bind func(e *Expr)
	bind = func(e *Expr) {
		if e == nil {
			return
		}
		if e.K == "col" {
			d.resolve(e, rels, scope)
		}
		for _, a := range e.A {
			bind(a)
		}
		if e.Sel != nil {
			d.selectCols(e.Sel, scope)
		}
	}
	var out []string
	aliases := map[string]bool{}
	for _, it := range s.Items {
		if it.IsStar {
			for _, r := range rels {
				if len(it.Star) == 0 || eq(it.Star[len(it.Star)-1], r.name) {
					out = append(out, r.cols...)
				}
			}
			continue
		}
		bind(it.E)
		switch {
		case it.Alias != "":
			out = append(out, it.Alias)
			aliases[strings.ToLower(it.Alias)] = true
		case it.E.K == "col":
			out = append(out, it.E.S)
		default:
			out = append(out, "")
		}
	}
	for _, e := range ons {
		bind(e)
	}
	bind(s.Where)
	for _, g := range s.Group {
		bind(g)
	}
	bind(s.Having)
	for _, o := range s.Order {
		if o.E.K == "col" && len(o.E.Qual) == 0 && aliases[strings.ToLower(o.E.S)] {
			continue
		}
		bind(o.E)
	}
	return out
}

func (d *DB) resolve(e *Expr, own, scope []rel) {
	find := func(rs []rel) int {
		n := 0
		for _, r := range rs {
			if len(e.Qual) > 0 {
				q := e.Qual[len(e.Qual)-1]
				if !eq(q, r.name) || len(e.Qual) > 1 && !eq(e.Qual[len(e.Qual)-2], r.schema) {
					continue
				}
			}
			for _, c := range r.cols {
				if eq(c, e.S) {
					n++
				}
			}
		}
		return n
	}
	n := find(own)
	if n == 0 {
		n = find(scope)
	}
	switch {
	case n == 0 && len(e.Qual) > 0:
		fail(4104, "The multi-part identifier \"%s.%s\" could not be bound.", strings.Join(e.Qual, "."), e.S)
	case n == 0:
		fail(207, "Invalid column name '%s'.", e.S)
	case n > 1:
		fail(209, "Ambiguous column name '%s'.", e.S)
	}
}

func (d *DB) trigger(p *P, start int) {
	text := p.Src[start:]
	alter := p.Acc("ALTER")
	orAlter := false
	if !alter {
		p.Exp("CREATE")
		orAlter = p.Acc("OR", "ALTER")
	}
	p.Exp("TRIGGER")
	schema, name := d.obj(p)
	p.Exp("ON")
	ts, tn := d.obj(p)
	t := d.findTable(ts, tn)
	if t == nil {
		fail(8197, "The object '%s' does not exist or is invalid for this operation.", tn)
	}
	g := &Trigger{Schema: schema, Name: name, TSchema: t.Schema, Table: t.Name}
	switch {
	case p.Acc("FOR"), p.Acc("AFTER"):
		g.Time = "AFTER"
	case p.Acc("INSTEAD", "OF"):
		g.Time = "INSTEAD OF"
	default:
		p.Unexpected()
	}
	var ev []string
	for {
		switch {
		case p.Acc("INSERT"):
			ev = append(ev, "INSERT")
		case p.Acc("UPDATE"):
			ev = append(ev, "UPDATE")
		case p.Acc("DELETE"):
			ev = append(ev, "DELETE")
		default:
			p.Unexpected()
		}
		if !p.Acc(",") {
			break
		}
	}
	sort.Strings(ev)
	g.Event = strings.Join(ev, ",")
	p.Exp("AS")
	g.Body = p.Src[p.Peek().Pos:]
	if !(p.Is("INSERT") || p.Is("UPDATE") || p.Is("DELETE") || p.Is("SELECT") || p.Is("BEGIN") || p.Is("SET") || p.Is("IF") || p.Is("EXEC") || p.Is("DECLARE")) {
		p.Unexpected()
	}
	for !p.EOF() {
		p.Next()
	}
	g.Text = stored(text)
	for _, o := range d.Triggers {
		if eq(o.Schema, schema) && eq(o.Name, name) {
			if !alter && !orAlter {
				fail(2714, "There is already an object named '%s' in the database.", name)
			}
			if !eq(o.TSchema, g.TSchema) || !eq(o.Table, g.Table) {
				fail(2110, "Cannot alter trigger '%s' on '%s' because this trigger does not belong to this object.", name, tn)
			}
			*o = *g
			return
		}
	}
	if alter {
		fail(208, "Invalid object name '%s'.", name)
	}
	d.claim(schema, name)
	if !eq(schema, t.Schema) {
		fail(2103, "Cannot create trigger '%s' because its schema is different from the schema of the target table or view.", name)
	}
	d.Triggers = append(d.Triggers, g)
	d.note(schema, name)
}
