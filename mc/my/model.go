// Package my models a MySQL 5.7 server: a strict DDL parser and catalog semantics.
package my

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	. "mc/sqlx"
)

type Err struct {
	Code  int
	State string
	Msg   string
}

func (e *Err) Error() string { return fmt.Sprintf("Error %d: %s", e.Code, e.Msg) }

func fail(code int, format string, a ...interface{}) {
	panic(Bail{&Err{code, "HY000", fmt.Sprintf(format, a...)}})
}

type Part struct {
	Col string
	Len int
}

type Index struct {
	Name    string
	Kind    string // PRIMARY UNIQUE KEY FULLTEXT SPATIAL
	Parts   []Part
	Using   string
	Comment string
	Parser  string
	KBS     string
	Gen     bool // created implicitly for a foreign key
}

type Col struct {
	Name    string
	Type    string // as SHOW CREATE prints it
	Base    string // type without modifiers
	Charset string // for character types
	Collate string
	NotNull bool
	Default *string // rendered literal as SHOW CREATE prints it ('x', CURRENT_TIMESTAMP, b'1'); nil none
	OnUpd   string
	AutoInc bool
	Comment string
	Gen     string // generated column expression
	Stored  bool
}

type FK struct {
	Name     string
	Cols     []string
	RefTable string
	RefCols  []string
	OnDelete string
	OnUpdate string
}

type Table struct {
	Name    string
	Cols    []*Col
	Idx     []*Index
	FKs     []*FK
	Engine  string
	Charset string
	Collate string
	Comment string
	AutoInc string
	RowFmt  string
	seq     int
}

type View struct {
	Name  string
	Def   string // canonical text with database qualifiers
	Cols  []string
	Canon string
}

type Trigger struct {
	Name, Timing, Event, Table, Body string
}

// DB is one database.
type DB struct {
	Name     string
	Charset  string
	Collate  string
	Tables   map[string]*Table
	Views    map[string]*View
	Triggers []*Trigger
}

func NewDB(name string) *DB {
	return &DB{Name: name, Charset: "latin1", Collate: "latin1_swedish_ci", Tables: map[string]*Table{}, Views: map[string]*View{}}
}

func (t *Table) clone() *Table {
	n := *t
	n.Cols = make([]*Col, len(t.Cols))
	for i, c := range t.Cols {
		cc := *c
		n.Cols[i] = &cc
	}
	n.Idx = make([]*Index, len(t.Idx))
	for i, c := range t.Idx {
		cc := *c
		cc.Parts = append([]Part{}, c.Parts...)
		n.Idx[i] = &cc
	}
	n.FKs = make([]*FK, len(t.FKs))
	for i, c := range t.FKs {
		cc := *c
		cc.Cols = append([]string{}, c.Cols...)
		cc.RefCols = append([]string{}, c.RefCols...)
		n.FKs[i] = &cc
	}
	return &n
}

func (d *DB) Clone() *DB {
	n := *d
	n.Tables = map[string]*Table{}
	for k, t := range d.Tables {
		n.Tables[k] = t.clone()
	}
	n.Views = map[string]*View{}
	for k, v := range d.Views {
		vv := *v
		n.Views[k] = &vv
	}
	n.Triggers = append([]*Trigger{}, d.Triggers...)
	return &n
}

func (t *Table) col(n string) *Col {
	for _, c := range t.Cols {
		if strings.EqualFold(c.Name, n) {
			return c
		}
	}
	return nil
}
func (t *Table) colIdx(n string) int {
	for i, c := range t.Cols {
		if strings.EqualFold(c.Name, n) {
			return i
		}
	}
	return -1
}
func (t *Table) idx(n string) *Index {
	for _, c := range t.Idx {
		if strings.EqualFold(c.Name, n) {
			return c
		}
	}
	return nil
}
func (t *Table) pk() *Index { return t.idx("PRIMARY") }

func (t *Table) TableNames() []string { return nil }

func (d *DB) names() []string {
	var out []string
	for k := range d.Tables {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func qi(s string) string { return "`" + strings.Replace(s, "`", "``", -1) + "`" }
func qs(s string) string {
	r := strings.NewReplacer("\\", "\\\\", "'", "''", "\n", "\\n", "\r", "\\r", "\x00", "\\0")
	return "'" + r.Replace(s) + "'"
}

var defaultCollation = map[string]string{"latin1": "latin1_swedish_ci", "utf8": "utf8_general_ci", "utf8mb4": "utf8mb4_general_ci", "ascii": "ascii_general_ci", "binary": "binary", "ucs2": "ucs2_general_ci", "sjis": "sjis_japanese_ci", "cp932": "cp932_japanese_ci", "ujis": "ujis_japanese_ci"}

func charsetOf(coll string) string {
	for cs := range defaultCollation {
		if coll == cs || strings.HasPrefix(coll, cs+"_") {
			return cs
		}
	}
	fail(1273, "Unknown collation: '%s'", coll)
	return ""
}

// ShowCreate renders SHOW CREATE TABLE.
func (t *Table) ShowCreate() string {
	var l []string
	for _, c := range t.Cols {
		l = append(l, "  "+t.colDDL(c))
	}
	for _, i := range t.sortedIdx() {
		s := ""
		switch i.Kind {
		case "PRIMARY":
			s = "PRIMARY KEY"
		case "KEY":
			s = "KEY " + qi(i.Name)
		default:
			s = i.Kind + " KEY " + qi(i.Name)
		}
		var ps []string
		for _, p := range i.Parts {
			x := qi(p.Col)
			if p.Len > 0 {
				x += fmt.Sprintf("(%d)", p.Len)
			}
			ps = append(ps, x)
		}
		s += " (" + strings.Join(ps, ",") + ")"
		if i.KBS != "" {
			s += " KEY_BLOCK_SIZE=" + i.KBS
		}
		if i.Using != "" {
			s += " USING " + i.Using
		}
		if i.Comment != "" {
			s += " COMMENT " + qs(i.Comment)
		}
		if i.Parser != "" {
			s += " /*!50100 WITH PARSER " + qi(i.Parser) + " */ "
		}
		l = append(l, "  "+s)
	}
	fks := append([]*FK{}, t.FKs...)
	sort.Slice(fks, func(a, b int) bool { return fks[a].Name < fks[b].Name })
	for _, f := range fks {
		s := fmt.Sprintf("  CONSTRAINT %s FOREIGN KEY (%s) REFERENCES %s (%s)", qi(f.Name), qil(f.Cols), qi(f.RefTable), qil(f.RefCols))
		if f.OnDelete != "" {
			s += " ON DELETE " + f.OnDelete
		}
		if f.OnUpdate != "" {
			s += " ON UPDATE " + f.OnUpdate
		}
		l = append(l, s)
	}
	s := "CREATE TABLE " + qi(t.Name) + " (\n" + strings.Join(l, ",\n") + "\n) ENGINE=" + t.Engine
	if t.AutoInc != "" {
		s += " AUTO_INCREMENT=" + t.AutoInc
	}
	s += " DEFAULT CHARSET=" + t.Charset
	if t.Collate != defaultCollation[t.Charset] {
		s += " COLLATE=" + t.Collate
	}
	if t.RowFmt != "" {
		s += " ROW_FORMAT=" + t.RowFmt
	}
	if t.Comment != "" {
		s += " COMMENT=" + qs(t.Comment)
	}
	return s
}

func qil(l []string) string {
	var o []string
	for _, x := range l {
		o = append(o, qi(x))
	}
	return strings.Join(o, ",")
}

func (t *Table) colDDL(c *Col) string {
	s := qi(c.Name) + " " + c.Type
	if c.Charset != "" {
		if c.Collate != t.Collate {
			s += " CHARACTER SET " + c.Charset
		}
		if c.Collate != defaultCollation[c.Charset] {
			s += " COLLATE " + c.Collate
		}
	}
	if c.Gen != "" {
		s += " GENERATED ALWAYS AS (" + c.Gen + ")"
		if c.Stored {
			s += " STORED"
		} else {
			s += " VIRTUAL"
		}
	}
	if c.NotNull {
		s += " NOT NULL"
	} else if c.Base == "timestamp" {
		s += " NULL"
	}
	if c.Gen == "" && !c.AutoInc && !noDefault[c.Base] {
		if c.Default != nil {
			s += " DEFAULT " + *c.Default
		} else if !c.NotNull {
			s += " DEFAULT NULL"
		}
	}
	if c.OnUpd != "" {
		s += " ON UPDATE " + c.OnUpd
	}
	if c.AutoInc {
		s += " AUTO_INCREMENT"
	}
	if c.Comment != "" {
		s += " COMMENT " + qs(c.Comment)
	}
	return s
}

var noDefault = map[string]bool{"text": true, "tinytext": true, "mediumtext": true, "longtext": true, "blob": true, "tinyblob": true, "mediumblob": true, "longblob": true, "json": true, "geometry": true, "point": true}

func (t *Table) sortedIdx() []*Index {
	out := append([]*Index{}, t.Idx...)
	rank := func(i *Index) int {
		switch i.Kind {
		case "PRIMARY":
			return 0
		case "UNIQUE":
			for _, p := range i.Parts {
				if c := t.col(p.Col); c != nil && !c.NotNull {
					return 2
				}
			}
			return 1
		case "KEY":
			return 3
		}
		return 4
	}
	sort.SliceStable(out, func(a, b int) bool { return rank(out[a]) < rank(out[b]) })
	return out
}

// CanonTable renders everything the properties compare, order of keys aside.
func (t *Table) Canon() string {
	var b strings.Builder
	fmt.Fprintf(&b, "table %s engine=%s charset=%s collate=%s comment=%s\n", t.Name, t.Engine, t.Charset, t.Collate, t.Comment)
	for _, c := range t.Cols {
		d := "-"
		if c.Default != nil {
			d = *c.Default
		}
		fmt.Fprintf(&b, " col %s %s cs=%s/%s nn=%v def=%s upd=%s ai=%v com=%q gen=%s/%v\n", c.Name, c.Type, c.Charset, c.Collate, c.NotNull, d, c.OnUpd, c.AutoInc, c.Comment, c.Gen, c.Stored)
	}
	var l []string
	for _, i := range t.Idx {
		l = append(l, fmt.Sprintf(" idx %s %s %v using=%s com=%s parser=%s kbs=%s", i.Kind, i.Name, i.Parts, i.Using, i.Comment, i.Parser, i.KBS))
	}
	for _, f := range t.FKs {
		l = append(l, fmt.Sprintf(" fk %s %v -> %s%v del=%s upd=%s", f.Name, f.Cols, f.RefTable, f.RefCols, f.OnDelete, f.OnUpdate))
	}
	sort.Strings(l)
	b.WriteString(strings.Join(l, "\n"))
	b.WriteString("\n")
	return b.String()
}

// Objects lists named objects with their canonical text.
func (d *DB) Objects() map[string]string {
	m := map[string]string{}
	for n, t := range d.Tables {
		m["table "+n] = t.Canon()
	}
	for n, v := range d.Views {
		m["view "+n] = v.Def
	}
	for i, t := range d.Triggers {
		_ = i
		m["trigger "+t.Name] = fmt.Sprintf("%s %s on %s: %s", t.Timing, t.Event, t.Table, BodyCanon(t.Body, MySQL))
	}
	return m
}

// Pieces lists the finest grained droppable things: tables, columns, indexes, constraints, views, triggers.
func (d *DB) Pieces() map[string]bool {
	m := map[string]bool{}
	for n, t := range d.Tables {
		m["table "+n] = true
		for _, c := range t.Cols {
			m["column "+n+"."+c.Name] = true
		}
		for _, i := range t.Idx {
			m["index "+n+"."+i.Name] = true
		}
		for _, f := range t.FKs {
			m["fk "+n+"."+f.Name] = true
		}
	}
	for n := range d.Views {
		m["view "+n] = true
	}
	for _, t := range d.Triggers {
		m["trigger "+t.Name] = true
	}
	return m
}

func (d *DB) Canon() string {
	var l []string
	for k, v := range d.Objects() {
		l = append(l, k+": "+v)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// ---- statements

// Exec executes one statement.  MySQL DDL is atomic per statement here.
func (d *DB) Exec(sql string) error {
	p, err := NewP(sql, MySQL)
	if err != nil {
		return &Err{1064, "42000", "You have an error in your SQL syntax: " + err.Error()}
	}
	n := d.Clone()
	err = Try(func() { n.statement(p) })
	if err != nil {
		if _, ok := err.(*SyntaxError); ok {
			return &Err{1064, "42000", "You have an error in your SQL syntax: " + err.Error()}
		}
		return err
	}
	*d = *n
	return nil
}

func (p2 *DB) end(p *P) {
	p.Acc(";")
	if !p.EOF() {
		p.Unexpected()
	}
}

func (d *DB) name(p *P) string {
	q := p.QName()
	if len(q) > 2 || len(q) == 2 && q[0] != d.Name {
		fail(1049, "Unknown database '%s'", q[0])
	}
	return q[len(q)-1]
}

func (d *DB) table(n string) *Table {
	t := d.Tables[n]
	if t == nil {
		if d.Views[n] != nil {
			fail(1347, "'%s.%s' is not BASE TABLE", d.Name, n)
		}
		fail(1146, "Table '%s.%s' doesn't exist", d.Name, n)
	}
	return t
}

func (d *DB) statement(p *P) {
	switch {
	case p.Acc("CREATE", "TABLE"):
		d.createTable(p)
	case p.Acc("ALTER", "TABLE"):
		d.alterTable(p)
	case p.Acc("DROP", "TABLE"):
		ife := p.Acc("IF", "EXISTS")
		for {
			n := d.name(p)
			if d.Tables[n] == nil {
				if !ife {
					fail(1051, "Unknown table '%s.%s'", d.Name, n)
				}
			} else {
				for _, o := range d.Tables {
					for _, f := range o.FKs {
						if f.RefTable == n && o.Name != n {
							fail(1217, "Cannot delete or update a parent row: a foreign key constraint fails")
						}
					}
				}
				delete(d.Tables, n)
				var keep []*Trigger
				for _, t := range d.Triggers {
					if t.Table != n {
						keep = append(keep, t)
					}
				}
				d.Triggers = keep
			}
			if !p.Acc(",") {
				break
			}
		}
		if !p.Acc("CASCADE") {
			p.Acc("RESTRICT")
		}
		d.end(p)
	case p.Acc("DROP", "VIEW"):
		ife := p.Acc("IF", "EXISTS")
		n := d.name(p)
		if d.Views[n] == nil && !ife {
			fail(1051, "Unknown table '%s.%s'", d.Name, n)
		}
		delete(d.Views, n)
		d.end(p)
	case p.Acc("DROP", "INDEX") || p.Acc("DROP", "KEY"):
		if p.T[p.I-1].U == "KEY" {
			p.I--
			p.Unexpected()
		}
		n := p.Ident()
		p.Exp("ON")
		t := d.table(d.name(p))
		d.dropIndex(t, n)
		d.end(p)
		d.check(t)
	case p.Acc("DROP", "TRIGGER"):
		ife := p.Acc("IF", "EXISTS")
		n := d.name(p)
		found := false
		var keep []*Trigger
		for _, t := range d.Triggers {
			if t.Name == n {
				found = true
			} else {
				keep = append(keep, t)
			}
		}
		if !found && !ife {
			fail(1360, "Trigger does not exist")
		}
		d.Triggers = keep
		d.end(p)
	case p.Is("CREATE", "UNIQUE", "INDEX") || p.Is("CREATE", "INDEX") || p.Is("CREATE", "FULLTEXT", "INDEX") || p.Is("CREATE", "SPATIAL", "INDEX"):
		p.Next()
		i := &Index{Kind: "KEY"}
		if !p.Is("INDEX") {
			i.Kind = p.Next().U
		}
		p.Next()
		i.Name = p.Ident()
		if p.Acc("USING") {
			i.Using = p.Next().U
		}
		p.Exp("ON")
		t := d.table(d.name(p))
		i.Parts = parts(p)
		idxOpts(p, i)
		d.end(p)
		d.addIndex(t, i)
		d.check(t)
	case p.Is("CREATE") && d.isView(p):
		d.createView(p)
	case p.Is("CREATE", "TRIGGER") || p.Is("CREATE", "DEFINER"):
		d.createTrigger(p)
	case p.Is("SET") || p.Is("USE"):
		// session state is not modelled
	default:
		p.Unexpected()
	}
}

func (d *DB) isView(p *P) bool {
	for i := p.I; i < len(p.T) && i < p.I+14; i++ {
		if p.T[i].U == "VIEW" {
			return true
		}
		if p.T[i].U == "TRIGGER" || p.T[i].U == "TABLE" || p.T[i].S == "(" {
			return false
		}
	}
	return false
}

func parts(p *P) []Part {
	var out []Part
	p.Exp("(")
	for {
		x := Part{Col: p.Ident()}
		if p.Acc("(") {
			x.Len = num(p)
			p.Exp(")")
		}
		if !p.Acc("ASC") {
			p.Acc("DESC")
		}
		out = append(out, x)
		if !p.Acc(",") {
			break
		}
	}
	p.Exp(")")
	return out
}

func num(p *P) int {
	t := p.Next()
	if t.K != Num {
		p.I--
		p.Unexpected()
	}
	n, err := strconv.Atoi(t.S)
	if err != nil {
		p.I--
		p.Unexpected()
	}
	return n
}

func str(p *P) string {
	t := p.Next()
	if t.K != Str {
		p.I--
		p.Unexpected()
	}
	return t.S
}

func idxOpts(p *P, i *Index) {
	for {
		switch {
		case p.Acc("USING"):
			u := p.Next().U
			if u != "BTREE" && u != "HASH" {
				p.I--
				p.Unexpected()
			}
			i.Using = u
		case p.Acc("COMMENT"):
			i.Comment = str(p)
		case p.Acc("KEY_BLOCK_SIZE"):
			p.Acc("=")
			i.KBS = p.Next().S
		case p.Acc("WITH", "PARSER"):
			i.Parser = p.Ident()
		default:
			return
		}
	}
}

func fkActions(p *P, f *FK) {
	for p.Acc("ON") {
		var dst *string
		if p.Acc("DELETE") {
			dst = &f.OnDelete
		} else if p.Acc("UPDATE") {
			dst = &f.OnUpdate
		} else {
			p.Unexpected()
		}
		switch {
		case p.Acc("CASCADE"):
			*dst = "CASCADE"
		case p.Acc("RESTRICT"):
			*dst = "" // InnoDB: RESTRICT is stored as 0 and not shown
		case p.Acc("SET", "NULL"):
			*dst = "SET NULL"
		case p.Acc("NO", "ACTION"):
			*dst = "NO ACTION"
		case p.Acc("SET", "DEFAULT"):
			fail(1215, "Cannot add foreign key constraint")
		default:
			p.Unexpected()
		}
	}
}

// colDef parses a column definition after its name.
type colExtra struct {
	pk, uniq, explicitNull bool
	pos                    string // "", FIRST, AFTER
	after                  string
	tsAuto                 bool
}

var intWidth = map[string][2]int{"tinyint": {4, 3}, "smallint": {6, 5}, "mediumint": {9, 8}, "int": {11, 10}, "bigint": {20, 20}}
var charTypes = map[string]bool{"char": true, "varchar": true, "text": true, "tinytext": true, "mediumtext": true, "longtext": true, "enum": true, "set": true}

func (d *DB) colDef(p *P, t *Table, name string) (*Col, *colExtra) {
	c := &Col{Name: name}
	x := &colExtra{}
	tn := p.T[p.I]
	if tn.K != Word {
		p.Unexpected()
	}
	p.Next()
	base := strings.ToLower(tn.S)
	arg := func(def string) string {
		if p.Acc("(") {
			n := num(p)
			p.Exp(")")
			return fmt.Sprintf("(%d)", n)
		}
		return def
	}
	arg2 := func(def string) string {
		if p.Acc("(") {
			n := num(p)
			s := fmt.Sprintf("(%d", n)
			if p.Acc(",") {
				s += fmt.Sprintf(",%d)", num(p))
			} else if def == "(10,0)" {
				s += ",0)"
			} else {
				s += ")"
			}
			p.Exp(")")
			return s
		}
		return def
	}
	unsigned := func() string {
		s := ""
		for {
			if p.Acc("UNSIGNED") {
				s = " unsigned" + strings.Replace(s, " unsigned", "", 1)
			} else if p.Acc("ZEROFILL") {
				s = " unsigned zerofill"
			} else if p.Acc("SIGNED") {
			} else {
				return s
			}
		}
	}
	switch base {
	case "bool", "boolean":
		c.Base, c.Type = "tinyint", "tinyint(1)"
	case "integer", "int", "tinyint", "smallint", "mediumint", "bigint", "int4", "int8":
		if base == "integer" || base == "int4" {
			base = "int"
		}
		if base == "int8" {
			base = "bigint"
		}
		w := arg("")
		u := unsigned()
		if w == "" {
			k := 0
			if u != "" {
				k = 1
			}
			n := intWidth[base][k]
			w = fmt.Sprintf("(%d)", n)
		}
		c.Base, c.Type = base, base+w+u
	case "serial":
		fail(1064, "serial not modelled")
	case "decimal", "numeric", "dec", "fixed":
		c.Base = "decimal"
		c.Type = "decimal" + arg2("(10,0)") + unsigned()
	case "float", "real", "double":
		if base == "double" {
			p.Acc("PRECISION")
		}
		if base == "real" {
			base = "double"
		}
		a := arg2("")
		if base == "float" && a != "" && !strings.Contains(a, ",") {
			n, _ := strconv.Atoi(strings.Trim(a, "()"))
			if n > 24 {
				base = "double"
			}
			a = ""
		} else if base == "double" && a != "" && !strings.Contains(a, ",") {
			p.Unexpected()
		}
		c.Base, c.Type = base, base+a+unsigned()
	case "bit":
		c.Base, c.Type = "bit", "bit"+arg("(1)")
	case "date", "json", "tinytext", "mediumtext", "longtext", "tinyblob", "mediumblob", "longblob", "geometry", "point":
		c.Base, c.Type = base, base
	case "text", "blob":
		arg("")
		c.Base, c.Type = base, base
	case "year":
		arg("")
		c.Base, c.Type = "year", "year(4)"
	case "datetime", "timestamp", "time":
		a := arg("")
		if a == "(0)" {
			a = ""
		}
		c.Base, c.Type = base, base+a
	case "char", "character", "nchar", "national":
		if base == "national" {
			if !p.Acc("CHARACTER") {
				p.Exp("CHAR")
			}
		}
		if p.Acc("VARYING") {
			if !p.Is("(") {
				p.Unexpected()
			}
			c.Base, c.Type = "varchar", "varchar"+arg("")
		} else {
			c.Base, c.Type = "char", "char"+arg("(1)")
		}
		if base == "nchar" || base == "national" {
			c.Charset = "utf8"
		}
	case "varchar":
		if !p.Is("(") {
			p.Unexpected()
		}
		c.Base, c.Type = "varchar", "varchar"+arg("")
	case "binary":
		c.Base, c.Type = "binary", "binary"+arg("(1)")
	case "varbinary":
		if !p.Is("(") {
			p.Unexpected()
		}
		c.Base, c.Type = "varbinary", "varbinary"+arg("")
	case "enum", "set":
		p.Exp("(")
		var vs []string
		for {
			vs = append(vs, qs(strings.TrimRight(str(p), " ")))
			if !p.Acc(",") {
				break
			}
		}
		p.Exp(")")
		seen := map[string]bool{}
		for _, v := range vs {
			if seen[v] {
				fail(1291, "Column '%s' has duplicated value %s in %s", name, v, base)
			}
			seen[v] = true
		}
		c.Base, c.Type = base, base+"("+strings.Join(vs, ",")+")"
	default:
		p.I--
		p.Unexpected()
	}
	isChar := charTypes[c.Base]
	// charset / collate directly after the type, or as attributes
	explicitCS := c.Charset
	explicitCO := ""
	var def *Expr
	defSet := false
	null := false
	sawNull := false
	for {
		switch {
		case p.Acc("CHARACTER", "SET") || p.Acc("CHARSET"):
			if !isChar {
				p.I--
				p.Unexpected()
			}
			tk := p.Next()
			explicitCS = strings.ToLower(tk.S)
			if _, ok := defaultCollation[explicitCS]; !ok {
				fail(1115, "Unknown character set: '%s'", explicitCS)
			}
		case p.Acc("BINARY"):
			if !isChar {
				p.I--
				p.Unexpected()
			}
			explicitCO = "_bin"
		case p.Acc("COLLATE"):
			tk := p.Next()
			explicitCO = strings.ToLower(tk.S)
		case p.Acc("NOT", "NULL"):
			c.NotNull = true
			sawNull = true
		case p.Acc("NULL"):
			null = true
			sawNull = true
		case p.Acc("DEFAULT"):
			defSet = true
			def = defLit(p)
		case p.Acc("ON", "UPDATE"):
			c.OnUpd = nowFunc(p)
		case p.Acc("AUTO_INCREMENT"):
			c.AutoInc = true
			c.NotNull = true
		case p.Acc("COMMENT"):
			c.Comment = str(p)
		case p.Acc("PRIMARY", "KEY") || p.Acc("PRIMARY"):
			x.pk = true
		case p.Acc("UNIQUE"):
			p.Acc("KEY")
			x.uniq = true
		case p.Acc("KEY"):
			x.pk = true
		case p.Is("REFERENCES"):
			p.Next()
			p.QName()
			if p.Is("(") {
				parts(p)
			}
			fkActions(p, &FK{})
		case p.Is("GENERATED") || p.Is("AS"):
			if p.Acc("GENERATED") {
				p.Exp("ALWAYS")
			}
			p.Exp("AS", "(")
			e := p.Expr()
			p.Exp(")")
			c.Gen = d.deparse(e, nil)
			if p.Acc("STORED") {
				c.Stored = true
			} else {
				p.Acc("VIRTUAL")
			}
		case p.Acc("FIRST"):
			x.pos = "FIRST"
		case p.Acc("AFTER"):
			x.pos = "AFTER"
			x.after = p.Ident()
		default:
			goto done
		}
	}
done:
	if isChar {
		if explicitCO == "_bin" {
			cs := explicitCS
			if cs == "" {
				cs = t.Charset
			}
			explicitCO = cs + "_bin"
		}
		switch {
		case explicitCS == "" && explicitCO == "":
			c.Charset, c.Collate = t.Charset, t.Collate
		case explicitCO == "":
			c.Charset, c.Collate = explicitCS, defaultCollation[explicitCS]
		default:
			cs := charsetOf(explicitCO)
			if explicitCS != "" && explicitCS != cs {
				fail(1253, "COLLATION '%s' is not valid for CHARACTER SET '%s'", explicitCO, explicitCS)
			}
			c.Charset, c.Collate = cs, explicitCO
		}
		if c.Charset == "binary" {
			m := map[string]string{"char": "binary", "varchar": "varbinary", "text": "blob", "tinytext": "tinyblob", "mediumtext": "mediumblob", "longtext": "longblob"}
			if nb, ok := m[c.Base]; ok {
				c.Type = nb + strings.TrimPrefix(c.Type, c.Base)
				c.Base = nb
				c.Charset, c.Collate = "", ""
			}
		}
	}
	if null && c.NotNull && c.AutoInc {
		// NULL AUTO_INCREMENT stays NOT NULL
	} else if null && c.NotNull {
		c.NotNull = true // last one wins in MySQL; we do not use both
	}
	x.explicitNull = null
	if defSet {
		d.setDefault(c, def, null)
	}
	if c.Base == "timestamp" {
		if !sawNull {
			c.NotNull = true
			if !defSet && c.OnUpd == "" {
				x.tsAuto = true
			}
		}
		if !sawNull && defSet && def.K == "null" {
			fail(1067, "Invalid default value for '%s'", name)
		}
	}
	if c.OnUpd != "" && c.Base != "timestamp" && c.Base != "datetime" {
		fail(1294, "Invalid ON UPDATE clause for '%s' column", name)
	}
	if c.AutoInc && c.Default != nil {
		fail(1067, "Invalid default value for '%s'", name)
	}
	if c.AutoInc && intWidth[c.Base][0] == 0 && c.Base != "float" && c.Base != "double" {
		fail(1063, "Incorrect column specifier for column '%s'", name)
	}
	return c, x
}

func nowFunc(p *P) string {
	t := p.Next()
	switch t.U {
	case "CURRENT_TIMESTAMP", "NOW", "LOCALTIME", "LOCALTIMESTAMP":
	default:
		p.I--
		p.Unexpected()
	}
	s := "CURRENT_TIMESTAMP"
	if p.Acc("(") {
		if p.Peek().K == Num {
			n := p.Next().S
			if n != "0" {
				s += "(" + n + ")"
			}
		}
		p.Exp(")")
	} else if t.U == "NOW" {
		p.Unexpected()
	}
	return s
}

func defLit(p *P) *Expr {
	t := p.Peek()
	switch {
	case t.K == Word && (t.U == "CURRENT_TIMESTAMP" || t.U == "NOW" || t.U == "LOCALTIME" || t.U == "LOCALTIMESTAMP"):
		return &Expr{K: "now", S: nowFunc(p)}
	case t.K == Op && (t.S == "-" || t.S == "+"):
		p.Next()
		n := p.Next()
		if n.K != Num {
			p.I--
			p.Unexpected()
		}
		s := n.S
		if t.S == "-" {
			s = "-" + s
		}
		return &Expr{K: "num", S: s}
	case t.K == Num:
		p.Next()
		return &Expr{K: "num", S: t.S}
	case t.K == Str:
		p.Next()
		return &Expr{K: "str", S: t.S}
	case t.K == Hex:
		p.Next()
		return &Expr{K: "hex", S: t.S}
	case t.K == Bit:
		p.Next()
		return &Expr{K: "bit", S: t.S}
	case p.Is("NULL"):
		p.Next()
		return &Expr{K: "null"}
	case p.Is("TRUE"):
		p.Next()
		return &Expr{K: "num", S: "1"}
	case p.Is("FALSE"):
		p.Next()
		return &Expr{K: "num", S: "0"}
	}
	p.Unexpected()
	return nil
}

// setDefault validates a default and stores it in the form SHOW CREATE TABLE prints.
func (d *DB) setDefault(c *Col, e *Expr, _ bool) {
	bad := func() { fail(1067, "Invalid default value for '%s'", c.Name) }
	if noDefault[c.Base] {
		if e.K == "null" {
			return
		}
		fail(1101, "BLOB, TEXT, GEOMETRY or JSON column '%s' can't have a default value", c.Name)
	}
	set := func(s string) { c.Default = &s }
	frac := func(f float64, scale int) string { return strconv.FormatFloat(f, 'f', scale, 64) }
	switch e.K {
	case "null":
		if c.NotNull {
			bad()
		}
		c.Default = nil
		return
	case "now":
		if c.Base != "timestamp" && c.Base != "datetime" {
			bad()
		}
		if strings.TrimPrefix(e.S, "CURRENT_TIMESTAMP") != strings.TrimPrefix(c.Type, c.Base) {
			bad()
		}
		set(e.S)
		return
	case "bit", "hex":
		n, err := uint64(0), error(nil)
		if e.K == "bit" {
			n, err = strconv.ParseUint("0"+e.S, 2, 64)
		} else {
			n, err = strconv.ParseUint("0"+e.S, 16, 64)
		}
		if err != nil {
			bad()
		}
		switch {
		case c.Base == "bit":
			w, _ := strconv.Atoi(strings.Trim(strings.TrimPrefix(c.Type, "bit"), "()"))
			if w < 64 && n >= 1<<uint(w) {
				bad()
			}
			set("b'" + strconv.FormatUint(n, 2) + "'")
		case intWidth[c.Base][0] > 0:
			set(qs(strconv.FormatUint(n, 10)))
		default:
			var bs []byte
			for n > 0 {
				bs = append([]byte{byte(n)}, bs...)
				n >>= 8
			}
			set(qs(string(bs)))
		}
		return
	}
	s := e.S
	switch {
	case c.Base == "bit":
		n, err := strconv.ParseUint(s, 10, 64)
		if err != nil {
			bad()
		}
		set("b'" + strconv.FormatUint(n, 2) + "'")
	case intWidth[c.Base][0] > 0 || c.Base == "year":
		f, err := strconv.ParseFloat(strings.TrimSpace(s), 64)
		if err != nil {
			bad()
		}
		if strings.Contains(c.Type, "unsigned") && f < 0 {
			bad()
		}
		if n, err := strconv.ParseInt(strings.TrimSpace(s), 10, 64); err == nil {
			lim := map[string]int64{"tinyint": 127, "smallint": 32767, "mediumint": 8388607, "int": 2147483647}[c.Base]
			if lim > 0 && strings.Contains(c.Type, "unsigned") {
				lim = lim*2 + 1
			}
			if lim > 0 && (n > lim || n < -lim-1) {
				bad()
			}
			set(qs(strconv.FormatInt(n, 10)))
		} else {
			set(qs(frac(f, 0)))
		}
	case c.Base == "decimal":
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			bad()
		}
		sc := 0
		if i := strings.Index(c.Type, ","); i > 0 {
			sc, _ = strconv.Atoi(c.Type[i+1 : strings.Index(c.Type, ")")])
		}
		set(qs(frac(f, sc)))
	case c.Base == "float" || c.Base == "double":
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			bad()
		}
		if i := strings.Index(c.Type, ","); i > 0 {
			sc, _ := strconv.Atoi(c.Type[i+1 : strings.Index(c.Type, ")")])
			set(qs(frac(f, sc)))
		} else {
			set(qs(strconv.FormatFloat(f, 'g', -1, 64)))
		}
	case c.Base == "enum":
		if !strings.Contains(c.Type, qs(s)) {
			bad()
		}
		set(qs(s))
	case c.Base == "datetime" || c.Base == "timestamp" || c.Base == "date" || c.Base == "time":
		if e.K == "num" && s != "0" && len(s) < 6 {
			bad()
		}
		if strings.HasPrefix(s, "0000-00-00") || s == "0" && c.Base != "time" {
			bad() // NO_ZERO_DATE
		}
		if c.Base == "date" && len(s) != 10 || (c.Base == "datetime" || c.Base == "timestamp") && len(s) < 10 {
			bad()
		}
		if len(s) == 10 && c.Base != "date" && c.Base != "time" {
			s += " 00:00:00"
		}
		if i := strings.Index(c.Type, "("); i > 0 && !strings.Contains(s, ".") {
			n, _ := strconv.Atoi(strings.Trim(c.Type[i:], "()"))
			s += "." + strings.Repeat("0", n)
		}
		set(qs(s))
	case c.Base == "char" || c.Base == "varchar" || c.Base == "binary" || c.Base == "varbinary":
		n, _ := strconv.Atoi(strings.Trim(strings.TrimPrefix(c.Type, c.Base), "()"))
		if len([]rune(s)) > n {
			bad()
		}
		if c.Base == "binary" {
			s += strings.Repeat("\x00", n-len(s))
		}
		set(qs(s))
	default:
		set(qs(s))
	}
}

func (d *DB) tableOpts(p *P, t *Table) {
	for {
		p.Acc(",")
		def := p.Acc("DEFAULT")
		switch {
		case p.Acc("ENGINE"):
			p.Acc("=")
			e := p.Next().S
			m := map[string]string{"innodb": "InnoDB", "myisam": "MyISAM", "memory": "MEMORY"}
			if m[strings.ToLower(e)] == "" {
				fail(1286, "Unknown storage engine '%s'", e)
			}
			t.Engine = m[strings.ToLower(e)]
		case p.Acc("CHARSET") || p.Acc("CHARACTER", "SET"):
			p.Acc("=")
			t.Charset = strings.ToLower(p.Next().S)
			c, ok := defaultCollation[t.Charset]
			if !ok {
				fail(1115, "Unknown character set: '%s'", t.Charset)
			}
			t.Collate = c
		case p.Acc("COLLATE"):
			p.Acc("=")
			t.Collate = strings.ToLower(p.Next().S)
			t.Charset = charsetOf(t.Collate)
		case p.Acc("AUTO_INCREMENT"):
			p.Acc("=")
			t.AutoInc = p.Next().S
		case p.Acc("COMMENT"):
			p.Acc("=")
			t.Comment = str(p)
		case p.Acc("ROW_FORMAT"):
			p.Acc("=")
			t.RowFmt = p.Next().U
		case p.Acc("KEY_BLOCK_SIZE") || p.Acc("MAX_ROWS") || p.Acc("MIN_ROWS") || p.Acc("STATS_PERSISTENT"):
			p.Acc("=")
			p.Next()
		default:
			if def {
				p.Unexpected()
			}
			return
		}
	}
}

// prescanOpts finds table options after the closing parenthesis so that column charsets see them.
func (d *DB) prescanOpts(p *P, t *Table) {
	depth := 0
	for i := p.I; i < len(p.T); i++ {
		if p.T[i].K == Op && p.T[i].S == "(" {
			depth++
		}
		if p.T[i].K == Op && p.T[i].S == ")" {
			depth--
			if depth == 0 {
				q := *p
				q.I = i + 1
				d.tableOpts(&q, t)
				return
			}
		}
	}
}

func (d *DB) createTable(p *P) {
	ine := p.Acc("IF", "NOT", "EXISTS")
	n := d.name(p)
	if d.Tables[n] != nil || d.Views[n] != nil {
		if ine {
			return
		}
		fail(1050, "Table '%s' already exists", n)
	}
	t := &Table{Name: n, Engine: "InnoDB", Charset: d.Charset, Collate: d.Collate}
	if !p.Is("(") {
		p.Unexpected()
	}
	d.prescanOpts(p, t)
	p.Exp("(")
	var idx []*Index
	null := map[string]bool{}
	var fks []*FK
	for {
		if i, f, ok := d.keyDef(p); ok {
			if i != nil {
				idx = append(idx, i)
			}
			if f != nil {
				fks = append(fks, f)
			}
		} else {
			cn := p.Ident()
			if t.col(cn) != nil {
				fail(1060, "Duplicate column name '%s'", cn)
			}
			c, x := d.colDef(p, t, cn)
			if x.pos != "" {
				p.Unexpected()
			}
			d.tsDefault(t, c, x)
			t.Cols = append(t.Cols, c)
			if x.pk {
				idx = append(idx, &Index{Kind: "PRIMARY", Name: "PRIMARY", Parts: []Part{{Col: cn}}})
			}
			if x.explicitNull {
				null[strings.ToLower(cn)] = true
			}
			if x.uniq {
				idx = append(idx, &Index{Kind: "UNIQUE", Parts: []Part{{Col: cn}}})
			}
		}
		if !p.Acc(",") {
			break
		}
	}
	p.Exp(")")
	d.tableOpts(p, &Table{})
	d.end(p)
	if len(t.Cols) == 0 {
		fail(1113, "A table must have at least 1 column")
	}
	d.Tables[n] = t
	// named first so that generated names avoid them
	for _, i := range idx {
		if i.Kind == "PRIMARY" {
			for _, q := range i.Parts {
				if null[strings.ToLower(q.Col)] {
					fail(1171, "All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
				}
			}
			d.addIndex(t, i)
		}
	}
	for _, i := range idx {
		if i.Kind != "PRIMARY" && i.Name != "" {
			d.addIndex(t, i)
		}
	}
	for _, i := range idx {
		if i.Kind != "PRIMARY" && i.Name == "" {
			i.Name = d.autoName(t, i.Parts[0].Col)
			d.addIndex(t, i)
		}
	}
	// restore declaration order
	ord := map[*Index]int{}
	for k, i := range idx {
		ord[i] = k
	}
	sort.SliceStable(t.Idx, func(a, b int) bool { return ord[t.Idx[a]] < ord[t.Idx[b]] })
	for _, f := range fks {
		d.addFK(t, f)
	}
	d.check(t)
}

func (d *DB) tsDefault(t *Table, c *Col, x *colExtra) {
	if !x.tsAuto {
		return
	}
	for _, o := range t.Cols {
		if o != c && o.Base == "timestamp" {
			fail(1067, "Invalid default value for '%s'", c.Name)
		}
	}
	s := "CURRENT_TIMESTAMP" + strings.TrimPrefix(c.Type, "timestamp")
	c.Default = &s
	c.OnUpd = s
}

func (d *DB) autoName(t *Table, base string) string {
	n := base
	for i := 2; t.idx(n) != nil || strings.EqualFold(n, "PRIMARY"); i++ {
		n = fmt.Sprintf("%s_%d", base, i)
	}
	return n
}

// keyDef parses an index or constraint definition inside CREATE TABLE or after ADD.
func (d *DB) keyDef(p *P) (*Index, *FK, bool) {
	con := ""
	save := p.I
	hasCon := false
	if p.Acc("CONSTRAINT") {
		hasCon = true
		if p.IsIdent() {
			con = p.Ident()
		}
	}
	optName := func() string {
		if p.IsIdent() && !p.Is("USING") {
			return p.Ident()
		}
		return ""
	}
	using := func(i *Index) {
		if p.Acc("USING") {
			i.Using = p.Next().U
		}
	}
	switch {
	case p.Acc("PRIMARY", "KEY"):
		i := &Index{Kind: "PRIMARY", Name: "PRIMARY"}
		optName()
		using(i)
		i.Parts = parts(p)
		idxOpts(p, i)
		return i, nil, true
	case p.Is("UNIQUE"):
		p.Next()
		if !p.Acc("KEY") {
			p.Acc("INDEX")
		}
		i := &Index{Kind: "UNIQUE", Name: optName()}
		if i.Name == "" {
			i.Name = con
		}
		using(i)
		i.Parts = parts(p)
		idxOpts(p, i)
		return i, nil, true
	case p.Acc("FOREIGN", "KEY"):
		f := &FK{Name: con}
		in := optName()
		if f.Name == "" {
			f.Name = in
		}
		for _, x := range parts(p) {
			f.Cols = append(f.Cols, x.Col)
		}
		p.Exp("REFERENCES")
		f.RefTable = d.name(p)
		for _, x := range parts(p) {
			f.RefCols = append(f.RefCols, x.Col)
		}
		fkActions(p, f)
		return nil, f, true
	case p.Acc("CHECK"):
		p.Exp("(")
		p.Expr()
		p.Exp(")")
		return nil, nil, true
	}
	if hasCon {
		p.I = save + 1
		p.Unexpected()
	}
	switch {
	case p.Is("KEY") || p.Is("INDEX"):
		p.Next()
		i := &Index{Kind: "KEY", Name: optName()}
		using(i)
		i.Parts = parts(p)
		idxOpts(p, i)
		return i, nil, true
	case p.Is("FULLTEXT") || p.Is("SPATIAL"):
		i := &Index{Kind: p.Next().U}
		if !p.Acc("KEY") {
			p.Acc("INDEX")
		}
		i.Name = optName()
		i.Parts = parts(p)
		idxOpts(p, i)
		return i, nil, true
	}
	return nil, nil, false
}

func (d *DB) addIndex(t *Table, i *Index) {
	if i.Kind == "PRIMARY" {
		if t.pk() != nil {
			fail(1068, "Multiple primary key defined")
		}
		i.Name = "PRIMARY"
	} else {
		if i.Name == "" {
			i.Name = d.autoName(t, i.Parts[0].Col)
		}
		if strings.EqualFold(i.Name, "PRIMARY") {
			fail(1280, "Incorrect index name '%s'", i.Name)
		}
		if o := t.idx(i.Name); o != nil {
			fail(1061, "Duplicate key name '%s'", i.Name)
		}
	}
	seen := map[string]bool{}
	for k := range i.Parts {
		c := t.col(i.Parts[k].Col)
		if c == nil {
			fail(1072, "Key column '%s' doesn't exist in table", i.Parts[k].Col)
		}
		i.Parts[k].Col = c.Name
		if seen[strings.ToLower(c.Name)] {
			fail(1060, "Duplicate column name '%s'", c.Name)
		}
		seen[strings.ToLower(c.Name)] = true
		isBlob := strings.HasSuffix(c.Base, "text") || strings.HasSuffix(c.Base, "blob")
		if c.Base == "json" {
			fail(3152, "JSON column '%s' cannot be used in key specification.", c.Name)
		}
		if i.Kind == "FULLTEXT" {
			if c.Base != "char" && c.Base != "varchar" && !strings.HasSuffix(c.Base, "text") {
				fail(1283, "Column '%s' cannot be part of FULLTEXT index", c.Name)
			}
			i.Parts[k].Len = 0
			continue
		}
		if i.Kind == "SPATIAL" {
			continue
		}
		if isBlob && i.Parts[k].Len == 0 {
			fail(1170, "BLOB/TEXT column '%s' used in key specification without a key length", c.Name)
		}
		if i.Parts[k].Len > 0 && !isBlob {
			if c.Base != "char" && c.Base != "varchar" && c.Base != "binary" && c.Base != "varbinary" {
				fail(1089, "Incorrect prefix key; the used key part isn't a string")
			}
			n, _ := strconv.Atoi(strings.Trim(strings.TrimPrefix(c.Type, c.Base), "()"))
			if i.Parts[k].Len > n {
				fail(1089, "Incorrect prefix key; the used length is longer than the key part")
			}
			if i.Parts[k].Len == n {
				i.Parts[k].Len = 0
			}
		}
	}
	if i.Kind == "PRIMARY" {
		for _, q := range i.Parts {
			c := t.col(q.Col)
			c.NotNull = true
		}
	}
	t.Idx = append(t.Idx, i)
	if !i.Gen && i.Kind != "FULLTEXT" {
		// a new explicit index replaces an implicit foreign key index it covers
		for _, o := range t.Idx {
			if o.Gen && o != i && covers(i, partCols(o)) {
				t.rmIndex(o)
				break
			}
		}
	}
}

func partCols(i *Index) []string {
	var o []string
	for _, p := range i.Parts {
		o = append(o, p.Col)
	}
	return o
}

// covers: i has cols as its leftmost whole columns.
func covers(i *Index, cols []string) bool {
	if i.Kind == "FULLTEXT" || i.Kind == "SPATIAL" || len(i.Parts) < len(cols) {
		return false
	}
	for k, c := range cols {
		if !strings.EqualFold(i.Parts[k].Col, c) || i.Parts[k].Len > 0 {
			return false
		}
	}
	return true
}

func (t *Table) rmIndex(x *Index) {
	var keep []*Index
	for _, o := range t.Idx {
		if o != x {
			keep = append(keep, o)
		}
	}
	t.Idx = keep
}

// fkIndexNeeded reports whether dropping x would leave a foreign key without an index.
func (d *DB) fkIndexNeeded(t *Table, x *Index) string {
	has := func(t *Table, cols []string) bool {
		for _, o := range t.Idx {
			if o != x && covers(o, cols) {
				return true
			}
		}
		return false
	}
	for _, f := range t.FKs {
		if covers(x, f.Cols) && !has(t, f.Cols) {
			return f.Name
		}
	}
	for _, o := range d.Tables {
		for _, f := range o.FKs {
			if f.RefTable == t.Name && covers(x, f.RefCols) && !has(t, f.RefCols) {
				return f.Name
			}
		}
	}
	return ""
}

func (d *DB) dropIndex(t *Table, n string) {
	i := t.idx(n)
	if i == nil {
		fail(1091, "Can't DROP '%s'; check that column/key exists", n)
	}
	if f := d.fkIndexNeeded(t, i); f != "" {
		fail(1553, "Cannot drop index '%s': needed in a foreign key constraint", n)
	}
	t.rmIndex(i)
}

func (d *DB) addFK(t *Table, f *FK) {
	auto := f.Name == ""
	if auto {
		n := 1
		for {
			f.Name = fmt.Sprintf("%s_ibfk_%d", t.Name, n)
			if d.fkByName(f.Name) == nil {
				break
			}
			n++
		}
	} else if d.fkByName(f.Name) != nil {
		fail(1022, "Can't write; duplicate key in table '%s'", t.Name)
	}
	for k := range f.Cols {
		c := t.col(f.Cols[k])
		if c == nil {
			fail(1072, "Key column '%s' doesn't exist in table", f.Cols[k])
		}
		f.Cols[k] = c.Name
	}
	r := d.Tables[f.RefTable]
	if r == nil {
		fail(1215, "Cannot add foreign key constraint")
	}
	if len(f.Cols) != len(f.RefCols) {
		fail(1239, "Incorrect foreign key definition for '%s': Key reference and table reference don't match", f.Name)
	}
	for k := range f.RefCols {
		c := r.col(f.RefCols[k])
		if c == nil {
			fail(1215, "Cannot add foreign key constraint")
		}
		f.RefCols[k] = c.Name
	}
	d.checkFK(t, f, 1215)
	ok := false
	for _, i := range t.Idx {
		if covers(i, f.Cols) {
			ok = true
		}
	}
	t.FKs = append(t.FKs, f)
	if !ok {
		n := f.Name
		if auto {
			n = f.Cols[0]
		}
		i := &Index{Kind: "KEY", Name: n, Gen: true}
		if t.idx(n) != nil {
			if !auto {
				fail(1061, "Duplicate key name '%s'", n)
			}
			i.Name = d.autoName(t, n)
		}
		for _, c := range f.Cols {
			i.Parts = append(i.Parts, Part{Col: c})
		}
		t.Idx = append(t.Idx, i)
	}
}

func (d *DB) fkByName(n string) *FK {
	for _, t := range d.Tables {
		for _, f := range t.FKs {
			if strings.EqualFold(f.Name, n) {
				return f
			}
		}
	}
	return nil
}

func fkType(c *Col) string {
	if intWidth[c.Base][0] > 0 {
		u := ""
		if strings.Contains(c.Type, "unsigned") {
			u = "u"
		}
		return c.Base + u
	}
	if charTypes[c.Base] {
		return "string " + c.Charset + c.Collate
	}
	return c.Type
}

func (d *DB) checkFK(t *Table, f *FK, code int) {
	r := d.Tables[f.RefTable]
	if r == nil {
		fail(code, "Cannot add foreign key constraint")
	}
	ok := false
	for _, i := range r.Idx {
		if covers(i, f.RefCols) {
			ok = true
		}
	}
	if !ok {
		fail(code, "Cannot add foreign key constraint")
	}
	for k := range f.Cols {
		a, b := t.col(f.Cols[k]), r.col(f.RefCols[k])
		if a == nil || b == nil || fkType(a) != fkType(b) {
			fail(code, "Cannot add foreign key constraint: incompatible columns %s and %s", f.Cols[k], f.RefCols[k])
		}
		if (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") && a.NotNull {
			fail(1830, "Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL", a.Name, f.Name)
		}
	}
}

// check verifies table-wide rules after a statement.
func (d *DB) check(t *Table) {
	n := 0
	for _, c := range t.Cols {
		if !c.AutoInc {
			continue
		}
		n++
		ok := false
		for _, i := range t.Idx {
			if i.Kind != "FULLTEXT" && len(i.Parts) > 0 && strings.EqualFold(i.Parts[0].Col, c.Name) {
				ok = true
			}
		}
		if !ok {
			n = 2
		}
	}
	if n > 1 {
		fail(1075, "Incorrect table definition; there can be only one auto column and it must be defined as a key")
	}
	for _, c := range t.Cols {
		if pk := t.pk(); pk != nil && !c.NotNull {
			for _, q := range pk.Parts {
				if q.Col == c.Name {
					fail(1171, "All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
				}
			}
		}
	}
}

func (d *DB) place(t *Table, c *Col, x *colExtra) {
	switch x.pos {
	case "FIRST":
		t.Cols = append([]*Col{c}, t.Cols...)
	case "AFTER":
		k := t.colIdx(x.after)
		if k < 0 {
			fail(1054, "Unknown column '%s' in '%s'", x.after, t.Name)
		}
		t.Cols = append(t.Cols[:k+1], append([]*Col{c}, t.Cols[k+1:]...)...)
	default:
		t.Cols = append(t.Cols, c)
	}
}

func (d *DB) changeCol(p *P, t *Table, old, name string) {
	k := t.colIdx(old)
	if k < 0 {
		fail(1054, "Unknown column '%s' in '%s'", old, t.Name)
	}
	oc := t.Cols[k]
	if !strings.EqualFold(old, name) && t.col(name) != nil {
		fail(1060, "Duplicate column name '%s'", name)
	}
	c, x := d.colDef(p, t, name)
	if x.pos == "AFTER" && strings.EqualFold(x.after, old) {
		fail(1054, "Unknown column '%s' in '%s'", x.after, t.Name)
	}
	if x.tsAuto {
		// the implicit default belongs to the first TIMESTAMP column only
		for _, o := range t.Cols {
			if o != oc && o.Base == "timestamp" {
				fail(1067, "Invalid default value for '%s'", c.Name)
			}
		}
		s := "CURRENT_TIMESTAMP" + strings.TrimPrefix(c.Type, "timestamp")
		c.Default, c.OnUpd = &s, s
	}
	// a column of the primary key cannot be changed to NULL explicitly; without NOT NULL it stays NOT NULL
	if pk := t.pk(); pk != nil {
		for _, q := range pk.Parts {
			if strings.EqualFold(q.Col, old) {
				if x.explicitNull {
					fail(1171, "All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
				}
				c.NotNull = true
			}
		}
	}
	// foreign keys on this column
	for _, o := range d.Tables {
		for _, f := range o.FKs {
			for j := range f.Cols {
				if o == t && strings.EqualFold(f.Cols[j], old) || f.RefTable == t.Name && strings.EqualFold(f.RefCols[j], old) {
					if fkType(oc) != fkType(c) || oc.Type != c.Type && intWidth[c.Base][0] == 0 {
						if o == t && strings.EqualFold(f.Cols[j], old) {
							fail(1832, "Cannot change column '%s': used in a foreign key constraint '%s'", old, f.Name)
						}
						fail(1833, "Cannot change column '%s': used in a foreign key constraint '%s' of table '%s'", old, f.Name, o.Name)
					}
					if o == t && strings.EqualFold(f.Cols[j], old) && c.NotNull && (f.OnDelete == "SET NULL" || f.OnUpdate == "SET NULL") {
						fail(1830, "Column '%s' cannot be NOT NULL: needed in a foreign key constraint '%s' SET NULL", old, f.Name)
					}
				}
			}
		}
	}
	if x.pos == "" {
		t.Cols[k] = c
	} else {
		t.Cols = append(append([]*Col{}, t.Cols[:k]...), t.Cols[k+1:]...)
		d.place(t, c, x)
	}
	// rename inside keys
	for _, i := range t.Idx {
		for j := range i.Parts {
			if strings.EqualFold(i.Parts[j].Col, old) {
				i.Parts[j].Col = name
			}
		}
	}
	for _, o := range d.Tables {
		for _, f := range o.FKs {
			for j := range f.Cols {
				if o == t && strings.EqualFold(f.Cols[j], old) {
					f.Cols[j] = name
				}
				if f.RefTable == t.Name && strings.EqualFold(f.RefCols[j], old) {
					f.RefCols[j] = name
				}
			}
		}
	}
	// prefix lengths that are no longer valid
	for _, i := range t.Idx {
		for _, q := range i.Parts {
			if strings.EqualFold(q.Col, name) {
				isBlob := strings.HasSuffix(c.Base, "text") || strings.HasSuffix(c.Base, "blob")
				if i.Kind == "FULLTEXT" {
					if c.Base != "char" && c.Base != "varchar" && !strings.HasSuffix(c.Base, "text") {
						fail(1283, "Column '%s' cannot be part of FULLTEXT index", c.Name)
					}
				} else if isBlob && q.Len == 0 {
					fail(1170, "BLOB/TEXT column '%s' used in key specification without a key length", c.Name)
				}
				if q.Len > 0 && !isBlob && !charTypes[c.Base] && c.Base != "binary" && c.Base != "varbinary" {
					fail(1089, "Incorrect prefix key")
				}
			}
		}
	}
	if x.pk {
		d.addIndex(t, &Index{Kind: "PRIMARY", Parts: []Part{{Col: name}}})
	}
	if x.uniq {
		d.addIndex(t, &Index{Kind: "UNIQUE", Parts: []Part{{Col: name}}})
	}
}

func (d *DB) alterTable(p *P) {
	tn := d.name(p)
	t := d.table(tn)
	for {
		switch {
		case p.Acc("ADD"):
			if i, f, ok := d.keyDef(p); ok {
				if i != nil {
					d.addIndex(t, i)
				}
				if f != nil {
					d.addFK(t, f)
				}
				break
			}
			p.Acc("COLUMN")
			n := p.Ident()
			if t.col(n) != nil {
				fail(1060, "Duplicate column name '%s'", n)
			}
			c, x := d.colDef(p, t, n)
			d.tsDefault(t, c, x)
			d.place(t, c, x)
			if x.pk {
				if x.explicitNull {
					fail(1171, "All parts of a PRIMARY KEY must be NOT NULL; if you need NULL in a key, use UNIQUE instead")
				}
				d.addIndex(t, &Index{Kind: "PRIMARY", Parts: []Part{{Col: n}}})
			}
			if x.uniq {
				d.addIndex(t, &Index{Kind: "UNIQUE", Parts: []Part{{Col: n}}})
			}
		case p.Acc("CHANGE"):
			p.Acc("COLUMN")
			o := p.Ident()
			n := p.Ident()
			d.changeCol(p, t, o, n)
		case p.Acc("MODIFY"):
			p.Acc("COLUMN")
			o := p.Ident()
			d.changeCol(p, t, o, o)
		case p.Acc("DROP", "PRIMARY", "KEY"):
			if t.pk() == nil {
				fail(1091, "Can't DROP 'PRIMARY'; check that column/key exists")
			}
			d.dropIndex(t, "PRIMARY")
		case p.Acc("DROP", "INDEX") || p.Acc("DROP", "KEY"):
			d.dropIndex(t, p.Ident())
		case p.Acc("DROP", "FOREIGN", "KEY"):
			n := p.Ident()
			var keep []*FK
			for _, f := range t.FKs {
				if !strings.EqualFold(f.Name, n) {
					keep = append(keep, f)
				}
			}
			if len(keep) == len(t.FKs) {
				fail(1091, "Can't DROP '%s'; check that column/key exists", n)
			}
			t.FKs = keep
		case p.Acc("DROP"):
			p.Acc("COLUMN")
			n := p.Ident()
			k := t.colIdx(n)
			if k < 0 {
				fail(1091, "Can't DROP '%s'; check that column/key exists", n)
			}
			for _, o := range d.Tables {
				for _, f := range o.FKs {
					for j := range f.Cols {
						if o == t && strings.EqualFold(f.Cols[j], n) {
							fail(1828, "Cannot drop column '%s': needed in a foreign key constraint '%s'", n, f.Name)
						}
						if f.RefTable == t.Name && strings.EqualFold(f.RefCols[j], n) {
							fail(1829, "Cannot drop column '%s': needed in a foreign key constraint '%s' of table '%s'", n, f.Name, o.Name)
						}
					}
				}
			}
			t.Cols = append(append([]*Col{}, t.Cols[:k]...), t.Cols[k+1:]...)
			if len(t.Cols) == 0 {
				fail(1090, "You can't delete all columns with ALTER TABLE; use DROP TABLE instead")
			}
			for _, i := range append([]*Index{}, t.Idx...) {
				var keep []Part
				for _, q := range i.Parts {
					if !strings.EqualFold(q.Col, n) {
						keep = append(keep, q)
					}
				}
				i.Parts = keep
				if len(keep) == 0 {
					t.rmIndex(i)
				}
			}
		case p.Acc("ALTER"):
			p.Acc("COLUMN")
			n := p.Ident()
			c := t.col(n)
			if c == nil {
				fail(1054, "Unknown column '%s' in '%s'", n, t.Name)
			}
			if p.Acc("SET", "DEFAULT") {
				d.setDefault(c, defLit(p), false)
			} else {
				p.Exp("DROP", "DEFAULT")
				c.Default = nil
			}
		case p.Acc("RENAME", "INDEX") || p.Acc("RENAME", "KEY"):
			i := t.idx(p.Ident())
			p.Exp("TO")
			n := p.Ident()
			if i == nil {
				fail(1176, "Key doesn't exist in table")
			}
			i.Name = n
		case p.Acc("CONVERT", "TO", "CHARACTER", "SET"):
			t.Charset = strings.ToLower(p.Next().S)
			t.Collate = defaultCollation[t.Charset]
			if p.Acc("COLLATE") {
				t.Collate = strings.ToLower(p.Next().S)
			}
			for _, c := range t.Cols {
				if charTypes[c.Base] {
					c.Charset, c.Collate = t.Charset, t.Collate
				}
			}
		default:
			before := p.I
			d.tableOpts(p, t)
			if p.I == before {
				p.Unexpected()
			}
		}
		if !p.Acc(",") {
			break
		}
	}
	d.end(p)
	d.check(t)
}

func (d *DB) createTrigger(p *P) {
	p.Exp("CREATE")
	if p.Acc("DEFINER") {
		p.Exp("=")
		p.Next()
		if p.Peek().K == Param {
			p.Next()
		}
	}
	p.Exp("TRIGGER")
	t := &Trigger{Name: d.name(p)}
	if !p.Is("BEFORE") && !p.Is("AFTER") {
		p.Unexpected()
	}
	t.Timing = p.Next().U
	if !p.Is("INSERT") && !p.Is("UPDATE") && !p.Is("DELETE") {
		p.Unexpected()
	}
	t.Event = p.Next().U
	p.Exp("ON")
	t.Table = d.name(p)
	tab := d.table(t.Table)
	p.Exp("FOR", "EACH", "ROW")
	if p.EOF() {
		p.Unexpected()
	}
	first := p.Peek()
	switch first.U {
	case "SET", "INSERT", "UPDATE", "DELETE", "BEGIN", "IF", "SIGNAL", "CALL":
	default:
		p.Unexpected()
	}
	body := strings.TrimRight(p.Src[first.Pos:], " \t\r\n;")
	t.Body = body
	d.checkBody(p, tab, t)
	for _, o := range d.Triggers {
		if o.Name == t.Name {
			fail(1359, "Trigger already exists")
		}
	}
	d.Triggers = append(d.Triggers, t)
}

// checkBody does the syntax checking of the trigger bodies the families use; columns are checked when NEW./OLD. occur.
func (d *DB) checkBody(p *P, tab *Table, t *Trigger) {
	for i := p.I; i+2 < len(p.T); i++ {
		if (p.T[i].U == "NEW" || p.T[i].U == "OLD") && p.T[i+1].S == "." {
			if p.T[i].U == "NEW" && t.Event == "DELETE" || p.T[i].U == "OLD" && t.Event == "INSERT" {
				fail(1363, "There is no %s row in on %s trigger", p.T[i].U, t.Event)
			}
			if tab.col(p.T[i+2].S) == nil {
				fail(1054, "Unknown column '%s' in '%s'", p.T[i+2].S, p.T[i].U)
			}
		}
	}
	save := p.I
	var stmt func()
	stmt = func() {
		switch {
		case p.Acc("SET"):
			for {
				if p.Peek().K == Param {
					p.Next()
				} else {
					p.QName()
				}
				if !p.Acc("=") && !p.Acc(":=") {
					p.Unexpected()
				}
				p.Expr()
				if !p.Acc(",") {
					break
				}
			}
		case p.Acc("INSERT"):
			p.Acc("INTO")
			p.QName()
			if p.Is("(") {
				p.IdentList()
			}
			if !p.Acc("VALUES") && !p.Acc("VALUE") {
				if p.Is("SELECT") {
					p.Select()
					return
				}
				p.Unexpected()
			}
			p.Exp("(")
			for {
				p.Expr()
				if !p.Acc(",") {
					break
				}
			}
			p.Exp(")")
		case p.Acc("DELETE"):
			p.Exp("FROM")
			p.QName()
			if p.Acc("WHERE") {
				p.Expr()
			}
		case p.Acc("UPDATE"):
			p.QName()
			p.Exp("SET")
			for {
				p.QName()
				p.Exp("=")
				p.Expr()
				if !p.Acc(",") {
					break
				}
			}
			if p.Acc("WHERE") {
				p.Expr()
			}
		case p.Acc("BEGIN"):
			for !p.Acc("END") {
				stmt()
				p.Exp(";")
			}
		case p.Acc("IF"):
			p.Expr()
			p.Exp("THEN")
			for !p.Acc("END", "IF") {
				if p.Acc("ELSE") {
					continue
				}
				stmt()
				p.Exp(";")
			}
		default:
			p.Unexpected()
		}
	}
	stmt()
	d.end(p)
	p.I = save
}

func (d *DB) createView(p *P) {
	p.Exp("CREATE")
	rep := p.Acc("OR", "REPLACE")
	for !p.Is("VIEW") {
		switch {
		case p.Acc("ALGORITHM", "="):
			p.Next()
		case p.Acc("DEFINER", "="):
			p.Next()
			if p.Peek().K == Param {
				p.Next()
			}
		case p.Acc("SQL", "SECURITY"):
			p.Next()
		default:
			p.Unexpected()
		}
	}
	p.Exp("VIEW")
	n := d.name(p)
	var cols []string
	if p.Is("(") {
		cols = p.IdentList()
	}
	p.Exp("AS")
	s := p.Select()
	if p.Acc("WITH") {
		if !p.Acc("CASCADED") {
			p.Acc("LOCAL")
		}
		p.Exp("CHECK", "OPTION")
	}
	d.end(p)
	if d.Tables[n] != nil {
		if rep {
			fail(1347, "'%s.%s' is not VIEW", d.Name, n)
		}
		fail(1050, "Table '%s' already exists", n)
	}
	if d.Views[n] != nil && !rep {
		fail(1050, "Table '%s' already exists", n)
	}
	def, names := d.deparseSelect(s, cols)
	d.Views[n] = &View{Name: n, Def: def, Cols: names}
}

// Key identifies the state completely (including what later statements can depend on).
func (d *DB) Key() string {
	var b strings.Builder
	b.WriteString(d.Canon())
	for _, n := range d.names() {
		for _, i := range d.Tables[n].Idx {
			fmt.Fprintf(&b, "%s %v;", i.Name, i.Gen)
		}
	}
	for _, t := range d.Triggers {
		b.WriteString(t.Body)
	}
	return b.String()
}
