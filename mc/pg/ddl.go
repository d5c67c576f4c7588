package pg

import (
	"fmt"
	"strings"

	. "mc/sqlx"
)

// Exec executes one statement; a failing statement changes nothing.
func (d *DB) Exec(sql string) error {
	p, err := NewP(sql, PG)
	if err != nil {
		return &Err{"42601", err.Error()}
	}
	n := d.Clone()
	err = Try(func() {
		n.statement(p)
		p.Acc(";")
		if !p.EOF() {
			p.Unexpected()
		}
	})
	if err != nil {
		if _, ok := err.(*SyntaxError); ok {
			return &Err{"42601", err.Error()}
		}
		return err
	}
	*d = *n
	return nil
}

func trunc(s string) string {
	if len(s) > 63 {
		return s[:63]
	}
	return s
}

func (d *DB) statement(p *P) {
	switch {
	case p.EOF():
	case p.Acc("CREATE"):
		d.create(p)
	case p.Acc("ALTER", "TABLE"):
		d.alter(p)
	case p.Acc("DROP"):
		d.drop(p)
	case p.Acc("COMMENT", "ON"), p.Acc("SET"), p.Acc("GRANT"):
		for !p.EOF() && !p.Is(";") {
			p.Next()
		}
	default:
		p.Unexpected()
	}
}

func (d *DB) tableNamed(q []string) *Rel {
	r := d.find(q)
	if r == nil {
		fail("42P01", "relation %q does not exist", strings.Join(q, "."))
	}
	if r.Kind != "r" {
		fail("42809", "%q is not a table", r.Name)
	}
	return r
}

func (d *DB) create(p *P) {
	switch {
	case p.Acc("TABLE"):
		d.createTable(p)
	case p.Is("INDEX") || p.Is("UNIQUE", "INDEX"):
		u := p.Acc("UNIQUE")
		p.Exp("INDEX")
		d.createIndex(p, u)
	case p.Is("VIEW") || p.Is("OR", "REPLACE", "VIEW"):
		r := p.Acc("OR", "REPLACE")
		p.Exp("VIEW")
		d.createView(p, r)
	case p.Acc("POLICY"):
		d.createPolicy(p)
	case p.Acc("SCHEMA"):
		ine := p.Acc("IF", "NOT", "EXISTS")
		n := p.Ident()
		if d.hasSchema(n) {
			if ine {
				return
			}
			fail("42P06", "schema %q already exists", n)
		}
		d.Schemas = append(d.Schemas, n)
	case p.Acc("TYPE"):
		s, n := d.target(p.QName())
		p.Exp("AS", "ENUM", "(")
		var v []string
		for !p.Is(")") {
			t := p.Next()
			if t.K != Str {
				p.I--
				p.Unexpected()
			}
			v = append(v, t.S)
			if !p.Acc(",") {
				break
			}
		}
		p.Exp(")")
		if d.Enums["e:"+s+"."+n] != nil {
			fail("42710", "type %q already exists", n)
		}
		d.Enums["e:"+s+"."+n] = v
	case p.Acc("EXTENSION"):
		ine := p.Acc("IF", "NOT", "EXISTS")
		n := p.Ident()
		if d.Exts[n] {
			if ine {
				return
			}
			fail("42710", "extension %q already exists", n)
		}
		d.Exts[n] = true
		if n == "pg_buffercache" {
			d.Rels = append(d.Rels, &Rel{OID: d.oid(), Schema: "public", Name: n, Kind: "v", Ext: n, Q: &Query{Items: []*Item{{N: cnst(tInt4, "1"), Name: "bufferid"}}}, Cols: []*Col{{Num: 1, Name: "bufferid", T: tInt4}}})
		} else if n != "citext" {
			fail("58P01", "could not open extension control file for %q", n)
		}
	case p.Acc("ROLE"), p.Acc("USER"):
		d.Roles[p.Ident()] = true
	default:
		p.Unexpected()
	}
}

// makeObjectName of the server: parts are shortened to fit 63 bytes.
func objName(a, b, label string) string {
	over := 0
	if b != "" {
		over++
	}
	if label != "" {
		over += len(label) + 1
	}
	avail := 63 - over
	for len(a)+len(b) > avail {
		if len(a) > len(b) {
			a = a[:len(a)-1]
		} else {
			b = b[:len(b)-1]
		}
	}
	if b != "" {
		a += "_" + b
	}
	if label != "" {
		a += "_" + label
	}
	return a
}

func (d *DB) conNameUsed(schema, n string) bool {
	for _, r := range d.Rels {
		if r.Schema == schema && r.con(n) != nil {
			return true
		}
	}
	return false
}

func (d *DB) chooseRel(schema, a, b, label string, con bool) string {
	l := label
	for i := 1; ; i++ {
		n := objName(a, b, l)
		if d.get(schema, n) == nil && !(con && d.conNameUsed(schema, n)) {
			return n
		}
		l = fmt.Sprintf("%s%d", label, i)
	}
}

func (d *DB) chooseCon(schema, a, b, label string, taken map[string]bool) string {
	l := label
	for i := 1; ; i++ {
		n := objName(a, b, l)
		if !d.conNameUsed(schema, n) && !taken[n] {
			return n
		}
		l = fmt.Sprintf("%s%d", label, i)
	}
}

type consDef struct {
	name   string
	kind   string
	cols   []string
	e      *Expr
	noInh  bool
	ref    []string
	refc   []string
	upd    string
	del    string
	onCol  string
	dfr    bool
	idfr   bool
	where  *Expr
	idxOID int
}

type colDef struct {
	c      *Col
	def    *Expr
	cons   []*consDef
	ident  string
	opts   string
	serial bool
	null   bool
}

func (d *DB) refs(p *P, c *consDef) {
	c.kind = "f"
	c.ref = p.QName()
	if p.Is("(") {
		c.refc = p.IdentList()
	}
	c.upd, c.del = "NO ACTION", "NO ACTION"
	rule := func() string {
		switch {
		case p.Acc("CASCADE"):
			return "CASCADE"
		case p.Acc("RESTRICT"):
			return "RESTRICT"
		case p.Acc("SET", "NULL"):
			return "SET NULL"
		case p.Acc("SET", "DEFAULT"):
			return "SET DEFAULT"
		}
		p.Exp("NO", "ACTION")
		return "NO ACTION"
	}
	for {
		switch {
		case p.Acc("MATCH", "SIMPLE"):
		case p.Acc("ON", "UPDATE"):
			c.upd = rule()
		case p.Acc("ON", "DELETE"):
			c.del = rule()
		default:
			return
		}
	}
}

// attrs reads DEFERRABLE and the like; NO INHERIT and NOT VALID belong to checks.
func (c *consDef) attrs(p *P) {
	for {
		switch {
		case p.Is("NOT", "DEFERRABLE"):
			p.I += 2
		case c.kind != "c" && p.Acc("DEFERRABLE"):
			c.dfr = true
		case c.kind != "c" && p.Acc("INITIALLY", "DEFERRED"):
			c.dfr, c.idfr = true, true
		case p.Acc("INITIALLY", "IMMEDIATE"):
		case c.kind == "c" && p.Acc("NO", "INHERIT"):
			c.noInh = true
		default:
			return
		}
	}
}

func (d *DB) tableCons(p *P) *consDef {
	c := &consDef{}
	if p.Acc("CONSTRAINT") {
		c.name = trunc(p.Ident())
	}
	switch {
	case p.Acc("PRIMARY", "KEY"):
		c.kind = "p"
		c.cols = p.IdentList()
	case p.Acc("UNIQUE"):
		c.kind = "u"
		c.cols = p.IdentList()
	case p.Acc("CHECK"):
		c.kind = "c"
		p.Exp("(")
		c.e = p.Expr()
		p.Exp(")")
	case p.Acc("FOREIGN", "KEY"):
		c.kind = "f"
		c.cols = p.IdentList()
		p.Exp("REFERENCES")
		d.refs(p, c)
	default:
		p.Unexpected()
	}
	c.attrs(p)
	return c
}

func seqOpts(p *P) string {
	if !p.Acc("(") {
		return ""
	}
	var o []string
	n := func() string {
		s := ""
		if p.Acc("-") {
			s = "-"
		}
		t := p.Next()
		if t.K != Num {
			p.I--
			p.Unexpected()
		}
		return s + t.S
	}
	for !p.Acc(")") {
		switch {
		case p.Acc("START"):
			p.Acc("WITH")
			o = append(o, "start "+n())
		case p.Acc("INCREMENT"):
			p.Acc("BY")
			o = append(o, "inc "+n())
		case p.Acc("MINVALUE"):
			o = append(o, "min "+n())
		case p.Acc("MAXVALUE"):
			o = append(o, "max "+n())
		case p.Acc("CACHE"):
			o = append(o, "cache "+n())
		case p.Acc("NO", "MINVALUE"), p.Acc("NO", "MAXVALUE"):
		case p.Acc("NO", "CYCLE"):
		case p.Acc("CYCLE"):
			o = append(o, "cycle")
		case p.Acc("SEQUENCE", "NAME"):
			p.QName()
		default:
			p.Unexpected()
		}
	}
	return strings.Join(o, " ")
}

func identity(p *P) (string, string) {
	k := ""
	if p.Acc("ALWAYS") {
		k = "ALWAYS"
	} else {
		p.Exp("BY", "DEFAULT")
		k = "BY DEFAULT"
	}
	p.Exp("AS", "IDENTITY")
	return k, seqOpts(p)
}

func (d *DB) colDef(p *P) *colDef {
	cd := &colDef{c: &Col{Name: trunc(p.Ident())}}
	c := cd.c
	if p.Peek().K == Word && serials[strings.ToLower(p.Peek().S)] != "" {
		c.T = T{N: serials[strings.ToLower(p.Next().S)]}
		cd.serial = true
		c.NotNull = true
	} else {
		c.T = d.typ(p.TypeName())
	}
	for {
		k := &consDef{onCol: c.Name, cols: []string{c.Name}}
		if p.Acc("CONSTRAINT") {
			k.name = trunc(p.Ident())
		}
		switch {
		case p.Acc("NOT", "NULL"):
			if cd.null {
				fail("42601", "conflicting NULL/NOT NULL declarations for column %q", c.Name)
			}
			c.NotNull = true
		case p.Acc("NULL"):
			if c.NotNull {
				fail("42601", "conflicting NULL/NOT NULL declarations for column %q of table", c.Name)
			}
			cd.null = true
		case p.Acc("DEFAULT"):
			if cd.def != nil {
				fail("42601", "multiple default values specified for column %q", c.Name)
			}
			cd.def = p.BExpr()
		case p.Acc("PRIMARY", "KEY"):
			k.kind = "p"
			k.attrs(p)
			cd.cons = append(cd.cons, k)
		case p.Acc("UNIQUE"):
			k.kind = "u"
			k.attrs(p)
			cd.cons = append(cd.cons, k)
		case p.Acc("CHECK"):
			k.kind = "c"
			p.Exp("(")
			k.e = p.Expr()
			p.Exp(")")
			k.attrs(p)
			cd.cons = append(cd.cons, k)
		case p.Acc("REFERENCES"):
			d.refs(p, k)
			k.attrs(p)
			cd.cons = append(cd.cons, k)
		case p.Acc("GENERATED"):
			if cd.ident != "" {
				fail("42601", "multiple identity specifications for column %q", c.Name)
			}
			cd.ident, cd.opts = identity(p)
			if cd.null {
				fail("42601", "conflicting NULL/NOT NULL declarations for column %q", c.Name)
			}
			c.NotNull = true
		case p.Acc("COLLATE"):
			q := p.QName()
			c.Coll = q[len(q)-1]
			if c.Coll == "default" {
				c.Coll = ""
			} else if !in(c.Coll, "C", "POSIX", "en_US", "en_US.utf8", "ucs_basic") {
				fail("42704", "collation %q for encoding \"UTF8\" does not exist", c.Coll)
			}
		default:
			if k.name != "" {
				p.Unexpected()
			}
			if cd.serial && (cd.def != nil) {
				fail("42601", "multiple default values specified for column %q", c.Name)
			}
			if cd.ident != "" && cd.def != nil || cd.ident != "" && cd.serial {
				fail("42601", "both default and identity specified for column %q", c.Name)
			}
			if cd.ident != "" && !isInt(c.T) {
				fail("22023", "identity column type must be smallint, integer, or bigint")
			}
			return cd
		}
	}
}

func (d *DB) scopeOf(t *Rel, what string) *scope {
	r := &rte{alias: t.Name, rel: t}
	for _, c := range t.live() {
		r.names = append(r.names, c.Name)
		r.types = append(r.types, c.T)
		r.nums = append(r.nums, c.Num)
	}
	return &scope{d: d, rt: []*rte{r}, table: t, what: what}
}

func (d *DB) defaultExpr(t *Rel, c *Col, e *Expr) *Node {
	sc := &scope{d: d, what: "DEFAULT expressions", table: t}
	if e.K == "null" {
		return nil
	}
	var col bool
	e.Walk(func(x *Expr) { col = col || x.K == "col" })
	if col {
		fail("0A000", "cannot use column reference in DEFAULT expression")
	}
	n := sc.expr(e)
	r := d.coerce(n, c.T, cAssign)
	if r == nil {
		fail("42804", "column %q is of type %s but default expression is of type %s", c.Name, c.T.Show(), n.T.Show())
	}
	if r.K == "const" && r.Null {
		return nil
	}
	return r
}

func (d *DB) addSeq(t *Rel, c *Col, opts string, ident bool) *Rel {
	s := &Rel{OID: d.oid(), Schema: t.Schema, Name: d.chooseRel(t.Schema, t.Name, c.Name, "seq", false), Kind: "S", Table: t.OID, OwnCol: c.Num, Opts: opts, Ident: ident}
	d.Rels = append(d.Rels, s)
	return s
}

func (d *DB) finishCol(t *Rel, cd *colDef) {
	c := cd.c
	if cd.serial {
		s := d.addSeq(t, c, "", false)
		f := &Node{K: "func", S: "nextval", T: tInt8, A: []*Node{cnst(T{N: "regclass"}, s.shown())}, Rel: s.OID}
		c.Def = d.must(f, c.T, cAssign)
	}
	if cd.def != nil {
		c.Def = d.defaultExpr(t, c, cd.def)
	}
	if cd.ident != "" {
		c.Ident = cd.ident
		d.addSeq(t, c, cd.opts, true)
	}
}

func (d *DB) createTable(p *P) {
	ine := p.Acc("IF", "NOT", "EXISTS")
	schema, name := d.target(p.QName())
	name = trunc(name)
	exists := d.get(schema, name) != nil
	t := &Rel{OID: d.oid(), Schema: schema, Name: name, Kind: "r"}
	var cons []*consDef
	var cds []*colDef
	p.Exp("(")
	if !p.Is(")") {
		for {
			if p.Is("CONSTRAINT") || p.Is("PRIMARY", "KEY") || p.Is("UNIQUE") || p.Is("CHECK") || p.Is("FOREIGN", "KEY") {
				cons = append(cons, d.tableCons(p))
			} else {
				cd := d.colDef(p)
				for _, o := range cds {
					if o.c.Name == cd.c.Name {
						fail("42701", "column %q specified more than once", cd.c.Name)
					}
				}
				cds = append(cds, cd)
				cons = append(cons, cd.cons...)
			}
			if !p.Acc(",") {
				break
			}
		}
	}
	p.Exp(")")
	if exists {
		if ine {
			return
		}
		fail("42P07", "relation %q already exists", name)
	}
	for i, cd := range cds {
		cd.c.Num = i + 1
		t.Cols = append(t.Cols, cd.c)
	}
	d.Rels = append(d.Rels, t)
	for _, cd := range cds {
		d.finishCol(t, cd)
	}
	d.addCons(t, cons)
}

// addCons adds constraints in the order the server does: checks, keys (the primary key first), foreign keys.
func (d *DB) addCons(t *Rel, l []*consDef) {
	taken := map[string]bool{}
	for _, c := range l {
		if c.kind == "c" && c.name != "" {
			taken[c.name] = true
		}
	}
	for _, c := range l {
		if c.kind == "c" {
			d.addCheck(t, c, taken)
		}
	}
	var keys []*consDef
	for _, c := range l {
		if c.kind == "p" {
			keys = append([]*consDef{c}, keys...)
		} else if c.kind == "u" {
			keys = append(keys, c)
		}
	}
	n := 0
	for _, c := range keys {
		if c.kind == "p" {
			n++
		}
	}
	if n > 1 || n == 1 && t.pk() != nil {
		fail("42P16", "multiple primary keys for table %q are not allowed", t.Name)
	}
	var done []*consDef
	for _, c := range keys {
		merged := false
		for _, o := range done {
			if strings.Join(o.cols, "\x00") == strings.Join(c.cols, "\x00") && o.dfr == c.dfr && o.idfr == c.idfr {
				if o.name == "" {
					o.name = c.name
				}
				merged = true
				break
			}
		}
		if !merged {
			cc := *c
			done = append(done, &cc)
		}
	}
	for _, c := range done {
		d.addKey(t, c)
	}
	for _, c := range l {
		if c.kind == "f" {
			d.addFK(t, c)
		}
	}
}

func (d *DB) addCheck(t *Rel, c *consDef, taken map[string]bool) {
	n := d.scopeOf(t, "check constraints").boolean(c.e, "CHECK")
	k := &Con{OID: d.oid(), Kind: "c", Expr: n, NoInherit: c.noInh, Name: c.name}
	seen := map[int]bool{}
	n.walk(func(x *Node) {
		if x.K == "var" && !seen[x.Num] {
			seen[x.Num] = true
			k.Cols = append(k.Cols, x.Num)
		}
	})
	if k.Name == "" {
		col := ""
		if len(k.Cols) == 1 {
			col = t.num(k.Cols[0]).Name
		}
		k.Name = d.chooseCon(t.Schema, t.Name, col, "check", taken)
	} else if t.con(k.Name) != nil {
		fail("42710", "constraint %q for relation %q already exists", k.Name, t.Name)
	}
	// conkey is in attribute order
	for i := range k.Cols {
		for j := i + 1; j < len(k.Cols); j++ {
			if k.Cols[j] < k.Cols[i] {
				k.Cols[i], k.Cols[j] = k.Cols[j], k.Cols[i]
			}
		}
	}
	t.Cons = append(t.Cons, k)
}

func (d *DB) keyCols(t *Rel, cols []string) []int {
	var o []int
	seen := map[string]bool{}
	for _, n := range cols {
		c := t.col(trunc(n))
		if c == nil {
			fail("42703", "column %q named in key does not exist", n)
		}
		if seen[n] {
			fail("42701", "column %q appears twice in constraint", n)
		}
		seen[n] = true
		d.btree(c.T)
		o = append(o, c.Num)
	}
	return o
}

func (d *DB) btree(t T) {
	if in(t.N, "json", "xml", "point", "box", "line", "lseg", "path", "polygon", "circle") {
		fail("42704", "data type %s has no default operator class for access method \"btree\"", t.Show())
	}
}

func (d *DB) addKey(t *Rel, c *consDef) {
	nums := d.keyCols(t, c.cols)
	if c.name == "" {
		if c.kind == "p" {
			c.name = d.chooseRel(t.Schema, t.Name, "", "pkey", true)
		} else {
			c.name = d.chooseRel(t.Schema, t.Name, nameAdd(c.cols), "key", true)
		}
	} else {
		if t.con(c.name) != nil {
			fail("42710", "constraint %q for relation %q already exists", c.name, t.Name)
		}
		if d.get(t.Schema, c.name) != nil {
			fail("42P07", "relation %q already exists", c.name)
		}
	}
	x := &Rel{OID: d.oid(), Schema: t.Schema, Name: c.name, Kind: "i", Table: t.OID, Unique: true}
	for _, n := range nums {
		x.Keys = append(x.Keys, Key{Num: n})
		if c.kind == "p" {
			t.num(n).NotNull = true
		}
	}
	d.Rels = append(d.Rels, x)
	t.Cons = append(t.Cons, &Con{OID: d.oid(), Name: c.name, Kind: c.kind, Cols: nums, Idx: x.OID, Deferrable: c.dfr, Deferred: c.idfr})
}

func nameAdd(cols []string) string {
	s := ""
	for i, c := range cols {
		if i > 0 {
			s += "_"
		}
		s += c
		if len(s) >= 64 {
			break
		}
	}
	return s
}

func (d *DB) addFK(t *Rel, c *consDef) {
	r := d.find(c.ref)
	if r == nil {
		fail("42P01", "relation %q does not exist", strings.Join(c.ref, "."))
	}
	if r.Kind != "r" {
		fail("42809", "referenced relation %q is not a table", r.Name)
	}
	k := &Con{Kind: "f", Ref: r.OID, OnUpd: c.upd, OnDel: c.del, Deferrable: c.dfr, Deferred: c.idfr}
	for _, n := range c.cols {
		x := t.col(trunc(n))
		if x == nil {
			fail("42703", "column %q referenced in foreign key constraint does not exist", n)
		}
		k.Cols = append(k.Cols, x.Num)
	}
	if len(c.refc) == 0 {
		pk := r.pk()
		if pk == nil {
			fail("42704", "there is no primary key for referenced table %q", r.Name)
		}
		k.RefCols = append([]int{}, pk.Cols...)
	} else {
		for _, n := range c.refc {
			x := r.col(trunc(n))
			if x == nil {
				fail("42703", "column %q referenced in foreign key constraint does not exist", n)
			}
			k.RefCols = append(k.RefCols, x.Num)
		}
	}
	if len(k.Cols) != len(k.RefCols) {
		fail("42830", "number of referencing and referenced columns for foreign key disagree")
	}
	d.fkIndex(r, k)
	if k.RefIdx == 0 {
		fail("42830", "there is no unique constraint matching given keys for referenced table %q", r.Name)
	}
	name := c.name
	if name == "" {
		name = d.chooseCon(t.Schema, t.Name, nameAdd(c.cols), "fkey", nil)
	} else if t.con(name) != nil {
		fail("42710", "constraint %q for relation %q already exists", name, t.Name)
	}
	k.Name = name
	d.fkTypes(t, r, k)
	k.OID = d.oid()
	t.Cons = append(t.Cons, k)
}

func (d *DB) fkTypes(t, r *Rel, k *Con) {
	for i, n := range k.Cols {
		a, b := r.num(k.RefCols[i]).T.base(), t.num(n).T.base()
		ok := a == b || isInt(a) && isInt(b) || castKind(b, a, cImplicit) != "" || in(a.N, "text", "varchar", "bpchar") && in(b.N, "text", "varchar", "bpchar")
		if !ok && isNum(a) && isNum(b) {
			ok = castKind(b, a, cImplicit) != "" || castKind(a, b, cImplicit) != ""
		}
		if !ok {
			fail("42804", "foreign key constraint %q cannot be implemented: key columns %q and %q are of incompatible types: %s and %s", k.Name, t.num(n).Name, r.num(k.RefCols[i]).Name, b.Show(), a.Show())
		}
	}
}

func (d *DB) fkIndex(r *Rel, k *Con) {
	k.RefIdx = 0
	for _, x := range d.indexes(r) {
		if !x.Unique || x.Where != nil || len(x.Keys) != len(k.RefCols) {
			continue
		}
		ok := true
		for _, n := range k.RefCols {
			f := 0
			for _, y := range x.Keys {
				if y.E == nil && y.Num == n {
					f++
				}
			}
			ok = ok && f == 1
		}
		if ok {
			k.RefIdx = x.OID
			return
		}
	}
}

func (d *DB) createIndex(p *P, unique bool) {
	if p.Acc("CONCURRENTLY") && d.inTx {
		fail("25001", "CREATE INDEX CONCURRENTLY cannot run inside a transaction block")
	}
	ine := p.Acc("IF", "NOT", "EXISTS")
	name := ""
	if !p.Is("ON") {
		name = trunc(p.Ident())
	}
	p.Exp("ON")
	p.Acc("ONLY")
	t := d.tableNamed(p.QName())
	x := &Rel{Schema: t.Schema, Kind: "i", Table: t.OID, Unique: unique, Method: "btree"}
	if p.Acc("USING") {
		switch x.Method = p.Ident(); x.Method {
		case "btree", "hash", "brin":
		case "gin", "gist", "spgist":
			unsupported("index method %s", x.Method)
		default:
			fail("42704", "access method %q does not exist", x.Method)
		}
		if x.Method != "btree" && unique {
			fail("0A000", "access method %q does not support unique indexes", x.Method)
		}
	}
	var add []string
	p.Exp("(")
	for {
		k := Key{}
		if p.Acc("(") {
			e := p.Expr()
			p.Exp(")")
			k.E = d.scopeOf(t, "index expressions").expr(e)
			add = append(add, "expr")
		} else if p.IsIdent() && p.PeekN(1).S == "(" || p.Is("COALESCE") || p.Is("LEFT") {
			e := p.BExpr()
			if e.K != "func" {
				p.Unexpected()
			}
			k.E = d.scopeOf(t, "index expressions").expr(e)
			add = append(add, figure(nil, e))
		} else {
			n := trunc(p.Ident())
			c := t.col(n)
			if c == nil {
				fail("42703", "column %q does not exist", n)
			}
			k.Num = c.Num
			add = append(add, n)
			if !p.IsIdent() || p.Is("NULLS") {
				d.btree(c.T)
			}
		}
		if k.E != nil && k.E.K == "var" {
			k.Num, k.E = k.E.Num, nil
		}
		if p.IsIdent() && !p.Is("NULLS") {
			cl := p.Ident()
			if !in(cl, "text_pattern_ops", "varchar_pattern_ops", "int4_ops", "text_ops") {
				fail("42704", "operator class %q does not exist for access method \"btree\"", cl)
			}
			if cl == "text_pattern_ops" || cl == "varchar_pattern_ops" {
				k.Class = cl
			}
		}
		if p.Acc("DESC") {
			k.Desc = true
		} else {
			p.Acc("ASC")
		}
		if p.Acc("NULLS") {
			if p.Acc("FIRST") {
				k.Nulls = "FIRST"
			} else {
				p.Exp("LAST")
				k.Nulls = "LAST"
			}
		}
		x.Keys = append(x.Keys, k)
		if !p.Acc(",") {
			break
		}
	}
	p.Exp(")")
	if p.Acc("WHERE") {
		x.Where = d.scopeOf(t, "index predicates").boolean(p.Expr(), "WHERE")
	}
	if name == "" {
		label := "idx"
		if unique {
			label = "idx"
		}
		name = d.chooseRel(t.Schema, t.Name, nameAdd(add), label, false)
	}
	if d.get(t.Schema, name) != nil {
		if ine {
			return
		}
		fail("42P07", "relation %q already exists", name)
	}
	x.Name = name
	x.OID = d.oid()
	d.Rels = append(d.Rels, x)
}

func (d *DB) createView(p *P, replace bool) {
	schema, name := d.target(p.QName())
	var names []string
	if p.Is("(") {
		names = p.IdentList()
	}
	p.Exp("AS")
	sel := p.Select()
	q := d.query(sel, nil)
	if len(names) > len(q.Items) {
		fail("42601", "CREATE VIEW specifies more column names than columns")
	}
	v := &Rel{Schema: schema, Name: trunc(name), Kind: "v", Q: q}
	for i, it := range q.Items {
		n := it.Name
		if i < len(names) {
			n = names[i]
		}
		if v.col(n) != nil {
			fail("42701", "column %q specified more than once", n)
		}
		v.Cols = append(v.Cols, &Col{Num: i + 1, Name: n, T: it.N.T})
	}
	old := d.get(schema, v.Name)
	if old == nil {
		v.OID = d.oid()
		d.Rels = append(d.Rels, v)
		return
	}
	if !replace {
		fail("42P07", "relation %q already exists", name)
	}
	if old.Kind != "v" {
		fail("42809", "%q is not a view", name)
	}
	for i, c := range old.Cols {
		if i >= len(v.Cols) {
			fail("42P16", "cannot drop columns from view")
		}
		if v.Cols[i].Name != c.Name {
			fail("42P16", "cannot change name of view column %q to %q", c.Name, v.Cols[i].Name)
		}
		if v.Cols[i].T != c.T {
			fail("42P16", "cannot change data type of view column %q from %s to %s", c.Name, c.T.Show(), v.Cols[i].T.Show())
		}
	}
	old.Q, old.Cols = q, v.Cols
}

func (d *DB) createPolicy(p *P) {
	name := trunc(p.Ident())
	p.Exp("ON")
	t := d.tableNamed(p.QName())
	l := &Pol{Name: name, Permissive: true, Cmd: "ALL"}
	if p.Acc("AS") {
		if p.Acc("RESTRICTIVE") {
			l.Permissive = false
		} else {
			p.Exp("PERMISSIVE")
		}
	}
	if p.Acc("FOR") {
		l.Cmd = p.Next().U
		if !in(l.Cmd, "ALL", "SELECT", "INSERT", "UPDATE", "DELETE") {
			p.I--
			p.Unexpected()
		}
	}
	if p.Acc("TO") {
		pub := false
		for {
			t := p.Peek()
			switch {
			case t.K == Word && t.U == "PUBLIC":
				p.Next()
				pub = true
			case p.Acc("CURRENT_USER"), p.Acc("SESSION_USER"):
				l.Roles = append(l.Roles, "postgres")
			default:
				r := p.Ident()
				if !d.Roles[r] {
					fail("42704", "role %q does not exist", r)
				}
				l.Roles = append(l.Roles, r)
			}
			if !p.Acc(",") {
				break
			}
		}
		if pub {
			l.Roles = nil
		}
	}
	if l.Roles == nil {
		l.Roles = []string{"public"}
	}
	if p.Acc("USING") {
		p.Exp("(")
		e := p.Expr()
		p.Exp(")")
		if l.Cmd == "INSERT" {
			fail("42601", "only WITH CHECK expression allowed for INSERT")
		}
		l.Using = d.scopeOf(t, "policy expressions").boolean(e, "POLICY")
	}
	if p.Acc("WITH", "CHECK") {
		p.Exp("(")
		e := p.Expr()
		p.Exp(")")
		if l.Cmd == "SELECT" || l.Cmd == "DELETE" {
			fail("42601", "WITH CHECK cannot be applied to SELECT or DELETE")
		}
		l.Check = d.scopeOf(t, "policy expressions").boolean(e, "POLICY")
	}
	for _, o := range t.Pols {
		if o.Name == name {
			fail("42710", "policy %q for table %q already exists", name, t.Name)
		}
	}
	t.Pols = append(t.Pols, l)
}

// ---- DROP

func (d *DB) drop(p *P) {
	kind := ""
	switch {
	case p.Acc("TABLE"):
		kind = "r"
	case p.Acc("VIEW"):
		kind = "v"
	case p.Acc("INDEX"):
		kind = "i"
		p.Acc("CONCURRENTLY")
	case p.Acc("SEQUENCE"):
		kind = "S"
	case p.Acc("POLICY"):
		ife := p.Acc("IF", "EXISTS")
		n := p.Ident()
		p.Exp("ON")
		q := p.QName()
		if ife && d.find(q) == nil {
			return
		}
		t := d.tableNamed(q)
		for i, l := range t.Pols {
			if l.Name == n {
				t.Pols = append(append([]*Pol{}, t.Pols[:i]...), t.Pols[i+1:]...)
				return
			}
		}
		if !ife {
			fail("42704", "policy %q for table %q does not exist", n, t.Name)
		}
		return
	case p.Acc("EXTENSION"):
		ife := p.Acc("IF", "EXISTS")
		n := p.Ident()
		if !d.Exts[n] {
			if ife {
				return
			}
			fail("42704", "extension %q does not exist", n)
		}
		for _, t := range d.tables() {
			for _, c := range t.live() {
				if c.T.N == n {
					fail("2BP01", "cannot drop extension %s because other objects depend on it", n)
				}
			}
		}
		delete(d.Exts, n)
		if r := d.get("public", n); r != nil && r.Ext == n {
			d.remove(r.OID)
		}
		return
	case p.Acc("SCHEMA"):
		ife := p.Acc("IF", "EXISTS")
		n := p.Ident()
		casc := p.Acc("CASCADE")
		if !d.hasSchema(n) {
			if ife {
				return
			}
			fail("3F000", "schema %q does not exist", n)
		}
		for {
			var r *Rel
			for _, x := range d.Rels {
				if x.Schema == n && in(x.Kind, "r", "v") {
					r = x
				}
			}
			if r == nil {
				break
			}
			if !casc {
				fail("2BP01", "cannot drop schema %s because other objects depend on it", n)
			}
			d.dropRel(r, true)
		}
		var l []string
		for _, x := range d.Schemas {
			if x != n {
				l = append(l, x)
			}
		}
		d.Schemas = l
		return
	default:
		p.Unexpected()
	}
	ife := p.Acc("IF", "EXISTS")
	var qs [][]string
	for {
		qs = append(qs, p.QName())
		if !p.Acc(",") {
			break
		}
	}
	casc := p.Acc("CASCADE")
	if !casc {
		p.Acc("RESTRICT")
	}
	what := map[string]string{"r": "table", "v": "view", "i": "index", "S": "sequence"}[kind]
	for _, q := range qs {
		r := d.find(q)
		if r == nil {
			if ife {
				continue
			}
			if len(q) == 2 && !d.hasSchema(q[0]) {
				fail("3F000", "schema %q does not exist", q[0])
			}
			code := "42P01"
			if kind == "i" {
				code = "42704"
			}
			fail(code, "%s %q does not exist", what, strings.Join(q, "."))
		}
		if r.Kind != kind {
			fail("42809", "%q is not a %s", r.Name, what)
		}
		d.dropRel(r, casc)
	}
}

func (d *DB) dropRel(r *Rel, casc bool) {
	deny := func(by string) {
		fail("2BP01", "cannot drop %s %s because other objects depend on it: %s", map[string]string{"r": "table", "v": "view", "i": "index", "S": "sequence"}[r.Kind], r.shown(), by)
	}
	switch r.Kind {
	case "i":
		if t, c := d.conOfIdx(r.OID); c != nil {
			fail("2BP01", "cannot drop index %s because constraint %s on table %s requires it", r.shown(), c.Name, t.shown())
		}
		d.dropFKsOn(r, casc, deny)
	case "S":
		for _, t := range d.tables() {
			for _, c := range t.live() {
				if c.Def != nil && c.Def.usesRel(r.OID) {
					if !casc {
						deny("default value for column " + c.Name + " of table " + t.shown())
					}
					c.Def = nil
				}
			}
		}
	case "v":
		for {
			v := d.usesView(r.OID, 0)
			if v == nil {
				break
			}
			if !casc {
				deny("view " + v.shown() + " depends on view " + r.shown())
			}
			d.dropRel(v, true)
		}
	case "r":
		for {
			v := d.usesView(r.OID, 0)
			if v == nil {
				break
			}
			if !casc {
				deny("view " + v.shown() + " depends on table " + r.shown())
			}
			d.dropRel(v, true)
		}
		for _, t := range d.tables() {
			if t.OID == r.OID {
				continue
			}
			for i := 0; i < len(t.Cons); i++ {
				if t.Cons[i].Kind == "f" && t.Cons[i].Ref == r.OID {
					if !casc {
						deny("constraint " + t.Cons[i].Name + " on table " + t.shown() + " depends on table " + r.shown())
					}
					t.Cons = append(append([]*Con{}, t.Cons[:i]...), t.Cons[i+1:]...)
					i--
				}
			}
		}
		for _, x := range append([]*Rel{}, d.Rels...) {
			if (x.Kind == "i" || x.Kind == "S") && x.Table == r.OID {
				d.remove(x.OID)
			}
		}
	}
	d.remove(r.OID)
}

func (n *Node) usesRel(oid int) bool {
	hit := false
	n.walk(func(x *Node) { hit = hit || x.K == "func" && x.Rel == oid })
	return hit
}

// dropFKsOn refuses to drop a unique index that foreign keys of any table use.
func (d *DB) dropFKsOn(x *Rel, casc bool, deny func(string)) {
	for _, t := range d.tables() {
		for i := 0; i < len(t.Cons); i++ {
			if t.Cons[i].Kind == "f" && t.Cons[i].RefIdx == x.OID {
				if !casc {
					deny("constraint " + t.Cons[i].Name + " on table " + t.shown() + " depends on index " + x.shown())
				}
				t.Cons = append(append([]*Con{}, t.Cons[:i]...), t.Cons[i+1:]...)
				i--
			}
		}
	}
}

// ---- ALTER TABLE

func (d *DB) alter(p *P) {
	ife := p.Acc("IF", "EXISTS")
	p.Acc("ONLY")
	q := p.QName()
	if ife && d.find(q) == nil {
		for !p.EOF() {
			p.Next()
		}
		return
	}
	t := d.tableNamed(q)
	for {
		d.action(p, t)
		if !p.Acc(",") {
			return
		}
	}
}

func (d *DB) column(t *Rel, n string) *Col {
	c := t.col(trunc(n))
	if c == nil {
		fail("42703", "column %q of relation %q does not exist", n, t.Name)
	}
	return c
}

func (d *DB) action(p *P, t *Rel) {
	switch {
	case p.Acc("ADD"):
		if p.Is("CONSTRAINT") || p.Is("PRIMARY", "KEY") || p.Is("UNIQUE") || p.Is("CHECK") || p.Is("FOREIGN", "KEY") {
			d.addCons(t, []*consDef{d.tableCons(p)})
			return
		}
		p.Acc("COLUMN")
		ine := p.Acc("IF", "NOT", "EXISTS")
		cd := d.colDef(p)
		if t.col(cd.c.Name) != nil {
			if ine {
				return
			}
			fail("42701", "column %q of relation %q already exists", cd.c.Name, t.Name)
		}
		cd.c.Num = len(t.Cols) + 1
		t.Cols = append(t.Cols, cd.c)
		d.finishCol(t, cd)
		d.addCons(t, cd.cons)
	case p.Acc("DROP", "CONSTRAINT"):
		ife := p.Acc("IF", "EXISTS")
		n := p.Ident()
		casc := p.Acc("CASCADE")
		c := t.con(n)
		if c == nil {
			if ife {
				return
			}
			fail("42704", "constraint %q of relation %q does not exist", n, t.Name)
		}
		d.dropCon(t, c, casc)
	case p.Acc("DROP"):
		p.Acc("COLUMN")
		ife := p.Acc("IF", "EXISTS")
		n := p.Ident()
		casc := p.Acc("CASCADE")
		if !casc {
			p.Acc("RESTRICT")
		}
		if ife && t.col(n) == nil {
			return
		}
		d.dropCol(t, d.column(t, n), casc)
	case p.Acc("ALTER"):
		p.Acc("COLUMN")
		c := d.column(t, p.Ident())
		d.alterCol(p, t, c)
	case p.Acc("ENABLE", "ROW", "LEVEL", "SECURITY"):
		t.RLS = true
	case p.Acc("DISABLE", "ROW", "LEVEL", "SECURITY"):
		t.RLS = false
	case p.Acc("FORCE", "ROW", "LEVEL", "SECURITY"):
		t.Force = true
	case p.Acc("NO", "FORCE", "ROW", "LEVEL", "SECURITY"):
		t.Force = false
	default:
		p.Unexpected()
	}
}

func (d *DB) dropCon(t *Rel, c *Con, casc bool) {
	if c.Idx != 0 {
		x := d.rel(c.Idx)
		d.dropFKsOn(x, casc, func(by string) {
			fail("2BP01", "cannot drop constraint %s on table %s because other objects depend on it: %s", c.Name, t.shown(), by)
		})
		d.remove(c.Idx)
	}
	for i, o := range t.Cons {
		if o.OID == c.OID {
			t.Cons = append(append([]*Con{}, t.Cons[:i]...), t.Cons[i+1:]...)
			return
		}
	}
}

func hasNum(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func (d *DB) dropCol(t *Rel, c *Col, casc bool) {
	deny := func(by string) {
		fail("2BP01", "cannot drop column %s of table %s because other objects depend on it: %s", c.Name, t.shown(), by)
	}
	for {
		v := d.usesView(t.OID, c.Num)
		if v == nil {
			break
		}
		if !casc {
			deny("view " + v.shown())
		}
		d.dropRel(v, true)
	}
	for i := 0; i < len(t.Pols); i++ {
		l := t.Pols[i]
		if uses(l.Using, t.OID, c.Num) || uses(l.Check, t.OID, c.Num) {
			if !casc {
				deny("policy " + l.Name + " on table " + t.shown())
			}
			t.Pols = append(append([]*Pol{}, t.Pols[:i]...), t.Pols[i+1:]...)
			i--
		}
	}
	var gone []*Con
	for _, k := range t.Cons {
		if hasNum(k.Cols, c.Num) {
			gone = append(gone, k)
		}
	}
	for _, o := range d.tables() {
		for i := 0; i < len(o.Cons); i++ {
			k := o.Cons[i]
			if k.Kind == "f" && k.Ref == t.OID && hasNum(k.RefCols, c.Num) && !(o == t && hasNum(k.Cols, c.Num)) {
				if !casc && o != t {
					deny("constraint " + k.Name + " on table " + o.shown())
				}
				if !casc && o == t {
					deny("constraint " + k.Name + " on table " + o.shown())
				}
				o.Cons = append(append([]*Con{}, o.Cons[:i]...), o.Cons[i+1:]...)
				i--
			}
		}
	}
	for _, k := range gone {
		if k.Kind == "f" {
			d.dropCon(t, k, casc)
		}
	}
	for _, k := range gone {
		if k.Kind != "f" {
			if k.Idx != 0 {
				d.dropFKsOn(d.rel(k.Idx), casc, deny)
			}
			d.dropCon(t, k, casc)
		}
	}
	for _, x := range d.indexes(t) {
		hit := uses(x.Where, t.OID, c.Num)
		for _, k := range x.Keys {
			hit = hit || k.E == nil && k.Num == c.Num || uses(k.E, t.OID, c.Num)
		}
		if hit {
			d.dropFKsOn(x, casc, deny)
			d.remove(x.OID)
		}
	}
	for _, s := range append([]*Rel{}, d.Rels...) {
		if s.Kind == "S" && s.Table == t.OID && s.OwnCol == c.Num {
			// a default of another column may use the sequence
			for _, o := range d.tables() {
				for _, oc := range o.live() {
					if oc != c && oc.Def != nil && oc.Def.usesRel(s.OID) {
						if !casc {
							deny("default value for column " + oc.Name + " of table " + o.shown())
						}
						oc.Def = nil
					}
				}
			}
			d.remove(s.OID)
		}
	}
	c.Dropped = true
	c.Name = fmt.Sprintf("........pg.dropped.%d........", c.Num)
	c.NotNull = false
	c.Def = nil
	c.Ident = ""
}

func (d *DB) alterCol(p *P, t *Rel, c *Col) {
	switch {
	case p.Acc("SET", "DATA", "TYPE"), p.Acc("TYPE"):
		nt := d.typ(p.TypeName())
		if p.Acc("COLLATE") {
			p.QName()
		}
		var using *Node
		if p.Acc("USING") {
			using = d.scopeOf(t, "transform expressions").expr(p.Expr())
		}
		d.alterType(t, c, nt, using)
	case p.Acc("SET", "DEFAULT"):
		e := p.Expr()
		if c.Ident != "" {
			fail("42601", "column %q of relation %q is an identity column", c.Name, t.Name)
		}
		c.Def = d.defaultExpr(t, c, e)
	case p.Acc("DROP", "DEFAULT"):
		if c.Ident != "" {
			fail("42601", "column %q of relation %q is an identity column", c.Name, t.Name)
		}
		c.Def = nil
	case p.Acc("SET", "NOT", "NULL"):
		c.NotNull = true
	case p.Acc("DROP", "NOT", "NULL"):
		if c.Ident != "" {
			fail("42601", "column %q of relation %q is an identity column", c.Name, t.Name)
		}
		if pk := t.pk(); pk != nil && hasNum(pk.Cols, c.Num) {
			fail("42P16", "column %q is in a primary key", c.Name)
		}
		c.NotNull = false
	case p.Acc("ADD", "GENERATED"):
		k, o := identity(p)
		if c.Ident != "" {
			fail("55000", "column %q of relation %q is already an identity column", c.Name, t.Name)
		}
		if !isInt(c.T) {
			fail("22023", "identity column type must be smallint, integer, or bigint")
		}
		if !c.NotNull {
			fail("55000", "column %q of relation %q must be declared NOT NULL before identity can be added", c.Name, t.Name)
		}
		if c.Def != nil {
			fail("55000", "column %q of relation %q already has a default value", c.Name, t.Name)
		}
		c.Ident = k
		d.addSeq(t, c, o, true)
	case p.Acc("SET", "GENERATED"):
		if c.Ident == "" {
			fail("55000", "column %q of relation %q is not an identity column", c.Name, t.Name)
		}
		if p.Acc("ALWAYS") {
			c.Ident = "ALWAYS"
		} else {
			p.Exp("BY", "DEFAULT")
			c.Ident = "BY DEFAULT"
		}
	case p.Acc("DROP", "IDENTITY"):
		ife := p.Acc("IF", "EXISTS")
		if c.Ident == "" {
			if ife {
				return
			}
			fail("55000", "column %q of relation %q is not an identity column", c.Name, t.Name)
		}
		c.Ident = ""
		for _, s := range d.Rels {
			if s.Kind == "S" && s.Ident && s.Table == t.OID && s.OwnCol == c.Num {
				d.remove(s.OID)
				break
			}
		}
	default:
		p.Unexpected()
	}
}

func (d *DB) alterType(t *Rel, c *Col, nt T, using *Node) {
	if v := d.usesView(t.OID, c.Num); v != nil {
		fail("0A000", "cannot alter type of a column used by a view or rule: %s", v.shown())
	}
	for _, l := range t.Pols {
		if uses(l.Using, t.OID, c.Num) || uses(l.Check, t.OID, c.Num) {
			fail("0A000", "cannot alter type of a column used in a policy definition")
		}
	}
	src := using
	if src == nil {
		src = &Node{K: "var", S: c.Name, T: c.T}
	}
	if d.coerce(src, nt, cAssign) == nil {
		if using != nil {
			fail("42804", "result of USING clause for column %q cannot be cast automatically to type %s", c.Name, nt.Show())
		}
		fail("42804", "column %q cannot be cast automatically to type %s", c.Name, nt.Show())
	}
	if c.Ident != "" && !isInt(nt) {
		fail("22023", "identity column type must be smallint, integer, or bigint")
	}
	if c.Def != nil {
		def := c.Def
		for def.K == "cast" && def.Fmt == 2 {
			def = def.A[0]
		}
		nd := d.coerce(def, nt, cAssign)
		if nd == nil {
			fail("42804", "default for column %q cannot be cast automatically to type %s", c.Name, nt.Show())
		}
		c.Def = nd
	}
	// what uses the column is remembered as text and made again
	type redo struct {
		con *Con
		idx *Rel
		sql string
		wh  string
	}
	var l []redo
	for _, k := range t.Cons {
		if k.Kind == "c" && hasNum(k.Cols, c.Num) {
			l = append(l, redo{con: k, sql: d.show(k.Expr, false)})
		}
	}
	for _, x := range d.indexes(t) {
		r := redo{idx: x}
		if uses(x.Where, t.OID, c.Num) {
			r.wh = d.show(x.Where, false)
			l = append(l, r)
		}
		for _, k := range x.Keys {
			if uses(k.E, t.OID, c.Num) {
				unsupported("type change under an index expression")
			}
			if k.E == nil && k.Num == c.Num {
				d.btree(nt)
				if k.Class != "" && !isStr(nt) {
					fail("42804", "operator class %q does not accept data type %s", k.Class, nt.Show())
				}
			}
		}
	}
	c.T = nt
	for _, r := range l {
		s := r.sql
		if r.con == nil {
			s = r.wh
		}
		e, err := ParseExpr(s, PG)
		if err != nil {
			unsupported("own rendering %s", s)
		}
		n := d.scopeOf(t, "check constraints").boolean(e, "CHECK")
		if r.con != nil {
			r.con.Expr = n
		} else {
			r.idx.Where = n
		}
	}
	for _, o := range d.tables() {
		for _, k := range o.Cons {
			if k.Kind == "f" && (o == t && hasNum(k.Cols, c.Num) || k.Ref == t.OID && hasNum(k.RefCols, c.Num)) {
				d.fkTypes(o, d.rel(k.Ref), k)
			}
		}
	}
}
