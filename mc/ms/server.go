package ms

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"sort"
	"strings"
	"unicode/utf16"

	sqlite3 "github.com/mattn/go-sqlite3"

	"mc/catq"
	. "mc/sqlx"
	"mc/srv"
)

// Server is a SQL Server model speaking TDS 7.4.
type Server struct {
	srv.Core
	DBs   map[string]*DB
	Users map[string]string
	Seen  []Login
	ev    *catq.Ev
	nconn int
	cur   *cat
}

type Login struct{ User, Password, DB string }

// cat numbers the objects of a database.
type cat struct {
	ids   map[string]int // "schema.name" in lower case -> id
	names map[int]string
	sch   map[int]string
	defs  map[int]string
	cols  map[[2]int]string
	types map[int]string
	rels  []catq.Rel
}

func NewServer() *Server {
	s := &Server{DBs: map[string]*DB{"master": NewDB("master")}, Users: map[string]string{"sa": "Passw0rd"}}
	str := func(v interface{}) string {
		if b, ok := v.([]byte); ok {
			return string(b)
		}
		return fmt.Sprint(v)
	}
	num := func(v interface{}) int {
		n := 0
		fmt.Sscan(str(v), &n)
		return n
	}
	opt := func(x string) []byte {
		if x == "" {
			return nil
		}
		return []byte(x)
	}
	ev, err := catq.New(true, []string{"sys"}, func(c *sqlite3.SQLiteConn, e *catq.Ev) error {
		for n, f := range map[string]interface{}{
			"object_id": func(a ...interface{}) int64 { // 0 for none
				if a[0] == nil {
					return 0
				}
				parts, ok := splitName(str(a[0]))
				if !ok {
					return 0
				}
				if len(parts) == 1 {
					parts = []string{"dbo", parts[0]}
				}
				id := s.cur.ids[strings.ToLower(strings.Join(parts[len(parts)-2:], "\x00"))]
				if len(a) > 1 && a[1] != nil && strings.TrimSpace(strings.ToUpper(str(a[1]))) != s.cur.types[id] {
					return 0
				}
				return int64(id)
			},
			"object_name":        func(a ...interface{}) []byte { return opt(s.cur.names[num(a[0])]) },
			"object_definition":  func(a ...interface{}) []byte { return opt(s.cur.defs[num(a[0])]) },
			"object_schema_name": func(a ...interface{}) string { return s.cur.sch[num(a[0])] },
			"col_name":           func(a, b interface{}) string { return s.cur.cols[[2]int{num(a), num(b)}] },
			"schema_name": func(a ...interface{}) string {
				if len(a) == 0 {
					return "dbo"
				}
				return s.cur.names[-num(a[0])]
			},
			"quotename": func(a string) string { return br(a) },
		} {
			if err := c.RegisterFunc(n, f, false); err != nil {
				return fmt.Errorf("%s: %v", n, err)
			}
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	s.ev = ev
	return s
}

// splitName takes a name of several parts apart.
func splitName(n string) ([]string, bool) {
	var out []string
	for {
		var w string
		n = strings.TrimLeft(n, " ")
		if n != "" && (n[0] == '[' || n[0] == '"') {
			q := map[byte]string{'[': "]", '"': "\""}[n[0]]
			n = n[1:]
			for {
				i := strings.Index(n, q)
				if i < 0 {
					return nil, false
				}
				w += n[:i]
				n = n[i+1:]
				if strings.HasPrefix(n, q) {
					w += q
					n = n[1:]
					continue
				}
				break
			}
		} else {
			i := strings.Index(n, ".")
			if i < 0 {
				i = len(n)
			}
			w, n = strings.TrimRight(n[:i], " "), n[i:]
		}
		out = append(out, w)
		n = strings.TrimLeft(n, " ")
		if n == "" {
			return out, true
		}
		if n[0] != '.' {
			return nil, false
		}
		n = n[1:]
	}
}

func (s *Server) Start() error                       { return s.Listen("tcp", "127.0.0.1:0", s.serve) }
func (s *Server) StartAt(network, addr string) error { return s.Listen(network, addr, s.serve) }
func (s *Server) Serve(c net.Conn)                   { s.serve(c) }

type session struct {
	s    *Server
	c    net.Conn
	db   string
	id   int
	save *DB // what ROLLBACK goes back to, when a transaction is open
	out  []byte
}

func (x *session) read() (kind byte, body []byte) {
	for {
		h := make([]byte, 8)
		if _, err := io.ReadFull(x.c, h); err != nil {
			panic(srv.Hangup{})
		}
		kind = h[0]
		n := int(binary.BigEndian.Uint16(h[2:]))
		if n < 8 {
			panic(srv.Hangup{})
		}
		b := make([]byte, n-8)
		if _, err := io.ReadFull(x.c, b); err != nil {
			panic(srv.Hangup{})
		}
		body = append(body, b...)
		if h[1]&1 == 1 {
			return
		}
	}
}

func (x *session) flush() {
	const max = 4096 - 8
	b := x.out
	x.out = nil
	for i := byte(1); ; i++ {
		n := len(b)
		h := []byte{4, 1, 0, 0, 0, 0, i, 0}
		if n > max {
			n, h[1] = max, 0
		}
		binary.BigEndian.PutUint16(h[2:], uint16(8+n))
		x.c.Write(append(h, b[:n]...))
		b = b[n:]
		if h[1] == 1 {
			return
		}
	}
}

func (x *session) put(b ...byte) { x.out = append(x.out, b...) }
func (x *session) u16(n int)     { x.put(byte(n), byte(n>>8)) }
func (x *session) u32(n int)     { x.put(byte(n), byte(n>>8), byte(n>>16), byte(n>>24)) }
func (x *session) u64(n uint64) {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, n)
	x.put(b...)
}

func utf16le(s string) []byte {
	var b []byte
	for _, u := range utf16.Encode([]rune(s)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return b
}
func ucs2(b []byte) string {
	u := make([]uint16, len(b)/2)
	for i := range u {
		u[i] = binary.LittleEndian.Uint16(b[2*i:])
	}
	return string(utf16.Decode(u))
}
func (x *session) bvar(s string) { b := utf16le(s); x.put(byte(len(b) / 2)); x.put(b...) }

func (x *session) done(status int, rows int) {
	x.put(0xfd)
	x.u16(status)
	x.u16(0)
	x.u64(uint64(rows))
}

func (x *session) err(e error) {
	me, ok := e.(*Err)
	if !ok {
		me = &Err{50000, e.Error()}
	}
	m := utf16le(me.Msg)
	if len(m) > 4000 {
		m = m[:4000]
	}
	n := 4 + 2 + 2 + len(m) + 1 + 1 + 4
	x.put(0xaa)
	x.u16(n)
	x.u32(me.Num)
	x.put(1, 16)
	x.u16(len(m) / 2)
	x.put(m...)
	x.put(0, 0)
	x.u32(1)
	x.done(2, 0)
}

func (x *session) result(r *srv.Result) {
	x.put(0x81)
	x.u16(len(r.Cols))
	for _, c := range r.Cols {
		x.u32(0)
		x.u16(1)
		if c.Kind == "int" {
			x.put(0x26, 8)
		} else {
			x.put(0xe7, 0xff, 0xff, 9, 4, 0xd0, 0, 0x34)
		}
		x.bvar(c.Name)
	}
	for _, row := range r.Rows {
		x.put(0xd1)
		for i, v := range row {
			if r.Cols[i].Kind == "int" {
				if v == nil {
					x.put(0)
				} else {
					x.put(8)
					x.u64(uint64(v.(int64)))
				}
				continue
			}
			if v == nil {
				x.u64(0xffffffffffffffff)
				continue
			}
			b := utf16le(fmt.Sprint(v))
			x.u64(uint64(len(b)))
			if len(b) > 0 {
				x.u32(len(b))
				x.put(b...)
			}
			x.u32(0)
		}
	}
	if r.Err != nil {
		x.err(r.Err)
		return
	}
	x.done(0x10, len(r.Rows))
}

func (x *session) tran(kind byte, fresh bool) {
	x.put(0xe3)
	id := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	if fresh {
		x.u16(1 + 9 + 1)
		x.put(kind, 8)
		x.put(id...)
		x.put(0)
	} else {
		x.u16(1 + 1 + 9)
		x.put(kind, 0, 8)
		x.put(id...)
	}
}

func (s *Server) serve(c net.Conn) {
	s.Mu.Lock()
	s.nconn++
	x := &session{s: s, c: c, id: s.nconn}
	s.Mu.Unlock()
	defer func() { // a connection that goes takes its transaction with it
		s.Mu.Lock()
		if x.save != nil {
			s.DBs[x.db] = x.save
		}
		s.Mu.Unlock()
	}()
	for {
		kind, b := x.read()
		switch kind {
		case 0x12:
			x.put(0, 0, 11, 0, 6, 1, 0, 17, 0, 1, 0xff, 14, 0, 0, 0, 0, 0, 2)
		case 0x10:
			if !x.login(b) {
				return
			}
		case 1:
			q := ucs2(b[binary.LittleEndian.Uint32(b):])
			if !x.run(q) {
				return
			}
		case 3:
			q, err := rpc(b[binary.LittleEndian.Uint32(b):])
			if err != nil {
				s.Mu.Lock()
				s.Inconclusive = err.Error()
				s.Mu.Unlock()
				x.err(err)
				break
			}
			if !x.run(q) {
				return
			}
		case 14:
			b = b[binary.LittleEndian.Uint32(b):]
			q := map[uint16]string{5: "BEGIN TRANSACTION", 7: "COMMIT", 8: "ROLLBACK"}[binary.LittleEndian.Uint16(b)]
			if q == "" {
				x.err(&Err{3989, "model: this transaction request is not modelled"})
				break
			}
			if !x.run(q) {
				return
			}
		case 6: // attention
			x.done(0x20, 0)
		default:
			return
		}
		x.flush()
	}
}

func (x *session) login(b []byte) bool {
	s := x.s
	field := func(at int) []byte {
		off, n := int(binary.LittleEndian.Uint16(b[at:])), int(binary.LittleEndian.Uint16(b[at+2:]))
		return b[off : off+2*n]
	}
	pw := append([]byte{}, field(44)...)
	for i, c := range pw {
		c ^= 0xa5
		pw[i] = c<<4 | c>>4
	}
	l := Login{ucs2(field(40)), ucs2(pw), ucs2(field(68))}
	s.Mu.Lock()
	defer s.Mu.Unlock()
	s.Seen = append(s.Seen, l)
	_, ferr := s.Note(srv.Event{Conn: x.id, Kind: "connect", SQL: l.User + "@" + l.DB})
	want, known := s.Users[l.User]
	db := l.DB
	if db == "" {
		db = "master"
	}
	switch {
	case ferr == srv.ErrHangup:
		return false
	case ferr != nil:
		x.err(ferr)
		x.flush()
		return false
	case !known || want != l.Password:
		x.err(&Err{18456, "Login failed for user '" + l.User + "'."})
		x.flush()
		return false
	case s.DBs[db] == nil:
		x.err(&Err{4060, "Cannot open database \"" + db + "\" requested by the login. The login failed."})
		x.flush()
		return false
	}
	x.db = db
	x.put(0xad)
	name := utf16le("Microsoft SQL Server")
	x.u16(1 + 4 + 1 + len(name) + 4)
	x.put(1, 0x74, 0, 0, 4, byte(len(name)/2))
	x.put(name...)
	x.put(14, 0, 0x0b, 0xb8)
	x.done(0, 0)
	return true
}

// rpc turns a call of sp_executesql into a batch.
func rpc(b []byte) (string, error) {
	bad := fmt.Errorf("model: this remote call is not modelled")
	u16 := func() int { n := int(binary.LittleEndian.Uint16(b)); b = b[2:]; return n }
	if u16() != 0xffff || u16() != 10 {
		return "", bad
	}
	b = b[2:]
	var vals []string
	var names []string
	for len(b) > 0 {
		n := int(b[0])
		names = append(names, ucs2(b[1:1+2*n]))
		b = b[1+2*n+1:]
		ty := b[0]
		b = b[1:]
		v := ""
		switch ty {
		case 0xe7:
			size := u16()
			b = b[5:]
			if size == 0xffff {
				total := binary.LittleEndian.Uint64(b)
				b = b[8:]
				if total == 0xffffffffffffffff {
					v = "NULL"
					break
				}
				var all []byte
				for {
					k := int(binary.LittleEndian.Uint32(b))
					b = b[4:]
					if k == 0 {
						break
					}
					all = append(all, b[:k]...)
					b = b[k:]
				}
				v = ucs2(all)
			} else {
				k := u16()
				if k == 0xffff {
					v = "NULL"
					break
				}
				v = ucs2(b[:k])
				b = b[k:]
			}
			if len(names) > 2 {
				v = "'" + strings.Replace(v, "'", "''", -1) + "'"
			}
		case 0x26, 0x68:
			k := int(b[1])
			b = b[2:]
			if k == 0 {
				v = "NULL"
				break
			}
			var n int64
			for i := k - 1; i >= 0; i-- {
				n = n<<8 | int64(b[i])
			}
			if k == 4 {
				n = int64(int32(n))
			}
			v = fmt.Sprint(n)
			b = b[k:]
		default:
			return "", bad
		}
		vals = append(vals, v)
	}
	if len(vals) == 0 {
		return "", bad
	}
	q := vals[0]
	for i := len(vals) - 1; i >= 2; i-- {
		q = strings.Replace(q, names[i], vals[i], -1)
	}
	return q, nil
}

func kindOf(q string) string {
	p, err := NewP(q, MSSQL)
	if err != nil {
		return "query"
	}
	switch {
	case p.Is("BEGIN", "TRAN") || p.Is("BEGIN", "TRANSACTION"):
		return "begin"
	case p.Is("COMMIT"):
		return "commit"
	case p.Is("ROLLBACK"):
		return "rollback"
	case p.Is("CREATE") || p.Is("ALTER") || p.Is("DROP") || p.Is("INSERT") || p.Is("UPDATE") || p.Is("DELETE") || p.Is("TRUNCATE") || p.Is("MERGE"):
		return "ddl"
	case p.Is("SELECT") || p.Is("SET") || p.Is("USE") || p.Is("WITH"):
		return "query"
	}
	return "other"
}

// run executes a batch and answers; false cuts the connection.
func (x *session) run(q string) bool {
	s := x.s
	s.Mu.Lock()
	defer s.Mu.Unlock()
	k := kindOf(q)
	n, err := s.Note(srv.Event{Conn: x.id, Kind: k, SQL: q, Write: k == "ddl" || k == "other"})
	var r *srv.Result
	switch e := err.(type) {
	case nil:
		switch k {
		case "begin":
			if x.save == nil {
				x.save = s.DBs[x.db].Clone()
			}
			x.tran(8, true)
		case "commit":
			x.save = nil
			x.tran(9, false)
		case "rollback":
			if x.save != nil {
				s.DBs[x.db] = x.save
				x.save = nil
			}
			x.tran(10, false)
		default:
			r, err = s.exec(x.db, q)
			if err != nil {
				s.Log[n].Err = err.Error()
			}
		}
	case srv.RowFault:
		if k == "query" {
			r, err = s.exec(x.db, q)
			if err == nil && r != nil {
				r = e.Cut(r)
			}
		}
	default:
		if err == srv.ErrHangup {
			return false
		}
		if k == "commit" { // a transaction that failed to commit is gone
			if x.save != nil {
				s.DBs[x.db] = x.save
				x.save = nil
			}
			x.tran(10, false)
		}
	}
	switch {
	case err != nil:
		x.err(err)
	case r != nil:
		x.result(r)
	default:
		x.done(0, 0)
	}
	return true
}

// Query is the in-process entry used by the fake clients and checks.
func (s *Server) Query(db, q string) (*srv.Result, error) {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	return s.exec(db, q)
}

// Client is what sqlcmd does.
func (s *Server) Client(db, sql string) (string, error) {
	if db == "" {
		db = "master"
	}
	r, err := s.Query(db, sql)
	if err != nil || r == nil {
		return "", err
	}
	out := ""
	for _, row := range r.Rows {
		var l []string
		for _, v := range row {
			c := "NULL"
			if v != nil {
				c = fmt.Sprint(v)
			}
			l = append(l, fmt.Sprintf("%-128s", c))
		}
		out += strings.Join(l, " ") + "\n"
	}
	return out + fmt.Sprintf("\n(%d rows affected)\n", len(r.Rows)), nil
}

func (s *Server) exec(dbn, q string) (*srv.Result, error) {
	p, err := NewP(q, MSSQL)
	if err != nil {
		return nil, &Err{102, "Incorrect syntax: " + err.Error()}
	}
	switch {
	case p.Acc("CREATE", "DATABASE"):
		n := p.Next().S
		if s.DBs[n] != nil {
			return nil, &Err{1801, "Database '" + n + "' already exists. Choose a different database name."}
		}
		s.DBs[n] = NewDB(n)
		return nil, nil
	case p.Acc("DROP", "DATABASE"):
		ife := p.Acc("IF", "EXISTS")
		n := p.Next().S
		if s.DBs[n] == nil && !ife {
			return nil, &Err{3701, "Cannot drop the database '" + n + "', because it does not exist or you do not have permission."}
		}
		delete(s.DBs, n)
		return nil, nil
	case p.Is("SET"), p.Is("USE"):
		return nil, nil
	case p.Is("SELECT"), p.Is("WITH"):
		return s.eval(dbn, q)
	}
	d := s.DBs[dbn]
	if d == nil {
		return nil, &Err{911, "Database '" + dbn + "' does not exist."}
	}
	return nil, d.Exec(q)
}

// translate turns the catalog dialect of SQL Server into SQLite's.
func translate(q string) (string, error) {
	toks, err := Lex(q, MSSQL)
	if err != nil {
		return "", err
	}
	var b strings.Builder
	last := 0
	type level struct {
		sel   bool // in a select list
		alias string
		top   string
	}
	lv := []level{{}}
	emit := func(t Tok) { b.WriteString(q[last:t.End]); last = t.End }
	end := func(t Tok) {
		l := &lv[len(lv)-1]
		if l.alias != "" {
			b.WriteString(q[last:t.Pos])
			last = t.Pos
			b.WriteString(" AS " + catq.Q(l.alias) + " ")
			l.alias = ""
		}
	}
	prev := Tok{}
	for i := 0; i < len(toks); i++ {
		t := toks[i]
		if t.K == EOF {
			break
		}
		l := &lv[len(lv)-1]
		next := func(k int) Tok {
			if i+k < len(toks) {
				return toks[i+k]
			}
			return Tok{}
		}
		switch {
		case t.K == Word && t.U == "SELECT":
			l.sel = true
		case t.K == Word && t.U == "FROM" && l.sel:
			end(t)
			l.sel = false
		case t.K == Word && t.U == "WITH" && next(1).S == "(":
			b.WriteString(q[last:t.Pos])
			for i < len(toks) && toks[i].S != ")" {
				i++
			}
			last = toks[i].End
			continue
		case t.K == Word && t.U == "ISNULL":
			b.WriteString(q[last:t.Pos] + "IFNULL")
			last = t.End
			prev = t
			continue
		case t.K == Op && t.S == "(":
			lv = append(lv, level{})
		case t.K == Op && t.S == ")" && len(lv) > 1:
			end(t)
			lv = lv[:len(lv)-1]
		case t.K == Op && t.S == "," && l.sel:
			end(t)
		case t.K == Op && t.S == ";":
			b.WriteString(q[last:t.Pos])
			last = t.End
			prev = t
			continue
		case t.K == Str && t.Pre != "":
			b.WriteString(q[last:t.Pos])
			b.WriteString("'" + strings.Replace(t.S, "'", "''", -1) + "'")
			last = t.End
			prev = t
			continue
		case l.sel && (t.K == Word || t.K == Quoted) && (prev.U == "SELECT" || prev.S == ",") && next(1).K == Op && next(1).S == "=":
			b.WriteString(q[last:t.Pos])
			l.alias = t.S
			last = next(1).End
			i++
			prev = toks[i]
			continue
		}
		emit(t)
		prev = t
	}
	b.WriteString(q[last:])
	return b.String(), nil
}

var reserved = regexp.MustCompile(`no such (column|table|function)|syntax error|unrecognized token|ambiguous`)

func (s *Server) eval(dbn, q string) (*srv.Result, error) {
	d := s.DBs[dbn]
	if d == nil {
		return nil, &Err{911, "Database '" + dbn + "' does not exist."}
	}
	if q == "SELECT 1" {
		return &srv.Result{Cols: []srv.Column{{Name: "", Kind: "int"}}, Rows: [][]interface{}{{int64(1)}}}, nil
	}
	t, err := translate(q)
	if err != nil {
		return nil, &Err{102, err.Error()}
	}
	if err := s.ev.Load(nil, func() []catq.Rel { s.cur = d.catalog(); return s.cur.rels }); err != nil {
		return nil, err
	}
	names, rows, err := s.ev.Query(t)
	if err != nil {
		if reserved.MatchString(err.Error()) {
			s.Inconclusive = "catalog query not understood: " + q + ": " + err.Error()
		}
		return nil, &Err{102, err.Error()}
	}
	r := &srv.Result{Rows: rows}
	for i, n := range names {
		k := "int"
		for _, row := range rows {
			if _, ok := row[i].(int64); row[i] != nil && !ok {
				k = "text"
			}
		}
		r.Cols = append(r.Cols, srv.Column{Name: n, Kind: k})
	}
	return r, nil
}

var sysTypes = strings.Fields("image text uniqueidentifier date time datetime2 datetimeoffset tinyint smallint int smalldatetime real money datetime float sql_variant ntext bit decimal numeric smallmoney bigint hierarchyid geometry geography varbinary varchar binary char timestamp nvarchar nchar xml")

// catalog materialises the system views of a database.
func (d *DB) catalog() *cat {
	c := &cat{ids: map[string]int{}, names: map[int]string{}, sch: map[int]string{}, defs: map[int]string{}, cols: map[[2]int]string{}, types: map[int]string{}}
	rel := func(name, cols string) *catq.Rel {
		r := &catq.Rel{Schema: "sys", Name: name}
		for _, w := range strings.Fields(cols) {
			if w[0] == '#' {
				w = w[1:] + " INTEGER"
			}
			r.Cols = append(r.Cols, w)
		}
		return r
	}
	objects := rel("objects", "name #object_id #schema_id #parent_object_id type type_desc #is_ms_shipped")
	allobjects := rel("all_objects", "name #object_id #schema_id #parent_object_id type type_desc #is_ms_shipped")
	tables := rel("tables", "name #object_id #schema_id #parent_object_id type type_desc #is_ms_shipped")
	views := rel("views", "name #object_id #schema_id #parent_object_id type type_desc #is_ms_shipped")
	schemas := rel("schemas", "name #schema_id #principal_id")
	columns := rel("columns", "#object_id name #column_id #system_type_id #user_type_id #max_length #precision #scale collation_name #is_nullable #is_identity #is_computed #default_object_id")
	types := rel("types", "name #system_type_id #user_type_id #schema_id #max_length #precision #scale #is_user_defined")
	checks := rel("check_constraints", "name #object_id #schema_id #parent_object_id type type_desc #is_disabled #is_not_for_replication #parent_column_id definition #is_system_named")
	defaults := rel("default_constraints", "name #object_id #schema_id #parent_object_id type type_desc #parent_column_id definition #is_system_named")
	idents := rel("identity_columns", "#object_id name #column_id #seed_value #increment_value #last_value #is_not_for_replication")
	keys := rel("key_constraints", "name #object_id #schema_id #parent_object_id type type_desc #unique_index_id #is_system_named")
	indexes := rel("indexes", "#object_id name #index_id #type type_desc #is_unique #is_primary_key #is_unique_constraint #fill_factor #is_padded #ignore_dup_key #is_disabled #allow_row_locks #allow_page_locks #has_filter filter_definition")
	stats := rel("stats", "#object_id name #stats_id #auto_created #user_created #no_recompute #is_incremental #has_filter filter_definition")
	icols := rel("index_columns", "#object_id #index_id #index_column_id #column_id #key_ordinal #partition_ordinal #is_descending_key #is_included_column")
	fks := rel("foreign_keys", "name #object_id #schema_id #parent_object_id type type_desc #referenced_object_id #key_index_id #is_disabled #is_not_for_replication #delete_referential_action delete_referential_action_desc #update_referential_action update_referential_action_desc #is_system_named")
	fkcols := rel("foreign_key_columns", "#constraint_object_id #constraint_column_id #parent_object_id #parent_column_id #referenced_object_id #referenced_column_id")
	modules := rel("sql_modules", "#object_id definition")
	allmodules := rel("all_sql_modules", "#object_id definition")
	triggers := rel("triggers", "name #object_id #parent_class #parent_id type type_desc #is_ms_shipped #is_disabled #is_not_for_replication #is_instead_of_trigger")

	add := func(r *catq.Rel, v ...interface{}) { r.Rows = append(r.Rows, v) }
	schID := func(n string) int {
		for i, s := range d.Schemas {
			if s == n {
				if i == 0 {
					return 1
				}
				return i + 4
			}
		}
		return 0
	}
	for _, s := range d.Schemas {
		add(schemas, s, schID(s), 1)
		c.names[-schID(s)] = s
	}
	next := 245575913
	obj := func(schema, name, ty, desc string, parent int) int {
		next += 16
		id := next
		add(objects, name, id, schID(schema), parent, ty, desc, 0)
		add(allobjects, name, id, schID(schema), parent, ty, desc, 0)
		c.ids[strings.ToLower(schema+"\x00"+name)] = id
		c.names[id], c.sch[id], c.types[id] = name, schema, ty
		return id
	}
	for i, n := range sysTypes {
		l := fixedLen[n]
		if l == 0 {
			l = 8000
		}
		add(types, n, 34+i, 34+i, 4, l, 0, 0, 0)
	}
	add(types, "sysname", 34+typeNo("nvarchar"), 256, 4, 256, 0, 0, 0)
	colID := func(t *Table, n string) int {
		for i, c := range t.Cols {
			if eq(c.Name, n) {
				return i + 1
			}
		}
		return 0
	}
	tid := map[*Table]int{}
	find := func(o string) (*Table, *View, *Trigger) {
		for _, t := range d.Tables {
			if t.Schema+"."+t.Name == o {
				return t, nil, nil
			}
		}
		for _, v := range d.Views {
			if v.Schema+"."+v.Name == o {
				return nil, v, nil
			}
		}
		for _, t := range d.Triggers {
			if t.Schema+"."+t.Name == o {
				return nil, nil, t
			}
		}
		return nil, nil, nil
	}
	for _, o := range d.Order {
		t, v, g := find(o)
		switch {
		case t != nil:
			id := obj(t.Schema, t.Name, "U", "USER_TABLE", 0)
			tid[t] = id
			add(tables, t.Name, id, schID(t.Schema), 0, "U", "USER_TABLE", 0)
			for i, k := range t.Cols {
				c.cols[[2]int{id, i + 1}] = k.Name
				def := 0
				if k.Default != nil {
					def = obj(t.Schema, k.Default.Name, "D", "DEFAULT_CONSTRAINT", id)
					c.defs[def] = k.Default.Def
					add(defaults, k.Default.Name, def, schID(t.Schema), id, "D", "DEFAULT_CONSTRAINT", i+1, k.Default.Def, k.Default.Sys)
				}
				var coll interface{}
				if strings.Contains(k.Type, "char") || strings.Contains(k.Type, "text") {
					coll = "SQL_Latin1_General_CP1_CI_AS"
					if k.Collate != "" {
						coll = k.Collate
					}
				}
				add(columns, id, k.Name, i+1, 34+typeNo(k.Type), 34+typeNo(k.Type), k.Len, k.Prec, k.Scale, coll, !k.NotNull, k.Ident != nil, 0, def)
				if k.Ident != nil {
					var seed, incr int64
					fmt.Sscan(k.Ident.Seed, &seed)
					fmt.Sscan(k.Ident.Incr, &incr)
					add(idents, id, k.Name, i+1, seed, incr, nil, k.Ident.NFR)
				}
			}
			for _, k := range t.Checks {
				cid := obj(t.Schema, k.Name, "C", "CHECK_CONSTRAINT", id)
				c.defs[cid] = k.Def
				pc := 0
				if k.Col != "" {
					pc = colID(t, k.Col)
				}
				add(checks, k.Name, cid, schID(t.Schema), id, "C", "CHECK_CONSTRAINT", 0, k.NFR, pc, k.Def, k.Sys)
			}
			no := 2
			heap := true
			for _, x := range t.Idx {
				heap = heap && !x.Clustered
			}
			if heap {
				add(indexes, id, nil, 0, 0, "HEAP", 0, 0, 0, 0, 0, 0, 0, 1, 1, 0, nil)
			}
			idx := append([]*Index{}, t.Idx...)
			sort.SliceStable(idx, func(a, b int) bool { return idx[a].Clustered && !idx[b].Clustered })
			for _, x := range idx {
				n, ty, td := no, 2, "NONCLUSTERED"
				if x.Clustered {
					n, ty, td = 1, 1, "CLUSTERED"
				} else {
					no++
				}
				var w interface{}
				if x.Where != "" {
					w = x.Where
				}
				add(indexes, id, x.Name, n, ty, td, x.Unique, x.Kind == "PK", x.Kind == "UQ", x.Fill, x.Pad, x.IgnoreDup, 0, !x.NoRowLocks, !x.NoPageLocks, x.Where != "", w)
				add(stats, id, x.Name, n, 0, 0, x.NoRecompute, x.Incremental, x.Where != "", w)
				for i, k := range x.Parts {
					add(icols, id, n, i+1, colID(t, k.Col), i+1, 0, k.Desc, 0)
				}
				for i, k := range x.Incl {
					add(icols, id, n, len(x.Parts)+i+1, colID(t, k), 0, 0, 0, 1)
				}
				if x.Kind == "PK" {
					add(keys, x.Name, obj(t.Schema, x.Name, "PK", "PRIMARY_KEY_CONSTRAINT", id), schID(t.Schema), id, "PK", "PRIMARY_KEY_CONSTRAINT", n, x.Sys)
				} else if x.Kind == "UQ" {
					add(keys, x.Name, obj(t.Schema, x.Name, "UQ", "UNIQUE_CONSTRAINT", id), schID(t.Schema), id, "UQ", "UNIQUE_CONSTRAINT", n, x.Sys)
				}
			}
		case v != nil:
			id := obj(v.Schema, v.Name, "V", "VIEW", 0)
			add(views, v.Name, id, schID(v.Schema), 0, "V", "VIEW", 0)
			add(modules, id, v.Text)
			add(allmodules, id, v.Text)
			c.defs[id] = v.Text
			for i, k := range v.Cols {
				c.cols[[2]int{id, i + 1}] = k
				add(columns, id, k, i+1, 34+typeNo("int"), 34+typeNo("int"), 4, 10, 0, nil, 1, 0, 0, 0)
			}
		case g != nil:
			id := obj(g.Schema, g.Name, "TR", "SQL_TRIGGER", 0)
			add(modules, id, g.Text)
			add(allmodules, id, g.Text)
			c.defs[id] = g.Text
			add(triggers, g.Name, id, 1, 0, "TR", "SQL_TRIGGER", 0, 0, 0, g.Time == "INSTEAD OF")
		}
	}
	for _, r := range triggers.Rows {
		_, _, g := find(c.sch[r[1].(int)] + "." + r[0].(string))
		if g != nil {
			if t := d.findTable(g.TSchema, g.Table); t != nil {
				r[3] = tid[t]
			}
		}
	}
	act := map[string]int{"NO_ACTION": 0, "CASCADE": 1, "SET_NULL": 2, "SET_DEFAULT": 3}
	for _, t := range d.Tables {
		for _, f := range t.FKs {
			r := d.findTable(f.RefSchema, f.RefName)
			id := obj(t.Schema, f.Name, "F", "FOREIGN_KEY_CONSTRAINT", tid[t])
			add(fks, f.Name, id, schID(t.Schema), tid[t], "F", "FOREIGN_KEY_CONSTRAINT", tid[r], 1, 0, f.NFR, act[f.OnDel], f.OnDel, act[f.OnUpd], f.OnUpd, f.Sys)
			for i := range f.Cols {
				add(fkcols, id, i+1, tid[t], colID(t, f.Cols[i]), tid[r], colID(r, f.RefCols[i]))
			}
		}
	}
	// objects of the server itself
	add(allobjects, "sp_help", -100, 4, 0, "P", "SQL_STORED_PROCEDURE", 1)
	add(allmodules, -100, "create procedure sys.sp_help as select 1")
	for _, r := range []*catq.Rel{objects, allobjects, tables, views, schemas, columns, types, checks, defaults, idents, keys, indexes, stats, icols, fks, fkcols, modules, allmodules, triggers} {
		c.rels = append(c.rels, *r)
	}
	return c
}

func typeNo(n string) int {
	for i, t := range sysTypes {
		if t == n {
			return i
		}
	}
	return 0
}
