package pg

import (
	"bufio"
	"bytes"
	"database/sql/driver"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	sqlite3 "github.com/mattn/go-sqlite3"

	"mc/catq"
	. "mc/sqlx"
	"mc/srv"
)

// Server is a PostgreSQL model server speaking the frontend/backend protocol, version 3.
type Server struct {
	srv.Core
	DBs   map[string]*DB
	Users map[string]string
	ev    *catq.Ev
	nconn int
	Seen  []Login
}

// Login is what a client presented.
type Login struct {
	User, Password, DB string
	PassOK             bool
	Net                string
}

var (
	tyMu   sync.Mutex
	tyID   = map[T]int{}
	tyList []T
	modID  = map[string]int{}
	mods   []string
)

func typeOID(t T) int {
	tyMu.Lock()
	defer tyMu.Unlock()
	t = t.base()
	if tyID[t] == 0 {
		tyList = append(tyList, t)
		tyID[t] = len(tyList)
	}
	return tyID[t] + 1000
}

func modOf(m string) int {
	if m == "" {
		return -1
	}
	tyMu.Lock()
	defer tyMu.Unlock()
	if modID[m] == 0 {
		mods = append(mods, m)
		modID[m] = len(mods)
	}
	return modID[m] + 3
}

func formatType(oid, mod int) string {
	tyMu.Lock()
	defer tyMu.Unlock()
	if oid <= 1000 || oid > 1000+len(tyList) {
		return "???"
	}
	t := tyList[oid-1001]
	if mod >= 4 && mod-4 < len(mods) {
		t.Mod = mods[mod-4]
	}
	return t.Show()
}

func NewServer() *Server {
	ev, err := catq.New(false, []string{"information_schema"}, func(c *sqlite3.SQLiteConn, e *catq.Ev) error {
		num := func(x interface{}) int {
			n, _ := strconv.Atoi(fmt.Sprint(x))
			return n
		}
		get := func(k string) []byte {
			if s, ok := e.Funcs[k]; ok {
				return []byte(s)
			}
			return nil
		}
		for n, f := range map[string]interface{}{
			"format_type": func(a ...interface{}) string {
				if a[0] == nil {
					return ""
				}
				m := -1
				if len(a) > 1 && a[1] != nil {
					m = num(a[1])
				}
				return formatType(num(a[0]), m)
			},
			"pg_get_constraintdef": func(a ...interface{}) []byte {
				p := len(a) > 1 && num(a[1]) != 0
				return get(fmt.Sprintf("con %v %v", a[0], p))
			},
			"pg_get_expr": func(a ...interface{}) []byte {
				if a[0] == nil {
					return nil
				}
				return []byte(fmt.Sprint(a[0]))
			},
			"pg_get_indexdef": func(a ...interface{}) []byte { return get(fmt.Sprintf("idx %v", a[0])) },
			"pg_get_viewdef":  func(a ...interface{}) []byte { return get(fmt.Sprintf("view %v", a[0])) },
			"mc_any": func(a ...interface{}) int {
				if a[0] == nil || a[1] == nil {
					return 0
				}
				for _, x := range strings.Split(strings.Trim(fmt.Sprint(a[1]), "{}"), ",") {
					if x == fmt.Sprint(a[0]) {
						return 1
					}
				}
				return 0
			},
			"array_length": func(a ...interface{}) []byte {
				if a[0] == nil || fmt.Sprint(a[0]) == "{}" {
					return nil
				}
				return []byte(strconv.Itoa(len(strings.Split(fmt.Sprint(a[0]), ","))))
			},
			"mc_elem": func(a ...interface{}) []byte {
				if a[0] == nil {
					return nil
				}
				l := strings.Split(strings.Trim(fmt.Sprint(a[0]), "{}"), ",")
				if n := num(a[1]); n >= 1 && n <= len(l) {
					return []byte(l[n-1])
				}
				return nil
			},
			"mc_regclass":     func(a ...interface{}) []byte { return get(fmt.Sprintf("reg %v", a[0])) },
			"current_schema":  func(a ...interface{}) string { return "public" },
			"col_description": func(a ...interface{}) []byte { return nil },
			"obj_description": func(a ...interface{}) []byte { return nil },
			"quote_ident":     func(a ...interface{}) string { return qi(fmt.Sprint(a[0])) },
		} {
			if err := c.RegisterFunc(n, f, true); err != nil {
				return err
			}
		}
		return nil
	})
	if err != nil {
		panic(err)
	}
	return &Server{DBs: map[string]*DB{"postgres": NewDB("postgres")}, Users: map[string]string{"postgres": ""}, ev: ev}
}

func (s *Server) Start() error { return s.Listen("tcp", "127.0.0.1:0", s.serve) }

func (s *Server) StartAt(network, addr string) error { return s.Listen(network, addr, s.serve) }

func (s *Server) Serve(c net.Conn) { s.serve(c) }

type stmt struct {
	q string
	n int
}

type session struct {
	s      *Server
	c      net.Conn
	r      *bufio.Reader
	out    bytes.Buffer
	db     string
	id     int
	status byte // I T E
	snap   *DB
	stmts  map[string]*stmt
	bound  *stmt
	params []driver.Value
	skip   bool
}

func (x *session) msg(t byte, b []byte) {
	x.out.WriteByte(t)
	binary.Write(&x.out, binary.BigEndian, int32(len(b)+4))
	x.out.Write(b)
}

func (x *session) flush() {
	x.c.Write(x.out.Bytes())
	x.out.Reset()
}

func (x *session) read() (byte, []byte) {
	h := make([]byte, 5)
	if _, err := io.ReadFull(x.r, h); err != nil {
		panic(srv.Hangup{})
	}
	n := int(binary.BigEndian.Uint32(h[1:])) - 4
	if n < 0 || n > 1<<26 {
		panic(srv.Hangup{})
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(x.r, b); err != nil {
		panic(srv.Hangup{})
	}
	return h[0], b
}

func (x *session) err(sev string, e error) {
	pe, ok := e.(*Err)
	if !ok {
		pe = &Err{"XX000", e.Error()}
	}
	var b bytes.Buffer
	for _, f := range [][2]string{{"S", sev}, {"V", sev}, {"C", pe.State}, {"M", pe.Msg}} {
		b.WriteString(f[0] + f[1] + "\x00")
	}
	b.WriteByte(0)
	x.msg('E', b.Bytes())
}

func (x *session) ready() {
	x.msg('Z', []byte{x.status})
	x.flush()
}

func cstr(b []byte) (string, []byte) {
	i := bytes.IndexByte(b, 0)
	if i < 0 {
		return string(b), nil
	}
	return string(b[:i]), b[i+1:]
}

func (s *Server) serve(c net.Conn) {
	s.Mu.Lock()
	s.nconn++
	id := s.nconn
	s.Mu.Unlock()
	x := &session{s: s, c: c, r: bufio.NewReader(c), id: id, status: 'I', stmts: map[string]*stmt{}}
	var par map[string]string
	for {
		h := make([]byte, 8)
		if _, err := io.ReadFull(x.r, h); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h)) - 8
		code := binary.BigEndian.Uint32(h[4:])
		if n < 0 || n > 1<<16 {
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(x.r, b); err != nil {
			return
		}
		if code == 80877103 {
			c.Write([]byte{'N'})
			continue
		}
		if code != 196608 {
			return
		}
		par = map[string]string{}
		for len(b) > 1 {
			var k, v string
			k, b = cstr(b)
			v, b = cstr(b)
			par[k] = v
		}
		break
	}
	user, db := par["user"], par["database"]
	if db == "" {
		db = user
	}
	s.Mu.Lock()
	pw, known := s.Users[user]
	s.Mu.Unlock()
	given := ""
	if pw != "" || !known {
		x.msg('R', []byte{0, 0, 0, 3})
		x.flush()
		t, b := x.read()
		if t != 'p' {
			return
		}
		given, _ = cstr(b)
	}
	ok := known && (pw == "" || given == pw)
	s.Mu.Lock()
	s.Seen = append(s.Seen, Login{User: user, Password: given, DB: db, PassOK: ok, Net: c.LocalAddr().Network()})
	_, ferr := s.Note(srv.Event{Conn: id, Kind: "connect", SQL: user + "@" + db})
	dbok := s.DBs[db] != nil
	s.Mu.Unlock()
	switch {
	case ferr == srv.ErrHangup:
		return
	case ferr != nil:
		x.err("FATAL", ferr)
		x.flush()
		return
	case !ok:
		x.err("FATAL", &Err{"28P01", "password authentication failed for user \"" + user + "\""})
		x.flush()
		return
	case !dbok:
		x.err("FATAL", &Err{"3D000", "database \"" + db + "\" does not exist"})
		x.flush()
		return
	}
	x.db = db
	x.msg('R', []byte{0, 0, 0, 0})
	for _, kv := range [][2]string{{"server_version", "12.99"}, {"client_encoding", "UTF8"}, {"server_encoding", "UTF8"}, {"DateStyle", "ISO, MDY"}, {"TimeZone", "UTC"}, {"integer_datetimes", "on"}, {"standard_conforming_strings", "on"}} {
		x.msg('S', []byte(kv[0]+"\x00"+kv[1]+"\x00"))
	}
	x.msg('K', []byte{0, 0, 0, 1, 0, 0, 0, 1})
	x.ready()
	defer func() {
		s.Mu.Lock()
		defer s.Mu.Unlock()
		x.rollback()
	}()
	for {
		t, b := x.read()
		if x.skip && t != 'S' && t != 'X' {
			continue
		}
		switch t {
		case 'X':
			return
		case 'Q':
			q, _ := cstr(b)
			if !x.simple(q) {
				return
			}
			x.ready()
		case 'P':
			name, r := cstr(b)
			q, _ := cstr(r)
			st := &stmt{q: q, n: params(q)}
			if _, err := NewP(q, PG); err != nil {
				x.fail(&Err{"42601", err.Error()})
				continue
			}
			x.stmts[name] = st
			x.msg('1', nil)
		case 'D':
			name, _ := cstr(b[1:])
			st := x.stmts[name]
			if b[0] != 'S' {
				st = x.bound
			}
			if st == nil {
				x.fail(&Err{"26000", "prepared statement does not exist"})
				continue
			}
			if b[0] == 'S' {
				var p bytes.Buffer
				binary.Write(&p, binary.BigEndian, int16(st.n))
				for i := 0; i < st.n; i++ {
					binary.Write(&p, binary.BigEndian, int32(25))
				}
				x.msg('t', p.Bytes())
			}
			if kindOf(st.q) != "query" {
				x.msg('n', nil)
				continue
			}
			s.Mu.Lock()
			r, err := s.eval(x.db, st.q, make([]driver.Value, st.n))
			s.Mu.Unlock()
			if err != nil {
				x.fail(err)
				continue
			}
			x.rowdesc(r)
		case 'B':
			_, r := cstr(b)
			name, r := cstr(r)
			x.bound = x.stmts[name]
			if x.bound == nil {
				x.fail(&Err{"26000", "prepared statement does not exist"})
				continue
			}
			nf := int(binary.BigEndian.Uint16(r))
			r = r[2+2*nf:]
			np := int(binary.BigEndian.Uint16(r))
			r = r[2:]
			x.params = nil
			for i := 0; i < np; i++ {
				n := int(int32(binary.BigEndian.Uint32(r)))
				r = r[4:]
				if n < 0 {
					x.params = append(x.params, nil)
					continue
				}
				x.params = append(x.params, string(r[:n]))
				r = r[n:]
			}
			x.msg('2', nil)
		case 'E':
			if x.bound == nil {
				x.fail(&Err{"34000", "portal does not exist"})
				continue
			}
			s.Mu.Lock()
			r, tag, err := s.query(x, x.bound.q, x.params)
			s.Mu.Unlock()
			if err == io.EOF {
				return
			}
			if err != nil {
				x.fail(err)
				continue
			}
			if r != nil {
				if e := x.rows(r); e != nil {
					x.fail(e)
					continue
				}
			}
			x.msg('C', []byte(tag+"\x00"))
		case 'C':
			name, _ := cstr(b[1:])
			delete(x.stmts, name)
			x.msg('3', nil)
		case 'H':
			x.flush()
		case 'S':
			x.skip = false
			x.ready()
		default:
			x.err("FATAL", &Err{"08P01", "invalid frontend message type"})
			x.flush()
			return
		}
	}
}

// fail reports an error in the extended protocol: everything up to the next Sync is skipped.
func (x *session) fail(e error) {
	x.err("ERROR", e)
	x.skip = true
	if x.status == 'T' {
		x.status = 'E'
	}
}

func params(q string) int {
	p, err := NewP(q, PG)
	if err != nil {
		return 0
	}
	m := 0
	for _, t := range p.T {
		if t.K == Param {
			if n, _ := strconv.Atoi(strings.TrimPrefix(t.S, "$")); n > m {
				m = n
			}
		}
	}
	return m
}

func (x *session) rowdesc(r *srv.Result) {
	var b bytes.Buffer
	binary.Write(&b, binary.BigEndian, int16(len(r.Cols)))
	for _, c := range r.Cols {
		b.WriteString(c.Name + "\x00")
		binary.Write(&b, binary.BigEndian, int32(0))
		binary.Write(&b, binary.BigEndian, int16(0))
		binary.Write(&b, binary.BigEndian, int32(25))
		binary.Write(&b, binary.BigEndian, int16(-1))
		binary.Write(&b, binary.BigEndian, int32(-1))
		binary.Write(&b, binary.BigEndian, int16(0))
	}
	x.msg('T', b.Bytes())
}

func (x *session) rows(r *srv.Result) error {
	for _, row := range r.Rows {
		var b bytes.Buffer
		binary.Write(&b, binary.BigEndian, int16(len(row)))
		for _, v := range row {
			if v == nil {
				binary.Write(&b, binary.BigEndian, int32(-1))
				continue
			}
			s := fmt.Sprint(v)
			binary.Write(&b, binary.BigEndian, int32(len(s)))
			b.WriteString(s)
		}
		x.msg('D', b.Bytes())
	}
	return r.Err
}

// simple runs a query string; several statements are one implicit transaction.
func (x *session) simple(q string) bool {
	s := x.s
	s.Mu.Lock()
	defer s.Mu.Unlock()
	st, err := SplitStatements(q, PG)
	if err != nil {
		st = []string{q}
	}
	if len(st) == 0 {
		if _, err := s.Note(srv.Event{Conn: x.id, Kind: "other", SQL: q}); err == srv.ErrHangup {
			return false
		}
		x.msg('I', nil)
		return true
	}
	var before *DB
	if x.status == 'I' && s.DBs[x.db] != nil && len(st) > 1 {
		before = s.DBs[x.db].Clone()
	}
	for _, one := range st {
		r, tag, err := s.query(x, one, nil)
		if err == io.EOF {
			if before != nil {
				s.DBs[x.db] = before
			}
			return false
		}
		if err == nil && r != nil {
			x.rowdesc(r)
			err = x.rows(r)
		}
		if err != nil {
			x.err("ERROR", err)
			if x.status == 'T' {
				x.status = 'E'
			}
			if before != nil && x.status == 'I' {
				s.DBs[x.db] = before
			}
			return true
		}
		x.msg('C', []byte(tag+"\x00"))
	}
	return true
}

func (x *session) rollback() {
	if x.snap != nil {
		x.s.DBs[x.db] = x.snap
		x.snap = nil
	}
	x.status = 'I'
}

func kindOf(q string) string {
	p, err := NewP(q, PG)
	if err != nil {
		return "query"
	}
	switch {
	case p.Is("START", "TRANSACTION") || p.Is("BEGIN"):
		return "begin"
	case p.Is("COMMIT") || p.Is("END"):
		return "commit"
	case p.Is("ROLLBACK") || p.Is("ABORT"):
		return "rollback"
	case p.Is("CREATE") || p.Is("ALTER") || p.Is("DROP") || p.Is("INSERT") || p.Is("UPDATE") || p.Is("DELETE") || p.Is("TRUNCATE") || p.Is("COMMENT") || p.Is("GRANT") || p.Is("REVOKE") || p.Is("DO") || p.Is("CALL"):
		return "ddl"
	case p.Is("SELECT") || p.Is("SHOW") || p.Is("WITH") || p.Is("EXPLAIN") || p.Is("SET"):
		return "query"
	}
	return "other"
}

func (s *Server) query(x *session, q string, args []driver.Value) (*srv.Result, string, error) {
	k := kindOf(q)
	n, err := s.Note(srv.Event{Conn: x.id, Kind: k, SQL: q, Write: k == "ddl" || k == "other"})
	if err != nil {
		if err == srv.ErrHangup {
			return nil, "", io.EOF
		}
		if rf, ok := err.(srv.RowFault); ok && k == "query" {
			r, err := s.eval(x.db, q, args)
			if err == nil {
				r = rf.Cut(r)
			}
			return r, "SELECT", err
		}
		if k == "commit" {
			x.rollback()
		}
		return nil, "", err
	}
	d := s.DBs[x.db]
	switch k {
	case "begin":
		if x.status == 'I' && d != nil {
			x.snap = d.Clone()
			d.inTx = true
			x.status = 'T'
		}
		return nil, "BEGIN", nil
	case "commit":
		tag := "COMMIT"
		if x.status == 'E' {
			x.rollback()
			tag = "ROLLBACK"
		}
		if d := s.DBs[x.db]; d != nil {
			d.inTx = false
		}
		x.snap = nil
		x.status = 'I'
		return nil, tag, nil
	case "rollback":
		x.rollback()
		return nil, "ROLLBACK", nil
	}
	if x.status == 'E' {
		err := &Err{"25P02", "current transaction is aborted, commands ignored until end of transaction block"}
		s.Log[n].Err = err.Error()
		return nil, "", err
	}
	if k == "query" {
		p, _ := NewP(q, PG)
		if p != nil && (p.Is("SET") || p.Is("SHOW")) {
			return nil, "SET", nil
		}
		r, err := s.eval(x.db, q, args)
		if err != nil {
			s.Log[n].Err = err.Error()
			return nil, "", err
		}
		return r, fmt.Sprintf("SELECT %d", len(r.Rows)), nil
	}
	if err := s.ddl(x.db, q); err != nil {
		s.Log[n].Err = err.Error()
		return nil, "", err
	}
	w := strings.Fields(q)
	tag := strings.ToUpper(w[0])
	if len(w) > 1 {
		tag += " " + strings.ToUpper(w[1])
	}
	return nil, tag, nil
}

func (s *Server) ddl(dbn, q string) error {
	p, err := NewP(q, PG)
	if err != nil {
		return &Err{"42601", err.Error()}
	}
	switch {
	case p.Acc("CREATE", "DATABASE"):
		n := p.Next().S
		if s.DBs[n] != nil {
			return &Err{"42P04", "database \"" + n + "\" already exists"}
		}
		s.DBs[n] = NewDB(n)
		return nil
	case p.Acc("DROP", "DATABASE"):
		ife := p.Acc("IF", "EXISTS")
		n := p.Next().S
		if s.DBs[n] == nil && !ife {
			return &Err{"3D000", "database \"" + n + "\" does not exist"}
		}
		delete(s.DBs, n)
		return nil
	}
	d := s.DBs[dbn]
	if d == nil {
		return &Err{"3D000", "database does not exist"}
	}
	return d.Exec(q)
}

// Client is what "psql db -c sql" does.
func (s *Server) Client(db, sql string) (string, error) {
	if db == "" {
		db = "postgres"
	}
	st, err := SplitStatements(sql, PG)
	if err != nil {
		return "", err
	}
	s.Mu.Lock()
	defer s.Mu.Unlock()
	for _, q := range st {
		if kindOf(q) == "query" {
			continue
		}
		if err := s.ddl(db, q); err != nil {
			return "", err
		}
	}
	return "", nil
}

func cols(n ...string) []srv.Column {
	var o []srv.Column
	for _, x := range n {
		o = append(o, srv.Column{Name: x, Kind: "text"})
	}
	return o
}

// rewrite turns a catalog query into SQLite's dialect, token by token.
func rewrite(q string) (string, error) {
	p, err := NewP(strings.TrimSuffix(strings.TrimSpace(q), ";"), PG)
	if err != nil {
		return "", err
	}
	var out []string
	text := func(t Tok) string {
		switch t.K {
		case Param:
			return "?" + strings.TrimPrefix(t.S, "$")
		case Str:
			return "'" + strings.Replace(t.S, "'", "''", -1) + "'"
		case Quoted:
			return `"` + strings.Replace(t.S, `"`, `""`, -1) + `"`
		case Word:
			if in(t.U, "CHECK", "TABLE", "COLUMN", "INDEX") {
				return `"` + strings.ToLower(t.S) + `"`
			}
			return strings.ToLower(t.S)
		}
		return p.Src[t.Pos:t.End]
	}
	group := func() []string { // a parenthesised group, the opening one already read
		depth := 1
		l := []string{"("}
		for depth > 0 && !p.EOF() {
			t := p.Next()
			if t.S == "(" && t.K == Op {
				depth++
			} else if t.S == ")" && t.K == Op {
				depth--
			}
			l = append(l, text(t))
		}
		return l
	}
	// last operand in out
	operand := func() int {
		i := len(out) - 1
		if i >= 0 && out[i] == ")" {
			d := 0
			for i >= 0 {
				if out[i] == ")" {
					d++
				}
				if out[i] == "(" {
					d--
					if d == 0 {
						break
					}
				}
				i--
			}
			if i > 0 && len(out[i-1]) > 0 && isWordByte(out[i-1][0]) && !in(out[i-1], "and", "or", "not", "in", "where", "on", "any") {
				i--
			}
		}
		for i >= 2 && out[i-1] == "." {
			i -= 2
		}
		if i < 0 {
			i = 0
		}
		return i
	}
	for !p.EOF() {
		t := p.Peek()
		switch {
		case t.K == Word && t.U == "PG_CATALOG" && p.PeekN(1).S == ".":
			p.I += 2
		case t.K == Op && t.S == "::":
			p.Next()
			n := p.TypeName()
			if n == "regclass" {
				i := operand()
				arg := append([]string{"mc_regclass", "("}, out[i:]...)
				out = append(append([]string{}, out[:i]...), append(arg, ")")...)
			}
		case t.K == Op && t.S == "=" && p.PeekN(1).K == Word && p.PeekN(1).U == "ANY":
			p.I += 2
			p.Exp("(")
			g := group()
			i := operand()
			x := append([]string{}, out[i:]...)
			out = append(out[:i:i], "mc_any", "(")
			out = append(out, x...)
			out = append(out, ",")
			out = append(out, g...)
			out = append(out, ")")
		case t.K == Word && t.U == "ILIKE":
			p.Next()
			out = append(out, "like")
		case t.K == Word && t.U == "ARRAY_LENGTH":
			// a number, which SQLite doesn't compare with the text a function returns
			p.Next()
			p.Exp("(")
			out = append(append(out, "CAST", "(", "array_length"), group()...)
			out = append(out, "AS", "INTEGER", ")")
		case t.K == Op && t.S == "[" && len(out) > 0 && p.PeekN(2).S == "]":
			p.Next()
			n := text(p.Next())
			p.Next()
			i := operand()
			x := append([]string{}, out[i:]...)
			out = append(out[:i:i], "CAST", "(", "mc_elem", "(")
			out = append(out, x...)
			out = append(out, ",", n, ")", "AS", "INTEGER", ")")
		default:
			out = append(out, text(p.Next()))
		}
	}
	s := strings.Join(out, " ")
	s = strings.Replace(s, " . ", ".", -1)
	return s, nil
}

func isWordByte(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '"'
}

func bit(b bool) interface{} {
	if b {
		return 1
	}
	return 0
}

func yes(b bool) string {
	if b {
		return "YES"
	}
	return "NO"
}

func nums(l []int) interface{} {
	if l == nil {
		return nil
	}
	var o []string
	for _, n := range l {
		o = append(o, strconv.Itoa(n))
	}
	return "{" + strings.Join(o, ",") + "}"
}

func (s *Server) eval(dbn, q string, args []driver.Value) (*srv.Result, error) {
	d := s.DBs[dbn]
	if d == nil {
		return nil, &Err{"3D000", "database does not exist"}
	}
	var extra map[string]string
	err := s.ev.Load(nil, func() []catq.Rel {
		r, f := d.catalog()
		extra = f
		return r
	})
	if err != nil {
		return nil, err
	}
	for k, v := range extra {
		s.ev.Funcs[k] = v
	}
	rq, err := rewrite(q)
	if err != nil {
		return nil, &Err{"42601", err.Error()}
	}
	c, rows, err := s.ev.Query(rq, args...)
	if err != nil {
		s.Inconclusive = "catalog query not understood: " + q + " (" + rq + "): " + err.Error()
		return nil, &Err{"42601", err.Error()}
	}
	return &srv.Result{Cols: cols(c...), Rows: rows}, nil
}

// catalog materialises the system catalogs and the information schema.
func (d *DB) catalog() ([]catq.Rel, map[string]string) {
	f := map[string]string{}
	is := func(name string, cols ...string) *catq.Rel {
		return &catq.Rel{Schema: "information_schema", Name: name, Cols: cols}
	}
	pc := func(name string, cols ...string) *catq.Rel { return &catq.Rel{Name: name, Cols: cols} }
	tables := is("tables", "table_catalog", "table_schema", "table_name", "table_type", "is_insertable_into")
	columns := is("columns", "table_catalog", "table_schema", "table_name", "column_name", "ordinal_position INTEGER", "column_default", "is_nullable", "data_type", "character_maximum_length INTEGER",
		"numeric_precision INTEGER", "numeric_scale INTEGER", "datetime_precision INTEGER", "udt_schema", "udt_name", "is_identity", "identity_generation", "identity_start", "identity_increment", "identity_maximum", "identity_minimum", "identity_cycle", "is_generated", "generation_expression", "collation_name", "interval_type")
	tcons := is("table_constraints", "constraint_catalog", "constraint_schema", "constraint_name", "table_catalog", "table_schema", "table_name", "constraint_type", "is_deferrable", "initially_deferred")
	kcu := is("key_column_usage", "constraint_catalog", "constraint_schema", "constraint_name", "table_catalog", "table_schema", "table_name", "column_name", "ordinal_position INTEGER", "position_in_unique_constraint INTEGER")
	ccu := is("constraint_column_usage", "table_catalog", "table_schema", "table_name", "column_name", "constraint_catalog", "constraint_schema", "constraint_name")
	rc := is("referential_constraints", "constraint_catalog", "constraint_schema", "constraint_name", "unique_constraint_catalog", "unique_constraint_schema", "unique_constraint_name", "match_option", "update_rule", "delete_rule")
	chk := is("check_constraints", "constraint_catalog", "constraint_schema", "constraint_name", "check_clause")
	iviews := is("views", "table_catalog", "table_schema", "table_name", "view_definition", "check_option", "is_updatable")
	seqs := is("sequences", "sequence_catalog", "sequence_schema", "sequence_name")
	views := pc("pg_views", "schemaname", "viewname", "viewowner", "definition")
	indexes := pc("pg_indexes", "schemaname", "tablename", "indexname", "tablespace", "indexdef")
	policies := pc("pg_policies", "schemaname", "tablename", "policyname", "permissive", "roles", "cmd", "qual", "with_check")
	attr := pc("pg_attribute", "attrelid INTEGER", "attname", "atttypid INTEGER", "attnum INTEGER", "atttypmod INTEGER", "attnotnull INTEGER", "atthasdef INTEGER", "attidentity", "attisdropped INTEGER", "attndims INTEGER")
	class := pc("pg_class", "oid INTEGER", "relname", "relnamespace INTEGER", "relkind", "relhasindex INTEGER", "relrowsecurity INTEGER", "relforcerowsecurity INTEGER", "relispartition INTEGER", "relpersistence")
	typ := pc("pg_type", "oid INTEGER", "typname", "typnamespace INTEGER", "typtype", "typelem INTEGER")
	adef := pc("pg_attrdef", "oid INTEGER", "adrelid INTEGER", "adnum INTEGER", "adbin", "adsrc")
	ns := pc("pg_namespace", "oid INTEGER", "nspname")
	con := pc("pg_constraint", "oid INTEGER", "conname", "connamespace INTEGER", "contype", "condeferrable INTEGER", "condeferred INTEGER", "conrelid INTEGER", "conindid INTEGER", "confrelid INTEGER", "confupdtype", "confdeltype", "conkey", "confkey", "connoinherit INTEGER", "consrc")
	idx := pc("pg_index", "indexrelid INTEGER", "indrelid INTEGER", "indnatts INTEGER", "indisunique INTEGER", "indisprimary INTEGER", "indkey", "indpred", "indexprs")
	ptabs := pc("pg_tables", "schemaname", "tablename", "tableowner", "hasindexes INTEGER", "rowsecurity INTEGER")
	pext := pc("pg_extension", "oid INTEGER", "extname")
	pdep := pc("pg_depend", "classid INTEGER", "objid INTEGER", "objsubid INTEGER", "refclassid INTEGER", "refobjid INTEGER", "refobjsubid INTEGER", "deptype")
	add := func(r *catq.Rel, v ...interface{}) { r.Rows = append(r.Rows, v) }
	nsOID := map[string]int{"pg_catalog": 11, "information_schema": 12}
	add(ns, 11, "pg_catalog")
	add(ns, 12, "information_schema")
	for i, n := range d.Schemas {
		nsOID[n] = 2200 + i
		add(ns, 2200+i, n)
	}
	types := map[int]T{}
	// what the system itself brings
	add(tables, d.Name, "pg_catalog", "pg_class", "BASE TABLE", "YES")
	add(tables, d.Name, "pg_catalog", "pg_views", "VIEW", "NO")
	add(tables, d.Name, "information_schema", "sql_features", "BASE TABLE", "NO")
	add(tables, d.Name, "information_schema", "tables", "VIEW", "NO")
	add(views, "pg_catalog", "pg_views", "postgres", " SELECT 1;")
	add(views, "information_schema", "tables", "postgres", " SELECT 1;")
	for n := range d.Exts {
		add(pext, 90, n)
	}
	for _, r := range d.Rels {
		f["reg "+r.shown()] = strconv.Itoa(r.OID)
		f["reg "+r.full()] = strconv.Itoa(r.OID)
		add(class, r.OID, r.Name, nsOID[r.Schema], r.Kind, bit(r.Kind == "r" && len(d.indexes(r)) > 0), bit(r.RLS), bit(r.Force), 0, "p")
		for _, c := range r.Cols {
			id := typeOID(c.T)
			if c.Dropped {
				add(attr, r.OID, c.Name, 0, c.Num, -1, 0, 0, "", 1, 0)
				continue
			}
			types[id] = c.T.base()
			ident := map[string]string{"ALWAYS": "a", "BY DEFAULT": "d", "": ""}[c.Ident]
			add(attr, r.OID, c.Name, id, c.Num, modOf(c.T.Mod), bit(c.NotNull), bit(c.Def != nil), ident, 0, 0)
			if c.Def != nil {
				add(adef, r.OID*10+c.Num, r.OID, c.Num, d.show(c.Def, false), d.show(c.Def, false))
			}
			if r.Kind != "r" && r.Kind != "v" {
				continue
			}
			var def, max, ig, prec, scale, dt, coll interface{}
			if c.Def != nil {
				def = d.show(c.Def, false)
			}
			if in(c.T.N, "varchar", "bpchar", "bit", "varbit") && !c.T.A && c.T.Mod != "" {
				max, _ = strconv.Atoi(c.T.Mod)
			}
			if c.T.N == "numeric" && !c.T.A && c.T.Mod != "" {
				p := strings.Split(c.T.Mod, ",")
				prec, _ = strconv.Atoi(p[0])
				scale, _ = strconv.Atoi(p[1])
			}
			if b := map[string]int{"int2": 16, "int4": 32, "int8": 64}[c.T.N]; b > 0 && !c.T.A {
				prec, scale = b, 0
			}
			if in(c.T.N, "timestamp", "timestamptz", "time", "timetz", "interval", "date") && !c.T.A {
				dt = 6
				if c.T.N == "date" {
					dt = 0
				}
				if c.T.Mod != "" {
					dt, _ = strconv.Atoi(c.T.Mod)
				}
			}
			if c.Ident != "" {
				ig = c.Ident
			}
			if c.Coll != "" {
				coll = c.Coll
			}
			udt := c.T.N
			us := "pg_catalog"
			if strings.HasPrefix(udt, "e:") {
				p := strings.SplitN(udt[2:], ".", 2)
				us, udt = p[0], p[1]
			} else if udt == "citext" {
				us = "public"
			}
			if c.T.A {
				udt = "_" + udt
			}
			add(columns, d.Name, r.Schema, r.Name, c.Name, c.Num, def, yes(!c.NotNull), c.T.Data(), max, prec, scale, dt, us, udt, yes(c.Ident != ""), ig, nil, nil, nil, nil, "NO", "NEVER", nil, coll, nil)
		}
		switch r.Kind {
		case "r":
			add(tables, d.Name, r.Schema, r.Name, "BASE TABLE", "YES")
			add(ptabs, r.Schema, r.Name, "postgres", bit(len(d.indexes(r)) > 0), bit(r.RLS))
			// NOT NULL columns are checks of the information schema
			for _, c := range r.live() {
				if c.NotNull {
					n := fmt.Sprintf("%d_%d_%d_not_null", nsOID[r.Schema], r.OID, c.Num)
					add(tcons, d.Name, r.Schema, n, d.Name, r.Schema, r.Name, "CHECK", "NO", "NO")
					add(chk, d.Name, r.Schema, n, c.Name+" IS NOT NULL")
				}
			}
			for _, c := range r.Cons {
				ct := map[string]string{"p": "PRIMARY KEY", "u": "UNIQUE", "c": "CHECK", "f": "FOREIGN KEY"}[c.Kind]
				add(tcons, d.Name, r.Schema, c.Name, d.Name, r.Schema, r.Name, ct, yes(c.Deferrable), yes(c.Deferred))
				f[fmt.Sprintf("con %d true", c.OID)] = d.condef(r, c, true)
				f[fmt.Sprintf("con %d false", c.OID)] = d.condef(r, c, false)
				var fk, upd, del interface{}
				cf := 0
				rule := map[string]string{"NO ACTION": "a", "RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}
				if c.Kind == "f" {
					fk, upd, del, cf = nums(c.RefCols), rule[c.OnUpd], rule[c.OnDel], c.Ref
				}
				ix := c.Idx
				if c.Kind == "f" {
					ix = c.RefIdx
				}
				add(con, c.OID, c.Name, nsOID[r.Schema], c.Kind, bit(c.Deferrable), bit(c.Deferred), r.OID, ix, cf, upd, del, nums(c.Cols), fk, bit(c.NoInherit), nil)
				if c.Kind == "c" {
					add(chk, d.Name, r.Schema, c.Name, "("+d.show(c.Expr, false)+")")
				} else {
					// position within the unique constraint
					for i, n := range c.Cols {
						var pos interface{}
						if c.Kind == "f" {
							if _, u := d.conOfIdx(c.RefIdx); u != nil {
								for k, y := range u.Cols {
									if y == c.RefCols[i] {
										pos = k + 1
									}
								}
							}
						}
						add(kcu, d.Name, r.Schema, c.Name, d.Name, r.Schema, r.Name, r.num(n).Name, i+1, pos)
					}
				}
				use, l := r, c.Cols
				if c.Kind == "f" {
					use, l = d.rel(c.Ref), c.RefCols
				}
				for _, n := range l {
					add(ccu, d.Name, use.Schema, use.Name, use.num(n).Name, d.Name, r.Schema, c.Name)
				}
				if c.Kind == "f" {
					var us, un interface{}
					if t, u := d.conOfIdx(c.RefIdx); u != nil {
						us, un = t.Schema, u.Name
					}
					add(rc, d.Name, r.Schema, c.Name, d.Name, us, un, "NONE", c.OnUpd, c.OnDel)
				}
			}
			for _, p := range r.Pols {
				var u, w interface{}
				if p.Using != nil {
					u = d.show(p.Using, false)
				}
				if p.Check != nil {
					w = d.show(p.Check, false)
				}
				perm := "PERMISSIVE"
				if !p.Permissive {
					perm = "RESTRICTIVE"
				}
				add(policies, r.Schema, r.Name, p.Name, perm, "{"+strings.Join(p.Roles, ",")+"}", p.Cmd, u, w)
			}
		case "v":
			def := " SELECT 1;"
			if r.Ext == "" {
				def = d.viewdef(r)
			}
			add(tables, d.Name, r.Schema, r.Name, "VIEW", "YES")
			add(views, r.Schema, r.Name, "postgres", def)
			add(iviews, d.Name, r.Schema, r.Name, def, "NONE", "YES")
			f[fmt.Sprintf("view %d", r.OID)] = def
		case "i":
			t := d.rel(r.Table)
			def := d.indexdef(r)
			f[fmt.Sprintf("idx %d", r.OID)] = def
			add(indexes, t.Schema, t.Name, r.Name, nil, def)
			var k []string
			for _, x := range r.Keys {
				k = append(k, strconv.Itoa(x.Num))
			}
			_, c := d.conOfIdx(r.OID)
			var pred interface{}
			if r.Where != nil {
				pred = d.show(r.Where, false)
			}
			add(idx, r.OID, t.OID, len(r.Keys), bit(r.Unique), bit(c != nil && c.Kind == "p"), strings.Join(k, " "), pred, nil)
		case "S":
			add(seqs, d.Name, r.Schema, r.Name)
			dt := "a"
			if r.Ident {
				dt = "i"
			}
			add(pdep, 1259, r.OID, 0, 1259, r.Table, r.OwnCol, dt)
		}
	}
	for id, t := range types {
		n := t.N
		tt := "b"
		if strings.HasPrefix(n, "e:") {
			tt = "e"
			n = strings.SplitN(n[2:], ".", 2)[1]
		}
		if t.A {
			n = "_" + n
		}
		add(typ, id, n, 11, tt, 0)
	}
	var out []catq.Rel
	for _, r := range []*catq.Rel{tables, columns, tcons, kcu, ccu, rc, chk, iviews, seqs, views, indexes, policies, attr, class, typ, adef, ns, con, idx, ptabs, pext, pdep} {
		out = append(out, *r)
	}
	return out, f
}
