package my

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"regexp"
	"sort"
	"strings"

	"mc/catq"
	. "mc/sqlx"
	"mc/srv"
)

// Server is a MySQL model server speaking the client protocol.
type Server struct {
	srv.Core
	DBs     map[string]*DB
	Users   map[string]string // user -> password
	ev      *catq.Ev
	evVer   int
	version int
	nconn   int
	Seen    []Login
}

// Login is what a client presented.
type Login struct {
	User, Password, DB string
	PassOK             bool
	Net                string
}

func NewServer() *Server {
	ev, err := catq.New(true, []string{"information_schema"}, nil)
	if err != nil {
		panic(err)
	}
	return &Server{DBs: map[string]*DB{}, Users: map[string]string{"root": ""}, ev: ev}
}

// Start listens on a loopback port.
func (s *Server) Start() error { return s.Listen("tcp", "127.0.0.1:0", s.serve) }

// StartAt listens on a given address.
func (s *Server) StartAt(network, addr string) error { return s.Listen(network, addr, s.serve) }

// Serve exposes the connection handler.
func (s *Server) Serve(c net.Conn) { s.serve(c) }

type session struct {
	s   *Server
	c   net.Conn
	r   *bufio.Reader
	seq byte
	db  string
	id  int
	eof bool
}

func (x *session) read() []byte {
	var out []byte
	for {
		h := make([]byte, 4)
		if _, err := io.ReadFull(x.r, h); err != nil {
			panic(srv.Hangup{})
		}
		n := int(h[0]) | int(h[1])<<8 | int(h[2])<<16
		x.seq = h[3] + 1
		b := make([]byte, n)
		if _, err := io.ReadFull(x.r, b); err != nil {
			panic(srv.Hangup{})
		}
		out = append(out, b...)
		if n < 0xffffff {
			return out
		}
	}
}

func (x *session) write(b []byte) {
	h := []byte{byte(len(b)), byte(len(b) >> 8), byte(len(b) >> 16), x.seq}
	x.seq++
	x.c.Write(append(h, b...))
}

func lenenc(b *bytes.Buffer, n uint64) {
	switch {
	case n < 251:
		b.WriteByte(byte(n))
	case n < 1<<16:
		b.WriteByte(0xfc)
		b.WriteByte(byte(n))
		b.WriteByte(byte(n >> 8))
	case n < 1<<24:
		b.WriteByte(0xfd)
		b.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16)})
	default:
		b.WriteByte(0xfe)
		binary.Write(b, binary.LittleEndian, n)
	}
}
func lenstr(b *bytes.Buffer, s string) { lenenc(b, uint64(len(s))); b.WriteString(s) }

func (x *session) ok() { x.write([]byte{0, 0, 0, 2, 0, 0, 0}) }
func (x *session) err(e error) {
	me, ok := e.(*Err)
	if !ok {
		me = &Err{1105, "HY000", e.Error()}
	}
	var b bytes.Buffer
	b.WriteByte(0xff)
	b.WriteByte(byte(me.Code))
	b.WriteByte(byte(me.Code >> 8))
	b.WriteByte('#')
	b.WriteString(me.State)
	b.WriteString(me.Msg)
	x.write(b.Bytes())
}

func (x *session) result(r *srv.Result) {
	var b bytes.Buffer
	lenenc(&b, uint64(len(r.Cols)))
	x.write(b.Bytes())
	for _, c := range r.Cols {
		var b bytes.Buffer
		lenstr(&b, "def")
		lenstr(&b, "")
		lenstr(&b, "")
		lenstr(&b, "")
		lenstr(&b, c.Name)
		lenstr(&b, c.Name)
		b.WriteByte(0x0c)
		b.Write([]byte{33, 0})
		b.Write([]byte{0xff, 0xff, 0, 0})
		b.WriteByte(0xfd)
		b.Write([]byte{0, 0, 0, 0, 0})
		x.write(b.Bytes())
	}
	x.write([]byte{0xfe, 0, 0, 2, 0})
	for _, row := range r.Rows {
		var b bytes.Buffer
		for _, v := range row {
			if v == nil {
				b.WriteByte(0xfb)
			} else {
				lenstr(&b, fmt.Sprint(v))
			}
		}
		x.write(b.Bytes())
	}
	if r.Err != nil {
		x.err(r.Err)
		return
	}
	x.write([]byte{0xfe, 0, 0, 2, 0})
}

func (s *Server) serve(c net.Conn) {
	s.Mu.Lock()
	s.nconn++
	id := s.nconn
	s.Mu.Unlock()
	x := &session{s: s, c: c, r: bufio.NewReader(c), id: id}
	salt := []byte("abcdefghijklmnopqrst")
	var b bytes.Buffer
	b.WriteByte(10)
	b.WriteString("5.7.99-model\x00")
	b.Write([]byte{1, 0, 0, 0})
	b.Write(salt[:8])
	b.WriteByte(0)
	caps := uint32(0x00000001 | 0x00000008 | 0x00000200 | 0x00002000 | 0x00008000 | 0x00080000 | 0x00020000 | 0x00010000)
	b.Write([]byte{byte(caps), byte(caps >> 8)})
	b.WriteByte(33)
	b.Write([]byte{2, 0})
	b.Write([]byte{byte(caps >> 16), byte(caps >> 24)})
	b.WriteByte(21)
	b.Write(make([]byte, 10))
	b.Write(salt[8:])
	b.WriteByte(0)
	b.WriteString("mysql_native_password\x00")
	x.write(b.Bytes())
	p := x.read()
	if len(p) < 32 {
		return
	}
	cf := binary.LittleEndian.Uint32(p)
	i := 32
	z := bytes.IndexByte(p[i:], 0)
	if z < 0 {
		return
	}
	user := string(p[i : i+z])
	i += z + 1
	var auth []byte
	n := int(p[i])
	i++
	auth = p[i : i+n]
	i += n
	db := ""
	if cf&8 != 0 && i < len(p) {
		z := bytes.IndexByte(p[i:], 0)
		if z < 0 {
			db = string(p[i:])
		} else {
			db = string(p[i : i+z])
		}
	}
	s.Mu.Lock()
	pw, known := s.Users[user]
	ok := known && bytes.Equal(auth, scramble(salt, pw))
	s.Seen = append(s.Seen, Login{User: user, Password: pw, DB: db, PassOK: ok, Net: c.LocalAddr().Network()})
	_, ferr := s.Note(srv.Event{Conn: id, Kind: "connect", SQL: user + "@" + db})
	dbok := db == "" || s.DBs[db] != nil
	s.Mu.Unlock()
	switch {
	case ferr == srv.ErrHangup:
		return
	case ferr != nil:
		x.err(ferr)
		return
	case !ok:
		x.err(&Err{1045, "28000", "Access denied for user '" + user + "'"})
		return
	case !dbok:
		x.err(&Err{1049, "42000", "Unknown database '" + db + "'"})
		return
	}
	x.db = db
	x.ok()
	for {
		p := x.read()
		x.seq = 1
		switch p[0] {
		case 1:
			return
		case 14:
			x.ok()
		case 2:
			x.db = string(p[1:])
			x.ok()
		case 3:
			q := string(p[1:])
			s.Mu.Lock()
			r, err := s.query(x, q)
			s.Mu.Unlock()
			if err == io.EOF {
				return
			}
			if err != nil {
				x.err(err)
			} else if r != nil {
				x.result(r)
			} else {
				x.ok()
			}
		default:
			x.err(&Err{1047, "08S01", "Unknown command"})
		}
	}
}

func scramble(salt []byte, pw string) []byte {
	if pw == "" {
		return nil
	}
	h := func(b ...[]byte) []byte {
		s := sha1.New()
		for _, x := range b {
			s.Write(x)
		}
		return s.Sum(nil)
	}
	a := h([]byte(pw))
	c := h(salt, h(a))
	for i := range c {
		c[i] ^= a[i]
	}
	return c
}

// Query is the in-process entry used by the fake clients and checks.
func (s *Server) Query(db, q string) (*srv.Result, error) {
	s.Mu.Lock()
	defer s.Mu.Unlock()
	return s.run(db, q)
}

func kindOf(q string) string {
	p, err := NewP(q, MySQL)
	if err != nil {
		return "query"
	}
	switch {
	case p.Is("START", "TRANSACTION") || p.Is("BEGIN"):
		return "begin"
	case p.Is("COMMIT"):
		return "commit"
	case p.Is("ROLLBACK"):
		return "rollback"
	case p.Is("CREATE") || p.Is("ALTER") || p.Is("DROP") || p.Is("INSERT") || p.Is("UPDATE") || p.Is("DELETE") || p.Is("TRUNCATE") || p.Is("RENAME") || p.Is("REPLACE"):
		return "ddl"
	case p.Is("SELECT") || p.Is("SHOW") || p.Is("SET") || p.Is("USE") || p.Is("DESCRIBE") || p.Is("EXPLAIN"):
		return "query"
	}
	return "other"
}

func (s *Server) query(x *session, q string) (*srv.Result, error) {
	k := kindOf(q)
	n, err := s.Note(srv.Event{Conn: x.id, Kind: k, SQL: q, Write: k == "ddl" || k == "other"})
	if err != nil {
		if err == srv.ErrHangup {
			return nil, io.EOF
		}
		if rf, ok := err.(srv.RowFault); ok && k == "query" {
			r, err := s.run(x.db, q)
			if err == nil && r != nil {
				r = rf.Cut(r)
			}
			return r, err
		}
		return nil, err
	}
	if k == "begin" || k == "commit" || k == "rollback" {
		return nil, nil
	}
	r, err := s.run(x.db, q)
	if err != nil {
		s.Log[n].Err = err.Error()
	}
	return r, err
}

// Touch tells the server that a database was replaced from outside.
func (s *Server) Touch() { s.version++ }

func (s *Server) run(dbn, q string) (*srv.Result, error) {
	p, err := NewP(q, MySQL)
	if err != nil {
		return nil, &Err{1064, "42000", "You have an error in your SQL syntax: " + err.Error()}
	}
	if p.Acc("CREATE", "DATABASE") {
		ine := p.Acc("IF", "NOT", "EXISTS")
		n := p.Next().S
		if s.DBs[n] != nil && !ine {
			return nil, &Err{1007, "HY000", "Can't create database '" + n + "'; database exists"}
		}
		if s.DBs[n] == nil {
			s.DBs[n] = NewDB(n)
		}
		s.version++
		return nil, nil
	}
	if p.Acc("DROP", "DATABASE") {
		ife := p.Acc("IF", "EXISTS")
		n := p.Next().S
		if s.DBs[n] == nil && !ife {
			return nil, &Err{1008, "HY000", "Can't drop database '" + n + "'; database doesn't exist"}
		}
		delete(s.DBs, n)
		s.version++
		return nil, nil
	}
	db := s.DBs[dbn]
	if db == nil {
		return nil, &Err{1046, "3D000", "No database selected"}
	}
	switch {
	case p.Is("SHOW", "FULL", "TABLES") || p.Is("SHOW", "TABLES"):
		full := p.Is("SHOW", "FULL")
		if full {
			p.I++
		}
		p.I += 2
		col := catq.Q("Tables_in_" + dbn)
		sel := col + ", Table_type"
		if !full {
			sel = col
		}
		rest := ""
		if !p.EOF() && !p.Is(";") {
			if p.Is("LIKE") {
				rest = " WHERE " + col + " " + strings.TrimSuffix(strings.TrimSpace(q[p.Peek().Pos:]), ";")
			} else if p.Is("WHERE") {
				rest = " " + strings.TrimSuffix(strings.TrimSpace(q[p.Peek().Pos:]), ";")
			} else {
				return nil, &Err{1064, "42000", "You have an error in your SQL syntax"}
			}
		}
		return s.eval(dbn, "SELECT "+sel+" FROM "+fmt.Sprintf("show_tables_%x", dbn)+rest+" ORDER BY 1")
	case p.Acc("SHOW", "CREATE", "TABLE"):
		var n string
		if err := Try(func() { n = db.name(p); db.end(p) }); err != nil {
			return nil, &Err{1064, "42000", "You have an error in your SQL syntax: " + err.Error()}
		}
		if v := db.Views[n]; v != nil {
			return &srv.Result{Cols: cols("View", "Create View", "character_set_client", "collation_connection"), Rows: [][]interface{}{{n, "CREATE ALGORITHM=UNDEFINED DEFINER=`root`@`%` SQL SECURITY DEFINER VIEW " + qi(n) + " AS " + strings.Replace(v.Def, qi(dbn)+".", "", -1), "utf8", "utf8_general_ci"}}}, nil
		}
		t := db.Tables[n]
		if t == nil {
			return nil, &Err{1146, "42S02", fmt.Sprintf("Table '%s.%s' doesn't exist", dbn, n)}
		}
		return &srv.Result{Cols: cols("Table", "Create Table"), Rows: [][]interface{}{{n, t.ShowCreate()}}}, nil
	case p.Is("SHOW", "TRIGGERS"):
		trs := append([]*Trigger{}, db.Triggers...)
		sort.SliceStable(trs, func(a, b int) bool { return trs[a].Table < trs[b].Table })
		r := &srv.Result{Cols: cols("Trigger", "Event", "Table", "Statement", "Timing", "Created", "sql_mode", "Definer", "character_set_client", "collation_connection", "Database Collation")}
		for _, t := range trs {
			r.Rows = append(r.Rows, []interface{}{t.Name, t.Event, t.Table, t.Body, t.Timing, "2021-06-01 00:00:00.00", "STRICT_TRANS_TABLES", "root@%", "utf8", "utf8_general_ci", "latin1_swedish_ci"})
		}
		return r, nil
	case p.Is("SELECT"):
		return s.eval(dbn, strings.TrimSuffix(strings.TrimSpace(q), ";"))
	case p.Is("SET") || p.Is("USE"):
		return nil, nil
	}
	s.version++
	return nil, db.Exec(q)
}

func cols(n ...string) []srv.Column {
	var o []srv.Column
	for _, x := range n {
		o = append(o, srv.Column{Name: x, Kind: "text"})
	}
	return o
}

var dbFunc = regexp.MustCompile(`(?i)\b(database|schema)\(\)`)

func (s *Server) eval(dbn, q string) (*srv.Result, error) {
	err := s.ev.Load(nil, func() []catq.Rel {
		tabs := catq.Rel{Schema: "information_schema", Name: "TABLES", Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "TABLE_TYPE", "ENGINE", "TABLE_COMMENT"}}
		views := catq.Rel{Schema: "information_schema", Name: "VIEWS", Cols: []string{"TABLE_CATALOG", "TABLE_SCHEMA", "TABLE_NAME", "VIEW_DEFINITION", "CHECK_OPTION", "IS_UPDATABLE", "DEFINER", "SECURITY_TYPE"}}
		trg := catq.Rel{Schema: "information_schema", Name: "TRIGGERS", Cols: []string{"TRIGGER_SCHEMA", "TRIGGER_NAME", "EVENT_MANIPULATION", "EVENT_OBJECT_SCHEMA", "EVENT_OBJECT_TABLE", "ACTION_STATEMENT", "ACTION_TIMING"}}
		refs := catq.Rel{Schema: "information_schema", Name: "REFERENTIAL_CONSTRAINTS", Cols: []string{"CONSTRAINT_CATALOG", "CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "UNIQUE_CONSTRAINT_CATALOG", "UNIQUE_CONSTRAINT_SCHEMA", "UPDATE_RULE", "DELETE_RULE", "TABLE_NAME", "REFERENCED_TABLE_NAME"}}
		keyc := catq.Rel{Schema: "information_schema", Name: "KEY_COLUMN_USAGE", Cols: []string{"CONSTRAINT_CATALOG", "CONSTRAINT_SCHEMA", "CONSTRAINT_NAME", "TABLE_SCHEMA", "TABLE_NAME", "COLUMN_NAME", "ORDINAL_POSITION", "REFERENCED_TABLE_SCHEMA", "REFERENCED_TABLE_NAME", "REFERENCED_COLUMN_NAME"}}
		var out []catq.Rel
		var dbs []string
		for n := range s.DBs {
			dbs = append(dbs, n)
		}
		sort.Strings(dbs)
		for _, n := range dbs {
			d := s.DBs[n]
			sh := catq.Rel{Name: fmt.Sprintf("show_tables_%x", n), Cols: []string{"Tables_in_" + n, "Table_type"}}
			for _, t := range d.names() {
				tabs.Rows = append(tabs.Rows, []interface{}{"def", n, t, "BASE TABLE", d.Tables[t].Engine, d.Tables[t].Comment})
				sh.Rows = append(sh.Rows, []interface{}{t, "BASE TABLE"})
				rule := func(r string) string {
					if r == "" {
						return "NO ACTION" // also what 5.7 shows for RESTRICT left out
					}
					return r
				}
				for _, x := range d.Tables[t].Idx {
					if x.Kind == "UNIQUE" || x.Kind == "PRIMARY" {
						for i, c := range x.Parts {
							keyc.Rows = append(keyc.Rows, []interface{}{"def", n, x.Name, n, t, c.Col, i + 1, nil, nil, nil})
						}
					}
				}
				for _, f := range d.Tables[t].FKs {
					refs.Rows = append(refs.Rows, []interface{}{"def", n, f.Name, "def", n, rule(f.OnUpdate), rule(f.OnDelete), t, f.RefTable})
					for i, c := range f.Cols {
						keyc.Rows = append(keyc.Rows, []interface{}{"def", n, f.Name, n, t, c, i + 1, n, f.RefTable, f.RefCols[i]})
					}
				}
			}
			var vs []string
			for v := range d.Views {
				vs = append(vs, v)
			}
			sort.Strings(vs)
			for _, v := range vs {
				tabs.Rows = append(tabs.Rows, []interface{}{"def", n, v, "VIEW", nil, "VIEW"})
				sh.Rows = append(sh.Rows, []interface{}{v, "VIEW"})
				views.Rows = append(views.Rows, []interface{}{"def", n, v, d.Views[v].Def, "NONE", "YES", "root@%", "DEFINER"})
			}
			for _, t := range d.Triggers {
				trg.Rows = append(trg.Rows, []interface{}{n, t.Name, t.Event, n, t.Table, t.Body, t.Timing})
			}
			out = append(out, sh)
		}
		return append(out, tabs, views, trg, refs, keyc)
	})
	if err != nil {
		return nil, err
	}
	q = dbFunc.ReplaceAllLiteralString(q, "'"+strings.Replace(dbn, "'", "''", -1)+"'")
	q = strings.Replace(q, "@@max_allowed_packet", "4194304", -1)
	c, rows, err := s.ev.Query(q)
	if err != nil {
		if strings.Contains(err.Error(), "syntax error") {
			s.Inconclusive = "catalog query not understood: " + q + ": " + err.Error()
		}
		return nil, &Err{1064, "42000", err.Error()}
	}
	return &srv.Result{Cols: cols(c...), Rows: rows}, nil
}
