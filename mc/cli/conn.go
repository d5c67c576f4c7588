package cli

import (
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"unicode/utf8"
	"unsafe"

	"mc/chk"
	"mc/eng"
	"mc/my"
	"mc/pg"
)

// C16: connection settings reach the server exactly as given.

// login is what a server was told.
type login struct{ user, pass, db, net string }

// gate is a server to log in to.
type gate interface {
	expect(l login) // that user, password and database exist now
	logins() []login
	addr() (host string, port int)
	close()
}

type myGate struct{ s *my.Server }

func (g myGate) expect(l login) {
	g.s.Mu.Lock()
	defer g.s.Mu.Unlock()
	g.s.Users = map[string]string{l.user: l.pass}
	g.s.DBs = map[string]*my.DB{l.db: my.NewDB(l.db)}
	g.s.Seen = nil
	g.s.Touch()
}
func (g myGate) logins() (out []login) {
	g.s.Mu.Lock()
	defer g.s.Mu.Unlock()
	for _, l := range g.s.Seen {
		p := l.Password
		if !l.PassOK {
			p = "\x00another password than " + p
		}
		out = append(out, login{l.User, p, l.DB, l.Net})
	}
	return
}
func (g myGate) addr() (string, int) { return "127.0.0.1", g.s.Port() }
func (g myGate) close()              { g.s.Close() }

type pgGate struct{ s *pg.Server }

func (g pgGate) expect(l login) {
	g.s.Mu.Lock()
	defer g.s.Mu.Unlock()
	g.s.Users = map[string]string{l.user: l.pass}
	g.s.DBs = map[string]*pg.DB{l.db: pg.NewDB(l.db)}
	g.s.Seen = nil
}
func (g pgGate) logins() (out []login) {
	g.s.Mu.Lock()
	defer g.s.Mu.Unlock()
	for _, l := range g.s.Seen {
		out = append(out, login{l.User, l.Password, l.DB, l.Net})
	}
	return
}
func (g pgGate) addr() (string, int) { return "127.0.0.1", g.s.Port() }
func (g pgGate) close()              { g.s.Close() }

type msGate struct{ t *tdsLogin }

func (g msGate) expect(l login) { g.t.take() }
func (g msGate) logins() (out []login) {
	for _, l := range g.t.take() {
		out = append(out, login{l[0], l[1], l[2], "tcp"})
	}
	return
}
func (g msGate) addr() (string, int) { return "127.0.0.1", g.t.port() }
func (g msGate) close()              { g.t.l.Close() }

func newGate(kind, network, addr string) (gate, error) {
	switch kind {
	case "mysql":
		s := my.NewServer()
		return myGate{s}, s.StartAt(network, addr)
	case "postgres":
		s := pg.NewServer()
		return pgGate{s}, s.StartAt(network, addr)
	case "mssql":
		t, err := newTDS(addr)
		return msGate{t}, err
	}
	panic(kind)
}

var gateTool = map[string]string{"mysql": "mysqldef", "postgres": "psqldef", "mssql": "mssqldef"}
var passEnv = map[string]string{"mysql": "MYSQL_PWD", "postgres": "PGPASSWORD", "mssql": "MSSQL_PWD"}

// dsnSpecials separate the parts of some kind of connection string.
const dsnSpecials = ":/@?#%&=+ '\"\\;()[],!$*~|<>{}^`"

// strings of interest: every special character alone, at either end, inside, twice, and every pair of separators.
func connStrings(thorough bool) (out []string) {
	seen := map[string]bool{"": true}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	var chars []string
	for c := 1; c < 128; c++ {
		chars = append(chars, string(rune(c)))
	}
	chars = append(chars, "é", "漢", "😀", "\u00a0", "\xff", "\xc3")
	for _, c := range chars {
		add(c)
		add("a" + c + "b")
		if thorough || strings.Contains(dsnSpecials, c) || c > "~" {
			add("a" + c)
			add(c + "b")
			add(c + c)
		}
	}
	for _, a := range dsnSpecials {
		for _, b := range dsnSpecials {
			add("x" + string(a) + "y" + string(b) + "z")
			if thorough {
				add(string(a) + string(b))
			}
		}
	}
	for _, s := range []string{"%41", "%2F", "%zz", "a%", "%%", "+", "a+b", "tcp(x)", "@tcp(y)/z", "x?sslmode=disable", "x&user=y", "x' host=y", "x\\' z", "user:pass@host/db", "$HOME", "`id`", "true", "0", strings.Repeat("p", 64), strings.Repeat("p", 255), strings.Repeat("p", 256), strings.Repeat("'", 300), strings.Repeat("é%", 80)} {
		add(s)
	}
	return
}

type connCase struct {
	kind string
	how  string // which channel
	l    login
}

func (k connCase) id() string {
	return fmt.Sprintf("%s:%s:%q:%q:%q", k.kind, k.how, k.l.user, k.l.pass, k.l.db)
}

func optName(kind, long string) *opt { return findOpt(gateTool[kind], long, false) }

// give writes an option in the k-th spelling that can carry the value.
func give(kind, long, val string, k int) []string {
	s := spell(gateTool[kind], long, val)
	if k%len(s) == 1 || k%len(s) == 3 { // the value is a word of its own
		if len(val) > 1 && val[0] == '-' || val == "" {
			k--
		}
	}
	w := s[k%len(s)]
	if len(w) == 1 && w[0] == "-"+optName(kind, long).short+val && (val == "" || val[0] == '=') {
		return s[0] // -x=value is read in more than one way
	}
	return w
}

func (w *world) connect(i int, g gate, k connCase, n int) []eng.Failure {
	g.expect(k.l)
	host, port := g.addr()
	c := Cmd{Bin: filepath.Join(w.bin, gateTool[k.kind]), Dir: w.dir[i]}
	args := [][]string{give(k.kind, "host", host, n), give(k.kind, "port", fmt.Sprint(port), n/2)}
	pty := false
	for _, h := range strings.Split(k.how, "+") {
		switch h {
		case "arg":
			args = append(args, give(k.kind, "password", k.l.pass, n/3))
		case "env", "env over arg": // and it wins over the option
			c.Env = append(c.Env, passEnv[k.kind]+"="+k.l.pass)
			if n%2 == 0 || h != "env" {
				args = append(args, give(k.kind, "password", "other", n/3))
			}
		case "prompt":
			args = append(args, []string{"--password-prompt"})
			pty = true
			if n%3 == 0 {
				c.Env = append(c.Env, passEnv[k.kind]+"=other")
			}
			if n%2 == 0 {
				args = append(args, give(k.kind, "password", "another", n))
			}
		case "noise": // settings of other clients in the environment
			c.Env = append(c.Env, "PGHOST=203.0.113.1", "PGPORT=1", "PGUSER=nobody", "PGDATABASE=nothing", "MYSQL_HOST=203.0.113.1", "MYSQL_TCP_PORT=1", "USER=nobody", "LOGNAME=nobody")
		}
	}
	args = append(args, give(k.kind, "user", k.l.user, n/5), []string{"--export"}, []string{k.l.db})
	if n%2 == 1 { // the other way round
		for a, b := 0, len(args)-1; a < b; a, b = a+1, b-1 {
			args[a], args[b] = args[b], args[a]
		}
	}
	c.Args = cat(args)
	var r Result
	if pty {
		var err error
		if r, err = runPty(c, k.l.pass+"\n"); err != nil {
			w.c.Cov["no_terminal"] = err.Error()
			return nil
		}
	} else {
		r = c.Run()
	}
	atomic.AddInt64(w.c.Counter("tool_runs"), 1)
	if r.Crashed() || r.Timeout {
		return fail("crash", "%q: %v", c.Args, r)
	}
	got := g.logins()
	if len(got) == 0 {
		return fail("no-login", "%q: %v", c.Args, r)
	}
	for _, l := range got {
		if l.net == "" {
			l.net = k.l.net
		}
		if l != k.l {
			return fail("other-login", "%q\nwanted %q\ngot    %q\n%v", c.Args, k.l, l, r)
		}
	}
	if k.kind != "mssql" && (r.Exit != 0 || !strings.HasSuffix(r.Out, "-- No table exists --\n") || r.Err != "") {
		return fail("refused", "%q: %v", c.Args, r)
	}
	return nil
}

// runPty runs a command with a terminal as its standard input, on which text is typed.
func runPty(c Cmd, text string) (Result, error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return Result{}, err
	}
	defer m.Close()
	var n uint32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		return Result{}, e
	}
	var z int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, m.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&z))); e != 0 {
		return Result{}, e
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return Result{}, err
	}
	defer s.Close()
	go ioutil.ReadAll(m) // the echo
	if _, err := m.WriteString(text); err != nil {
		return Result{}, err
	}
	c.Tty = s
	return c.Run(), nil
}

// RunConn is the check of C16.
func RunConn(c *chk.Ctx) { conns(c, "") }

// OneConn runs one recorded case.
func OneConn(c *chk.Ctx, id string) { conns(c, id) }

func connCases(thorough bool) (out []connCase) {
	ss := connStrings(thorough)
	for _, kind := range []string{"mysql", "postgres", "mssql"} {
		add := func(how, user, pass, db string) {
			for _, v := range []string{user, pass, db} {
				if kind != "mysql" && !utf8.ValidString(v) {
					return // the protocol or the driver has characters, not bytes
				}
				if kind == "mssql" && strings.Contains(v, "😀") {
					return // go-mssqldb counts such a character as one unit of UTF-16
				}
			}
			if kind == "mssql" && strings.Contains(user, "\\") {
				return // go-mssqldb logs in as a user of Windows
			}
			if len(db) > 1 && db[0] == '-' {
				return // looks like an option
			}
			out = append(out, connCase{kind, how, login{user, pass, db, "tcp"}})
		}
		for _, s := range ss {
			add("arg", "root", s, "db")
			add("env", "root", s, "db")
			add("arg", s, "secret", "db")
			add("arg", "root", "secret", s)
			p := true
			for _, b := range []byte(s) {
				if b < ' ' || b == 127 {
					p = false // the terminal takes these
				}
			}
			if p && len(s) < 200 && (thorough || len(s) < 4) {
				add("prompt", "root", s, "db")
			}
		}
		nasty := []string{"a", ":", "x@y", "p/q?r=s", "it's", "a b", "%41", "ü+", "\\", "c&d=e#"}
		for _, u := range nasty {
			for _, p := range nasty {
				for _, d := range nasty {
					add("arg+noise", u, p, d)
				}
			}
		}
		if kind != "mssql" {
			add("arg", "root", "", "db")
			add("env", "root", "", "db")
			add("env over arg", "root", "", "db")
			add("", "root", "", "db")
			add("noise", "root", "", "db")
		}
	}
	return
}

// place is a server somewhere, and the arguments that lead to it.
type place struct {
	name   string
	kind   string
	where  string   // tcp address without port, port (defaults), or the name of a socket's directory or file
	decoys []string // other addresses, same port: nobody may call
	args   func(p placeAt) []string
	env    []string
	want   login
	refuse bool // nobody may call at all
}

type placeAt struct {
	host, dir, sock string
	port            int
}

func (p place) id() string { return p.kind + ":place:" + p.name }

func places(thorough bool) (out []place) {
	def := map[string]string{"mysql": "root", "postgres": "postgres", "mssql": "sa"}
	defPort := map[string]string{"mysql": "3306", "postgres": "5432", "mssql": "1433"}
	for _, k := range []string{"mysql", "postgres", "mssql"} {
		k := k
		all := []string{"127.0.0.1", "127.0.0.2", "127.1.2.3", "::1"}
		others := func(h string) (out []string) {
			for _, a := range all {
				if a != h {
					out = append(out, a)
				}
			}
			return
		}
		full := login{"joe", "secret", "db", "tcp"}
		hosts := map[string]string{"127.0.0.1": "127.0.0.1", "127.0.0.2": "127.0.0.2", "127.1.2.3": "127.1.2.3", "::1": "::1", "[::1]": "::1", "0:0:0:0:0:0:0:1": "::1", "localhost": "127.0.0.1", "LOCALHOST": "127.0.0.1"}
		for given, h := range hosts {
			given, h := given, h
			for n := 0; n < 4; n++ {
				n := n
				out = append(out, place{name: fmt.Sprintf("host:%s:%d", given, n), kind: k, where: h, decoys: others(h), want: full, args: func(p placeAt) []string {
					return cat([][]string{give(k, "host", given, n), give(k, "port", fmt.Sprint(p.port), n), give(k, "user", "joe", n), give(k, "password", "secret", n), {"--export", "db"}})
				}})
			}
			if k == "postgres" && given[0] != '[' { // a relative directory of that name is no socket
				out = append(out, place{name: "host-and-dir:" + given, kind: k, where: h, decoys: others(h), want: full, args: func(p placeAt) []string {
					os.Mkdir(filepath.Join(p.dir, given), 0755)
					return []string{"-h", given, "-p", fmt.Sprint(p.port), "-U", "joe", "-W", "secret", "--export", "db"}
				}})
			}
		}
		// every subset of the options left out
		for m := 0; m < 16; m++ {
			m := m
			want := login{def[k], "", "db", "tcp"}
			where := "127.0.0.1"
			if m&1 != 0 {
				where = "127.0.0.2"
			}
			if m&2 == 0 {
				where += " " + defPort[k]
			}
			if m&4 != 0 {
				want.user = "joe"
			}
			if m&8 != 0 {
				want.pass = "secret"
			}
			if k == "mssql" && m&8 == 0 {
				continue // the driver asks for a password or an account of the system
			}
			out = append(out, place{name: fmt.Sprintf("defaults:%d", m), kind: k, where: where, want: want, args: func(p placeAt) (a []string) {
				for i, x := range [][2]string{{"host", p.host}, {"port", fmt.Sprint(p.port)}, {"user", "joe"}, {"password", "secret"}} {
					if m&(1<<uint(i)) != 0 {
						a = append(a, give(k, x[0], x[1], m)...)
					}
				}
				return append(a, "--export", "db")
			}})
		}
	}
	// sockets
	var names []string
	for _, s := range connStrings(false) {
		if !strings.Contains(s, "/") && len(s) < 40 && s != "." && s != ".." && (thorough || len(s) < 4) {
			names = append(names, s)
		}
	}
	for i, s := range names {
		i, s := i, s
		full := login{"joe", "secret", "db", "unix"}
		out = append(out, place{name: fmt.Sprintf("socket:%q", s), kind: "mysql", where: "sock/" + s, want: full, args: func(p placeAt) []string {
			a := [][]string{give("mysql", "socket", p.sock, i), {"-ujoe", "-psecret", "--export", "db"}}
			if i%2 == 0 {
				a = append(a, []string{"-h", "127.0.0.1", "-P", "1"}) // the socket wins
			}
			return cat(a)
		}})
		if !utf8.ValidString(s) {
			continue
		}
		port := []int{5432, 1, 65535, 6543}[i%4]
		out = append(out, place{name: fmt.Sprintf("socket:%q", s), kind: "postgres", where: "sock/" + s + "/.s.PGSQL." + fmt.Sprint(port), want: full, args: func(p placeAt) []string {
			a := [][]string{give("postgres", "host", filepath.Dir(p.sock), i), {"-Ujoe", "-Wsecret", "--export", "db"}}
			if port != 5432 {
				a = append(a, give("postgres", "port", fmt.Sprint(port), i))
			}
			return cat(a)
		}})
	}
	// a connection that has to be encrypted is not made in the clear
	for _, m := range []string{"require", "verify-ca", "verify-full", "", "nonsense"} {
		out = append(out, place{name: "sslmode:" + m, kind: "postgres", where: "127.0.0.1", env: []string{"PGSSLMODE=" + m}, refuse: true, args: func(p placeAt) []string {
			return []string{"-p", fmt.Sprint(p.port), "-Ujoe", "-Wsecret", "--export", "db"}
		}})
	}
	return
}

func (w *world) place(i int, p place) []eng.Failure {
	base, err := ioutil.TempDir("", "c16")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	at := placeAt{dir: base, host: p.where}
	var g gate
	var decoys []gate
	defer func() {
		for _, d := range append(decoys, g) {
			if d != nil {
				d.close()
			}
		}
	}()
	if strings.HasPrefix(p.where, "sock/") {
		at.sock = base + p.where[4:]
		if len(at.sock) > 107 {
			return nil
		}
		if err := os.MkdirAll(filepath.Dir(at.sock), 0755); err != nil {
			return nil // no name for a file
		}
		if g, err = newGate(p.kind, "unix", at.sock); err != nil {
			panic(err)
		}
	} else {
		for try := 0; ; try++ {
			f := strings.Fields(p.where + " 0")
			at.host = f[0]
			if g, err = newGate(p.kind, "tcp", net.JoinHostPort(f[0], f[1])); err != nil {
				if f[1] != "0" {
					atomic.AddInt64(w.c.Counter("port_busy"), 1)
					g = nil
					return nil
				}
				if strings.Contains(f[0], ":") { // no IPv6
					atomic.AddInt64(w.c.Counter("no_ipv6"), 1)
					g = nil
					return nil
				}
				panic(err)
			}
			_, at.port = g.addr()
			ok := true
			for _, d := range p.decoys {
				dg, err := newGate(p.kind, "tcp", net.JoinHostPort(d, fmt.Sprint(at.port)))
				if err == nil {
					decoys = append(decoys, dg)
				} else if !strings.Contains(d, ":") {
					ok = false
				}
			}
			if ok || try > 20 {
				break
			}
			g.close()
			for _, d := range decoys {
				d.close()
			}
			decoys = nil
		}
	}
	g.expect(p.want)
	c := Cmd{Bin: filepath.Join(w.bin, gateTool[p.kind]), Dir: base, Args: p.args(at), Env: p.env}
	r := c.Run()
	atomic.AddInt64(w.c.Counter("tool_runs"), 1)
	if r.Crashed() || r.Timeout {
		return fail("crash", "%q: %v", c.Args, r)
	}
	for _, d := range decoys {
		if l := d.logins(); len(l) > 0 {
			return fail("other-server", "%q called another server: %q", c.Args, l)
		}
	}
	got := g.logins()
	if p.refuse {
		if len(got) > 0 || r.Exit == 0 {
			return fail("in-the-clear", "%q %q: %q %v", c.Env, c.Args, got, r)
		}
		return nil
	}
	if len(got) == 0 {
		return fail("no-login", "%q: %v", c.Args, r)
	}
	for _, l := range got {
		if l != p.want {
			return fail("other-login", "%q\nwanted %q\ngot    %q\n%v", c.Args, p.want, l, r)
		}
	}
	if p.kind != "mssql" && (r.Exit != 0 || !strings.HasSuffix(r.Out, "-- No table exists --\n") || r.Err != "") {
		return fail("refused", "%q: %v", c.Args, r)
	}
	return nil
}

// paths of SQLite files

type pathCase struct {
	path string
	how  int // 0 relative, 1 ./relative, 2 absolute, 3 in a directory of that name
}

func (p pathCase) id() string { return fmt.Sprintf("sqlite:%d:%q", p.how, p.path) }

func pathCases(thorough bool) (out []pathCase) {
	for _, s := range connStrings(thorough) {
		if strings.Contains(s, "/") || len(s) > 200 || s == "." || s == ".." || s == "-" {
			continue
		}
		for how := 0; how < 4; how++ {
			if how == 0 && len(s) > 1 && s[0] == '-' {
				continue // looks like an option
			}
			out = append(out, pathCase{s, how})
		}
	}
	return
}

func (w *world) path(i int, p pathCase) []eng.Failure {
	base := filepath.Join(w.dir[i], "paths")
	os.RemoveAll(base)
	if err := os.MkdirAll(base, 0755); err != nil {
		panic(err)
	}
	defer os.RemoveAll(base)
	rel, arg := p.path, p.path
	switch p.how {
	case 1:
		arg = "./" + p.path
	case 2:
		arg = filepath.Join(base, p.path)
	case 3:
		rel = p.path + "/" + p.path
		arg = rel
		if len(arg) > 1 && arg[0] == '-' {
			arg = "./" + arg
		}
		if err := os.Mkdir(filepath.Join(base, p.path), 0755); err != nil {
			return nil
		}
	}
	full := filepath.Join(base, rel)
	only := func() string { // every file there is
		var fs []string
		filepath.Walk(base, func(q string, st os.FileInfo, err error) error {
			if err == nil && !st.IsDir() {
				fs = append(fs, q)
			}
			return nil
		})
		return fmt.Sprintf("%q", fs)
	}
	run := func(stdin string, a ...string) Result {
		atomic.AddInt64(w.c.Counter("tool_runs"), 1)
		return Cmd{Bin: filepath.Join(w.bin, "sqlite3def"), Dir: base, Args: a, Stdin: stdin}.Run()
	}
	// a new file
	r := run("CREATE TABLE made (a integer);\n", arg)
	if r.Crashed() || r.Timeout || r.Exit != 0 {
		return fail("not-made", "%q: %v", arg, r)
	}
	if got, want := only(), fmt.Sprintf("%q", []string{full}); got != want {
		return fail("other-file", "%q made %s, not %s", arg, got, want)
	}
	// the same file put there by somebody else
	if err := ioutil.WriteFile(full, w.marker, 0644); err != nil {
		panic(err)
	}
	r = run("", arg, "--export")
	if r.Exit != 0 || r.Out != "CREATE TABLE marker (b text);\n" || r.Err != "" {
		return fail("other-file", "--export of %q: %v", arg, r)
	}
	if got, want := only(), fmt.Sprintf("%q", []string{full}); got != want {
		return fail("other-file", "--export of %q made %s, not %s", arg, got, want)
	}
	return nil
}

func (w *world) makeMarker() {
	p := filepath.Join(w.dir[0], "marker.db")
	r := Cmd{Bin: filepath.Join(w.bin, "sqlite3def"), Dir: w.dir[0], Args: []string{"marker.db"}, Stdin: "CREATE TABLE marker (b text);\n"}.Run()
	b, err := ioutil.ReadFile(p)
	if err != nil || r.Exit != 0 {
		panic(fmt.Sprint("no marker: ", err, r))
	}
	w.marker = b
}

func conns(c *chk.Ctx, only string) {
	w := newWorld(c)
	defer w.close()
	gates := make([]map[string]gate, c.Workers)
	for i := range gates {
		gates[i] = map[string]gate{}
	}
	at := func(i int, kind string) gate {
		if gates[i][kind] == nil {
			g, err := newGate(kind, "tcp", "127.0.0.1:0")
			if err != nil {
				panic(err)
			}
			gates[i][kind] = g
		}
		return gates[i][kind]
	}
	defer func() {
		for _, m := range gates {
			for _, g := range m {
				g.close()
			}
		}
	}()
	w.makeMarker()
	type job struct {
		id  string
		run func(i int) []eng.Failure
	}
	var jobs []job
	add := func(id string, run func(i int) []eng.Failure) {
		if only == "" || only == id {
			jobs = append(jobs, job{id, run})
		}
	}
	for n, x := range connCases(c.Thorough) {
		n, x := n, x
		add(x.id(), func(i int) []eng.Failure { return w.connect(i, at(i, x.kind), x, n) })
	}
	var serial []job
	for _, p := range places(c.Thorough) {
		p := p
		add(p.id(), func(i int) []eng.Failure { return w.place(i, p) })
		if strings.Contains(p.where, " ") && len(jobs) > 0 && jobs[len(jobs)-1].id == p.id() { // a fixed port: one at a time
			serial = append(serial, jobs[len(jobs)-1])
			jobs = jobs[:len(jobs)-1]
		}
	}
	for _, p := range pathCases(c.Thorough) {
		p := p
		add(p.id(), func(i int) []eng.Failure { return w.path(i, p) })
	}
	n := c.Counter("evaluations")
	do := func(i, k int, j job) {
		c.Journal.Begin(i, j.id)
		for _, f := range j.run(i) {
			f.Case = j.id
			c.Fail(f)
		}
		atomic.AddInt64(n, 1)
		if k%2311 == 0 {
			c.Sample(j.id)
		}
	}
	for k, j := range serial {
		do(0, k+1, j)
	}
	c.Parallel(len(jobs), func(i, k int) { do(i, k, jobs[k]) })
	c.Count("distinct_nontrivial", *n)
}
