package cli

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"

	"mc/chk"
	"mc/eng"
)

// C17: status, streams and option handling of the tools.

// opt is a documented option.
type opt struct {
	long, short string
	value       bool // takes a value
	number      bool
}

var flagOpts = []opt{{long: "dry-run"}, {long: "export"}, {long: "skip-drop"}, {long: "help"}, {long: "version"}}

var toolOpts = map[string][]opt{
	"mysqldef":   append([]opt{{"user", "u", true, false}, {"password", "p", true, false}, {"host", "h", true, false}, {"port", "P", true, true}, {"socket", "S", true, false}, {"password-prompt", "", false, false}, {"file", "", true, false}}, flagOpts...),
	"psqldef":    append([]opt{{"user", "U", true, false}, {"password", "W", true, false}, {"host", "h", true, false}, {"port", "p", true, true}, {"password-prompt", "", false, false}, {"file", "f", true, false}}, flagOpts...),
	"mssqldef":   append([]opt{{"user", "U", true, false}, {"password", "P", true, false}, {"host", "h", true, false}, {"port", "p", true, true}, {"password-prompt", "", false, false}, {"file", "", true, false}}, flagOpts...),
	"sqlite3def": append([]opt{{"file", "f", true, false}}, flagOpts...),
}

func findOpt(tool, name string, short bool) *opt {
	l := toolOpts[tool]
	for i := range l {
		if short && l[i].short == name && name != "" || !short && l[i].long == name {
			return &l[i]
		}
	}
	return nil
}

// spell gives all ways to write an option with a value.
func spell(tool, long, val string) [][]string {
	o := findOpt(tool, long, false)
	out := [][]string{{"--" + long + "=" + val}, {"--" + long, val}}
	if o.short != "" {
		out = append(out, []string{"-" + o.short + val}, []string{"-" + o.short, val})
	}
	return out
}

// cmdline is what a list of words means.
type cmdline struct {
	vals map[string]string
	args []string
	bad  bool
}

// readWords is the reference reading of a command line.
func readWords(tool string, words []string) (c cmdline) {
	c.vals = map[string]string{}
	for i := 0; i < len(words); i++ {
		w := words[i]
		var o *opt
		val, has := "", false
		switch {
		case len(w) > 2 && strings.HasPrefix(w, "--"):
			name := w[2:]
			if k := strings.Index(name, "="); k >= 0 {
				name, val, has = name[:k], name[k+1:], true
			}
			o = findOpt(tool, name, false)
		case len(w) > 1 && w[0] == '-' && w[1] != '-':
			o = findOpt(tool, w[1:2], true)
			if o != nil && o.value && len(w) > 2 {
				val, has = w[2:], true
			}
		default:
			c.args = append(c.args, w)
			continue
		}
		if o == nil || has && !o.value {
			c.bad = true
			return
		}
		if o.value && !has {
			if i+1 >= len(words) || len(words[i+1]) > 1 && words[i+1][0] == '-' {
				c.bad = true
				return
			}
			i++
			val = words[i]
		}
		if o.number {
			if n, err := strconv.ParseUint(val, 10, 32); err != nil || n > 65535 {
				c.bad = true
			}
		}
		c.vals[o.long] = val
		if !o.value {
			c.vals[o.long] = "yes"
		}
	}
	return
}

// invocation is one run of a tool.
type invocation struct {
	name  string
	words []string // with %F and so on
	stdin string   // pipe, empty, null
}

func (v invocation) id(target string) string {
	return fmt.Sprintf("%s:%s:%s:%s", target, v.name, v.stdin, strings.Join(v.words, " "))
}

type optWorld struct {
	*world
	st   map[string]eng.State           // per target: what the database holds
	plan map[string]map[string][]string // target, file text -> plan
	dump map[string]string
}

var optFiles = map[string][3]string{
	"mysql": {"CREATE TABLE a (id int NOT NULL, PRIMARY KEY (id));\nCREATE TABLE b (id int NOT NULL);\n",
		"CREATE TABLE a (id int NOT NULL, name varchar(20) DEFAULT 'x', PRIMARY KEY (id));\n", "CREATE TABLE a (id int NOT NULL, PRIMARY KEY (id));\nCREATE TABLE b (id int NOT NULL);\nCREATE TABLE c (x int);\n"},
	"postgres": {"CREATE TABLE a (id int NOT NULL, PRIMARY KEY (id));\nCREATE TABLE b (id int NOT NULL);\n",
		"CREATE TABLE a (id int NOT NULL, name varchar(20), PRIMARY KEY (id));\n", "CREATE TABLE a (id int NOT NULL, PRIMARY KEY (id));\nCREATE TABLE b (id int NOT NULL);\nCREATE TABLE c (x int);\n"},
	"mssql": {"CREATE TABLE a (id int NOT NULL PRIMARY KEY);\nCREATE TABLE b (id int NOT NULL);\n",
		"CREATE TABLE a (id int NOT NULL PRIMARY KEY, name varchar(20));\n", "CREATE TABLE a (id int NOT NULL PRIMARY KEY);\nCREATE TABLE b (id int NOT NULL);\nCREATE TABLE c (x int);\n"},
	"sqlite": {"CREATE TABLE a (id integer NOT NULL PRIMARY KEY);\nCREATE TABLE b (id integer NOT NULL);\n",
		"CREATE TABLE a (id integer NOT NULL PRIMARY KEY, name varchar(20));\n", "CREATE TABLE a (id integer NOT NULL PRIMARY KEY);\nCREATE TABLE b (id integer NOT NULL);\nCREATE TABLE c (x integer);\n"},
}

func newOptWorld(c *chk.Ctx) *optWorld {
	w := &optWorld{world: newWorld(c), st: map[string]eng.State{}, plan: map[string]map[string][]string{}, dump: map[string]string{}}
	for _, name := range Targets {
		s := w.target(0, name).Sys()
		st := s.Empty(nil)
		f := optFiles[name]
		must := func(err error) {
			if err != nil {
				panic(err)
			}
		}
		l, err := s.Split(f[0])
		must(err)
		for _, q := range l {
			must(s.Exec(st, q))
		}
		w.st[name] = st
		d, err := s.Dump(st)
		must(err)
		w.dump[name] = d
		w.plan[name] = map[string][]string{}
		for _, t := range []string{f[0], f[1], f[2], ""} {
			p, err, pan := eng.Plan(s.Mode(), t, d)
			must(err)
			if pan != "" {
				panic(pan)
			}
			w.plan[name][t] = p
		}
	}
	return w
}

func seen(t Target) int {
	switch t := t.(type) {
	case *mysqlT:
		t.m.S.Mu.Lock()
		defer t.m.S.Mu.Unlock()
		n := len(t.m.S.Seen)
		t.m.S.Seen = nil
		return n
	case *pgT:
		t.m.S.Mu.Lock()
		defer t.m.S.Mu.Unlock()
		n := len(t.m.S.Seen)
		t.m.S.Seen = nil
		return n
	case *mssqlT:
		t.m.S.Mu.Lock()
		defer t.m.S.Mu.Unlock()
		n := len(t.m.S.Seen)
		t.m.S.Seen = nil
		return n
	}
	return 0
}

func isDrop(q string) bool {
	u := strings.ToUpper(q)
	return strings.Contains(u, "DROP ")
}

// invoke runs one command line and compares with what it means.
func (w *optWorld) invoke(i int, target string, v invocation) []eng.Failure {
	t := w.target(i, target)
	tool := t.Bin()
	st := w.st[target]
	t.Set(st)
	seen(t)
	f := optFiles[target]
	dir := w.dir[i]
	write := func(name, text string) string {
		p := filepath.Join(dir, name)
		if err := ioutil.WriteFile(p, []byte(text), 0644); err != nil {
			panic(err)
		}
		return p
	}
	file1, file2 := write("one.sql", f[1]), write("two.sql", f[2])
	broken := write("broken.sql", f[1]+"CREATE TABLE z (x int;\n")
	vars := map[string]string{"%1": file1, "%2": file2, "%0": filepath.Join(dir, "missing.sql"), "%D": dir, "%B": broken}
	vars["%X"], vars["%db"] = "otherdb", "mcdb"
	switch target {
	case "sqlite":
		vars["%X"], vars["%db"] = filepath.Join(dir, "otherdb"), t.Conn()[0]
	default:
		vars["%port"] = t.Conn()[2][2:]
	}
	var words []string
	for _, x := range v.words {
		for k, s := range vars {
			x = strings.Replace(x, k, s, -1)
		}
		words = append(words, x)
	}
	cmd := Cmd{Bin: filepath.Join(w.bin, tool), Args: words, Dir: dir}
	input := ""
	switch v.stdin {
	case "pipe":
		input = f[1]
		cmd.Stdin = input
	case "empty":
	case "null":
		cmd.NoStdin = true
	}
	r := cmd.Run()
	atomic.AddInt64(w.c.Counter("tool_runs"), 1)
	c := readWords(tool, words)
	if r.Timeout || r.Crashed() {
		return fail("crash", "%v", r)
	}
	logins := seen(t)
	written := []string{}
	if ev, ok := t.Sent(); ok {
		written = Executed(ev)
	}
	if _, err := os.Stat(filepath.Join(dir, "otherdb")); err == nil {
		os.Remove(filepath.Join(dir, "otherdb"))
		if len(c.args) != 1 || c.bad || c.vals["help"] != "" || c.vals["version"] != "" {
			return fail("other-database", "a database was made\n%v", r)
		}
	}
	untouched := func() []eng.Failure {
		if len(written) > 0 {
			return fail("writes", "%q\n%v", written, r)
		}
		if !same(t, st) {
			return fail("changed", "%v", r)
		}
		return nil
	}
	offline := func() []eng.Failure {
		if logins != 0 && c.vals["user"] != "nobody" {
			return fail("connects", "%v", r)
		}
		return untouched()
	}
	diag := func(what string) []eng.Failure {
		if r.Exit <= 0 {
			return fail("status", "%s: %v", what, r)
		}
		if strings.TrimSpace(r.Err) == "" {
			return fail("silent", "%s: %v", what, r)
		}
		if r.Out != "" {
			return fail("stdout", "%s: %v", what, r)
		}
		return nil
	}
	// 1. a command line that isn't one
	if c.bad {
		if x := diag("wrong options"); x != nil {
			return x
		}
		return offline()
	}
	// 2. questions to the tool itself
	if c.vals["help"] != "" {
		if r.Exit != 0 || r.Err != "" {
			return fail("status", "help: %v", r)
		}
		for _, o := range toolOpts[tool] {
			if !strings.Contains(r.Out, "--"+o.long) || o.short != "" && !strings.Contains(r.Out, "-"+o.short+",") {
				return fail("help-incomplete", "no %s: %v", o.long, r)
			}
		}
		return offline()
	}
	if c.vals["version"] != "" {
		if r.Exit != 0 || r.Err != "" || strings.Count(r.Out, "\n") != 1 {
			return fail("status", "version: %v", r)
		}
		return offline()
	}
	// 3. not one database
	if len(c.args) != 1 {
		if r.Exit <= 0 {
			return fail("status", "%d databases: %v", len(c.args), r)
		}
		if !strings.Contains(r.Out+r.Err, "database") || strings.Contains(r.Out, "-- ") && strings.Contains(r.Out, " --\n") {
			return fail("unexplained", "%d databases: %v", len(c.args), r)
		}
		return offline()
	}
	if u := c.vals["user"]; u != "" && u != "root" && u != "postgres" && u != "sa" || c.vals["port"] == "1" {
		if x := diag("no server"); x != nil {
			return x
		}
		return offline()
	}
	if c.args[0] != vars["%db"] {
		if target == "sqlite" {
			return nil // another file is another database
		}
		if x := diag("unknown database"); x != nil {
			return x
		}
		return untouched()
	}
	// 4. export
	if c.vals["export"] != "" {
		if r.Exit != 0 || r.Err != "" || r.Out != w.dump[target]+";\n" {
			return fail("export", "%v", r)
		}
		return untouched()
	}
	// 5. the file
	text, ok := "", true
	switch name, given := c.vals["file"]; {
	case !given || name == "-":
		text = input
		ok = v.stdin != "null"
	case name == file1:
		text = f[1]
	case name == file2:
		text = f[2]
	default:
		ok = false
	}
	if !ok {
		if x := diag("unusable file"); x != nil {
			return x
		}
		return untouched()
	}
	plan := w.plan[target][text]
	if r.Exit != 0 || r.Err != "" {
		return fail("status", "%v", r)
	}
	if len(plan) == 0 {
		if r.Out != "-- Nothing is modified --\n" {
			return fail("stdout", "%v", r)
		}
		return untouched()
	}
	out := "-- Apply --\n"
	if c.vals["dry-run"] != "" {
		out = "-- dry run --\n"
	}
	after := t.Sys().Clone(st)
	for _, q := range plan {
		if c.vals["skip-drop"] != "" && isDrop(q) {
			out += "-- Skipped: " + q + ";\n"
			continue
		}
		out += q + ";\n"
		if c.vals["dry-run"] == "" {
			if err := t.Sys().Exec(after, q); err != nil {
				panic(err)
			}
		}
	}
	if r.Out != out {
		return fail("stdout", "wanted %s\ngot %v", out, r)
	}
	if c.vals["dry-run"] != "" {
		return untouched()
	}
	if a, b := t.Sys().Canon(after), t.Sys().Canon(t.Get()); a != b {
		return fail("effect", "%s\n%v", eng.Diff(a, b), r)
	}
	return nil
}

// invocations are the command lines for a tool.
func invocations(target, tool string, thorough bool) (out []invocation) {
	add := func(name, stdin string, groups ...[]string) {
		var w []string
		for _, g := range groups {
			w = append(w, g...)
		}
		out = append(out, invocation{name, w, stdin})
	}
	db := []string{"%db"}
	var conn [][]string // option, value
	switch target {
	case "mysql":
		conn = [][]string{{"user", "root"}, {"host", "127.0.0.1"}, {"port", "%port"}}
	case "mssql":
		conn = [][]string{{"user", "sa"}, {"host", "127.0.0.1"}, {"port", "%port"}}
	case "postgres":
		conn = [][]string{{"user", "postgres"}, {"host", "127.0.0.1"}, {"port", "%port"}}
	}
	given := func(k int) (g [][]string) {
		for _, c := range conn {
			s := spell(tool, c[0], c[1])
			g = append(g, s[k%len(s)])
		}
		return
	}
	files := [][]string{nil, {"--file=-"}, {"--file=%0"}, {"--file=%D"}, {"--file="}}
	files = append(files, spell(tool, "file", "%1")...)
	flags := []string{"--dry-run", "--export", "--skip-drop", "--help", "--version"}
	// every set of flags, with every way to give the file, and no, one or two databases at either end
	k := 0
	for m := 0; m < 32; m++ {
		var fl []string
		for b, f := range flags {
			if m>>uint(b)&1 == 1 {
				fl = append(fl, f)
			}
		}
		for _, file := range files {
			for n := 0; n < 3; n++ {
				for _, in := range []string{"pipe", "null", "empty"} {
					if in != "pipe" && (len(file) > 0 && file[0] != "--file=-" || n != 1) {
						continue
					}
					k++
					cs := cat(given(k))
					switch n {
					case 0:
						add("flags", in, cs, fl, file)
					case 1:
						add("flags", in, db, fl, cs, file)
						add("flags", in, file, fl, cs, db)
					case 2:
						add("flags", in, db, fl, cs, file, []string{"%X"})
						add("flags", in, db, db, fl, cs, file)
					}
				}
			}
		}
	}
	// every order of the groups, in all spellings
	groups := [][][]string{{db}, spell(tool, "file", "%1"), {{"--dry-run"}}, {{"--skip-drop"}}}
	for _, c := range conn {
		groups = append(groups, spell(tool, c[0], c[1]))
	}
	n := 0
	perms(len(groups), func(p []int) {
		n++
		if !thorough && len(groups) > 5 && n%3 != 0 {
			return
		}
		var w []string
		for j, g := range p {
			w = append(w, groups[g][(n/3+j)%len(groups[g])]...)
		}
		add("order", "pipe", w)
	})
	// every option twice: the last one counts
	twice := [][2]string{{"file", "%1|%2"}, {"file", "%2|%1"}, {"file", "%0|%1"}, {"file", "%1|%0"}, {"file", "-|%2"}, {"file", "%2|-"}}
	for _, c := range conn {
		wrong := map[string]string{"user": "nobody", "host": "203.0.113.1", "port": "1"}[c[0]]
		twice = append(twice, [2]string{c[0], wrong + "|" + c[1]})
	}
	for _, t := range twice {
		v := strings.Split(t[1], "|")
		for _, a := range spell(tool, t[0], v[0]) {
			for _, b := range spell(tool, t[0], v[1]) {
				k++
				cs := cat(given(k))
				if t[0] != "file" {
					add("twice", "pipe", cs, a, b, db)
				} else {
					add("twice", "pipe", a, cs, b, db)
					add("twice", "pipe", a, []string{"--dry-run"}, db, b, cs)
				}
			}
		}
	}
	for _, f := range flags {
		add("twice", "pipe", []string{f, f}, cat(given(0)), db)
	}
	// words that are no options, and values that are missing or none
	bad := [][]string{{"--nope"}, {"--nope=1"}, {"-z"}, {"-zx"}, {"--dry-run=true"}, {"--export=1"}, {"--skip-drop=no"}, {"--dryrun"}, {"--dry"}, {"--File=%1"}, {"--DRY-RUN"}, {"-dry-run"}, {"--help=x"}, {"--enable-drop-table"}}
	if len(conn) > 0 {
		bad = append(bad, []string{"--port=abc"}, []string{"--port="}, []string{"--port=-1"}, []string{"--port=3.5"}, []string{"--port=99999999999999999999"}, []string{"--user", "--host=x"}, []string{"--password-prompt=yes"})
	}
	for _, b := range bad {
		for _, fl := range [][]string{nil, {"--dry-run"}, {"--export"}, {"--help"}, {"--version"}} {
			k++
			cs := cat(given(k))
			add("bad", "pipe", b, fl, cs, db)
			add("bad", "pipe", fl, cs, db, b)
			add("bad", "pipe", db, fl, b, cs, []string{"--file=%1"})
			add("bad", "pipe", fl, cs, b)
		}
	}
	for _, o := range toolOpts[tool] {
		if o.value {
			add("bad", "pipe", cat(given(0)), db, []string{"--" + o.long})
			if o.short != "" {
				add("bad", "pipe", cat(given(0)), db, []string{"-" + o.short})
			}
		}
	}
	// a server that isn't there, a user it doesn't know
	for _, c := range conn {
		if c[0] == "host" {
			continue
		}
		wrong := map[string]string{"user": "nobody", "port": "1"}[c[0]]
		for _, a := range spell(tool, c[0], wrong) {
			for _, fl := range [][]string{nil, {"--dry-run"}, {"--export"}, {"--skip-drop"}} {
				k++
				add("unreachable", "pipe", cat(given(k)), a, fl, db)
			}
		}
	}
	// another database, a file that cannot be understood
	for _, fl := range [][]string{nil, {"--dry-run"}, {"--export"}, {"--skip-drop"}} {
		add("other", "pipe", cat(given(1)), fl, []string{"%X"})
		for _, f := range spell(tool, "file", "%B") {
			k++
			add("broken", "pipe", cat(given(k)), fl, f, db)
		}
		for _, f := range spell(tool, "file", "%2") {
			add("file2", "pipe", cat(given(2)), fl, f, db)
			add("file2", "null", db, f, fl, cat(given(3)))
		}
	}
	return
}

func cat(g [][]string) (out []string) {
	for _, x := range g {
		out = append(out, x...)
	}
	return
}

func perms(n int, f func(p []int)) {
	p := make([]int, 0, n)
	used := make([]bool, n)
	var rec func()
	rec = func() {
		if len(p) == n {
			f(p)
			return
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				used[i] = true
				p = append(p, i)
				rec()
				p = p[:len(p)-1]
				used[i] = false
			}
		}
	}
	rec()
}

// RunOpts is the check of C17.
func RunOpts(c *chk.Ctx) { opts(c, "") }

// OneOpts runs one recorded case.
func OneOpts(c *chk.Ctx, id string) { opts(c, id) }

func opts(c *chk.Ctx, only string) {
	w := newOptWorld(c)
	defer w.close()
	type job struct {
		t string
		v invocation
	}
	var jobs []job
	dup := map[string]bool{}
	for _, t := range Targets {
		tool := w.target(0, t).Bin()
		for _, v := range invocations(t, tool, c.Thorough) {
			id := v.id(t)
			if !dup[id] && (only == "" || only == id) {
				dup[id] = true
				jobs = append(jobs, job{t, v})
			}
		}
	}
	n := c.Counter("evaluations")
	c.Parallel(len(jobs), func(i, k int) {
		id := jobs[k].v.id(jobs[k].t)
		c.Journal.Begin(i, id)
		for _, f := range w.invoke(i, jobs[k].t, jobs[k].v) {
			f.Case = id
			c.Fail(f)
		}
		if k%997 == 0 {
			c.Sample(id)
		}
		atomic.AddInt64(n, 1)
	})
	c.Count("distinct_nontrivial", *n)
}
