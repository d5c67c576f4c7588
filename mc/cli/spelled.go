package cli

import (
	"strings"

	"mc/chk"
	"mc/eng"
	sp "mc/spell"
	"mc/sqlx"
)

var lexDialects = map[string]sqlx.Dialect{"mysql": sqlx.MySQL, "postgres": sqlx.PG, "sqlite": sqlx.SQLite, "mssql": sqlx.MSSQL}

// RunSpelled runs the real tools with each file given in the ways a user can give it: by path or on standard input, as it is, behind
// a long comment, and respelled.
func RunSpelled(c *chk.Ctx) {
	w := newWorld(c)
	defer w.close()
	sc := w.scenarios(func(t string, f *eng.Family) bool { return w.pick(t, f) && len(f.Variants) < 30 })
	var some []scen
	for k, s := range sc {
		if c.Thorough || s.from == "" || k%5 == 0 {
			some = append(some, s)
		}
	}
	c.Count("states", int64(len(some)))
	c.Count("transitions", int64(len(some)))
	c.Parallel(len(some), func(i, k int) {
		c.Journal.Begin(i, "cli:"+some[k].id())
		w.reportAs("cli:", some[k], w.spelled(i, some[k]))
	})
}

// OneSpelled repeats one case.
func OneSpelled(c *chk.Ctx, id string) {
	id = strings.TrimPrefix(id, "cli:")
	w := newWorld(c)
	defer w.close()
	p := strings.SplitN(id, ":", 3)
	if len(p) < 3 {
		return
	}
	for _, s := range w.scenarios(func(t string, f *eng.Family) bool { return t == p[0] && f.Name == p[1] }) {
		if s.id() == id {
			w.reportAs("cli:", s, w.spelled(0, s))
		}
	}
}

func (w *world) reportAs(prefix string, s scen, fs []eng.Failure) {
	for _, x := range fs {
		x.Case = prefix + s.id()
		x.Repro = map[string]interface{}{"target": s.target, "family": s.fam.Name, "from": s.from, "file": s.to.SQL, "what": x.Detail}
		w.c.Fail(x)
	}
}

func (w *world) spelled(i int, s scen) []eng.Failure {
	t := w.target(i, s.target)
	t.Set(t.Sys().Clone(s.st))
	base := w.run(i, t, []string{"--dry-run"}, s.to.SQL, false)
	if base.Exit != 0 {
		return nil // C11, C01, C02, C04
	}
	all := ""
	for _, x := range sp.Lexical(s.to.SQL, lexDialects[s.target]) {
		if x.Name == "all" {
			all = x.SQL
		}
	}
	long := strings.Repeat("-- "+strings.Repeat("it's a \"long\" `comment; ", 8)+"\n", 1200) + s.to.SQL
	type way struct {
		name  string
		sql   string
		stdin bool
		same  bool // the same output; else as empty as it
	}
	ways := []way{{"stdin", s.to.SQL, true, true}, {"long-stdin", long, true, false}, {"long-file", long, false, false}}
	if all != "" {
		ways = append(ways, way{"all-stdin", all, true, false}, way{"all-file", all, false, false})
	}
	empty := func(r Result) bool { return strings.Contains(r.Out, "-- Nothing is modified --") }
	for _, x := range ways {
		r := w.run(i, t, []string{"--dry-run"}, x.sql, x.stdin)
		if r.Exit != 0 || empty(r) != empty(base) || x.same && (r.Out != base.Out || r.Err != base.Err) {
			return []eng.Failure{{Kind: "given-as-" + x.name, Detail: "prints\n" + r.Out + r.Err + "instead of\n" + base.Out + base.Err}}
		}
	}
	if r := w.run(i, t, nil, s.to.SQL, false); r.Exit != 0 {
		return nil
	}
	canon := t.Sys().Canon(t.Get())
	again := w.run(i, t, []string{"--dry-run"}, s.to.SQL, false)
	for _, x := range ways {
		t.Set(t.Sys().Clone(s.st))
		if r := w.run(i, t, nil, x.sql, x.stdin); r.Exit != 0 || t.Sys().Canon(t.Get()) != canon {
			return []eng.Failure{{Kind: "applied-as-" + x.name, Detail: r.Out + r.Err + eng.Diff(canon, t.Sys().Canon(t.Get()))}}
		}
		if again.Exit == 0 && empty(again) {
			if r := w.run(i, t, []string{"--dry-run"}, s.to.SQL, false); !empty(r) {
				return []eng.Failure{{Kind: "not-same-after-" + x.name, Detail: r.Out + r.Err}}
			}
		}
	}
	return nil
}
