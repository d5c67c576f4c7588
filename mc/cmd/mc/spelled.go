package main

import (
	"strings"

	"mc/chk"
	"mc/cli"
	"mc/eng"
)

func runSpelled(c *chk.Ctx) {
	sp := &eng.SpellStats{}
	judge := eng.JudgeSpelling(sp, c.Thorough)
	near := 4
	if c.Thorough {
		near = -1
	}
	for _, s := range []string{"sqlite", "mysql", "postgres", "mssql"} {
		x := &eng.Explorer{NewSys: newSys(s), Judge: judge, Deadline: c.Deadline, Journal: c.Journal, Workers: c.Workers}
		x.Init()
		x.RunPairs(families(s, c.Thorough), near)
		x.Done()
		for _, f := range x.Fails {
			c.Fail(f)
		}
		c.Count("states", x.Stats.States)
		c.Count("transitions", x.Stats.Transitions)
		c.Count("families", x.Stats.Families)
		for _, sm := range x.Stats.Samples {
			c.Sample(sm)
		}
		if x.Stats.Capped {
			c.Expired()
			c.Cov["capped"] = true
		}
	}
	c.Count("spellings", sp.Spellings)
	c.Count("plans_by_real_generator", sp.Plans)
	c.Count("spellings_with_another_meaning_left_out", sp.NotSame)
	c.Count("spellings_the_grammar_does_not_have", sp.Refused)
	c.Cov["kinds_of_spelling"] = sp.Kinds()
	cli.RunSpelled(c)
	for _, s := range []string{"mysql", "psql", "mssql"} {
		ok, bad := replayTraces(s)
		c.Count("traces_validated_against_impl", int64(ok))
		if len(bad) > 0 {
			c.Cov["traces_not_matching_"+s] = bad
		}
	}
}

func oneSpelled(c *chk.Ctx, id string) {
	if strings.HasPrefix(id, "cli:") {
		cli.OneSpelled(c, id)
		return
	}
	e := explore{systems: []string{"sqlite", "mysql", "postgres", "mssql"}, judge: eng.JudgeSpelling(&eng.SpellStats{}, true)}
	e.one(c, id)
}

func init() {
	reg(&chk.Check{ID: "C12", Level: "model_checking", Run: runSpelled, One: oneSpelled, Assume: []string{trustModels}})
}
