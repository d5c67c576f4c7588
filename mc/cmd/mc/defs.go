package main

import (
	"mc/chk"
	"mc/eng"
	"mc/fam"
)

func runDefs(c *chk.Ctx, only string) {
	own := 2
	if c.Thorough {
		own = 1
	}
	ds := &eng.DefStats{}
	for _, s := range []string{"sqlite", "mysql", "postgres", "mssql"} {
		x := &eng.Explorer{NewSys: newSys(s), KeepMid: true, Deadline: c.Deadline, Journal: c.Journal, Workers: c.Workers}
		x.Init()
		x.RunDefs(fam.Defs(s, c.Thorough), ds, own, only)
		x.Done()
		for _, f := range x.Fails {
			c.Fail(f)
		}
		c.Count("states", x.Stats.States)
		c.Count("transitions", x.Stats.Transitions)
		c.Count("plans_by_real_generator", x.Stats.Plans)
		c.Count("statements_executed", x.Stats.Statements)
		c.Count("families", x.Stats.Families)
		for _, sm := range x.Stats.Samples {
			c.Sample(sm)
		}
		if x.Stats.Capped {
			c.Expired()
			c.Cov["capped"] = true
		}
	}
	c.Count("definitions", ds.Definitions)
	c.Count("definitions_not_accepted_by_the_database", ds.NotAccepted)
	c.Count("definitions_whose_export_the_tool_does_not_read", ds.NotRead)
	c.Count("pairs_that_mean_the_same", ds.Same)
	if only != "" {
		return
	}
	for _, s := range []string{"mysql", "psql", "mssql"} {
		ok, bad := replayTraces(s)
		c.Count("traces_validated_against_impl", int64(ok))
		if len(bad) > 0 {
			c.Cov["traces_not_matching_"+s] = bad
		}
	}
}

func init() {
	reg(&chk.Check{ID: "C15", Level: "model_checking", Run: func(c *chk.Ctx) { runDefs(c, "") }, One: runDefs, Assume: []string{trustModels}})
}
