package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"

	"mc/eng"
	"mc/fam"
	"mc/sys"
)

func newSys(name string) func() eng.System {
	switch name {
	case "mysql":
		return sys.NewMySQL
	case "postgres":
		return sys.NewPostgres
	case "sqlite":
		return sys.NewSQLite
	case "mssql":
		return sys.NewMSSQL
	}
	panic("unknown system " + name)
}

func families(name string, thorough bool) []*eng.Family {
	switch name {
	case "mysql":
		return fam.MySQL(thorough)
	case "postgres":
		return fam.Postgres(thorough)
	case "sqlite":
		return fam.SQLite(thorough)
	case "mssql":
		return fam.MSSQL(thorough)
	}
	panic("unknown system " + name)
}

// cmdExplore is the development view of an exploration.
func cmdExplore(args []string) int {
	fs := flag.NewFlagSet("explore", flag.ExitOnError)
	family := fs.String("f", "", "family name substring")
	judge := fs.String("j", "converge", "judges")
	max := fs.Int("n", 10, "failures to print per family")
	thorough := fs.Bool("thorough", false, "")
	full := fs.Bool("full", false, "print repro")
	nobfs := fs.Bool("nobfs", false, "")
	near := fs.Int("near", 0, "pairs only")
	only := fs.String("case", "", "substring of case")
	fs.Parse(args[1:])
	x := &eng.Explorer{NewSys: newSys(args[0]), Prop: "dev", NoBFS: *nobfs}
	sp := &eng.SpellStats{}
	spelling := eng.JudgeSpelling(sp, *thorough)
	eng.Debug = os.Getenv("MCDEBUG") != ""
	x.KeepMid = strings.Contains(*judge, "local")
	idem, export, alone := eng.JudgeIdem(), eng.JudgeExport(), eng.JudgeAlone(fam.By, *thorough)
	x.Judge = func(t *eng.Trans) (fs []eng.Failure) {
		if strings.Contains(*judge, "converge") {
			fs = append(fs, eng.JudgeConverge(t)...)
		}
		if strings.Contains(*judge, "idem") && len(fs) == 0 {
			fs = append(fs, idem(t)...)
		}
		if strings.Contains(*judge, "local") && len(fs) == 0 {
			fs = append(fs, eng.JudgeLocal(t)...)
		}
		if strings.Contains(*judge, "export") && len(fs) == 0 {
			fs = append(fs, export(t)...)
		}
		if strings.Contains(*judge, "alone") && len(fs) == 0 {
			fs = append(fs, alone(t)...)
		}
		if strings.Contains(*judge, "spell") && len(fs) == 0 {
			fs = append(fs, spelling(t)...)
		}
		if strings.Contains(*judge, "rows") && len(fs) == 0 {
			fs = append(fs, sys.JudgeRows(t)...)
		}
		return
	}
	if pf := os.Getenv("MCPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	x.Init()
	if *judge == "defs" {
		x.KeepMid = true
		for _, f := range fam.Defs(args[0], *thorough) {
			if !strings.Contains(f.Name, *family) {
				continue
			}
			start := time.Now()
			ds := &eng.DefStats{}
			x.Fails = nil
			x.RunDefs([]*eng.Family{f}, ds, 1, *only)
			x.SortFails()
			fmt.Printf("== %s: %d definitions, %d not accepted, %d not in grammar, %d not read, %d pairs, %d same, %d failures, %.1fs\n", f.Name, ds.Definitions, ds.NotAccepted, ds.NotInGrammar, ds.NotRead, ds.Pairs, ds.Same, len(x.Fails), time.Since(start).Seconds())
			if *full {
				for _, l := range ds.Left {
					fmt.Println("   -", l)
				}
			}
			for i, fl := range x.Fails {
				if i >= *max {
					fmt.Println("   ...")
					break
				}
				fmt.Printf(" * %s\n     %s\n", fl.FKey(), strings.Replace(fl.Detail, "\n", "\n     ", -1))
			}
		}
		x.Done()
		return 0
	}
	for _, f := range families(args[0], *thorough) {
		if !strings.Contains(f.Name, *family) {
			continue
		}
		start := time.Now()
		s0 := x.Stats
		x.Fails = nil
		if *near != 0 {
			x.RunPairs([]*eng.Family{f}, *near)
		} else {
			x.Run(f)
		}
		x.SortFails()
		fmt.Printf("== %s: %d variants, %d states, %d transitions (%d empty), %d failures, %.1fs\n", f.Name, len(f.Variants), x.Stats.States-s0.States, x.Stats.Transitions-s0.Transitions, x.Stats.Empty-s0.Empty, len(x.Fails), time.Since(start).Seconds())
		n := 0
		for _, fl := range x.Fails {
			if !strings.Contains(fl.Case, *only) {
				continue
			}
			if n >= *max {
				fmt.Println("   ...")
				break
			}
			n++
			fmt.Printf(" * %s\n     %s\n", fl.FKey(), strings.Replace(fl.Detail, "\n", "\n     ", -1))
			if *full && fl.Repro != nil {
				fmt.Printf("     CURRENT:\n%v\n     DESIRED:\n%v\n     PLAN: %q\n", fl.Repro["current_dump"], fl.Repro["desired"], fl.Repro["plan"])
			}
		}
	}
	x.Done()
	_ = os.Stdout
	return 0
}
