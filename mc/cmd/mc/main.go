package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"mc/conform"
	"mc/ms"
	"mc/my"
	"mc/pg"
)

var repo = "/repo"

func main() {
	switch n := filepath.Base(os.Args[0]); n {
	case "mysql", "psql", "sqlcmd":
		os.Exit(conform.FakeClient(n, os.Args[1:]))
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc <command>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:], false))
	case "child":
		os.Exit(cmdCheck(os.Args[2:], true))
	case "explore":
		os.Exit(cmdExplore(os.Args[2:]))
	case "conform":
		os.Exit(cmdConform(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func cmdConform(args []string) int {
	run := ""
	if len(args) > 1 {
		run = args[1]
	}
	var r *conform.Result
	var err error
	switch args[0] {
	case "mysql":
		s := my.NewServer()
		if err := s.StartAt("tcp", "127.0.0.1:3306"); err != nil {
			fmt.Println(err)
			return 2
		}
		r, err = conform.Replay(repo, "mysqldef", "mysql", s, run)
	case "psql":
		s := pg.NewServer()
		if err := s.StartAt("tcp", "127.0.0.1:5432"); err != nil {
			fmt.Println(err)
			return 2
		}
		os.Setenv("PGSSLMODE", "disable")
		r, err = conform.Replay(repo, "psqldef", "psql", s, run)
		if s.Inconclusive != "" {
			fmt.Println("inconclusive:", s.Inconclusive)
		}
	case "mssql":
		s := ms.NewServer()
		if err := s.StartAt("tcp", "127.0.0.1:1433"); err != nil {
			fmt.Println(err)
			return 2
		}
		r, err = conform.Replay(repo, "mssqldef", "sqlcmd", s, run)
		if s.Inconclusive != "" {
			fmt.Println("inconclusive:", s.Inconclusive)
		}
	}
	if r != nil {
		var n []string
		for k := range r.Failed {
			n = append(n, k)
		}
		sort.Strings(n)
		for _, k := range n {
			fmt.Println(r.Failed[k])
		}
		fmt.Printf("passed %d failed %d: %v\n", len(r.Passed), len(n), n)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}
