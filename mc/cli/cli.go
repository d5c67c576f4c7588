// Package cli runs the real command line tools as processes.
package cli

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// Tools are the commands of the repository.
var Tools = []string{"mysqldef", "psqldef", "sqlite3def", "mssqldef"}

// Build builds the tools from the repository's working tree into dir.
func Build(repo, dir string, tools ...string) error {
	for _, t := range tools {
		cmd := exec.Command("go", "build", "-mod=readonly", "-o", filepath.Join(dir, t), "./cmd/"+t)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly")
		if out, err := cmd.CombinedOutput(); err != nil {
			return fmt.Errorf("building %s: %v: %s", t, err, out)
		}
	}
	return nil
}

// Result is what a run of a tool showed.
type Result struct {
	Exit    int // -1: did not end by itself
	Out     string
	Err     string
	Timeout bool
}

// Crashed tells whether the process ended by a panic or a signal.
func (r Result) Crashed() bool {
	return r.Exit < 0 && !r.Timeout || strings.Contains(r.Err, "\ngoroutine ") || strings.HasPrefix(r.Err, "panic:") || strings.Contains(r.Err, "\npanic:") || strings.HasPrefix(r.Err, "fatal error:")
}

func (r Result) String() string {
	return fmt.Sprintf("exit %d\nstdout: %s\nstderr: %s", r.Exit, r.Out, r.Err)
}

// Cmd is one invocation.
type Cmd struct {
	Bin     string
	Args    []string
	Stdin   string
	NoStdin bool // stdin is a terminal-less device
	Tty     *os.File
	Env     []string
	Dir     string
	Timeout time.Duration
}

// Run runs it.
func (c Cmd) Run() Result {
	to := c.Timeout
	if to == 0 {
		to = 60 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.Bin, c.Args...)
	cmd.Dir = c.Dir
	cmd.Env = append([]string{"HOME=/nonexistent", "PATH=/usr/bin:/bin", "PGSSLMODE=disable"}, c.Env...)
	if c.Tty != nil {
		cmd.Stdin = c.Tty
	} else if !c.NoStdin {
		cmd.Stdin = strings.NewReader(c.Stdin)
	}
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	err := cmd.Run()
	r := Result{Out: out.String(), Err: er.String()}
	if ctx.Err() != nil {
		r.Timeout = true
	}
	if err != nil {
		r.Exit = -1
		if e, ok := err.(*exec.ExitError); ok {
			r.Exit = e.ExitCode()
		} else if !r.Timeout {
			r.Err += "\ncannot run: " + err.Error()
		}
	}
	return r
}
