// Package conform replays the repository's own database test suites, whose expectations were recorded against real servers,
// against the model servers.
package conform

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// Client executes what the mysql/psql/sqlcmd command line clients are given.
type Client interface {
	Client(db, sql string) (string, error)
}

// Control serves fake clients on a unix socket.
func Control(path string, c Client) (net.Listener, error) {
	l, err := net.Listen("unix", path)
	if err != nil {
		return nil, err
	}
	go func() {
		for {
			conn, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer conn.Close()
				var req struct{ DB, SQL string }
				if json.NewDecoder(conn).Decode(&req) != nil {
					return
				}
				out, err := c.Client(req.DB, req.SQL)
				var resp struct{ Out, Err string }
				resp.Out = out
				if err != nil {
					resp.Err = err.Error()
				}
				json.NewEncoder(conn).Encode(resp)
			}()
		}
	}()
	return l, nil
}

// FakeClient is main() of the fake command line clients.
func FakeClient(name string, args []string) int {
	db, sql := "", ""
	for i := 0; i < len(args); i++ {
		a := args[i]
		switch {
		case a == "-e" || a == "-c" || a == "-Q":
			i++
			sql = args[i]
		case a == "-h" && name == "sqlcmd":
			i++
		case strings.HasPrefix(a, "-d") && name == "sqlcmd":
			db = a[2:]
		case strings.HasPrefix(a, "-"):
		default:
			db = a
		}
	}
	c, err := net.Dial("unix", os.Getenv("MC_CONTROL"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	json.NewEncoder(c).Encode(map[string]string{"DB": db, "SQL": sql})
	var resp struct{ Out, Err string }
	if err := json.NewDecoder(c).Decode(&resp); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 1
	}
	fmt.Print(resp.Out)
	if resp.Err != "" {
		fmt.Println(resp.Err)
		return 1
	}
	return 0
}

// Result of a replay.
type Result struct {
	Passed []string
	Failed map[string]string
}

// Replay builds cmd/<tool> and its test binary from repo and runs the tests with the fake clients on PATH.
func Replay(repo, tool, client string, c Client, run string) (*Result, error) {
	dir, err := ioutil.TempDir("", "mcconform")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	bin := filepath.Join(dir, "bin")
	os.MkdirAll(bin, 0755)
	self, _ := os.Executable()
	sh := func(env []string, wd, name string, args ...string) error {
		cmd := exec.Command(name, args...)
		cmd.Dir = wd
		cmd.Env = append(os.Environ(), env...)
		out, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("%s %v: %v: %s", name, args, err, out)
		}
		return nil
	}
	if err := sh(nil, repo, "go", "build", "-o", filepath.Join(bin, tool), "./cmd/"+tool); err != nil {
		return nil, err
	}
	if err := sh(nil, repo, "go", "test", "-vet=off", "-c", "-o", filepath.Join(dir, "t.test"), "./cmd/"+tool); err != nil {
		return nil, err
	}
	os.Symlink(self, filepath.Join(bin, client))
	ioutil.WriteFile(filepath.Join(bin, "go"), []byte("#!/bin/sh\nexit 0\n"), 0755)
	sock := filepath.Join(dir, "ctl")
	l, err := Control(sock, c)
	if err != nil {
		return nil, err
	}
	defer l.Close()
	args := []string{"-test.v"}
	if run != "" {
		args = append(args, "-test.run", run)
	}
	cmd := exec.Command(filepath.Join(dir, "t.test"), args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "MC_CONTROL="+sock, "PATH="+bin+":"+os.Getenv("PATH"))
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.Run()
	r := &Result{Failed: map[string]string{}}
	re := regexp.MustCompile(`(?m)^--- (PASS|FAIL|SKIP): (\S+)`)
	text := buf.String()
	ms := re.FindAllStringSubmatchIndex(text, -1)
	for i, m := range ms {
		st, name := text[m[2]:m[3]], text[m[4]:m[5]]
		start, end := 0, m[1]
		if i > 0 {
			start = ms[i-1][1]
		}
		if st == "PASS" {
			r.Passed = append(r.Passed, name)
		} else {
			r.Failed[name] = text[start:end]
		}
	}
	sort.Strings(r.Passed)
	if len(ms) == 0 {
		return r, fmt.Errorf("no test ran: %s", text)
	}
	return r, nil
}
