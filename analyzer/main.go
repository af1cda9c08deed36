// Command zmqcheck decides the properties of /verif/properties.jsonl by
// static analysis of the module in /repo.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"time"
)

type checkFn func(p *Program, r *Report)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func main() {
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		exe, err := os.Executable()
		if err == nil {
			verif = filepath.Dir(filepath.Dir(exe))
		}
	}
	args := os.Args[1:]
	if len(args) == 0 {
		fmt.Fprintln(os.Stderr, "usage: zmqcheck ID... | all | list")
		os.Exit(2)
	}
	if args[0] == "list" {
		for _, id := range ids() {
			fmt.Println(id)
		}
		return
	}
	if args[0] == "all" {
		args = ids()
	}
	if dbg(args, repo) {
		return
	}
	code := 0
	var prog *Program
	for _, id := range args {
		if c := runCheck(id, repo, verif, &prog); c > code {
			code = c
		}
	}
	os.Exit(code)
}

func ids() []string {
	var out []string
	for k := range checks {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// runCheck never ends in anything but 0 or 1: what cannot be analysed is not
// shown to hold.
func runCheck(id, repo, verif string, prog **Program) (code int) {
	start := time.Now()
	r := newReport(id)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if ae, ok := e.(analysisError); ok {
					r.fail("analysis", "-", nil, "%s", string(ae))
					return
				}
				r.fail("analysis-panic", "-", nil, "the analysis failed: %v\n%s", e, debug.Stack())
			}
		}()
		f, ok := checks[id]
		if !ok {
			fatalf("no such check: %s", id)
		}
		if *prog == nil {
			*prog = load(repo)
		}
		f(*prog, r)
		if r.obligations == 0 {
			fatalf("the check had no obligations")
		}
	}()
	return r.finish(*prog, verif, start)
}

var dbgCmds = map[string]func(p *Program, args []string){}

func dbg(args []string, repo string) bool {
	f, ok := dbgCmds[args[0]]
	if !ok {
		return false
	}
	f(load(repo), args[1:])
	return true
}
