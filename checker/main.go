package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
)

// A check analyses the program and fills the report.
type check func(p *Program, r *Report)

var checks = map[string]check{}

func main() {
	os.Exit(run())
}

func run() (code int) {
	if len(os.Args) < 2 {
		fmt.Println("usage: checker ID...")
		return 1
	}
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		exe, _ := os.Executable()
		root = filepath.Dir(filepath.Dir(exe))
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	ids := os.Args[1:]
	if ids[0] == "all" {
		ids = nil
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
	}
	p, err := LoadProgram(repo)
	for _, id := range ids {
		c := runOne(id, p, err, root)
		if c != 0 {
			code = c
		}
	}
	return code
}

func runOne(id string, p *Program, lerr error, root string) (code int) {
	r := NewReport(id, p)
	defer func() {
		if x := recover(); x != nil {
			fmt.Fprintf(os.Stderr, "internal error: %v\n%s\n", x, debug.Stack())
			r.Violate("internal", posZero, nil, "the analysis stopped on an internal error: %v", x)
			code = r.Finish(root)
		}
	}()
	if lerr != nil {
		r.Violate("load", posZero, nil, "cannot load the repository: %v", lerr)
		return r.Finish(root)
	}
	c, ok := checks[id]
	if !ok {
		fmt.Printf("unknown property %s\n", id)
		return 1
	}
	c(p, r)
	return r.Finish(root)
}
