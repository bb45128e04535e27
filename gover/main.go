package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: gover check|dev ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2:]))
	case "dev":
		dev(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func z3Solver() *Solver { return newSolver("z3", "-in", "-smt2") }

// dev verifies contracts and prints what fails.
func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	dir := fs.String("contracts", "/verif/contracts", "")
	only := fs.String("only", "", "")
	not := fs.String("not", "", "")
	max := fs.Int("max", 5, "")
	fs.Parse(args)
	t0 := time.Now()
	w, err := loadWorld(*repo, *dir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	fmt.Println("loaded in", time.Since(t0))
	for _, p := range w.problems {
		fmt.Println("problem:", p)
	}
	for _, con := range w.all {
		if *only != "" && !strings.Contains(con.name, *only) || containsAny(con.name, *not) {
			continue
		}
		if con.missing || con.trusted {
			continue
		}
		r := verify(w, con, z3Solver, nil)
		fmt.Printf("%-40s pre %d paths %d normal %d obligations %d failed %d steps %d %v %s\n", con.name, r.pres, r.paths, r.normal, len(r.obs), len(r.failed()), r.steps, r.wall.Round(time.Millisecond), r.err)
		for i, o := range r.failed() {
			if i >= *max {
				break
			}
			fmt.Println("  FAILED", o.Name, o.Labels, o.Detail)
		}
	}
	fmt.Println("total", time.Since(t0), "queries", totalQueries, time.Duration(totalSolverNanos))
	if crossCheck {
		fmt.Println("confirmed", confirmed, "unconfirmed", unconfirmed, "refuted", refuted)
	}
}

// containsAny reports whether one of the comma-separated parts occurs in s.
func containsAny(s, parts string) bool {
	for _, p := range strings.Split(parts, ",") {
		if p != "" && strings.Contains(s, p) {
			return true
		}
	}
	return false
}
