package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// check decides one property: it verifies the contracts that carry it, and
// runs the bounded stand-in that belongs to it.
func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "")
	repo := fs.String("repo", "/repo", "")
	root := fs.String("verif", "/verif", "")
	tier := fs.String("tier", "quick", "")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{}
	budget := 300 * time.Second
	if *tier == "thorough" {
		budget = 1500 * time.Second
		crossCheck = true
	}
	deadline = t0.Add(budget)

	var oracle oracleResult
	oracleDone := make(chan bool)
	go func() {
		oracle = runOracle(*repo, *root, *prop, *tier, seed)
		close(oracleDone)
	}()

	known := knownFindings(filepath.Join(*root, "known-findings.txt"))
	w, err := loadWorld(*repo, filepath.Join(*root, "contracts"))
	var undecided []string
	var results []*Result
	foundKnown := map[string]bool{}
	if err != nil {
		undecided = append(undecided, "the code could not be loaded: "+err.Error())
	} else {
		var todo []*Contract
		for _, con := range w.all {
			shares := *prop == "C23" && con.target != nil && !con.missing && w.usesShared(con.target)
			if !con.carries(*prop) && !shares {
				continue
			}
			if con.trusted {
				continue
			}
			if con.missing {
				undecided = append(undecided, con.name+": function under contract not found, or its signature changed")
				continue
			}
			todo = append(todo, con)
		}
		for _, p := range w.problems {
			if strings.Contains(p, "does not fit") {
				undecided = append(undecided, p)
			}
		}
		results = verifyAll(w, todo, *prop, known, foundKnown)
		if *prop == "C23" {
			results = append(results, guardResults(w, results)...)
		}
	}
	<-oracleDone

	// the verdict
	total, discharged := 0, 0
	by := map[string]int{}
	var failed []*Obligation
	var funcs []map[string]any
	used, inlined, assumed := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range results {
		n, d := 0, 0
		for _, o := range r.obs {
			if !o.has(*prop) {
				continue
			}
			n++
			if o.OK {
				d++
				by[o.By]++
			} else {
				failed = append(failed, o)
			}
		}
		if r.err != "" {
			undecided = append(undecided, r.con.name+": "+r.err)
		} else if n == 0 && len(r.con.props) > 0 && r.con.hasProp(*prop) {
			undecided = append(undecided, r.con.name+": no obligation was generated")
		}
		total += n
		discharged += d
		kind := "contract"
		if r.con.lemma {
			kind = "lemma"
		}
		funcs = append(funcs, map[string]any{"function": r.con.name, "kind": kind, "obligations": n, "discharged": d, "paths": r.paths,
			"normal_paths": r.normal, "pre_cases": r.pres, "wall_s": round(r.wall), "undecided": r.err})
		for k := range r.used {
			used[k] = true
		}
		for k := range r.inlined {
			inlined[k] = true
		}
		for k := range r.assumed {
			assumed[k] = true
		}
	}
	for f := range foundKnown {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[f])
	}
	for _, k := range oracle.known {
		if !foundKnown[k] && known[k] != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[k])
		}
	}
	violations := len(failed)
	if oracle.failing != "" {
		violations++
	}
	code := 0
	if violations > 0 {
		code = 1
		path := filepath.Join(*root, "evidence", "replay-"+*prop+".txt")
		os.MkdirAll(filepath.Dir(path), 0o755)
		os.WriteFile(path, replayText(*prop, failed, oracle), 0o644)
		line := fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, path)
		for i, o := range failed {
			if i == 5 {
				fmt.Printf("... %d more failed obligations\n", len(failed)-i)
				break
			}
			fmt.Println("failed obligation:", o.Name, firstLine(o.Detail))
		}
		if oracle.failing == "" {
			line += " no-failing-input-found"
		} else {
			fmt.Println("failing input:", firstLine(oracle.failing))
		}
		fmt.Println(line)
	}
	if oracle.err != "" && oracle.err != "none" {
		fmt.Println("NOTE: bounded stand-in:", firstLine(oracle.err))
	}
	sort.Strings(undecided)
	for _, u := range undecided {
		fmt.Println("NOTE: not decided by proof on this tree (bounded stand-in only):", u)
	}

	level := "proof"
	cov := map[string]any{
		"obligations": total, "discharged": discharged,
		"checker_cmd":        "z3 -in -smt2 (4.8.12), after gover's normaliser; bash /verif/check.sh " + *prop + " " + *tier,
		"trusted_base":       trustedBase,
		"discharged_by":      by,
		"functions":          funcs,
		"functions_verified": len(funcs),
		"callee_contracts":   sortedSet(used),
		"functions_inlined":  sortedSet(inlined),
		"solver_s":           round(time.Duration(totalSolverNanos)),
		"solver_queries":     totalQueries,
		"second_solver":      map[string]any{"used": crossCheck, "name": "cvc5 1.1.2", "confirmed": confirmed, "unconfirmed": unconfirmed, "refuted": refuted},
		"not_decided":        undecided,
		"bounded_stand_in":   oracle.summary(),
	}
	ev["property"], ev["tier"], ev["seed"], ev["level"] = *prop, tierName(*tier), seed, level
	ev["coverage"] = cov
	as := append([]string(nil), standingAssumptions...)
	for _, a := range sortedSet(assumed) {
		as = append(as, "assumed: "+a)
	}
	ev["assumptions"] = as
	ev["wall_s"] = round(time.Since(t0))
	ev["violations"] = violations
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d of %d obligations discharged in %d functions; stand-in: %d cases; %.1fs\n", *prop, discharged, total, len(funcs), oracle.cases, time.Since(t0).Seconds())
	return code
}

func tierName(t string) string {
	if t == "thorough" {
		return t
	}
	return "quick"
}

func round(d time.Duration) float64 { return float64(d.Milliseconds()) / 1000 }

func firstLine(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	return s
}

func sortedSet(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var trustedBase = []string{
	"go/types and golang.org/x/tools/go/ssa (translation of the real source to SSA form)",
	"gover's symbolic executor, term normaliser and loop matching (/verif/gover)",
	"z3 4.8.12",
	"gover's models of package reflect, errors, fmt, strconv, strings, sync and encoding/binary functions (uninterpreted functions of their arguments and of the reflect heap, with the algebraic rules in rules.go and intrinsics.go)",
	"the Go compiler and runtime",
}

var standingAssumptions = []string{
	"preconditions written in the contracts (//gover:pre) hold at the callers: byte order is binary.LittleEndian or binary.BigEndian, bit positions are within a byte, bit widths do not exceed the type, skips are not negative and below 2^50 bits, packing starts from a zeroed buffer",
	"distinct pointers and slices given to a function are not aliased, except where the contract says so",
	"partial correctness of loops and recursion: a contract speaks about executions that end, unless a termination argument is listed",
	"memory exhaustion, stack overflow and asynchronous interference are outside the contracts; the memory model is sequential",
	"machine integers are modelled exactly (64-bit int); floating point operations are uninterpreted functions",
	"text of error messages is not part of the contracts, except where a property names it",
}

func (c *Contract) hasProp(p string) bool {
	for _, q := range c.props {
		if q == p {
			return true
		}
	}
	return false
}

func (c *Contract) carries(p string) bool {
	for _, q := range c.notes {
		if q == p {
			return true
		}
	}
	return c.hasProp(p)
}

func (o *Obligation) has(p string) bool {
	for _, l := range o.Labels {
		if l == p {
			return true
		}
	}
	return false
}

// verifyAll verifies contracts, the ones without split cases side by side. A
// contract that fails and names a known finding is tried again with it.
func verifyAll(w *World, cons []*Contract, prop string, known map[string]string, found map[string]bool) []*Result {
	out := make([]*Result, len(cons))
	var mu sync.Mutex
	run := func(i int) {
		con := cons[i]
		r := verify(w, con, z3Solver, nil)
		bad := func(r *Result) bool {
			for _, o := range r.obs {
				if !o.OK && (prop == "" || o.has(prop)) {
					return true
				}
			}
			return false
		}
		if bad(r) && len(con.findings) > 0 {
			fm := map[string]bool{}
			for _, f := range con.findings {
				if known[f] != "" {
					fm[f] = true
				}
			}
			if len(fm) > 0 {
				r2 := verify(w, con, z3Solver, fm)
				if !bad(r2) && r2.err == "" {
					r = r2
					mu.Lock()
					for f := range fm {
						found[f] = true
					}
					mu.Unlock()
				}
			}
		}
		out[i] = r
	}
	sem := make(chan bool, runtime.NumCPU())
	var wg sync.WaitGroup
	for i, con := range cons {
		if con.split {
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sem <- true
			run(i)
			<-sem
		}(i)
	}
	wg.Wait()
	for i, con := range cons {
		if con.split {
			run(i)
		}
	}
	return out
}

func knownFindings(path string) map[string]string {
	out := map[string]string{}
	b, _ := os.ReadFile(path)
	re := regexp.MustCompile(`^finding: property=(\S+) id=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out[m[2]] = m[3]
		}
	}
	return out
}

func replayText(prop string, failed []*Obligation, or oracleResult) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "property %s\n", prop)
	if or.failing != "" {
		fmt.Fprintf(&b, "\nfailing input, run against the real code (%s):\n%s\n", or.cmd, or.failing)
	} else {
		fmt.Fprintf(&b, "\nno failing input was found (stand-in: %s)\n", or.summaryLine())
	}
	for i, o := range failed {
		if i == 40 {
			fmt.Fprintf(&b, "\n... %d more\n", len(failed)-i)
			break
		}
		fmt.Fprintf(&b, "\nfailed obligation %s\n  contract of %s\n  %s\n", o.Name, o.Contract, o.Detail)
		if o.Model != "" && i < 5 {
			fmt.Fprintf(&b, "  verifier: %s\n", o.Model)
		}
	}
	return b.Bytes()
}

// ---- the bounded stand-in: an executable reading of the property that is run
// against the real code, also to find failing inputs for failed obligations.

type oracleResult struct {
	ran     bool
	failing string
	known   []string
	cases   int
	cmd     string
	err     string
	rule    string
	wall    time.Duration
}

func (o oracleResult) summaryLine() string {
	if !o.ran {
		return "not run: " + o.err
	}
	return fmt.Sprintf("%d cases in %s", o.cases, o.wall.Round(time.Millisecond))
}

func (o oracleResult) summary() map[string]any {
	return map[string]any{"label": "bounded: not counted as proved", "ran": o.ran, "cases": o.cases, "rule": o.rule, "failing": o.failing != "", "error": o.err, "wall_s": round(o.wall)}
}

func runOracle(repo, root, prop, tier string, seed int) (res oracleResult) {
	t0 := time.Now()
	defer func() { res.wall = time.Since(t0) }()
	found := false
	re := regexp.MustCompile(`func TestVerif` + prop + `\b`)
	for _, sub := range []string{"restruct", "expr"} {
		files, _ := filepath.Glob(filepath.Join(root, "oracle", sub, "*_test.go"))
		has := false
		var flags []string
		use := map[string]string{}
		dest := repo
		pkg := "."
		if sub == "expr" {
			dest = filepath.Join(repo, "expr")
			pkg = "./expr"
		}
		for _, f := range files {
			b, _ := os.ReadFile(f)
			mine := re.Match(b)
			if mine {
				has = true
				if m := regexp.MustCompile(`(?m)^// verif:flags (.*)$`).FindSubmatch(b); m != nil {
					flags = append(flags, strings.Fields(string(m[1]))...)
				}
			}
			if mine || strings.HasPrefix(filepath.Base(f), "common_") {
				use[filepath.Join(dest, "zz_verif_"+filepath.Base(f))] = f
			}
		}
		if !has {
			continue
		}
		found = true
		ran := false
		tmp, err := os.MkdirTemp("", "gover")
		if err != nil {
			res.err = err.Error()
			return
		}
		defer os.RemoveAll(tmp)
		ov, _ := json.Marshal(map[string]any{"Replace": use})
		ovf := filepath.Join(tmp, "overlay.json")
		os.WriteFile(ovf, ov, 0o644)
		limit := 150 * time.Second
		if tier == "thorough" {
			limit = 900 * time.Second
		}
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		argv := append([]string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-v", "-timeout", fmt.Sprint(limit), "-run", "^TestVerif" + prop + "$"}, flags...)
		argv = append(argv, pkg)
		cmd := exec.CommandContext(ctx, "go", argv...)
		cmd.Dir = repo
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOMAXPROCS=4",
			"VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		cmd.WaitDelay = 2 * time.Second
		err = cmd.Run()
		cmdline := "VERIF_SEED=" + strconv.Itoa(seed) + " go " + strings.Join(argv, " ")
		if res.cmd == "" || res.failing == "" {
			res.cmd = cmdline
		}
		text := out.String()
		failing := ""
		for _, l := range strings.Split(text, "\n") {
			if s, ok := cutAfter(l, "VERIF-CASES: "); ok {
				n, _ := strconv.Atoi(s)
				res.cases += n
				ran = true
			}
			if s, ok := cutAfter(l, "VERIF-RULE: "); ok {
				if res.rule != "" {
					s = res.rule + "; " + s
				}
				res.rule = s
			}
			if s, ok := cutAfter(l, "VERIF-KNOWN: "); ok {
				res.known = append(res.known, s)
			}
			if s, ok := cutAfter(l, "VERIF-FAIL: "); ok {
				if len(failing) < 4000 {
					failing += s + "\n"
				}
			}
		}
		if i := strings.Index(text, "WARNING: DATA RACE"); i >= 0 && err != nil {
			t := text[i:]
			if len(t) > 3000 {
				t = t[:3000]
			}
			failing += t + "\n"
		}
		if err != nil && failing == "" {
			if strings.Contains(text, "panic: test timed out") || ctx.Err() != nil {
				res.err = "the stand-in ran out of time"
			} else if !strings.Contains(text, "[build failed]") && !strings.Contains(text, "[setup failed]") && (strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:")) {
				failing = "the process ended: " + tail(text, 3000)
				if i := strings.LastIndex(text, "VERIF-AT: "); i >= 0 {
					failing = "the process ended at " + firstLine(text[i:]) + "\n" + failing
				}
			} else {
				res.err = "the stand-in does not run on this tree: " + tail(text, 1500)
			}
			ran = false
		}
		res.failing += failing
		res.ran = res.ran || ran
	}
	if !found {
		res.err = "none"
	}
	return
}

func cutAfter(l, p string) (string, bool) {
	i := strings.Index(l, p)
	if i < 0 {
		return "", false
	}
	return l[i+len(p):], true
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
