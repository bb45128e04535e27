package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// Solver drives a persistent SMT process.
type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	path  string
	args  []string
	Calls int
	Time  time.Duration
}

var totalQueries, totalSolverNanos int64

func newSolver(path string, args ...string) *Solver {
	return &Solver{path: path, args: args}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.path, s.args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	return s.cmd.Start()
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func smtName(n string) string {
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|"
}

// script prints the assertion of ts.
func script(ts []*Term) string {
	var order []*Term
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			visit(a)
		}
		order = append(order, t)
	}
	for _, t := range ts {
		visit(t)
	}
	sorts := map[string]bool{}
	funs := map[string]string{}
	lits := map[*Sort][]string{}
	var addSort func(s *Sort)
	addSort = func(s *Sort) {
		switch s.K {
		case kUn:
			sorts[s.Name] = true
		case kArr:
			addSort(s.Rng)
		}
	}
	for _, t := range order {
		addSort(t.s)
		switch t.op {
		case oApp:
			var as []string
			for _, a := range t.args {
				as = append(as, a.s.Name)
			}
			sig := fmt.Sprintf("(%s) %s", strings.Join(as, " "), t.s.Name)
			key := t.name + sig
			funs[key] = fmt.Sprintf("(declare-fun %s %s)", smtName(key), sig)
		case oLit:
			lits[t.s] = append(lits[t.s], smtName("'"+t.name+t.s.Name))
		}
	}
	var b strings.Builder
	names := make([]string, 0, len(sorts))
	for s := range sorts {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	for s, ns := range lits {
		for _, n := range ns {
			fmt.Fprintf(&b, "(declare-fun %s () %s)\n", n, s.Name)
		}
		if len(ns) > 1 {
			fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(ns, " "))
		}
	}
	keys := make([]string, 0, len(funs))
	for k := range funs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		b.WriteString(funs[k] + "\n")
	}
	ref := func(t *Term) string {
		switch t.op {
		case oTrue:
			return "true"
		case oFalse:
			return "false"
		case oConst:
			return fmt.Sprintf("(_ bv%d %d)", t.val, t.s.W)
		case oLit:
			return smtName("'" + t.name + t.s.Name)
		case oApp:
			if len(t.args) == 0 {
				return smtName(t.name + "() " + t.s.Name)
			}
		}
		return fmt.Sprintf("t%d", t.id)
	}
	for _, t := range order {
		if len(t.args) == 0 {
			continue
		}
		var e string
		as := make([]string, len(t.args))
		for i, a := range t.args {
			as[i] = ref(a)
		}
		j := strings.Join(as, " ")
		switch t.op {
		case oApp:
			var ss []string
			for _, a := range t.args {
				ss = append(ss, a.s.Name)
			}
			sig := fmt.Sprintf("(%s) %s", strings.Join(ss, " "), t.s.Name)
			e = fmt.Sprintf("(%s %s)", smtName(t.name+sig), j)
		case oAdd:
			var parts []string
			for i, a := range as {
				if t.coefs[i] == 1 {
					parts = append(parts, a)
				} else {
					parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", t.coefs[i], t.s.W, a))
				}
			}
			if t.val != 0 || len(parts) == 1 {
				parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.val, t.s.W))
			}
			e = parts[0]
			for _, p := range parts[1:] {
				e = fmt.Sprintf("(bvadd %s %s)", e, p)
			}
		case oExtract:
			e = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, j)
		case oSext:
			e = fmt.Sprintf("((_ sign_extend %d) %s)", t.s.W-t.args[0].s.W, j)
		case oConstArr:
			e = fmt.Sprintf("((as const %s) %s)", t.s.Name, j)
		case oConcat:
			e = as[0]
			for _, p := range as[1:] {
				e = fmt.Sprintf("(concat %s %s)", e, p)
			}
		default:
			e = fmt.Sprintf("(%s %s)", opNames[t.op], j)
		}
		fmt.Fprintf(&b, "(define-fun t%d () %s %s)\n", t.id, t.s.Name, e)
	}
	for _, t := range ts {
		fmt.Fprintf(&b, "(assert %s)\n", ref(t))
	}
	return b.String()
}

type satResult int

const (
	sUnsat satResult = iota
	sSat
	sUnknown
)

// Check decides the conjunction of ts. When wantModel is set and the result is
// sat, the model is returned.
func (s *Solver) Check(ts []*Term, wantModel bool, timeoutMs int) (satResult, string) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Calls++
		s.Time += d
		atomic.AddInt64(&totalQueries, 1)
		atomic.AddInt64(&totalSolverNanos, int64(d))
	}()
	if s.cmd == nil {
		if err := s.start(); err != nil {
			return sUnknown, err.Error()
		}
		fmt.Fprintf(s.in, "(set-option :print-success false)\n")
		if s.path == "z3" {
			fmt.Fprintf(s.in, "(set-option :produce-models true)\n")
		} else {
			fmt.Fprintf(s.in, "(set-logic ALL)\n")
		}
	}
	opt := ""
	if timeoutMs > 0 {
		opt = fmt.Sprintf("(set-option :timeout %d)\n", timeoutMs)
	}
	fmt.Fprintf(s.in, "(push 1)\n%s%s(check-sat)\n(echo \"done\")\n", opt, script(ts))
	res, msg := sUnknown, ""
	first := ""
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			s.Close()
			return sUnknown, "solver died"
		}
		line = strings.TrimSpace(line)
		if line == "done" || line == "\"done\"" {
			break
		}
		if strings.HasPrefix(line, "(error") {
			msg += line + "\n"
		}
		if first == "" || line == "sat" || line == "unsat" || line == "unknown" {
			first = line
		}
	}
	if msg == "" {
		switch first {
		case "sat":
			res = sSat
		case "unsat":
			res = sUnsat
		}
	}
	if res == sSat && wantModel {
		fmt.Fprintf(s.in, "(get-model)\n(echo \"done\")\n")
		var b strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				s.Close()
				return res, b.String()
			}
			if t := strings.TrimSpace(line); t == "done" || t == "\"done\"" {
				break
			}
			if b.Len() < 1<<16 {
				b.WriteString(line)
			}
		}
		msg = b.String()
	}
	fmt.Fprintf(s.in, "(pop 1)\n")
	return res, msg
}
