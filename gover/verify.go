package main

import (
	"fmt"
	"go/types"
	"maps"
	"os"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is a proof obligation of a contract.
type Obligation struct {
	Contract string   `json:"contract"`
	Name     string   `json:"name"`
	Labels   []string `json:"labels"`
	OK       bool     `json:"ok"`
	By       string   `json:"by"`
	Detail   string   `json:"detail,omitempty"`
	Model    string   `json:"model,omitempty"`
	goal     *Term
	pc       []*Term
}

// Result is the result of verifying a contract.
type Result struct {
	con      *Contract
	obs      []*Obligation
	paths    int
	normal   int
	pres     int
	err      string
	findings []string
	used     map[string]bool
	inlined  map[string]bool
	assumed  map[string]bool
	wall     time.Duration
	steps    int
}

func (r *Result) failed() []*Obligation {
	var out []*Obligation
	for _, o := range r.obs {
		if !o.OK {
			out = append(out, o)
		}
	}
	return out
}

func newExec(w *World) *Exec {
	return &Exec{started: time.Now(), c: newCtx(), w: w, globalBase: map[*Term]*ssa.Global{}, plans: map[string][]loopLocal{}, base: map[int]*Obj{}, globals: map[*ssa.Global]int{}, maxSteps: 60_000_000,
		ro: map[int]string{}, assumed: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, finding: map[string]bool{},
		useSpec: true, recRec: -1, refTerms: map[int]*Term{}}
}

func newState(x *Exec) *State {
	return &State{heap: map[int]*Obj{}, refs: map[int]int{}, lits: map[int]bool{}, known: map[int]*Term{}, bnd: map[int][2]int64{},
		rh: x.c.App(sRH, "rh"), rw: map[int]*Term{}, gh: map[string]*Term{}, labels: map[string]bool{}}
}

// paramValue makes the symbolic value of a parameter.
func (x *Exec) paramValue(st *State, t types.Type, name string, nilable bool) Value {
	if p, ok := t.Underlying().(*types.Pointer); ok && !nilable {
		ref := x.c.App(sRef, name)
		x.assume(st, x.c.Not(x.c.Eq(ref, x.c.Lit(sRef, "nil"))))
		v := x.symValue(st, p.Elem(), name, func(p string, s *Sort) *Term { return x.c.App(s, p) })
		id := x.newObj(st, p.Elem(), v)
		st.heap[id].ref = ref
		st.refs[ref.id] = id
		x.refTerms[ref.id] = ref
		return &PtrV{obj: id}
	}
	return x.symValue(st, t, name, func(p string, s *Sort) *Term { return x.c.App(s, p) })
}

type preCase struct {
	x    *Exec
	st   *State
	args []Value
	idx  int
}

// verify checks a contract, and once more with some callees opened if that
// fails.
func verify(w *World, con *Contract, slv func() *Solver, findings map[string]bool) *Result {
	t0 := time.Now()
	r := verifyWith(w, con, slv, findings, nil)
	if r.err == "" && len(r.failed()) == 0 {
		return r
	}
	var open map[*Contract]bool
	for k := range 4 {
		if time.Since(t0) > 3*time.Minute || k > 1 && r.wall > 5*time.Second {
			break
		}
		more := w.revealFor(con, open, k > 1)
		if more == nil {
			continue
		}
		open = more
		q := verifyWith(w, con, slv, findings, open)
		if q.err == "" && len(q.failed()) == 0 {
			return q
		}
		if os.Getenv("GOVER_OPEN") != "" {
			r = q
		}
	}
	return r
}

// verifyWith checks a contract. Cases of the pre-state are shared among
// workers.
func verifyWith(w *World, con *Contract, slv func() *Solver, findings map[string]bool, open map[*Contract]bool) (res *Result) {
	res = &Result{con: con, used: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}}
	t0 := time.Now()
	defer func() { res.wall = time.Since(t0) }()
	workers := 1
	if con.split {
		workers = 8
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			x := newExec(w)
			x.open = open
			for f := range findings {
				x.finding[f] = true
			}
			if con.steps > 0 {
				x.maxSteps = con.steps
			}
			if open != nil {
				x.maxSteps = min(x.maxSteps, 20_000_000)
			}
			x.solver = slv()
			r := &Result{con: con}
			func() {
				defer func() {
					if e := recover(); e != nil {
						switch e := e.(type) {
						case unsupported:
							r.err = e.msg
						default:
							r.err = fmt.Sprint(e)
							if os.Getenv("GOVER_TRACE") != "" {
								debug.PrintStack()
							}
						}
						if os.Getenv("GOVER_TRACE") != "" {
							fmt.Fprintln(os.Stderr, con.name, r.err)
							debug.PrintStack()
						}
					}
				}()
				x.verifyCases(r, con, k, workers)
			}()
			x.solver.Close()
			if x.second != nil {
				x.second.Close()
			}
			mu.Lock()
			defer mu.Unlock()
			res.obs = append(res.obs, r.obs...)
			res.paths += r.paths
			res.normal += r.normal
			res.pres += r.pres
			res.steps += x.steps
			if r.err != "" {
				res.err = r.err
			}
			for k := range x.used {
				res.used[k] = true
			}
			for k := range x.inlined {
				res.inlined[k] = true
			}
			for k := range x.assumed {
				res.assumed[k] = true
			}
		}(k)
	}
	wg.Wait()
	sort.SliceStable(res.obs, func(i, j int) bool { return res.obs[i].Name < res.obs[j].Name })
	return res
}

func (x *Exec) verifyCases(r *Result, con *Contract, k, n int) {
	st := newState(x)
	fn := con.spec
	var args []Value
	nilable := map[string]bool{}
	for _, p := range con.nilable {
		nilable[p] = true
	}
	for _, p := range fn.Params {
		v := x.paramValue(st, p.Type(), p.Name(), nilable[p.Name()])
		if _, ok := v.(*StructV); ok {
			x.typesNotNil(st, p.Type(), v)
		} else if pv, ok := v.(*PtrV); ok {
			x.typesNotNil(st, p.Type().Underlying().(*types.Pointer).Elem(), st.obj(x, pv.obj).v)
		}
		args = append(args, v)
	}
	x.preMax = x.nextObj
	pres := []outcome{ret(st)}
	if con.pre != nil {
		pres = x.callFn(st, con.pre, args, nil, -1)
	}
	// what the frame mentions is there before
	for _, p := range pres {
		if p.kind == oRet {
			for _, m := range con.modifies {
				if strings.Contains(m, ".") {
					x.resolvePath(p.st, con, args, m)
				}
			}
		}
	}
	// everything made so far belongs to the pre-state
	x.preMax = x.nextObj
	for _, m := range con.cache {
		for i, p := range fn.Params {
			if p.Name() == m {
				ref := args[i].(*MapRef)
				mc := *st.obj(x, ref.obj).v.(*MapC)
				mc.coh = con
				st.setObj(x, ref.obj, &mc)
				for _, q := range pres {
					q.st.setObj(x, ref.obj, &mc)
				}
			}
		}
	}
	idx := -1
	for _, p := range pres {
		if p.kind != oRet {
			unsup("the precondition panics")
		}
		idx++
		if idx%n != k {
			continue
		}
		r.pres++
		feasible := true
		for _, q := range con.requires {
			feasible = feasible && x.runFacts(p.st, q, args)
		}
		if !feasible {
			continue
		}
		p.st.labels = map[string]bool{}
		x.verifyCase(r, con, p.st, args, idx)
	}
}

func (x *Exec) verifyCase(r *Result, con *Contract, pre *State, args []Value, idx int) {
	x.text = con.text
	x.asserts = nil
	if con.lemma {
		outs := x.callFn(pre.clone(), con.spec, args, nil, -1)
		for _, o := range outs {
			if o.kind == oRet {
				r.normal++
			} else if o.kind == oPanic {
				x.addOb(r, con, o.st, fmt.Sprintf("%s/case%d/panics", con.name, idx), x.c.F, "the lemma panics: "+o.pv.String(), nil)
			}
			r.paths++
		}
		for i, a := range x.asserts {
			x.addOb(r, con, a.st, fmt.Sprintf("%s/case%d/assert%d", con.name, idx, i), a.goal, a.what, nil)
		}
		for _, t := range con.tables {
			what := x.w.written(con.spec.Pkg, t)
			x.addOb(r, con, pre, fmt.Sprintf("%s/case%d/table %s", con.name, idx, t), x.c.Bool(what == ""), what, nil)
		}
		return
	}
	x.root = con.target
	x.inSpec = false
	x.trace = nil
	// the body of the target is checked, callees go by their contracts
	x.reqs, x.curCon, x.curArgs = nil, con, args
	outs := x.callFn(pre.clone(), con.target, args, nil, -1)
	notes := map[string]bool{}
	for _, n := range con.notes {
		notes[n] = true
	}
	for _, o := range outs {
		x.cachesRight(con, o, args)
	}
	for i, a := range x.reqs {
		ls := notes
		if a.label != "" {
			ls = maps.Clone(notes)
			ls[a.label] = true
		}
		x.addOb(r, con, a.st, fmt.Sprintf("%s/case%d/requires%d", con.name, idx, i), a.goal, a.what, ls)
	}
	x.reqs = nil
	for j, o := range outs {
		name := fmt.Sprintf("%s/case%d/path%d", con.name, idx, j)
		if o.kind == oRet {
			for _, e := range con.ensures {
				s := o.st.clone()
				g := x.factTerm(s, e, append(append([]Value(nil), args...), o.vals...))
				x.addOb(r, con, s, name+"/"+e.Name(), g, "the promise "+e.Name(), notes)
			}
		}
		if con.opaque {
			if con.frameBy != "" {
				x.assumed[con.name+": "+con.frameBy] = true
			} else if what := x.footprint(con, args, pre, o); what != "" {
				x.addOb(r, con, o.st, name+"/frame", x.c.F, what, notes)
			} else {
				x.addOb(r, con, o.st, name+"/frame", x.c.T, "", notes)
			}
		}
	}
	// sites of the same kind keep their order; iterations decide how the
	// variables of loops correspond
	order := make([]int, 0, len(outs))
	for k := range 2 {
		for j, o := range outs {
			if (o.kind == oBack) == (k == 0) {
				order = append(order, j)
			}
		}
	}
	for _, j := range order {
		o := outs[j]
		if x.enough(r) {
			break
		}
		r.paths++
		if o.kind == oRet {
			r.normal++
		}
		if os.Getenv("GOVER_PATHS") != "" {
			fmt.Fprintf(os.Stderr, "%s path %d kind %d pc %d\n", con.name, j, o.kind, len(o.st.pc))
		}
		x.matchOutcome(r, con, pre, args, o, fmt.Sprintf("%s/case%d/path%d", con.name, idx, j))
	}
}

var debugStop = os.Getenv("GOVER_STOP") != ""

// enough tells that a contract has failed and took long: what is left is not
// looked at.
func (x *Exec) enough(r *Result) bool {
	if time.Since(x.started) < 30*time.Second {
		return false
	}
	n := 0
	for _, o := range r.obs {
		if !o.OK {
			n++
		}
	}
	return n >= 3
}

// matchOutcome compares one outcome of the code with the specification.
func (x *Exec) matchOutcome(r *Result, con *Contract, pre *State, args []Value, o outcome, name string) {
	if o.kind == oRet && o.st.hit && x.isHit(con, o, args, pre) {
		r.obs = append(r.obs, x.mkOb(con, o.st, name+"/returns", x.c.T, "", nil))
		return
	}
	x.inSpec = true
	defer func() { x.inSpec = false }()
	kinds := []string{"returns", "panics", "iterates"}
	var best []*Obligation
	var bestMap map[string]int
	var bestBad bool
	for x.perm = 0; x.perm < 3; x.perm++ {
		x.lastMismatch = ""
		x.asserts = nil
		x.matched = map[string]int{}
		s0 := pre.clone()
		s0.facts(o.st)
		x.specBase = len(o.st.pc)
		s0.loopN = 0
		x.trace = o.st.trace
		souts := x.callFn(s0, con.spec, args, nil, -1)
		var obs []*Obligation
		if len(souts) == 0 {
			obs = append(obs, x.mkOb(con, o.st, name+"/"+kinds[o.kind], x.c.F, "the specification has no outcome", nil))
		}
		for _, s := range souts {
			goal, detail := x.compare(con, o, s, args, pre)
			obs = append(obs, x.mkOb(con, s.st, name+"/"+kinds[o.kind], goal, detail, s.st.labels))
		}
		for i, a := range x.asserts {
			obs = append(obs, x.mkOb(con, a.st, fmt.Sprintf("%s/assert%d", name, i), a.goal, a.what, nil))
		}
		bad := false
		for _, b := range obs {
			if !b.OK {
				bad = true
			}
		}
		// the variables of a loop correspond in the same way on every path
		clash := false
		for k, v := range x.matched {
			if w, ok := x.matchedAll[k]; ok && w != v {
				clash = true
			}
		}
		if best == nil || !bad && (bestBad || !clash) {
			best, bestMap, bestBad = obs, x.matched, bad
		}
		if !bad && !clash || len(o.st.trace) == 0 {
			break
		}
	}
	x.perm = 0
	r.obs = append(r.obs, best...)
	if debugStop {
		for _, o := range best {
			if !o.OK {
				fmt.Println("FAILED", o.Name, o.Detail)
				os.Exit(1)
			}
		}
	}
	if x.matchedAll == nil {
		x.matchedAll = map[string]int{}
	}
	for k, v := range bestMap {
		if w, ok := x.matchedAll[k]; ok && w != v {
			r.obs = append(r.obs, x.mkOb(con, o.st, name+"/"+kinds[o.kind], x.c.F, "the variables of loops of code and contract correspond differently on different paths", nil))
			break
		}
		x.matchedAll[k] = v
	}
}

func (x *Exec) mkOb(con *Contract, st *State, name string, goal *Term, detail string, labels map[string]bool) *Obligation {
	ob := &Obligation{Contract: con.name, Name: name, goal: goal, pc: st.pc}
	set := map[string]bool{}
	for _, p := range con.props {
		set[p] = true
	}
	for l := range labels {
		set[l] = true
	}
	for l := range set {
		ob.Labels = append(ob.Labels, l)
	}
	sort.Strings(ob.Labels)
	g := x.decide(st, goal)
	switch {
	case g.isTrue():
		ob.OK, ob.By = true, "normaliser"
	default:
		if x.prove(st, g) || x.proveIdle(st, g) {
			ob.OK, ob.By = true, "z3"
		} else {
			ob.Detail = detail
			if x.lastMismatch != "" {
				ob.Detail += "; " + x.lastMismatch
			}
			var pcs []string
			for _, p := range st.pc {
				pcs = append(pcs, p.String())
			}
			ob.Detail += "\n  under: " + strings.Join(pcs, " ; ")
			ob.Model = x.lastModel
			if x.lastModel != "" && os.Getenv("GOVER_MODEL") != "" {
				ob.Detail += "\n  solver: " + x.lastModel
			}
		}
	}
	return ob
}

func (x *Exec) addOb(r *Result, con *Contract, st *State, name string, goal *Term, detail string, labels map[string]bool) {
	r.obs = append(r.obs, x.mkOb(con, st, name, goal, detail, labels))
}

// proveIdle proves a goal on a path on which a loop of the code turns out not
// to run at all, so that what it may change is as it was before.
func (x *Exec) proveIdle(st *State, g *Term) bool {
	mismatch, model := x.lastMismatch, x.lastModel
	n := st.clone()
	idle := false
	for _, rec := range x.trace {
		if !x.prove(n, x.decide(n, x.c.Eq(rec.it, x.c.Int(0)))) {
			continue
		}
		ok := x.assume(n, x.c.Eq(rec.it, x.c.Int(0))) && x.assume(n, x.c.Eq(rec.head.rh, rec.entry.rh))
		for _, l := range rec.locals {
			h, is1 := l.head.(*Term)
			e, is2 := l.entry.(*Term)
			if ok && is1 && is2 && h.s == e.s {
				ok = x.assume(n, x.c.Eq(h, e))
			}
		}
		if !ok {
			return true
		}
		idle = true
	}
	x.lastMismatch, x.lastModel = mismatch, model
	return idle && x.prove(n, x.decide(n, g))
}

// prove asks the solver whether the facts of the state imply the goal.
func (x *Exec) prove(st *State, g *Term) bool {
	x.lastModel = ""
	if g.isTrue() {
		return true
	}
	if x.solver == nil {
		return false
	}
	ts := append([]*Term(nil), x.relevant(st, g)...)
	ts = append(ts, x.c.Not(g))
	key := ""
	for _, t := range ts {
		key += fmt.Sprint(t.id, ",")
	}
	if x.cache == nil {
		x.cache = map[string]bool{}
	}
	if v, ok := x.cache[key]; ok {
		return v
	}
	res, msg := x.solver.Check(ts, true, 4000)
	if res != sUnsat {
		if res == sSat {
			x.lastModel = "sat"
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
			x.lastModel += "\n" + msg
		} else {
			x.lastModel = "unknown " + msg
		}
	}
	if os.Getenv("GOVER_SMT") != "" {
		fmt.Fprintln(os.Stderr, "query", res, msg)
	}
	if res == sUnsat && crossCheck {
		if x.second == nil {
			x.second = newSolver("cvc5", "--lang=smt2", "--incremental", "--tlimit-per=10000", "-q")
		}
		r2, _ := x.second.Check(ts, false, 0)
		switch r2 {
		case sUnsat:
			atomic.AddInt64(&confirmed, 1)
		case sSat:
			atomic.AddInt64(&refuted, 1)
			x.lastModel = "z3 and cvc5 disagree"
			res = sUnknown
		default:
			atomic.AddInt64(&unconfirmed, 1)
		}
	}
	x.cache[key] = res == sUnsat
	return res == sUnsat
}

// crossCheck has a second solver confirm what the first one proves.
var crossCheck = os.Getenv("GOVER_CROSS") != ""

var confirmed, unconfirmed, refuted int64

// relevant returns the facts of a state, with the known bounds as facts.
func (x *Exec) relevant(st *State, g *Term) []*Term {
	out := append([]*Term(nil), st.pc...)
	// bounds of the plain terms that occur
	seen := map[int]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if b, ok := st.bnd[t.id]; ok && t.s == bv64 && t.op != oAdd {
			if b[0] > -bigBound {
				out = append(out, x.c.Sle(x.c.Int(b[0]), t))
			}
			if b[1] < bigBound {
				out = append(out, x.c.Sle(t, x.c.Int(b[1])))
			}
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	visit(g)
	for _, t := range st.pc {
		visit(t)
	}
	return out
}

// compare builds the goal that an outcome of the code is the outcome of the
// specification.
func (x *Exec) compare(con *Contract, o, s outcome, args []Value, pre *State) (*Term, string) {
	kinds := []string{"returns", "panics", "iterates"}
	pvs := func(o outcome) string {
		if o.kind == oPanic {
			return " (" + o.pv.String() + ")"
		}
		return ""
	}
	if o.kind == oBack && s.kind != oBack {
		// an iteration that changes nothing needs no counterpart
		if x.c.And(x.sharedGoals(o.rec.head, o.st, nil)...).isTrue() {
			return x.c.T, ""
		}
	}
	if o.kind != s.kind {
		return x.c.F, fmt.Sprintf("the code %s%s where the contract %s%s", kinds[o.kind], pvs(o), kinds[s.kind], pvs(s))
	}
	var goals []*Term
	var why []string
	add := func(what string, gs []*Term) {
		for _, g := range gs {
			goals = append(goals, g)
			if !x.decide(s.st, g).isTrue() {
				why = append(why, what+": "+g.String())
			}
		}
	}
	switch o.kind {
	case oRet:
		res := con.spec.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			add(fmt.Sprintf("result %d", i), x.valGoals(o.st, o.vals[i], s.st, s.vals[i], res.At(i).Type(), nil))
		}
		add("state", x.sharedGoals(x.dropScratch(o.st, con, args), x.dropScratch(s.st, con, args), nil))
	case oPanic:
		if con.nopanic {
			return x.c.F, "the code panics" + pvs(o)
		}
		if strings.HasPrefix(s.pv.name, "ext:expr.") {
			// any error that mentions it will do
			if !mentions(o.pv, s.pv) {
				add("panic value", []*Term{x.c.Eq(o.pv, s.pv)})
			}
		} else if strings.HasPrefix(s.pv.name, "ext:") && !strings.HasPrefix(s.pv.name, "ext:(reflect") && !strings.HasPrefix(s.pv.name, "ext:reflect") {
			add("panic value", []*Term{x.c.Eq(o.pv, s.pv)})
		} else if s.pv.op == oApp && !strings.HasPrefix(s.pv.name, "rt:") && !strings.HasPrefix(s.pv.name, "ext:") && !isOwnErr(s.pv) && !strings.HasPrefix(s.pv.name, "box:") {
			add("panic value", []*Term{x.c.Eq(o.pv, s.pv)})
		}
		for _, p := range con.onpanic {
			va, t, _ := x.resolvePath(o.st, con, args, p)
			vb, _, _ := x.resolvePath(s.st, con, args, p)
			add(p+" after a panic", x.valGoals(o.st, va, s.st, vb, t, nil))
		}
		for k, v := range o.st.gh {
			if strings.HasPrefix(k, "lock:") && s.st.gh[k] != v && (v.name != "free" || s.st.gh[k] != nil) {
				add("locks", []*Term{x.c.F})
			}
		}
	case oBack:
		if o.rec != s.rec {
			return x.c.F, "the loops of code and contract do not correspond"
		}
		for i, v := range s.locals {
			if p, ok := v.(prefixV); ok {
				if b, ok := o.locals[i].(*BufV); ok {
					// both have the same elements, and anything behind them
					arr, off := x.bufArr(s.st, p.s, bufElem(p.s.et))
					add("loop variable "+o.rec.locals[i].name, []*Term{x.c.Eq(p.s.len, p.n), x.c.Eq(off, x.c.Int(0)), x.c.Eq(arr, b.arr)})
					continue
				}
				seq := o.locals[i].(*SeqV).seq
				add("loop variable "+o.rec.locals[i].name, []*Term{x.c.Eq(p.s.len, p.n), x.c.Eq(x.sliceSeq(s.st, p.s), x.seqSub(s.st, seq, x.c.Int(0), p.n))})
			} else if v != nil {
				add("loop variable "+o.rec.locals[i].name, x.contentGoals(o.st, o.locals[i], s.st, v, o.rec.locals[i].t))
			}
		}
		add("state", x.sharedGoals(x.dropScratch(o.st, con, args), x.dropScratch(s.st, con, args), nil))
	}
	if len(why) > 6 {
		why = append(why[:6], "...")
	}
	return x.c.And(goals...), strings.Join(why, "\n  ")
}

func (x *Exec) dropScratch(st *State, con *Contract, args []Value) *State {
	if len(con.scratch) == 0 {
		return st
	}
	n := st.clone()
	for _, p := range con.scratch {
		_, t, ptr := x.resolvePath(n, con, args, p)
		if ptr != nil {
			x.store(n, ptr, x.zero(n, t))
		}
	}
	return n
}

// sharedGoals lists the equalities of the state that both sides share.
func (x *Exec) sharedGoals(a, b *State, goals []*Term) []*Term {
	ids := map[int]bool{}
	for id := range a.heap {
		ids[id] = true
	}
	for id := range b.heap {
		ids[id] = true
	}
	for _, id := range sortedKeys(ids) {
		_, isBase := x.base[id]
		if id > x.preMax && !isBase {
			continue
		}
		oa, ob := a.obj(x, id), b.obj(x, id)
		if oa == ob {
			continue
		}
		if m, ok := oa.v.(*MapC); ok && m.coh != nil {
			continue
		}
		goals = append(goals, x.contentGoals(a, oa.v, b, ob.v, oa.t)...)
	}
	// objects behind references
	for t, id := range a.refs {
		if id <= x.preMax {
			continue
		}
		goals = append(goals, x.refGoals(a, id, b, t, goals)...)
	}
	for t, id := range b.refs {
		if id <= x.preMax {
			continue
		}
		if _, ok := a.refs[t]; !ok {
			goals = append(goals, x.refGoals(b, id, a, t, goals)...)
		}
	}
	if a.rh != b.rh {
		goals = append(goals, x.c.Eq(a.rh, b.rh))
	}
	keys := map[string]bool{}
	for k := range a.gh {
		keys[k] = true
	}
	for k := range b.gh {
		keys[k] = true
	}
	for k := range keys {
		free := x.c.Lit(unSort("LockState"), "free")
		va, vb := a.gh[k], b.gh[k]
		if va == nil {
			va = free
		}
		if vb == nil {
			vb = free
		}
		if va != vb {
			goals = append(goals, x.c.Eq(va, vb))
		}
	}
	return goals
}

func (x *Exec) refGoals(a *State, id int, b *State, term int, goals []*Term) []*Term {
	oa := a.obj(x, id)
	if oid, ok := b.refs[term]; ok {
		ob := b.obj(x, oid)
		if oa.ref != nil && ob.ref != nil {
			return nil
		}
		return x.contentGoals(a, oa.v, b, ob.v, oa.t)
	}
	if oa.ref != nil {
		return nil
	}
	rt := x.refTerms[term]
	if rt == nil {
		return []*Term{x.c.F}
	}
	n := b.clone()
	p := x.deref(n, rt, oa.t)
	return x.contentGoals(a, oa.v, n, n.obj(x, p.obj).v, oa.t)
}

// contentGoals compares the contents of an object; those of backing stores
// are given as BufV, SeqV or ArrV.
func (x *Exec) contentGoals(a *State, va Value, b *State, vb Value, t types.Type) []*Term {
	c := x.c
	if ba, ok := va.(*BufV); ok {
		if bb, ok := vb.(*BufV); ok {
			return []*Term{c.Eq(ba.arr, bb.arr)}
		}
	}
	if st, ok := t.Underlying().(*types.Slice); ok {
		switch ca := va.(type) {
		case *SeqV:
			if cb, ok := vb.(*SeqV); ok {
				return []*Term{c.Eq(ca.seq, cb.seq)}
			}
		case *ArrV:
			if cb, ok := vb.(*ArrV); ok && len(ca.e) == len(cb.e) {
				var goals []*Term
				for i := range ca.e {
					goals = append(goals, x.valGoals(a, ca.e[i], b, cb.e[i], st.Elem(), nil)...)
				}
				return goals
			}
		}
		_, ok1 := va.(*SliceV)
		_, ok2 := vb.(*SliceV)
		if !ok1 || !ok2 {
			unsup("comparison of backing stores %T %T", va, vb)
		}
	}
	if ma, ok := va.(*MapC); ok {
		return []*Term{c.Eq(x.mapTerm(a, ma), x.mapTerm(b, vb.(*MapC)))}
	}
	return x.valGoals(a, va, b, vb, t, nil)
}

// valGoals lists the equalities that make two values equal.
func (x *Exec) valGoals(a *State, va Value, b *State, vb Value, t types.Type, goals []*Term) []*Term {
	c := x.c
	if s := scalarSort(t); s != nil {
		ta, tb := x.scalar(a, va, t), x.scalar(b, vb, t)
		if ta == tb {
			return goals
		}
		if s == sIface && isOwnErr(tb) {
			// the text of an error is free, its presence is not
			if x.text {
				goals = append(goals, c.Bool(x.errText(ta) == x.errText(tb)))
			}
			return append(goals, x.errLike(b, ta))
		}
		return append(goals, c.Eq(ta, tb))
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fa, fb := va.(*StructV), vb.(*StructV)
		for i := range fa.f {
			goals = x.valGoals(a, fa.f[i], b, fb.f[i], u.Field(i).Type(), goals)
		}
		return goals
	case *types.Array:
		ea, ok1 := va.(*ArrV)
		eb, ok2 := vb.(*ArrV)
		if !ok1 || !ok2 {
			return append(goals, c.Eq(va.(*BufV).arr, vb.(*BufV).arr))
		}
		for i := range ea.e {
			goals = x.valGoals(a, ea.e[i], b, eb.e[i], u.Elem(), goals)
		}
		return goals
	case *types.Slice:
		sa, sb := va.(*SliceV), vb.(*SliceV)
		if sa.obj == sb.obj && (sa.obj <= x.preMax || x.base[sa.obj] != nil) {
			if sa.obj == 0 {
				return goals
			}
			return append(goals, c.Eq(sa.off, sb.off), c.Eq(sa.len, sb.len))
		}
		goals = append(goals, c.Eq(sa.len, sb.len))
		n := x.decide(b, sb.len)
		if n.isConst() && n.val == 0 {
			return goals
		}
		if bs := bufElem(u.Elem()); bs != nil {
			aa, oa := x.bufArr(a, sa, bs)
			ab, ob := x.bufArr(b, sb, bs)
			if aa == ab && oa == ob {
				return goals
			}
			if n.isConst() && n.val <= 64 {
				for i := int64(0); i < int64(n.val); i++ {
					goals = append(goals, c.Eq(c.Select(aa, c.Add(oa, c.Int(i))), c.Select(ab, c.Add(ob, c.Int(i)))))
				}
				return goals
			}
			return append(goals, c.Eq(aa, ab), c.Eq(oa, ob))
		}
		qa, qb := x.sliceSeq(a, sa), x.sliceSeq(b, sb)
		if qa == qb {
			return goals
		}
		if n.isConst() && n.val <= 64 && sa.obj != 0 && x.decide(b, sa.len) == n {
			for i := int64(0); i < int64(n.val); i++ {
				ea := x.walk(a, a.obj(x, sa.obj).v, types.NewSlice(u.Elem()), []pathElem{{idx: c.Add(sa.off, c.Int(i))}})
				eb := x.walk(b, b.obj(x, sb.obj).v, types.NewSlice(u.Elem()), []pathElem{{idx: c.Add(sb.off, c.Int(i))}})
				goals = x.valGoals(a, ea, b, eb, u.Elem(), goals)
			}
			return goals
		}
		return append(goals, c.Eq(qa, qb))
	case *types.Pointer:
		pa, ok1 := va.(*PtrV)
		pb, ok2 := vb.(*PtrV)
		if ok1 && ok2 {
			if pa.obj == pb.obj && len(pa.path) == 0 && len(pb.path) == 0 {
				return goals
			}
			if pa.obj == 0 || pb.obj == 0 {
				return append(goals, c.F)
			}
			if len(pa.path) == 0 && len(pb.path) == 0 && pa.obj > x.preMax && pb.obj > x.preMax {
				// fresh objects are compared by content
				oa, ob := a.obj(x, pa.obj), b.obj(x, pb.obj)
				if oa.ref == nil && ob.ref == nil {
					if x.flatDepth > 8 {
						return goals
					}
					x.flatDepth++
					defer func() { x.flatDepth-- }()
					return x.valGoals(a, x.load(a, pa), b, x.load(b, pb), u.Elem(), goals)
				}
			}
		}
		return append(goals, c.Eq(x.ptrTerm(a, va, u.Elem()), x.ptrTerm(b, vb, u.Elem())))
	case *types.Signature:
		fa, ok1 := va.(*FuncV)
		fb, ok2 := vb.(*FuncV)
		if ok1 && ok2 && fa.fn == fb.fn && len(fa.bind) == 0 && len(fb.bind) == 0 {
			return goals
		}
		return append(goals, c.Eq(x.funcTerm(a, va), x.funcTerm(b, vb)))
	case *types.Map:
		ma, mb := va.(*MapRef), vb.(*MapRef)
		if ma.obj == mb.obj {
			return goals
		}
		if ma.obj == 0 || mb.obj == 0 {
			return append(goals, c.F)
		}
		return append(goals, c.Eq(x.mapTerm(a, a.obj(x, ma.obj).v.(*MapC)), x.mapTerm(b, b.obj(x, mb.obj).v.(*MapC))))
	}
	unsup("comparison of %s", t)
	return nil
}

// errText is what the text of an error or value shows.
func (x *Exec) errText(t *Term) *Term {
	name := strings.TrimPrefix(strings.TrimPrefix(t.name, "own:"), "github.com/pkg/")
	plain := func(k int) bool {
		return len(t.args) == k+1 && (k == 0 || t.args[0].op == oLit && (t.args[0].name == "%v" || t.args[0].name == "%s" || t.args[0].name == "%+v"))
	}
	switch {
	case t.op != oApp:
	case (name == "fmt.Errorf" || name == "errors.Errorf" || name == "fmt.Sprintf") && plain(1), (name == "errors.New" || name == "fmt.Sprint") && plain(0):
		return x.errText(t.args[len(t.args)-1])
	case name == "box:string", strings.HasPrefix(name, "unbox:string:"):
		return x.errText(t.args[0])
	}
	return t
}

// errLike is the condition that an interface value is an error or panic value
// made by the code itself.
func (x *Exec) errLike(st *State, t *Term) *Term {
	if isOwnErr(t) || strings.HasPrefix(t.name, "box:") && t.op == oApp {
		return x.c.T
	}
	return x.c.Not(x.c.Eq(t, x.c.Lit(sIface, "nil")))
}

func (x *Exec) mismatch(st *State, goals []*Term) string {
	var out []string
	for _, g := range goals {
		if !x.decide(st, g).isTrue() {
			out = append(out, g.String())
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, "; ")
}

type assertion struct {
	st    *State
	goal  *Term
	what  string
	label string
}

// ghost runs the functions contracts are written with.
func (x *Exec) ghost(st *State, fn *ssa.Function, args []Value) ([]outcome, bool) {
	c := x.c
	switch fn.Name() {
	case "gvRequires":
		if !x.assume(st, args[0].(*Term)) {
			return []outcome{}, true
		}
		return []outcome{ret(st)}, true
	case "gvAssert":
		x.asserts = append(x.asserts, assertion{st.clone(), args[0].(*Term), "assertion of " + fn.Name(), ""})
		return []outcome{ret(st)}, true
	case "gvSplit":
		v := args[0].(*Term)
		lo, hi := args[1].(*Term).sval(), args[2].(*Term).sval()
		var out []outcome
		d := x.decide(st, v)
		if d.isConst() {
			if d.sval() >= lo && d.sval() <= hi {
				out = append(out, ret(st))
			}
			return append(out, []outcome{}...), true
		}
		for k := lo; k <= hi; k++ {
			n := st.clone()
			if x.assume(n, c.Eq(v, c.BV(uint64(k), v.s.W))) {
				out = append(out, ret(n))
			}
		}
		if out == nil {
			out = []outcome{}
		}
		return out, true
	case "gvNote":
		st.labels[args[0].(*Term).name] = true
		return []outcome{ret(st)}, true
	case "gvFinding":
		return []outcome{ret(st, c.Bool(x.finding[args[0].(*Term).name]))}, true
	case "gvZeroBuf":
		s := args[0].(*SliceV)
		if s.obj != 0 {
			st.setObj(x, s.obj, &BufV{c.ConstArr(arrSort(bv8), c.BV(0, 8))})
		}
		return []outcome{ret(st)}, true
	case "gvAnyByte":
		return []outcome{ret(st, c.App(bv8, "any:"+args[0].(*Term).name))}, true
	case "gvOutside":
		// a panic of the contract itself
		return []outcome{x.rtPanic(st, "contract")}, true
	}
	return x.ghost2(st, fn, args)
}

// decideSame tells whether a location has the same value in both states.
func (x *Exec) decideSame(a, b *State, con *Contract, args []Value, m string) bool {
	va, t, _ := x.resolvePath(a, con, args, m)
	vb, _, _ := x.resolvePath(b, con, args, m)
	for _, g := range x.valGoals(a, va, b, vb, t, nil) {
		if !x.decide(b, g).isTrue() {
			return false
		}
	}
	return true
}

func samePtr(a, b Value) bool {
	p, ok1 := a.(*PtrV)
	q, ok2 := b.(*PtrV)
	return ok1 && ok2 && p.obj == q.obj && slices.Equal(p.path, q.path)
}

// changedTerms lists the terms of a that are not those of b.
func changedTerms(a, b []*Term) []*Term {
	if len(a) != len(b) {
		return a
	}
	var out []*Term
	for i := range a {
		if a[i] != b[i] {
			out = append(out, a[i])
		}
	}
	return out
}

// flattenContent lists the terms of the content of an object or of a value.
func (x *Exec) flattenContent(st *State, v Value, t types.Type) []*Term {
	switch v := v.(type) {
	case *BufV:
		return []*Term{v.arr}
	case *SeqV:
		return []*Term{v.seq}
	case *MapC:
		return []*Term{x.mapTerm(st, v)}
	case *ArrV:
		if s, ok := t.Underlying().(*types.Slice); ok {
			var out []*Term
			for _, e := range v.e {
				out = append(out, x.flatten(st, e, s.Elem())...)
			}
			return out
		}
	}
	return x.flatten(st, v, t)
}

// footprint checks the frame of an opaque contract: the outcome depends only
// on what the contract declares to be read and changes only what it declares
// to be modified. It returns what is wrong.
func (x *Exec) footprint(con *Contract, args []Value, pre *State, o outcome) string {
	root := map[string]bool{"rh": true}
	for _, p := range con.spec.Params {
		root[p.Name()] = true
	}
	allowed := map[int]bool{}
	seen := map[int]bool{}
	var bad string
	var atoms func(t *Term, f func(t *Term))
	atoms = func(t *Term, f func(t *Term)) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == oApp && len(t.args) == 0 {
			f(t)
		}
		for _, a := range t.args {
			atoms(a, f)
		}
	}
	pc := pre.clone()
	for _, t := range x.conReads(pc, con, args) {
		atoms(t, func(t *Term) { allowed[t.id] = true })
	}
	seen = map[int]bool{}
	// facts of the pre-state are about the pre-state
	for _, t := range pre.pc {
		seen[t.id] = true
	}
	forbidden := func(t *Term) bool {
		n := t.name
		if i := strings.IndexAny(n, ".["); i >= 0 {
			n = n[:i]
		}
		return root[n] && !allowed[t.id]
	}
	look := func(where string) func(t *Term) {
		return func(t *Term) {
			if forbidden(t) && bad == "" {
				bad = "the " + where + " depends on " + t.name + ", which the frame does not mention"
			}
		}
	}
	st := o.st.clone()
	switch {
	case o.kind == oPanic && strings.HasPrefix(o.pv.name, "rt:"):
		// all paths that return or panic in another way are free of what the
		// frame does not mention, hence so is the condition of this panic
		if st.rh != pre.rh && !slices.Contains(con.modifies, "rh") {
			return "changes reflected memory"
		}
		return ""
	case o.kind == oBack:
		// the condition of the loop is judged where the loop ends
		for _, t := range st.pc[min(len(o.rec.head.pc), len(st.pc)):] {
			atoms(t, look("iteration"))
		}
		for i, v := range o.locals {
			if samePtr(v, o.rec.locals[i].head) {
				continue
			}
			for _, t := range changedTerms(x.flattenContent(st, v, o.ltypes[i]), x.flattenContent(o.rec.head, o.rec.locals[i].head, o.ltypes[i])) {
				atoms(t, look(fmt.Sprintf("loop variable %s %s (%s)", o.rec.locals[i].name, o.ltypes[i], t)))
			}
		}
		for _, m := range con.modifies {
			if m == "rh" {
				atoms(st.rh, look("reflected memory"))
				continue
			}
			if slices.Contains(con.scratch, m) || x.decideSame(o.rec.head, st, con, args, m) {
				continue
			}
			v, t, _ := x.resolvePath(st, con, args, m)
			for _, a := range x.flatten(st, v, t) {
				atoms(a, look(m))
			}
		}
		return bad
	default:
		var rest []*Term
		free := &State{}
		free.facts(pre)
		for _, t := range o.st.pc {
			ok := true
			s := maps.Clone(seen)
			atoms(t, func(t *Term) {
				if forbidden(t) {
					ok = false
				}
			})
			seen = s
			if ok {
				x.assume(free, t)
			} else {
				rest = append(rest, t)
			}
		}
		for _, t := range rest {
			if g := x.decide(free, t); !g.isTrue() && !x.prove(free, g) {
				atoms(t, look("path"))
			}
		}
	}
	// what loops start from
	for _, r := range st.trace {
		for _, l := range r.locals {
			if sameVal(l.entry, l.head) || samePtr(l.entry, l.head) {
				continue
			}
			for _, t := range changedTerms(x.flattenContent(r.entry, l.entry, l.t), x.flattenContent(r.head, l.head, l.t)) {
				atoms(t, look(fmt.Sprintf("loop variable %s %s", l.name, l.t)))
			}
		}
		for _, m := range con.modifies {
			if m == "rh" {
				atoms(r.entry.rh, look("reflected memory"))
				continue
			}
			if slices.Contains(con.scratch, m) {
				continue
			}
			v, t, _ := x.resolvePath(r.entry, con, args, m)
			pv, _, _ := x.resolvePath(pc, con, args, m)
			same := true
			for _, g := range x.valGoals(pc, pv, r.entry, v, t, nil) {
				if !x.decide(r.entry, g).isTrue() {
					same = false
				}
			}
			if same && x.decideSame(r.entry, r.head, con, args, m) {
				continue // unchanged by the loop
			}
			for _, a := range x.flatten(r.entry, v, t) {
				atoms(a, look(m))
			}
		}
	}
	switch o.kind {
	case oRet:
		res := con.spec.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			for _, t := range x.flatten(st, o.vals[i], res.At(i).Type()) {
				if isOwnErr(t) {
					continue // texts of errors are free
				}
				atoms(t, look("result"))
			}
		}
	}
	// the declared locations may only depend on what is read; all others stay
	rhOK := false
	for _, m := range con.modifies {
		if m == "rh" {
			rhOK = true
			if o.kind == oRet {
				atoms(st.rh, look("reflected memory"))
			}
			continue
		}
		v, t, p := x.resolvePath(st, con, args, m)
		if p == nil {
			return "cannot modify " + m
		}
		if o.kind == oRet && !slices.Contains(con.scratch, m) {
			same := true
			pv, _, _ := x.resolvePath(pc, con, args, m)
			for _, g := range x.valGoals(pc, pv, st, v, t, nil) {
				if !x.decide(st, g).isTrue() {
					same = false
				}
			}
			if !same {
				for _, a := range x.flatten(st, v, t) {
					atoms(a, look(m))
				}
			}
		}
		// restored for the comparison of the rest
		if s, ok := v.(*SliceV); ok && s.obj != 0 && bufElem(s.et) != nil {
			old, _, _ := x.resolvePath(pc, con, args, m)
			if q, ok := old.(*SliceV); ok && q.obj != 0 {
				st.setObj(x, q.obj, pc.obj(x, q.obj).v)
			}
		}
		old, _, _ := x.resolvePath(pc, con, args, m)
		x.store(st, p, old)
	}
	if rhOK {
		st.rh = pc.rh
	}
	if o.kind == oPanic {
		// the state after a panic is never used, apart from reflected memory
		if st.rh != pc.rh {
			return "changes reflected memory"
		}
		return bad
	}
	for _, g := range x.sharedGoals(pc, st, nil) {
		if !x.decide(o.st, g).isTrue() && !x.prove(o.st, g) {
			return "changes what the frame does not mention: " + g.String()
		}
	}
	return bad
}
