package main

import (
	"fmt"
	"go/ast"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Contract ties a function of the code to its specification.
type Contract struct {
	name     string
	file     string
	target   *ssa.Function
	spec     *ssa.Function
	pre      *ssa.Function
	ensures  []*ssa.Function
	requires []*ssa.Function // checked at callers of opaque functions; loop invariants
	opaque   bool
	pure     bool
	nopanic  bool
	text     bool // the text of errors counts
	// why the frame is what it is, if that is assumed
	frameBy    string
	lemma      bool
	inlineCode bool
	trusted    bool
	split      bool // run the pre-state cases in parallel
	props      []string
	reads      []string
	modifies   []string
	cache      []string // maps that hold results: PARAM or NAME@LOCK for globals
	tables     []string // variables only the initialisation writes
	merge      bool     // choices of values are one path
	readonly   bool     // the result is shared and must not be written
	scratch    []string
	silent     []string // effects the callers are assumed not to see
	onpanic    []string
	nilable    []string
	findings   []string
	notes      []string // labels the specification may set by gvNote
	steps      int
	missing    bool
}

func (w *World) addContract(p *packages.Package, sp *ssa.Package, fd *ast.FuncDecl, file string) {
	con := &Contract{file: file}
	found := false
	lookup := func(n string) *ssa.Function {
		f := sp.Func(n)
		if f == nil {
			w.problems = append(w.problems, fmt.Sprintf("%s: no function %s", fd.Name.Name, n))
		}
		return f
	}
	for _, c := range fd.Doc.List {
		d, ok := strings.CutPrefix(c.Text, "//gover:")
		if !ok {
			continue
		}
		found = true
		fs := strings.Fields(d)
		args := fs[1:]
		switch fs[0] {
		case "spec":
			con.name = strings.Join(args, " ")
			con.target = w.findFunc(sp, con.name)
			if sp.Pkg.Name() != "restruct" {
				con.name = sp.Pkg.Name() + "." + con.name
			}
			con.missing = con.target == nil
		case "lemma":
			con.lemma = true
			con.name = fd.Name.Name
		case "opaque":
			con.opaque = true
		case "pure":
			con.pure = true
		case "readonly":
			con.readonly = true
		case "nopanic":
			con.nopanic = true
		case "text":
			con.text = true
		case "inline":
			con.inlineCode = true
		case "trusted":
			con.trusted = true
		case "split":
			con.split = true
		case "props":
			con.props = args
		case "reads":
			con.reads = append([]string{}, args...)
		case "cache":
			con.cache = append(con.cache, args...)
		case "merge":
			con.merge = true
		case "tables":
			con.tables = args
		case "modifies":
			con.modifies = args
		case "scratch":
			con.scratch = args
		case "silent":
			con.silent = args
		case "assumed":
			con.frameBy = strings.Join(args, " ")
		case "onpanic":
			con.onpanic = args
		case "nilable":
			con.nilable = args
		case "notes":
			con.notes = args
		case "finding":
			con.findings = args
		case "pre":
			con.pre = lookup(args[0])
		case "requires":
			con.requires = append(con.requires, lookup(args[0]))
		case "ensures":
			con.ensures = append(con.ensures, lookup(args[0]))
		case "steps":
			fmt.Sscan(args[0], &con.steps)
		default:
			w.problems = append(w.problems, "unknown directive "+d)
		}
	}
	if !found {
		return
	}
	con.spec = sp.Func(fd.Name.Name)
	if con.name == "" {
		w.problems = append(w.problems, fd.Name.Name+": no target")
		return
	}
	w.all = append(w.all, con)
	if con.missing {
		w.problems = append(w.problems, "function under contract not found: "+con.name)
		return
	}
	for _, m := range con.cache {
		if g, l, ok := strings.Cut(m, "@"); ok {
			gg, _ := sp.Members[g].(*ssa.Global)
			lg, _ := sp.Members[l].(*ssa.Global)
			if gg == nil || lg == nil {
				w.problems = append(w.problems, "cache not found: "+m)
				continue
			}
			w.caches[gg] = cacheInfo{con, lg}
		}
	}
	if con.target != nil {
		if !sameSig(con) {
			con.missing = true
			con.target = nil
			w.problems = append(w.problems, "signature of function under contract changed: "+con.name)
			return
		}
		w.targets[con.target] = con
	}
}

// sameSig compares the parameter and result types of target and specification.
func sameSig(con *Contract) bool {
	a, b := con.target, con.spec
	if len(a.Params) != len(b.Params) || a.Signature.Results().Len() != b.Signature.Results().Len() {
		return false
	}
	for i := range a.Params {
		if typeKey(a.Params[i].Type()) != typeKey(b.Params[i].Type()) {
			return false
		}
	}
	for i := 0; i < a.Signature.Results().Len(); i++ {
		if typeKey(a.Signature.Results().At(i).Type()) != typeKey(b.Signature.Results().At(i).Type()) {
			return false
		}
	}
	return true
}
