package main

import (
	"go/types"
	"maps"

	"golang.org/x/tools/go/ssa"
)

// A caller is checked against the contracts of its callees, taken as opaque
// where they say so: the same call yields the same outcome and nothing else is
// known of it. A change that moves work from one function to another without
// changing what is done cannot be proved that way. Where a contract fails, the
// callees that only one of code and contract calls are taken by the bodies of
// their contracts instead, which they have been proved to meet.

// calls collects the opaque contracts that fn reaches through functions
// without one.
func (w *World) calls(fn *ssa.Function, open map[*Contract]bool, seen map[*ssa.Function]bool, out map[*Contract]bool) {
	if fn == nil || seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && call.Common().IsInvoke() {
				m := call.Common().Method
				iface, _ := call.Common().Value.Type().Underlying().(*types.Interface)
				for g, con := range w.targets {
					if recv := g.Signature.Recv(); con.opaque && recv != nil && g.Name() == m.Name() && iface != nil && types.Implements(recv.Type(), iface) {
						if open[con] {
							w.calls(con.spec, open, seen, out)
						} else {
							out[con] = true
						}
					}
				}
			}
			for _, op := range in.Operands(nil) {
				g, ok := (*op).(*ssa.Function)
				if !ok {
					continue
				}
				if con := w.targets[g]; con != nil && !con.inlineCode {
					if con.opaque && !open[con] {
						out[con] = true
						continue
					}
					w.calls(con.spec, open, seen, out)
					continue
				}
				if g.Pkg != nil && fn.Pkg != nil && g.Pkg == fn.Pkg || g.Parent() != nil {
					w.calls(g, open, seen, out)
				}
			}
		}
	}
}

// reaches tells whether the contract of con comes back to target.
func (w *World) reaches(con, target *Contract, seen map[*Contract]bool) bool {
	if con == target {
		return true
	}
	if seen[con] {
		return false
	}
	seen[con] = true
	m := map[*Contract]bool{}
	w.calls(con.spec, nil, map[*ssa.Function]bool{}, m)
	for q := range m {
		if w.reaches(q, target, seen) {
			return true
		}
	}
	return false
}

// again tells whether the contract of con comes back to itself.
func (w *World) again(con *Contract) bool {
	m := map[*Contract]bool{}
	w.calls(con.spec, nil, map[*ssa.Function]bool{}, m)
	for q := range m {
		if w.reaches(q, con, map[*Contract]bool{}) {
			return true
		}
	}
	return false
}

// revealFor finds the contracts to open for a second try.
func (w *World) revealFor(con *Contract, open map[*Contract]bool, all bool) map[*Contract]bool {
	if con.target == nil || con.spec == nil || con.lemma {
		return nil
	}
	a, b := map[*Contract]bool{}, map[*Contract]bool{}
	w.calls(con.target, open, map[*ssa.Function]bool{}, a)
	w.calls(con.spec, open, map[*ssa.Function]bool{}, b)
	out := maps.Clone(open)
	if out == nil {
		out = map[*Contract]bool{}
	}
	for _, p := range [][2]map[*Contract]bool{{a, b}, {b, a}} {
		for q := range p[0] {
			if p[1][q] && !all || q.trusted || q.missing || len(q.spec.Blocks) == 0 || len(q.scratch) > 0 || len(q.silent) > 0 || len(q.cache) > 0 || len(q.findings) > 0 {
				continue
			}
			if q == con && w.again(con) || q != con && w.reaches(q, con, map[*Contract]bool{}) {
				continue
			}
			out[q] = true
		}
	}
	if len(out) == len(open) {
		return nil
	}
	return out
}
