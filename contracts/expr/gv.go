//go:build verif

package expr

// gvRequires restricts the pre-state.
func gvRequires(cond bool) {}

// gvAssert is an obligation.
func gvAssert(cond bool) {}

// gvSplit makes one case for each value from lo to hi.
func gvSplit(v, lo, hi int) {}

// gvNote labels the obligations of the current path with a property.
func gvNote(prop string) {}

// gvFinding tells whether the behaviour of a known finding is expected.
func gvFinding(name string) bool { return false }

// gvAnyByte is an arbitrary byte.
func gvAnyByte(name string) byte { return 0 }

// gvInit runs the initialisation of the package.
func gvInit() {}
