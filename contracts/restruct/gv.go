//go:build verif

package restruct

// Functions the contracts are written with; the verifier gives them their
// meaning.

// gvRequires restricts the pre-state.
func gvRequires(cond bool) {}

// gvAssert is an obligation.
func gvAssert(cond bool) {}

// gvSplit makes one case for each value from lo to hi, and requires v to be in
// that range.
func gvSplit(v, lo, hi int) {}

// gvNote labels the obligations of the current path with a property.
func gvNote(prop string) {}

// gvFinding tells whether the behaviour of a known finding is expected.
func gvFinding(name string) bool { return false }

// gvZeroBuf makes the contents of a buffer zero.
func gvZeroBuf(b []byte) {}

// gvAnyByte is an arbitrary byte.
func gvAnyByte(name string) byte { return 0 }

// gvInitDone runs the initialisation of the package, and considers the runs of
// it that complete.
func gvInitDone() {}
