package restruct_test

// Reproductions of the known findings that no single obligation states.

import (
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/go-restruct/restruct"
)

// TestHostileCount is run in a process of its own, with little memory.
func TestHostileCount(t *testing.T) {
	if os.Getenv("VERIF_HOSTILE") == "" {
		t.Skip()
	}
	var x struct {
		N uint64 `struct:"sizeof=D"`
		D []byte
	}
	err := restruct.Unpack([]byte{0, 0, 4, 0, 0, 0, 0, 0, 1, 2, 3}, binary.BigEndian, &x)
	fmt.Println("returned:", err)
}

// knownAlloc is the finding alloc: a count that the data cannot hold ends the
// process, since the memory is allocated first.
func knownAlloc() {
	cmd := exec.Command("/bin/bash", "-c", `ulimit -v 16000000; exec "$0" -test.run '^TestHostileCount$'`, os.Args[0])
	cmd.Env = append(os.Environ(), "VERIF_HOSTILE=1")
	out, err := cmd.CombinedOutput()
	if err != nil && strings.Contains(string(out), "out of memory") && !strings.Contains(string(out), "returned:") {
		fmt.Println("VERIF-KNOWN: alloc")
	}
}

type endless struct{ P *endless }

// TestEndlessType is run in a process of its own.
func TestEndlessType(t *testing.T) {
	if os.Getenv("VERIF_HOSTILE") == "" {
		t.Skip()
	}
	debug.SetMaxStack(1 << 22)
	var x endless
	err := restruct.Unpack(nil, binary.BigEndian, &x)
	fmt.Println("returned:", err)
}

// knownEndless is the finding endless: types and values without end overflow
// the stack.
func knownEndless() {
	cmd := exec.Command(os.Args[0], "-test.run", "^TestEndlessType$")
	cmd.Env = append(os.Environ(), "VERIF_HOSTILE=1")
	out, err := cmd.CombinedOutput()
	if err != nil && strings.Contains(string(out), "stack overflow") && !strings.Contains(string(out), "returned:") {
		fmt.Println("VERIF-KNOWN: endless")
	}
}

type whileLeaf struct {
	Up *whileElem `struct:"parent"`
	V  uint8
}

type whileElem struct {
	Leaf whileLeaf
}

// knownWhile is the finding while: an element decoded by a while expression
// is copied into its slice, and links keep pointing at the original.
func knownWhile() {
	var x struct {
		S []whileElem `struct:"while=!_eof"`
	}
	if restruct.Unpack([]byte{1, 2}, binary.BigEndian, &x) == nil && len(x.S) == 2 && x.S[0].Leaf.Up != &x.S[0] {
		fmt.Println("VERIF-KNOWN: while")
	}
}
