package restruct

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

// tagRun counts the cases of a bounded stand-in and reports failures.
type tagRun struct {
	t     *testing.T
	r     *rand.Rand
	cases int
	fails int
	end   time.Time
}

func newTagRun(t *testing.T, rule string) *tagRun {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 8 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 240 * time.Second
	}
	fmt.Println("VERIF-RULE: " + rule)
	return &tagRun{t: t, r: rand.New(rand.NewSource(s)), end: time.Now().Add(d)}
}

func (r *tagRun) fail(format string, a ...interface{}) {
	r.fails++
	if r.fails <= 3 {
		fmt.Println("VERIF-FAIL: " + strings.Replace(fmt.Sprintf(format, a...), "\n", " ", -1))
	}
	r.t.Fail()
}

func (r *tagRun) more() bool { return r.fails < 3 && time.Now().Before(r.end) }

func (r *tagRun) done() { fmt.Printf("VERIF-CASES: %d\n", r.cases) }
