package expr

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"
)

// verifRun counts the cases of a bounded stand-in and reports failures.
type verifRun struct {
	t     *testing.T
	r     *rand.Rand
	cases int
	fails int
	end   time.Time
}

func newVerifRun(t *testing.T, rule string) *verifRun {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	d := 6 * time.Second
	if os.Getenv("VERIF_TIER") == "thorough" {
		d = 200 * time.Second
	}
	fmt.Println("VERIF-RULE: " + rule)
	return &verifRun{t: t, r: rand.New(rand.NewSource(s)), end: time.Now().Add(d)}
}

func (r *verifRun) fail(format string, a ...interface{}) {
	r.fails++
	if r.fails <= 3 {
		fmt.Println("VERIF-FAIL: " + strings.Replace(fmt.Sprintf(format, a...), "\n", " ", -1))
	}
	r.t.Fail()
}

func (r *verifRun) more() bool { return r.fails < 3 && time.Now().Before(r.end) }

func (r *verifRun) done() { fmt.Printf("VERIF-CASES: %d\n", r.cases) }

// verifTry gives the result of f, or the fact that it panicked.
func verifTry(f func() interface{}) (v interface{}, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			v, failed = nil, true
		}
	}()
	return f(), false
}
