package restruct

// verif:flags -race
//
// Bounded stand-in for the shared caches: concurrent calls on types that have
// not been seen before, under the race detector, and calls after calls that
// failed.

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/go-restruct/restruct/expr"
)

var raceSeq int

type raceLeaf struct {
	N uint8 `struct:"sizeof=D"`
	D []uint16
}

// raceType makes a struct type that no cache has seen.
func raceType(r *rand.Rand, depth int) reflect.Type {
	raceSeq++
	fs := []reflect.StructField{}
	for i, n := 0, 1+r.Intn(4); i < n; i++ {
		t := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf([3]uint16{}), reflect.TypeOf(raceLeaf{})}[r.Intn(5)]
		if depth > 0 && r.Intn(2) == 0 {
			t = raceType(r, depth-1)
			if r.Intn(3) == 0 {
				t = reflect.ArrayOf(2, t)
			}
		}
		tag := reflect.StructTag("")
		switch r.Intn(4) {
		case 0:
			tag = `struct:"big"`
		case 1:
			tag = `struct:"skip=1"`
		}
		switch r.Intn(8) {
		case 0:
			t = reflect.PtrTo(t)
		case 1:
			t, tag = reflect.SliceOf(reflect.PtrTo(t)), ""
		case 2:
			fs = append(fs, reflect.StructField{Name: "_", PkgPath: "p", Type: []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf([2]uint16{})}[r.Intn(2)]})
		}
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d_%d", raceSeq, i), Type: t, Tag: tag})
	}
	if r.Intn(3) == 0 {
		// a switch
		raceSeq++
		u := reflect.TypeOf(uint16(0))
		key := fmt.Sprintf("K%d", raceSeq)
		cases := reflect.StructOf([]reflect.StructField{
			{Name: fmt.Sprintf("A%d", raceSeq), Type: u, Tag: `struct:"case=1"`},
			{Name: fmt.Sprintf("B%d", raceSeq), Type: u, Tag: `struct:"default"`},
		})
		fs = append(fs, reflect.StructField{Name: key, Type: reflect.TypeOf(uint8(0))},
			reflect.StructField{Name: fmt.Sprintf("S%d", raceSeq), Type: cases, Tag: reflect.StructTag(`struct:"` + []string{"", "big,", "little,"}[r.Intn(3)] + `switch=` + key + `"`)})
	}
	return reflect.StructOf(fs)
}

// raceSummary uses the caches in every way and describes what it found.
func raceSummary(t reflect.Type, data []byte) string {
	v := reflect.New(t)
	err := Unpack(data, binary.LittleEndian, v.Interface())
	size, err2 := SizeOf(v.Interface())
	bits, err3 := BitSize(v.Interface())
	out, err4 := Pack(binary.BigEndian, v.Interface())
	s := fmt.Sprintf("%v | %d %v | %d %v | %x %v | ", err, size, err2, bits, err3, out, err4)
	et := expr.TypeOf(v.Elem().Interface()).(*expr.StructType)
	for i := 0; i < et.NumFields(); i++ {
		s += et.Field(i).Name + " " + raceExprType(et.Field(i).Type) + ", "
	}
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).Name == "_" {
			continue
		}
		x, err := expr.Eval(expr.NewStructResolver(v.Elem()), t.Field(i).Name)
		s += fmt.Sprint(raceShow(reflect.ValueOf(x)), err, "; ")
	}
	return s
}

// raceShow shows a value without the addresses in it.
func raceShow(v reflect.Value) string {
	s := ""
	switch v.Kind() {
	case reflect.Invalid:
		return "none"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + raceShow(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s += raceShow(v.Field(i)) + " "
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s += raceShow(v.Index(i)) + " "
		}
	default:
		return fmt.Sprint(v)
	}
	return "{" + s + "}"
}

func raceExprType(t expr.Type) string {
	switch t := t.(type) {
	case *expr.StructType:
		s := "{"
		for i := 0; i < t.NumFields(); i++ {
			s += t.Field(i).Name + " " + raceExprType(t.Field(i).Type) + "; "
		}
		return s + "}"
	case *expr.PtrType:
		return "*" + raceExprType(t.Elem())
	case *expr.SliceType:
		return "[]" + raceExprType(t.Elem())
	case *expr.ArrayType:
		return fmt.Sprintf("[%d]%s", t.Len(), raceExprType(t.Elem()))
	}
	return t.String()
}

func TestVerifC23(t *testing.T) {
	EnableExprBeta()
	r := newTagRun(t, "rounds of eight goroutines that pack, unpack, size and evaluate values of new struct types at once, under the race detector, then calls that fail, then the same calls alone")
	for r.more() {
		typs := make([]reflect.Type, 3)
		datas := make([][]byte, 3)
		for i := range typs {
			typs[i] = raceType(r.r, 2)
			datas[i] = make([]byte, 400)
			r.r.Read(datas[i])
		}
		const n = 8
		var got [n][3]string
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < n; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-start
				for j := range typs {
					k := (j + g) % len(typs)
					got[g][k] = raceSummary(typs[k], datas[k])
				}
			}(g)
		}
		close(start)
		done := make(chan bool)
		go func() { wg.Wait(); close(done) }()
		wait := func(what string, done chan bool) bool {
			select {
			case <-done:
				return true
			case <-time.After(30 * time.Second):
				r.fail("%s: no end after 30 s", what)
				return false
			}
		}
		if !wait("concurrent calls", done) {
			break
		}
		r.cases += n
		for g := 1; g < n; g++ {
			if got[g] != got[0] {
				r.fail("concurrent calls on the same data differ: %v and %v", got[g], got[0])
			}
		}
		// Calls that fail must not keep a lock, and must not leave anything
		// behind that changes later answers.
		done = make(chan bool)
		go func() {
			defer close(done)
			raceSeq++
			name := fmt.Sprintf("G%d", raceSeq)
			bad := reflect.StructOf([]reflect.StructField{
				{Name: name, Type: typs[0]},
				{Name: "Bad", Type: reflect.TypeOf(uint8(0)), Tag: `struct:"sizeof=None"`},
			})
			badTag := reflect.StructOf([]reflect.StructField{{Name: name, Type: typs[1], Tag: `struct:"no such option"`}})
			badExpr := reflect.StructOf([]reflect.StructField{{Name: name, Type: typs[2]}, {Name: "C", Type: reflect.TypeOf(make(chan int))}})
			for _, b := range []reflect.Type{bad, badTag, bad, badTag} {
				if _, err := SizeOf(reflect.New(b).Interface()); err == nil {
					r.fail("no error for %v", b)
				}
			}
			for i := 0; i < 2; i++ {
				func() {
					defer func() {
						if recover() == nil {
							r.fail("no panic for the expression type of %v", badExpr)
						}
					}()
					expr.TypeOf(reflect.New(badExpr).Elem().Interface())
				}()
			}
		}()
		if !wait("calls that fail", done) {
			break
		}
		done = make(chan bool)
		go func() {
			defer close(done)
			for j := range typs {
				if s := raceSummary(typs[j], datas[j]); s != got[0][j] {
					r.fail("a call alone gives %v, concurrent calls gave %v", s, got[0][j])
				}
			}
		}()
		if !wait("calls after calls that fail", done) {
			break
		}
	}
	r.done()
}
