package restruct

// Bounded stand-in for the properties of tags and field tables: generated
// tags and struct types against an independent reading of the documentation.

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"github.com/go-restruct/restruct/expr"
)

// ---- types

var tagPrims = map[string]reflect.Type{
	"bool": reflect.TypeOf(true), "byte": reflect.TypeOf(byte(0)), "rune": reflect.TypeOf(rune(0)), "string": reflect.TypeOf([]byte{}),
	"uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "int": reflect.TypeOf(int(0)), "uintptr": reflect.TypeOf(uintptr(0)),
	"float32": reflect.TypeOf(float32(0)), "float64": reflect.TypeOf(float64(0)),
	"complex64": reflect.TypeOf(complex64(0)), "complex128": reflect.TypeOf(complex128(0)),
}

var tagPrimNames = func() []string {
	var out []string
	for _, n := range []string{"bool", "byte", "rune", "string", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "uint", "int",
		"uintptr", "float32", "float64", "complex64", "complex128"} {
		out = append(out, n)
	}
	return out
}()

// refType reads a type the way it is documented; ok is false if it is none.
func refType(s string) (t reflect.Type, ok bool) {
	s = strings.TrimSpace(s)
	switch {
	case s == "":
		return nil, false
	case s[0] == '*':
		if t, ok = refType(s[1:]); ok {
			return reflect.PtrTo(t), true
		}
		return nil, false
	case s[0] == '[':
		i := strings.IndexByte(s, ']')
		if i < 0 {
			return nil, false
		}
		n := strings.TrimSpace(s[1:i])
		if t, ok = refType(s[i+1:]); !ok {
			return nil, false
		}
		if n == "" {
			return reflect.SliceOf(t), true
		}
		v, err := strconv.ParseUint(n, 0, 20)
		if err != nil {
			return nil, false
		}
		return reflect.ArrayOf(int(v), t), true
	}
	t, ok = tagPrims[s]
	return
}

func (r *tagRun) typ(depth int) string {
	switch n := r.r.Intn(8); {
	case n < 4 || depth == 0:
		return tagPrimNames[r.r.Intn(len(tagPrimNames))]
	case n == 4:
		return "[]" + r.typ(depth-1)
	case n == 5 || n == 6:
		return fmt.Sprintf("[%d]", r.r.Intn(12)*r.r.Intn(12)) + r.typ(depth-1)
	default:
		return "*" + r.typ(depth-1)
	}
}

func (r *tagRun) mutate(s, alphabet string) string {
	b := []byte(s)
	for n := r.r.Intn(3) + 1; n > 0; n-- {
		i := r.r.Intn(len(b) + 1)
		c := alphabet[r.r.Intn(len(alphabet))]
		switch {
		case r.r.Intn(3) == 0 && i < len(b):
			b = append(b[:i], b[i+1:]...)
		case r.r.Intn(2) == 0 && i < len(b):
			b[i] = c
		default:
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		}
	}
	return string(b)
}

func tryType(s string) (t reflect.Type, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	return parseType(s)
}

func TestVerifC14(t *testing.T) {
	r := newTagRun(t, "every primitive name, constructed types, other expressions, and mutations of types")
	defer r.done()
	check := func(s string) {
		r.cases++
		fmt.Sprint(s)
		want, ok := refType(s)
		got, err := tryType(s)
		if ok && err != nil {
			r.fail("type %q is rejected: %v", s, err)
		} else if ok && got != want {
			r.fail("type %q is read as %v", s, got)
		} else if !ok && err == nil {
			r.fail("type %q is accepted as %v", s, got)
		}
	}
	for _, n := range tagPrimNames {
		for _, pre := range []string{"", "[]", "[3]", "[0]", "[010]", "[08]", "*", "[][]", "[2][3]", "[]*", "*[]", "**", "[1000]"} {
			check(pre + n)
		}
	}
	for _, s := range []string{"", "x", "Uint8", "chan int", "map[int]int", "func()", "struct{}", "interface{}", "error", "int128", "uint4", "float16",
		"[n]int", "[]", "[3]", "*", "[-1]int", "[1.0]int", "[...]int", "int8+1", "int8()", "unsafe.Pointer", "any", "[3", "3]int", "[1 2]int", "int int", "&int",
		"['a']int", "[\"a\"]int", "[1]", "<-chan int", "int.x", "[1+1]int", "[99999999999999999999]int", "[]chan int", "*map[int]int", "[2]func()", "complex", "nil", "true",
		"(int)", "[](int)", "*(int)", "[(3)]int", "[1_0]int", "['\x02']int", "[3.]int", "[0x3]int", "[0b11]int", "[0o3]int", "[1e1]int", "[2i]int"} {
		check(s)
	}
	for r.more() {
		s := r.typ(4)
		check(s)
		m := r.mutate(s, "[]*0123456789intubyeflorcpx84 ")
		// comments and line breaks are no part of types
		if !strings.Contains(m, "//") {
			check(m)
		}
		if r.cases > 400000 {
			break
		}
	}
}

// ---- tags

func refIdent(s string) bool {
	for i, c := range s {
		l := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_'
		if !l && (i == 0 || c < '0' || c > '9') {
			return false
		}
	}
	return true
}

// refPieces splits a tag at the commas that are not inside of brackets or
// literals.
func refPieces(s string) (out []string, ok bool) {
	var open []byte
	start := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case 0:
			return nil, false
		case ',':
			if len(open) == 0 {
				out = append(out, s[start:i])
				start = i + 1
			}
		case '(':
			open = append(open, ')')
		case '[':
			open = append(open, ']')
		case '{':
			open = append(open, '}')
		case '"', '\'':
			for i++; i < len(s) && s[i] != c; i++ {
				if s[i] == '\\' {
					i++
				}
			}
			if i >= len(s) {
				return nil, false
			}
		case ')', ']', '}':
			if len(open) > 0 && open[len(open)-1] == c {
				open = open[:len(open)-1]
			}
		}
	}
	return append(out, s[start:]), len(open) == 0
}

func refTag(s string) (o tagOptions, ok bool) {
	if s == "" {
		return o, true
	}
	if s == "-" {
		o.Ignore = true
		return o, true
	}
	ps, ok := refPieces(s)
	if !ok || strings.IndexByte(s, 0) >= 0 {
		return o, false
	}
	for _, p := range ps {
		switch p {
		case "lsb", "little":
			o.Order = binary.LittleEndian
			continue
		case "msb", "big", "network":
			o.Order = binary.BigEndian
			continue
		case "variantbool":
			o.VariantBoolFlag = true
			continue
		case "invertedbool":
			o.InvertedBoolFlag = true
			continue
		case "root":
			o.RootFlag = true
			continue
		case "parent":
			o.ParentFlag = true
			continue
		case "default":
			o.DefaultFlag = true
			continue
		}
		if i := strings.IndexByte(p, '='); i >= 0 {
			k, v := p[:i], p[i+1:]
			known := true
			switch k {
			case "sizeof", "sizefrom":
				if !refIdent(v) {
					return o, false
				}
				if k == "sizeof" {
					o.SizeOf = v
				} else {
					o.SizeFrom = v
				}
			case "skip":
				n, err := strconv.ParseInt(v, 0, 64)
				if err != nil || strings.Trim(v, "0123456789abcdefABCDEFxX") != "" {
					return o, false
				}
				o.Skip = int(n)
			case "if":
				o.IfExpr = v
			case "size":
				o.SizeExpr = v
			case "bits":
				o.BitsExpr = v
			case "in":
				o.InExpr = v
			case "out":
				o.OutExpr = v
			case "while":
				o.WhileExpr = v
			case "switch":
				o.SwitchExpr = v
			case "case":
				o.CaseExpr = v
			default:
				known = false
			}
			if known {
				continue
			}
		}
		tn, bits := p, ""
		colon := strings.IndexByte(p, ':')
		if colon >= 0 {
			tn, bits = p[:colon], p[colon+1:]
		}
		t, ok := refType(tn)
		if !ok {
			return o, false
		}
		o.Type = t
		if colon >= 0 {
			switch t.Kind() {
			case reflect.Bool, reflect.Slice, reflect.Array, reflect.Ptr, reflect.Float64, reflect.Uintptr:
				return o, false
			}
			n, err := strconv.ParseUint(bits, 0, 8)
			if err != nil || n == 0 || int(n) >= t.Bits() {
				return o, false
			}
			o.BitSize = uint8(n)
		}
	}
	return o, true
}

func (r *tagRun) expr() string {
	xs := []string{"A", "A + 1", "f(A, B)", "A[1]", "x == \",\"", "'('", "(A, B)", "a ? b : c", "{1,2}", "\"\\\"\"", "'\\''", "A == ']'", "1", "((1))", "a[b(c, d), e]", "x=y", "lsb", "\")\""}
	return xs[r.r.Intn(len(xs))]
}

func (r *tagRun) option() string {
	ids := []string{"A", "Size", "x_1", "B2", "_"}
	ints := []string{"0", "1", "8", "0x10", "17", "010", "1024"}
	switch n := r.r.Intn(20); n {
	case 0:
		return []string{"lsb", "little"}[r.r.Intn(2)]
	case 1:
		return []string{"msb", "big", "network"}[r.r.Intn(3)]
	case 2:
		return "variantbool"
	case 3:
		return "invertedbool"
	case 4:
		return "root"
	case 5:
		return "parent"
	case 6:
		return "default"
	case 7:
		return "sizeof=" + ids[r.r.Intn(len(ids))]
	case 8:
		return "sizefrom=" + ids[r.r.Intn(len(ids))]
	case 9:
		return "skip=" + ints[r.r.Intn(len(ints))]
	case 10, 11, 12, 13, 14, 15, 16, 17:
		return []string{"if=", "size=", "bits=", "in=", "out=", "while=", "switch=", "case="}[n-10] + r.expr()
	case 18:
		return r.typ(2)
	default:
		return r.typ(0) + ":" + strconv.Itoa(r.r.Intn(70)-1)
	}
}

func tryTag(s string) (o tagOptions, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("%v", p)
		}
	}()
	return parseTag(s)
}

func TestVerifC13(t *testing.T) {
	r := newTagRun(t, "every option alone, lists of options in every order, and mutations of tags")
	defer r.done()
	check := func(s string) {
		r.cases++
		want, ok := refTag(s)
		got, err := tryTag(s)
		if ok && err != nil {
			r.fail("tag %q is rejected: %v", s, err)
		} else if ok && !reflect.DeepEqual(got, want) {
			r.fail("tag %q sets %+v, not %+v", s, got, want)
		} else if !ok && err == nil {
			r.fail("tag %q is accepted as %+v", s, got)
		}
	}
	for _, s := range []string{"", "-", "-,uint8", "uint8,-", ",", "uint8,", ",uint8", "nonsense", "lsbmsb", "lsb msb", "lsb,", "sizeof=1", "sizeof=a b", "sizeof=a-b", "skip=-1", "skip=x",
		"skip=", "skip=1_0", "skip=0x1_0", "skip=_1", "skip=+1", "skip=1.5", "skip=0xg", "uint8:0", "uint8:8", "uint8:7", "uint8:1", "uint16:15", "uint16:16", "uint64:63", "uint64:64", "int:63", "int:64", "float64:3", "float32:31", "float32:32", "bool:1",
		"string:1", "[]uint8:1", "uint8:x", "uint8:", "uint8:1:2", "uint8:256", "uint8:-1", "if=(", "if=\"", "if='", "if=[", "if={", "size=a)", "in==", "lsb,lsb", "uint8,uint16", "sizeof =A", " lsb", "lsb ", "LSB",
		"uint8\x00junk", "lsb\x00", "if=a\x00b", "\x00", "default=1", "root,parent", "complex64:63", "complex64:64", "complex128:127", "complex128:128", "uintptr:3", "skip=99999999999999999999", "skip=2147483648", "skip=4294967295", "skip=4294967299", "skip=1099511627776", "skip=9223372036854775807", "skip=9223372036854775808", "skip=0x7fffffffffffffff", "rune:3", "byte:3", "uint8:0x3", "uint8:010"} {
		check(s)
	}
	for _, n := range tagPrimNames {
		for b := 0; b < 130; b++ {
			check(fmt.Sprintf("%s:%d", n, b))
		}
	}
	for r.more() {
		var os []string
		for n := r.r.Intn(5) + 1; n > 0; n-- {
			os = append(os, r.option())
		}
		s := strings.Join(os, ",")
		check(s)
		r.r.Shuffle(len(os), func(i, j int) { os[i], os[j] = os[j], os[i] })
		check(strings.Join(os, ","))
		m := r.mutate(s, ",,:=()[]'\"\\0123456789abcdefinostuwz- \x00")
		if !strings.Contains(m, "//") && !strings.Contains(m, "/*") {
			check(m)
		}
		if r.cases > 300000 {
			break
		}
	}
}

// ---- field tables

func (r *tagRun) strct() (reflect.Type, []reflect.StructField) {
	var fs []reflect.StructField
	n := r.r.Intn(6) + 1
	pick := func() string { return "F" + strconv.Itoa(r.r.Intn(n)) }
	kinds := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(int32(0)), reflect.TypeOf([]uint8{}), reflect.TypeOf(""), reflect.TypeOf([2]int16{}), reflect.TypeOf(float64(0)),
		reflect.TypeOf(true), reflect.TypeOf(&struct{ A int }{}), reflect.TypeOf(struct{ A, B int8 }{}), reflect.TypeOf([]string{}), reflect.TypeOf(struct{ S []int8 }{}), reflect.TypeOf([3]struct{ S string }{})}
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: "F" + strconv.Itoa(i), Type: kinds[r.r.Intn(len(kinds))]}
		switch r.r.Intn(12) {
		case 0:
			f.Name, f.PkgPath = "f"+strconv.Itoa(i), "x"
		case 1:
			f.Name, f.PkgPath = "_", "x"
		}
		var os []string
		for k := r.r.Intn(4); k > 0; k-- {
			switch r.r.Intn(16) {
			case 0:
				os = append(os, []string{"lsb", "msb"}[r.r.Intn(2)])
			case 1:
				os = append(os, "variantbool")
			case 2:
				os = append(os, "invertedbool")
			case 3:
				os = append(os, "default")
			case 4, 5, 6:
				os = append(os, "sizeof="+pick())
			case 7, 8:
				os = append(os, "sizefrom="+pick())
			case 9:
				os = append(os, "skip="+strconv.Itoa(r.r.Intn(9)))
			case 10:
				os = append(os, "uint8:3")
			case 11:
				os = append(os, r.typ(1))
			case 12:
				if r.r.Intn(3) == 0 {
					os = append(os, []string{"root", "parent"}[r.r.Intn(2)])
				}
			default:
				os = append(os, []string{"if", "size", "bits", "in", "out", "while", "switch", "case"}[r.r.Intn(8)]+"="+strconv.Itoa(r.r.Intn(100)))
			}
		}
		tag := strings.Join(os, ",")
		if r.r.Intn(20) == 0 {
			tag = "-"
		}
		if tag != "" {
			f.Tag = reflect.StructTag(`struct:` + strconv.Quote(tag))
		}
		if r.r.Intn(5) == 0 {
			f.Tag += reflect.StructTag(fmt.Sprintf(` struct-%s:"%d + 1"`, []string{"if", "size", "bits", "in", "out", "while", "switch", "case"}[r.r.Intn(8)], r.r.Intn(100)))
		}
		if f.Name == "_" {
			dup := false
			for _, g := range fs {
				dup = dup || g.Name == "_"
			}
			if dup {
				f.Name, f.PkgPath = "F"+strconv.Itoa(i), ""
			}
		}
		fs = append(fs, f)
	}
	return reflect.StructOf(fs), fs
}

func fixedSize(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Slice, reflect.String, reflect.Ptr:
		return false
	case reflect.Array:
		return fixedSize(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath == "" && !fixedSize(f.Type) {
				return false
			}
		}
	}
	return true
}

func refFields(fs []reflect.StructField) (out fields, ok bool) {
	seq := func(t reflect.Type) bool { return t.Kind() == reflect.Slice || t.Kind() == reflect.String }
	pending := map[string]int{}
	for i, sf := range fs {
		if sf.PkgPath != "" && sf.Name != "_" {
			continue
		}
		o, ok := refTag(sf.Tag.Get("struct"))
		if !ok {
			return nil, false
		}
		f := field{Name: sf.Name, Index: i}
		switch {
		case o.Ignore:
			continue
		case o.RootFlag:
			f.Flags = RootFlag
			out = append(out, f)
			continue
		case o.ParentFlag:
			f.Flags = ParentFlag
			out = append(out, f)
			continue
		}
		f.NativeType, f.BinaryType, f.Order, f.Skip, f.BitSize = sf.Type, sf.Type, o.Order, o.Skip, o.BitSize
		if o.Type != nil {
			f.BinaryType = o.Type
		}
		f.SIndex, f.TIndex = -1, -1
		link := func(j int) {
			for k := range out {
				if out[k].Index == j {
					out[k].TIndex = i
				}
			}
			f.SIndex = j
		}
		if j, ok := pending[sf.Name]; ok {
			if !seq(sf.Type) {
				return nil, false
			}
			link(j)
			delete(pending, sf.Name)
		} else if o.SizeOf != "" {
			pending[o.SizeOf] = i
		}
		if o.SizeFrom != "" {
			j := -1
			for _, g := range out {
				if g.Name == o.SizeFrom {
					j = g.Index
				}
			}
			if j < 0 && f.SIndex < 0 || !seq(sf.Type) {
				return nil, false
			}
			if j >= 0 {
				link(j)
			}
		}
		for _, e := range []struct {
			dst  **expr.Program
			src  string
			name string
		}{{&f.IfExpr, o.IfExpr, "if"}, {&f.SizeExpr, o.SizeExpr, "size"}, {&f.BitsExpr, o.BitsExpr, "bits"}, {&f.InExpr, o.InExpr, "in"}, {&f.OutExpr, o.OutExpr, "out"},
			{&f.WhileExpr, o.WhileExpr, "while"}, {&f.SwitchExpr, o.SwitchExpr, "switch"}, {&f.CaseExpr, o.CaseExpr, "case"}} {
			src := e.src
			if src == "" {
				src = sf.Tag.Get("struct-" + e.name)
			}
			if src != "" {
				*e.dst = expr.ParseString(src)
			}
		}
		if f.SizeExpr != nil && !seq(sf.Type) {
			return nil, false
		}
		if f.BitsExpr != nil {
			switch k := f.BinaryType.Kind(); {
			case k >= reflect.Int && k <= reflect.Uint64, k == reflect.Float32, k == reflect.Complex64, k == reflect.Complex128:
			default:
				return nil, false
			}
		}
		if o.VariantBoolFlag {
			f.Flags |= VariantBoolFlag
		}
		if o.InvertedBoolFlag {
			f.Flags |= InvertedBoolFlag
		}
		if o.DefaultFlag {
			f.Flags |= DefaultFlag
		}
		f.Trivial = fixedSize(f.BinaryType)
		out = append(out, f)
	}
	return out, len(pending) == 0
}

func tryFields(t reflect.Type) (fs fields, err interface{}) {
	defer func() { err = recover() }()
	return fieldsFromStruct(t), nil
}

func TestVerifC15(t *testing.T) {
	r := newTagRun(t, "generated struct types with tags; the table is compared field by field, twice, also from the cache")
	defer r.done()
	for r.more() && r.cases < 200000 {
		typ, fs := r.strct()
		r.cases++
		want, ok := refFields(fs)
		got, err := tryFields(typ)
		if ok && err != nil {
			r.fail("the table of %v is rejected: %v", typ, err)
		} else if !ok && err == nil {
			r.fail("the table of %v is accepted", typ)
		} else if ok && !reflect.DeepEqual(got, want) && !(len(got) == 0 && len(want) == 0) {
			for i := range want {
				if i >= len(got) || !reflect.DeepEqual(got[i], want[i]) {
					g := field{}
					if i < len(got) {
						g = got[i]
					}
					r.fail("field %d of the table of %v is %+v, not %+v", i, typ, g, want[i])
					break
				}
			}
			if len(got) > len(want) {
				r.fail("the table of %v has %d fields, not %d", typ, len(got), len(want))
			}
		} else if ok && r.cases%8 == 0 {
			for i := 0; i < 2; i++ {
				if c := cachedFieldsFromStruct(typ); !reflect.DeepEqual(c, got) {
					r.fail("the cached table of %v is %+v, not %+v", typ, c, got)
				}
			}
		}
		// elements
		if ok && err == nil {
			for _, f := range got {
				if f.BinaryType == nil || f.Flags&(RootFlag|ParentFlag) != 0 {
					continue
				}
				k, n := f.BinaryType.Kind(), f.NativeType.Kind()
				if (k == reflect.Slice || k == reflect.Array || k == reflect.String) && (n == reflect.Slice || n == reflect.Array || n == reflect.String) {
					el := func(t reflect.Type) reflect.Type {
						if t.Kind() == reflect.String {
							return reflect.TypeOf(byte(0))
						}
						return t.Elem()
					}
					e := f.Elem()
					if e.BinaryType != el(f.BinaryType) || e.NativeType != el(f.NativeType) || e.Order != f.Order || e.Skip != 0 || e.BitSize != 0 || e.SIndex != -1 || e.TIndex != -1 ||
						e.Trivial != fixedSize(el(f.BinaryType)) || e.SizeExpr != nil || e.IfExpr != nil {
						r.fail("the element of field %+v is %+v", f, e)
					}
				}
			}
		}
	}
}
