package expr

// Bounded stand-in for the scanner and the parser: generated texts against a
// reference scanner and a reference parser written from the documentation.

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"testing"
	"time"
	"unicode"
)

// ---- scanner

type lxTok struct {
	kind tokenkind
	s    string
	u    uint64
	i    int64
	neg  bool
	f    float64
	b    bool
}

var lxOps = map[string]tokenkind{
	"+": addtoken, "-": subtoken, "*": multoken, "/": quotoken, "%": remtoken, "&": andtoken, "!": nottoken, "|": ortoken,
	"^": xortoken, "<<": shltoken, ">>": shrtoken, "&^": andnottoken, "&&": logicalandtoken, "||": logicalortoken,
	"==": equaltoken, "<": lessertoken, ">": greatertoken, "!=": notequaltoken, "<=": lesserequaltoken, ">=": greaterequaltoken,
	"(": leftparentoken, "[": leftbrackettoken, ",": commatoken, ".": periodtoken, ")": rightparentoken, "]": rightbrackettoken,
	":": colontoken, "?": ternarytoken,
}

var lxWords = map[string]tokenkind{
	"bool": boolkeyword, "byte": bytekeyword, "float32": float32keyword, "float64": float64keyword, "int": intkeyword,
	"int8": int8keyword, "int16": int16keyword, "int32": int32keyword, "int64": int64keyword, "uint": uintkeyword,
	"uint8": uint8keyword, "uint16": uint16keyword, "uint32": uint32keyword, "uint64": uint64keyword, "uintptr": uintptrkeyword,
	"nil": nilkeyword,
}

type lxScan struct {
	in  []rune
	at  int
	end bool // a token that ends an operand came before
}

func (l *lxScan) peek() rune {
	if l.at >= len(l.in) {
		return -1
	}
	return l.in[l.at]
}

func lxDigit(c rune) bool {
	return c >= '0' && c <= '9' || c >= 0x80 && unicode.IsDigit(c)
}

func lxLetter(c rune) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 && unicode.IsLetter(c)
}

func (l *lxScan) number(text string) (t lxTok, ok bool) {
	for c := l.peek(); lxDigit(c) || strings.ContainsRune("abcdefABCDEFxX.", c) && c >= 0; c = l.peek() {
		text += string(c)
		l.at++
	}
	if u, err := strconv.ParseUint(text, 0, 64); err == nil {
		return lxTok{kind: inttoken, u: u, i: int64(u)}, true
	}
	if i, err := strconv.ParseInt(text, 0, 64); err == nil {
		return lxTok{kind: inttoken, u: uint64(i), i: i, neg: true}, true
	}
	if f, err := strconv.ParseFloat(text, 64); err == nil {
		return lxTok{kind: floattoken, f: f}, true
	}
	return t, false
}

// escape reads what follows a backslash.
func (l *lxScan) escape(quote rune) (b []byte, ok bool) {
	c := l.peek()
	l.at++
	if i := strings.IndexRune(`abfnrtv\`, c); c >= 0 && i >= 0 {
		return []byte{"\a\b\f\n\r\t\v\\"[i]}, true
	}
	if c == quote {
		return []byte{byte(c)}, true
	}
	n, base := 0, 16
	switch c {
	case 'x':
		n = 2
	case 'u':
		n = 4
	case 'U':
		n = 8
	default:
		n, base = 3, 8
		l.at--
	}
	v := 0
	for i := 0; i < n; i++ {
		d := strings.IndexRune("0123456789abcdef", unicode.ToLower(l.peek()))
		if l.peek() < 0 || l.peek() > 0x7f || d < 0 || d >= base {
			return nil, false
		}
		v = v*base + d
		l.at++
	}
	if n == 2 || n == 3 {
		return []byte{byte(v)}, v < 256
	}
	return []byte(string(rune(v))), true
}

func (l *lxScan) str(quote rune) (t lxTok, ok bool) {
	b := []byte{}
	for {
		c := l.peek()
		l.at++
		switch c {
		case -1:
			return t, false
		case quote:
			return lxTok{kind: strtoken, s: string(b)}, true
		case '\\':
			e, ok := l.escape(quote)
			if !ok {
				return t, false
			}
			b = append(b, e...)
		default:
			b = append(b, string(c)...)
		}
	}
}

func (l *lxScan) token() (t lxTok, ok bool) {
	for l.peek() == ' ' || l.peek() == '\t' {
		l.at++
	}
	c := l.peek()
	next := rune(-1)
	if l.at+1 < len(l.in) {
		next = l.in[l.at+1]
	}
	switch {
	case c == -1:
		return lxTok{kind: eoftoken}, true
	case lxLetter(c):
		from := l.at
		for lxLetter(l.peek()) || lxDigit(l.peek()) {
			l.at++
		}
		s := string(l.in[from:l.at])
		t = lxTok{kind: identtoken, s: s}
		if s == "true" || s == "false" {
			t.kind, t.b = booltoken, s == "true"
		}
		if k, ok := lxWords[s]; ok {
			t.kind = k
		}
		return t, true
	case lxDigit(c):
		return l.number("")
	case c == '"':
		l.at++
		return l.str('"')
	case c == '$':
		if next != '\'' {
			return t, false
		}
		l.at += 2
		return l.str('\'')
	case c == '\'':
		l.at++
		r := l.peek()
		l.at++
		t = lxTok{kind: runetoken, i: int64(r)}
		if r == '\\' {
			b, ok := l.escape('\'')
			if !ok {
				return t, false
			}
			if t.i = int64([]rune(string(b))[0]); len(b) == 1 {
				t.i = int64(b[0])
			}
		}
		ok = l.peek() == '\''
		l.at++
		return t, ok && r >= 0
	case c == '-' && !l.end && lxDigit(next):
		l.at++
		return l.number("-")
	case c == '.' && lxDigit(next):
		l.at++
		return l.number(".")
	}
	if next >= 0 {
		if k, ok := lxOps[string(c)+string(next)]; ok {
			l.at += 2
			return lxTok{kind: k}, true
		}
	}
	if k, ok := lxOps[string(c)]; ok {
		l.at++
		return lxTok{kind: k}, true
	}
	return t, false
}

func (l *lxScan) next() (lxTok, bool) {
	t, ok := l.token()
	switch t.kind {
	case identtoken, inttoken, floattoken, booltoken, strtoken, runetoken, nilkeyword, rightparentoken, rightbrackettoken:
		l.end = true
	default:
		l.end = false
	}
	return t, ok
}

var lxPieces = []string{
	"0", "1", "42", "0x1F", "0X0f", "0b101", "017", "1.5", ".5", "1e3", "18446744073709551615", "18446744073709551616", "9223372036854775808",
	"-1", "-9223372036854775808", "-9223372036854775809", "-1.5", "- 2", "12ab", "1.2.3", "0x", "08", "1e999", "٣", "0.1", "00", "1.",
	"a", "b", "Z", "_", "x1", "true", "false", "nil", "int", "uint8", "float64", "byte", "truex", "int8x", "uintptr", "uint64", "bool", "é", "名前", "ß9",
	`""`, `"abc"`, `"a\"b"`, `"\x41\101\u00e9\U0001F600"`, `"\a\b\f\n\r\t\v\\"`, `"é"`, `"\xff"`, `"\400"`, `"\q"`, `"\u12"`, `"\x4"`, "\"\n\"",
	`'a'`, `'\''`, `'\n'`, `'\x41'`, `'\xff'`, `'\377'`, `'\u00e9'`, `'é'`, `'ab'`, `'`, `'\`, `"`, `"\`, `$'abc'`, `$'a\'b"'`, `$"x"`, `$`, `$'`,
	`"\"`, `$'\"'`, `"\'"`, `'\"'`, "\"a\ufeffb\"", "'\ufeff'", "\ufeff", "\"\ufffd\"", "\"\x00\"", "\"\u2028\"", "\u2028", "'\U0010ffff'",
	" ", "\t", "  ", "\n", "\r", "\u00a0", "#", "@", "~", ";", "{", "}", "`", "\\", "=", "\x00", "\x7f", "€",
}

const lxChars = "0123456789abcdefxXgG._-+$'\"\\&|<>=!^ "

// lxQuoted makes a string or rune literal with escapes of any value.
func (r *verifRun) lxQuoted() string {
	q := "'\""[r.r.Intn(2)]
	b := string(q)
	n := 1
	if q == '"' {
		n = r.r.Intn(4)
	}
	for ; n > 0; n-- {
		v := r.r.Uint32() >> uint(r.r.Intn(32))
		switch r.r.Intn(7) {
		case 0:
			b += fmt.Sprintf(`\x%02x`, byte(v))
		case 1:
			b += fmt.Sprintf(`\u%04x`, uint16(v))
		case 2:
			b += fmt.Sprintf(`\U%08X`, v)
		case 3:
			b += fmt.Sprintf(`\%03o`, v%520)
		case 4:
			b += string(rune(v & 0x1fffff))
		case 5:
			b += `\` + string("abfnrtv\\'\"0xuUq8"[v%16])
		default:
			b += "/*a*/ \n-"[v%8 : v%8+1]
		}
	}
	return b + string(q)
}

func (r *verifRun) lxText() string {
	var b strings.Builder
	ops := []string{}
	for o := range lxOps {
		ops = append(ops, o)
	}
	// Maps have no order; runs have to be the same for one seed.
	sortStrings(ops)
	for n := 1 + r.r.Intn(6); n > 0; n-- {
		switch r.r.Intn(9) {
		case 0, 1:
			b.WriteString(ops[r.r.Intn(len(ops))])
		case 2:
			b.WriteString(ops[r.r.Intn(len(ops))] + ops[r.r.Intn(len(ops))])
		case 3:
			b.WriteByte(lxChars[r.r.Intn(len(lxChars))])
		case 4, 5:
			b.WriteString(r.lxQuoted())
		default:
			b.WriteString(lxPieces[r.r.Intn(len(lxPieces))])
		}
		if r.r.Intn(3) == 0 {
			b.WriteByte(' ')
		}
	}
	s := b.String()
	if r.r.Intn(10) == 0 && len(s) > 0 {
		rs := []rune(s)
		s = string(rs[:r.r.Intn(len(rs))])
	}
	return s
}

func sortStrings(a []string) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

// lxUnclear tells texts whose meaning is not fixed: code points that are not
// characters, and the rune literal of a quote without a backslash.
func lxUnclear(s string) bool {
	return strings.Contains(s, "'''") || strings.Contains(s, `\U`) && !strings.Contains(s, `\U0001F600`) ||
		strings.Contains(s, `\ud`) || strings.Contains(s, `\uD`) || strings.Contains(s, "\x00\x00")
}

func lxSame(w lxTok, g token) bool {
	if w.kind != g.kind {
		return false
	}
	switch w.kind {
	case inttoken:
		return w.u == g.uval && w.i == g.ival && w.neg == g.sign
	case floattoken:
		return w.f == g.fval
	case booltoken:
		return w.b == g.bval
	case strtoken, identtoken:
		return w.s == g.sval
	case runetoken:
		return w.i == g.ival
	}
	return true
}

func (r *verifRun) lxCheck(text string) (failure string) {
	l := &lxScan{in: []rune(text)}
	s := newscanner(strings.NewReader(text))
	for n := 0; n < len(text)+2; n++ {
		w, ok := l.next()
		g := s.scan()
		if !ok {
			if g.kind != errtoken {
				return fmt.Sprintf("token %d of %q is %v, want an error", n, text, g)
			}
			return ""
		}
		if !lxSame(w, g) {
			return fmt.Sprintf("token %d of %q is %v %+v, want %v %+v", n, text, g.kind, g, w.kind, w)
		}
		if w.kind == eoftoken {
			return ""
		}
	}
	return fmt.Sprintf("scanning %q does not end", text)
}

// guarded runs f and reports if it does not end.
func (r *verifRun) guarded(texts []string, f func(string) string) {
	type res struct{ text, failure string }
	at := make(chan string, len(texts))
	done := make(chan res, len(texts))
	go func() {
		for _, t := range texts {
			at <- t
			done <- res{t, f(t)}
		}
	}()
	for range texts {
		t := <-at
		select {
		case d := <-done:
			r.cases++
			if d.failure != "" {
				r.fail("%s", d.failure)
			}
		case <-time.After(20 * time.Second):
			r.fail("%q: no end after 20 s", t)
			return
		}
	}
}

func TestVerifC21(t *testing.T) {
	r := newVerifRun(t, "texts made of tokens, near-tokens and arbitrary characters, with and without blanks, against a reference scanner")
	texts := []string{""}
	for _, p := range lxPieces {
		texts = append(texts, p, p+" ", " "+p, p+p)
		for o := range lxOps {
			texts = append(texts, p+o, o+p, o+p+o)
		}
	}
	for a := range lxOps {
		for b := range lxOps {
			texts = append(texts, a+b, "a"+a+b+"1", a+" "+b)
		}
	}
	for w := range lxWords {
		texts = append(texts, w, w+"-1", w+"1", strings.ToUpper(w))
	}
	for r.more() {
		use := texts[:0:0]
		for _, s := range texts {
			if !lxUnclear(s) {
				use = append(use, s)
			}
		}
		r.guarded(use, r.lxCheck)
		texts = texts[:0]
		for i := 0; i < 2000; i++ {
			texts = append(texts, r.lxText())
		}
	}
	r.done()
}

// ---- parser

// A reference parser by precedence climbing over a list of token texts.
type paParse struct {
	toks []string
	at   int
}

type paErr struct{}

var paLevel = map[string]int{
	",": 1, "?": 2, "||": 2, "&&": 3, "==": 4, "!=": 4, "<": 4, "<=": 4, ">": 4, ">=": 4,
	"+": 5, "-": 5, "|": 5, "^": 5, "*": 6, "/": 6, "%": 6, "<<": 6, ">>": 6, "&": 6, "&^": 6,
}

func (p *paParse) peek() string {
	if p.at < len(p.toks) {
		return p.toks[p.at]
	}
	return ""
}

func (p *paParse) take(s string) {
	if p.peek() != s || s == "" {
		panic(paErr{})
	}
	p.at++
}

func (p *paParse) primary() string {
	t := p.peek()
	if t == "" {
		panic(paErr{})
	}
	if t == "(" {
		p.at++
		s := p.expr(1)
		p.take(")")
		return s
	}
	if _, ok := lxOps[t]; ok || t == "#" {
		panic(paErr{})
	}
	if _, ok := lxWords[t]; ok && t != "nil" {
		panic(paErr{})
	}
	p.at++
	return t
}

func (p *paParse) unary() string {
	switch t := p.peek(); t {
	case "+", "-", "!", "^", "*", "&":
		p.at++
		return "(" + t + " " + p.unary() + ")"
	}
	s := p.primary()
	for {
		switch p.peek() {
		case ".":
			p.at++
			s = "(. " + s + " " + p.primary() + ")"
		case "(":
			p.at++
			if p.peek() == ")" {
				p.at++
				s = "(call " + s + ")"
				continue
			}
			s = "(call " + s + " " + p.expr(1) + ")"
			p.take(")")
		case "[":
			p.at++
			s = "(index " + s + " " + p.expr(1) + ")"
			p.take("]")
		default:
			return s
		}
	}
}

// expr reads an expression of operators of the given level or tighter.
func (p *paParse) expr(level int) string {
	if level > 6 {
		return p.unary()
	}
	s := p.expr(level + 1)
	for {
		t := p.peek()
		if l, ok := paLevel[t]; !ok || l != level {
			return s
		}
		p.at++
		if t == "?" {
			b := p.expr(2)
			p.take(":")
			s = "(?: " + s + " " + b + " " + p.expr(2) + ")"
			continue
		}
		s = "(" + t + " " + s + " " + p.expr(level+1) + ")"
	}
}

func (p *paParse) all() string {
	s := p.expr(1)
	if p.at != len(p.toks) {
		panic(paErr{})
	}
	return s
}

var paUnary = map[unaryop]string{unaryplus: "+", unarynegate: "-", unarynot: "!", unarybitnot: "^", unaryderef: "*", unaryref: "&"}
var paBinary = map[binaryop]string{
	binarylogicalor: "||", binarylogicaland: "&&", binaryequal: "==", binarynotequal: "!=", binarylesser: "<", binarylesserequal: "<=",
	binarygreater: ">", binarygreaterequal: ">=", binaryadd: "+", binarysub: "-", binaryor: "|", binaryxor: "^", binarymul: "*",
	binarydiv: "/", binaryrem: "%", binarylsh: "<<", binaryrsh: ">>", binaryand: "&", binaryandnot: "&^", binarymember: ".",
	binarycall: "call", binarysubscript: "index", binarygroup: ",",
}

func paTree(n node) string {
	switch n := n.(type) {
	case identnode:
		return n.ident
	case intnode:
		return strconv.FormatUint(n.uval, 10)
	case floatnode:
		return strconv.FormatFloat(n.fval, 'f', -1, 64)
	case boolnode:
		return strconv.FormatBool(n.val)
	case strnode:
		return strconv.Quote(n.val)
	case runenode:
		return strconv.QuoteRune(n.val)
	case nilnode:
		return "nil"
	case unaryexpr:
		return "(" + paUnary[n.op] + " " + paTree(n.n) + ")"
	case binaryexpr:
		if n.b == nil {
			return "(" + paBinary[n.op] + " " + paTree(n.a) + ")"
		}
		return "(" + paBinary[n.op] + " " + paTree(n.a) + " " + paTree(n.b) + ")"
	case ternaryexpr:
		return "(?: " + paTree(n.a) + " " + paTree(n.b) + " " + paTree(n.c) + ")"
	}
	return fmt.Sprintf("<%T>", n)
}

func paCheck(text string) string {
	toks := strings.Fields(text)
	want, wfail := verifTry(func() interface{} { return (&paParse{toks: toks}).all() })
	got, gfail := verifTry(func() interface{} { return paTree(ParseString(text).root) })
	if wfail != gfail || !wfail && want != got {
		return fmt.Sprintf("%q parses as %v (error %v), want %v (error %v)", text, got, gfail, want, wfail)
	}
	return ""
}

var paAtoms = []string{"a", "b", "c", "f", "1", "2", "37", "true", "false", "nil", `"s"`, "'r'", "1.5"}

// paGen writes tokens of a random expression.
func paGen(r *rand.Rand, depth int) []string {
	if depth <= 0 {
		return []string{paAtoms[r.Intn(len(paAtoms))]}
	}
	cat := func(parts ...interface{}) []string {
		out := []string{}
		for _, p := range parts {
			switch p := p.(type) {
			case string:
				out = append(out, p)
			case []string:
				out = append(out, p...)
			}
		}
		return out
	}
	d := depth - 1
	switch r.Intn(12) {
	case 0:
		return cat("(", paGen(r, d), ")")
	case 1:
		return cat([]string{"+", "-", "!", "^", "*", "&"}[r.Intn(6)], paGen(r, d))
	case 2:
		return cat(paGen(r, d), "?", paGen(r, d), ":", paGen(r, d))
	case 3:
		return cat(paGen(r, d), "(", paGen(r, d), ")")
	case 4:
		return cat(paGen(r, d), "[", paGen(r, d), "]")
	case 5:
		return cat(paGen(r, d), ".", "c")
	case 6:
		return cat("f", "(", ")")
	}
	return cat(paGen(r, d), paOps[r.Intn(len(paOps))], paGen(r, d))
}

var paOps = func() []string {
	ops := []string{}
	for o := range paLevel {
		if o != "?" {
			ops = append(ops, o)
		}
	}
	sortStrings(ops)
	return ops
}()

func TestVerifC20(t *testing.T) {
	r := newVerifRun(t, "token sequences of random expressions, the same with tokens removed, inserted, replaced and exchanged, all pairs and triples of operators, against a reference parser")
	texts := []string{"", "1 2", "( )", "a . b . c", "f ( ) ( )", "a ? b", "a : b", "int", "a int"}
	for _, o := range paOps {
		texts = append(texts, o, "a "+o, o+" a", "a "+o+" ? b : c")
		for _, o2 := range paOps {
			texts = append(texts, "a "+o+" b "+o2+" c", "a "+o+" - b "+o2+" c", "a ? b "+o+" c : 1 "+o2+" 2")
			for _, o3 := range paOps {
				texts = append(texts, "a "+o+" b "+o2+" c "+o3+" 1")
			}
		}
	}
	all := append([]string{"(", ")", "[", "]", "?", ":", ".", "!", "nil", "int", "#", "a"}, paOps...)
	for r.more() {
		r.guarded(texts, paCheck)
		texts = texts[:0]
		for i := 0; i < 500; i++ {
			toks := paGen(r.r, r.r.Intn(5))
			texts = append(texts, strings.Join(toks, " "))
			for j := 0; j < 3; j++ {
				m := append([]string{}, toks...)
				k := r.r.Intn(len(m))
				switch r.r.Intn(4) {
				case 0:
					m = append(m[:k], m[k+1:]...)
				case 1:
					m[k] = all[r.r.Intn(len(all))]
				case 2:
					m = append(m[:k], append([]string{all[r.r.Intn(len(all))]}, m[k:]...)...)
				default:
					l := r.r.Intn(len(m))
					m[k], m[l] = m[l], m[k]
				}
				texts = append(texts, strings.Join(m, " "))
			}
		}
	}
	r.done()
}
