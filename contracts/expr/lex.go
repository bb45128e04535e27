//go:build verif

package expr

import (
	"errors"
	"io"
	"strconv"
	"unicode"
	"unicode/utf8"
)

// ---- characters (C21)

//gover:spec lower
//gover:props C21
//gover:inline
func specLower(ch rune) rune { return ch | ' ' }

//gover:spec isdecimal
//gover:props C21
//gover:inline
func specIsdecimal(ch rune) bool { return ch >= '0' && ch <= '9' }

//gover:spec isoctal
//gover:props C21
//gover:inline
func specIsoctal(ch rune) bool { return ch >= '0' && ch <= '7' }

func gvBetween(c, lo, hi rune) bool { return lo <= c && c <= hi }

//gover:spec ishex
//gover:props C21
//gover:opaque
//gover:pure
//gover:nopanic
func specIshex(ch rune) bool {
	return gvBetween(ch, '0', '9') || gvBetween(ch, 'a', 'f') || gvBetween(ch, 'A', 'F')
}

//gover:spec isletter
//gover:props C21
//gover:inline
func specIsletter(c rune) bool {
	return gvBetween(c, 'a', 'z') || gvBetween(c, 'A', 'Z') || c == '_' || c >= utf8.RuneSelf && unicode.IsLetter(c)
}

//gover:spec isdigit
//gover:props C21
//gover:inline
func specIsdigit(c rune) bool {
	return gvBetween(c, '0', '9') || c >= utf8.RuneSelf && unicode.IsDigit(c)
}

//gover:spec isnumber
//gover:props C21
//gover:inline
func specIsnumber(c rune) bool {
	return isdigit(c) || ishex(c) || c == '.' || c == 'x' || c == 'X'
}

//gover:spec isident
//gover:props C21
//gover:inline
func specIsident(c rune) bool { return isletter(c) || isdigit(c) }

//gover:spec iswhitespace
//gover:props C21
//gover:inline
func specIswhitespace(c rune) bool { return c == ' ' || c == '\t' }

// ---- the text

//gover:spec newscanner
//gover:props C21
//gover:inline
func specNewscanner(r io.RuneScanner) *scanner { return &scanner{r: r} }

// The next rune, eof past the last.
//
//gover:spec (*scanner).readrune
//gover:props C21
//gover:inline
func specReadrune(s *scanner) rune {
	if !s.eof {
		c, _, err := s.r.ReadRune()
		if err == nil {
			s.p++
			return c
		}
		if err != io.EOF {
			panic(err)
		}
		s.eof = true
	}
	return eof
}

//gover:spec (*scanner).unreadrune
//gover:props C21
//gover:inline
func specUnreadrune(s *scanner) {
	if s.eof {
		return
	}
	err := s.r.UnreadRune()
	if err != nil {
		panic(err)
	}
	s.p--
}

//gover:spec (*scanner).accept
//gover:props C21
//gover:inline
func specScannerAccept(s *scanner, c rune) bool {
	if s.readrune() != c {
		s.unreadrune()
		return false
	}
	return true
}

//gover:spec (*scanner).expect
//gover:props C21
//gover:inline
func specScannerExpect(s *scanner, c rune) {
	if s.readrune() != c {
		panic(errors.New("unexpected rune"))
	}
}

//gover:spec (*scanner).peekmatch
//gover:props C21
//gover:inline
func specPeekmatch(s *scanner, f func(rune) bool) bool {
	c := s.readrune()
	s.unreadrune()
	return f(c)
}

//gover:spec (*scanner).acceptfn
//gover:props C21
//gover:inline
func specAcceptfn(s *scanner, f func(rune) bool) (rune, bool) {
	c := s.readrune()
	if !f(c) {
		s.unreadrune()
		return c, false
	}
	return c, true
}

//gover:spec (*scanner).expectfn
//gover:props C21
//gover:inline
func specExpectfn(s *scanner, f func(rune) bool) rune {
	c := s.readrune()
	if !f(c) {
		s.unreadrune()
		panic(errors.New("unexpected rune"))
	}
	return c
}

// Blanks are skipped, and nothing else.
//
//gover:spec (*scanner).skipws
//gover:props C21
//gover:opaque
//gover:reads s.r s.p s.eof rh
//gover:modifies s.p s.eof rh
func specSkipws(s *scanner) {
	for {
		if c := s.readrune(); c != ' ' && c != '\t' {
			break
		}
	}
	s.unreadrune()
}

// ---- tokens

//gover:spec (*scanner).tokensym
//gover:props C21
//gover:inline
func specTokensym(s *scanner, k tokenkind, src string) token { return token{kind: k, sval: src} }

//gover:spec (*scanner).errsymf
//gover:props C21
//gover:inline
func specErrsymf(s *scanner, format string, a ...interface{}) token { return gvErrToken() }

func gvErrToken() token { return token{kind: errtoken, eval: errors.New("not a token")} }

// The longest run of identifier characters, and what it means as a whole.
//
//gover:spec (*scanner).scanident
//gover:props C21
//gover:opaque
//gover:reads s.r s.p s.eof rh
//gover:modifies s.p s.eof rh
func specScanident(s *scanner) token {
	t := token{kind: identtoken}
	c := s.readrune()
	if !isletter(c) {
		s.unreadrune()
		return gvErrToken()
	}
	t.sval = string(c)
	for {
		c := s.readrune()
		if !isident(c) {
			s.unreadrune()
			break
		}
		t.sval += string(c)
	}
	if k, ok := keywordmap[t.sval]; ok {
		t.kind = k
		t.bval = t.sval == "true"
	} else if t.sval == "true" || t.sval == "false" {
		t.kind = booltoken
		t.bval = t.sval == "true"
	}
	return t
}

// The longest run of number characters is an integer if it fits one, else a
// floating point number.
//
//gover:spec (*scanner).scannumber
//gover:props C21
//gover:opaque
//gover:reads s.r s.p s.eof t rh
//gover:modifies s.p s.eof rh
func specScannumber(s *scanner, t token) token {
	c := s.readrune()
	if !isnumber(c) {
		s.unreadrune()
		return gvErrToken()
	}
	t.sval += string(c)
	for {
		c := s.readrune()
		if !isnumber(c) {
			s.unreadrune()
			break
		}
		t.sval += string(c)
	}
	if u, err := strconv.ParseUint(t.sval, 0, 64); err == nil {
		t.kind, t.uval, t.ival, t.fval, t.sign = inttoken, u, int64(u), float64(int64(u)), false
	} else if i, err := strconv.ParseInt(t.sval, 0, 64); err == nil {
		t.kind, t.uval, t.ival, t.fval, t.sign = inttoken, uint64(i), i, float64(i), true
	} else if f, err := strconv.ParseFloat(t.sval, 64); err == nil {
		t.kind, t.uval, t.ival, t.fval = floattoken, uint64(f), int64(f), f
	} else {
		return gvErrToken()
	}
	return t
}

// The UTF-8 encoding of a character.
//
//gover:spec runebytes
//gover:props C21
//gover:opaque
//gover:pure
//gover:nopanic
func specRunebytes(r rune) []byte {
	c := uint32(r)
	if c >= 0xd800 && c < 0xe000 || c > 0x10ffff {
		c = 0xfffd
	}
	switch {
	case c < 1<<7:
		return []byte{byte(c)}
	case c < 1<<11:
		return []byte{0xc0 | byte(c>>6), 0x80 | byte(c)&0x3f}
	case c < 1<<16:
		return []byte{0xe0 | byte(c>>12), 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
	}
	return []byte{0xf0 | byte(c>>18), 0x80 | byte(c>>12)&0x3f, 0x80 | byte(c>>6)&0x3f, 0x80 | byte(c)&0x3f}
}

func gvUint(text string, base, bits int) uint64 {
	v, err := strconv.ParseUint(text, base, bits)
	if err != nil {
		panic(err)
	}
	return v
}

// The bytes that an escape sequence stands for.
//
//gover:spec (*scanner).scanescape
//gover:props C21
//gover:opaque
//gover:reads s.r s.p s.eof quote rh
//gover:modifies s.p s.eof rh
func specScanescape(s *scanner, quote byte) []byte {
	c := s.readrune()
	switch c {
	case 'a':
		return []byte{7}
	case 'b':
		return []byte{8}
	case 'f':
		return []byte{12}
	case 'n':
		return []byte{10}
	case 'r':
		return []byte{13}
	case 't':
		return []byte{9}
	case 'v':
		return []byte{11}
	case '\\', rune(quote):
		return []byte{byte(c)}
	case 'x':
		return []byte{byte(gvUint(string([]rune{s.expectfn(ishex), s.expectfn(ishex)}), 16, 8))}
	case 'u':
		return runebytes(rune(gvUint(string([]rune{s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex)}), 16, 16)))
	case 'U':
		return runebytes(rune(gvUint(string([]rune{s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex),
			s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex)}), 16, 32)))
	}
	if isoctal(c) {
		return []byte{byte(gvUint(string([]rune{c, s.expectfn(isoctal), s.expectfn(isoctal)}), 8, 8))}
	}
	panic(errors.New("not an escape"))
}

// The text up to the closing quote, escapes replaced.
//
//gover:spec (*scanner).scanstring
//gover:props C21
//gover:opaque
//gover:reads s.r s.p s.eof quote rh
//gover:modifies s.p s.eof rh
func specScanstring(s *scanner, quote byte) token {
	str := []byte{}
	for {
		c := s.readrune()
		if c == rune(quote) {
			return token{kind: strtoken, sval: string(str)}
		}
		if c == '\\' {
			str = append(str, s.scanescape(quote)...)
			continue
		}
		if c == eof {
			return gvErrToken()
		}
		str = append(str, runebytes(c)...)
	}
}

// One character or escape, and the closing quote.
//
//gover:spec (*scanner).scanrune
//gover:props C21
//gover:opaque
//gover:reads s.r s.p s.eof rh
//gover:modifies s.p s.eof rh
func specScanrune(s *scanner) token {
	defer s.expect('\'')
	c := s.readrune()
	if c != '\\' {
		return token{kind: runetoken, ival: int64(c)}
	}
	b := s.scanescape('\'')
	if len(b) == 1 {
		return token{kind: runetoken, ival: int64(b[0])}
	}
	r, _ := utf8.DecodeRune(b)
	return token{kind: runetoken, ival: int64(r)}
}

func gvSym(k tokenkind, src string) token { return token{kind: k, sval: src} }

// gvToken is the token that starts with the next rune; the longest operator
// wins.
func gvToken(s *scanner, operand bool) token {
	c := s.readrune()
	if isletter(c) {
		s.unreadrune()
		return s.scanident()
	}
	if isdigit(c) {
		s.unreadrune()
		return s.scannumber(token{})
	}
	switch c {
	case '"':
		return s.scanstring('"')
	case '\'':
		return s.scanrune()
	case '$':
		s.expect('\'')
		return s.scanstring('\'')
	case '+':
		return gvSym(addtoken, "+")
	case '-':
		if !operand && s.peekmatch(isdigit) {
			return s.scannumber(token{sval: "-"})
		}
		return gvSym(subtoken, "-")
	case '*':
		return gvSym(multoken, "*")
	case '/':
		return gvSym(quotoken, "/")
	case '%':
		return gvSym(remtoken, "%")
	case '&':
		if s.accept('&') {
			return gvSym(logicalandtoken, "&&")
		}
		if s.accept('^') {
			return gvSym(andnottoken, "&^")
		}
		return gvSym(andtoken, "&")
	case '|':
		if s.accept('|') {
			return gvSym(logicalortoken, "||")
		}
		return gvSym(ortoken, "|")
	case '^':
		return gvSym(xortoken, "^")
	case '<':
		if s.accept('=') {
			return gvSym(lesserequaltoken, "<=")
		}
		if s.accept('<') {
			return gvSym(shltoken, "<<")
		}
		return gvSym(lessertoken, "<")
	case '>':
		if s.accept('=') {
			return gvSym(greaterequaltoken, ">=")
		}
		if s.accept('>') {
			return gvSym(shrtoken, ">>")
		}
		return gvSym(greatertoken, ">")
	case '=':
		if s.accept('=') {
			return gvSym(equaltoken, "==")
		}
		s.readrune()
		return gvErrToken()
	case '!':
		if s.accept('=') {
			return gvSym(notequaltoken, "!=")
		}
		return gvSym(nottoken, "!")
	case '(':
		return gvSym(leftparentoken, "(")
	case ')':
		return gvSym(rightparentoken, ")")
	case '[':
		return gvSym(leftbrackettoken, "[")
	case ']':
		return gvSym(rightbrackettoken, "]")
	case ',':
		return gvSym(commatoken, ",")
	case '.':
		if s.peekmatch(isdigit) {
			return s.scannumber(token{sval: "."})
		}
		return gvSym(periodtoken, ".")
	case ':':
		return gvSym(colontoken, ":")
	case '?':
		return gvSym(ternarytoken, "?")
	}
	return gvErrToken()
}

// gvEndsOperand tells whether a minus sign after the token is an operator.
func gvEndsOperand(k tokenkind) bool {
	switch k {
	case identtoken, inttoken, floattoken, booltoken, strtoken, runetoken, nilkeyword, rightparentoken, rightbrackettoken:
		return true
	}
	return false
}

// The next token. Whatever is none is an error token.
//
//gover:spec (*scanner).scan
//gover:props C21
//gover:opaque
//gover:reads s rh
//gover:modifies s.p s.eof s.operand rh
func specScan(s *scanner) (t token) {
	defer func() {
		if r := recover(); r != nil {
			if err, ok := r.(error); ok {
				t = token{kind: errtoken, pos: s.p, eval: err}
				return
			}
			panic(r)
		}
	}()
	s.skipws()
	start, operand := s.p, s.operand
	defer func() {
		t.pos = start
		s.operand = gvEndsOperand(t.kind)
	}()
	if s.accept(eof) {
		start = s.p
		return token{kind: eoftoken}
	}
	return gvToken(s, operand)
}

// Each keyword has its own token, and there are no others.
//
//gover:lemma
//gover:props C21
//gover:tables keywordmap
func lemKeywords(other string) {
	gvInit()
	gvAssert(keywordmap["bool"] == boolkeyword)
	gvAssert(keywordmap["byte"] == bytekeyword)
	gvAssert(keywordmap["float32"] == float32keyword)
	gvAssert(keywordmap["float64"] == float64keyword)
	gvAssert(keywordmap["int"] == intkeyword)
	gvAssert(keywordmap["int8"] == int8keyword)
	gvAssert(keywordmap["int16"] == int16keyword)
	gvAssert(keywordmap["int32"] == int32keyword)
	gvAssert(keywordmap["int64"] == int64keyword)
	gvAssert(keywordmap["uint"] == uintkeyword)
	gvAssert(keywordmap["uint8"] == uint8keyword)
	gvAssert(keywordmap["uint16"] == uint16keyword)
	gvAssert(keywordmap["uint32"] == uint32keyword)
	gvAssert(keywordmap["uint64"] == uint64keyword)
	gvAssert(keywordmap["uintptr"] == uintptrkeyword)
	gvAssert(keywordmap["nil"] == nilkeyword)
	switch other {
	case "bool", "byte", "float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "nil":
	default:
		_, ok := keywordmap[other]
		gvAssert(!ok)
	}
}
