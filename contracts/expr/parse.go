//go:build verif

package expr

import (
	"bytes"
	"errors"
	"io"
)

// ---- the grammar (C20)

//gover:spec newparser
//gover:props C20
//gover:inline
func specNewparser(s *scanner) *parser { return &parser{s: s} }

// The next token is read once, and stays until it is consumed.
//
//gover:spec (*parser).readtoken
//gover:props C20
//gover:inline
func specReadtoken(p *parser) *token {
	if !p.a {
		p.t = p.s.scan()
		p.a = true
	}
	return &p.t
}

//gover:spec (*parser).consume
//gover:props C20
//gover:inline
func specConsume(p *parser) { p.a = false }

//gover:spec (*parser).accept
//gover:props C20
//gover:inline
func specParserAccept(p *parser, k tokenkind) bool {
	if p.readtoken().kind != k {
		return false
	}
	p.a = false
	return true
}

//gover:spec (*parser).expect
//gover:props C20
//gover:inline
func specParserExpect(p *parser, k tokenkind) {
	if p.readtoken().kind != k {
		panic(errors.New("unexpected token"))
	}
	p.a = false
}

// gvOperand is the operand a token stands for by itself.
func gvOperand(t token) node {
	switch t.kind {
	case identtoken:
		return identnode{pos: t.pos, ident: t.sval}
	case inttoken:
		return intnode{pos: t.pos, uval: t.uval, ival: t.ival, sign: t.sign}
	case floattoken:
		return floatnode{pos: t.pos, fval: t.fval}
	case booltoken:
		return boolnode{pos: t.pos, val: t.bval}
	case strtoken:
		return strnode{pos: t.pos, val: t.sval}
	case runetoken:
		return runenode{pos: t.pos, val: rune(t.ival)}
	case nilkeyword:
		return nilnode{pos: t.pos}
	}
	return nil
}

func gvUnary(k tokenkind) (op unaryop, ok bool) {
	switch k {
	case addtoken:
		return unaryplus, true
	case subtoken:
		return unarynegate, true
	case nottoken:
		return unarynot, true
	case xortoken:
		return unarybitnot, true
	case multoken:
		return unaryderef, true
	case andtoken:
		return unaryref, true
	}
	return 0, false
}

// gvBinary is the operator a token stands for between operands, and how
// tightly it binds.
func gvBinary(k tokenkind) (op binaryop, level int, ok bool) {
	switch k {
	case multoken:
		return binarymul, 7, true
	case quotoken:
		return binarydiv, 7, true
	case remtoken:
		return binaryrem, 7, true
	case shltoken:
		return binarylsh, 7, true
	case shrtoken:
		return binaryrsh, 7, true
	case andtoken:
		return binaryand, 7, true
	case andnottoken:
		return binaryandnot, 7, true
	case addtoken:
		return binaryadd, 6, true
	case subtoken:
		return binarysub, 6, true
	case ortoken:
		return binaryor, 6, true
	case xortoken:
		return binaryxor, 6, true
	case equaltoken:
		return binaryequal, 5, true
	case notequaltoken:
		return binarynotequal, 5, true
	case lessertoken:
		return binarylesser, 5, true
	case lesserequaltoken:
		return binarylesserequal, 5, true
	case greatertoken:
		return binarygreater, 5, true
	case greaterequaltoken:
		return binarygreaterequal, 5, true
	case logicalandtoken:
		return binarylogicaland, 4, true
	case logicalortoken:
		return binarylogicalor, 3, true
	case commatoken:
		return binarygroup, 2, true
	}
	return 0, 0, false
}

// An expression whose operators bind more tightly than depth: operators of
// the same level group to the left, since the operand to their right binds
// more tightly than they do. The whole text is one at depth 0.
//
//gover:spec (*parser).parseexpr
//gover:props C20
//gover:pre gvPreParser
//gover:opaque
//gover:reads p p.s depth rh
//gover:modifies p.a p.t p.s.p p.s.eof p.s.operand rh
func specParseexpr(p *parser, depth int) node {
	n := gvOperand(*p.readtoken())
	if n != nil {
		p.consume()
	} else if p.accept(leftparentoken) {
		n = p.parseexpr(1)
		p.expect(rightparentoken)
	}
	for depth < 8 {
		if n != nil {
			// what follows an operand directly
			switch p.readtoken().kind {
			case periodtoken:
				p.consume()
				n = binaryexpr{op: binarymember, a: n, b: p.parseexpr(8)}
				continue
			case leftparentoken:
				p.consume()
				if p.accept(rightparentoken) {
					n = binaryexpr{op: binarycall, a: n}
					continue
				}
				n = binaryexpr{op: binarycall, a: n, b: p.parseexpr(1)}
				p.expect(rightparentoken)
				continue
			case leftbrackettoken:
				p.consume()
				n = binaryexpr{op: binarysubscript, a: n, b: p.parseexpr(1)}
				p.expect(rightbrackettoken)
				continue
			}
		} else if op, ok := gvUnary(p.readtoken().kind); ok {
			p.consume()
			n = unaryexpr{op: op, n: p.parseexpr(7)}
		}
		if n == nil {
			panic(errors.New("operand expected"))
		}
		if depth >= 7 {
			break
		}
		if op, level, ok := gvBinary(p.readtoken().kind); ok && depth < level {
			p.consume()
			n = binaryexpr{op: op, a: n, b: p.parseexpr(level)}
			continue
		}
		if depth < 3 && p.accept(ternarytoken) {
			b := p.parseexpr(2)
			p.expect(colontoken)
			n = ternaryexpr{a: n, b: b, c: p.parseexpr(2)}
			continue
		}
		if depth < 1 {
			p.expect(eoftoken)
		}
		break
	}
	if n == nil {
		panic(errors.New("operand expected"))
	}
	return n
}

func gvPreParser(p *parser, depth int) { gvRequires(p.s != nil) }

//gover:spec (*parser).parse
//gover:props C20
//gover:inline
func specParserParse(p *parser) node { return p.parseexpr(0) }

//gover:spec Parse
//gover:props C20
//gover:inline
func specParse(r io.RuneScanner) *Program {
	p := &parser{s: &scanner{r: r}}
	return &Program{root: p.parseexpr(0)}
}

//gover:spec ParseString
//gover:props C20
//gover:opaque
//gover:reads s
//gover:assumed the runes that a fresh buffer yields are those of its text
func specParseString(s string) *Program { return Parse(bytes.NewBufferString(s)) }
