//go:build verif

package restruct

import (
	"encoding/binary"
	"errors"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---- tags (C13)

func gvBetween(c, lo, hi rune) bool { return lo <= c && c <= hi }

//gover:spec lower
//gover:props C13
//gover:inline
func specTagLower(ch rune) rune { return ch | ' ' }

//gover:spec isdecimal
//gover:props C13
//gover:inline
func specTagIsdecimal(ch rune) bool { return ch >= '0' && ch <= '9' }

//gover:spec ishex
//gover:props C13
//gover:opaque
//gover:pure
//gover:nopanic
func specTagIshex(ch rune) bool {
	return gvBetween(ch, '0', '9') || gvBetween(ch, 'a', 'f') || gvBetween(ch, 'A', 'F')
}

//gover:spec isletter
//gover:props C13
//gover:opaque
//gover:pure
//gover:nopanic
func specTagIsletter(c rune) bool {
	return gvBetween(c, 'a', 'z') || gvBetween(c, 'A', 'Z') || c == '_' || c >= utf8.RuneSelf && unicode.IsLetter(c)
}

//gover:spec isdigit
//gover:props C13
//gover:inline
func specTagIsdigit(c rune) bool { return gvBetween(c, '0', '9') }

//gover:spec isident
//gover:props C13
//gover:opaque
//gover:pure
//gover:nopanic
func specTagIsident(c rune) bool { return isletter(c) || isdigit(c) }

//gover:spec isint
//gover:props C13
//gover:opaque
//gover:pure
//gover:nopanic
func specTagIsint(c rune) bool { return isdigit(c) || ishex(c) || c == 'x' || c == 'X' }

// gvIdent is the identifier up to the next comma or the end.
func gvIdent(tag string) (name, rest string, err error) {
	end := 0
	for i, c := range tag {
		end = i
		if c == ',' || c == 0 {
			break
		}
		if !isident(c) || i == 0 && !isletter(c) {
			return "", "", errors.New("not an identifier")
		}
	}
	return tag[:end], tag[end:], nil
}

// gvNumber is the integer up to the next comma or the end.
func gvNumber(tag string) (n int, rest string, err error) {
	end := 0
	for i, c := range tag {
		end = i
		if c == ',' || c == 0 {
			break
		}
		if !isint(c) {
			return 0, "", errors.New("not an integer")
		}
	}
	v, err := strconv.ParseInt(tag[:end], 0, 64)
	return int(v), tag[end:], err
}

// gvExpr is the text up to the next comma outside of parentheses, brackets,
// braces and quotes, or the end.
func gvExpr(tag string) (text, rest string, err error) {
	closing := []byte{0}
	i := 0
	for i < len(tag) {
		c := tag[i]
		if c == ',' && len(closing) == 1 {
			break
		}
		if c == '(' {
			closing = append(closing, ')')
		} else if c == '[' {
			closing = append(closing, ']')
		} else if c == '{' {
			closing = append(closing, '}')
		} else if c == '"' || c == '\'' {
			i++
			for {
				if i >= len(tag) {
					return "", "", errors.New("literal without end")
				}
				if tag[i] == c {
					break
				}
				if tag[i] == '\\' {
					i++
				}
				i++
			}
		} else if c == closing[len(closing)-1] && c != ',' {
			closing = closing[:len(closing)-1]
			if len(closing) == 0 {
				break
			}
		} else if c == 0 {
			return "", "", errors.New("parenthesis without end")
		}
		i++
	}
	return tag[:i], tag[i:], nil
}

// gvOption reads one option.
func gvOption(o tagOptions, tag string) (tagOptions, string, error) {
	var err error
	is := func(v string) bool { return strings.HasPrefix(tag, v) }
	switch {
	case is("lsb"):
		o.Order = binary.LittleEndian
		return o, tag[3:], nil
	case is("little"):
		o.Order = binary.LittleEndian
		return o, tag[6:], nil
	case is("msb"), is("big"):
		o.Order = binary.BigEndian
		return o, tag[3:], nil
	case is("network"):
		o.Order = binary.BigEndian
		return o, tag[7:], nil
	case is("variantbool"):
		o.VariantBoolFlag = true
		return o, tag[11:], nil
	case is("invertedbool"):
		o.InvertedBoolFlag = true
		return o, tag[12:], nil
	case is("root"):
		o.RootFlag = true
		return o, tag[4:], nil
	case is("parent"):
		o.ParentFlag = true
		return o, tag[6:], nil
	case is("default"):
		o.DefaultFlag = true
		return o, tag[7:], nil
	case is("sizeof="):
		o.SizeOf, tag, err = gvIdent(tag[7:])
		return o, tag, err
	case is("sizefrom="):
		o.SizeFrom, tag, err = gvIdent(tag[9:])
		return o, tag, err
	case is("skip="):
		o.Skip, tag, err = gvNumber(tag[5:])
		return o, tag, err
	case is("if="):
		o.IfExpr, tag, err = gvExpr(tag[3:])
		return o, tag, err
	case is("size="):
		o.SizeExpr, tag, err = gvExpr(tag[5:])
		return o, tag, err
	case is("bits="):
		o.BitsExpr, tag, err = gvExpr(tag[5:])
		return o, tag, err
	case is("in="):
		o.InExpr, tag, err = gvExpr(tag[3:])
		return o, tag, err
	case is("out="):
		o.OutExpr, tag, err = gvExpr(tag[4:])
		return o, tag, err
	case is("while="):
		o.WhileExpr, tag, err = gvExpr(tag[6:])
		return o, tag, err
	case is("switch="):
		o.SwitchExpr, tag, err = gvExpr(tag[7:])
		return o, tag, err
	case is("case="):
		o.CaseExpr, tag, err = gvExpr(tag[5:])
		return o, tag, err
	case is("-"):
		return o, tag, errors.New("an ignored field has no options")
	}
	text, tag, err := gvExpr(tag)
	if err != nil {
		return o, tag, err
	}
	name, bits := text, ""
	k := strings.IndexByte(text, ':')
	if k >= 0 {
		name, bits = text[:k], text[k+1:]
	}
	o.Type, err = parseType(name)
	if err != nil || k < 0 {
		return o, tag, err
	}
	if !validBitType(o.Type) {
		return o, tag, errors.New("a type without bits")
	}
	n, err := strconv.ParseUint(bits, 0, 8)
	if err != nil {
		return o, tag, errors.New("not a number of bits")
	}
	o.BitSize = uint8(n)
	if o.BitSize == 0 || o.BitSize >= uint8(o.Type.Bits()) {
		return o, tag, errors.New("too many bits")
	}
	return o, tag, nil
}

// Each option of the list sets what it names, and nothing else.
//
//gover:spec parseTag
//gover:props C13
//gover:opaque
//gover:reads tag
func specParseTag(tag string) (tagOptions, error) {
	o := tagOptions{}
	if tag == "" {
		return o, nil
	}
	if tag == "-" {
		o.Ignore = true
		return o, nil
	}
	if strings.IndexByte(tag, 0) >= 0 {
		return tagOptions{}, errors.New("NUL in a tag")
	}
	tag += "\x00"
	for {
		var err error
		o, tag, err = gvOption(o, tag)
		if err != nil {
			return tagOptions{}, errors.New("not an option")
		}
		if strings.HasPrefix(tag, "\x00") {
			return o, nil
		}
		if !strings.HasPrefix(tag, ",") {
			return tagOptions{}, errors.New("no comma")
		}
		tag = tag[1:]
	}
}
