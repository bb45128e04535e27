// mutate lists the single-edit mutants of a Go file, or applies one of them.
//
//	mutate FILE          prints the number of mutants
//	mutate FILE N        prints the file with mutant N, and its description on stderr
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type edit struct {
	from, to int
	text     string
}

var flip = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.REM: {"+"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"&"}, token.AND_NOT: {"&"},
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var es []edit
	add := func(a, b token.Pos, t string) { es = append(es, edit{off(a), off(b), t}) }
	del := func(n ast.Node) { add(n.Pos(), n.End(), "") }
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.GenDecl:
			return n.Tok == token.VAR
		case *ast.BinaryExpr:
			for _, t := range flip[n.Op] {
				add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), t)
			}
		case *ast.BasicLit:
			if n.Kind == token.INT {
				if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
					add(n.Pos(), n.End(), fmt.Sprint(v+1))
					if v > 0 {
						add(n.Pos(), n.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.IfStmt:
			c := string(src[off(n.Cond.Pos()):off(n.Cond.End())])
			add(n.Cond.Pos(), n.Cond.End(), "!("+c+")")
			add(n.Cond.Pos(), n.Cond.End(), "false && ("+c+")")
			add(n.Cond.Pos(), n.Cond.End(), "true || ("+c+")")
		case *ast.UnaryExpr:
			if n.Op == token.NOT || n.Op == token.SUB || n.Op == token.XOR {
				add(n.OpPos, n.OpPos+1, "")
			}
		case *ast.Ident:
			switch n.Name {
			case "true":
				add(n.Pos(), n.End(), "false")
			case "false":
				add(n.Pos(), n.End(), "true")
			case "LittleEndian":
				add(n.Pos(), n.End(), "BigEndian")
			case "BigEndian":
				add(n.Pos(), n.End(), "LittleEndian")
			case "uint8", "uint16", "uint32", "int8", "int16", "int32":
				k := map[string]string{"uint8": "int8", "uint16": "uint8", "uint32": "uint16", "int8": "uint8", "int16": "int8", "int32": "int16"}
				add(n.Pos(), n.End(), k[n.Name])
			case "uint64":
				add(n.Pos(), n.End(), "uint32")
			case "int64":
				add(n.Pos(), n.End(), "int32")
			}
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
			del(n)
		case *ast.AssignStmt:
			if n.Tok != token.DEFINE {
				del(n)
			}
			if n.Tok == token.ADD_ASSIGN {
				add(n.TokPos, n.TokPos+2, "-=")
				add(n.TokPos, n.TokPos+2, "=")
			}
		case *ast.CaseClause:
			if len(n.Body) > 0 {
				add(n.Body[0].Pos(), n.Body[len(n.Body)-1].End(), "")
			}
			if len(n.List) > 1 {
				add(n.List[0].Pos(), n.List[1].Pos(), "")
				add(n.List[len(n.List)-2].End(), n.List[len(n.List)-1].End(), "")
			}
		case *ast.BranchStmt:
			if n.Label == nil && n.Tok == token.BREAK {
				add(n.Pos(), n.End(), "continue")
				del(n)
			}
			if n.Label == nil && n.Tok == token.CONTINUE {
				add(n.Pos(), n.End(), "break")
				del(n)
			}
		}
		return true
	})
	if len(os.Args) < 3 {
		fmt.Println(len(es))
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	e := es[k]
	fmt.Fprintf(os.Stderr, "%s: %q -> %q\n", fs.Position(fs.File(f.Pos()).Pos(e.from)), src[e.from:e.to], e.text)
	os.Stdout.Write(src[:e.from])
	os.Stdout.WriteString(e.text)
	os.Stdout.Write(src[e.to:])
}
