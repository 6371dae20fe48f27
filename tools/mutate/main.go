// Mutate lists or makes small changes of Go files.
// usage: mutate FILE            lists the changes of a file, one per line
//        mutate FILE N          writes the file with change N to standard output
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	from, to int // offsets
	text     string
	what     string
	line     int
}

func main() {
	name := os.Args[1]
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var l []change
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, z token.Pos, text, what string) {
		l = append(l, change{off(a), off(z), text, what, fs.Position(a).Line})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token][]string{
		token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
		token.REM: {"/"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
	}
	skip := func(n ast.Node) bool { // logging
		s := text(n)
		for _, p := range []string{"log.", "fmt.Print", "strb."} {
			if len(s) > len(p) && s[:len(p)] == p {
				return true
			}
		}
		return false
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			if x.Tok == token.IMPORT || x.Tok == token.TYPE {
				return false
			}
		case *ast.CallExpr:
			if skip(x) {
				return false
			}
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+text(x))
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d -> %d", v, v+1))
					if v > 0 {
						add(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%d -> %d", v, v-1))
					}
				}
			}
		case *ast.Ident:
			if x.Name == "true" || x.Name == "false" {
				add(x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name], x.Name+" negated")
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negated: "+text(x.Cond))
			add(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never: "+text(x.Cond))
		case *ast.ExprStmt:
			if !skip(x) {
				add(x.Pos(), x.End(), "", "deleted: "+text(x))
			}
		case *ast.DeferStmt, *ast.SendStmt, *ast.IncDecStmt:
			add(n.Pos(), n.End(), "", "deleted: "+text(n))
		case *ast.GoStmt:
			add(x.Pos(), x.Call.Pos(), "", "not in a goroutine: "+text(x)[:min(len(text(x)), 40)])
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				s := ""
				for i, r := range x.Rhs {
					if i > 0 {
						s += "; "
					}
					s += "_ = " + text(r)
				}
				if len(x.Rhs) == 1 && len(x.Lhs) > 1 {
					s = ""
					for i := range x.Lhs {
						if i > 0 {
							s += ", "
						}
						s += "_"
					}
					s += " = " + text(x.Rhs[0])
				}
				add(x.Pos(), x.End(), s, "not assigned: "+text(x))
			}
			if x.Tok == token.ADD_ASSIGN || x.Tok == token.SUB_ASSIGN {
				add(x.TokPos, x.TokPos+2, map[token.Token]string{token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+="}[x.Tok], "reversed: "+text(x))
			}
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if t := text(r); t == "e" || t == "err" {
					add(r.Pos(), r.End(), "nil", "returns nil: "+text(x))
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil && x.Tok == token.BREAK {
				add(x.Pos(), x.End(), "continue", "break -> continue")
			} else if x.Label == nil && x.Tok == token.CONTINUE {
				add(x.Pos(), x.End(), "break", "continue -> break")
			}
		}
		return true
	})
	if len(os.Args) > 2 {
		n, _ := strconv.Atoi(os.Args[2])
		c := l[n]
		os.Stdout.Write(src[:c.from])
		os.Stdout.WriteString(c.text)
		os.Stdout.Write(src[c.to:])
		return
	}
	for i, c := range l {
		fmt.Printf("%d\t%d\t%q\n", i, c.line, c.what)
	}
}
