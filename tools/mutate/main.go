// Command mutate lists small changes of Go files, or writes one of them.
//
//	mutate list FILE...          one line per change: FILE NUMBER LINE DESCRIPTION
//	mutate write FILE NUMBER     the changed file to standard output
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type change struct {
	line int
	what string
	do   func()
}

var swaps = map[token.Token][]token.Token{
	token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.ADD},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.SHL: {token.SHR}, token.SHR: {token.SHL}, token.OR: {token.AND}, token.AND: {token.OR}, token.XOR: {token.ADD},
}

func text(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	_ = format.Node(&b, fset, n)
	s := bytes.Join(bytes.Fields(b.Bytes()), []byte(" "))
	if len(s) > 70 {
		s = append(s[:70:70], "..."...)
	}
	return string(s)
}

func changes(fset *token.FileSet, f *ast.File) (res []change) {
	add := func(n ast.Node, what string, do func()) {
		res = append(res, change{fset.Position(n.Pos()).Line, what, do})
	}
	zero := &ast.Ident{Name: "nil"}
	block := func(list []ast.Stmt) {
		for i, s := range list {
			i := i
			drop := func() { list[i] = &ast.EmptyStmt{Implicit: true} }
			switch v := s.(type) {
			case *ast.AssignStmt:
				if v.Tok != token.DEFINE {
					add(s, "drop: "+text(fset, s), drop)
				}
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.SendStmt:
				add(s, "drop: "+text(fset, s), drop)
			case *ast.IfStmt:
				if v.Else == nil {
					add(s, "drop: "+text(fset, s), func() {
						v.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: v.Cond}, Op: token.LAND, Y: &ast.Ident{Name: "false"}}
					})
				}
				add(s, "always: "+text(fset, s), func() {
					v.Cond = &ast.BinaryExpr{X: &ast.ParenExpr{X: v.Cond}, Op: token.LOR, Y: &ast.Ident{Name: "true"}}
				})
			case *ast.BranchStmt:
				switch v.Tok {
				case token.BREAK:
					add(s, "break to continue", func() { v.Tok = token.CONTINUE })
				case token.CONTINUE:
					add(s, "continue to break", func() { v.Tok = token.BREAK })
				}
			case *ast.ReturnStmt:
				for k, r := range v.Results {
					k := k
					switch e := r.(type) {
					case *ast.Ident:
						switch e.Name {
						case "err":
							add(r, "return no error: "+text(fset, s), func() { v.Results[k] = zero })
						case "true":
							add(r, "return false", func() { e.Name = "false" })
						case "false":
							add(r, "return true", func() { e.Name = "true" })
						}
					case *ast.CallExpr:
						if sel, ok := e.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Errorf" {
							add(r, "return no error: "+text(fset, s), func() { v.Results[k] = zero })
						}
					}
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.GenDecl:
			return v.Tok != token.IMPORT
		case *ast.BlockStmt:
			block(v.List)
		case *ast.CaseClause:
			block(v.Body)
			if v.List != nil && len(v.List) == 1 {
				if _, ok := v.List[0].(*ast.BinaryExpr); ok {
					add(v, "case never: "+text(fset, v.List[0]), func() {
						v.List[0] = &ast.BinaryExpr{X: &ast.ParenExpr{X: v.List[0]}, Op: token.LAND, Y: &ast.Ident{Name: "false"}}
					})
				}
			}
		case *ast.BinaryExpr:
			old := v.Op
			for _, to := range swaps[v.Op] {
				to := to
				add(v, fmt.Sprintf("%s -> %s in %s", old, to, text(fset, v)), func() { v.Op = to })
			}
		case *ast.UnaryExpr:
			if v.Op == token.NOT {
				add(v, "no ! in "+text(fset, v), func() { v.Op = token.NOT; v.X = &ast.UnaryExpr{Op: token.NOT, X: v.X} })
			}
		case *ast.BasicLit:
			if v.Kind == token.INT {
				if k, err := strconv.ParseInt(v.Value, 0, 64); err == nil {
					add(v, fmt.Sprintf("%d -> %d", k, k+1), func() { v.Value = fmt.Sprint(k + 1) })
					if k > 0 {
						add(v, fmt.Sprintf("%d -> %d", k, k-1), func() { v.Value = fmt.Sprint(k - 1) })
					}
				}
			}
			if v.Kind == token.STRING && len(v.Value) > 2 {
				add(v, "text "+v.Value, func() { v.Value = v.Value[:len(v.Value)-1] + "X" + v.Value[len(v.Value)-1:] })
			}
		case *ast.IncDecStmt:
			if v.Tok == token.INC {
				add(v, "++ to --", func() { v.Tok = token.DEC })
			}
		case *ast.SelectorExpr:
			if v.Sel.Name == "MaxUint8" {
				add(v, "MaxUint8 to MaxInt8", func() { v.Sel.Name = "MaxInt8" })
			}
			if v.Sel.Name == "MaxUint16" {
				add(v, "MaxUint16 to MaxInt16", func() { v.Sel.Name = "MaxInt16" })
			}
		}
		return true
	})
	return res
}

func main() {
	if len(os.Args) < 3 {
		os.Exit(2)
	}
	parse := func(name string) (*token.FileSet, *ast.File) {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		return fset, f
	}
	switch os.Args[1] {
	case "list":
		for _, name := range os.Args[2:] {
			fset, f := parse(name)
			for i, c := range changes(fset, f) {
				fmt.Printf("%s %d %d %s\n", name, i, c.line, c.what)
			}
		}
	case "write":
		fset, f := parse(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		changes(fset, f)[n].do()
		if err := format.Node(os.Stdout, fset, f); err != nil {
			panic(err)
		}
	}
}
