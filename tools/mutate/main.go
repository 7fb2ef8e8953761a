// mutate lists or applies small syntactic changes to one Go file.
//
//	mutate FILE          prints the number of mutants
//	mutate FILE N OUT    writes mutant N to OUT and prints a description
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strconv"
)

type mut struct {
	pos   token.Pos
	desc  string
	apply func()
}

func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var ms []mut
	add := func(p token.Pos, d string, a func()) { ms = append(ms, mut{p, d, a}) }
	src := func(n ast.Node) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, n)
		s := b.String()
		if len(s) > 60 {
			s = s[:60]
		}
		return s
	}
	block := func(l *[]ast.Stmt) {
		for i, s := range *l {
			i, s := i, s
			switch x := s.(type) {
			case *ast.ExprStmt, *ast.GoStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt:
				add(s.Pos(), "delete: "+src(s), func() { (*l)[i] = &ast.EmptyStmt{Implicit: true} })
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					add(s.Pos(), "delete: "+src(s), func() {
						if allBlank(x.Lhs) {
							(*l)[i] = &ast.EmptyStmt{Implicit: true}
							return
						}
						(*l)[i] = &ast.AssignStmt{Lhs: blanks(len(x.Rhs)), Tok: token.ASSIGN, Rhs: x.Rhs}
						if len(x.Lhs) != len(x.Rhs) {
							(*l)[i] = &ast.AssignStmt{Lhs: blanks(len(x.Lhs)), Tok: token.ASSIGN, Rhs: x.Rhs}
						}
					})
				}
			case *ast.IfStmt:
				if x.Else == nil && x.Init == nil {
					add(s.Pos(), "drop if: "+src(x.Cond), func() { x.Cond = and(x.Cond, "false") })
				}
				add(s.Pos(), "always: "+src(x.Cond), func() { x.Cond = or(x.Cond, "true") })
				add(s.Pos(), "negate: "+src(x.Cond), func() { x.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: x.Cond}} })
				if x.Init != nil {
					add(s.Pos(), "never: "+src(x.Cond), func() { x.Cond = and(x.Cond, "false") })
				}
			case *ast.ReturnStmt:
				for j, r := range x.Results {
					j, r := j, r
					switch src(r) {
					case "true":
						add(r.Pos(), "return false for true", func() { x.Results[j] = ast.NewIdent("false") })
					case "false":
						add(r.Pos(), "return true for false", func() { x.Results[j] = ast.NewIdent("true") })
					case "nil":
						if j == len(x.Results)-1 {
							add(r.Pos(), "return context.Canceled for nil", func() { x.Results[j] = ast.NewIdent("context.Canceled") })
						}
					default:
						if j == len(x.Results)-1 {
							add(r.Pos(), "return nil for "+src(r), func() { x.Results[j] = ast.NewIdent("nil") })
						}
					}
				}
			case *ast.BranchStmt:
				if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
					add(s.Pos(), "swap "+x.Tok.String(), func() {
						if x.Tok == token.BREAK {
							x.Tok = token.CONTINUE
						} else {
							x.Tok = token.BREAK
						}
					})
				}
			}
			if i+1 < len(*l) {
				if simple(s) && simple((*l)[i+1]) {
					add(s.Pos(), "swap statements: "+src(s), func() { (*l)[i], (*l)[i+1] = (*l)[i+1], (*l)[i] })
				}
			}
		}
	}
	ops := map[token.Token][]token.Token{
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS, token.GTR}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR, token.LSS},
		token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.SHL: {token.SHR}, token.OR: {token.AND}, token.AND: {token.OR},
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			block(&x.List)
		case *ast.CaseClause:
			block(&x.Body)
		case *ast.CommClause:
			block(&x.Body)
		case *ast.BinaryExpr:
			for _, o := range ops[x.Op] {
				o := o
				add(x.OpPos, fmt.Sprintf("%s -> %s in %s", x.Op, o, src(x)), func() { x.Op = o })
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				if err == nil {
					add(x.Pos(), "const "+x.Value+" + 1", func() { x.Value = fmt.Sprint(v + 1) })
				}
			}
		case *ast.CallExpr:
			for i, a := range x.Args {
				i := i
				if id, ok := a.(*ast.Ident); ok {
					switch id.Name {
					case "true":
						add(a.Pos(), "arg false for true in "+src(x), func() { x.Args[i] = ast.NewIdent("false") })
					case "false":
						add(a.Pos(), "arg true for false in "+src(x), func() { x.Args[i] = ast.NewIdent("true") })
					}
				}
			}
			if len(x.Args) >= 2 {
				for i := 0; i+1 < len(x.Args); i++ {
					i := i
					add(x.Pos(), "swap args in "+src(x), func() { x.Args[i], x.Args[i+1] = x.Args[i+1], x.Args[i] })
				}
			}
		case *ast.Ident:
		case *ast.SliceExpr:
			if x.Low != nil {
				add(x.Pos(), "low bound dropped in "+src(x), func() { x.Low = nil })
			}
			if x.High != nil {
				add(x.Pos(), "high bound dropped in "+src(x), func() { x.High = nil })
			}
		}
		return true
	})
	if len(os.Args) < 4 {
		fmt.Println(len(ms))
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := ms[n]
	p := fset.Position(m.pos)
	m.apply()
	var b bytes.Buffer
	if err := printer.Fprint(&b, fset, f); err != nil {
		panic(err)
	}
	if err := os.WriteFile(os.Args[3], b.Bytes(), 0o644); err != nil {
		panic(err)
	}
	fmt.Printf("%d: %s\n", p.Line, m.desc)
}

func simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt:
		return true
	case *ast.AssignStmt:
		return x.Tok != token.DEFINE
	}
	return false
}

func blanks(n int) []ast.Expr {
	var r []ast.Expr
	for i := 0; i < n; i++ {
		r = append(r, ast.NewIdent("_"))
	}
	return r
}

func and(e ast.Expr, s string) ast.Expr {
	return &ast.BinaryExpr{X: &ast.ParenExpr{X: e}, Op: token.LAND, Y: ast.NewIdent(s)}
}

func or(e ast.Expr, s string) ast.Expr {
	return &ast.BinaryExpr{X: &ast.ParenExpr{X: e}, Op: token.LOR, Y: ast.NewIdent(s)}
}

func allBlank(l []ast.Expr) bool {
	for _, e := range l {
		if id, ok := e.(*ast.Ident); !ok || id.Name != "_" {
			return false
		}
	}
	return true
}
