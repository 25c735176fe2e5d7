// Command mutate lists or writes single-point mutants of a Go file, to find out what the checks miss. It is a
// development tool: no check uses it.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type site struct {
	desc string
	pos  token.Pos
	do   func()
}

// usage: mutate FILE           prints the number of mutants
//
//	mutate FILE N OUT      writes mutant N to OUT, prints its description
func main() {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], nil, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	var sites []site
	add := func(p token.Pos, d string, do func()) { sites = append(sites, site{d, p, do}) }
	swap := map[token.Token][]token.Token{
		token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
		token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.LAND: {token.LOR}, token.LOR: {token.LAND},
		token.MUL: {token.ADD}, token.QUO: {token.MUL}, token.REM: {token.QUO}, token.SHL: {token.SHR}, token.SHR: {token.SHL},
	}
	fn := ""
	stmts := func(l *[]ast.Stmt) {
		for i := range *l {
			i := i
			switch s := (*l)[i].(type) {
			case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
				add(s.Pos(), fn+": delete statement", func() { (*l)[i] = &ast.EmptyStmt{} })
			case *ast.AssignStmt:
				if s.Tok == token.ASSIGN {
					add(s.Pos(), fn+": delete assignment", func() {
						n := &ast.AssignStmt{Tok: token.ASSIGN}
						for _, r := range s.Rhs {
							n.Lhs = append(n.Lhs, ast.NewIdent("_"))
							n.Rhs = append(n.Rhs, r)
						}
						if len(s.Rhs) != len(s.Lhs) {
							for range s.Lhs[1:] {
								n.Lhs = append(n.Lhs, ast.NewIdent("_"))
							}
						}
						(*l)[i] = n
					})
				} else if s.Tok != token.DEFINE {
					add(s.Pos(), fn+": delete op-assignment", func() { (*l)[i] = &ast.EmptyStmt{} })
				}
			case *ast.IfStmt:
				if s.Else == nil {
					add(s.Pos(), fn+": delete if", func() { (*l)[i] = &ast.EmptyStmt{} })
				}
			case *ast.ReturnStmt:
				for j := range s.Results {
					j := j
					if id, ok := s.Results[j].(*ast.Ident); ok && id.Name == "err" {
						add(s.Pos(), fn+": return nil error", func() { s.Results[j] = ast.NewIdent("nil") })
					}
				}
				if len(s.Results) == 0 {
					add(s.Pos(), fn+": delete return", func() { (*l)[i] = &ast.EmptyStmt{} })
				}
			}
		}
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok {
			fn = fd.Name.Name
		} else {
			fn = "decl"
		}
		ast.Inspect(d, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				stmts(&n.List)
			case *ast.CaseClause:
				stmts(&n.Body)
			case *ast.BinaryExpr:
				for _, t := range swap[n.Op] {
					t := t
					add(n.OpPos, fmt.Sprintf("%s: %s -> %s", fn, n.Op, t), func() { n.Op = t })
				}
			case *ast.IfStmt:
				add(n.Pos(), fn+": negate if", func() { n.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: n.Cond}} })
			case *ast.BasicLit:
				if n.Kind == token.INT {
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add(n.Pos(), fmt.Sprintf("%s: %s + 1", fn, n.Value), func() { n.Value = strconv.FormatInt(v+1, 10) })
						if v > 0 {
							add(n.Pos(), fmt.Sprintf("%s: %s - 1", fn, n.Value), func() { n.Value = strconv.FormatInt(v-1, 10) })
						}
					}
				}
			case *ast.Ident:
				if n.Name == "true" || n.Name == "false" {
					o := map[string]string{"true": "false", "false": "true"}[n.Name]
					add(n.Pos(), fn+": "+n.Name+" -> "+o, func() { n.Name = o })
				}
			case *ast.IncDecStmt:
				add(n.Pos(), fn+": ++ <-> --", func() {
					if n.Tok == token.INC {
						n.Tok = token.DEC
					} else {
						n.Tok = token.INC
					}
				})
			case *ast.CallExpr:
				if len(n.Args) == 2 {
					add(n.Pos(), fn+": swap arguments", func() { n.Args[0], n.Args[1] = n.Args[1], n.Args[0] })
				}
			case *ast.SliceExpr:
				if n.Low != nil {
					add(n.Pos(), fn+": drop low bound", func() { n.Low = nil })
				}
			}
			return true
		})
	}
	if len(os.Args) < 4 {
		fmt.Println(len(sites))
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	s := sites[n]
	s.do()
	f.Comments = nil
	var b bytes.Buffer
	if err := format.Node(&b, fset, f); err != nil {
		panic(err)
	}
	os.WriteFile(os.Args[3], b.Bytes(), 0644)
	fmt.Printf("%s:%d %s\n", os.Args[1], fset.Position(s.pos).Line, s.desc)
}
