// Command instr prints a Go source file with a call to verifY inserted before every statement, so that a
// driver can perturb the schedule at every step.  Line numbers are preserved.
// Usage: instr IN OUT [func ...]   (functions to leave alone)
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strings"
)

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	skip := map[string]bool{}
	for _, a := range os.Args[3:] {
		skip[a] = true
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, os.Args[1], src, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
	// edits: replace src[from:to] by text
	type edit struct {
		from, to int
		text     string
	}
	var edits []edit
	add := func(l []ast.Stmt) {
		for _, s := range l {
			p := at(s.Pos())
			switch x := s.(type) {
			case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
				continue
			case *ast.IncDecStmt:
				// split the read from the write
				op := "+"
				if x.Tok == token.DEC {
					op = "-"
				}
				edits = append(edits, edit{p, at(x.End()), fmt.Sprintf("verifY(); { verifV := %s; verifY(); %s = verifV %s 1 }", text(x.X), text(x.X), op)})
				continue
			case *ast.AssignStmt:
				if len(x.Lhs) == 1 && len(x.Rhs) == 1 && !strings.Contains(text(x), "\n") {
					switch x.Tok {
					case token.ADD_ASSIGN, token.SUB_ASSIGN, token.MUL_ASSIGN:
						edits = append(edits, edit{p, at(x.End()), fmt.Sprintf("verifY(); { verifV := %s; verifY(); %s = verifV %s (%s) }", text(x.Lhs[0]), text(x.Lhs[0]), strings.TrimSuffix(x.Tok.String(), "="), text(x.Rhs[0]))})
						continue
					case token.ASSIGN:
						if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
							if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "append" && text(x.Lhs[0]) != "_" {
								edits = append(edits, edit{p, at(x.End()), fmt.Sprintf("verifY(); { verifV := %s; verifY(); %s = verifV }", text(x.Rhs[0]), text(x.Lhs[0]))})
								continue
							}
						}
					}
				}
			}
			edits = append(edits, edit{p, p, "verifY(); "})
		}
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || skip[fd.Name.Name] || fd.Name.Name == "init" {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				add(x.List)
			case *ast.CaseClause:
				add(x.Body)
			case *ast.CommClause:
				add(x.Body)
			}
			return true
		})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].from < edits[j].from })
	var out []byte
	last := 0
	for _, e := range edits {
		if e.from < last {
			continue
		}
		out = append(out, src[last:e.from]...)
		out = append(out, e.text...)
		last = e.to
	}
	out = append(out, src[last:]...)
	if err := os.WriteFile(os.Args[2], out, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
}
