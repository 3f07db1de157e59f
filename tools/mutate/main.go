// mutate lists or writes single-edit mutants of Go files, for measuring how
// sensitive the checks are. mutate list FILE... ; mutate write FILE N OUT
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	a, b int
	s    string
	what string
	line int
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			for i, m := range muts(f) {
				src, _ := os.ReadFile(f)
				fmt.Printf("%s\t%d\t%d\t%s\t%s => %s\n", f, i, m.line, m.what, one(string(src[m.a:m.b])), one(m.s))
			}
		}
	case "write":
		n, _ := strconv.Atoi(os.Args[3])
		m := muts(os.Args[2])[n]
		src, _ := os.ReadFile(os.Args[2])
		os.WriteFile(os.Args[4], []byte(string(src[:m.a])+m.s+string(src[m.b:])), 0o644)
	}
}

func one(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 110 {
		s = s[:110] + "..."
	}
	return s
}

func muts(file string) []mut {
	fs := token.NewFileSet()
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	t, err := parser.ParseFile(fs, file, src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var l []mut
	add := func(n ast.Node, s, what string) {
		l = append(l, mut{off(n.Pos()), off(n.End()), s, what, fs.Position(n.Pos()).Line})
	}
	ast.Inspect(t, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			return x.Tok != token.IMPORT
		case *ast.ExprStmt:
			s := txt(x)
			if strings.HasPrefix(s, "fmt.") || strings.HasPrefix(s, "log.") || strings.HasPrefix(s, "flag.") || strings.HasPrefix(s, "copy(") {
				return false
			}
			add(x, "", "delete")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				s := ""
				for _, r := range x.Rhs {
					if _, ok := r.(*ast.Ident); !ok || true {
						s += "_ = " + txt(r) + "; "
					}
				}
				if len(x.Rhs) == 1 && len(x.Lhs) == 1 {
					add(x, strings.TrimSuffix(s, "; "), "delete")
				} else {
					add(x, "", "delete")
				}
			}
		case *ast.IncDecStmt:
			add(x, "", "delete")
		case *ast.BranchStmt:
			if x.Label == nil {
				add(x, "", "delete")
			}
		case *ast.IfStmt:
			c := txt(x.Cond)
			if _, ok := x.Cond.(*ast.Ident); ok && strings.HasSuffix(c, "ok") && x.Init != nil {
				add(x.Cond, "!"+c, "negate")
			}
			add(x.Cond, "("+c+") && false", "never")
			add(x.Cond, "("+c+") || true", "always")
		case *ast.BinaryExpr:
			switch x.Op {
			case token.LAND, token.LOR:
				add(x, txt(x.X), "left only")
				add(x, txt(x.Y), "right only")
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.ADD, token.SUB, token.MUL, token.QUO:
				o := map[token.Token]string{token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+", token.MUL: "/", token.QUO: "*"}[x.Op]
				add(x, txt(x.X)+" "+o+" "+txt(x.Y), "operator")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil {
					add(x, strconv.Itoa(v+1), "constant")
				}
			} else if x.Kind == token.FLOAT {
				add(x, "("+x.Value+"*1.2)", "constant")
			}
		}
		return true
	})
	return l
}
