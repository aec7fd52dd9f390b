// mutate lists or applies small semantic mutations of a Go file (measuring sensitivity only).
// usage: mutate FILE            -> number of mutations
//        mutate FILE N          -> rewrites FILE with the N-th mutation, prints what it did
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	from, to int
	text     string
	what     string
	line     int
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var ms []mut
	add := func(a, b token.Pos, text, what string) {
		ms = append(ms, mut{off(a), off(b), text, what, fs.Position(a).Line})
	}
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	ops := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}
	consts := map[string][]string{}
	seen := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok {
			for _, p := range []string{"T_", "N_", "SPK_", "ERR_", "PK_", "BT_", "FEAT_", "LM_", "ET_", "EK_"} {
				if strings.HasPrefix(id.Name, p) && !seen[id.Name] {
					seen[id.Name] = true
					consts[p] = append(consts[p], id.Name)
				}
			}
		}
		return true
	})
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				if o, ok := ops[x.Op]; ok {
					add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, x.Op.String()+" -> "+o+" in "+txt(x))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x.Pos(), x.End(), txt(x.X), "drop right of "+txt(x))
					add(x.Pos(), x.End(), txt(x.Y), "drop left of "+txt(x))
				}
			case *ast.IfStmt:
				if x.Init == nil {
					add(x.Cond.Pos(), x.Cond.End(), "!("+txt(x.Cond)+")", "negate "+txt(x.Cond))
				}
				if x.Else != nil {
					add(x.Body.End(), x.Else.End(), "", "drop else of "+txt(x.Cond))
				}
			case *ast.Ident:
				if x.Name == "true" {
					add(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					add(x.Pos(), x.End(), "true", "false -> true")
				}
				for p, l := range consts {
					if strings.HasPrefix(x.Name, p) && len(l) > 1 {
						for i, c := range l {
							if c == x.Name {
								o := l[(i+1)%len(l)]
								add(x.Pos(), x.End(), o, x.Name+" -> "+o)
							}
						}
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						add(x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+" -> +1")
					}
				}
				if x.Kind == token.CHAR {
					add(x.Pos(), x.End(), "'`'", x.Value+" -> other char")
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(x.Args); i++ {
					a, b := txt(x.Args[i]), txt(x.Args[i+1])
					if a != b {
						add(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a, "swap args "+a+", "+b)
					}
				}
			case *ast.CompositeLit:
				for i := 0; i+1 < len(x.Elts); i++ {
					a, b := txt(x.Elts[i]), txt(x.Elts[i+1])
					if _, kv := x.Elts[i].(*ast.KeyValueExpr); !kv && a != b {
						add(x.Elts[i].Pos(), x.Elts[i+1].End(), b+", "+a, "swap elts "+a+", "+b)
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt:
						add(s.Pos(), s.End(), "", "delete "+txt(s))
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							add(s.Pos(), s.End(), "", "delete "+txt(s))
						}
					case *ast.BranchStmt:
						add(s.Pos(), s.End(), "", "delete "+txt(s))
					}
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		fmt.Println(len(ms))
		return
	}
	n, _ := strconv.Atoi(os.Args[2])
	m := ms[n]
	out := string(src[:m.from]) + m.text + string(src[m.to:])
	os.WriteFile(os.Args[1], []byte(out), 0o644)
	fmt.Printf("line %d: %s\n", m.line, strings.ReplaceAll(m.what, "\n", " "))
}
