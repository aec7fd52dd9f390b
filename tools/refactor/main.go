// refactor applies one behaviour-preserving source transformation to a scratch copy of the
// repository, everywhere it can (or with a given probability). It exists to measure that the
// checks judge what code does and not how it is written; no check runs it.
//
//	refactor DIR TRANSFORM PKG [prob] [seed]
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

var (
	rnd  *rand.Rand
	prob = 1.0
	uniq int
	n    int
)

func pick() bool { return rnd.Float64() < prob }

type tr struct {
	pkg   *packages.Package
	info  *types.Info
	file  *ast.File
	extra []string // declarations to append
	fset  *token.FileSet
}

func main() {
	dir, what, pk := os.Args[1], os.Args[2], os.Args[3]
	seed := int64(1)
	if len(os.Args) > 4 {
		prob, _ = strconv.ParseFloat(os.Args[4], 64)
	}
	if len(os.Args) > 5 {
		s, _ := strconv.Atoi(os.Args[5])
		seed = int64(s)
	}
	rnd = rand.New(rand.NewSource(seed))
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: fset}
	pkgs, err := packages.Load(cfg, pk)
	if err != nil {
		panic(err)
	}
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			if strings.HasSuffix(name, "html_entity.go") || strings.HasSuffix(name, "_string.go") {
				continue
			}
			f.Comments = nil
			t := &tr{p, p.TypesInfo, f, nil, fset}
			t.run(what)
			var b bytes.Buffer
			if err := format.Node(&b, fset, f); err != nil {
				panic(err)
			}
			for _, x := range t.extra {
				b.WriteString("\n" + x + "\n")
			}
			out, err := format.Source(b.Bytes())
			if err != nil {
				os.WriteFile("/tmp/work/bad.go", b.Bytes(), 0o644)
				panic(err)
			}
			os.WriteFile(name, out, 0o644)
		}
	}
	fmt.Println(what, n, "sites")
}

func (t *tr) str(x ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, t.fset, x)
	return b.String()
}

func not(e ast.Expr) ast.Expr {
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.NOT {
		return u.X
	}
	if b, ok := e.(*ast.BinaryExpr); ok {
		m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if o, ok := m[b.Op]; ok {
			return &ast.BinaryExpr{X: b.X, Op: o, Y: b.Y}
		}
		if b.Op == token.LAND {
			return &ast.BinaryExpr{X: not(b.X), Op: token.LOR, Y: not(b.Y)}
		}
		if b.Op == token.LOR {
			return &ast.BinaryExpr{X: &ast.ParenExpr{X: not(b.X)}, Op: token.LAND, Y: &ast.ParenExpr{X: not(b.Y)}}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

func (t *tr) run(what string) {
	switch what {
	case "swapif":
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Else != nil && pick() {
				if eb, ok := s.Else.(*ast.BlockStmt); ok {
					s.Cond, s.Body, s.Else = not(s.Cond), eb, s.Body
					n++
				} else {
					s.Cond, s.Body, s.Else = not(s.Cond), &ast.BlockStmt{List: []ast.Stmt{s.Else}}, s.Body
					n++
				}
			}
			return true
		})
	case "whiletobreak":
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.ForStmt); ok && s.Cond != nil && s.Init == nil && s.Post == nil && pick() {
				s.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(s.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, s.Body.List...)
				s.Cond = nil
				n++
			}
			return true
		})
	case "rangeidx":
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.RangeStmt)
			if !ok || s.Tok != token.DEFINE || !pick() {
				return true
			}
			if _, ok := t.info.TypeOf(s.X).Underlying().(*types.Slice); !ok {
				return true
			}
			if _, lab := c.Parent().(*ast.LabeledStmt); lab {
				return true
			}
			uniq++
			xs, ix := fmt.Sprintf("xs%d", uniq), fmt.Sprintf("ix%d", uniq)
			if k, ok := s.Key.(*ast.Ident); ok && k.Name != "_" {
				ix = k.Name
			}
			body := s.Body
			if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
				body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(xs), Index: ast.NewIdent(ix)}}}}, body.List...)
			}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(xs)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
				&ast.ForStmt{
					Init: &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(ix)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
					Cond: &ast.BinaryExpr{X: ast.NewIdent(ix), Op: token.LSS, Y: &ast.CallExpr{Fun: ast.NewIdent("len"), Args: []ast.Expr{ast.NewIdent(xs)}}},
					Post: &ast.IncDecStmt{X: ast.NewIdent(ix), Tok: token.INC},
					Body: body,
				}}})
			n++
			return true
		})
	case "switchif":
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.SwitchStmt)
			if !ok || s.Tag == nil || s.Init != nil || !pick() {
				return true
			}
			if _, lab := c.Parent().(*ast.LabeledStmt); lab {
				return true
			}
			bad := false
			ast.Inspect(s.Body, func(x ast.Node) bool {
				switch b := x.(type) {
				case *ast.BranchStmt:
					if b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH {
						bad = true
					}
				}
				return true
			})
			if bad {
				return true
			}
			uniq++
			tag := fmt.Sprintf("tag%d", uniq)
			var first, last *ast.IfStmt
			var def *ast.BlockStmt
			for _, cl := range s.Body.List {
				cc := cl.(*ast.CaseClause)
				blk := &ast.BlockStmt{List: cc.Body}
				if cc.List == nil {
					def = blk
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					q := &ast.BinaryExpr{X: ast.NewIdent(tag), Op: token.EQL, Y: e}
					if cond == nil {
						cond = q
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: q}
					}
				}
				i := &ast.IfStmt{Cond: cond, Body: blk}
				if first == nil {
					first = i
				} else {
					last.Else = i
				}
				last = i
			}
			if first == nil {
				return true
			}
			if def != nil {
				last.Else = def
			}
			// a terminating switch must stay terminating
			n++
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(tag)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Tag}}, first}})
			return true
		})
	case "condfn": // extract conditions into predicate functions
		t.eachIf(func(s *ast.IfStmt) {
			if !pick() {
				return
			}
			if strings.Contains(t.str(s.Cond), "err") {
				return
			}
			call, ok := t.extractExpr(s.Cond, "bool")
			if ok {
				s.Cond = call
				n++
			}
		})
	case "rettmp":
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			r, ok := c.Node().(*ast.ReturnStmt)
			if !ok || len(r.Results) != 1 || c.Index() < 0 || !pick() {
				return true
			}
			if tv := t.info.TypeOf(r.Results[0]); tv == nil {
				return true
			} else if tp, ok := tv.(*types.Tuple); ok && tp.Len() != 1 {
				return true
			} else if b, ok := tv.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return true
			}
			uniq++
			v := fmt.Sprintf("rv%d", uniq)
			c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{r.Results[0]}})
			c.Replace(&ast.ReturnStmt{Results: []ast.Expr{ast.NewIdent(v)}})
			n++
			return true
		})
	case "andsplit": // if a && b {X} without else -> nested ifs
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Else == nil && pick() {
				if b, ok := s.Cond.(*ast.BinaryExpr); ok && b.Op == token.LAND {
					s.Cond = b.X
					s.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: s.Body}}}
					n++
				}
			}
			return true
		})
	case "condvar": // c := cond; if c {
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			if s, ok := c.Node().(*ast.IfStmt); ok && s.Init == nil && c.Index() >= 0 && pick() {
				uniq++
				v := fmt.Sprintf("cv%d", uniq)
				c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{s.Cond}})
				s.Cond = ast.NewIdent(v)
				n++
			}
			return true
		})
	case "elseafterreturn": // if c {... return} rest  ->  if c {...return} else {rest}
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BlockStmt)
			if !ok {
				return true
			}
			if _, isF := c.Parent().(*ast.FuncDecl); !isF {
				return true
			}
			for i := len(b.List) - 2; i >= 0; i-- {
				s, ok := b.List[i].(*ast.IfStmt)
				if !ok || s.Else != nil || len(s.Body.List) == 0 || !pick() {
					continue
				}
				if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ok {
					continue
				}
				if hasLabel(b.List[i+1:]) {
					continue
				}
				s.Else = &ast.BlockStmt{List: append([]ast.Stmt{}, b.List[i+1:]...)}
				b.List = b.List[:i+1]
				n++
			}
			return true
		})
	case "tail": // move the tail of a function into a new function
		for _, d := range t.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil && pick() {
				t.tail(fd)
			}
		}
	case "block": // move the body of an if into a helper
		for _, d := range t.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				t.blocks(fd)
			}
		}
	case "forbody": // move a loop body into a helper
		for _, d := range t.file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				t.loopBodies(fd)
			}
		}
	case "argtmp": // f(g(x)) -> a := g(x); f(a), for single-call statements
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			if c.Index() < 0 || !pick() {
				return true
			}
			var call *ast.CallExpr
			switch s := c.Node().(type) {
			case *ast.ExprStmt:
				call, _ = s.X.(*ast.CallExpr)
			case *ast.AssignStmt:
				if len(s.Rhs) == 1 {
					call, _ = s.Rhs[0].(*ast.CallExpr)
				}
			}
			if call == nil {
				return true
			}
			if tv := t.info.Types[call.Fun]; tv.IsType() || tv.IsBuiltin() {
				return true
			}
			for i, a := range call.Args {
				ac, ok := a.(*ast.CallExpr)
				if !ok {
					continue
				}
				if tv := t.info.Types[ac.Fun]; tv.IsType() || tv.IsBuiltin() {
					continue
				}
				if tp, ok := t.info.TypeOf(ac).(*types.Tuple); ok && tp.Len() != 1 {
					continue
				}
				uniq++
				v := fmt.Sprintf("av%d", uniq)
				c.InsertBefore(&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{ac}})
				call.Args[i] = ast.NewIdent(v)
				n++
				break
			}
			return true
		})
	case "litassign": // x := &T{k: v} -> x := &T{}; x.k = v
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			s, ok := c.Node().(*ast.AssignStmt)
			if !ok || len(s.Lhs) != 1 || len(s.Rhs) != 1 || c.Index() < 0 || !pick() {
				return true
			}
			id, ok := s.Lhs[0].(*ast.Ident)
			if !ok {
				return true
			}
			u, ok := s.Rhs[0].(*ast.UnaryExpr)
			if !ok || u.Op != token.AND {
				return true
			}
			cl, ok := u.X.(*ast.CompositeLit)
			if !ok || len(cl.Elts) == 0 {
				return true
			}
			st, ok := t.info.TypeOf(cl).Underlying().(*types.Struct)
			if !ok {
				return true
			}
			if strings.Contains(t.str(cl), "\b"+id.Name+"\b") {
				return true
			}
			used := false
			ast.Inspect(cl, func(x ast.Node) bool {
				if i, ok := x.(*ast.Ident); ok && i.Name == id.Name {
					used = true
				}
				return true
			})
			if used {
				return true
			}
			elts := cl.Elts
			cl.Elts = nil
			for i := len(elts) - 1; i >= 0; i-- {
				name, val := "", elts[i]
				if kv, ok := val.(*ast.KeyValueExpr); ok {
					name, val = kv.Key.(*ast.Ident).Name, kv.Value
				} else {
					name = st.Field(i).Name()
				}
				c.InsertAfter(&ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id.Name), Sel: ast.NewIdent(name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{val}})
			}
			n++
			return true
		})
	case "commute": // a == b -> b == a ; a && b of pure idents stay
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			b, ok := c.Node().(*ast.BinaryExpr)
			if ok && pick() {
				switch b.Op {
				case token.EQL, token.NEQ:
					b.X, b.Y = b.Y, b.X
					n++
				case token.LSS:
					b.X, b.Y, b.Op = b.Y, b.X, token.GTR
					n++
				case token.GTR:
					b.X, b.Y, b.Op = b.Y, b.X, token.LSS
					n++
				case token.LEQ:
					b.X, b.Y, b.Op = b.Y, b.X, token.GEQ
					n++
				case token.GEQ:
					b.X, b.Y, b.Op = b.Y, b.X, token.LEQ
					n++
				}
			}
			return true
		})
	case "rename": // rename unexported functions and methods
		ren := map[types.Object]string{}
		iface := map[string]bool{}
		for _, nme := range t.pkg.Types.Scope().Names() {
			if it, ok := t.pkg.Types.Scope().Lookup(nme).Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					iface[it.Method(i).Name()] = true
				}
			}
		}
		for _, o := range t.info.Defs {
			if f, ok := o.(*types.Func); ok && !f.Exported() && f.Name() != "init" && f.Name() != "main" && !iface[f.Name()] {
				if (len(f.Name())+int(f.Name()[0]))%7 < int(prob*7) {
					ren[f] = f.Name() + "Impl"
				}
			}
		}
		ast.Inspect(t.file, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok {
				if o := t.info.ObjectOf(i); o != nil {
					if nn, ok := ren[o]; ok {
						i.Name = nn
						n++
					}
				}
			}
			return true
		})
	case "noop":
		astutil.Apply(t.file, nil, func(c *astutil.Cursor) bool {
			if fd, ok := c.Node().(*ast.FuncDecl); ok && fd.Body != nil && pick() {
				fd.Body.List = append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}}}, fd.Body.List...)
				n++
			}
			return true
		})
	}
}

func hasLabel(ss []ast.Stmt) bool {
	bad := false
	for _, s := range ss {
		ast.Inspect(s, func(x ast.Node) bool {
			switch x.(type) {
			case *ast.LabeledStmt:
				bad = true
			}
			return true
		})
	}
	return bad
}

func (t *tr) eachIf(f func(*ast.IfStmt)) {
	ast.Inspect(t.file, func(x ast.Node) bool {
		if s, ok := x.(*ast.IfStmt); ok {
			f(s)
		}
		return true
	})
}

func (t *tr) typeStr(ty types.Type) string {
	return types.TypeString(ty, func(p *types.Package) string {
		if p == t.pkg.Types {
			return ""
		}
		return p.Name()
	})
}

// free: local variables used in nodes but declared outside of them; ok is false when a variable
// is assigned, address-taken or of an unprintable type.
func (t *tr) free(nodes []ast.Node, lo, hi token.Pos) (vars []*types.Var, assigned map[*types.Var]bool, ok bool) {
	ok = true
	assigned = map[*types.Var]bool{}
	seen := map[*types.Var]bool{}
	for _, nd := range nodes {
		ast.Inspect(nd, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit:
				ok = false
			case *ast.AssignStmt:
				if y.Tok != token.DEFINE {
					for _, l := range y.Lhs {
						if id, isI := l.(*ast.Ident); isI {
							if v, isV := t.info.ObjectOf(id).(*types.Var); isV {
								assigned[v] = true
							}
						} else if v := baseVar(t, l); v != nil {
							if _, ptr := v.Type().Underlying().(*types.Pointer); !ptr {
								if _, isStruct := v.Type().Underlying().(*types.Struct); isStruct {
									assigned[v] = true
								}
							}
						}
					}
				} else {
					for _, l := range y.Lhs {
						if id, isI := l.(*ast.Ident); isI && t.info.Defs[id] == nil {
							if v, isV := t.info.Uses[id].(*types.Var); isV {
								assigned[v] = true
							}
						}
					}
				}
			case *ast.IncDecStmt:
				if id, isI := y.X.(*ast.Ident); isI {
					if v, isV := t.info.ObjectOf(id).(*types.Var); isV {
						assigned[v] = true
					}
				}
			case *ast.RangeStmt:
				if y.Tok == token.ASSIGN {
					ok = false
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					if v := baseVar(t, y.X); v != nil {
						assigned[v] = true
					}
				}
			case *ast.Ident:
				v, isV := t.info.Uses[y].(*types.Var)
				if !isV || v.IsField() || v.Pkg() != t.pkg.Types || v.Parent() == t.pkg.Types.Scope() {
					return true
				}
				if v.Pos() >= lo && v.Pos() < hi {
					return true
				}
				if !seen[v] {
					seen[v] = true
					vars = append(vars, v)
				}
			}
			return true
		})
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].Pos() < vars[j].Pos() })
	for _, v := range vars {
		if _, isTP := v.Type().(*types.TypeParam); isTP {
			ok = false
		}
	}
	return
}

func baseVar(t *tr, e ast.Expr) *types.Var {
	for {
		switch x := e.(type) {
		case *ast.Ident:
			v, _ := t.info.ObjectOf(x).(*types.Var)
			return v
		case *ast.SelectorExpr:
			if _, isP := t.info.TypeOf(x.X).Underlying().(*types.Pointer); isP {
				return nil
			}
			e = x.X
		case *ast.IndexExpr:
			if _, isA := t.info.TypeOf(x.X).Underlying().(*types.Array); !isA {
				return nil
			}
			e = x.X
		case *ast.ParenExpr:
			e = x.X
		default:
			return nil
		}
	}
}

func (t *tr) extractExpr(e ast.Expr, ret string) (ast.Expr, bool) {
	vars, as, ok := t.free([]ast.Node{e}, e.Pos(), e.End())
	if !ok || len(as) > 0 || len(vars) > 6 {
		return nil, false
	}
	ps, args := t.params(vars)
	uniq++
	name := fmt.Sprintf("helper%d", uniq)
	t.extra = append(t.extra, fmt.Sprintf("func %s(%s) %s {\n\treturn %s\n}", name, strings.Join(ps, ", "), ret, t.str(e)))
	return &ast.CallExpr{Fun: ast.NewIdent(name), Args: args}, true
}

func (t *tr) params(vars []*types.Var) (ps []string, args []ast.Expr) {
	for _, v := range vars {
		ps = append(ps, v.Name()+" "+t.typeStr(v.Type()))
		args = append(args, ast.NewIdent(v.Name()))
	}
	return
}

func names(vars []*types.Var) bool {
	m := map[string]bool{}
	for _, v := range vars {
		if m[v.Name()] {
			return false
		}
		m[v.Name()] = true
	}
	return true
}

func (t *tr) tail(fd *ast.FuncDecl) {
	l := fd.Body.List
	if len(l) < 3 || hasLabel(l) || fd.Type.TypeParams != nil {
		return
	}
	if fd.Recv != nil && strings.Contains(t.str(fd.Recv.List[0].Type), "[") {
		return
	}
	if fd.Type.Results != nil && len(fd.Type.Results.List) > 0 && len(fd.Type.Results.List[0].Names) > 0 {
		return
	}
	hasFn := false
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.FuncLit, *ast.DeferStmt:
			hasFn = true
		}
		return true
	})
	if hasFn {
		return
	}
	k := 1 + rnd.Intn(len(l)-1)
	var nodes []ast.Node
	for _, s := range l[k:] {
		nodes = append(nodes, s)
	}
	vars, _, ok := t.free(nodes, l[k].Pos(), fd.Body.End())
	if !ok || !names(vars) {
		return
	}
	var recv *types.Var
	if fd.Recv != nil && len(fd.Recv.List[0].Names) > 0 {
		recv, _ = t.info.Defs[fd.Recv.List[0].Names[0]].(*types.Var)
	}
	var rest []*types.Var
	for _, v := range vars {
		if v != recv {
			rest = append(rest, v)
		}
	}
	ps, args := t.params(rest)
	uniq++
	name := fmt.Sprintf("%sTail%d", strings.ToLower(fd.Name.Name[:1])+fd.Name.Name[1:], uniq)
	var fun ast.Expr = ast.NewIdent(name)
	recvS := ""
	if recv != nil {
		recvS = "(" + recv.Name() + " " + t.str(fd.Recv.List[0].Type) + ") "
		fun = &ast.SelectorExpr{X: ast.NewIdent(recv.Name()), Sel: ast.NewIdent(name)}
	}
	res := ""
	if fd.Type.Results != nil {
		var rs []string
		for _, f := range fd.Type.Results.List {
			rs = append(rs, t.str(f.Type))
		}
		res = "(" + strings.Join(rs, ", ") + ")"
	}
	body := t.str(&ast.BlockStmt{List: l[k:]})
	t.extra = append(t.extra, fmt.Sprintf("func %s%s(%s) %s %s", recvS, name, strings.Join(ps, ", "), res, body))
	call := &ast.CallExpr{Fun: fun, Args: args}
	var st ast.Stmt = &ast.ExprStmt{X: call}
	if res != "" {
		st = &ast.ReturnStmt{Results: []ast.Expr{call}}
	}
	fd.Body.List = append(append([]ast.Stmt{}, l[:k]...), st)
	n++
}

func (t *tr) escapes(b ast.Node) bool {
	bad := false
	ast.Inspect(b, func(x ast.Node) bool {
		switch x.(type) {
		case *ast.ReturnStmt, *ast.BranchStmt, *ast.LabeledStmt, *ast.DeferStmt:
			bad = true
		}
		return true
	})
	return bad
}

func (t *tr) helper(fd *ast.FuncDecl, body *ast.BlockStmt) bool {
	if len(body.List) == 0 || t.escapes(body) || fd.Type.TypeParams != nil {
		return false
	}
	vars, as, ok := t.free([]ast.Node{body}, body.Pos(), body.End())
	if !ok || !names(vars) {
		return false
	}
	var outv []*types.Var
	for _, v := range vars {
		if as[v] {
			outv = append(outv, v)
		}
	}
	if len(outv) > 2 {
		return false
	}
	ps, args := t.params(vars)
	if strings.Contains(strings.Join(ps, " "), "[T]") {
		return false
	}
	uniq++
	name := fmt.Sprintf("block%d", uniq)
	src := t.str(body)
	call := &ast.CallExpr{Fun: ast.NewIdent(name), Args: args}
	if len(outv) == 0 {
		t.extra = append(t.extra, fmt.Sprintf("func %s(%s) %s", name, strings.Join(ps, ", "), src))
		body.List = []ast.Stmt{&ast.ExprStmt{X: call}}
	} else {
		var ty, nm []string
		var lhs []ast.Expr
		for _, v := range outv {
			ty = append(ty, t.typeStr(v.Type()))
			nm = append(nm, v.Name())
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		src = strings.TrimSuffix(strings.TrimSpace(src), "}") + "\nreturn " + strings.Join(nm, ", ") + "\n}"
		t.extra = append(t.extra, fmt.Sprintf("func %s(%s) (%s) %s", name, strings.Join(ps, ", "), strings.Join(ty, ", "), src))
		body.List = []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}}
	}
	n++
	return true
}

func (t *tr) blocks(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		if _, ok := x.(*ast.FuncLit); ok {
			return false
		}
		if s, ok := x.(*ast.IfStmt); ok && pick() {
			if t.helper(fd, s.Body) {
				return false
			}
		}
		return true
	})
}

func (t *tr) loopBodies(fd *ast.FuncDecl) {
	ast.Inspect(fd.Body, func(x ast.Node) bool {
		switch s := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.RangeStmt:
			if pick() && t.helper(fd, s.Body) {
				return false
			}
		case *ast.ForStmt:
			if pick() && t.helper(fd, s.Body) {
				return false
			}
		}
		return true
	})
}
