package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Constant tables. Package-level tables (token kinds, keywords, type names, entities, ...) are
// computed from their initialisers by constant propagation over the SSA of the package
// initialiser; anything that is not constant is left unknown.

type ccell struct{ v any } // constant.Value, []*ccell (struct, array), *cslice, *cmap, *ccell (pointer), *ssa.Function, nil (zero reference) or cunknown

type cslice struct{ e []*ccell }
type cmap struct {
	m map[string]*ccell
	k map[string]any
}
type cunknown struct{}

type cprop struct {
	p     *Prog
	pkg   *ssa.Package
	glob  map[*ssa.Global]*ccell
	steps int
}

func (x *cprop) zero(t types.Type) any {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return constant.MakeBool(false)
		case u.Info()&types.IsString != 0:
			return constant.MakeString("")
		case u.Info()&types.IsNumeric != 0:
			return constant.MakeInt64(0)
		}
		return cunknown{}
	case *types.Struct:
		l := make([]*ccell, u.NumFields())
		for i := range l {
			l[i] = &ccell{x.zero(u.Field(i).Type())}
		}
		return l
	case *types.Array:
		l := make([]*ccell, u.Len())
		for i := range l {
			l[i] = &ccell{x.zero(u.Elem())}
		}
		return l
	}
	return nil
}

func ccopy(v any) any {
	if l, ok := v.([]*ccell); ok {
		n := make([]*ccell, len(l))
		for i, e := range l {
			n[i] = &ccell{ccopy(e.v)}
		}
		return n
	}
	return v
}

func ckey(v any) (string, bool) {
	if c, ok := v.(constant.Value); ok {
		return c.ExactString(), true
	}
	return "", false
}

func newCprop(p *Prog, pkg string) *cprop {
	x := &cprop{p: p, pkg: p.SPkgs[pkg], glob: map[*ssa.Global]*ccell{}}
	if x.pkg == nil {
		return x
	}
	for _, m := range x.pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			x.glob[g] = &ccell{x.zero(g.Type().(*types.Pointer).Elem())}
		}
	}
	x.run(x.pkg.Func("init"), nil, 0)
	return x
}

func (x *cprop) run(f *ssa.Function, args []any, depth int) any {
	if f == nil || f.Blocks == nil || depth > 20 {
		return cunknown{}
	}
	env := map[ssa.Value]any{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	var get func(v ssa.Value) any
	get = func(v ssa.Value) any {
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return x.zero(v.Type())
			}
			return v.Value
		case *ssa.Global:
			if c, ok := x.glob[v]; ok {
				return c
			}
			return cunknown{}
		case *ssa.Function:
			return v
		}
		if r, ok := env[v]; ok {
			return r
		}
		return cunknown{}
	}
	b := f.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		var phis []any
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			for i, p := range b.Preds {
				if p == prev {
					phis = append(phis, get(phi.Edges[i]))
					break
				}
			}
		}
		for i, v := range phis {
			env[b.Instrs[i].(*ssa.Phi)] = v
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs[len(phis):] {
			x.steps++
			if x.steps > 4000000 {
				return cunknown{}
			}
			switch in := in.(type) {
			case *ssa.Alloc:
				env[in] = &ccell{x.zero(in.Type().(*types.Pointer).Elem())}
			case *ssa.Store:
				if c, ok := get(in.Addr).(*ccell); ok && c != nil {
					c.v = ccopy(get(in.Val))
				}
			case *ssa.FieldAddr:
				env[in] = cunknown{}
				if c, ok := get(in.X).(*ccell); ok && c != nil {
					if l, ok := c.v.([]*ccell); ok && in.Field < len(l) {
						env[in] = l[in.Field]
					}
				}
			case *ssa.Field:
				env[in] = cunknown{}
				if l, ok := get(in.X).([]*ccell); ok && in.Field < len(l) {
					env[in] = l[in.Field].v
				}
			case *ssa.IndexAddr, *ssa.Index:
				ops := in.Operands(nil)
				var l []*ccell
				switch y := get(*ops[0]).(type) {
				case *ccell:
					if y != nil {
						l, _ = y.v.([]*ccell)
					}
				case *cslice:
					l = y.e
				case []*ccell:
					l = y
				}
				i := -1
				if c, ok := get(*ops[1]).(constant.Value); ok {
					if n, ok := constant.Int64Val(constant.ToInt(c)); ok {
						i = int(n)
					}
				}
				v := in.(ssa.Value)
				env[v] = cunknown{}
				if i >= 0 && i < len(l) {
					env[v] = l[i]
					if _, ok := in.(*ssa.Index); ok {
						env[v] = l[i].v
					}
				}
			case *ssa.Slice:
				env[in] = cunknown{}
				if in.Low == nil && in.High == nil {
					switch y := get(in.X).(type) {
					case *ccell:
						if y != nil {
							if l, ok := y.v.([]*ccell); ok {
								env[in] = &cslice{l}
							}
						}
					case *cslice:
						env[in] = y
					}
				}
			case *ssa.MakeMap:
				env[in] = &cmap{map[string]*ccell{}, map[string]any{}}
			case *ssa.MapUpdate:
				if m, ok := get(in.Map).(*cmap); ok {
					k := get(in.Key)
					if s, ok := ckey(k); ok {
						m.m[s] = &ccell{ccopy(get(in.Value))}
						m.k[s] = k
					} else {
						m.m["?"] = &ccell{cunknown{}}
					}
				}
			case *ssa.Lookup:
				env[in] = cunknown{}
				if m, ok := get(in.X).(*cmap); ok {
					if s, ok := ckey(get(in.Index)); ok {
						v, found := m.m[s]
						var r any
						if found {
							r = v.v
						} else if !in.CommaOk {
							r = x.zero(in.Type())
						}
						if in.CommaOk {
							env[in] = []any{r, constant.MakeBool(found)}
						} else {
							env[in] = r
						}
					}
				}
			case *ssa.Extract:
				env[in] = cunknown{}
				if l, ok := get(in.Tuple).([]any); ok && in.Index < len(l) {
					env[in] = l[in.Index]
				}
			case *ssa.UnOp:
				env[in] = cunknown{}
				v := get(in.X)
				if in.Op == token.MUL {
					if c, ok := v.(*ccell); ok && c != nil {
						env[in] = ccopy(c.v)
					}
				} else if c, ok := v.(constant.Value); ok {
					env[in] = constant.UnaryOp(in.Op, c, 0)
				}
			case *ssa.BinOp:
				env[in] = cunknown{}
				a, ok1 := get(in.X).(constant.Value)
				c, ok2 := get(in.Y).(constant.Value)
				if ok1 && ok2 {
					env[in] = cbin(in.Op, a, c)
				}
			case *ssa.Convert:
				env[in] = get(in.X)
				if isStringT(in.Type()) != isStringT(in.X.Type()) {
					env[in] = cunknown{}
				}
			case *ssa.ChangeType:
				env[in] = get(in.X)
			case *ssa.ChangeInterface:
				env[in] = get(in.X)
			case *ssa.MakeInterface:
				env[in] = get(in.X)
			case *ssa.MakeClosure:
				env[in] = in.Fn
			case *ssa.Call:
				env[in] = cunknown{}
				if bi, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "len":
						switch y := get(in.Call.Args[0]).(type) {
						case *cslice:
							env[in] = constant.MakeInt64(int64(len(y.e)))
						case []*ccell:
							env[in] = constant.MakeInt64(int64(len(y)))
						case *cmap:
							env[in] = constant.MakeInt64(int64(len(y.m)))
						case constant.Value:
							if y.Kind() == constant.String {
								env[in] = constant.MakeInt64(int64(len(constant.StringVal(y))))
							}
						}
					case "append":
						var l []*ccell
						ok := true
						for _, a := range in.Call.Args {
							switch y := get(a).(type) {
							case *cslice:
								l = append(l, y.e...)
							case nil:
							default:
								ok = false
							}
						}
						if ok {
							env[in] = &cslice{l}
						}
					}
					break
				}
				g, _ := get(in.Call.Value).(*ssa.Function)
				if g == nil || g.Blocks == nil || !inModFn(g) || fnRel(g) != fnRel(f) {
					break // another package's initialiser, or a library function
				}
				var as []any
				for _, a := range in.Call.Args {
					as = append(as, ccopy(get(a)))
				}
				env[in] = x.run(g, as, depth+1)
			case *ssa.If:
				c, ok := get(in.Cond).(constant.Value)
				if !ok || c.Kind() != constant.Bool {
					// the guard of the initialiser
					if u, ok := in.Cond.(*ssa.UnOp); ok {
						if g, ok := u.X.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$") {
							next = b.Succs[1]
							break
						}
					}
					return cunknown{}
				}
				if constant.BoolVal(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				if len(in.Results) == 1 {
					return get(in.Results[0])
				}
				var l []any
				for _, r := range in.Results {
					l = append(l, get(r))
				}
				return l
			default:
				if v, ok := in.(ssa.Value); ok {
					env[v] = cunknown{}
				}
			}
		}
		if next == nil {
			return cunknown{}
		}
		prev, b = b, next
	}
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func cbin(op token.Token, a, b constant.Value) (r any) {
	defer func() {
		if recover() != nil {
			r = cunknown{}
		}
	}()
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.MakeBool(constant.Compare(a, op, b))
	case token.SHL, token.SHR:
		n, _ := constant.Uint64Val(b)
		return constant.Shift(a, op, uint(n))
	case token.QUO:
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			op = token.QUO_ASSIGN
		}
	}
	return constant.BinaryOp(a, op, b)
}

// enumNames: value -> name of the constants of a named integer type of the module; a value with
// several names gets the first one in alphabetical order.
func (p *Prog) enumNames(t types.Type) map[string]string {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inMod(n.Obj().Pkg()) {
		return nil
	}
	out := map[string]string{}
	sc := n.Obj().Pkg().Scope()
	for _, name := range sc.Names() {
		c, ok := sc.Lookup(name).(*types.Const)
		if ok && types.Identical(c.Type(), n) {
			k := c.Val().ExactString()
			if _, ok := out[k]; !ok {
				out[k] = name
			}
		}
	}
	return out
}

// text renders a constant value of type t canonically.
func (x *cprop) text(v any, t types.Type, depth int) any {
	switch y := v.(type) {
	case constant.Value:
		if y.Kind() == constant.String {
			return constant.StringVal(y)
		}
		if y.Kind() == constant.Bool {
			return constant.BoolVal(y)
		}
		if nm, ok := x.p.enumNames(t)[y.ExactString()]; ok {
			return nm
		}
		return y.ExactString()
	case *ccell:
		if y == nil || depth > 4 {
			return nil
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			return x.text(y.v, p.Elem(), depth+1)
		}
		return "?"
	case []*ccell:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			m := map[string]any{}
			for i, e := range y {
				m[u.Field(i).Name()] = x.text(e.v, u.Field(i).Type(), depth+1)
			}
			return m
		case *types.Array:
			l := []any{}
			for _, e := range y {
				l = append(l, x.text(e.v, u.Elem(), depth+1))
			}
			return l
		}
	case *cslice:
		u, ok := t.Underlying().(*types.Slice)
		if !ok {
			return "?"
		}
		l := []any{}
		for _, e := range y.e {
			l = append(l, x.text(e.v, u.Elem(), depth+1))
		}
		return l
	case *cmap:
		u, ok := t.Underlying().(*types.Map)
		if !ok {
			return "?"
		}
		m := map[string]any{}
		for s, e := range y.m {
			k := s
			if kv, ok := y.k[s]; ok {
				k = fmt.Sprint(x.text(kv, u.Key(), depth+1))
			}
			m[k] = x.text(e.v, u.Elem(), depth+1)
		}
		return m
	case *ssa.Function:
		return "func " + y.Name()
	case nil:
		return nil
	}
	return "?"
}

func (x *cprop) table(name string) (any, bool) {
	g, ok := x.pkg.Members[name].(*ssa.Global)
	if !ok {
		return nil, false
	}
	return x.text(x.glob[g].v, g.Type().(*types.Pointer).Elem(), 0), true
}

// enums: for every integer type of the package with range markers (X_BEGIN, X_END), the constants
// between them; for every type whose constants are single bits, the constants that share a bit.
func enums(p *Prog, pkg string) map[string]any {
	out := map[string]any{}
	tp := p.Pkgs[pkg].Types
	type kv struct {
		n string
		v int64
	}
	by := map[string][]kv{}
	for _, name := range tp.Scope().Names() {
		c, ok := tp.Scope().Lookup(name).(*types.Const)
		if !ok || c.Val().Kind() != constant.Int {
			continue
		}
		n, ok := types.Unalias(c.Type()).(*types.Named)
		if !ok {
			continue
		}
		v, ok := constant.Int64Val(c.Val())
		if ok {
			by[n.Obj().Name()] = append(by[n.Obj().Name()], kv{name, v})
		}
	}
	for t, l := range by {
		sort.Slice(l, func(i, j int) bool { return l[i].v < l[j].v || l[i].v == l[j].v && l[i].n < l[j].n })
		seq := []string{}
		for _, e := range l {
			seq = append(seq, e.n)
		}
		at := map[string]int64{}
		for _, e := range l {
			at[e.n] = e.v
		}
		m := map[string]any{}
		for _, b := range l {
			if !strings.HasSuffix(b.n, "_BEGIN") {
				continue
			}
			end, ok := at[strings.TrimSuffix(b.n, "_BEGIN")+"_END"]
			if !ok {
				continue
			}
			in := []string{}
			for _, e := range l {
				if e.v > b.v && e.v < end {
					in = append(in, e.n)
				}
			}
			sort.Strings(in)
			m[b.n] = in
		}
		same := []string{}
		for i := 1; i < len(l); i++ {
			if l[i].v == l[i-1].v {
				same = append(same, l[i-1].n+" = "+l[i].n)
			}
		}
		m["equal"] = same
		bits, multi := 0, []string{}
		for _, e := range l {
			if e.v != 0 && e.v&(e.v-1) == 0 {
				bits++
			} else if e.v != 0 {
				multi = append(multi, e.n)
			}
		}
		if bits*2 > len(l) && len(l) > 4 {
			m["not one bit"] = multi
		}
		out[t] = m
		_ = seq
	}
	return out
}

// dataTables: the tables each property relies on.
var dataTables = []struct{ pkg, name string }{
	{"ecma/parser", "TokenKinds"}, {"ecma/parser", "Keywords"}, {"ecma/parser", "CtxKeywords"}, {"ecma/parser", "StrictKeywords"},
	{"ecma/parser", "prohibitedNames"}, {"ecma/parser", "builtinTyp"}, {"ecma/parser", "modifiers"}, {"ecma/parser", "nodetypeStrings"},
	{"ecma/parser", "HTMLEntities"}, {"ecma/parser", "HTMLEntityNames"}, {"ecma/parser", "MaxHTMLEntityName"},
}

// findTable: the global of the given name, or, when it was renamed, the global of the same
// type that shares most entries with the reviewed table.
func (x *cprop) findTable(name string, want any) (any, *ssa.Global) {
	if x.pkg == nil {
		return nil, nil
	}
	if v, ok := x.table(name); ok {
		return v, x.pkg.Members[name].(*ssa.Global)
	}
	wf := map[string]string{}
	flatten("", want, wf)
	var best any
	var bg *ssa.Global
	bn := len(wf) / 2
	for n, m := range x.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		v, _ := x.table(n)
		f := map[string]string{}
		flatten("", v, f)
		c := 0
		for k, t := range wf {
			if f[k] == t {
				c++
			}
		}
		if c > bn {
			best, bg, bn = v, g, c
		}
	}
	return best, bg
}

func flatten(pre string, v any, out map[string]string) {
	switch y := v.(type) {
	case map[string]any:
		for k, e := range y {
			flatten(pre+"."+k, e, out)
		}
		if len(y) == 0 {
			out[pre] = "{}"
		}
	case []any:
		all := true
		for _, e := range y {
			if _, ok := e.(string); !ok {
				all = false
			}
		}
		if all {
			l := make([]string, len(y))
			for i, e := range y {
				l[i] = e.(string)
			}
			out[pre] = strings.Join(l, " ")
			return
		}
		for i, e := range y {
			flatten(fmt.Sprintf("%s[%d]", pre, i), e, out)
		}
	case []string:
		out[pre] = strings.Join(y, " ")
	case nil:
		out[pre] = "nil"
	default:
		out[pre] = fmt.Sprint(y)
	}
}

// tokenTable: the rows of the token table by token, precedences as ranks (only their order
// matters), and whether each row stands at the index of its token.
func (x *cprop) tokenTable(v any) any {
	l, ok := v.([]any)
	if !ok {
		return v
	}
	idx := map[string]string{}
	for _, n := range x.pkg.Pkg.Scope().Names() {
		if c, ok := x.pkg.Pkg.Scope().Lookup(n).(*types.Const); ok {
			idx[n] = c.Val().ExactString()
		}
	}
	pc := map[int]bool{}
	for _, e := range l {
		if m, ok := e.(map[string]any); ok {
			n, _ := strconv.Atoi(fmt.Sprint(m["Pcd"]))
			pc[n] = true
		}
	}
	var ps []int
	for n := range pc {
		ps = append(ps, n)
	}
	sort.Ints(ps)
	out := map[string]any{}
	for i, e := range l {
		m, ok := e.(map[string]any)
		if !ok {
			out[fmt.Sprintf("row %d", i)] = e
			continue
		}
		n, _ := strconv.Atoi(fmt.Sprint(m["Pcd"]))
		m["Pcd"] = fmt.Sprint(sort.SearchInts(ps, n))
		name := fmt.Sprint(m["Value"])
		m["at its index"] = idx[name] == fmt.Sprint(i)
		out[name] = m
	}
	return out
}

type dataSet struct {
	v   map[string]any
	at  map[string]string
	cp  map[string]*cprop
	has map[string]bool
}

func mineData(p *Prog, want map[string]any) *dataSet {
	out := &dataSet{map[string]any{}, map[string]string{}, map[string]*cprop{}, map[string]bool{}}
	for _, d := range dataTables {
		if out.cp[d.pkg] == nil {
			out.cp[d.pkg] = newCprop(p, d.pkg)
		}
		x := out.cp[d.pkg]
		k := d.pkg + "." + d.name
		v, g := x.findTable(d.name, want[k])
		if g == nil {
			continue
		}
		if d.name == "TokenKinds" {
			v = x.tokenTable(v)
		}
		out.v[k] = v
		out.at[k] = relPos(p, g.Pos())
	}
	for _, pk := range []string{"ecma/parser", "ecma/analysis", "ecma/walk", "span"} {
		if p.Pkgs[pk] == nil {
			continue
		}
		for t, m := range enums(p, pk) {
			k := "enum " + pk + "." + t
			out.v[k] = m
			if o := p.Pkgs[pk].Types.Scope().Lookup(t); o != nil {
				out.at[k] = relPos(p, o.Pos())
			}
		}
	}
	return out
}

func relPos(p *Prog, pos token.Pos) string {
	q := p.Fset.Position(pos)
	f := q.Filename
	if r, err := filepath.Rel(repoRoot(), f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func readData() map[string]any {
	m := map[string]any{}
	b, err := os.ReadFile(filepath.Join(verifRoot(), "spec", "data.json"))
	if err == nil {
		json.Unmarshal(b, &m)
	}
	return m
}

// dataCheck compares the entries of the constant tables whose path matches re.
func dataCheck(c *Ctx, re string) {
	rx := regexp.MustCompile(re)
	want := readData()
	have := mineData(c.P, want)
	for _, k := range sortedKeys(want) {
		wf, hf := map[string]string{}, map[string]string{}
		flatten(k, want[k], wf)
		sel := false
		for e := range wf {
			sel = sel || rx.MatchString(e)
		}
		if !sel {
			continue
		}
		v, ok := have.v[k]
		if !ok {
			c.bad("data|"+k, "-", "the table %s can no longer be found, so what it says cannot be decided", k)
			continue
		}
		flatten(k, v, hf)
		for _, e := range sortedKeys(wf) {
			if !rx.MatchString(e) {
				continue
			}
			c.count("table entries", 1)
			if h, ok := hf[e]; !ok {
				c.bad("data|"+e, have.at[k], "%s: the entry %q is missing", e, wf[e])
			} else if h != wf[e] {
				c.bad("data|"+e, have.at[k], "%s is %q, not %q", e, h, wf[e])
			}
		}
		for _, e := range sortedKeys(hf) {
			if _, ok := wf[e]; !ok && rx.MatchString(e) {
				c.bad("data|"+e, have.at[k], "%s: new entry %q, not in the reviewed table", e, hf[e])
			}
		}
	}
}

func init() {
	debugCmds["data"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		m := mineData(p, readData()).v
		if len(args) > 0 && args[0] == "mine" {
			b, _ := json.MarshalIndent(m, "", " ")
			os.WriteFile(filepath.Join(verifRoot(), "spec", "data.json"), append(b, '\n'), 0o644)
			return
		}
		for _, k := range sortedKeys(m) {
			b, _ := json.Marshal(m[k])
			s := string(b)
			if len(s) > 300 {
				s = s[:300]
			}
			fmt.Println(k, len(b), s)
		}
	}
}
