package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// kindNames maps a NodeType value to its declared name (parser kinds plus the walker's events).
func (p *Prog) kindNames() map[string]string {
	out := map[string]string{}
	for n, v := range p.kinds() {
		out[fmt.Sprint(v)] = n
	}
	return out
}

// producers computes, from the parser's own source, which structs the parser builds for each node
// kind: every value that can flow into the kind field of a syntax-tree struct, followed through
// parameters to the call sites, plus structs whose Type method returns a constant.
type producer struct {
	Kinds   map[string]map[string]token.Pos // kind name -> struct -> a site
	Unknown []string
}

func (p *Prog) producers() *producer {
	pr := &producer{Kinds: map[string]map[string]token.Pos{}}
	names := p.kindNames()
	structs := p.nodeStructs()
	add := func(v string, s string, at token.Pos) {
		k := names[v]
		if k == "" {
			k = "#" + v
		}
		if pr.Kinds[k] == nil {
			pr.Kinds[k] = map[string]token.Pos{}
		}
		if _, ok := pr.Kinds[k][s]; !ok {
			pr.Kinds[k][s] = at
		}
	}
	// which field does Type() return?
	typField := map[string]string{}
	for _, s := range sortedKeys(structs) {
		f := p.fn("ecma/parser", s+".Type")
		if f == nil || f.Blocks == nil {
			pr.Unknown = append(pr.Unknown, s+".Type")
			continue
		}
		ip := &Interp{P: p}
		for _, o := range ip.Run(f, []*Term{mk("param", "n")}) {
			if len(o.rets) != 1 {
				continue
			}
			r := o.rets[0]
			switch {
			case r.isConst():
				add(r.Str, s, f.Pos())
			case r.Op == "field" && r.Args[0].Op == "param":
				typField[s] = r.Str[len(s)+1:]
			case r.Op == "field":
				// embedded
				typField[s] = "@" + r.Str
			default:
				pr.Unknown = append(pr.Unknown, s+".Type = "+r.key)
			}
		}
	}
	callers := map[*ssa.Function][]ssa.CallInstruction{}
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g] = append(callers[g], c)
					}
				}
			}
		}
	}
	seen := map[string]bool{}
	var flow func(v ssa.Value, s string, depth int)
	flow = func(v ssa.Value, s string, depth int) {
		k := fmt.Sprintf("%p|%s", v, s)
		if seen[k] || depth > 8 {
			return
		}
		seen[k] = true
		switch v := v.(type) {
		case *ssa.Const:
			add(constTerm(v).Str, s, v.Pos())
		case *ssa.Phi:
			for _, e := range v.Edges {
				flow(e, s, depth)
			}
		case *ssa.ChangeType:
			flow(v.X, s, depth)
		case *ssa.Convert:
			flow(v.X, s, depth)
		case *ssa.Parameter:
			idx := -1
			for i, q := range v.Parent().Params {
				if q == v {
					idx = i
				}
			}
			for _, c := range callers[v.Parent()] {
				if idx >= 0 && idx < len(c.Common().Args) {
					flow(c.Common().Args[idx], s, depth+1)
				}
			}
		case *ssa.UnOp:
			if fa, ok := v.X.(*ssa.FieldAddr); ok {
				if fieldName(fa.X.Type(), fa.Field) == s+"."+typField[s] {
					return // copied from another node of the same struct
				}
			}
			pr.Unknown = append(pr.Unknown, s+" from load in "+v.Parent().Name())
		case *ssa.Call:
			if g := v.Call.StaticCallee(); g != nil && g.Blocks != nil && inMod(g.Pkg.Pkg) {
				for _, b := range g.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
						flow(r.Results[0], s, depth+1)
					}
				}
				return
			}
			if v.Call.IsInvoke() && v.Call.Method.Name() == "Type" {
				return
			}
			pr.Unknown = append(pr.Unknown, s+" from call in "+v.Parent().Name())
		case *ssa.Extract:
			if lk, ok := v.Tuple.(*ssa.Lookup); ok {
				if g := p.globalMapValues(lk.X); g != nil {
					for _, x := range g {
						flow(x, s, depth+1)
					}
					return
				}
			}
			if c, ok := v.Tuple.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil && inMod(g.Pkg.Pkg) {
					for _, b := range g.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && v.Index < len(r.Results) {
							flow(r.Results[v.Index], s, depth+1)
						}
					}
				}
				return
			}
			pr.Unknown = append(pr.Unknown, s+" from tuple in "+v.Parent().Name())
		case *ssa.Lookup:
			if g := p.globalMapValues(v.X); g != nil {
				for _, x := range g {
					flow(x, s, depth+1)
				}
				return
			}
			pr.Unknown = append(pr.Unknown, s+" from lookup in "+v.Parent().Name())
		default:
			pr.Unknown = append(pr.Unknown, fmt.Sprintf("%s from %T in %s", s, v, v.Parent().Name()))
		}
	}
	for _, f := range p.All {
		if fnRel(f) != "ecma/parser" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				t := fa.X.Type().Underlying().(*types.Pointer).Elem()
				n, ok := t.(*types.Named)
				if !ok {
					continue
				}
				s := n.Obj().Name()
				if typField[s] == "" || fieldName(fa.X.Type(), fa.Field) != s+"."+typField[s] {
					continue
				}
				flow(st.Val, s, 0)
			}
		}
	}
	sort.Strings(pr.Unknown)
	return pr
}

func init() {
	debugCmds["producers"] = func(args []string) {
		p, err := load(false, "./ecma/...", "./span", "./util")
		if err != nil {
			panic(err)
		}
		pr := p.producers()
		for _, k := range sortedKeys(p.kinds()) {
			fmt.Println(k, sortedKeys(pr.Kinds[k]))
		}
		fmt.Println(pr.Unknown)
	}
}

// globalMapValues returns the values a package-level map literal is initialised with.
func (p *Prog) globalMapValues(m ssa.Value) []ssa.Value {
	u, ok := m.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	ini := g.Pkg.Func("init")
	var maps []ssa.Value
	var out []ssa.Value
	for _, b := range ini.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == g {
				maps = append(maps, st.Val)
			}
		}
	}
	for _, mv := range maps {
		for _, r := range *mv.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				out = append(out, mu.Value)
			}
		}
	}
	return out
}

// kindsOfType: the node kinds for which an assertion of a node to a struct succeeds, if each of them
// is built as that struct only.
func (d *descr) kindsOfType(ta *ssa.TypeAssert) []string {
	pt, ok := ta.AssertedType.(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := pt.Elem().(*types.Named)
	if !ok || n.Obj().Pkg() == nil || relPkg(n.Obj().Pkg()) != "ecma/parser" {
		return nil
	}
	if it, ok := ta.X.Type().(*types.Named); !ok || it.Obj().Name() != "Node" {
		return nil
	}
	if d.kindsOf == nil {
		d.kindsOf = map[string][]string{}
		bad := map[string]bool{}
		pr := d.p.producers()
		for k, m := range pr.Kinds {
			for s := range m {
				d.kindsOf[s] = append(d.kindsOf[s], k)
				if len(m) > 1 || k[0] == '#' {
					bad[s] = true
				}
			}
		}
		for s := range d.kindsOf {
			if bad[s] || len(d.kindsOf[s]) > 6 {
				delete(d.kindsOf, s)
			}
			sort.Strings(d.kindsOf[s])
		}
	}
	return d.kindsOf[n.Obj().Name()]
}
