package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kinds returns the syntax-tree node kinds declared by the parser (name -> value), excluding the
// range markers.
func (p *Prog) kinds() map[string]int64 {
	out := map[string]int64{}
	pk := p.Pkgs["ecma/parser"]
	if pk == nil {
		return out
	}
	sc := pk.Types.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		nt, ok := c.Type().(*types.Named)
		if !ok || nt.Obj().Name() != "NodeType" {
			continue
		}
		v, _ := constant.Int64Val(c.Val())
		out[n] = v
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// nodeStructs returns the parser's concrete syntax-tree structs: those whose pointer implements Node.
func (p *Prog) nodeStructs() map[string]*types.Struct {
	out := map[string]*types.Struct{}
	pk := p.Pkgs["ecma/parser"]
	if pk == nil {
		return out
	}
	node, _ := pk.Types.Scope().Lookup("Node").Type().Underlying().(*types.Interface)
	if node == nil {
		return out
	}
	for _, n := range pk.Types.Scope().Names() {
		tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), node) {
			out[n] = s
		}
	}
	return out
}

func recvNamed(f *ssa.Function) *types.Named {
	if f == nil || f.Signature.Recv() == nil {
		return nil
	}
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func fnRel(f *ssa.Function) string {
	if f == nil {
		return ""
	}
	if f.Pkg != nil {
		return relPkg(f.Pkg.Pkg)
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return relPkg(f.Origin().Pkg.Pkg)
	}
	if o := f.Object(); o != nil {
		return relPkg(o.Pkg())
	}
	return ""
}

func fnQual(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(shortFn(f.String()), "(*", "(*")
}
