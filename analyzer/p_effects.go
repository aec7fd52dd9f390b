package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effects: which memory a function may change, by where the memory is reachable from. A root is a
// package-level variable, a parameter (receiver included), a captured variable, or something made
// by the function itself ("fresh"). Memory reached through a root belongs to it; a struct field that
// may hold memory of a package-level variable hands it on wherever the field is read.
type effects struct {
	p      *Prog
	roots  map[ssa.Value]rootSet
	busy   map[ssa.Value]bool
	rets   map[retKey]rootSet // roots of what it returns
	muts   map[*ssa.Function]map[root]mutSite
	fields map[string]map[*ssa.Global]bool
	refs   map[*ssa.Global]bool // the variable reaches memory that could be changed
	impls  map[string][]*ssa.Function
	dyn    map[string][]*ssa.Function // functions used as values, by signature
	stale  bool
}

type root struct {
	g *ssa.Global
	i int // parameter i, or captured variable -1-i; valid if g == nil
}

type rootSet map[root]bool

type retKey struct {
	f *ssa.Function
	i int
}

type mutSite struct {
	at   ssa.Instruction
	what string
}

func (e *effects) isRefType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if e.isRefType(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return e.isRefType(u.Elem())
	}
	return false
}

func newEffects(p *Prog) *effects {
	e := &effects{p: p, roots: map[ssa.Value]rootSet{}, busy: map[ssa.Value]bool{}, rets: map[retKey]rootSet{}, muts: map[*ssa.Function]map[root]mutSite{},
		fields: map[string]map[*ssa.Global]bool{}, refs: map[*ssa.Global]bool{}, impls: map[string][]*ssa.Function{}, dyn: map[string][]*ssa.Function{}}
	for _, f := range p.All {
		if f.Signature.Recv() != nil && f.Parent() == nil {
			e.impls[f.Name()] = append(e.impls[f.Name()], f)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok && *op != callee && g.Blocks != nil {
						k := g.Signature.String()
						e.dyn[k] = append(e.dyn[k], g)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					g := mc.Fn.(*ssa.Function)
					k := g.Signature.String()
					e.dyn[k] = append(e.dyn[k], g)
				}
			}
		}
	}
	for round := 0; round < 12; round++ {
		e.stale = false
		e.roots = map[ssa.Value]rootSet{}
		for _, f := range p.All {
			e.scan(f)
		}
		if !e.stale {
			break
		}
	}
	return e
}

func isInit(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func (e *effects) rootsOf(v ssa.Value) rootSet {
	if s, ok := e.roots[v]; ok {
		return s
	}
	if e.busy[v] {
		return nil
	}
	e.busy[v] = true
	s := rootSet{}
	add := func(o rootSet) {
		for r := range o {
			s[r] = true
		}
	}
	switch v := v.(type) {
	case *ssa.Global:
		if !isErrorType(v.Type().(*types.Pointer).Elem()) { // what errors.New makes never changes
			s[root{g: v}] = true
		}
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				s[root{i: i}] = true
			}
		}
	case *ssa.FreeVar:
		for i, p := range v.Parent().FreeVars {
			if p == v {
				s[root{i: -1 - i}] = true
			}
		}
	case *ssa.Alloc: // what a local variable holds
		if v.Referrers() != nil {
			for _, r := range *v.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == v && e.isRefType(st.Val.Type()) {
					add(e.rootsOf(st.Val))
				}
			}
		}
	case *ssa.FieldAddr:
		add(e.rootsOf(v.X))
		for g := range e.fields[fieldKey(v.X.Type(), v.Field)] {
			s[root{g: g}] = true
		}
	case *ssa.Field:
		add(e.rootsOf(v.X))
		for g := range e.fields[fieldKey(v.X.Type(), v.Field)] {
			s[root{g: g}] = true
		}
	case *ssa.IndexAddr:
		add(e.rootsOf(v.X))
	case *ssa.Index:
		add(e.rootsOf(v.X))
	case *ssa.Lookup:
		add(e.rootsOf(v.X))
	case *ssa.UnOp:
		if v.Op == token.MUL {
			add(e.rootsOf(v.X))
		}
	case *ssa.Slice:
		add(e.rootsOf(v.X))
	case *ssa.ChangeType:
		add(e.rootsOf(v.X))
	case *ssa.ChangeInterface:
		add(e.rootsOf(v.X))
	case *ssa.MakeInterface:
		add(e.rootsOf(v.X))
	case *ssa.TypeAssert:
		add(e.rootsOf(v.X))
	case *ssa.Convert:
		add(e.rootsOf(v.X))
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			add(e.result(c, v.Index))
		} else {
			add(e.rootsOf(v.Tuple))
		}
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			add(e.rootsOf(r.X))
		}
	case *ssa.Phi:
		for _, x := range v.Edges {
			add(e.rootsOf(x))
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				for i, a := range v.Call.Args {
					if sl, ok := a.Type().Underlying().(*types.Slice); i > 0 && (!ok || !e.isRefType(sl.Elem())) {
						continue // elements are copied
					}
					add(e.rootsOf(a))
				}
			}
			break
		}
		add(e.result(v, 0))
	}
	delete(e.busy, v)
	if !e.isRefType(v.Type()) {
		if _, ok := v.Type().(*types.Tuple); !ok {
			s = nil
		}
	}
	if len(e.busy) == 0 {
		e.roots[v] = s
	}
	return s
}

// result: the roots of one result of a call.
func (e *effects) result(v *ssa.Call, i int) rootSet {
	s := rootSet{}
	for _, g := range e.callees(&v.Call) {
		args := callArgs(&v.Call, g)
		for r := range e.rets[retKey{g, i}] {
			switch {
			case r.g != nil:
				s[r] = true
			case r.i >= 0 && r.i < len(args):
				for x := range e.rootsOf(args[r.i]) {
					s[x] = true
				}
			}
		}
	}
	if g := v.Call.StaticCallee(); g != nil && g.Blocks == nil && strings.HasPrefix(g.String(), "(*container/list.") && len(v.Call.Args) > 0 {
		for x := range e.rootsOf(v.Call.Args[0]) {
			s[x] = true
		}
	}
	return s
}

func fieldKey(t types.Type, i int) string { return fieldName(t, i) }

// callArgs: the arguments as the callee numbers its parameters.
func callArgs(c *ssa.CallCommon, g *ssa.Function) []ssa.Value {
	if c.IsInvoke() {
		return append([]ssa.Value{c.Value}, c.Args...)
	}
	return c.Args
}

func (e *effects) callees(c *ssa.CallCommon) []*ssa.Function {
	if g := c.StaticCallee(); g != nil {
		if g.Blocks == nil && g.Origin() != nil {
			g = g.Origin()
		}
		return []*ssa.Function{g}
	}
	if c.IsInvoke() {
		it, ok := c.Value.Type().Underlying().(*types.Interface)
		var out []*ssa.Function
		for _, f := range e.impls[c.Method.Name()] {
			if ok && types.Implements(f.Signature.Recv().Type(), it) {
				out = append(out, f)
			}
		}
		return out
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	return e.dyn[c.Signature().String()]
}

// extMut: which arguments a function outside the module changes.
func extMut(g *ssa.Function) []int {
	s := g.String()
	switch {
	case strings.HasPrefix(s, "(*container/list.List)."):
		switch g.Name() {
		case "Front", "Back", "Len":
			return nil
		}
		return []int{0}
	case strings.HasPrefix(s, "(*strings.Builder).Write"), strings.HasPrefix(s, "(*bytes.Buffer).Write"), strings.HasPrefix(s, "(*math/big.Float).Set"), strings.HasPrefix(s, "(*math/big.Int).Set"):
		return []int{0}
	case strings.HasPrefix(s, "sort."):
		return []int{0}
	case s == "encoding/json.Unmarshal":
		return []int{1}
	case strings.HasPrefix(s, "(*sync"), strings.HasPrefix(s, "(*bytes.Buffer)"), strings.HasPrefix(s, "(*strings.Builder)"), strings.HasPrefix(s, "(*container/"), strings.HasPrefix(s, "(*math/rand"), strings.HasPrefix(s, "(*math/big."):
		if strings.HasPrefix(g.Name(), "Read") || oneOf(g.Name(), "Len", "String", "Bytes", "Cap", "Cmp", "Sign", "Int64", "Uint64", "Float64", "Text", "IsInt64", "IsInt", "Front", "Back", "Next", "Prev") {
			return nil
		}
		return []int{0}
	case s == "encoding/json.Indent":
		return []int{0}
	}
	return nil
}

func (e *effects) scan(f *ssa.Function) {
	mark := func(s rootSet, at ssa.Instruction, what string) {
		for r := range s {
			m := e.muts[f]
			if m == nil {
				m = map[root]mutSite{}
				e.muts[f] = m
			}
			if _, ok := m[r]; !ok {
				m[r] = mutSite{at, what}
				e.stale = true
			}
		}
	}
	keep := func(v ssa.Value, into ssa.Value) { // v becomes reachable from the address into
		if !e.isRefType(v.Type()) {
			return
		}
		fresh := isFreshRef(v)
		for r := range e.rootsOf(v) {
			if r.g == nil {
				continue
			}
			for x := into; x != nil; {
				switch y := x.(type) {
				case *ssa.FieldAddr:
					k := fieldKey(y.X.Type(), y.Field)
					if e.fields[k] == nil {
						e.fields[k] = map[*ssa.Global]bool{}
					}
					if !e.fields[k][r.g] {
						e.fields[k][r.g] = true
						e.stale = true
					}
					x = nil
				case *ssa.IndexAddr:
					x = y.X
				case *ssa.UnOp:
					x = y.X
				default:
					x = nil
				}
			}
		}
		for r := range e.addrRoots(into) {
			if r.g != nil && fresh && !e.refs[r.g] {
				e.refs[r.g] = true
				e.stale = true
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); ok {
					break
				}
				s := rootSet{}
				for r := range e.addrRoots(in.Addr) {
					s[r] = true
				}
				mark(s, in, "assigns to "+addrText(in.Addr))
				keep(in.Val, in.Addr)
			case *ssa.MapUpdate:
				mark(e.rootsOf(in.Map), in, "changes a map")
				keep(in.Value, in.Map)
			case ssa.CallInstruction:
				c := in.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append": // may write behind the end of the list it is given
						s := rootSet{}
						for r := range e.rootsOf(c.Args[0]) {
							if r.g != nil {
								s[r] = true
							}
						}
						mark(s, in, "appends to it")
					case "delete", "copy", "clear":
						mark(e.rootsOf(c.Args[0]), in, bi.Name()+"s from or to it")
					}
					break
				}
				for _, g := range e.callees(c) {
					args := callArgs(c, g)
					if g.Blocks == nil {
						for _, i := range extMut(g) {
							if i < len(args) {
								mark(e.rootsOf(args[i]), in, "passes it to "+g.String())
							}
						}
						continue
					}
					for r := range e.muts[g] {
						switch {
						case r.g != nil:
						case r.i >= 0 && r.i < len(args):
							mark(e.rootsOf(args[r.i]), in, "passes it to "+g.String())
						case r.i < 0:
							if mc, ok := c.Value.(*ssa.MakeClosure); ok && -1-r.i < len(mc.Bindings) {
								mark(e.rootsOf(mc.Bindings[-1-r.i]), in, "captured by "+g.Name())
							}
						}
					}
				}
			case *ssa.MakeClosure:
				g := in.Fn.(*ssa.Function)
				for r := range e.muts[g] {
					if r.g == nil && r.i < 0 && -1-r.i < len(in.Bindings) {
						mark(e.rootsOf(in.Bindings[-1-r.i]), in, "captured by "+g.Name())
					}
				}
			case *ssa.Return:
				for i, v := range in.Results {
					s := e.rets[retKey{f, i}]
					if s == nil {
						s = rootSet{}
						e.rets[retKey{f, i}] = s
					}
					for r := range e.rootsOf(v) {
						if !s[r] {
							s[r] = true
							e.stale = true
						}
					}
				}
			}
		}
	}
}

// isFreshRef: a value that brings memory of its own.
func isFreshRef(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.MakeClosure:
		return false
	case *ssa.MakeInterface:
		return isFreshRef(v.X)
	case *ssa.ChangeType:
		return isFreshRef(v.X)
	case *ssa.UnOp:
		if al, ok := v.X.(*ssa.Alloc); ok { // an empty composite literal
			for _, r := range *al.Referrers() {
				if _, ok := r.(*ssa.UnOp); !ok {
					return true
				}
			}
			return false
		}
	}
	return true
}

// addrRoots: the roots of the memory an address lies in. An address within a local variable is not
// memory of what the variable holds.
func (e *effects) addrRoots(a ssa.Value) rootSet {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return nil
		}
		switch x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return e.addrRoots(x.X)
		}
		return e.rootsOf(x.X)
	case *ssa.IndexAddr:
		if _, ok := x.X.(*ssa.Alloc); ok {
			return nil
		}
		switch x.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				return e.addrRoots(x.X)
			}
		}
		return e.rootsOf(x.X)
	case *ssa.Alloc:
		return nil
	}
	return e.rootsOf(a)
}

func addrText(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return fieldName(x.X.Type(), x.Field)
	case *ssa.IndexAddr:
		return addrText(x.X) + "[]"
	case *ssa.Global:
		return x.Name()
	case *ssa.UnOp:
		return addrText(x.X)
	}
	return typeShort(a.Type())
}

func sortedSites(m map[root]mutSite) []root {
	var rs []root
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool {
		a, b := rs[i], rs[j]
		if (a.g == nil) != (b.g == nil) {
			return a.g != nil
		}
		if a.g != nil {
			return a.g.String() < b.g.String()
		}
		return a.i < b.i
	})
	return rs
}

func init() {
	debugCmds["effects"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		e := newEffects(p)
		for _, f := range p.All {
			if isInit(f) {
				continue
			}
			for _, r := range sortedSites(e.muts[f]) {
				if r.g != nil {
					fmt.Println(p.pos(e.muts[f][r].at.Pos()), f.String(), "mutates", r.g, e.muts[f][r].what, "refs", e.refs[r.g])
				}
			}
		}
		for _, k := range sortedKeys(e.fields) {
			for g := range e.fields[k] {
				fmt.Println("field", k, "may hold", g)
			}
		}
	}
	debugCmds["nodemut"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		e := newEffects(p)
		for _, m := range e.nodeMuts() {
			fmt.Println(p.pos(m.at.Pos()), fnQual(m.at.Parent()), m.what)
		}
	}
	debugCmds["maprange"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		for _, f := range p.All {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if r, ok := in.(*ssa.Range); ok {
						if _, ok := r.X.Type().Underlying().(*types.Map); ok {
							fmt.Println(p.pos(in.Pos()), fnRel(f))
						}
					}
				}
			}
		}
	}
	debugCmds["ext"] = func(args []string) { // functions outside the module each package calls
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		for _, f := range p.All {
			for _, x := range extCalls(f) {
				fmt.Println(fnRel(f), x.name)
			}
		}
	}
}

type extCall struct {
	name string
	at   ssa.Instruction
}

// extCalls: what f calls outside the module.
func extCalls(f *ssa.Function) (out []extCall) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok && g.Pkg != nil && !inMod(g.Pkg.Pkg) {
					out = append(out, extCall{g.String(), in})
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				if pk := c.Common().Method.Pkg(); pk != nil && !inMod(pk) {
					out = append(out, extCall{"I:" + c.Common().Method.FullName(), in})
				}
			}
		}
	}
	return out
}

// nodeMuts: where code outside the parser changes memory of the parser's types that it did not make itself.
func (e *effects) nodeMuts() (out []mutSite) {
	parserStruct := func(t types.Type) string {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && (relPkg(n.Obj().Pkg()) == "ecma/parser" || relPkg(n.Obj().Pkg()) == "span") {
			return n.Obj().Name()
		}
		return ""
	}
	for _, f := range e.p.All {
		if f.Pkg == nil || isInit(f) || oneOf(relPkg(f.Pkg.Pkg), "ecma/parser", "span") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					if n := e.inParser(in.Addr, parserStruct); n != "" && len(e.addrRoots(in.Addr)) > 0 {
						out = append(out, mutSite{in, "assigns to " + n})
					}
				case *ssa.MapUpdate:
					if n := e.inParser(in.Map, parserStruct); n != "" {
						out = append(out, mutSite{in, "changes the map " + n})
					}
				case ssa.CallInstruction:
					c := in.Common()
					for _, g := range e.callees(c) {
						if g.Pkg == nil || !oneOf(relPkg(g.Pkg.Pkg), "ecma/parser", "span") {
							continue
						}
						args := callArgs(c, g)
						for r := range e.muts[g] {
							if r.g == nil && r.i >= 0 && r.i < len(args) && len(e.rootsOf(args[r.i])) > 0 {
								out = append(out, mutSite{in, "calls " + fnQual(g) + " which changes its " + parserStruct(g.Params[r.i].Type())})
							}
						}
					}
				}
			}
		}
	}
	return out
}

// inParser: the field of a parser struct an address lies in.
func (e *effects) inParser(a ssa.Value, parserStruct func(types.Type) string) string {
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			if n := parserStruct(x.X.Type()); n != "" {
				return fieldName(x.X.Type(), x.Field)
			}
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		case *ssa.UnOp:
			a = x.X
		case *ssa.Slice:
			a = x.X
		default:
			return parserStruct(a.Type())
		}
	}
}
