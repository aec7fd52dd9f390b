package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lock discipline. A guarded field may be read only while the lock of its owner is held, and
// changed (itself or what it refers to) only while it is held for writing; every function leaves
// the lock as it found it. The state of the lock is followed through each function; a function
// that is only called from inside the module starts with what all its callers hold.

type guard struct {
	pkg, typ string // owner of the lock; the lock is its field of type sync.Mutex or sync.RWMutex
	lock     string
}

// Every container (map, list, ordered map) the owner holds is guarded, and so are the fields of
// the module's own structs kept in such a container.
var guards = []guard{
	{pkg: "parseutil", typ: "ParseCache"},
	{pkg: "util", typ: "LruCache"},
	{pkg: "util", typ: "DirWalker"},
}

type lockState uint8

const (
	lsTop   lockState = iota // not reached yet
	lsNone                   // not held
	lsRead                   // held for reading
	lsWrite                  // held for writing
	lsMixed                  // held on some paths only
)

func (s lockState) String() string {
	return [...]string{"unreached", "not held", "held for reading", "held", "held on some paths only"}[s]
}

func meetLock(a, b lockState) lockState {
	switch {
	case a == lsTop:
		return b
	case b == lsTop || a == b:
		return a
	case a == lsMixed || b == lsMixed || a == lsNone || b == lsNone:
		return lsMixed
	}
	return lsRead
}

type locker struct {
	c      *Ctx
	e      *effects
	g      guard
	owner  string
	fields map[string]bool
	entry  map[*ssa.Function]lockState
	out    map[*ssa.Function]lockState // state on return, as far as seen
	called map[*ssa.Function]bool
}

// structOf: package-relative name of the struct a pointer or value is of.
func structOf(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		return relPkg(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	return ""
}

func (l *locker) guarded(t types.Type, i int) string {
	st, ok := t.Underlying().(*types.Struct)
	if p, ok2 := t.Underlying().(*types.Pointer); ok2 {
		st, ok = p.Elem().Underlying().(*types.Struct)
	}
	if !ok {
		return ""
	}
	k := structOf(t) + "." + st.Field(i).Name()
	if l.fields[k] {
		return k
	}
	return ""
}

// lockOp: the operation a call performs on the lock of the guard ("" if none).
func (l *locker) lockOp(c *ssa.CallCommon) string {
	g := c.StaticCallee()
	if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "sync" || len(c.Args) == 0 {
		return ""
	}
	fa, ok := c.Args[0].(*ssa.FieldAddr)
	if !ok || structOf(fa.X.Type()) != l.owner {
		return ""
	}
	st := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if st.Field(fa.Field).Name() != l.g.lock {
		return ""
	}
	return g.Name()
}

func (l *locker) apply(s lockState, op string, f *ssa.Function, at ssa.Instruction) lockState {
	want := func(x lockState, to lockState) lockState {
		if s != x && s != lsTop {
			l.c.bad("lock|"+l.owner+"|"+op+"|"+fnQual(f), l.c.P.pos(at.Pos()), "%s: %s of %s.%s while it is %s", fnQual(f), op, l.owner, l.g.lock, s)
		}
		return to
	}
	switch op {
	case "Lock":
		return want(lsNone, lsWrite)
	case "RLock":
		return want(lsNone, lsRead)
	case "Unlock":
		return want(lsWrite, lsNone)
	case "RUnlock":
		return want(lsRead, lsNone)
	}
	return s
}

// fresh: the object was made by this function (not yet known to others).
func freshObj(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return freshObj(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !freshObj(e) {
				return false
			}
		}
		return true
	}
	return false
}

// run follows the lock through f from its entry state; report tells of violations.
func (l *locker) run(f *ssa.Function, report bool) (lockState, bool) {
	in := map[*ssa.BasicBlock]lockState{f.Blocks[0]: l.entry[f]}
	var defers []string
	deferred := map[string]int{}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if d, ok := i.(*ssa.Defer); ok {
				if op := l.lockOp(&d.Call); op != "" {
					defers = append(defers, op)
					deferred[op]++
				}
			}
		}
	}
	ret := lsTop
	changed := false
	todo := []*ssa.BasicBlock{f.Blocks[0]}
	seen := map[*ssa.BasicBlock]bool{}
	acc := map[ssa.Instruction]lockState{}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		seen[b] = true
		s := in[b]
		for _, i := range b.Instrs {
			acc[i] = meetLock(acc[i], s)
			switch x := i.(type) {
			case *ssa.Call:
				if op := l.lockOp(&x.Call); op != "" {
					s = l.applyQ(s, op, f, i, report)
				} else if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && inModFn(g) && s != lsTop {
					if l.hand(g, s) {
						changed = true
					}
					if o := l.out[g]; o != lsTop && o != l.entry[g] && l.entry[g] == s {
						s = o
					}
				}
			case *ssa.RunDefers:
				for _, op := range defers {
					s = l.applyQ(s, op, f, i, report)
				}
			case *ssa.Go:
				if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil {
					changed = l.hand(g, lsNone) || changed
				}
				if mc, ok := x.Call.Value.(*ssa.MakeClosure); ok {
					changed = l.hand(mc.Fn.(*ssa.Function), lsNone) || changed
				}
			case *ssa.Return:
				ret = meetLock(ret, s)
			}
		}
		for _, n := range b.Succs {
			m := meetLock(in[n], s)
			if m != in[n] || !seen[n] {
				in[n] = m
				todo = append(todo, n)
			}
		}
	}
	if report {
		l.report(f, acc)
		if ret != lsTop && ret != l.entry[f] && len(l.callersOf(f)) == 0 {
			l.c.bad("leaves|"+l.owner+"|"+fnQual(f), l.c.P.pos(f.Pos()), "%s returns with %s.%s %s, entered with it %s", fnQual(f), l.owner, l.g.lock, ret, l.entry[f])
		}
	}
	if l.out[f] != ret {
		l.out[f] = ret
		changed = true
	}
	return ret, changed
}

func (l *locker) applyQ(s lockState, op string, f *ssa.Function, at ssa.Instruction, report bool) lockState {
	if report {
		l.c.count("lock operations", 1)
		return l.apply(s, op, f, at)
	}
	switch op {
	case "Lock":
		return lsWrite
	case "RLock":
		return lsRead
	}
	return lsNone
}

// hand: a caller enters g with the lock in state s.
func (l *locker) hand(g *ssa.Function, s lockState) bool {
	if isExportedFn(g) {
		s = meetLock(s, lsNone)
	}
	n := meetLock(l.entry[g], s)
	if n == l.entry[g] {
		return false
	}
	l.entry[g] = n
	return true
}

func isExportedFn(f *ssa.Function) bool {
	o := f.Object()
	return f.Parent() == nil && o != nil && o.Exported()
}

func (l *locker) callersOf(f *ssa.Function) (out []ssa.Instruction) {
	for _, g := range l.e.p.All {
		for _, b := range g.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
					out = append(out, i)
				}
			}
		}
	}
	return out
}

func (l *locker) report(f *ssa.Function, acc map[ssa.Instruction]lockState) {
	need := func(k string, at ssa.Instruction, write bool, what string) {
		l.c.count("guarded accesses", 1)
		s := acc[at]
		if s == lsTop || s == lsWrite || s == lsRead && !write {
			return
		}
		l.c.bad("access|"+k+"|"+fnQual(f), l.c.P.pos(at.Pos()), "%s %s %s while %s.%s is %s", fnQual(f), what, k, l.owner, l.g.lock, s)
	}
	// uses of what was loaded from a guarded field
	var use func(v ssa.Value, k string, depth int)
	use = func(v ssa.Value, k string, depth int) {
		if depth > 4 || v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.MapUpdate:
				if x.Map == v {
					need(k, x, true, "changes the map")
				}
			case *ssa.Lookup, *ssa.Range, *ssa.Next:
				need(k, x, false, "reads")
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					need(k, x, bi.Name() == "delete" || bi.Name() == "clear", bi.Name()+" of")
					continue
				}
				write := false
				for _, g := range l.e.callees(&x.Call) {
					args := callArgs(&x.Call, g)
					for i, a := range args {
						if a != v {
							continue
						}
						if g.Blocks == nil {
							for _, j := range extMut(g) {
								write = write || i == j
							}
						} else if _, ok := l.e.muts[g][root{i: i}]; ok {
							write = true
						}
					}
				}
				need(k, x, write, "calls a method of")
			case *ssa.FieldAddr:
				for _, w := range *x.Referrers() {
					switch y := w.(type) {
					case *ssa.UnOp:
						need(k, y, false, "reads")
						if l.e.isRefType(y.Type()) {
							use(y, k, depth+1)
						}
					case *ssa.Store:
						if y.Addr == x {
							need(k, y, true, "changes")
						}
					}
				}
			case *ssa.Phi, *ssa.Extract:
				use(x.(ssa.Value), k, depth+1)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			fa, ok := i.(*ssa.FieldAddr)
			if !ok {
				continue
			}
			k := l.guarded(fa.X.Type(), fa.Field)
			if k == "" || freshBefore(fa) {
				continue
			}
			for _, u := range *fa.Referrers() {
				switch x := u.(type) {
				case *ssa.UnOp:
					need(k, x, false, "reads")
					use(x, k, 0)
				case *ssa.Store:
					if x.Addr == fa {
						need(k, x, true, "changes")
					}
				default:
					need(k, u, true, "takes the address of")
				}
			}
		}
	}
}

// freshBefore: the field belongs to an object this function has just made (a composite literal being filled).
func freshBefore(fa *ssa.FieldAddr) bool { return freshObj(fa.X) }

func lockCheck(c *Ctx, only ...string) {
	e := newEffects(c.P)
	for _, g := range guards {
		if !oneOf(g.typ, only...) {
			continue
		}
		l := &locker{c: c, e: e, g: g, owner: g.pkg + "." + g.typ, fields: map[string]bool{}, entry: map[*ssa.Function]lockState{}, out: map[*ssa.Function]lockState{}}
		if !l.resolve() {
			continue
		}
		var fs []*ssa.Function
		for _, f := range c.P.All {
			if fnRel(f) == g.pkg && !isInit(f) && f.Blocks != nil {
				fs = append(fs, f)
			}
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, f := range fs {
			if isExportedFn(f) || len(l.callersOf(f)) == 0 {
				l.entry[f] = lsNone
			}
		}
		for n := 0; n < 10; n++ {
			ch := false
			for _, f := range fs {
				if _, x := l.run(f, false); x {
					ch = true
				}
			}
			if !ch {
				break
			}
		}
		for _, f := range fs {
			if f.Parent() != nil && l.entry[f] == lsTop {
				l.entry[f] = lsNone
			}
			l.run(f, true)
		}
	}
}

// resolve finds the lock and the guarded fields by their types.
func (l *locker) resolve() bool {
	pk := l.c.P.SPkgs[l.g.pkg]
	if pk == nil || pk.Type(l.g.typ) == nil {
		l.c.bad("guard|"+l.owner, "-", "%s cannot be resolved", l.owner)
		return false
	}
	st, ok := pk.Type(l.g.typ).Type().Underlying().(*types.Struct)
	if !ok {
		l.c.bad("guard|"+l.owner, "-", "%s is not a struct", l.owner)
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		t := f.Type()
		switch structOf(t) {
		case "sync.Mutex", "sync.RWMutex":
			l.g.lock = f.Name()
			continue
		case "container/list.List", "util.OrderedMap":
			l.fields[l.owner+"."+f.Name()] = true
			continue
		}
		if m, ok := t.Underlying().(*types.Map); ok {
			l.fields[l.owner+"."+f.Name()] = true
			if n := structOf(m.Elem()); strings.HasPrefix(n, l.g.pkg+".") {
				pt := m.Elem()
				if p, ok := pt.Underlying().(*types.Pointer); ok {
					pt = p.Elem()
				}
				if es, ok := pt.Underlying().(*types.Struct); ok {
					for j := 0; j < es.NumFields(); j++ {
						l.fields[n+"."+es.Field(j).Name()] = true
					}
				}
			}
		}
	}
	if l.g.lock == "" || len(l.fields) == 0 {
		l.c.bad("guard|"+l.owner, "-", "%s has no lock or nothing to guard", l.owner)
		return false
	}
	l.c.count("guarded fields", len(l.fields))
	return true
}

func init() {
	debugCmds["locks"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		c := &Ctx{P: p, Prop: "?", Counts: map[string]int{}}
		lockCheck(c, "ParseCache", "LruCache", "DirWalker")
		for _, f := range c.Findings {
			fmt.Println(f.At, f.Key, f.Msg)
		}
		fmt.Println(c.Counts)
	}
}
