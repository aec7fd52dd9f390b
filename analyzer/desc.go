package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Canonical descriptions of SSA values and of the conditions a program point depends on.
// Functions listed in the reviewed table are opaque; functions that are not (helpers extracted
// since) are looked through, so moving code into a helper does not change a description.

type descr struct {
	unroll  map[ssa.Value]bool
	p       *Prog
	pkgs    map[string]bool
	known   map[string]bool           // nil: every function is known (mining)
	novel   map[[2]*ssa.Function]bool // calls of plain functions the reviewed caller did not make
	alias   map[string]string         // current name -> reviewed name
	fields  map[string]string         // current Struct.field -> reviewed
	cds     map[*ssa.Function]*cdInfo
	callers map[*ssa.Function][]ssa.CallInstruction
	consts  map[string]map[string]string
	triv    map[*ssa.Function]int
	preds   map[*ssa.Function]int
	kindsOf map[string][]string    // node struct -> the kinds that are it and nothing else
	refs    map[*ssa.Function]bool // used as a value
	advs    [nDom]map[*ssa.Function]bool
	vers    map[verKey]*verInfo
	marks   map[storedMark]bool
	sccs    map[*ssa.Function]map[ssa.Value][]ssa.Value
	valRefs map[*ssa.Function][]valRef
	ov      *verOv
	pick    map[pickKey]int // choices decided while a text is made
	open    *pickKey        // the first undecided choice met
	openOn  bool
	openCx  *dctx
	inPick  map[pickKey]bool // choices whose conditions are being made
	uni     map[string]string
	flag    func(c []ssa.Value, cx *dctx) string // the text of a boolean carried round a loop
}

// pickKey: a choice between values: a phi, or the returns of a looked-through helper.
type pickKey struct {
	v  ssa.Value
	cx string
	i  int // result of the helper the choice is about (0, or the error result)
}

// chosen: the alternative a choice is decided for, or -1 (then it is noted as undecided).
func (d *descr) chosen(v ssa.Value, i int, cx *dctx) int {
	if d.pick == nil && !d.openOn {
		return -1
	}
	k := pickKey{v, cxKey(cx), i}
	if i, ok := d.pick[k]; ok {
		return i
	}
	if d.openOn && d.open == nil && !d.inPick[k] {
		d.open, d.openCx = &k, cx
	}
	return -1
}

// noPick makes texts of sets as sets.
func (d *descr) noPick(f func() string) string {
	p, o, on := d.pick, d.open, d.openOn
	d.pick, d.open, d.openOn = nil, nil, false
	s := f()
	d.pick, d.open, d.openOn = p, o, on
	return s
}

// verOv: describe versions as of the head of a loop when they are those of the edge into it.
type verOv struct {
	head, pred *ssa.BasicBlock
	at         map[ssa.Value]*ssa.Phi // likewise values carried round the loop
}

// valRef: a place where a function is used as a value; recv is the receiver of a method value.
type valRef struct {
	at   ssa.Instruction
	v    ssa.Value
	recv ssa.Value
}

type dctx struct {
	fn     *ssa.Function
	args   []ssa.Value
	parent *dctx
	call   ssa.CallInstruction
}

func newDescr(p *Prog, pkgs ...string) *descr {
	d := &descr{p: p, inPick: map[pickKey]bool{}, pkgs: map[string]bool{}, cds: map[*ssa.Function]*cdInfo{}, callers: map[*ssa.Function][]ssa.CallInstruction{},
		consts: map[string]map[string]string{}, triv: map[*ssa.Function]int{}, preds: map[*ssa.Function]int{}, refs: map[*ssa.Function]bool{},
		vers: map[verKey]*verInfo{}, marks: map[storedMark]bool{}, sccs: map[*ssa.Function]map[ssa.Value][]ssa.Value{}, valRefs: map[*ssa.Function][]valRef{}}
	for _, k := range pkgs {
		d.pkgs[k] = true
	}
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if isCall {
					if c := ci.Common().StaticCallee(); c != nil {
						d.callers[c] = append(d.callers[c], ci)
					}
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if isCall && ci.Common().Value == f {
							continue
						}
						d.refs[f] = true
						d.addValRef(f, in)
					}
				}
			}
		}
	}
	return d
}

func (d *descr) addValRef(f *ssa.Function, in ssa.Instruction) {
	r := valRef{at: in, v: f}
	if mc, ok := in.(*ssa.MakeClosure); ok {
		r.v = mc
		if strings.HasPrefix(f.Synthetic, "bound method wrapper") && len(mc.Bindings) == 1 {
			if obj, ok := f.Object().(*types.Func); ok {
				if m := f.Prog.FuncValue(obj); m != nil {
					r.recv = mc.Bindings[0]
					d.refs[m] = true
					f = m
				}
			}
		}
	}
	d.valRefs[f] = append(d.valRefs[f], r)
}

// asValue: the one place where an unreviewed function is used, when it is used as a value only: it
// is then treated as if it were written there.
func (d *descr) asValue(f *ssa.Function) *valRef {
	if d.isKnown(f) || f.Parent() != nil || len(d.callers[f]) > 0 || len(d.valRefs[f]) != 1 {
		for _, c := range d.callers[f] {
			if c.Parent().Synthetic == "" {
				return nil
			}
		}
		if d.isKnown(f) || f.Parent() != nil || len(d.valRefs[f]) != 1 {
			return nil
		}
	}
	return &d.valRefs[f][0]
}

// handler: what a function value is registered for (the constant arguments beside it).
func (d *descr) handler(f *ssa.Function) string {
	var refs []valRef
	if f.Parent() != nil {
		refs = d.valRefs[f]
	} else if r := d.asValue(f); r != nil {
		refs = []valRef{*r}
	}
	if len(refs) != 1 {
		return ""
	}
	v := refs[0].v
	var uses []ssa.Instruction
	if _, isF := v.(*ssa.Function); isF {
		uses = []ssa.Instruction{refs[0].at}
	} else {
		uses = *v.Referrers()
	}
	for i := 0; i < 3; i++ {
		if len(uses) != 1 {
			return ""
		}
		if ct, ok := uses[0].(*ssa.ChangeType); ok {
			v, uses = ct, *ct.Referrers()
		}
	}
	if len(uses) != 1 {
		return ""
	}
	c, ok := uses[0].(*ssa.Call)
	if !ok {
		return ""
	}
	var s []string
	for _, a := range c.Call.Args {
		if a == v {
			continue
		}
		if k, ok := a.(*ssa.Call); ok && len(k.Call.Args) > 0 {
			all := true
			for _, x := range k.Call.Args {
				if _, ok := x.(*ssa.Const); !ok {
					all = false
				}
			}
			if all {
				s = append(s, d.str(a, nil))
			}
		}
	}
	if len(s) == 0 {
		return ""
	}
	return "[" + strings.Join(s, ",") + "] "
}

func (d *descr) names() []string {
	m := map[string]bool{}
	for _, f := range d.p.All {
		if d.pkgs[fnRel(f)] && f.Parent() == nil {
			m[d.rawName(f)] = true
		}
	}
	return setList(m)
}

func (d *descr) rawName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if n := recvNamed(f); n != nil {
		return n.Obj().Name() + "." + f.Name()
	}
	return f.Name()
}

func (d *descr) name(f *ssa.Function) string {
	n := d.rawName(f)
	if a, ok := d.alias[n]; ok {
		return a
	}
	return n
}

// sigOf characterises a function for rename inference.
func (d *descr) sigOf(f *ssa.Function) string {
	anon := func(t *types.Tuple) *types.Tuple {
		var vs []*types.Var
		for i := 0; i < t.Len(); i++ {
			vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
		}
		return types.NewTuple(vs...)
	}
	s := typeShort(types.NewSignatureType(nil, nil, nil, anon(f.Signature.Params()), anon(f.Signature.Results()), f.Signature.Variadic()))
	if n := recvNamed(f); n != nil {
		s += " on " + n.Obj().Name()
	}
	var cs []string
	m := map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if c := ci.Common().StaticCallee(); c != nil && c != f {
					m[d.rawName(c)] = true
				}
			}
		}
	}
	cs = setList(m)
	return s + " :: " + strings.Join(cs, ",")
}

func (d *descr) sigs() map[string]string {
	out := map[string]string{}
	for _, f := range d.p.All {
		if d.pkgs[fnRel(f)] && f.Parent() == nil && f.Synthetic == "" {
			out[d.rawName(f)] = d.sigOf(f)
		}
	}
	return out
}

// useKnown installs the reviewed function list and infers renames: a vanished function whose
// signature and callees match exactly one new function.
func (d *descr) useKnown(sigs map[string]string) {
	d.known = map[string]bool{}
	d.alias = map[string]string{}
	cur := d.sigs()
	var gone, fresh []string
	for n := range sigs {
		d.known[n] = true
		if _, ok := cur[n]; !ok {
			gone = append(gone, n)
		}
	}
	for n := range cur {
		if _, ok := sigs[n]; !ok {
			fresh = append(fresh, n)
		}
	}
	sort.Strings(gone)
	sort.Strings(fresh)
	// Callees renamed too are compared under their reviewed names, so matching goes in rounds, the
	// closest pairs first.
	for round := 0; round < 6; round++ {
		type pair struct {
			g, f string
			j    float64
		}
		var ps []pair
		taken := map[string]bool{}
		for _, g := range d.alias {
			taken[g] = true
		}
		for _, g := range gone {
			if taken[g] {
				continue
			}
			gs, gc, _ := strings.Cut(sigs[g], " :: ")
			a := toSet(strings.Split(gc, ","))
			for _, f := range fresh {
				fs, fc, _ := strings.Cut(cur[f], " :: ")
				if fs != gs || d.alias[f] != "" {
					continue
				}
				b := map[string]bool{}
				for _, x := range strings.Split(fc, ",") {
					if y := d.alias[x]; y != "" {
						x = y
					}
					b[x] = true
				}
				in := 0
				for x := range a {
					if b[x] {
						in++
					}
				}
				j := float64(in) / float64(len(a)+len(b)-in)
				if strings.Contains(strings.ToLower(f), strings.ToLower(g)) {
					j += 0.3
				}
				if j >= 0.6 {
					ps = append(ps, pair{g, f, j})
				}
			}
		}
		if len(ps) == 0 {
			break
		}
		sort.SliceStable(ps, func(i, j int) bool { return ps[i].j > ps[j].j })
		for i, p := range ps {
			if d.alias[p.f] == "" && !taken[p.g] && (p.j >= 0.9 || i == 0 || p.j == ps[0].j) {
				d.alias[p.f], taken[p.g] = p.g, true
			}
		}
	}
}

func (d *descr) isKnown(f *ssa.Function) bool {
	if f == nil || !d.pkgs[fnRel(f)] {
		return true
	}
	if f.Parent() != nil {
		return false
	}
	if d.known == nil {
		return true
	}
	return d.known[d.name(f)]
}

// knownAt: whether a call is taken as one step: the reviewed table names its callee, and the caller
// (if the table has it) is known to call it. A call newly made by a reviewed function to a plain one
// is looked through like any extracted helper.
func (d *descr) knownAt(f *ssa.Function, call *ssa.Call) bool {
	return d.isKnown(f) && (call == nil || !d.novel[[2]*ssa.Function{call.Parent(), f}])
}

// trivial: a single-block function without effects, inlined always.
func (d *descr) trivial(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !d.pkgs[fnRel(f)] {
		return false
	}
	switch d.triv[f] {
	case 1:
		return true
	case 2:
		return false
	}
	d.triv[f] = 2
	if len(f.Blocks) != 1 {
		return false
	}
	for _, in := range f.Blocks[0].Instrs {
		switch in := in.(type) {
		case *ssa.FieldAddr, *ssa.Field, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.DebugRef, *ssa.Extract:
		case *ssa.TypeAssert:
		case *ssa.UnOp:
			if in.Op == token.ARROW {
				return false
			}
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			if !d.trivial(in.Call.StaticCallee()) {
				return false
			}
		case *ssa.Return:
			if len(in.Results) != 1 {
				return false
			}
		default:
			return false
		}
	}
	d.triv[f] = 1
	return true
}

// pred: a loop-free test that only reads, inlined into conditions always.
func (d *descr) pred(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() != 1 {
		return false
	}
	if bt, ok := rs.At(0).Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
		return false
	}
	return d.readOnly(f)
}

// readOnly: loop-free, and neither stores nor calls anything that does.
func (d *descr) readOnly(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || !d.pkgs[fnRel(f)] || f.Parent() != nil {
		return false
	}
	switch d.preds[f] {
	case 1:
		return true
	case 2:
		return false
	}
	d.preds[f] = 2
	if len(f.Blocks) > 60 || len(d.cd(f).hdr.header) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr, *ssa.Field, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.DebugRef, *ssa.Extract,
				*ssa.TypeAssert, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Return, *ssa.IndexAddr, *ssa.Index, *ssa.Lookup:
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if b, ok := in.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
					continue
				}
				if in.Call.IsInvoke() && d.uniform(in.Call.Method) != "" {
					continue
				}
				g := in.Call.StaticCallee()
				if g == nil || !d.trivial(g) && !d.pred(g) && !(g.Signature.Recv() != nil && strings.HasPrefix(g.Name(), "Peek")) && (d.isKnown(g) || !d.readOnly(g)) {
					return false
				}
			default:
				return false
			}
		}
	}
	d.preds[f] = 1
	return true
}

func (d *descr) constName(c *ssa.Const) string {
	if c.Value == nil {
		return "nil"
	}
	v := c.Value.ExactString()
	if n, ok := c.Type().(*types.Named); ok && n.Obj().Pkg() != nil && inMod(n.Obj().Pkg()) {
		key := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		m := d.consts[key]
		if m == nil {
			m = map[string]string{}
			sc := n.Obj().Pkg().Scope()
			for _, x := range sc.Names() {
				if k, ok := sc.Lookup(x).(*types.Const); ok && types.Identical(k.Type(), n) {
					kv := k.Val().ExactString()
					if o, dup := m[kv]; !dup || len(x) < len(o) || len(x) == len(o) && x < o {
						m[kv] = x
					}
				}
			}
			d.consts[key] = m
		}
		if s, ok := m[v]; ok {
			return s
		}
	}
	if c.Value.Kind() == constant.String {
		return v
	}
	return v
}

const descDepth = 40

func (d *descr) str(v ssa.Value, cx *dctx) string { return d.desc(v, cx, 0, map[ssa.Value]bool{}) }

func (d *descr) fieldOf(t types.Type, i int) string {
	q := fieldName(t, i)
	if o, ok := d.fields[q]; ok {
		q = o
	}
	return q[strings.IndexByte(q, '.')+1:]
}

func (d *descr) desc(v ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	if depth > descDepth {
		return "…"
	}
	if seen[v] {
		return "~"
	}
	if d.ov != nil {
		if u := d.ov.at[v]; u != nil && !seen[u] {
			ov := d.ov
			d.ov = nil
			t := d.desc(u, cx, depth, seen)
			d.ov = ov
			return t
		}
	}
	if in, ok := v.(ssa.Instruction); ok && in.Parent() != nil {
		c := d.cycle(in.Parent(), v)
		if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool && d.flag != nil {
			fc := c
			if ph, ok := v.(*ssa.Phi); ok && c == nil && d.cd(ph.Parent()).hdr.header[ph.Block()] {
				fc = []ssa.Value{v}
			}
			if fc != nil {
				s := d.noPick(func() string { return d.flag(fc, cx) })
				if s != "" {
					return s
				}
			}
		}
		if d.unroll[v] && !isInduction(v) { // one update of a carried value, described by itself
			seen[v] = true
			t := d.desc1(v, cx, depth, seen)
			delete(seen, v)
			return t
		}
		if c != nil && !isInduction(v) {
			return d.noPick(func() string { return d.accStr(c, cx, depth, seen) })
		}
	}
	return d.desc1(v, cx, depth, seen)
}

// accStr: a value carried round a loop, as the set of what it starts from and what updates it
// ("~" stands for the carried value itself), however the updates are spread over branches.
func (d *descr) accStr(c []ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	var mine []ssa.Value
	for _, x := range c {
		if !seen[x] {
			seen[x] = true
			mine = append(mine, x)
		}
	}
	in := map[ssa.Value]bool{}
	for _, x := range c {
		in[x] = true
	}
	m := map[string]bool{}
	for _, x := range c {
		if ph, ok := x.(*ssa.Phi); ok {
			for _, e := range ph.Edges {
				if !in[e] {
					m[d.desc(e, cx, depth+1, seen)] = true
				}
			}
			continue
		}
		if isConcat(x) && partOf(x, in) {
			continue
		}
		m[d.desc1(x, cx, depth+1, seen)] = true
	}
	for _, x := range mine {
		delete(seen, x)
	}
	flat := map[string]bool{}
	for s := range m {
		for _, p := range altParts(s) {
			if p != "~" {
				flat[p] = true
			}
		}
	}
	if len(flat) == 0 {
		return "~"
	}
	dropNil(flat, c[0].Type())
	return setStr(flat)
}

// partOf: a text only used as a piece of another one in the set.
func partOf(v ssa.Value, in map[ssa.Value]bool) bool {
	n := 0
	for _, u := range *v.Referrers() {
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		w, ok := u.(ssa.Value)
		if !ok || !isConcat(w) || !in[w] {
			return false
		}
		n++
	}
	return n > 0
}

// an accumulated list starts empty whether or not it is spelled out
func dropNil(m map[string]bool, t types.Type) {
	if _, ok := t.Underlying().(*types.Slice); ok && len(m) > 1 {
		delete(m, "nil")
	}
}

func altParts(s string) []string {
	if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") && balanced(s) {
		return splitTop(s[1:len(s)-1], '|')
	}
	return []string{s}
}

// cycle: the values of f that v depends on and that depend on v through a loop; nil if none.
func (d *descr) cycle(f *ssa.Function, v ssa.Value) []ssa.Value {
	m, ok := d.sccs[f]
	if !ok {
		m = d.valueCycles(f)
		d.sccs[f] = m
	}
	return m[v]
}

// resultDeps: the parameters the i-th result of an unreviewed helper is computed from.
func (d *descr) resultDeps(f *ssa.Function, i, depth int) map[int]bool {
	out := map[int]bool{}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if v == nil || seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Parameter); ok {
			for k, q := range f.Params {
				if q == p {
					out[k] = true
				}
			}
			return
		}
		if in, ok := v.(ssa.Instruction); ok {
			for _, w := range d.valueOps(in, depth+1) {
				rec(w)
			}
		}
	}
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			rec(r.Results[i])
		}
	}
	return out
}

// valueOps: the operands a value is computed from; a result of an unreviewed helper depends only on
// the arguments that flow into it.
func (d *descr) valueOps(in ssa.Instruction, depth int) []ssa.Value {
	var call *ssa.Call
	i := 0
	switch x := in.(type) {
	case *ssa.Call:
		call = x
	case *ssa.Extract:
		call, _ = x.Tuple.(*ssa.Call)
		i = x.Index
	}
	if call != nil && depth < 4 {
		if g := call.Call.StaticCallee(); g != nil && g.Blocks != nil && g.Parent() == nil && !d.knownAt(g, call) {
			if _, whole := in.(*ssa.Call); whole && g.Signature.Results().Len() > 1 {
				return nil
			}
			var out []ssa.Value
			for k := range d.resultDeps(g, i, depth) {
				if k < len(call.Call.Args) {
					out = append(out, call.Call.Args[k])
				}
			}
			return out
		}
	}
	var out []ssa.Value
	for _, op := range in.Operands(nil) {
		if op != nil && *op != nil {
			out = append(out, *op)
		}
	}
	return out
}

func (d *descr) valueCycles(f *ssa.Function) map[ssa.Value][]ssa.Value {
	out := map[ssa.Value][]ssa.Value{}
	idx, low, on := map[ssa.Value]int{}, map[ssa.Value]int{}, map[ssa.Value]bool{}
	var stack []ssa.Value
	n := 0
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		n++
		idx[v], low[v] = n, n
		stack = append(stack, v)
		on[v] = true
		for _, w := range d.valueOps(v.(ssa.Instruction), 0) {
			wi, ok := w.(ssa.Instruction)
			if !ok || wi.Parent() != f {
				continue
			}
			if idx[w] == 0 {
				rec(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			var c []ssa.Value
			for {
				w := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			if len(c) > 1 {
				for _, w := range c {
					out[w] = c
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && idx[v] == 0 {
				rec(v)
			}
		}
	}
	return out
}

func (d *descr) desc1(v ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	sub := func(x ssa.Value) string { return d.desc(x, cx, depth+1, seen) }
	switch v := v.(type) {
	case *ssa.Const:
		return d.constName(v)
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				if cx != nil && cx.fn == v.Parent() && i < len(cx.args) {
					return d.desc(cx.args[i], cx.parent, depth, seen)
				}
				if v.Parent().Signature.Recv() != nil {
					if r := d.asValue(v.Parent()); r != nil && r.recv != nil {
						if i == 0 {
							return d.desc(r.recv, nil, depth, seen)
						}
						i--
					} else if i == 0 {
						return "recv"
					}
				}
				return fmt.Sprintf("#%d", i)
			}
		}
		return "#?"
	case *ssa.FreeVar:
		if mc := closureOf(v.Parent()); mc != nil {
			for i, fv := range v.Parent().FreeVars {
				if fv == v && i < len(mc.Bindings) {
					return d.desc(mc.Bindings[i], nil, depth, seen)
				}
			}
		}
		return "free"
	case *ssa.Global:
		return "&" + v.Name()
	case *ssa.Function:
		return "fn:" + d.name(v)
	case *ssa.FieldAddr:
		return sub(v.X) + "." + d.fieldOf(v.X.Type(), v.Field)
	case *ssa.Field:
		return sub(v.X) + "." + d.fieldOf(v.X.Type(), v.Field)
	case *ssa.UnOp:
		switch v.Op {
		case token.MUL:
			switch a := v.X.(type) {
			case *ssa.Global:
				return a.Name()
			case *ssa.Alloc:
				if s, ok := d.loadVal(v, a, cx, depth, seen); ok {
					return s
				}
				return d.allocVal(a, cx, depth, seen)
			case *ssa.FreeVar:
				if mc := closureOf(a.Parent()); mc != nil {
					for i, fv := range a.Parent().FreeVars {
						if fv == a && i < len(mc.Bindings) {
							if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
								return d.allocVal(al, nil, depth, seen)
							}
						}
					}
				}
			case *ssa.FieldAddr:
				px, pcx := d.peel(a.X, cx)
				if al, ok := px.(*ssa.Alloc); ok {
					if s := d.allocField(al, a.Field, pcx, depth, seen); s != "" {
						return s
					}
				}
			}
			return sub(v.X)
		case token.NOT:
			return "!" + sub(v.X)
		}
		return v.Op.String() + sub(v.X)
	case *ssa.Alloc:
		return d.allocVal(v, cx, depth, seen)
	case *ssa.BinOp:
		if isInduction(v) {
			return d.inductionStr(v, cx, depth, seen)
		}
		if isConcat(v) {
			return "(" + strings.Join(d.concat(v, cx, func(x ssa.Value, cx *dctx) string {
				return d.desc(x, cx, depth, seen)
			}), "+") + ")"
		}
		x, y := sub(v.X), sub(v.Y)
		op := v.Op.String()
		switch v.Op {
		case token.EQL, token.NEQ, token.AND, token.OR, token.MUL, token.XOR:
			if y < x {
				x, y = y, x
			}
		case token.ADD:
			if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 && y < x {
				x, y = y, x
			}
		case token.GTR:
			x, y, op = y, x, "<"
		case token.GEQ:
			x, y, op = y, x, "<="
		}
		if f, ok := foldInts(x, op, y); ok {
			return f
		}
		return "(" + x + op + y + ")"
	case *ssa.ChangeType:
		return sub(v.X)
	case *ssa.ChangeInterface:
		return sub(v.X)
	case *ssa.MakeInterface:
		return sub(v.X)
	case *ssa.Convert:
		return sub(v.X)
	case *ssa.MultiConvert:
		return sub(v.X)
	case *ssa.TypeAssert:
		return sub(v.X)
	case *ssa.Phi:
		if isInduction(v) {
			return d.inductionStr(v, cx, depth, seen)
		}
		if !d.cd(v.Parent()).hdr.header[v.Block()] {
			if i := d.chosen(v, 0, cx); i >= 0 {
				seen[v] = true
				s := d.desc(v.Edges[i], cx, depth+1, seen)
				delete(seen, v)
				return s
			}
		}
		seen[v] = true
		m := map[string]bool{}
		for _, e := range v.Edges {
			s := d.desc(e, cx, depth+1, seen)
			if s != "~" {
				m[s] = true
			}
		}
		if len(m) > 1 && d.ov == nil && d.cd(v.Parent()).hdr.header[v.Block()] {
			// the same reading before the loop and at its end is a reading at its head
			h := map[string]bool{}
			for i, e := range v.Edges {
				d.ov = &verOv{head: v.Block(), pred: v.Block().Preds[i], at: map[ssa.Value]*ssa.Phi{}}
				for _, in := range v.Block().Instrs { // what the other carried values come in as
					u, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if _, isC := u.Edges[i].(*ssa.Const); u != v && !isC && u.Edges[i] != e {
						d.ov.at[u.Edges[i]] = u
					}
				}
				h[d.desc(e, cx, depth+1, seen)] = true
			}
			d.ov = nil
			if len(h) == 1 {
				m = h
			}
		}
		delete(seen, v)
		return setStr(m)
	case *ssa.Extract:
		if ta, ok := v.Tuple.(*ssa.TypeAssert); ok {
			if v.Index == 1 {
				return "is " + typeShort(ta.AssertedType) + "(" + sub(ta.X) + ")"
			}
			return sub(ta.X)
		}
		if l, ok := v.Tuple.(*ssa.Lookup); ok {
			if v.Index == 1 {
				return "has(" + sub(l.X) + "[" + sub(l.Index) + "])"
			}
			return sub(l.X) + "[" + sub(l.Index) + "]"
		}
		if n, ok := v.Tuple.(*ssa.Next); ok {
			if r, ok := n.Iter.(*ssa.Range); ok {
				return []string{"more", "key", "each"}[v.Index] + "(" + sub(r.X) + ")"
			}
		}
		if c, ok := v.Tuple.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			if f != nil && !d.knownAt(f, c) && f.Blocks != nil && depth < descDepth {
				return d.results(f, v.Index, &dctx{fn: f, args: c.Call.Args, parent: cx, call: c}, depth-1, seen)
			}
			m := map[string]bool{}
			for _, p := range altParts(sub(c)) {
				m[fmt.Sprintf("%s#%d", p, v.Index)] = true
			}
			return setStr(m)
		}
		return sub(v.Tuple) + "#" + fmt.Sprint(v.Index)
	case *ssa.Call:
		return d.callStr(v, cx, depth, seen)
	case *ssa.Lookup:
		t := sub(v.X) + "[" + sub(v.Index) + "]"
		if d.onlyTrue(v.X) {
			return "has(" + t + ")"
		}
		return t
	case *ssa.IndexAddr:
		if sl, ok := v.X.(*ssa.Slice); ok && sl.Low == nil { // an element of a prefix
			return sub(sl.X) + "[" + d.idx(v.Index, cx, depth, seen) + "]"
		}
		if p, ok := v.X.(*ssa.Parameter); ok {
			if q, qc := d.peel(p, cx); q != v.X {
				if sl, ok := q.(*ssa.Slice); ok && sl.Low == nil {
					return d.desc(sl.X, qc, depth+1, seen) + "[" + d.idx(v.Index, cx, depth, seen) + "]"
				}
			}
		}
		return sub(v.X) + "[" + d.idx(v.Index, cx, depth, seen) + "]"
	case *ssa.Index:
		return sub(v.X) + "[" + d.idx(v.Index, cx, depth, seen) + "]"
	case *ssa.Slice:
		s := sub(v.X)
		if v.Low == nil && v.High == nil {
			return s
		}
		lo, hi := "", ""
		if v.Low != nil {
			lo = sub(v.Low)
		}
		if v.High != nil {
			hi = sub(v.High)
		}
		return s + "[" + lo + ":" + hi + "]"
	case *ssa.MakeSlice:
		if src := copiedInto(v); src != nil {
			return "append([]," + sub(src) + ")"
		}
		return "make"
	case *ssa.MakeMap:
		return "makemap"
	case *ssa.MakeClosure:
		return "closure"
	}
	return fmt.Sprintf("%T", v)
}

// topLevel: the text is one call.
func topLevel(s string) bool {
	n := 0
	for i, r := range s {
		switch r {
		case '(':
			n++
		case ')':
			n--
			if n == 0 && i != len(s)-1 {
				return false
			}
		}
	}
	return n == 0
}

// joinLists: appending written-out elements to a written-out list is the longer list.
func joinLists(t string) string {
	in, ok := strings.CutPrefix(t, "append(")
	if !ok || !strings.HasSuffix(in, ")") {
		return t
	}
	ps := splitTop(in[:len(in)-1], ',')
	if len(ps) != 2 {
		return t
	}
	if ps[0] == "[][:0]" || ps[0] == "nil" {
		ps[0] = "[]"
	}
	list := func(s string) (string, bool) {
		if !strings.HasPrefix(s, "[") || !strings.HasSuffix(s, "]") {
			return "", false
		}
		n := 0
		for i := 0; i < len(s); i++ {
			switch s[i] {
			case '[':
				n++
			case ']':
				if n--; n == 0 && i != len(s)-1 {
					return "", false
				}
			}
		}
		return s[1 : len(s)-1], true
	}
	a, ok1 := list(ps[0])
	b, ok2 := list(ps[1])
	if !ok1 || !ok2 {
		return t
	}
	if a == "" || b == "" {
		return "[" + a + b + "]"
	}
	return "[" + a + "," + b + "]"
}

// foldInts: arithmetic on written-out numbers.
func foldInts(x, op, y string) (string, bool) {
	a, err1 := strconv.Atoi(x)
	b, err2 := strconv.Atoi(y)
	if err1 != nil || err2 != nil {
		return "", false
	}
	switch op {
	case "+":
		return strconv.Itoa(a + b), true
	case "-":
		return strconv.Itoa(a - b), true
	case "*":
		return strconv.Itoa(a * b), true
	}
	return "", false
}

// copiedInto: the list a fresh list of the same length is filled with as a whole.
func copiedInto(v *ssa.MakeSlice) (src ssa.Value) {
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && c.Call.Args[0] == v && c.Block() == v.Block() {
				if src != nil {
					return nil
				}
				src = c.Call.Args[1]
			}
		}
	}
	if src == nil {
		return nil
	}
	l, ok := v.Len.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := l.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	x, y := l.Call.Args[0], src
	if x == y {
		return src
	}
	u1, ok1 := x.(*ssa.UnOp) // two loads of one field
	u2, ok2 := y.(*ssa.UnOp)
	if ok1 && ok2 && u1.Block() == u2.Block() && u1.Op == token.MUL && u2.Op == token.MUL {
		f1, ok1 := u1.X.(*ssa.FieldAddr)
		f2, ok2 := u2.X.(*ssa.FieldAddr)
		if ok1 && ok2 && f1.X == f2.X && f1.Field == f2.Field {
			return src
		}
	}
	return nil
}

// onlyTrue: a local map to which nothing but true is added, so that a lookup tells membership.
func (d *descr) onlyTrue(v ssa.Value) bool {
	mm, ok := v.(*ssa.MakeMap)
	if !ok {
		return false
	}
	for _, r := range *mm.Referrers() {
		switch r := r.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.MapUpdate:
			c, ok := r.Value.(*ssa.Const)
			if !ok || c.Value == nil || c.Value.Kind() != constant.Bool || !constant.BoolVal(c.Value) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// uniform: the field that a parameterless method yields in every type of the package that has it.
func (d *descr) uniform(m *types.Func) string {
	if m == nil || m.Pkg() == nil || !inMod(m.Pkg()) {
		return ""
	}
	key := m.Pkg().Path() + "." + m.Name()
	if d.uni == nil {
		d.uni = map[string]string{}
	}
	if s, ok := d.uni[key]; ok {
		return s
	}
	field, n := "", 0
	for _, f := range d.p.All {
		if f.Name() != m.Name() || f.Synthetic != "" || f.Signature.Recv() == nil || f.Pkg == nil || f.Pkg.Pkg != m.Pkg() {
			continue
		}
		q := ""
		if len(f.Blocks) == 1 && len(f.Params) == 1 {
			if rt, ok := f.Blocks[0].Instrs[len(f.Blocks[0].Instrs)-1].(*ssa.Return); ok && len(rt.Results) == 1 {
				if ld, ok := rt.Results[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
					if fa, ok := ld.X.(*ssa.FieldAddr); ok && fa.X == f.Params[0] {
						q = d.fieldOf(fa.X.Type(), fa.Field)
					}
				}
			}
		}
		if q == "" || field != "" && field != q {
			field = ""
			n = 0
			break
		}
		field = q
		n++
	}
	if n < 3 {
		field = ""
	}
	d.uni[key] = field
	return field
}

func setStr(m map[string]bool) string {
	if len(m) == 1 {
		for s := range m {
			return s
		}
	}
	flat := map[string]bool{}
	for s := range m {
		if strings.HasPrefix(s, "{") && strings.HasSuffix(s, "}") && balanced(s) {
			for _, x := range splitTop(s[1:len(s)-1], '|') {
				flat[x] = true
			}
		} else {
			flat[s] = true
		}
	}
	l := setList(flat)
	if len(l) == 1 {
		return l[0]
	}
	return "{" + strings.Join(l, "|") + "}"
}

// balanced: the outer braces of s match each other.
func balanced(s string) bool {
	n := 0
	for i, r := range s {
		if r == '{' {
			n++
		} else if r == '}' {
			n--
			if n == 0 && i != len(s)-1 {
				return false
			}
		}
	}
	return n == 0
}

func splitTop(s string, sep byte) []string {
	var out []string
	n, from := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '{', '(', '[':
			n++
		case '}', ')', ']':
			n--
		case sep:
			if n == 0 {
				out = append(out, s[from:i])
				from = i + 1
			}
		}
	}
	return append(out, s[from:])
}

func closureOf(f *ssa.Function) *ssa.MakeClosure {
	if f.Parent() == nil {
		return nil
	}
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc
			}
		}
	}
	return nil
}

func (d *descr) idx(v ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	if c, ok := v.(*ssa.Const); ok {
		return d.constName(c)
	}
	return d.desc(v, cx, depth+1, seen)
}

// induction: a loop counter stepping by one (or its successor in range loops): its header phi,
// the values it starts from, the step, and whether the value is the successor.
func induction(v ssa.Value) (ph *ssa.Phi, inits []ssa.Value, step int, succ bool) {
	if bo, ok := v.(*ssa.BinOp); ok && bo.Op == token.ADD && isOne(bo.Y) {
		if p, ok := bo.X.(*ssa.Phi); ok {
			used := false
			for _, e := range p.Edges {
				if e == bo {
					used = true
				}
			}
			if !used {
				return nil, nil, 0, false
			}
			v, succ = p, true
		}
	}
	ph, ok := v.(*ssa.Phi)
	if !ok {
		return nil, nil, 0, false
	}
	for i, e := range ph.Edges {
		if !ph.Block().Dominates(ph.Block().Preds[i]) {
			inits = append(inits, e)
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ph || !isOne(bo.Y) || bo.Op != token.ADD && bo.Op != token.SUB {
			return nil, nil, 0, false
		}
		st := 1
		if bo.Op == token.SUB {
			st = -1
		}
		if step != 0 && step != st {
			return nil, nil, 0, false
		}
		step = st
	}
	if step == 0 || succ && step != 1 {
		return nil, nil, 0, false
	}
	return ph, inits, step, succ
}

func isOne(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Value.ExactString() == "1"
}

func isInduction(v ssa.Value) bool {
	ph, _, _, _ := induction(v)
	return ph != nil
}

func (d *descr) inductionStr(v ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	_, inits, step, succ := induction(v)
	var in []string
	for _, x := range inits {
		s := d.desc(x, cx, depth+1, seen)
		if n, err := strconv.Atoi(s); err == nil && succ {
			s = strconv.Itoa(n + 1)
		} else if succ {
			s += "+1"
		}
		in = append(in, s)
	}
	from := strings.Join(in, "|")
	switch {
	case step == 1 && from == "0":
		return "*"
	case step == 1:
		return "*from " + from
	}
	return "*down " + from
}

func (d *descr) allocVal(a *ssa.Alloc, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	if seen[a] {
		return "~"
	}
	seen[a] = true
	defer delete(seen, a)
	m := map[string]bool{}
	fields := false
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == a {
				s := d.desc(r.Val, cx, depth+1, seen)
				if s != "~" {
					m[s] = true
				}
			}
		case *ssa.FieldAddr:
			fields = fields || addrWritten(r)
		case *ssa.IndexAddr:
			fields = fields || addrWritten(r)
		case *ssa.MakeClosure:
			// stores inside closures
			f := r.Fn.(*ssa.Function)
			for i, bd := range r.Bindings {
				if bd == a {
					for _, rr := range *f.FreeVars[i].Referrers() {
						if st, ok := rr.(*ssa.Store); ok && st.Addr == f.FreeVars[i] {
							s := d.desc(st.Val, nil, depth+1, seen)
							if s != "~" {
								m[s] = true
							}
						}
					}
				}
			}
		}
	}
	el := a.Type().Underlying().(*types.Pointer).Elem()
	if _, ok := el.Underlying().(*types.Array); ok { // variadic argument list
		var parts []string
		for _, r := range *a.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				for _, rr := range *ia.Referrers() {
					if st, ok := rr.(*ssa.Store); ok {
						parts = append(parts, d.desc(st.Val, cx, depth+1, seen))
					}
				}
			}
		}
		return "[" + strings.Join(parts, ",") + "]"
	}
	if len(m) == 0 || fields {
		n := typeShort(el)
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			n = n[i+1:]
		}
		m["new "+n] = true
	}
	return setStr(m)
}

// addrWritten: something is stored at or below the address, or it is handed out.
func addrWritten(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if addrWritten(r) {
				return true
			}
		case *ssa.IndexAddr:
			if addrWritten(r) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// allocField: what is stored into a field of a local struct, here or in helpers it is handed to.
func (d *descr) allocField(a *ssa.Alloc, f int, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	if seen[a] {
		return "~"
	}
	seen[a] = true
	defer delete(seen, a)
	m := map[string]bool{}
	if !d.fieldStores(a, f, cx, depth, seen, m, 0) || len(m) == 0 {
		return ""
	}
	return setStr(m)
}

func (d *descr) fieldStores(a ssa.Value, f int, cx *dctx, depth int, seen map[ssa.Value]bool, m map[string]bool, lvl int) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.Field != f || r.X != a {
				continue
			}
			for _, rr := range *r.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == r {
					s := d.desc(st.Val, cx, depth+1, seen)
					if s != "~" {
						m[s] = true
					}
				}
			}
		case *ssa.Store:
			if r.Addr == a {
				return false
			}
		case *ssa.Call:
			g := r.Call.StaticCallee()
			if g == nil || g.Blocks == nil || d.knownAt(g, r) || g.Parent() != nil || lvl > 3 {
				return false
			}
			for i, arg := range r.Call.Args {
				if arg == a && !d.fieldStores(g.Params[i], f, &dctx{fn: g, args: r.Call.Args, parent: cx, call: r}, depth, seen, m, lvl+1) {
					return false
				}
			}
		case ssa.CallInstruction:
			return false
		}
	}
	return true
}

// loadVal: the values a load of a local variable may see (reaching stores); not decided when
// closures write the variable.
func (d *descr) loadVal(ld ssa.Instruction, a *ssa.Alloc, cx *dctx, depth int, seen map[ssa.Value]bool) (string, bool) {
	if _, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
		return "", false
	}
	stores := 0
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a {
				return "", false
			}
			stores++
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.MakeClosure:
			return "", false
		}
	}
	if stores == 0 {
		return "", false
	}
	if seen[a] {
		return "~", true
	}
	if d.loopVar(a) {
		seen[a] = true
		m := map[string]bool{}
		for _, r := range *a.Referrers() {
			if st, ok := r.(*ssa.Store); ok {
				for _, p := range altParts(d.desc(st.Val, cx, depth+1, seen)) {
					if p != "~" {
						m[p] = true
					}
				}
			}
		}
		delete(seen, a)
		dropNil(m, a.Type().Underlying().(*types.Pointer).Elem())
		return setStr(m), true
	}
	var sts []*ssa.Store
	zero := false
	vis := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, from int)
	back = func(b *ssa.BasicBlock, from int) {
		for i := from; i >= 0; i-- {
			if b.Instrs[i] == a {
				zero = true
				return
			}
			if st, ok := b.Instrs[i].(*ssa.Store); ok && st.Addr == a {
				sts = append(sts, st)
				return
			}
		}
		for _, p := range b.Preds {
			if !vis[p] {
				vis[p] = true
				back(p, len(p.Instrs)-1)
			}
		}
	}
	at := 0
	for i, in := range ld.Block().Instrs {
		if in == ld {
			at = i
		}
	}
	back(ld.Block(), at-1)
	m := map[string]bool{}
	if zero {
		m["nil"] = true
		if b, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Basic); ok {
			switch {
			case b.Info()&types.IsString != 0:
				m = map[string]bool{`""`: true}
			case b.Info()&types.IsNumeric != 0:
				m = map[string]bool{"0": true}
			case b.Info()&types.IsBoolean != 0:
				m = map[string]bool{"false": true}
			}
		}
	}
	for _, st := range sts {
		s := d.descStored(st.Val, cx, depth, seen)
		if s != "~" {
			m[s] = true
		}
	}
	if len(m) == 0 {
		return "~", true
	}
	return setStr(m), true
}

// loopVar: a local variable updated from itself inside a loop.
func (d *descr) loopVar(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		st, ok := r.(*ssa.Store)
		if !ok || st.Addr != a {
			continue
		}
		in := false
		for _, body := range d.cd(a.Parent()).hdr.body {
			if body[st.Block()] && !body[a.Block()] {
				in = true
			}
		}
		if !in {
			continue
		}
		seen := map[ssa.Value]bool{}
		var reads func(v ssa.Value) bool
		reads = func(v ssa.Value) bool {
			if v == a {
				return true
			}
			if seen[v] {
				return false
			}
			seen[v] = true
			if i, ok := v.(ssa.Instruction); ok {
				for _, w := range d.valueOps(i, 0) {
					if reads(w) {
						return true
					}
				}
			}
			return false
		}
		if reads(st.Val) {
			return true
		}
	}
	return false
}

// descStored marks a stored value while it is described, so that x = f(x) ends in "~".
func (d *descr) descStored(v ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	k := storedMark{v}
	if d.marks[k] {
		return "~"
	}
	d.marks[k] = true
	defer delete(d.marks, k)
	return d.desc(v, cx, depth+1, seen)
}

type storedMark struct{ v ssa.Value }

func (d *descr) results(f *ssa.Function, i int, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	m := map[string]bool{}
	if cxDepth(cx) > 4 {
		return "…"
	}
	rs := d.returns(f, i)
	if len(rs) > 1 && cx.call != nil {
		if v, ok := cx.call.(ssa.Value); ok {
			ri := 0
			if isErrorType(rs[0].Results[i].Type()) {
				ri = i
			}
			if k := d.chosen(v, ri, cx.parent); k >= 0 && k < len(rs) {
				return d.desc(rs[k].Results[i], cx, depth+1, seen)
			}
		}
	}
	for _, r := range rs {
		s := d.desc(r.Results[i], cx, depth+1, seen)
		if s != "~" {
			m[s] = true
		}
	}
	if len(m) == 0 {
		return "~"
	}
	return setStr(m)
}

// returns: the returns of f that give its i-th result a meaning (not those that report an error
// beside it).
func (d *descr) returns(f *ssa.Function, i int) []*ssa.Return {
	var out []*ssa.Return
	ci := d.cd(f)
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) && b != f.Recover {
			if ci.errOut[b] && !isErrorType(r.Results[i].Type()) {
				continue
			}
			out = append(out, r)
		}
	}
	return out
}

func cxDepth(cx *dctx) int {
	n := 0
	for ; cx != nil; cx = cx.parent {
		n++
	}
	return n
}

func (d *descr) callStr(c *ssa.Call, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	cc := &c.Call
	sub := func(x ssa.Value) string { return d.desc(x, cx, depth+1, seen) }
	if cc.IsInvoke() {
		if u := d.uniform(cc.Method); u != "" {
			return sub(cc.Value) + "." + u
		}
		return sub(cc.Value) + "." + cc.Method.Name() + "(" + d.args(c, cc.Args, cx, depth, seen) + ")"
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		if b.Name() == "len" {
			q, qc := d.peel(cc.Args[0], cx)
			if sl, ok := q.(*ssa.Slice); ok && sl.Low == nil && sl.High != nil {
				return d.desc(sl.High, qc, depth+1, seen)
			}
		}
		if b.Name() == "append" && len(cc.Args) == 2 {
			if q, _ := d.peel(cc.Args[0], cx); isEmptyList(q) {
				// a copy of a fresh list is as good as the list
				q, _ = d.peel(cc.Args[1], cx)
				if c2, _ := callOf(q); c2 != nil {
					return sub(cc.Args[1])
				}
			}
		}
		t := d.spread(b.Name(), c, cc.Args, cx, depth, seen)
		if b.Name() == "append" {
			m := map[string]bool{}
			for _, p := range altParts(t) {
				m[joinLists(p)] = true
			}
			return setStr(m)
		}
		return t
	}
	f := cc.StaticCallee()
	if f == nil {
		return "dyn " + sub(cc.Value) + "(" + d.args(c, cc.Args, cx, depth, seen) + ")"
	}
	if d.trivial(f) || !d.knownAt(f, c) && f.Blocks != nil && f.Signature.Results().Len() == 1 {
		r := d.results(f, 0, &dctx{fn: f, args: cc.Args, parent: cx, call: c}, depth-1, seen)
		if d.trivial(f) || r != "" {
			return r
		}
	}
	args := cc.Args
	pre := ""
	if f.Signature.Recv() != nil && len(args) == 1 {
		if o, ok := f.Object().(*types.Func); ok {
			if u := d.uniform(o); u != "" {
				return sub(args[0]) + "." + u
			}
		}
	}
	if f.Signature.Recv() != nil && len(args) > 0 {
		r := sub(args[0])
		if r != "recv" && !strings.HasPrefix(r, "recv.") {
			pre = r + "."
		}
		args = args[1:]
	}
	ver := ""
	if dom := d.domain(f); dom >= 0 && !d.trivial(f) {
		ver = d.ver(c, cx, dom)
	}
	return d.spread(pre+d.name(f)+ver, c, args, cx, depth, seen)
}

// spread: a call with a choice as argument is the choice between the calls.
func (d *descr) spread(name string, at ssa.Instruction, as []ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	l := d.argList(at, as, cx, depth, seen)
	combos := [][]string{nil}
	for _, a := range l {
		ps := altParts(a)
		if len(ps)*len(combos) > 4 || strings.Contains(a, "~") || strings.Contains(a, "…") {
			ps = []string{a}
		}
		var next [][]string
		for _, c := range combos {
			for _, p := range ps {
				next = append(next, append(append([]string{}, c...), p))
			}
		}
		combos = next
	}
	m := map[string]bool{}
	for _, c := range combos {
		m[name+"("+strings.Join(c, ",")+")"] = true
	}
	return setStr(m)
}

func isEmptyList(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Const:
		return x.Value == nil
	case *ssa.MakeSlice:
		c, ok := x.Len.(*ssa.Const)
		return ok && c.Int64() == 0
	case *ssa.Slice:
		if c, ok := x.High.(*ssa.Const); ok && c.Int64() == 0 {
			return true
		}
		if a, ok := x.X.(*ssa.Alloc); ok && x.High == nil {
			if t, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok && t.Len() == 0 {
				return true
			}
		}
	}
	return false
}

// ---- versions: how many state-advancing calls precede a call (longest forward path) ----

// A version is the number of advancing calls before a point and the number of advancing loops
// entered before it (what a call yields inside or after such a loop differs from before it).
type verNum struct{ n, k int }

func (v verNum) String() string {
	switch {
	case v.k > 0:
		return fmt.Sprintf("@%d*%d", v.n, v.k)
	case v.n > 0:
		return fmt.Sprintf("@%d", v.n)
	}
	return ""
}

type verInfo struct {
	at    map[ssa.Instruction]verNum
	out   map[*ssa.BasicBlock]verNum
	total verNum
}

// Domains of state whose readings depend on how often it was advanced before.
const (
	domInput = iota // the token stream
	domEval         // the evaluator's operand stack
	domExpr         // the pending expression blocks of a control-flow graph
	domStmt         // the pending statement blocks
	domLink         // edges already made
	nDom
)

type verKey struct {
	f   *ssa.Function
	dom int
}

func (d *descr) domSeeds() (seeds [nDom]map[*ssa.Function]bool, rd map[*ssa.Function]bool) {
	for i := range seeds {
		seeds[i] = map[*ssa.Function]bool{}
	}
	rd = map[*ssa.Function]bool{}
	for _, g := range d.p.All {
		n := recvNamed(g)
		if n == nil {
			if d.name(g) == "link" || d.name(g) == "linkEdges" {
				seeds[domLink][g] = true
			}
			continue
		}
		switch n.Obj().Name() {
		case "Source":
			if g.Name() == "advance" || g.Name() == "PopState" {
				rd[g] = true
			}
		case "Lexer":
			if d.name(g) == "Lexer.Next" || d.name(g) == "Lexer.PopState" {
				seeds[domInput][g] = true
			}
		case "ExprEvaluator":
			if d.name(g) == "ExprEvaluator.pop" {
				seeds[domEval][g] = true
			}
		case "AnalysisCtx":
			switch d.name(g) {
			case "AnalysisCtx.pushStmt", "AnalysisCtx.popStmt":
				seeds[domStmt][g] = true
			case "AnalysisCtx.pushExpr", "AnalysisCtx.popExpr":
				seeds[domExpr][g] = true
			}
		}
	}
	return
}

// domain: the state whose version a call of f carries, or -1.
func (d *descr) domain(f *ssa.Function) int {
	if !d.pkgs[fnRel(f)] {
		return -1
	}
	n := recvNamed(f)
	if n == nil {
		if d.advances(f, domLink) && d.isKnown(f) {
			return domLink
		}
		return -1
	}
	switch n.Obj().Name() {
	case "Parser", "Lexer", "Source":
		return domInput
	case "ExprEvaluator":
		if d.advances(f, domEval) {
			return domEval
		}
	case "AnalysisCtx":
		switch {
		case d.advances(f, domExpr) || d.name(f) == "AnalysisCtx.lastExpr":
			return domExpr
		case d.advances(f, domStmt) || d.name(f) == "AnalysisCtx.lastStmt":
			return domStmt
		}
	}
	return -1
}

// advances: the function may advance the state of the domain, itself or through others.
func (d *descr) advances(f *ssa.Function, dom int) bool {
	if d.advs[0] == nil {
		seeds, rd := d.domSeeds()
		close := func(m map[*ssa.Function]bool) {
			work := []*ssa.Function{}
			for g := range m {
				work = append(work, g)
			}
			for len(work) > 0 {
				g := work[0]
				work = work[1:]
				for _, c := range d.callers[g] {
					for q := c.Parent(); q != nil; q = q.Parent() {
						if !m[q] {
							m[q] = true
							work = append(work, q)
						}
					}
				}
			}
		}
		close(rd)
		for i := range seeds {
			close(seeds[i])
			d.advs[i] = seeds[i]
		}
		for g := range rd {
			if n := recvNamed(g); n != nil && (n.Obj().Name() == "Lexer" && !d.peeks(g) || n.Obj().Name() == "Source") {
				d.advs[domInput][g] = true
			}
		}
	}
	return d.advs[dom][f]
}

func (d *descr) peeks(f *ssa.Function) bool {
	return strings.HasPrefix(f.Name(), "Peek") || f.Name() == "advance"
}

func (d *descr) verOf(f *ssa.Function, dom int) *verInfo {
	if v, ok := d.vers[verKey{f, dom}]; ok {
		return v
	}
	v := &verInfo{at: map[ssa.Instruction]verNum{}, out: map[*ssa.BasicBlock]verNum{}}
	d.vers[verKey{f, dom}] = v
	step := func(i ssa.Instruction) verNum {
		if c, ok := i.(ssa.CallInstruction); ok {
			g := c.Common().StaticCallee()
			if g != nil && !d.isKnown(g) && g.Parent() == nil && g.Blocks != nil {
				return d.verOf(g, dom).total
			} else if g != nil && d.advances(g, dom) {
				return verNum{1, 0}
			}
		}
		return verNum{}
	}
	adv := map[*ssa.BasicBlock]bool{} // headers of loops that advance
	for h, body := range d.cd(f).hdr.body {
		for b := range body {
			for _, i := range b.Instrs {
				if step(i) != (verNum{}) {
					adv[h] = true
				}
			}
		}
	}
	for _, b := range rpo(f) {
		n := verNum{}
		for _, p := range b.Preds {
			if !b.Dominates(p) {
				n.n, n.k = max(n.n, v.out[p].n), max(n.k, v.out[p].k)
			}
		}
		if adv[b] {
			n.k++
		}
		for _, i := range b.Instrs {
			v.at[i] = n
			s := step(i)
			n.n, n.k = n.n+s.n, n.k+s.k
		}
		v.out[b] = n
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			v.total.n, v.total.k = max(v.total.n, n.n), max(v.total.k, n.k)
		}
	}
	return v
}

func rpo(f *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				rec(s)
			}
		}
		post = append(post, b)
	}
	if len(f.Blocks) > 0 {
		rec(f.Blocks[0])
	}
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (d *descr) ver(c ssa.Instruction, cx *dctx, dom int) string {
	vi := d.verOf(c.Parent(), dom)
	n := vi.at[c]
	if d.ov != nil && d.ov.head.Parent() == c.Parent() && n == vi.out[d.ov.pred] {
		n = vi.at[d.ov.head.Instrs[0]]
	}
	for ; cx != nil; cx = cx.parent {
		if cx.call != nil && cx.fn == c.Parent() {
			c = cx.call
			m := d.verOf(c.Parent(), dom).at[c]
			n.n, n.k = n.n+m.n, n.k+m.k
		}
	}
	return n.String()
}

func (d *descr) args(at ssa.Instruction, as []ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) string {
	return strings.Join(d.argList(at, as, cx, depth, seen), ",")
}

func (d *descr) argList(at ssa.Instruction, as []ssa.Value, cx *dctx, depth int, seen map[ssa.Value]bool) []string {
	var s []string
	for _, a := range as {
		if al, ok := a.(*ssa.Alloc); ok && !seen[al] { // the variable as it is at the call
			if _, isS := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); !isS {
				if t, ok := d.loadVal(at, al, cx, depth, seen); ok {
					s = append(s, t)
					continue
				}
			}
		}
		s = append(s, d.desc(a, cx, depth+1, seen))
	}
	return s
}

// ---- control dependence ----

type cdInfo struct {
	deps   map[*ssa.BasicBlock]map[cdEdge]bool // direct
	errOut map[*ssa.BasicBlock]bool            // every return reached from here is an error
	hdr    *loopInfo
}

type cdEdge struct {
	b *ssa.BasicBlock
	t bool
}

func (d *descr) cd(f *ssa.Function) *cdInfo {
	if c, ok := d.cds[f]; ok {
		return c
	}
	n := len(f.Blocks)
	exit := n
	succs := make([][]int, n+1)
	preds := make([][]int, n+1)
	for i, b := range f.Blocks {
		for _, s := range b.Succs {
			succs[i] = append(succs[i], s.Index)
		}
		if len(b.Succs) == 0 {
			succs[i] = append(succs[i], exit)
		}
	}
	for i := range succs {
		for _, s := range succs[i] {
			preds[s] = append(preds[s], i)
		}
	}
	// post-dominator sets (bitsets); blocks that cannot reach the exit keep the full set
	words := (n + 64) / 64
	full := make([]uint64, words)
	for i := range full {
		full[i] = ^uint64(0)
	}
	pd := make([][]uint64, n+1)
	for i := range pd {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[exit] = make([]uint64, words)
	pd[exit][exit/64] |= 1 << (exit % 64)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			nw := append([]uint64(nil), full...)
			for _, s := range succs[i] {
				for w := range nw {
					nw[w] &= pd[s][w]
				}
			}
			nw[i/64] |= 1 << (i % 64)
			for w := range nw {
				if nw[w] != pd[i][w] {
					pd[i] = nw
					ch = true
					break
				}
			}
		}
	}
	has := func(i, j int) bool { return pd[i][j/64]&(1<<(j%64)) != 0 }
	ci := &cdInfo{deps: map[*ssa.BasicBlock]map[cdEdge]bool{}, errOut: map[*ssa.BasicBlock]bool{}, hdr: loopsOf(f)}
	for i, b := range f.Blocks {
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); !ok {
			continue
		}
		for k, s := range b.Succs {
			for j, x := range f.Blocks {
				if has(s.Index, j) && !(has(i, j) && i != j) {
					if ci.deps[x] == nil {
						ci.deps[x] = map[cdEdge]bool{}
					}
					ci.deps[x][cdEdge{b, k == 0}] = true
				}
			}
		}
	}
	// error-only regions
	res := f.Signature.Results()
	if res.Len() > 0 && types.Identical(res.At(res.Len()-1).Type(), types.Universe.Lookup("error").Type()) {
		bad := map[*ssa.BasicBlock]bool{}
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if !d.nonNilErr(r.Results[len(r.Results)-1], b, 0) {
					bad[b] = true
				}
			}
		}
		for ch := true; ch; {
			ch = false
			for _, b := range f.Blocks {
				if bad[b] {
					continue
				}
				for _, s := range b.Succs {
					if bad[s] {
						bad[b] = true
						ch = true
					}
				}
			}
		}
		for _, b := range f.Blocks {
			if !bad[b] {
				ci.errOut[b] = true
			}
		}
	}
	d.cds[f] = ci
	return ci
}

// nonNilErr: the error value is certainly present when control is in b.
func (d *descr) nonNilErr(v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if depth > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		return true
	case *ssa.Call, *ssa.Extract:
		c, idx := callOf(v)
		if c == nil {
			break
		}
		f := c.Call.StaticCallee()
		if f == nil || f.Blocks == nil || d.knownAt(f, c) || f.Parent() != nil {
			break
		}
		all, any := true, false
		for _, fb := range f.Blocks {
			if r, ok := fb.Instrs[len(fb.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
				any = true
				if !d.nonNilErr(r.Results[idx], fb, depth+1) {
					all = false
				}
			}
		}
		if all && any {
			return true
		}
	case *ssa.Phi:
		all := true
		for i, e := range x.Edges {
			if !d.nonNilErr(e, x.Block().Preds[i], depth+1) && !d.nonNilErrEdge(e, x.Block().Preds[i], x.Block()) {
				all = false
				break
			}
		}
		if all {
			return true
		}
	}
	for cur := b; cur != nil; cur = cur.Idom() {
		id := cur.Idom()
		if id == nil {
			break
		}
		if ifi, ok := id.Instrs[len(id.Instrs)-1].(*ssa.If); ok {
			if bo, ok := ifi.Cond.(*ssa.BinOp); ok && nilCmp(bo, v) {
				want := id.Succs[0]
				if bo.Op == token.EQL {
					want = id.Succs[1]
				}
				if (bo.Op == token.NEQ || bo.Op == token.EQL) && want.Dominates(cur) && len(want.Preds) == 1 {
					return true
				}
			}
		}
	}
	return false
}

func (d *descr) nonNilErrEdge(v ssa.Value, pred, to *ssa.BasicBlock) bool {
	ifi, ok := pred.Instrs[len(pred.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	bo, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || !nilCmp(bo, v) {
		return false
	}
	if bo.Op == token.NEQ {
		return pred.Succs[0] == to && pred.Succs[1] != to
	}
	if bo.Op == token.EQL {
		return pred.Succs[1] == to && pred.Succs[0] != to
	}
	return false
}

func callOf(v ssa.Value) (*ssa.Call, int) {
	switch x := v.(type) {
	case *ssa.Call:
		return x, 0
	case *ssa.Extract:
		c, _ := x.Tuple.(*ssa.Call)
		return c, x.Index
	}
	return nil, 0
}

func nilCmp(bo *ssa.BinOp, v ssa.Value) bool {
	return bo.X == v && isNilConst(bo.Y) || bo.Y == v && isNilConst(bo.X)
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

func (d *descr) literal(v ssa.Value, pol bool, cx *dctx) (string, bool) {
	if bo, ok := v.(*ssa.BinOp); ok {
		if s, p, ok := d.maskTest(bo, cx); ok {
			return s, p == pol
		}
		x, y := d.str(bo.X, cx), d.str(bo.Y, cx)
		switch bo.Op {
		case token.EQL, token.NEQ:
			if bo.Op == token.NEQ {
				pol = !pol
			}
			if cx1, cy := d.isConst(bo.X, cx), d.isConst(bo.Y, cx); cx1 && !cy || cx1 == cy && y < x {
				x, y = y, x
			}
			return x + "==" + y, pol
		case token.LSS:
		case token.GEQ:
			pol = !pol
		case token.GTR:
			x, y = y, x
		case token.LEQ:
			x, y = y, x
			pol = !pol
		default:
			return d.str(v, cx), pol
		}
		if bt, ok := bo.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 && bt.Info()&types.IsUnsigned == 0 {
			// a-1 < b is a <= b; a < b+1 is a <= b
			if t, ok := strings.CutSuffix(x, "-1)"); ok && strings.HasPrefix(t, "(len(") && topLevel(t[1:]) {
				x, y, pol = y, t[1:], !pol
			} else if t, ok := strings.CutPrefix(y, "(1+"); ok && strings.HasPrefix(t, "len(") && topLevel(t[:len(t)-1]) {
				x, y, pol = t[:len(t)-1], x, !pol
			}
		}
		// integers: len(x) < 1, 0 < len(x)
		if x == "0" && strings.HasPrefix(y, "len(") {
			return y + "==0", !pol
		}
		if y == "1" && strings.HasPrefix(x, "len(") {
			return x + "==0", pol
		}
		return x + "<" + y, pol
	}
	return d.str(v, cx), pol
}

// decided: the value behind conversions, parameters and decided choices.
func (d *descr) decided(v ssa.Value, cx *dctx) (ssa.Value, *dctx) {
	for i := 0; i < 8; i++ {
		v, cx = d.peel(v, cx)
		if ph, ok := v.(*ssa.Phi); ok && d.pick != nil {
			if k, ok := d.pick[pickKey{ph, cxKey(cx), 0}]; ok {
				v = ph.Edges[k]
				continue
			}
		}
		break
	}
	return v, cx
}

// isConst: a constant, possibly through decided choices.
func (d *descr) isConst(v ssa.Value, cx *dctx) bool {
	v, _ = d.decided(v, cx)
	_, ok := v.(*ssa.Const)
	return ok
}

type mask struct {
	c    *ssa.Const
	bits uint64
}

// maskTest: a test of one bit, however it is compared.
func (d *descr) maskTest(bo *ssa.BinOp, cx *dctx) (string, bool, bool) {
	m, l, lc, pol, ok := d.maskOf(bo, cx)
	if !ok {
		return "", false, false
	}
	return d.constName(m.c) + " in " + d.str(l, lc), pol, true
}

// maskOf: the comparison asks whether some bit of a constant is set in the value (or none is).
func (d *descr) maskOf(bo *ssa.BinOp, cx *dctx) (m mask, l ssa.Value, lc *dctx, pol, ok bool) {
	x, y, op := bo.X, bo.Y, bo.Op
	if _, isK := x.(*ssa.Const); isK {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR, token.LEQ, token.GEQ:
			return
		}
	}
	k, isC := y.(*ssa.Const)
	if !isC || k.Value == nil || k.Value.Kind() != constant.Int {
		return
	}
	ma, cx := d.decided(x, cx)
	and, isAnd := ma.(*ssa.BinOp)
	if !isAnd || and.Op != token.AND {
		return
	}
	l, lc = d.decided(and.X, cx)
	r, rc := d.decided(and.Y, cx)
	if _, ok := l.(*ssa.Const); ok {
		l, r, lc, rc = r, l, rc, lc
	}
	c, isC := r.(*ssa.Const)
	if !isC || c.Value == nil || c.Value.Kind() != constant.Int {
		return
	}
	mv, ok1 := constant.Uint64Val(constant.ToInt(c.Value))
	kv, ok2 := constant.Uint64Val(constant.ToInt(k.Value))
	if !ok1 || !ok2 || mv == 0 {
		return
	}
	m = mask{c, mv}
	single := mv&(mv-1) == 0
	switch {
	case kv == 0 && (op == token.NEQ || op == token.GTR):
		return m, l, lc, true, true
	case kv == 0 && op == token.EQL:
		return m, l, lc, false, true
	case single && kv == mv && op == token.EQL:
		return m, l, lc, true, true
	case single && kv == mv && op == token.NEQ:
		return m, l, lc, false, true
	}
	return
}

func isConcat(v ssa.Value) bool {
	bo, ok := v.(*ssa.BinOp)
	if !ok || bo.Op != token.ADD {
		return false
	}
	b, ok := bo.Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// concat: the pieces of a text, however they are bracketed.
func (d *descr) concat(v ssa.Value, cx *dctx, str func(ssa.Value, *dctx) string) []string {
	if w, c := d.decided(v, cx); isConcat(w) {
		bo := w.(*ssa.BinOp)
		return append(d.concat(bo.X, c, str), d.concat(bo.Y, c, str)...)
	}
	return []string{str(v, cx)}
}

// peel resolves parameters of looked-through calls, trivial accessors and conversions.
func (d *descr) peel(v ssa.Value, cx *dctx) (ssa.Value, *dctx) {
	for i := 0; i < 8; i++ {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
			continue
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.Parameter:
			if cx != nil && cx.fn == x.Parent() {
				for i, p := range x.Parent().Params {
					if p == x && i < len(cx.args) {
						v, cx = cx.args[i], cx.parent
						break
					}
				}
				continue
			}
		}
		break
	}
	return v, cx
}

// addrRoot: the local variable or fresh object an address belongs to, seen through helpers.
func (d *descr) addrRoot(v ssa.Value, cx *dctx) (*ssa.Alloc, *dctx) {
	for i := 0; i < 12; i++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x, cx
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Parameter:
			w, c := d.peel(x, cx)
			if w == v {
				return nil, nil
			}
			v, cx = w, c
		default:
			return nil, nil
		}
	}
	return nil, nil
}
