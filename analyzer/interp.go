package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Provenance dataflow with trace partitioning. The engine pushes provenance terms and an
// event list through the SSA blocks of a function, inlining repository callees, and keeps
// traces apart by the branch decisions taken. A back edge is followed a bounded number of
// times; induction variables are abstracted, so element accesses of complete loops read X[*].

type pstate struct {
	mem   map[*Term]*Term // address term -> value
	lits  []Lit
	ev    []string
	depth int
}

func (s *pstate) clone() *pstate {
	n := &pstate{mem: make(map[*Term]*Term, len(s.mem)), depth: s.depth}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.lits = append([]Lit(nil), s.lits...)
	n.ev = append([]string(nil), s.ev...)
	return n
}

func (s *pstate) lit(t *Term) (bool, bool) {
	for _, l := range s.lits {
		if l.T == t {
			return l.Pos, true
		}
	}
	return false, false
}

func (s *pstate) addEv(e string) { s.ev = append(s.ev, e) }

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	id     string
	parent *frame
	visits map[*ssa.BasicBlock]int
	defers []deferred
}

type deferred struct {
	call ssa.CallInstruction
	cc   *ssa.CallCommon
	fnT  *Term
	args []*Term
}

func (f *frame) clone() *frame {
	n := &frame{fn: f.fn, id: f.id, parent: f.parent}
	n.env = make(map[ssa.Value]*Term, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.visits = make(map[*ssa.BasicBlock]int, len(f.visits))
	for k, v := range f.visits {
		n.visits[k] = v
	}
	n.defers = append([]deferred(nil), f.defers...)
	return n
}

type outcome struct {
	rets  []*Term
	st    *pstate
	panic bool
}

// Interp configures one analysis.
type Interp struct {
	P *Prog
	// OnCall is consulted for every call before inlining. Returning handled=true uses res
	// as the result (events may be appended to st). inline=false with handled=false makes the call opaque.
	OnCall func(fr *frame, st *pstate, c *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (res *Term, handled bool, inline bool)
	// Decide may resolve a branch condition.
	Decide func(fr *frame, st *pstate, cond *Term) (val bool, known bool)
	// OnBranch is told about each branch decision (may append events).
	OnBranch func(fr *frame, st *pstate, cond *Term, taken bool, in *ssa.If)
	OnStore  func(fr *frame, st *pstate, addr, val *Term, in *ssa.Store)
	// OnInstr sees every instruction after evaluation
	OnInstr func(fr *frame, st *pstate, in ssa.Instruction)
	// JoinCalls merges the outcomes of an inlined call into one state whose differing values are
	// "join" terms (each member keeps the branch decisions that select it).
	JoinCalls bool
	MaxLoop   int // times a loop header may be re-entered on one path (default 1)
	MaxDepth  int
	MaxPaths  int
	paths     int
	Overflow  bool
	rootLoop  map[*ssa.Function]*loopInfo
	inlineSt  []*ssa.Function
}

type loopInfo struct {
	header map[*ssa.BasicBlock]bool
	body   map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> blocks
}

func loopsOf(fn *ssa.Function) *loopInfo {
	li := &loopInfo{header: map[*ssa.BasicBlock]bool{}, body: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b -> s
				li.header[s] = true
				if li.body[s] == nil {
					li.body[s] = map[*ssa.BasicBlock]bool{s: true}
				}
				// natural loop
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if li.body[s][x] {
						continue
					}
					li.body[s][x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	return li
}

func (ip *Interp) loops(fn *ssa.Function) *loopInfo {
	if ip.rootLoop == nil {
		ip.rootLoop = map[*ssa.Function]*loopInfo{}
	}
	if l, ok := ip.rootLoop[fn]; ok {
		return l
	}
	l := loopsOf(fn)
	ip.rootLoop[fn] = l
	return l
}

// Run analyses fn with the given argument terms.
func (ip *Interp) Run(fn *ssa.Function, args []*Term) []outcome {
	if ip.MaxLoop == 0 {
		ip.MaxLoop = 1
	}
	if ip.MaxDepth == 0 {
		ip.MaxDepth = 12
	}
	if ip.MaxPaths == 0 {
		ip.MaxPaths = 20000
	}
	ip.paths = 0
	ip.Overflow = false
	ip.inlineSt = nil
	var outs []outcome
	st := &pstate{mem: map[*Term]*Term{}}
	ip.call(fn, nil, args, st, "", func(o outcome) { outs = append(outs, o) })
	return outs
}

func (ip *Interp) call(fn *ssa.Function, parent *frame, args []*Term, st *pstate, id string, k func(outcome)) {
	fr := &frame{fn: fn, env: map[ssa.Value]*Term{}, id: id, parent: parent, visits: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = mk("param", strconv.Itoa(i))
		}
	}
	ip.inlineSt = append(ip.inlineSt, fn)
	saved := ip.inlineSt
	ip.block(fr, fn.Blocks[0], nil, st, func(o outcome) {
		cur := ip.inlineSt
		ip.inlineSt = saved[:len(saved)-1]
		k(o)
		ip.inlineSt = cur
	})
	ip.inlineSt = saved[:len(saved)-1]
}

func (ip *Interp) block(fr *frame, b *ssa.BasicBlock, pred *ssa.BasicBlock, st *pstate, k func(outcome)) {
	if ip.Overflow {
		return
	}
	li := ip.loops(fr.fn)
	if li.header[b] {
		if fr.visits[b] > ip.MaxLoop {
			return
		}
		fr.visits[b]++
		// entering the loop afresh from outside resets inner counters
		if pred != nil && !li.body[b][pred] {
			fr.visits[b] = 1
		}
	}
	// phis (parallel)
	var vals []*Term
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		idx := 0
		for i, p := range b.Preds {
			if p == pred {
				idx = i
				break
			}
		}
		var v *Term
		if li.header[b] {
			if t := ip.induction(fr, st, ph, b, li); t != nil {
				v = t
			}
		}
		if v == nil {
			v = ip.val(fr, st, ph.Edges[idx])
		}
		phis = append(phis, ph)
		vals = append(vals, v)
	}
	for i, ph := range phis {
		fr.env[ph] = vals[i]
	}
	ip.instrs(fr, b, len(phis), st, k)
}

// induction recognises i = phi(init const, i+step) and abstracts it to a term that records the
// first value and step; the loop bound is attached when the header (or its successor) compares it.
func (ip *Interp) induction(fr *frame, st *pstate, ph *ssa.Phi, hdr *ssa.BasicBlock, li *loopInfo) *Term {
	if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return nil
	}
	var init ssa.Value
	var steps []ssa.Value
	for i, e := range ph.Edges {
		if li.body[hdr][hdr.Preds[i]] {
			steps = append(steps, e)
		} else {
			if init != nil && init != e {
				return nil
			}
			init = e
		}
	}
	if init == nil || len(steps) == 0 {
		return nil
	}
	for _, s := range steps {
		bo, ok := s.(*ssa.BinOp)
		if !ok || bo.Op != token.ADD {
			return nil
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || bo.X != ph || c.Value == nil || c.Value.ExactString() != "1" {
			return nil
		}
	}
	it := ip.val(fr, st, init)
	// bound: comparison of ph or ph+1 in the header
	bound := "?"
	if ifi, ok := hdr.Instrs[len(hdr.Instrs)-1].(*ssa.If); ok {
		if bo, ok := ifi.Cond.(*ssa.BinOp); ok && bo.Op == token.LSS {
			off := ""
			x := bo.X
			if a, ok := x.(*ssa.BinOp); ok && a.Op == token.ADD && a.X == ph {
				off = "+1"
			} else if x != ph {
				x = nil
			}
			_ = off
			if x != nil {
				if bt := ip.peek(fr, st, bo.Y); bt != nil {
					bound = bt.key
				}
			}
		}
	}
	return mk("idx", it.key+"|"+bound)
}

// peek evaluates a value if already available (defined outside the loop) or re-derivable (len).
func (ip *Interp) peek(fr *frame, st *pstate, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return ip.val(fr, st, v)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if a := ip.peek(fr, st, v.Call.Args[0]); a != nil {
				return mkLen(a)
			}
			return nil
		}
		// len(n.Elems()) re-evaluated each iteration: evaluate the callee on a scratch state
		if f := v.Call.StaticCallee(); f != nil && f.Blocks != nil && len(f.Blocks) == 1 {
			var args []*Term
			for _, a := range v.Call.Args {
				t := ip.peek(fr, st, a)
				if t == nil {
					return nil
				}
				args = append(args, t)
			}
			if ip.OnCall != nil {
				if r, h, _ := ip.OnCall(fr, st.clone(), &v.Call, f, args, v.Pos()); h {
					return r
				}
			}
			var res *Term
			ip.call(f, fr, args, st.clone(), fr.id+"/peek", func(o outcome) {
				if len(o.rets) == 1 {
					res = o.rets[0]
				}
			})
			return res
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a := ip.peek(fr, st, v.X); a != nil {
				return ip.loadAddr(st, a, v.Type())
			}
		}
	case *ssa.FieldAddr:
		if a := ip.peek(fr, st, v.X); a != nil {
			return mk("faddr", fieldName(v.X.Type(), v.Field), a)
		}
	case *ssa.BinOp:
		x, y := ip.peek(fr, st, v.X), ip.peek(fr, st, v.Y)
		if x != nil && y != nil {
			return binTerm(v.Op, x, y)
		}
	}
	return nil
}

func mkLen(a *Term) *Term {
	if a.Op == "make" && len(a.Args) > 0 {
		return a.Args[0]
	}
	if a.isNil() {
		return mk("const", "0")
	}
	return mk("len", "", a)
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
	}
	s := t.Underlying().(*types.Struct)
	return name + "." + s.Field(i).Name()
}

func (ip *Interp) instrs(fr *frame, b *ssa.BasicBlock, from int, st *pstate, k func(outcome)) {
	for i := from; i < len(b.Instrs); i++ {
		if ip.Overflow {
			return
		}
		in := b.Instrs[i]
		switch in := in.(type) {
		case *ssa.Call:
			cc := in.Common()
			args, fnT, callee := ip.callArgs(fr, st, cc)
			i := i
			done := func(st2 *pstate, fr2 *frame, res *Term) {
				fr2.env[in] = res
				if ip.OnInstr != nil {
					ip.OnInstr(fr2, st2, in)
				}
				ip.instrs(fr2, b, i+1, st2, k)
			}
			inl, res := ip.resolveCall(fr, st, cc, callee, fnT, args, in.Pos())
			if inl == nil {
				fr.env[in] = res
				if ip.OnInstr != nil {
					ip.OnInstr(fr, st, in)
				}
				continue
			}
			if ip.JoinCalls && joinable(inl) {
				var outs []outcome
				base := len(st.lits)
				ip.call(inl, fr, args, st.clone(), fr.id+"/"+siteId(in), func(o outcome) {
					if o.panic {
						k(o)
						return
					}
					outs = append(outs, o)
				})
				if len(outs) == 0 {
					return
				}
				st2, r := ip.join(outs, base)
				done(st2, fr, r)
				return
			}
			ip.call(inl, fr, args, st, fr.id+"/"+siteId(in), func(o outcome) {
				if o.panic {
					k(o)
					return
				}
				var r *Term
				switch len(o.rets) {
				case 0:
					r = mk("void", "")
				case 1:
					r = o.rets[0]
				default:
					r = mk("tuple", "", o.rets...)
				}
				done(o.st, fr.clone(), r)
			})
			return
		case *ssa.Defer:
			args, fnT, _ := ip.callArgs(fr, st, in.Common())
			fr.defers = append(fr.defers, deferred{call: in, cc: in.Common(), fnT: fnT, args: args})
		case *ssa.RunDefers:
			i := i
			ds := fr.defers
			fr.defers = nil
			ip.runDefers(fr, ds, st, func(st2 *pstate) {
				ip.instrs(fr.clone(), b, i+1, st2, k)
			})
			return
		case *ssa.Go:
			args, _, callee := ip.callArgs(fr, st, in.Common())
			_ = args
			n := "?"
			if callee != nil {
				n = callee.String()
			}
			st.addEv("go " + n)
		case *ssa.Return:
			var rets []*Term
			for _, r := range in.Results {
				rets = append(rets, ip.val(fr, st, r))
			}
			if ip.OnInstr != nil {
				ip.OnInstr(fr, st, in)
			}
			ip.paths++
			if ip.paths > ip.MaxPaths {
				ip.Overflow = true
				return
			}
			k(outcome{rets: rets, st: st})
			return
		case *ssa.Panic:
			k(outcome{st: st, panic: true})
			return
		case *ssa.Jump:
			ip.block(fr, b.Succs[0], b, st, k)
			return
		case *ssa.If:
			cond := ip.val(fr, st, in.Cond)
			ip.branch(fr, b, in, cond, st, k)
			return
		case *ssa.Store:
			a := ip.val(fr, st, in.Addr)
			v := ip.val(fr, st, in.Val)
			ip.store(st, a, v)
			if ip.OnStore != nil {
				ip.OnStore(fr, st, a, v, in)
			}
		case *ssa.MapUpdate:
			m := ip.val(fr, st, in.Map)
			v := ip.val(fr, st, in.Value)
			kk := ip.val(fr, st, in.Key)
			st.mem[mk("mapaddr", "", m, kk)] = v
		case *ssa.Phi:
		case ssa.Value:
			fr.env[in] = ip.eval(fr, st, in)
			if ip.OnInstr != nil {
				ip.OnInstr(fr, st, in.(ssa.Instruction))
			}
		}
	}
}

func siteId(in ssa.Instruction) string {
	v, ok := in.(ssa.Value)
	if ok {
		return fmt.Sprintf("%s.%s", in.Parent().Name(), v.Name())
	}
	return in.Parent().Name()
}

func (ip *Interp) runDefers(fr *frame, ds []deferred, st *pstate, k func(*pstate)) {
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	rest := ds[:len(ds)-1]
	_, _, callee := ip.calleeOf(fr, st, d.cc, d.fnT)
	inl, _ := ip.resolveCall(fr, st, d.cc, callee, d.fnT, d.args, d.call.Pos())
	if inl == nil {
		ip.runDefers(fr, rest, st, k)
		return
	}
	ip.call(inl, fr, d.args, st, fr.id+"/defer", func(o outcome) {
		if o.panic {
			return
		}
		ip.runDefers(fr, rest, o.st, k)
	})
}

func (ip *Interp) calleeOf(fr *frame, st *pstate, cc *ssa.CallCommon, fnT *Term) ([]*Term, *Term, *ssa.Function) {
	if cc.IsInvoke() {
		return nil, nil, nil
	}
	if f := cc.StaticCallee(); f != nil {
		return nil, fnT, f
	}
	if fnT != nil && (fnT.Op == "fn" || fnT.Op == "closure") {
		return nil, fnT, fnByKey[fnT.Str]
	}
	return nil, fnT, nil
}

var fnByKey = map[string]*ssa.Function{}

func fnTerm(f *ssa.Function) *Term {
	k := f.String()
	fnByKey[k] = f
	return mk("fn", k)
}

func (ip *Interp) callArgs(fr *frame, st *pstate, cc *ssa.CallCommon) (args []*Term, fnT *Term, callee *ssa.Function) {
	if cc.IsInvoke() {
		args = append(args, ip.val(fr, st, cc.Value))
	} else {
		if _, ok := cc.Value.(*ssa.Builtin); !ok {
			fnT = ip.val(fr, st, cc.Value)
		}
	}
	for _, a := range cc.Args {
		args = append(args, ip.val(fr, st, a))
	}
	_, _, callee = ip.calleeOf(fr, st, cc, fnT)
	return
}

// resolveCall returns a function to inline, or the opaque result.
func (ip *Interp) resolveCall(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, fnT *Term, args []*Term, pos token.Pos) (*ssa.Function, *Term) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return nil, ip.builtin(st, b.Name(), args)
	}
	inline := true
	if ip.OnCall != nil {
		r, handled, in := ip.OnCall(fr, st, cc, callee, args, pos)
		if handled {
			return nil, r
		}
		inline = in
	}
	if cc.IsInvoke() {
		return nil, mk("invoke", cc.Method.Name(), args...)
	}
	if callee == nil {
		n := "dyn"
		if fnT != nil {
			return nil, mk("call", n, append([]*Term{fnT}, args...)...)
		}
		return nil, mk("call", n, args...)
	}
	name := callee.String()
	if inline && callee.Blocks != nil && callee.Pkg != nil && inMod(callee.Pkg.Pkg) && len(ip.inlineSt) < ip.MaxDepth {
		rec := false
		for _, f := range ip.inlineSt {
			if f == callee {
				rec = true
			}
		}
		if !rec {
			if len(callee.FreeVars) > 0 && fnT != nil && fnT.Op == "closure" {
				// bind free variables by pre-seeding a wrapper env through memory of closure bindings
				for i, fv := range callee.FreeVars {
					if i < len(fnT.Args) {
						ip.bindFree(fv, fnT.Args[i])
					}
				}
			}
			return callee, nil
		}
	}
	return nil, mk("call", shortFn(name), args...)
}

var freeBind = map[ssa.Value]*Term{}

func (ip *Interp) bindFree(fv *ssa.FreeVar, t *Term) { freeBind[fv] = t }

func shortFn(n string) string {
	return strings.ReplaceAll(strings.ReplaceAll(n, modPath+"/", ""), "ecma/", "")
}

func (ip *Interp) builtin(st *pstate, name string, args []*Term) *Term {
	switch name {
	case "len":
		return mkLen(args[0])
	case "append":
		return mk("append", "", args...)
	}
	return mk("builtin", name, args...)
}

func (ip *Interp) branch(fr *frame, b *ssa.BasicBlock, in *ssa.If, cond *Term, st *pstate, k func(outcome)) {
	base, pos := normCond(cond)
	if base == tTrue || base == tFalse {
		v := (base == tTrue) == pos
		ip.take(fr, b, in, base, v, st, k, false)
		return
	}
	if ip.Decide != nil {
		if v, known := ip.Decide(fr, st, base); known {
			if !pos {
				v = !v
			}
			ip.take(fr, b, in, nil, v, st, k, false)
			return
		}
	}
	// loop header conditions may be re-decided on each visit
	li := ip.loops(fr.fn)
	if !li.header[b] {
		if v, ok := st.lit(base); ok {
			if !pos {
				v = !v
			}
			ip.take(fr, b, in, nil, v, st, k, false)
			return
		}
	}
	for _, v := range []bool{true, false} {
		bv := v
		if !pos {
			bv = !v
		}
		st2 := st.clone()
		fr2 := fr.clone()
		st2.lits = append(st2.lits, Lit{base, bv})
		ip.takeB(fr2, b, in, base, bv, v, st2, k)
	}
}

func (ip *Interp) take(fr *frame, b *ssa.BasicBlock, in *ssa.If, base *Term, v bool, st *pstate, k func(outcome), _ bool) {
	s := b.Succs[1]
	if v {
		s = b.Succs[0]
	}
	ip.block(fr, s, b, st, k)
}

func (ip *Interp) takeB(fr *frame, b *ssa.BasicBlock, in *ssa.If, base *Term, baseVal, v bool, st *pstate, k func(outcome)) {
	if ip.OnBranch != nil {
		ip.OnBranch(fr, st, base, baseVal, in)
	}
	ip.take(fr, b, in, base, v, st, k, false)
}

// normCond rewrites a condition to a base term and a polarity.
func normCond(c *Term) (*Term, bool) {
	pos := true
	for {
		if c.Op == "not" {
			c = c.Args[0]
			pos = !pos
			continue
		}
		if c.Op == "bin" {
			switch c.Str {
			case "!=":
				c = mkBin("==", c.Args[0], c.Args[1])
				pos = !pos
				continue
			case ">=":
				c = mkBin("<", c.Args[0], c.Args[1])
				pos = !pos
				continue
			case "<=": // a<=b == !(b<a)
				c = mkBin("<", c.Args[1], c.Args[0])
				pos = !pos
				continue
			case ">":
				c = mkBin("<", c.Args[1], c.Args[0])
				continue
			case "<":
				// 0 < len(x)  ==  !(len(x)==0) ; 0 < len
				if c.Args[0].Op == "const" && c.Args[0].Str == "0" && c.Args[1].Op == "len" {
					c = mkBin("==", c.Args[1], c.Args[0])
					pos = !pos
					continue
				}
				if c.Args[0].Op == "len" && c.Args[1].Op == "const" && c.Args[1].Str == "1" {
					c = mkBin("==", c.Args[0], mk("const", "0"))
					continue
				}
			case "==":
				if c.Args[0].Op == "const" && c.Args[1].Op != "const" {
					c = mk("bin", "==", c.Args[1], c.Args[0])
					continue
				}
				if c.Args[1] == tTrue {
					c = c.Args[0]
					continue
				}
				if c.Args[1] == tFalse {
					c = c.Args[0]
					pos = !pos
					continue
				}
			}
		}
		return c, pos
	}
}

func mkBin(op string, a, b *Term) *Term {
	if a.Op == "const" && b.Op == "const" {
		switch op {
		case "==":
			if a == b {
				return tTrue
			}
			if !(strings.HasPrefix(a.Str, "zero") || strings.HasPrefix(b.Str, "zero")) {
				return tFalse
			}
		case "!=":
			if a == b {
				return tFalse
			}
			if !(strings.HasPrefix(a.Str, "zero") || strings.HasPrefix(b.Str, "zero")) {
				return tTrue
			}
		}
		ai, e1 := strconv.ParseInt(a.Str, 10, 64)
		bi, e2 := strconv.ParseInt(b.Str, 10, 64)
		if e1 == nil && e2 == nil {
			bl := func(v bool) *Term {
				if v {
					return tTrue
				}
				return tFalse
			}
			n := func(v int64) *Term { return mk("const", strconv.FormatInt(v, 10)) }
			switch op {
			case "<":
				return bl(ai < bi)
			case "<=":
				return bl(ai <= bi)
			case ">":
				return bl(ai > bi)
			case ">=":
				return bl(ai >= bi)
			case "+":
				return n(ai + bi)
			case "-":
				return n(ai - bi)
			case "*":
				return n(ai * bi)
			case "&":
				return n(ai & bi)
			case "|":
				return n(ai | bi)
			case "&^":
				return n(ai &^ bi)
			}
		}
	}
	if op == "==" || op == "!=" {
		// a freshly allocated object is never nil
		if b.isNil() && (a.Op == "alloc" || a.Op == "make" || a.Op == "fn" || a.Op == "closure" || a.Op == "makeiface") {
			if op == "==" {
				return tFalse
			}
			return tTrue
		}
		if a.isNil() && (b.Op == "alloc" || b.Op == "make" || b.Op == "fn" || b.Op == "closure") {
			if op == "==" {
				return tFalse
			}
			return tTrue
		}
	}
	if op == "+" && a.Op == "idx" && b.Op == "const" {
		if c, _, ok := strings.Cut(a.Str, "|"); ok {
			if c == "const:-1" && b.Str == "1" { // range loops: phi starts at -1 and is used as phi+1
				_, bound, _ := strings.Cut(a.Str, "|")
				return mk("idx", "const:0|"+bound)
			}
		}
	}
	return mk("bin", op, a, b)
}

func binTerm(op token.Token, a, b *Term) *Term { return mkBin(op.String(), a, b) }

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() != types.UntypedNil {
			return mk("const", "zero:"+c.Type().String())
		}
		if _, ok := c.Type().Underlying().(*types.Struct); ok {
			return mk("const", "zero:"+shortFn(c.Type().String()))
		}
		return tNil
	}
	if c.Value.Kind() == constant.Bool {
		if constant.BoolVal(c.Value) {
			return tTrue
		}
		return tFalse
	}
	return mk("const", c.Value.ExactString())
}

func (ip *Interp) val(fr *frame, st *pstate, v ssa.Value) *Term {
	if t, ok := fr.env[v]; ok {
		return t
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Global:
		return mk("gaddr", relPkg(v.Pkg.Pkg)+"."+v.Name())
	case *ssa.Function:
		return fnTerm(v)
	case *ssa.FreeVar:
		if t, ok := freeBind[v]; ok {
			return t
		}
		return mk("free", v.Parent().String()+"."+v.Name())
	case *ssa.Builtin:
		return mk("builtinfn", v.Name())
	case *ssa.Parameter:
		return mk("param", v.Name())
	}
	return mk("undef", v.Name())
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mk("const", `""`)
		case u.Info()&types.IsNumeric != 0:
			return mk("const", "0")
		}
		return tNil
	case *types.Struct, *types.Array:
		return mk("const", "zero:"+shortFn(t.String()))
	}
	return tNil
}

// rootAddr: is the address derived from a local allocation?
func rootAlloc(a *Term) *Term {
	for a != nil {
		switch a.Op {
		case "alloc", "make":
			return a
		case "faddr", "iaddr", "slice":
			a = a.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func (ip *Interp) loadAddr(st *pstate, a *Term, t types.Type) *Term {
	if v, ok := st.mem[a]; ok {
		// a struct loaded as a whole after field updates
		if a.Op == "alloc" || a.Op == "faddr" {
			if upd := ip.fieldUpdates(st, a, t); upd != nil {
				return mk("struct", "", append([]*Term{v}, upd...)...)
			}
		}
		return v
	}
	switch a.Op {
	case "gaddr":
		return mk("global", a.Str)
	case "faddr":
		if bv, ok := st.mem[a.Args[0]]; ok {
			return fieldOf(bv, a.Str)
		}
		if rootAlloc(a) != nil {
			if upd := ip.fieldUpdates(st, a, t); upd != nil {
				return mk("struct", "", append([]*Term{zeroOf(t)}, upd...)...)
			}
			// zero value unless an outer aggregate was stored
			base := a.Args[0]
			if base.Op == "faddr" || base.Op == "iaddr" {
				bv := ip.loadAddr(st, base, nil2(t))
				if bv.Op != "const" {
					return fieldOf(bv, a.Str)
				}
			}
			return zeroOf(t)
		}
		return fieldOf(ip.deref(st, a.Args[0]), a.Str)
	case "iaddr":
		if bv, ok := st.mem[a.Args[0]]; ok {
			return mk("elem", "", bv, a.Args[1])
		}
		return mk("elem", "", a.Args[0], a.Args[1])
	case "alloc":
		if upd := ip.fieldUpdates(st, a, t); upd != nil {
			return mk("struct", "", append([]*Term{zeroOf(t)}, upd...)...)
		}
		if t != nil {
			return zeroOf(t)
		}
	}
	return mk("deref", "", a)
}

func nil2(t types.Type) types.Type { return t }

// deref of a pointer term used as the base of a field address: the pointer itself stands for its target
func (ip *Interp) deref(st *pstate, a *Term) *Term {
	if a.Op == "faddr" || a.Op == "iaddr" || a.Op == "alloc" {
		if v, ok := st.mem[a]; ok {
			return v
		}
		if a.Op == "faddr" {
			return fieldOf(ip.deref(st, a.Args[0]), a.Str)
		}
		if a.Op == "iaddr" {
			return mk("elem", "", a.Args[0], a.Args[1])
		}
	}
	return a
}

func fieldOf(v *Term, f string) *Term {
	if v.Op == "join" {
		var ms []*Term
		for _, a := range v.Args {
			ms = append(ms, mk("alt", "", a.Args[0], fieldOf(a.Args[1], f)))
		}
		return mk("join", "", ms...)
	}
	if v.Op == "struct" {
		for _, u := range v.Args[1:] {
			if u.Op == "upd" && u.Str == f {
				return u.Args[0]
			}
		}
		return fieldOf(v.Args[0], f)
	}
	return mk("field", f, v)
}

func (ip *Interp) fieldUpdates(st *pstate, a *Term, t types.Type) []*Term {
	if t == nil {
		return nil
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	name := ""
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
	}
	var out []*Term
	for i := 0; i < s.NumFields(); i++ {
		f := name + "." + s.Field(i).Name()
		fa := mk("faddr", f, a)
		if v, ok := st.mem[fa]; ok {
			out = append(out, mk("upd", f, v))
		} else if sub := ip.fieldUpdates(st, fa, s.Field(i).Type()); sub != nil {
			out = append(out, mk("upd", f, mk("struct", "", append([]*Term{zeroOf(s.Field(i).Type())}, sub...)...)))
		}
	}
	return out
}

func (ip *Interp) store(st *pstate, a, v *Term) {
	// a whole-aggregate store kills finer updates
	for k := range st.mem {
		if k != a && under(k, a) {
			delete(st.mem, k)
		}
	}
	if v.Op == "struct" { // keep the field structure addressable
		st.mem[a] = v
		return
	}
	st.mem[a] = v
}

func (ip *Interp) eval(fr *frame, st *pstate, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Alloc:
		t := mk("alloc", typeShort(v.Type().Underlying().(*types.Pointer).Elem())+"@"+fr.id+"/"+v.Name())
		// a fresh object per execution of the instruction
		for k := range st.mem {
			if k == t || under(k, t) {
				delete(st.mem, k)
			}
		}
		st.mem[mk("live", "", t)] = tTrue
		return t
	case *ssa.BinOp:
		return binTerm(v.Op, ip.val(fr, st, v.X), ip.val(fr, st, v.Y))
	case *ssa.UnOp:
		x := ip.val(fr, st, v.X)
		switch v.Op {
		case token.MUL:
			return ip.loadAddr(st, x, v.Type())
		case token.NOT:
			if x == tTrue {
				return tFalse
			}
			if x == tFalse {
				return tTrue
			}
			if x.Op == "not" {
				return x.Args[0]
			}
			return mk("not", "", x)
		}
		return mk("un", v.Op.String(), x)
	case *ssa.ChangeType:
		return ip.val(fr, st, v.X)
	case *ssa.ChangeInterface:
		return ip.val(fr, st, v.X)
	case *ssa.MakeInterface:
		x := ip.val(fr, st, v.X)
		return x
	case *ssa.Convert:
		x := ip.val(fr, st, v.X)
		return x
	case *ssa.MultiConvert:
		return ip.val(fr, st, v.X)
	case *ssa.SliceToArrayPointer:
		return ip.val(fr, st, v.X)
	case *ssa.TypeAssert:
		x := ip.val(fr, st, v.X)
		if v.CommaOk {
			return mk("tuple", "", x, mk("is", typeShort(v.AssertedType), x))
		}
		return x
	case *ssa.Extract:
		t := ip.val(fr, st, v.Tuple)
		if t.Op == "tuple" && v.Index < len(t.Args) {
			return t.Args[v.Index]
		}
		return mk("extract", strconv.Itoa(v.Index), t)
	case *ssa.FieldAddr:
		return mk("faddr", fieldName(v.X.Type(), v.Field), ip.val(fr, st, v.X))
	case *ssa.Field:
		return fieldOf(ip.val(fr, st, v.X), fieldName(v.X.Type(), v.Field))
	case *ssa.IndexAddr:
		return mk("iaddr", "", ip.val(fr, st, v.X), ip.val(fr, st, v.Index))
	case *ssa.Index:
		return mk("elem", "", ip.val(fr, st, v.X), ip.val(fr, st, v.Index))
	case *ssa.Lookup:
		m, kk := ip.val(fr, st, v.X), ip.val(fr, st, v.Index)
		var r *Term
		if x, ok := st.mem[mk("mapaddr", "", m, kk)]; ok {
			r = x
		} else {
			r = mk("lookup", "", m, kk)
		}
		if v.CommaOk {
			return mk("tuple", "", r, mk("has", "", m, kk))
		}
		return r
	case *ssa.Slice:
		x := ip.val(fr, st, v.X)
		if v.Low == nil && v.High == nil && v.Max == nil {
			return x
		}
		o := func(y ssa.Value) *Term {
			if y == nil {
				return mk("none", "")
			}
			return ip.val(fr, st, y)
		}
		return mk("slice", "", x, o(v.Low), o(v.High))
	case *ssa.MakeSlice:
		t := mk("make", typeShort(v.Type())+"@"+fr.id+"/"+v.Name(), ip.val(fr, st, v.Len))
		st.mem[mk("live", "", t)] = tTrue
		return t
	case *ssa.MakeMap:
		return mk("alloc", "map@"+fr.id+"/"+v.Name())
	case *ssa.MakeChan:
		return mk("alloc", "chan@"+fr.id+"/"+v.Name(), ip.val(fr, st, v.Size))
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		fnByKey[f.String()] = f
		var bs []*Term
		for _, b := range v.Bindings {
			bs = append(bs, ip.val(fr, st, b))
		}
		return mk("closure", f.String(), bs...)
	case *ssa.Range:
		return mk("range", "", ip.val(fr, st, v.X))
	case *ssa.Next:
		it := ip.val(fr, st, v.Iter)
		if it.Op == "range" {
			return mk("tuple", "", mk("more", "", it), mk("rkey", "", it), mk("rval", "", it))
		}
		return mk("next", "", it)
	case *ssa.Select:
		return mk("select", v.Name())
	}
	return mk("val", v.Name())
}

func typeShort(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return s
}

func joinable(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if b, ok := rs.At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return false
		}
	}
	return true
}

var joinLits = map[string][]Lit{} // guard term key -> decisions

func guarded(t *Term, lits []Lit) *Term {
	var ks []string
	for _, l := range lits {
		ks = append(ks, l.String())
	}
	k := strings.Join(ks, "&")
	g := mk("guard", k)
	joinLits[g.key] = append([]Lit(nil), lits...)
	return mk("alt", "", g, t)
}

func (ip *Interp) join(outs []outcome, base int) (*pstate, *Term) {
	if len(outs) == 1 {
		return outs[0].st, retTerm(outs[0].rets)
	}
	st := &pstate{mem: map[*Term]*Term{}, depth: outs[0].st.depth}
	st.lits = append([]Lit(nil), outs[0].st.lits[:base]...)
	// decisions common to every outcome survive
	for _, l := range outs[0].st.lits[base:] {
		all := true
		for _, o := range outs[1:] {
			if v, ok := o.st.lit(l.T); !ok || v != l.Pos {
				all = false
			}
		}
		if all {
			st.lits = append(st.lits, l)
		}
	}
	st.ev = append([]string(nil), outs[0].st.ev...)
	keys := map[*Term]bool{}
	for _, o := range outs {
		for k := range o.st.mem {
			keys[k] = true
		}
	}
	for k := range keys {
		var ms []*Term
		var first *Term
		same := true
		for _, o := range outs {
			v := o.st.mem[k]
			if v == nil {
				if r := rootAlloc(k); k.Op != "live" && r != nil && o.st.mem[mk("live", "", r)] != nil {
					v = mk("absent", "")
				} else {
					continue
				}
			}
			if first == nil {
				first = v
			} else if v != first {
				same = false
			}
			ms = append(ms, guarded(v, o.st.lits[base:]))
		}
		if same {
			st.mem[k] = first
		} else {
			st.mem[k] = mk("join", "", ms...)
		}
	}
	n := len(outs[0].rets)
	var rets []*Term
	for i := 0; i < n; i++ {
		same := true
		for _, o := range outs[1:] {
			if o.rets[i] != outs[0].rets[i] {
				same = false
			}
		}
		if same {
			rets = append(rets, outs[0].rets[i])
			continue
		}
		var ms []*Term
		seen := map[string]bool{}
		for _, o := range outs {
			a := guarded(o.rets[i], o.st.lits[base:])
			if !seen[a.key] {
				seen[a.key] = true
				ms = append(ms, a)
			}
		}
		rets = append(rets, mk("join", "", ms...))
	}
	return st, retTerm(rets)
}

func retTerm(rets []*Term) *Term {
	switch len(rets) {
	case 0:
		return mk("void", "")
	case 1:
		return rets[0]
	}
	return mk("tuple", "", rets...)
}

// under reports whether address k lies inside the object at address a.
func under(k, a *Term) bool {
	for k != nil {
		if k == a {
			return true
		}
		switch k.Op {
		case "faddr", "iaddr", "mapaddr":
			k = k.Args[0]
		default:
			return false
		}
	}
	return false
}
