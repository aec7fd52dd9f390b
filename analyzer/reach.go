package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// reach: under which condition (over canonical condition texts) control gets to a block, with
// back edges cut and checks whose failure ends in an error taken as passed.
type reacher struct {
	d    *descr
	b    *bdd
	memo map[reachKey]int
	busy map[reachKey]bool
	bm   map[boolKey]int
	fm   map[boolKey]int

	flags    map[flagKey]string
	flagBusy []flagKey // flags whose text is being made
}

type reachKey struct {
	b  *ssa.BasicBlock
	cx string
}
type boolKey struct {
	v  ssa.Value
	cx *dctx
}

func newReacher(d *descr) *reacher {
	r := &reacher{d: d, b: newBdd(), memo: map[reachKey]int{}, busy: map[reachKey]bool{}, bm: map[boolKey]int{}, fm: map[boolKey]int{}, flags: map[flagKey]string{}}
	d.flag = r.flag
	return r
}

type flagKey struct {
	v  ssa.Value
	cx string
}

// flag: the text of a boolean carried round a loop: what it starts from, and the conditions under
// which going round turns it on and off.
func (r *reacher) flag(c []ssa.Value, cx *dctx) string {
	k := flagKey{c[0], cxKey(cx)}
	for _, x := range c {
		if x.Name() < k.v.Name() {
			k.v = x
		}
	}
	if s, ok := r.flags[k]; ok {
		return s
	}
	if len(r.flagBusy) > 3 {
		return ""
	}
	const self = "~flag"
	d := r.d
	memo, bm, fm := r.memo, r.bm, r.fm
	r.memo, r.bm, r.fm = map[reachKey]int{}, map[boolKey]int{}, map[boolKey]int{}
	r.flags[k] = self
	r.flagBusy = append(r.flagBusy, k)
	in := map[ssa.Value]bool{}
	for _, x := range c {
		in[x] = true
	}
	inits := map[string]bool{}
	on, off := bF, bF
	ci := d.cd(c[0].(ssa.Instruction).Parent())
	for _, x := range c { // conditions are those from the head of the loop on
		if ph, ok := x.(*ssa.Phi); ok && ci.hdr.header[ph.Block()] {
			for i, e := range ph.Edges {
				if !ph.Block().Dominates(ph.Block().Preds[i]) && !in[e] {
					r.memo[reachKey{ph.Block(), cxKey(cx)}] = bT
				}
			}
		}
	}
	for _, x := range c {
		ph, ok := x.(*ssa.Phi)
		if !ok || !ci.hdr.header[ph.Block()] {
			continue
		}
		for i, e := range ph.Edges {
			p := ph.Block().Preds[i]
			if !ph.Block().Dominates(p) && !in[e] {
				inits[d.str(e, cx)] = true
				continue
			}
			at := r.edge(p, ph.Block(), cx)
			v := r.cond(e, cx)
			on = r.b.or(on, r.b.restrict(r.b.and(at, v), self, false))
			off = r.b.or(off, r.b.restrict(r.b.and(at, r.b.not(v)), self, true))
		}
	}
	r.memo, r.bm, r.fm = memo, bm, fm
	r.flagBusy = r.flagBusy[:len(r.flagBusy)-1]
	s := "flag(" + setStr(inits) + ",on:" + r.b.sig(r.b.simplify(on)) + ",off:" + r.b.sig(r.b.simplify(off)) + ")"
	if len(r.flagBusy) > 0 {
		delete(r.flags, k)
	} else {
		r.flags[k] = s
	}
	return s
}

func cxKey(cx *dctx) string {
	s := ""
	for ; cx != nil; cx = cx.parent {
		s += cx.fn.String() + "("
		if cx.call != nil {
			s += cx.call.Parent().String() + ":"
		}
		for _, a := range cx.args {
			s += a.Name() + ","
		}
		s += ")"
	}
	return s
}

func (r *reacher) block(b *ssa.BasicBlock, cx *dctx) int {
	k := reachKey{b, cxKey(cx)}
	if v, ok := r.memo[k]; ok {
		return v
	}
	if len(b.Preds) == 0 {
		r.memo[k] = bT
		return bT
	}
	r.memo[k] = bF // cut cycles that are not natural loops
	res := bF
	for _, p := range b.Preds {
		if b.Dominates(p) {
			continue
		}
		res = r.b.or(res, r.edge(p, b, cx))
	}
	r.memo[k] = res
	return res
}

func (r *reacher) edge(p, b *ssa.BasicBlock, cx *dctx) int {
	base := r.b.and(r.block(p, cx), r.passes(p, nil, cx))
	ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return base
	}
	t := p.Succs[0] == b
	other := p.Succs[1]
	if !t {
		other = p.Succs[0]
	}
	ci := r.d.cd(p.Parent())
	if ci.errOut[other] && !ci.errOut[b] {
		return base
	}
	var c int
	if t {
		c = r.cond(ifi.Cond, cx)
	} else {
		c = r.fails(ifi.Cond, cx)
	}
	c = r.b.and(base, c)
	if r.leavesLoop(p, b) { // some iteration satisfies it
		for _, v := range r.b.support(c) {
			if counterVar(v) { // leaving for want of further elements happens in the end
				more := contPolarity(v)
				m := r.b.v(v)
				if !more {
					m = r.b.not(m)
				}
				c = r.b.or(r.b.and(m, r.b.restrict(c, v, more)), r.b.restrict(c, v, !more))
			}
		}
	}
	return c
}

// passes: the calls of p before upto (all of them if nil) return, as far as looked-through helpers
// that may panic are concerned.
func (r *reacher) passes(p *ssa.BasicBlock, upto ssa.Instruction, cx *dctx) int {
	d := r.d
	res := bT
	for _, in := range p.Instrs {
		if in == upto {
			break
		}
		c, ok := in.(*ssa.Call)
		if !ok {
			continue
		}
		f := c.Call.StaticCallee()
		if f == nil || f.Blocks == nil || d.isKnown(f) || f.Parent() != nil || cxDepth(cx) >= 8 || onPath(cx, f) || !d.mayPanic(f, 0) {
			continue
		}
		nc := &dctx{fn: f, args: c.Call.Args, parent: cx, call: c}
		ret := bF
		for _, b := range f.Blocks {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				ret = r.b.or(ret, r.b.and(r.block(b, nc), r.passes(b, nil, nc)))
			}
		}
		res = r.b.and(res, ret)
	}
	return res
}

// mayPanic: the unreviewed helper contains an explicit panic, itself or through others like it.
func (d *descr) mayPanic(f *ssa.Function, depth int) bool {
	if f == nil || f.Blocks == nil || d.isKnown(f) || depth > 3 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Panic:
				return true
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != f && d.mayPanic(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// cond: the truth of a boolean value.
func (r *reacher) cond(v ssa.Value, cx *dctx) int {
	k := boolKey{v, cx}
	if x, ok := r.bm[k]; ok {
		return x
	}
	x := r.cond1(v, cx)
	r.bm[k] = x
	return x
}

func (r *reacher) cond1(v ssa.Value, cx *dctx) int {
	d := r.d
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Bool {
			if constant.BoolVal(x.Value) {
				return bT
			}
			return bF
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return r.fails(x.X, cx)
		}
	case *ssa.Parameter:
		if cx != nil && cx.fn == x.Parent() {
			for i, p := range x.Parent().Params {
				if p == x && i < len(cx.args) {
					return r.cond(cx.args[i], cx.parent)
				}
			}
		}
	case *ssa.BinOp:
		if x.Op == token.EQL || x.Op == token.NEQ {
			for i, side := range []ssa.Value{x.X, x.Y} {
				if c, ok := side.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Bool {
					o := x.Y
					if i == 1 {
						o = x.X
					}
					f := r.cond(o, cx)
					if constant.BoolVal(c.Value) != (x.Op == token.EQL) {
						f = r.b.not(f)
					}
					return f
				}
			}
			// both are tests
			if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsBoolean != 0 {
				p, q := r.cond(x.X, cx), r.cond(x.Y, cx)
				same := r.b.or(r.b.and(p, q), r.b.and(r.b.not(p), r.b.not(q)))
				if x.Op == token.NEQ {
					return r.b.not(same)
				}
				return same
			}
			// comparison of a choice between constants
			if f, ok := r.phiCmp(x, cx); ok {
				return f
			}
		}
	case *ssa.Phi:
		bt, ok := x.Type().Underlying().(*types.Basic)
		if ok && bt.Kind() == types.Bool {
			ci := d.cd(x.Block().Parent())
			if !ci.hdr.header[x.Block()] {
				r.bm[boolKey{v, cx}] = bF
				f := bF
				for i, e := range x.Edges {
					f = r.b.or(f, r.b.and(r.edge(x.Block().Preds[i], x.Block(), cx), r.cond(e, cx)))
				}
				return f
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f != nil && f.Blocks != nil && f.Signature.Results().Len() == 1 && (!d.knownAt(f, x) || d.trivial(f) || d.pred(f)) && cxDepth(cx) < 8 && !onPath(cx, f) && f.Parent() == nil {
			nc := &dctx{fn: f, args: x.Call.Args, parent: cx, call: x}
			res := bF
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					res = r.b.or(res, r.b.and(r.block(b, nc), r.cond(rt.Results[0], nc)))
				}
			}
			return res
		}
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 1 {
			if ks := d.kindsOfType(ta); ks != nil {
				f := bF
				for _, k := range ks {
					f = r.b.or(f, r.pred(func() string { return d.str(ta.X, cx) + ".typ==" + k }))
				}
				return f
			}
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			f := c.Call.StaticCallee()
			if f != nil && f.Blocks != nil && !d.knownAt(f, c) && cxDepth(cx) < 8 && !onPath(cx, f) && f.Parent() == nil {
				nc := &dctx{fn: f, args: c.Call.Args, parent: cx, call: c}
				res := bF
				for _, b := range f.Blocks {
					if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						if d.cd(f).errOut[b] {
							continue
						}
						res = r.b.or(res, r.b.and(r.block(b, nc), r.cond(rt.Results[x.Index], nc)))
					}
				}
				return res
			}
		}
	}
	if bo, ok := v.(*ssa.BinOp); ok {
		// one of several bits
		if m, l, lc, pol, ok := d.maskOf(bo, cx); ok && m.bits&(m.bits-1) != 0 && isNamedConst(m.c) {
			f := bF
			for b := m.bits; b != 0; b &= b - 1 {
				bit := ssa.NewConst(constant.MakeUint64(b&-b), m.c.Type())
				f = r.b.or(f, r.pred(func() string { return d.constName(bit) + " in " + d.str(l, lc) }))
			}
			if !pol {
				f = r.b.not(f)
			}
			return f
		}
	}
	return r.pred(func() string {
		s, p := d.literal(v, true, cx)
		if !p {
			return "!" + s
		}
		return s
	})
}

// fails: the falsity of a boolean value. It is not the negation of its truth where a helper decides
// by a loop: some element may end the loop early, or none.
func (r *reacher) fails(v ssa.Value, cx *dctx) int {
	d := r.d
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return r.cond(x.X, cx)
		}
	case *ssa.Parameter:
		if cx != nil && cx.fn == x.Parent() {
			for i, p := range x.Parent().Params {
				if p == x && i < len(cx.args) {
					return r.fails(cx.args[i], cx.parent)
				}
			}
		}
	case *ssa.Call:
		f := x.Call.StaticCallee()
		if f != nil && f.Blocks != nil && f.Signature.Results().Len() == 1 && !d.knownAt(f, x) && cxDepth(cx) < 8 && !onPath(cx, f) && f.Parent() == nil && len(d.cd(f).hdr.header) > 0 {
			nc := &dctx{fn: f, args: x.Call.Args, parent: cx, call: x}
			res := bF
			for _, b := range f.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					res = r.b.or(res, r.b.and(r.block(b, nc), r.fails(rt.Results[0], nc)))
				}
			}
			return res
		}
	case *ssa.Phi:
		if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool && !d.cd(x.Block().Parent()).hdr.header[x.Block()] {
			k := boolKey{v, cx}
			if f, ok := r.fm[k]; ok {
				return f
			}
			r.fm[k] = bF
			f := bF
			for i, e := range x.Edges {
				f = r.b.or(f, r.b.and(r.edge(x.Block().Preds[i], x.Block(), cx), r.fails(e, cx)))
			}
			r.fm[k] = f
			return f
		}
	}
	return r.b.not(r.cond(v, cx))
}

// pred: a condition text as a formula, distributed over the choices in it; a leading ! negates.
func (r *reacher) pred(text func() string) int {
	// how often a loop goes round is one question
	if s := r.d.noPick(text); counterVar(strings.TrimPrefix(s, "!")) {
		if strings.HasPrefix(s, "!") {
			return r.b.not(r.lit(s[1:]))
		}
		return r.lit(s)
	}
	f := bF
	for _, a := range r.choices(text) {
		var g int
		if strings.HasPrefix(a.s, "!") {
			g = r.b.not(r.lit(a.s[1:]))
		} else {
			g = r.lit(a.s)
		}
		f = r.b.or(f, r.b.and(a.f, g))
	}
	return f
}

func (r *reacher) lit(s string) int {
	if a, b, ok := strings.Cut(s, "=="); ok {
		x, err1 := strconv.Atoi(a)
		y, err2 := strconv.Atoi(b)
		if err1 == nil && err2 == nil {
			s = strconv.FormatBool(x == y)
		}
	} else if a, b, ok := strings.Cut(s, "<"); ok {
		x, err1 := strconv.Atoi(a)
		y, err2 := strconv.Atoi(b)
		if err1 == nil && err2 == nil {
			s = strconv.FormatBool(x < y)
		}
	}
	switch s {
	case "true":
		return bT
	case "false":
		return bF
	}
	return r.b.v(s)
}

// choices: the texts for each way the choices in a text can be decided, with the conditions. Past
// the limit the text with the choices as sets is used.
func (r *reacher) choices(text func() string) []alt {
	d := r.d
	clean := func(f func() int) int {
		p, o, on := d.pick, d.open, d.openOn
		d.pick, d.open, d.openOn = nil, nil, false
		x := f()
		d.pick, d.open, d.openOn = p, o, on
		return x
	}
	p, o, on := d.pick, d.open, d.openOn
	defer func() { d.pick, d.open, d.openOn = p, o, on }()
	d.pick = map[pickKey]int{}
	m := map[string]int{}
	n := 0
	var rec func(cond, depth int) bool
	rec = func(cond, depth int) bool {
		d.open, d.openOn = nil, true
		t := text()
		k, kcx := d.open, d.openCx
		d.open, d.openOn = nil, false
		if k == nil {
			m[t] = r.b.or(m[t], cond)
			n++
			return n <= 64 && len(m) <= 8
		}
		if depth > 12 {
			return false
		}
		cx := kcx
		var conds []func() int
		switch x := k.v.(type) {
		case *ssa.Phi:
			for i := range x.Edges {
				pr := x.Block().Preds[i]
				conds = append(conds, func() int { return r.edge(pr, x.Block(), cx) })
			}
		default:
			c, _ := callOf(x)
			g := c.Call.StaticCallee()
			nc := &dctx{fn: g, args: c.Call.Args, parent: cx, call: c}
			for _, rt := range d.returns(g, k.i) {
				rb := rt.Block()
				conds = append(conds, func() int { return r.block(rb, nc) })
			}
		}
		for i, cf := range conds {
			d.inPick[*k] = true
			c := r.b.and(cond, clean(cf))
			delete(d.inPick, *k)
			if c == bF {
				continue
			}
			d.pick[*k] = i
			if !rec(c, depth+1) {
				return false
			}
			delete(d.pick, *k)
		}
		return true
	}
	if !rec(bT, 0) || len(m) == 0 {
		d.pick, d.open, d.openOn = nil, nil, false
		return []alt{{text(), bT}}
	}
	var out []alt
	for _, s := range sortedKeys(m) {
		out = append(out, alt{s, m[s]})
	}
	return out
}

// phiCmp: a comparison of a choice with a constant is the choice of the comparisons.
func (r *reacher) phiCmp(x *ssa.BinOp, cx *dctx) (int, bool) {
	v, cy := x.X, x.Y
	if _, ok := v.(*ssa.Const); ok {
		v, cy = cy, v
	}
	c, ok := cy.(*ssa.Const)
	if !ok {
		return 0, false
	}
	if !r.isChoice(v, cx) {
		return 0, false
	}
	f := 0
	if isErrorType(v.Type()) && c.Value == nil {
		f = r.b.not(r.errSet(v, cx, 0))
	} else {
		f = r.eqConst(v, c, cx, 0)
	}
	if x.Op == token.NEQ {
		f = r.b.not(f)
	}
	return f, true
}

func (r *reacher) isChoice(v ssa.Value, cx *dctx) bool {
	v, cx = r.d.peel(v, cx)
	switch x := v.(type) {
	case *ssa.Phi:
		return !r.d.cd(x.Block().Parent()).hdr.header[x.Block()]
	case *ssa.Call, *ssa.Extract:
		c, _ := callOf(v)
		if c == nil {
			return false
		}
		f := c.Call.StaticCallee()
		return f != nil && f.Blocks != nil && !r.d.knownAt(f, c) && f.Parent() == nil && cxDepth(cx) < 8 && !onPath(cx, f)
	}
	return false
}

// errSet: an error value is present. (Not the negation of it being absent: the condition of a
// return of no error takes the checks before it as passed.)
func (r *reacher) errSet(v ssa.Value, cx *dctx, depth int) int {
	v, cx = r.d.peel(v, cx)
	switch x := v.(type) {
	case *ssa.Const:
		return bF
	case *ssa.MakeInterface:
		return bT
	case *ssa.Phi:
		if depth < 6 && r.isChoice(v, cx) {
			f := bF
			for i, e := range x.Edges {
				f = r.b.or(f, r.b.and(r.edge(x.Block().Preds[i], x.Block(), cx), r.errSet(e, cx, depth+1)))
			}
			return f
		}
	case *ssa.Call, *ssa.Extract:
		if depth < 6 && r.isChoice(v, cx) {
			f := bF
			call, idx := callOf(v)
			g := call.Call.StaticCallee()
			nc := &dctx{fn: g, args: call.Call.Args, parent: cx, call: call}
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
					f = r.b.or(f, r.b.and(r.block(b, nc), r.errSet(rt.Results[idx], nc, depth+1)))
				}
			}
			return f
		}
	}
	return r.b.not(r.pred(func() string { return r.d.str(v, cx) + "==nil" }))
}

func (r *reacher) eqConst(v ssa.Value, c *ssa.Const, cx *dctx, depth int) int {
	v, cx = r.d.peel(v, cx)
	if k, ok := v.(*ssa.Const); ok {
		if k.Value == nil || c.Value == nil {
			if k.Value == nil && c.Value == nil {
				return bT
			}
			return bF
		}
		if k.Value.Kind() == c.Value.Kind() && constant.Compare(k.Value, token.EQL, c.Value) {
			return bT
		}
		return bF
	}
	if mi, ok := v.(*ssa.MakeInterface); ok && c.Value == nil {
		_ = mi
		return bF
	}
	if depth < 6 && r.isChoice(v, cx) {
		f := bF
		switch x := v.(type) {
		case *ssa.Phi:
			for i, e := range x.Edges {
				if c.Value == nil && derefedIn(e, x.Block().Preds[i], cx) {
					continue
				}
				f = r.b.or(f, r.b.and(r.edge(x.Block().Preds[i], x.Block(), cx), r.eqConst(e, c, cx, depth+1)))
			}
		default:
			call, idx := callOf(v)
			g := call.Call.StaticCallee()
			nc := &dctx{fn: g, args: call.Call.Args, parent: cx, call: call}
			for _, b := range g.Blocks {
				if rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(rt.Results) {
					if r.d.cd(g).errOut[b] && !isErrorType(rt.Results[idx].Type()) {
						continue
					}
					if c.Value == nil && derefedIn(rt.Results[idx], b, nc) {
						continue
					}
					f = r.b.or(f, r.b.and(r.block(b, nc), r.eqConst(rt.Results[idx], c, nc, depth+1)))
				}
			}
		}
		return f
	}
	return r.pred(func() string { return r.d.str(v, cx) + "==" + r.d.constName(c) })
}

// derefedIn: v, or the argument it stands for, was dereferenced on the way to b.
func derefedIn(v ssa.Value, b *ssa.BasicBlock, cx *dctx) bool {
	for {
		if derefed(v, b) {
			return true
		}
		p, ok := v.(*ssa.Parameter)
		if !ok || cx == nil || cx.fn != p.Parent() || cx.call == nil {
			return false
		}
		i := 0
		for i < len(cx.fn.Params) && cx.fn.Params[i] != p {
			i++
		}
		if i >= len(cx.args) {
			return false
		}
		v, b, cx = cx.args[i], cx.call.Block(), cx.parent
	}
}

// derefed: v was dereferenced on the way to b, here or in a helper, so it is not nil there.
func derefed(v ssa.Value, b *ssa.BasicBlock) bool { return derefed1(v, b, 0) }

func derefed1(v ssa.Value, b *ssa.BasicBlock, depth int) bool {
	if v.Referrers() == nil || depth > 3 {
		return false
	}
	for _, u := range *v.Referrers() {
		switch u := u.(type) {
		case *ssa.FieldAddr:
			if u.X == v && u.Block().Dominates(b) {
				return true
			}
		case *ssa.Call:
			g := u.Call.StaticCallee()
			if g == nil || g.Blocks == nil || !u.Block().Dominates(b) {
				continue
			}
			for i, a := range u.Call.Args {
				if a == v && i < len(g.Params) && derefed1(g.Params[i], g.Blocks[0], depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// site: the condition of a program point, followed into the callers of unreviewed functions.
// Each result is one calling context.
type siteCond struct {
	fn    string
	f     int
	cx    *dctx
	root  *ssa.Function
	label string
}

func (r *reacher) sites(b *ssa.BasicBlock) []siteCond {
	d := r.d
	var rec func(f *ssa.Function, frames []ssa.CallInstruction, depth int) []siteCond
	rec = func(f *ssa.Function, frames []ssa.CallInstruction, depth int) []siteCond {
		if !d.isKnown(f) && f.Parent() == nil && depth < 4 && len(d.callers[f]) > 0 {
			var out []siteCond
			for _, c := range d.callers[f] {
				if c.Parent() == f {
					continue
				}
				out = append(out, rec(c.Parent(), append(append([]ssa.CallInstruction{}, frames...), c), depth+1)...)
			}
			return out
		}
		n := len(frames)
		cxs := make([]*dctx, n+1)
		var parent *dctx
		for i := n - 1; i >= 0; i-- {
			parent = &dctx{fn: frames[i].Common().StaticCallee(), args: frames[i].Common().Args, parent: parent, call: frames[i]}
			cxs[i] = parent
		}
		g := r.block(b, cxs[0])
		for i, c := range frames {
			g = r.b.and(g, r.b.and(r.block(c.Block(), cxs[i+1]), r.passes(c.Block(), c, cxs[i+1])))
		}
		root := f
		for root.Parent() != nil {
			if mc := closureOf(root); mc != nil {
				g = r.b.and(g, r.block(mc.Block(), nil))
			}
			root = root.Parent()
		}
		if v := d.asValue(root); v != nil {
			g = r.b.and(g, r.block(v.at.Block(), nil))
			for root = v.at.Parent(); root.Parent() != nil; root = root.Parent() {
			}
		}
		label := ""
		chain := []*ssa.Function{b.Parent()}
		for _, c := range frames {
			chain = append(chain, c.Parent())
		}
		for _, q := range chain {
			for ; q != nil && label == ""; q = q.Parent() {
				label = d.handler(q)
			}
		}
		return []siteCond{{d.name(root), r.b.simplify(g), cxs[0], root, label}}
	}
	return rec(b.Parent(), nil, 0)
}

// leavesLoop: the edge p->b leaves a loop that p is in.
func (r *reacher) leavesLoop(p, b *ssa.BasicBlock) bool {
	for h, body := range r.d.cd(b.Parent()).hdr.body {
		_ = h
		if body[p] && !body[b] {
			return true
		}
	}
	return false
}

// counterVar: a bound of a loop counter, or a range iterator.
func counterVar(s string) bool {
	if strings.HasPrefix(s, "more(") {
		return true
	}
	return (strings.HasPrefix(s, "*") || strings.Contains(s, "<*")) && !strings.Contains(s, "==")
}

// contPolarity: the truth of the bound under which the loop goes on.
func contPolarity(s string) bool {
	if strings.HasPrefix(s, "more(") {
		return true
	}
	return strings.HasPrefix(s, "*") != strings.Contains(s, "*down")
}

// onPath: the function is being looked through already.
func onPath(cx *dctx, f *ssa.Function) bool {
	for ; cx != nil; cx = cx.parent {
		if cx.fn == f {
			return true
		}
	}
	return false
}

// isNamedConst: a constant of a flag type of the module.
func isNamedConst(c *ssa.Const) bool {
	n, ok := c.Type().(*types.Named)
	return ok && n.Obj().Pkg() != nil && inMod(n.Obj().Pkg())
}
