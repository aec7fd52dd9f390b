package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Decision tables. For a set of functions, every observable step (an error raised, a field
// written, a state-changing call, a value returned) is listed with the condition under which
// control takes it, in canonical form: conditions are BDDs over condition texts, values are
// described by where they come from, helpers that are not part of the reviewed tree are looked
// through. The table of the reviewed tree is committed; a check recomputes the table from the
// current source and compares, per step, the two conditions as Boolean functions.

type event struct {
	kind string // raise, call, store, build, ret, panic
	fn   string
	code string
	f    int
	at   string
}

type evSpec struct {
	Sigs   map[string]string   `json:"sigs"`
	Fields map[string][]string `json:"fields"`
	Files  map[string]string   `json:"files"`
	Eff    map[string]string   `json:"eff"` // what each reviewed function changes: "" nothing, "*" anything, else parameters
	Vars   []string            `json:"vars"`
	Nodes  [][3]int            `json:"nodes"` // var, lo, hi (indices from 2)
	Events []evEntry           `json:"events"`
}

type evEntry struct {
	Kind string `json:"k"`
	Fn   string `json:"fn"`
	Code string `json:"code"`
	C    int    `json:"c"`
}

type eventer struct {
	d      *descr
	r      *reacher
	impure map[*ssa.Function]*effect
	known  map[string]string // effects as reviewed: a step of a caller stays a step whatever its callee does inside
	invk   map[string][]*ssa.Function
}

func newEventer(d *descr, r *reacher) *eventer {
	e := &eventer{d: d, r: r, impure: map[*ssa.Function]*effect{}, invk: map[string][]*ssa.Function{}}
	for _, f := range d.p.All {
		if f.Signature.Recv() != nil && f.Synthetic == "" {
			e.invk[f.Name()] = append(e.invk[f.Name()], f)
		}
	}
	return e
}

var pureExt = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "bytes": true,
	"errors": true, "path": true, "path/filepath": true, "math/bits": true, "unicode/utf16": true, "reflect": true}
var pureFns = map[string]bool{"fmt.Sprintf": true, "fmt.Errorf": true, "fmt.Sprint": true, "regexp.MustCompile": true}

// writeRoot: what a written address belongs to: memory made here (nil, true), the i-th parameter
// (param, true), or anything else (nil, false).
func writeRoot(v ssa.Value) (*ssa.Parameter, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return nil, true
		case *ssa.Parameter:
			return x, true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp: // a local variable holding memory made here
			al, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return nil, false
			}
			var src ssa.Value
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al {
					if src != nil {
						return nil, false
					}
					src = st.Val
				}
			}
			if src == nil {
				return nil, false
			}
			v = src
		default:
			return nil, false
		}
	}
}

// effect of a function its caller can observe: on anything, or only on what parameter i refers to.
type effect struct {
	any    bool
	params map[int]bool
}

// isImpure: the function may change state its caller can observe (token lookahead excepted).
func (e *eventer) isImpure(f *ssa.Function) bool {
	x := e.effectOf(f)
	return x.any || len(x.params) > 0
}

var pureEffect = &effect{}
var anyEffect = &effect{any: true}

func (e *eventer) effectOf(f *ssa.Function) *effect {
	if x, ok := e.impure[f]; ok {
		return x
	}
	if f.Parent() == nil {
		if k, ok := e.known[shortFn(f.String())]; ok {
			x := effFrom(k)
			e.impure[f] = x
			return x
		}
	}
	e.impure[f] = pureEffect
	x := e.effect1(f)
	e.impure[f] = x
	return x
}

func (e *eventer) effect1(f *ssa.Function) *effect {
	if f.Pkg != nil && !inMod(f.Pkg.Pkg) || f.Pkg == nil && f.Blocks == nil {
		pk := ""
		if f.Pkg != nil {
			pk = f.Pkg.Pkg.Path()
		}
		if !pureExt[pk] && !pureFns[pk+"."+f.Name()] {
			return anyEffect
		}
		return pureEffect
	}
	if n := recvNamed(f); n != nil && (n.Obj().Name() == "Lexer" && strings.HasPrefix(f.Name(), "Peek") || n.Obj().Name() == "Source" && (strings.HasPrefix(f.Name(), "Peek") || strings.HasPrefix(f.Name(), "Ahead"))) {
		return pureEffect
	}
	if f.Name() == "TokText" || f.Name() == "Text" { // text of a token, cached on first use
		return pureEffect
	}
	x := &effect{params: map[int]bool{}}
	write := func(v ssa.Value) {
		p, ok := writeRoot(v)
		if !ok {
			x.any = true
		} else if p != nil {
			for i, q := range f.Params {
				if q == p {
					x.params[i] = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				write(i.Addr)
			case *ssa.MapUpdate:
				write(i.Map)
			case *ssa.Send, *ssa.Go, *ssa.Select:
				x.any = true
			case ssa.CallInstruction:
				any, args := e.callEffect(i.Common())
				if any {
					x.any = true
				}
				for _, a := range args {
					write(a)
				}
			}
			if x.any {
				return anyEffect
			}
		}
	}
	if len(x.params) == 0 {
		return pureEffect
	}
	return x
}

// callEffect: whether the call may change anything, or else the arguments whose referents it changes.
func (e *eventer) callEffect(c *ssa.CallCommon) (bool, []ssa.Value) {
	if c.IsInvoke() {
		if c.Method.Pkg() != nil && !inMod(c.Method.Pkg()) {
			return c.Method.Name() != "Error" && c.Method.Name() != "String", nil
		}
		for _, g := range e.invk[c.Method.Name()] {
			if e.isImpure(g) {
				return true, nil
			}
		}
		return false, nil
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear":
			return false, c.Args[:1]
		case "close", "panic", "print", "println":
			return true, nil
		}
		return false, nil
	}
	g := c.StaticCallee()
	if g == nil {
		return true, nil
	}
	x := e.effectOf(g)
	if x.any {
		return true, nil
	}
	var out []ssa.Value
	for i, a := range c.Args {
		if x.params[i] {
			out = append(out, a)
		}
	}
	return false, out
}

// callImpure: the call changes something.
func (e *eventer) callImpure(c *ssa.CallCommon) bool {
	any, args := e.callEffect(c)
	return any || len(args) > 0
}

type alt struct {
	s string
	f int
}

// alts: the alternatives of a value, each with the condition it is chosen under.
func (e *eventer) alts(v ssa.Value, cx *dctx, depth int) []alt {
	d, r := e.d, e.r
	one := func() []alt { return r.choices(func() string { return d.str(v, cx) }) }
	if depth > 6 {
		return one()
	}
	if in, ok := v.(ssa.Instruction); ok && in.Parent() != nil && d.cycle(in.Parent(), v) != nil {
		if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
			return one()
		}
	}
	if bt, ok := v.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
		if _, isC := v.(*ssa.Const); !isC {
			f := r.cond(v, cx)
			var out []alt
			if f != bF {
				out = append(out, alt{"true", f})
			}
			if g := r.b.not(f); g != bF {
				out = append(out, alt{"false", g})
			}
			return out
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return e.alts(x.X, cx, depth)
	case *ssa.ChangeInterface:
		return e.alts(x.X, cx, depth)
	case *ssa.MakeInterface:
		return e.alts(x.X, cx, depth)
	case *ssa.Convert:
		return e.alts(x.X, cx, depth)
	case *ssa.Parameter:
		if cx != nil && cx.fn == x.Parent() {
			for i, p := range x.Parent().Params {
				if p == x && i < len(cx.args) {
					return e.alts(cx.args[i], cx.parent, depth)
				}
			}
		}
	case *ssa.Phi:
		if d.cd(x.Block().Parent()).hdr.header[x.Block()] {
			return one()
		}
		m := map[string]int{}
		for i, ed := range x.Edges {
			c := r.edge(x.Block().Preds[i], x.Block(), cx)
			for _, a := range e.alts(ed, cx, depth+1) {
				if g := r.b.and(c, a.f); g != bF {
					m[a.s] = r.b.or(m[a.s], g)
				}
			}
		}
		if len(m) > altCap(v) || len(m) == 0 {
			return one()
		}
		var out []alt
		for _, s := range sortedKeys(m) {
			out = append(out, alt{s, m[s]})
		}
		return out
	case *ssa.Call, *ssa.Extract:
		var c *ssa.Call
		idx := 0
		if q, ok := x.(*ssa.Call); ok {
			c = q
		} else if ex := x.(*ssa.Extract); true {
			if c, _ = ex.Tuple.(*ssa.Call); c == nil {
				return one()
			}
			idx = ex.Index
		}
		f := c.Call.StaticCallee()
		if f == nil || f.Blocks == nil || d.knownAt(f, c) || cxDepth(cx) >= 8 || onPath(cx, f) {
			return one()
		}
		if f.Parent() != nil {
			return one()
		}
		nc := &dctx{fn: f, args: c.Call.Args, parent: cx, call: c}
		m := map[string]int{}
		for _, b := range f.Blocks {
			rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || idx >= len(rt.Results) || d.cd(f).errOut[b] && !isErrorType(rt.Results[idx].Type()) {
				continue
			}
			c := r.block(b, nc)
			for _, a := range e.alts(rt.Results[idx], nc, depth+1) {
				if isErrorType(rt.Results[idx].Type()) && a.s != "nil" && !isRaise(a.s) {
					a.f = r.b.and(a.f, r.b.not(r.b.v(a.s+"==nil")))
				}
				if g := r.b.and(c, a.f); g != bF {
					m[a.s] = r.b.or(m[a.s], g)
				}
			}
		}
		if len(m) > altCap(v) || len(m) == 0 {
			return one()
		}
		var out []alt
		for _, s := range sortedKeys(m) {
			out = append(out, alt{s, m[s]})
		}
		return out
	}
	return one()
}

// Alternatives of an error value are never merged: which error is handed on is what is compared.
func altCap(v ssa.Value) int {
	if isErrorType(v.Type()) {
		return 400
	}
	return 24
}

// product: the combinations of the values' alternatives, each with its condition (site included).
// Past the limit each value is listed on its own, as "i=alternative" with the others left out.
func (e *eventer) product(vs []ssa.Value, cx *dctx, site int) ([][]string, []int) {
	combos := [][]string{nil}
	conds := []int{site}
	all := make([][]alt, len(vs))
	for i, v := range vs {
		all[i] = e.alts(v, cx, 0)
	}
	for _, as := range all {
		var nc [][]string
		var nf []int
		for i, c := range combos {
			for _, a := range as {
				g := e.r.b.and(conds[i], a.f)
				if g == bF {
					continue
				}
				nc = append(nc, append(append([]string{}, c...), a.s))
				nf = append(nf, g)
			}
		}
		combos, conds = nc, nf
		if len(combos) > 32 && len(vs) > 1 {
			combos, conds = nil, nil
			for i, as := range all {
				for _, a := range as {
					if g := e.r.b.and(site, a.f); g != bF {
						row := make([]string, len(vs))
						for j := range row {
							row[j] = "_"
						}
						row[i] = a.s
						combos, conds = append(combos, row), append(conds, g)
					}
				}
			}
			return combos, conds
		}
	}
	return combos, conds
}

func (e *eventer) collect(keep func(kind string, f *ssa.Function, code string) bool) []event {
	d, r := e.d, e.r
	acc := map[[3]string]*event{}
	add := func(kind string, sc siteCond, code string, cond int, pos token.Pos, f *ssa.Function) {
		code = sc.label + code
		if cond == bF || keep != nil && !keep(kind, sc.root, code) {
			return
		}
		k := [3]string{kind, sc.fn, code}
		if o, ok := acc[k]; ok {
			o.f = r.b.or(o.f, cond)
			return
		}
		at := d.p.pos(pos)
		if !pos.IsValid() {
			at = d.p.pos(f.Pos())
		}
		acc[k] = &event{kind, sc.fn, code, cond, at}
	}
	for _, f := range d.p.All {
		if !d.pkgs[fnRel(f)] || f.Synthetic != "" || isPkgInit(f) {
			continue
		}
		root := f
		for root.Parent() != nil {
			root = root.Parent()
		}
		if root.Origin() != nil && root.Origin() != root {
			continue // an instance; the generic body is listed
		}
		if !d.isKnown(root) && len(d.callers[root]) == 0 && !d.refs[root] {
			continue // dead or new entry point: nothing in the reviewed tree depends on it
		}
		ci := d.cd(f)
		for _, b := range f.Blocks {
			if b == f.Recover {
				continue
			}
			var scs []siteCond
			cuts := false
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && d.mayPanic(c.Call.StaticCallee(), 0) {
					cuts = true
				}
			}
			var cur ssa.Instruction
			sites := func() []siteCond {
				if scs == nil {
					scs = r.sites(b)
				}
				if !cuts {
					return scs
				}
				var out []siteCond
				for _, sc := range scs {
					sc.f = r.b.and(sc.f, r.passes(b, cur, sc.cx))
					out = append(out, sc)
				}
				return out
			}
			emit := func(kind, pre string, vs []ssa.Value, format func(sc siteCond, as []string) string, pos token.Pos) {
				for _, sc := range sites() {
					cs, fs := e.product(vs, sc.cx, sc.f)
					for i := range cs {
						add(kind, sc, pre+format(sc, cs[i]), fs[i], pos, f)
					}
				}
			}
			for _, in := range b.Instrs {
				cur = in
				switch x := in.(type) {
				case *ssa.Phi:
					if !ci.hdr.header[b] || isInduction(x) || isErrorType(x.Type()) {
						continue
					}
					if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
						continue // where it is used, the flag tells when it is set
					}
					for _, sc := range sites() {
						e.carried(x, sc, func(code string, cond int, pos token.Pos) {
							add("carry", sc, code, cond, pos, f)
						})
					}
				case ssa.CallInstruction:
					cc := x.Common()
					cal := cc.StaticCallee()
					if cal != nil && (isPkgInit(cal) || !d.isKnown(cal) && cal.Parent() == nil) {
						continue
					}
					raise := false
					if v, ok := in.(*ssa.Call); ok && cal != nil && isErrPtr(v.Type()) {
						raise = true
						if rs := f.Signature.Results(); rs.Len() == 1 && isErrPtr(rs.At(0).Type()) && d.isKnown(f) {
							raise = false
						}
					}
					if !raise && !e.callImpure(cc) {
						continue
					}
					if cal != nil && cal.Parent() != nil {
						continue // a local closure: its body is listed
					}
					kind := "call"
					if raise {
						kind = "raise"
					}
					pre := ""
					switch in.(type) {
					case *ssa.Go:
						pre = "go "
					}
					args := cc.Args
					var recv ssa.Value
					name := ""
					switch {
					case cc.IsInvoke():
						recv, name = cc.Value, cc.Method.Name()
					case cal != nil:
						name = d.name(cal)
						if cal.Pkg != nil && !inMod(cal.Pkg.Pkg) {
							name = cal.Pkg.Pkg.Name() + "." + cal.Name()
						}
						if cal.Signature.Recv() != nil {
							recv, args = args[0], args[1:]
						}
					default:
						if bi, ok := cc.Value.(*ssa.Builtin); ok {
							name = bi.Name()
						} else {
							name = "dyn"
							recv = cc.Value
						}
					}
					emit(kind, pre, args, func(sc siteCond, as []string) string {
						rs := ""
						if recv != nil {
							rs = d.str(recv, sc.cx)
							if rs == "recv" || strings.HasPrefix(rs, "recv.") && cal != nil {
								rs = ""
							} else {
								rs += "."
							}
						}
						ver := ""
						if _, isD := in.(*ssa.Defer); !isD && !raise && cal != nil {
							if dom := d.domain(cal); dom >= 0 {
								ver = d.ver(in, sc.cx, dom)
							} else if d.pkgs[fnRel(cal)] && d.contextual(cal) {
								ver = d.ver(in, sc.cx, domInput)
							}
						}
						return rs + name + ver + "(" + strings.Join(as, ", ") + ")"
					}, x.Pos())
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.FreeVar); ok {
						continue
					}
					for _, sc := range sites() {
						al, _ := d.addrRoot(x.Addr, sc.cx)
						fa, isF := x.Addr.(*ssa.FieldAddr)
						if al != nil && !isF { // a local variable
							continue
						}
						fresh := al != nil && (al.Block() == b || isF && d.firstStore(x, fa, al, sc.cx))
						if c, ok := x.Val.(*ssa.Const); ok && fresh && isZeroConst(c) {
							continue // fresh memory is zero already
						}
						cs, fs := e.product([]ssa.Value{x.Val}, sc.cx, sc.f)
						for i := range cs {
							if fresh && zeroText(cs[i][0]) {
								continue
							}
							if al != nil {
								st := fieldName(fa.X.Type(), fa.Field)
								if o, ok := d.fields[st]; ok {
									st = o
								}
								add("build", sc, st+" := "+cs[i][0], fs[i], x.Pos(), f)
							} else {
								addr, ver := d.str(x.Addr, sc.cx), ""
								if strings.HasPrefix(addr, "recv.") && d.stateful(sc.root) {
									ver = d.ver(in, sc.cx, domInput)
								}
								add("store", sc, addr+ver+" := "+cs[i][0], fs[i], x.Pos(), f)
							}
						}
					}
				case *ssa.MapUpdate:
					emit("store", "", []ssa.Value{x.Key, x.Value}, func(sc siteCond, as []string) string {
						return d.str(x.Map, sc.cx) + "[" + as[0] + "] := " + as[1]
					}, x.Pos())
				case *ssa.Send:
					emit("call", "", []ssa.Value{x.X}, func(sc siteCond, as []string) string {
						return d.str(x.Chan, sc.cx) + " <- " + as[0]
					}, x.Pos())
				case *ssa.Panic:
					if k, ok := unboxed(x.X).(*ssa.Const); ok && !x.Pos().IsValid() && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == "blocking select matched no case" {
						continue // never reached: the compiler's closing of a select
					}
					emit("panic", "panic ", []ssa.Value{x.X}, func(sc siteCond, as []string) string { return as[0] }, x.Pos())
				case *ssa.Return:
					if f.Parent() == nil && !d.isKnown(f) {
						continue
					}
					cl := ""
					if f.Parent() != nil {
						cl = "closure "
					}
					if ci.errOut[b] {
						rv := x.Results[len(x.Results)-1]
						for _, sc := range sites() {
							if f.Parent() == nil {
								add("err", sc, "", sc.f, x.Pos(), f)
							}
							for _, a := range e.alts(rv, sc.cx, 0) {
								if !isRaise(a.s) && a.s != "nil" {
									add("fail", sc, cl+"fails with "+a.s, r.b.and(sc.f, a.f), x.Pos(), f)
								}
							}
						}
						continue
					}
					for i, rv := range x.Results {
						if i == len(x.Results)-1 && isErrorType(rv.Type()) {
							// handing an error on unchecked is the same as checking and returning it
							for _, sc := range sites() {
								for _, a := range e.alts(rv, sc.cx, 0) {
									if a.s != "nil" && !isRaise(a.s) {
										add("fail", sc, cl+"fails with "+a.s, r.b.and(r.b.and(sc.f, a.f), r.b.not(r.b.v(a.s+"==nil"))), x.Pos(), f)
									}
								}
							}
							continue
						}
						if bt, ok := rv.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
							for _, sc := range sites() {
								add("ret", sc, cl+"ret"+strconv.Itoa(i)+" true", r.b.and(sc.f, r.cond(rv, sc.cx)), x.Pos(), f)
							}
							continue
						}
						emit("ret", cl+"ret"+strconv.Itoa(i)+" := ", []ssa.Value{rv}, func(sc siteCond, as []string) string { return as[0] }, x.Pos())
					}
				}
			}
		}
	}
	var out []event
	for _, ev := range acc {
		ev.f = r.b.simplify(ev.f)
		out = append(out, *ev)
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.fn != b.fn {
			return a.fn < b.fn
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		return a.code < b.code
	})
	return out
}

// carried: the values a variable takes from one iteration of the loop headed by h to the next,
// each with the condition it is taken under.
func (e *eventer) carried(h *ssa.Phi, sc siteCond, add func(code string, cond int, pos token.Pos)) {
	d, r := e.d, e.r
	head := h.Block()
	seen := map[ssa.Value]bool{h: true}
	type leaf struct {
		v    ssa.Value
		cx   *dctx
		cond int
	}
	var leaves []leaf
	path := map[ssa.Value]bool{h: true}
	steps := 0
	var rec func(v ssa.Value, cx *dctx, cond, depth int)
	phi := func(p *ssa.Phi, cx *dctx, cond, depth int) {
		for i, ev := range p.Edges {
			pred := p.Block().Preds[i]
			if p == h && !head.Dominates(pred) {
				continue // the value before the loop
			}
			rec(ev, cx, r.b.and(cond, r.edge(pred, p.Block(), cx)), depth)
		}
	}
	rec = func(v ssa.Value, cx *dctx, cond, depth int) {
		switch x := v.(type) {
		case *ssa.Phi:
			if path[x] {
				return
			}
			if isInduction(x) || x.Parent() == head.Parent() && !head.Dominates(x.Block()) {
				break
			}
			if steps++; steps > 4096 {
				break
			}
			seen[x], path[x] = true, true
			phi(x, cx, cond, depth)
			delete(path, x)
			return
		case *ssa.Parameter:
			if cx != nil && cx != sc.cx && cx.fn == x.Parent() {
				for i, p := range x.Parent().Params {
					if p == x && i < len(cx.args) {
						rec(cx.args[i], cx.parent, cond, depth)
						return
					}
				}
			}
		case *ssa.Call, *ssa.Extract:
			c, _ := x.(*ssa.Call)
			idx := 0
			if ex, ok := x.(*ssa.Extract); ok {
				c, _ = ex.Tuple.(*ssa.Call)
				idx = ex.Index
			}
			if c == nil || depth > 4 {
				break
			}
			f := c.Call.StaticCallee()
			if f == nil || f.Blocks == nil || d.knownAt(f, c) || cxDepth(cx) >= 8 || onPath(cx, f) || f.Parent() != nil {
				break
			}
			nc := &dctx{fn: f, args: c.Call.Args, parent: cx, call: c}
			for _, b := range f.Blocks {
				rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if ok && idx < len(rt.Results) && !d.cd(f).errOut[b] {
					rec(rt.Results[idx], nc, r.b.and(cond, r.block(b, nc)), depth+1)
				}
			}
			return
		}
		leaves = append(leaves, leaf{v, cx, cond})
	}
	phi(h, sc.cx, sc.f, 0)
	for i := 0; i < len(leaves); i++ {
		l := leaves[i]
		cyc := d.cycle(head.Parent(), l.v)
		in := map[ssa.Value]bool{}
		for _, c := range d.cycle(head.Parent(), h) {
			in[c] = true
		}
		for _, c := range cyc {
			in[c] = true
		}
		if x, ok := l.v.(ssa.Instruction); ok && !isInduction(l.v) { // an update of an update
			for _, w := range d.valueOps(x, 0) {
				wx := l.cx
				for {
					p, ok := w.(*ssa.Parameter)
					if !ok || wx == nil || wx == sc.cx || wx.fn != p.Parent() {
						break
					}
					i := 0
					for i < len(p.Parent().Params) && p.Parent().Params[i] != p {
						i++
					}
					if i >= len(wx.args) {
						break
					}
					w, wx = wx.args[i], wx.parent
				}
				if _, isPhi := w.(*ssa.Phi); in[w] && !isPhi && types.Identical(w.Type(), l.v.Type()) {
					dup := false
					for _, o := range leaves {
						dup = dup || o.v == w && o.cond == l.cond
					}
					if !dup {
						leaves = append(leaves, leaf{w, wx, l.cond})
					}
				}
			}
		}
		for _, a := range r.choices(func() string {
			s := map[ssa.Value]bool{}
			for k := range seen {
				s[k] = true
			}
			for k := range in {
				if _, ok := k.(*ssa.Phi); ok || types.Identical(k.Type(), h.Type()) {
					s[k] = true
				}
			}
			d.unroll = in
			defer func() { d.unroll = nil }()
			if cyc != nil {
				return d.desc1(l.v, l.cx, 0, s)
			}
			return d.desc(l.v, l.cx, 0, s)
		}) {
			if a.s != "~" {
				add("carries "+a.s, r.b.and(l.cond, a.f), h.Pos())
			}
		}
	}
}

func (d *descr) stateful(f *ssa.Function) bool {
	n := recvNamed(f)
	if n == nil {
		return false
	}
	switch n.Obj().Name() {
	case "Parser", "Lexer", "Source":
		return true
	}
	return false
}

// contextual: a change of the parsing context, whose place among the advances matters.
func (d *descr) contextual(f *ssa.Function) bool {
	n := recvNamed(f)
	return n != nil && (n.Obj().Name() == "Scope" || n.Obj().Name() == "SymTab")
}

func isRaise(s string) bool {
	return strings.HasPrefix(s, "Parser.error") || strings.HasPrefix(s, "Lexer.error") || strings.HasPrefix(s, "Lexer.errChar")
}

// firstStore: no other store to the field of the object can come before st.
func (d *descr) firstStore(st *ssa.Store, fa *ssa.FieldAddr, al *ssa.Alloc, cx *dctx) bool {
	var at ssa.Instruction = st
	base := fa.X
	for {
		if !firstAt(base, fa.Field, at, st) {
			return false
		}
		if base == al {
			return true
		}
		p, ok := base.(*ssa.Parameter)
		if !ok || cx == nil || cx.fn != p.Parent() || cx.call == nil {
			return false
		}
		i := 0
		for i < len(p.Parent().Params) && p.Parent().Params[i] != p {
			i++
		}
		if i >= len(cx.args) {
			return false
		}
		base, at, cx = cx.args[i], cx.call, cx.parent
		if _, isDefer := at.(*ssa.Defer); isDefer {
			return false
		}
	}
}

// firstAt: in the function of base, nothing stores to the field of *base before at.
func firstAt(base ssa.Value, field int, at ssa.Instruction, st *ssa.Store) bool {
	if base.Referrers() == nil {
		return false
	}
	for _, r := range *base.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.Field != field || r.X != base {
				continue
			}
			for _, u := range *r.Referrers() {
				if o, ok := u.(*ssa.Store); ok && o.Addr == r && o != st {
					if c, isC := o.Val.(*ssa.Const); isC && isZeroConst(c) {
						continue
					}
					if precedes(o, at) {
						return false
					}
				}
			}
		case *ssa.Store:
			if r.Addr == base && precedes(r, at) { // stored as a whole
				return false
			}
		case *ssa.Call:
			g := r.Call.StaticCallee()
			if r == at || g == nil || !precedes(r, at) {
				continue
			}
			for i, a := range r.Call.Args {
				if a == base && i < len(g.Params) && storesField(g.Params[i], field, 0) {
					return false
				}
			}
		}
	}
	return true
}

// storesField: the function of the parameter sets the field, itself or through what it calls.
func storesField(p *ssa.Parameter, field, depth int) bool {
	if p.Parent().Blocks == nil || p.Referrers() == nil || depth > 3 {
		return false
	}
	for _, r := range *p.Referrers() {
		switch r := r.(type) {
		case *ssa.FieldAddr:
			if r.Field == field && r.X == p {
				for _, u := range *r.Referrers() {
					if o, ok := u.(*ssa.Store); ok && o.Addr == r {
						return true
					}
				}
			}
		case *ssa.Call:
			if g := r.Call.StaticCallee(); g != nil && g != p.Parent() {
				for i, a := range r.Call.Args {
					if a == p && i < len(g.Params) && storesField(g.Params[i], field, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// precedes: execution may come from a to b.
func precedes(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
		for _, s := range a.Block().Succs {
			if flowsTo(s, b.Block()) {
				return true
			}
		}
		return false
	}
	return flowsTo(a.Block(), b.Block())
}

func flowsTo(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, s := range x.Succs {
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

func zeroText(s string) bool { return s == "false" || s == "nil" || s == "0" || s == `""` }

func isZeroConst(c *ssa.Const) bool {
	if c.Value == nil {
		return true
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return !constant.BoolVal(c.Value)
	case constant.String:
		return constant.StringVal(c.Value) == ""
	case constant.Int, constant.Float:
		return constant.Sign(c.Value) == 0
	}
	return false
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// ---- spec ----

func effFrom(k string) *effect {
	switch k {
	case "":
		return pureEffect
	case "*":
		return anyEffect
	}
	x := &effect{params: map[int]bool{}}
	for _, s := range strings.Split(k, ",") {
		i, _ := strconv.Atoi(s)
		x.params[i] = true
	}
	return x
}

func (x *effect) String() string {
	if x.any {
		return "*"
	}
	var l []int
	for i := range x.params {
		l = append(l, i)
	}
	sort.Ints(l)
	var s []string
	for _, i := range l {
		s = append(s, strconv.Itoa(i))
	}
	return strings.Join(s, ",")
}

func (e *eventer) mine(evs []event, fields map[string][]string) *evSpec {
	sp := &evSpec{Sigs: e.d.sigs(), Fields: fields, Files: e.d.fnFiles()}
	sp.Eff = map[string]string{}
	for _, f := range e.d.p.All {
		if f.Parent() == nil && !isInit(f) {
			sp.Eff[shortFn(f.String())] = e.effectOf(f).String()
		}
	}
	vid := map[string]int{}
	nid := map[int]int{bF: 0, bT: 1}
	var rec func(x int) int
	rec = func(x int) int {
		if i, ok := nid[x]; ok {
			return i
		}
		n := e.r.b.nodes[x]
		lo, hi := rec(n.lo), rec(n.hi)
		v, ok := vid[n.v]
		if !ok {
			v = len(sp.Vars)
			vid[n.v] = v
			sp.Vars = append(sp.Vars, n.v)
		}
		sp.Nodes = append(sp.Nodes, [3]int{v, lo, hi})
		nid[x] = len(sp.Nodes) + 1
		return nid[x]
	}
	for _, ev := range evs {
		sp.Events = append(sp.Events, evEntry{ev.kind, ev.fn, ev.code, rec(ev.f)})
	}
	return sp
}

func (sp *evSpec) load(b *bdd) []event {
	m := []int{bF, bT}
	for _, n := range sp.Nodes {
		m = append(m, b.ite(b.v(sp.Vars[n[0]]), m[n[2]], m[n[1]]))
	}
	var out []event
	for _, e := range sp.Events {
		out = append(out, event{e.Kind, e.Fn, e.Code, m[e.C], ""})
	}
	return out
}

func isPkgInit(f *ssa.Function) bool { return f.Name() == "init" && f.Signature.Recv() == nil }

func unboxed(v ssa.Value) ssa.Value {
	if m, ok := v.(*ssa.MakeInterface); ok {
		return m.X
	}
	return v
}

// findNovel: calls that a reviewed function did not make, to plain functions of the same packages.
func (e *eventer) findNovel(sigs map[string]string) {
	d := e.d
	d.novel = map[[2]*ssa.Function]bool{}
	for _, f := range d.p.All {
		sg, ok := sigs[d.name(f)]
		if !ok || !d.pkgs[fnRel(f)] || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		_, cs, _ := strings.Cut(sg, " :: ")
		had := toSet(strings.Split(cs, ","))
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if g := c.Call.StaticCallee(); g != nil && g != f && d.isKnown(g) && d.pkgs[fnRel(g)] && !had[d.name(g)] && e.isPlain(g) {
					d.novel[[2]*ssa.Function{f, g}] = true
				}
			}
		}
	}
}

// isPlain: only computes one value from what it reads; makes nothing and cannot fail.
func (e *eventer) isPlain(f *ssa.Function) bool {
	if f.Blocks == nil || f.Signature.Results().Len() != 1 || isErrorType(f.Signature.Results().At(0).Type()) || e.isImpure(f) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Alloc, *ssa.Panic, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeClosure, *ssa.MakeChan, *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send:
				return false
			}
		}
	}
	return true
}
