package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Does parsing end? Two abstract interpretations over the loops of the scanner and the parser.
//
// At the end of the input: every character read is the end mark and every token the end token.
// A loop whose body can, in that state, reach its head again never ends.
//
// Before the end: every way round a loop must have consumed something.

type avKind int

const (
	avBot avKind = iota
	avConst
	avNil
	avSome // not nil
	avEnd  // the end-of-input token
	avTop
)

type av struct {
	k avKind
	c constant.Value
}

func (a av) String() string {
	switch a.k {
	case avConst:
		return a.c.ExactString()
	case avBot:
		return "⊥"
	case avNil:
		return "nil"
	case avSome:
		return "some"
	case avEnd:
		return "end"
	}
	return "⊤"
}

func (a av) notNil() bool { return a.k == avSome || a.k == avEnd }

func joinAv(a, b av) av {
	switch {
	case a.k == avBot:
		return b
	case b.k == avBot:
		return a
	case a.k == avConst && b.k == avConst && constant.Compare(a.c, token.EQL, b.c):
		return a
	case a.k == b.k && a.k != avConst:
		return a
	case a.notNil() && b.notNil():
		return av{k: avSome}
	}
	return av{k: avTop}
}

type endSum struct {
	res   []av
	live  bool // some path returns
	round int
	busy  bool
}

type endInterp struct {
	p     *Prog
	eofV  constant.Value // T_EOF
	memo  map[string]*endSum
	round int
	dirty bool
}

func avArgs(as []av) string {
	s := make([]string, len(as))
	for i, a := range as {
		s[i] = a.String()
	}
	return strings.Join(s, ",")
}

func isTokenPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "Token"
}

func recvName(f *ssa.Function) string {
	if n := recvNamed(f); n != nil {
		return n.Obj().Name()
	}
	return ""
}

// base: what the primitives give at the end of the input.
func (e *endInterp) base(f *ssa.Function, args []av) ([]av, bool) {
	rs := f.Signature.Results()
	switch recvName(f) {
	case "Runes":
		if rs.Len() == 2 && types.Identical(rs.At(0).Type(), types.Typ[types.Rune]) {
			return []av{{k: avConst, c: constant.MakeInt64(-1)}, {k: avConst, c: constant.MakeInt64(0)}}, true
		}
	case "Source":
		if rs.Len() == 1 && len(f.Params) == 1 && strings.HasSuffix(f.Name(), "EOF") {
			return []av{{k: avConst, c: constant.MakeBool(true)}}, true
		}
	case "Lexer":
		if rs.Len() == 1 && isTokenPtr(rs.At(0).Type()) && (len(f.Params) == 1 || token.IsExported(f.Name())) {
			return []av{{k: avEnd}}, true
		}
	}
	if f.Pkg != nil && f.Pkg.Pkg.Path() == "unicode" && rs.Len() == 1 {
		last := args[len(args)-1]
		if f.Signature.Variadic() {
			last = args[0]
		}
		if last.k == avConst && constant.Sign(last.c) < 0 {
			return []av{{k: avConst, c: constant.MakeBool(false)}}, true
		}
	}
	return nil, false
}

func (e *endInterp) call(f *ssa.Function, args []av) ([]av, bool) {
	n := f.Signature.Results().Len()
	top := func() ([]av, bool) {
		r := make([]av, n)
		for i := range r {
			r[i] = av{k: avTop}
		}
		return r, true
	}
	if r, ok := e.base(f, args); ok {
		return r, true
	}
	if f.Blocks == nil || !strings.HasPrefix(fnRel(f), "ecma/") && fnRel(f) != "span" && fnRel(f) != "util" {
		if isErrorResult(f) {
			r, _ := top()
			if n == 1 && (strings.HasPrefix(f.Name(), "New") || f.Name() == "Errorf") {
				r[0] = av{k: avSome}
			}
			return r, true
		}
		return top()
	}
	key := fmt.Sprintf("%p|%s", f, avArgs(args))
	s := e.memo[key]
	if s == nil {
		s = &endSum{res: make([]av, n)}
		e.memo[key] = s
	}
	if s.busy || s.round == e.round {
		return s.res, s.live
	}
	s.busy, s.round = true, e.round
	env := map[ssa.Value]av{}
	for i, p := range f.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	r := e.run(f, f.Blocks[0], nil, env)
	s.busy = false
	for i := range s.res {
		if i < len(r.res) {
			if j := joinAv(s.res[i], r.res[i]); j.String() != s.res[i].String() {
				s.res[i] = j
				e.dirty = true
			}
		}
	}
	if r.live && !s.live {
		s.live, e.dirty = true, true
	}
	return s.res, s.live
}

func isErrorResult(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && (isErrorType(rs.At(rs.Len()-1).Type()) || isErrPtr(rs.At(rs.Len()-1).Type()))
}

type endRun struct {
	res  []av
	live bool
	back bool            // the loop head was reached again
	phi  map[*ssa.Phi]av // with these values
	env  map[ssa.Value]av
}

// run: conditional constant propagation of f from start; with body, only inside that loop.
func (e *endInterp) run(f *ssa.Function, start *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, env map[ssa.Value]av) endRun {
	out := endRun{phi: map[*ssa.Phi]av{}, env: env}
	tup := map[ssa.Value][]av{}
	type edge struct{ from, to *ssa.BasicBlock }
	live := map[edge]bool{}
	reached := map[*ssa.BasicBlock]bool{}
	var get func(v ssa.Value) av
	get = func(v ssa.Value) av {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value == nil {
				if x.IsNil() {
					return av{k: avNil}
				}
				return av{k: avTop}
			}
			return av{k: avConst, c: x.Value}
		case *ssa.Function, *ssa.Global, *ssa.FreeVar, *ssa.Builtin:
			return av{k: avTop}
		}
		if a, ok := env[v]; ok {
			return a
		}
		if in, ok := v.(ssa.Instruction); ok && (body == nil || body[in.Block()]) {
			return av{} // not reached yet
		}
		return av{k: avTop}
	}
	work := []*ssa.BasicBlock{start}
	set := func(v ssa.Value, a av) bool {
		o, ok := env[v]
		j := joinAv(o, a)
		if ok && j.String() == o.String() {
			return false
		}
		env[v] = j
		return true
	}
	for n := 0; len(work) > 0 && n < 20000; n++ {
		b := work[0]
		work = work[1:]
		first := !reached[b]
		reached[b] = true
		changed := first
		stop := false
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi:
				if b == start && body != nil {
					continue // given
				}
				a := av{}
				for i, ed := range x.Edges {
					if live[edge{b.Preds[i], b}] {
						a = joinAv(a, get(ed))
					}
				}
				changed = set(x, a) || changed
			case *ssa.BinOp:
				changed = set(x, e.binop(x, get(x.X), get(x.Y))) || changed
			case *ssa.UnOp:
				a := av{k: avTop}
				switch x.Op {
				case token.NOT:
					if y := get(x.X); y.k == avConst {
						a = av{k: avConst, c: constant.MakeBool(!constant.BoolVal(y.c))}
					} else if y.k == avBot {
						a = y
					}
				case token.MUL:
					if fa, ok := x.X.(*ssa.FieldAddr); ok {
						if y := get(fa.X); y.k == avEnd && isTokenValue(x.Type()) {
							a = av{k: avConst, c: e.eofV}
						} else if y.k == avBot {
							a = y
						}
					} else if al, ok := x.X.(*ssa.Alloc); ok {
						a = e.cell(al, get)
					}
				}
				changed = set(x, a) || changed
			case *ssa.Call:
				var as []av
				for _, v := range x.Call.Args {
					as = append(as, get(v))
				}
				var r []av
				ok := true
				bot := false
				for _, a := range as {
					bot = bot || a.k == avBot
				}
				if g := x.Call.StaticCallee(); bot {
					ok = false
				} else if g != nil {
					r, ok = e.call(g, as)
				} else {
					n := 1
					if t, isT := x.Type().(*types.Tuple); isT {
						n = t.Len()
					}
					for i := 0; i < n; i++ {
						r = append(r, av{k: avTop})
					}
					if bl, isB := x.Call.Value.(*ssa.Builtin); isB && bl.Name() == "append" && len(as) == 2 {
						r[0] = av{k: avTop}
					}
				}
				if !ok {
					stop = true
					break
				}
				if len(r) == 1 {
					changed = set(x, r[0]) || changed
				} else {
					if avArgs(tup[x]) != avArgs(r) {
						tup[x] = append([]av{}, r...)
						changed = true
					}
				}
			case *ssa.Extract:
				a := av{k: avTop}
				if t, ok := tup[x.Tuple]; ok && x.Index < len(t) {
					a = t[x.Index]
				}
				changed = set(x, a) || changed
			case *ssa.MakeInterface:
				a := av{k: avSome}
				if y := get(x.X); y.k == avBot {
					a = y
				}
				changed = set(x, a) || changed
			case *ssa.ChangeInterface:
				changed = set(x, get(x.X)) || changed
			case *ssa.ChangeType:
				changed = set(x, get(x.X)) || changed
			case *ssa.Convert:
				a := get(x.X)
				if a.k == avConst {
					tb, ok1 := x.Type().Underlying().(*types.Basic)
					fb, ok2 := x.X.Type().Underlying().(*types.Basic)
					if !ok1 || !ok2 || tb.Info()&types.IsInteger == 0 || fb.Info()&types.IsInteger == 0 || constant.Sign(a.c) < 0 && tb.Info()&types.IsUnsigned != 0 {
						a = av{k: avTop}
					}
				}
				changed = set(x, a) || changed
			case *ssa.Alloc, *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeClosure, *ssa.FieldAddr, *ssa.IndexAddr:
				changed = set(in.(ssa.Value), av{k: avSome}) || changed
			case *ssa.Return:
				r := make([]av, len(x.Results))
				for i, v := range x.Results {
					r[i] = get(v)
				}
				if len(out.res) == 0 {
					out.res = make([]av, len(r))
				}
				for i := range r {
					out.res[i] = joinAv(out.res[i], r[i])
				}
				out.live = true
			case *ssa.Panic:
				stop = true
			default:
				if v, ok := in.(ssa.Value); ok {
					changed = set(v, av{k: avTop}) || changed
				}
			}
			if stop {
				break
			}
		}
		if stop || !changed {
			continue
		}
		var outs []*ssa.BasicBlock
		if iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			switch c := get(iff.Cond); c.k {
			case avConst:
				i := 1
				if constant.BoolVal(c.c) {
					i = 0
				}
				outs = []*ssa.BasicBlock{b.Succs[i]}
			case avBot:
			default:
				outs = b.Succs
			}
		} else {
			outs = b.Succs
		}
		for _, s := range outs {
			live[edge{b, s}] = true
			if body != nil && s == start {
				out.back = true
				for i, pr := range s.Preds {
					if pr != b {
						continue
					}
					for _, in := range s.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						out.phi[ph] = joinAv(out.phi[ph], get(ph.Edges[i]))
					}
				}
				continue
			}
			if body != nil && !body[s] {
				continue
			}
			work = append(work, s)
		}
	}
	return out
}

// cell: a local variable whose address is taken by nothing but loads and stores.
func (e *endInterp) cell(al *ssa.Alloc, get func(ssa.Value) av) av {
	a := av{}
	for _, r := range *al.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr != ssa.Value(al) {
				return av{k: avTop}
			}
			a = joinAv(a, get(x.Val))
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return av{k: avTop}
		}
	}
	return av{k: avTop}
}

func isTokenValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "TokenValue"
}

func (e *endInterp) binop(x *ssa.BinOp, a, b av) av {
	if a.k == avBot || b.k == avBot {
		return av{}
	}
	yes := func(v bool) av { return av{k: avConst, c: constant.MakeBool(v)} }
	if x.Op == token.EQL || x.Op == token.NEQ {
		eq := x.Op == token.EQL
		switch {
		case a.k == avNil && b.k == avNil:
			return yes(eq)
		case a.k == avNil && b.notNil(), a.notNil() && b.k == avNil:
			return yes(!eq)
		}
	}
	if a.k != avConst || b.k != avConst {
		return av{k: avTop}
	}
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return yes(constant.Compare(a.c, x.Op, b.c))
	}
	return av{k: avTop}
}

// ---- loops ----

type oneLoop struct {
	fn   *ssa.Function
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func fnLoops(f *ssa.Function) []oneLoop {
	var out []oneLoop
	for _, h := range f.Blocks {
		body := map[*ssa.BasicBlock]bool{}
		for _, pr := range h.Preds {
			if !h.Dominates(pr) {
				continue
			}
			body[h] = true
			st := []*ssa.BasicBlock{pr}
			for len(st) > 0 {
				b := st[len(st)-1]
				st = st[:len(st)-1]
				if body[b] {
					continue
				}
				body[b] = true
				st = append(st, b.Preds...)
			}
		}
		if len(body) > 0 {
			out = append(out, oneLoop{f, h, body})
		}
	}
	return out
}

func (l oneLoop) pos() token.Pos {
	for _, b := range l.fn.Blocks {
		if !l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return l.fn.Pos()
}

// bounded: the loop counts up or down to a bound, ranges over something, or follows a chain of
// links to its end.
func (l oneLoop) bounded() string {
	for b := range l.body {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && everyRound(l, b) {
				_ = nx
				return "range"
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok || l.body[b.Succs[0]] && l.body[b.Succs[1]] || !everyRound(l, b) {
			continue
		}
		op, ok := iff.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, v := range []ssa.Value{op.X, op.Y} {
			if op.Op != token.EQL && op.Op != token.NEQ && steps(l, v) {
				return "counter"
			}
			if (op.Op == token.EQL || op.Op == token.NEQ) && linked(l, v) {
				return "chain"
			}
			if c, ok := v.(*ssa.Call); ok {
				if bl, ok := c.Call.Value.(*ssa.Builtin); ok && bl.Name() == "len" && shrinks(l, c.Call.Args[0]) {
					return "shrinking"
				}
			}
		}
	}
	return ""
}

// everyRound: b is passed on every way round the loop.
func everyRound(l oneLoop, b *ssa.BasicBlock) bool {
	for _, pr := range l.head.Preds {
		if l.body[pr] && !b.Dominates(pr) {
			return false
		}
	}
	return true
}

func loopPhi(l oneLoop, v ssa.Value) *ssa.Phi {
	if bo, ok := v.(*ssa.BinOp); ok {
		if _, ok := bo.Y.(*ssa.Const); ok {
			v = bo.X
		}
	}
	if cv, ok := v.(*ssa.Convert); ok {
		v = cv.X
	}
	ph, ok := v.(*ssa.Phi)
	if ok && ph.Block() == l.head {
		return ph
	}
	return nil
}

// steps: v moves by a constant in one direction on every way round.
func steps(l oneLoop, v ssa.Value) bool {
	ph := loopPhi(l, v)
	if ph == nil {
		return false
	}
	sign := 0
	for i, e := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(ph) {
			return false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return false
		}
		s := constant.Sign(c.Value)
		if bo.Op == token.SUB {
			s = -s
		} else if bo.Op != token.ADD {
			return false
		}
		if s == 0 || sign != 0 && s != sign {
			return false
		}
		sign = s
	}
	return sign != 0
}

// linked: v is replaced, on every way round, by something reached from it through a link
// (a field or a method without arguments).
func linked(l oneLoop, v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok {
		if u := linkOf(v); u != nil {
			ph, ok = u.(*ssa.Phi)
		}
	}
	if !ok || ph.Block() != l.head {
		return false
	}
	for i, e := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] {
			continue
		}
		n := 0
		for e != ssa.Value(ph) {
			if e = linkOf(e); e == nil {
				return false
			}
			n++
		}
		if n == 0 {
			return false
		}
	}
	return true
}

func linkOf(v ssa.Value) ssa.Value {
	switch x := v.(type) {
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				return fa.X
			}
		}
	case *ssa.TypeAssert:
		return x.X
	case *ssa.MakeInterface:
		return x.X
	case *ssa.ChangeInterface:
		return x.X
	case *ssa.Call:
		if x.Call.IsInvoke() && len(x.Call.Args) == 0 {
			return x.Call.Value
		}
		if !x.Call.IsInvoke() && len(x.Call.Args) == 1 && x.Call.StaticCallee() != nil && x.Call.StaticCallee().Signature.Recv() != nil {
			return x.Call.Args[0]
		}
	}
	return nil
}

// shrinks: on every way round the list v loses something (v = v[k:], v = v[:len(v)-1]).
func shrinks(l oneLoop, v ssa.Value) bool {
	ph, ok := v.(*ssa.Phi)
	if !ok || ph.Block() != l.head {
		return false
	}
	for i, e := range ph.Edges {
		if !l.body[ph.Block().Preds[i]] {
			continue
		}
		s, ok := e.(*ssa.Slice)
		if !ok || s.X != ssa.Value(ph) || s.Low == nil && s.High == nil {
			return false
		}
	}
	return true
}

// ---- consumption ----

type consumer struct {
	must map[*ssa.Function]bool // consumes something on every way to a successful return
	some map[*ssa.Function]bool // ... unless the first result is nil
	may  map[*ssa.Function]bool // consumes on some way
	peek map[*ssa.Function]bool
	lax  bool              // count what may consume as consuming
	way  []*ssa.BasicBlock // last way found that consumes nothing
}

func isConsumer(f *ssa.Function) bool {
	rs := f.Signature.Results()
	switch recvName(f) {
	case "Runes":
		return rs.Len() == 2
	case "Lexer":
		// the reader of tokens: takes from the buffer of those read ahead, or reads on
		return rs.Len() == 1 && isTokenPtr(rs.At(0).Type()) && takesToken(f, map[*ssa.Function]bool{})
	}
	return false
}

// takesToken: f takes the next token out of the buffer.
func takesToken(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			g := c.Call.StaticCallee()
			if g == nil || g.Blocks == nil || !progressScope(g) {
				continue
			}
			if recvName(g) == "TokensBuf" {
				if g.Signature.Results().Len() == 1 && isTokenPtr(g.Signature.Results().At(0).Type()) && storesToReceiver(g) {
					return true
				}
			} else if recvName(g) == "Lexer" && takesToken(g, seen) {
				return true
			}
		}
	}
	return false
}

func storesToReceiver(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if st, ok := i.(*ssa.Store); ok {
				if fa, ok := st.Addr.(*ssa.FieldAddr); ok && len(f.Params) > 0 && fa.X == ssa.Value(f.Params[0]) {
					return true
				}
			}
		}
	}
	return false
}

func isRewind(f *ssa.Function) bool {
	n := recvName(f)
	return (n == "Source" || n == "Lexer" || n == "Parser") && (f.Name() == "PopState" || f.Name() == "popState")
}

// looksAhead: what the scanner reads goes into the buffer of tokens read ahead.
func (cs *consumer) looksAhead(f *ssa.Function) bool {
	if recvName(f) != "Lexer" {
		return false
	}
	if v, ok := cs.peek[f]; ok {
		return v
	}
	cs.peek[f] = false
	r := false
	if !takesToken(f, map[*ssa.Function]bool{}) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Call); ok {
					if g := c.Call.StaticCallee(); g != nil && g.Blocks != nil {
						r = r || recvName(g) == "TokensBuf" && g.Signature.Params().Len() > 0 && storesToReceiver(g) || cs.looksAhead(g)
					}
				}
			}
		}
	}
	cs.peek[f] = r
	return r
}

// failing: the block can only end in an error.
func failing(b *ssa.BasicBlock) bool {
	rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
	if !ok || len(rt.Results) == 0 || !isErrorResult(b.Parent()) {
		_, p := b.Instrs[len(b.Instrs)-1].(*ssa.Panic)
		return p
	}
	v := rt.Results[len(rt.Results)-1]
	switch x := v.(type) {
	case *ssa.Const:
		return false
	case *ssa.MakeInterface:
		_ = x
		return true
	case *ssa.Call:
		if g := x.Call.StaticCallee(); g != nil && g.Signature.Results().Len() == 1 {
			return true
		}
	}
	return knownNotNil(v, b)
}

func knownNotNil(v ssa.Value, b *ssa.BasicBlock) bool {
	for c := b; c != nil; c = c.Idom() {
		for _, pr := range c.Preds {
			if len(c.Preds) == 1 && nilTested(v, pr, c) {
				return true
			}
		}
	}
	return false
}

// consumes: whether on every path from start back to it (or, without body, to a successful
// return) something is consumed.
func (cs *consumer) consumes(start *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, orNil bool) bool {
	// in[b]: consumed on every path reaching b
	type st struct{ reach, got bool }
	in := map[*ssa.BasicBlock]st{start: {true, false}}
	work := []*ssa.BasicBlock{start}
	ok := true
	from := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	fail := func(b *ssa.BasicBlock) {
		if ok {
			cs.way = nil
			for ; b != nil && len(cs.way) < 1000; b = from[b] {
				cs.way = append([]*ssa.BasicBlock{b}, cs.way...)
				if b == start {
					break
				}
			}
		}
		ok = false
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		got := in[b].got
		for _, i := range b.Instrs {
			c, isC := i.(*ssa.Call)
			if !isC {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil {
				continue
			}
			if isRewind(f) {
				got = false
			} else if isConsumer(f) && !onCopy(c) || !isConsumer(f) && (cs.must[f] || cs.lax && cs.may[f]) {
				got = true
			}
		}
		if body == nil {
			if rt, isR := b.Instrs[len(b.Instrs)-1].(*ssa.Return); isR && !got && !failing(b) && !(orNil && cs.nothing(rt)) {
				fail(b)
			}
		}
		before := got
		for _, s := range b.Succs {
			got := before || cs.impliedBy(b, s)
			if body != nil && s == start {
				if !got {
					fail(b)
				}
				continue
			}
			if body != nil && !body[s] {
				continue
			}
			o, seen := in[s]
			if !seen {
				in[s] = st{true, got}
				from[s] = b
				work = append(work, s)
			} else if o.got && !got {
				in[s] = st{true, false}
				from[s] = b
				work = append(work, s)
			}
		}
	}
	return ok
}

// nothing: the first result is nil, or what a production that consumed nothing gave.
func (cs *consumer) nothing(rt *ssa.Return) bool {
	if len(rt.Results) == 0 {
		return false
	}
	v := rt.Results[0]
	if c, ok := v.(*ssa.Const); ok {
		return c.IsNil()
	}
	return cs.givenBySome(v)
}

// givenBySome: v is the first result of a production that consumes unless it is nil.
func (cs *consumer) givenBySome(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if x.Index != 0 {
			return false
		}
		v = x.Tuple
	case *ssa.ChangeInterface:
		return cs.givenBySome(x.X)
	case *ssa.MakeInterface:
		return cs.givenBySome(x.X)
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	f := c.Call.StaticCallee()
	return f != nil && cs.some[f]
}

// impliedBy: going from b to s means that something was consumed: the result of a production
// is not nil, or this is the end of the input.
func (cs *consumer) impliedBy(b, s *ssa.BasicBlock) bool {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok || b.Succs[0] == b.Succs[1] {
		return false
	}
	yes := b.Succs[0] == s
	cond := iff.Cond
	for {
		u, ok := cond.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		cond, yes = u.X, !yes
	}
	switch x := cond.(type) {
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return false
		}
		v := x.X
		if c, ok := x.Y.(*ssa.Const); !ok || !c.IsNil() {
			if c, ok := x.X.(*ssa.Const); !ok || !c.IsNil() {
				return false
			}
			v = x.Y
		}
		return (x.Op == token.NEQ) == yes && cs.givenBySome(v)
	case *ssa.Call:
		f := x.Call.StaticCallee()
		return yes && f != nil && recvName(f) == "Source" && strings.HasSuffix(f.Name(), "EOF")
	}
	return false
}

// onCopy: the characters are read from a copy of the cursor (a look ahead).
func onCopy(c *ssa.Call) bool {
	_, ok := c.Call.Args[0].(*ssa.Alloc)
	return ok
}

func progressScope(f *ssa.Function) bool {
	r := fnRel(f)
	return r == "ecma/parser" || r == "span"
}

func newConsumer(p *Prog) *consumer {
	cs := &consumer{must: map[*ssa.Function]bool{}, some: map[*ssa.Function]bool{}, may: map[*ssa.Function]bool{}, peek: map[*ssa.Function]bool{}}
	var fs []*ssa.Function
	for _, f := range p.All {
		if progressScope(f) && f.Blocks != nil {
			fs = append(fs, f)
			cs.must[f] = true
			cs.some[f] = f.Signature.Results().Len() > 0
		}
	}
	may := cs.may
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			if !may[f] && !cs.looksAhead(f) && (isConsumer(f) || callsAny(f, may, false)) {
				may[f], ch = true, true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			if isConsumer(f) {
				continue
			}
			if cs.must[f] && (cs.looksAhead(f) || !cs.consumes(f.Blocks[0], nil, false)) {
				cs.must[f] = false
				ch = true
			}
			if cs.some[f] && (cs.looksAhead(f) || !cs.consumes(f.Blocks[0], nil, true)) {
				cs.some[f] = false
				ch = true
			}
		}
	}
	return cs
}

func callsAny(f *ssa.Function, set map[*ssa.Function]bool, copies bool) bool {
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && set[g] && (copies || !(isConsumer(g) && onCopy(c))) {
					return true
				}
			}
		}
	}
	return false
}

// readers: the functions that look at the input, directly or through others.
func readers(p *Prog) map[*ssa.Function]bool {
	m := map[*ssa.Function]bool{}
	for ch := true; ch; {
		ch = false
		for _, f := range p.All {
			if m[f] || f.Blocks == nil || !progressScope(f) {
				continue
			}
			if recvName(f) == "Runes" || callsAny(f, m, true) {
				m[f], ch = true, true
			}
		}
	}
	return m
}

func overInput(l oneLoop, m map[*ssa.Function]bool) bool {
	for b := range l.body {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil && !x.Call.IsInvoke() {
					if _, isB := x.Call.Value.(*ssa.Builtin); !isB {
						return true // a function value
					}
				}
				if g != nil && (m[g] || recvName(g) == "TokensBuf") {
					return true
				}
			case *ssa.FieldAddr:
				n := namedOf(x.X.Type())
				if n == "TokensBuf" || n == "Runes" {
					return true
				}
			}
		}
	}
	return false
}

func namedOf(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

type loopResult struct {
	l     oneLoop
	kind  string
	ends  bool // ends at the end of the input
	moves bool // every way round calls something that consumes
	must  bool // certainly so
	way   []*ssa.BasicBlock
}

func parserLoops(p *Prog) []loopResult {
	e := &endInterp{p: p, memo: map[string]*endSum{}}
	if o, ok := p.Pkgs["ecma/parser"].Types.Scope().Lookup("T_EOF").(*types.Const); ok {
		e.eofV = o.Val()
	} else {
		e.eofV = constant.MakeInt64(-1)
	}
	cs := newConsumer(p)
	input := readers(p)
	var out []loopResult
	for _, f := range p.All {
		if !progressScope(f) {
			continue
		}
		for _, l := range fnLoops(f) {
			r := loopResult{l: l, kind: l.bounded()}
			if r.kind == "" && !overInput(l, input) {
				r.kind = "tree"
			}
			out = append(out, r)
		}
	}
	ends := func(l oneLoop) bool {
		phi := map[*ssa.Phi]av{}
		for _, in := range l.head.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				phi[ph] = av{k: avTop}
			}
		}
		for i := 0; i < 4; i++ {
			env := map[ssa.Value]av{}
			for k, v := range phi {
				env[k] = v
			}
			r := e.run(l.fn, l.head, l.body, env)
			if !r.back {
				return true
			}
			phi = r.phi
		}
		return false
	}
	for {
		e.round++
		e.dirty = false
		for i := range out {
			if out[i].kind == "" {
				out[i].ends = ends(out[i].l)
			}
		}
		if !e.dirty {
			break
		}
	}
	for i := range out {
		if out[i].kind == "" {
			out[i].must = cs.consumes(out[i].l.head, out[i].l.body, false)
			cs.way, cs.lax = nil, true
			out[i].moves = cs.consumes(out[i].l.head, out[i].l.body, false)
			out[i].way, cs.lax = cs.way, false
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].l.pos() < out[j].l.pos() })
	return out
}

type loopSpec struct {
	Functions []string          `json:"functions"`
	Ends      map[string]string `json:"ends"`  // reviewed: ends for another reason
	Moves     map[string]string `json:"moves"` // reviewed: consumes for a reason the analysis does not see
}

func init() {
	debugCmds["loops"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		var sp loopSpec
		readSpec("loops.json", &sp)
		mine := len(args) > 0
		if mine {
			sp = loopSpec{nil, map[string]string{}, map[string]string{}}
			for _, f := range p.All {
				if progressScope(f) && f.Blocks != nil {
					sp.Functions = append(sp.Functions, fnKeyName(f))
				}
			}
			sort.Strings(sp.Functions)
		}
		n := map[string]int{}
		for _, r := range parserLoops(p) {
			n[r.kind]++
			if r.kind != "" {
				continue
			}
			if r.ends && r.moves {
				n["proved"]++
				continue
			}
			if mine {
				if !r.ends {
					sp.Ends[fnKeyName(r.l.fn)] = "?"
				}
				if !r.moves {
					sp.Moves[fnKeyName(r.l.fn)] = "?"
				}
			}
			fmt.Println(p.pos(r.l.pos()), r.l.fn.Name(), "ends", r.ends, "moves", r.moves, wayLines(p, r.way))
		}
		for _, f := range p.All {
			if f.Blocks == nil || progressScope(f) {
				continue
			}
			for _, l := range fnLoops(f) {
				n["else "+l.bounded()]++
				if l.bounded() == "" {
					fmt.Println(p.pos(l.pos()), f.Name())
				}
			}
		}
		fmt.Println(n)
		if mine {
			writeSpec("loops.json", sp)
		}
	}
	register("P01", func(c *Ctx) {
		c.rule("at the end of the input (every character read is the end mark, every token the end token) no loop of the scanner or the parser comes round again: constant propagation through the loop and everything it calls")
		c.rule("every way round a loop that is not bounded by a counter, a list or a chain of links calls something that takes a token or a character")
		c.assume("a token the scanner delivers is not empty unless it is the end token or an error; syntax trees are finite")
		var sp loopSpec
		if !readSpec("loops.json", &sp) {
			c.bad("spec", "-", "reviewed loops missing")
			return
		}
		known := map[string]bool{}
		for _, f := range sp.Functions {
			known[f] = true
		}
		rs := parserLoops(c.P)
		judge := func(what string, open map[string]string, ok func(loopResult) bool, msg string) {
			still := map[string]int{}
			for _, r := range rs {
				if r.kind == "" && !ok(r) {
					still[fnKeyName(r.l.fn)]++
				}
			}
			// a reviewed loop that moved into a function of its own
			moved := 0
			for n := range open {
				if still[n] == 0 {
					moved++
				}
			}
			for _, r := range rs {
				n := fnKeyName(r.l.fn)
				if r.kind != "" || ok(r) {
					continue
				}
				if open[n] != "" {
					c.count("loops excepted: "+what, 1)
					continue
				}
				if !known[n] && moved > 0 {
					moved--
					continue
				}
				c.bad(what+"|"+n, c.P.pos(r.l.pos()), msg, r.l.fn.Name(), wayLines(c.P, r.way))
			}
		}
		judge("ends", sp.Ends, func(r loopResult) bool { return r.ends }, "a loop of %s can come round again at the end of the input: it never ends%.0s")
		judge("moves", sp.Moves, func(r loopResult) bool { return r.moves }, "a loop of %s can come round again without having consumed anything (lines %s)")
		for _, r := range rs {
			c.count("loops", 1)
			if r.kind == "" {
				c.count("loops over the input", 1)
				if r.must {
					c.count("loops certain to consume", 1)
				}
			}
		}
		c.floor("loops over the input", 40)
	}, "./ecma/...", "./span", "./util")
}

func fnKeyName(f *ssa.Function) string {
	if n := recvName(f); n != "" {
		return n + "." + f.Name()
	}
	return f.Name()
}

func wayLines(p *Prog, way []*ssa.BasicBlock) string {
	s := ""
	for _, b := range way {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				s += fmt.Sprint(" ", p.Fset.Position(i.Pos()).Line)
				break
			}
		}
	}
	return strings.TrimSpace(s)
}
