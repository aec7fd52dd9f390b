package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// globalMapKeys returns the constant keys a package-level map is initialised with.
func (p *Prog) globalMapKeys(rel, name string) (map[string]string, bool) {
	sp := p.SPkgs[rel]
	if sp == nil {
		return nil, false
	}
	g, _ := sp.Members[name].(*ssa.Global)
	if g == nil {
		return nil, false
	}
	out := map[string]string{}
	ok := false
	for _, f := range p.All {
		if fnRel(f) != rel || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		var maps []ssa.Value
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, is := in.(*ssa.Store); is && st.Addr == g {
					maps = append(maps, st.Val)
				}
				if u, is := in.(*ssa.UnOp); is && u.X == g {
					maps = append(maps, u)
				}
			}
		}
		for _, m := range maps {
			for _, r := range *m.Referrers() {
				if mu, is := r.(*ssa.MapUpdate); is {
					ok = true
					if c, is := mu.Key.(*ssa.Const); is {
						v := "?"
						if vc, is := mu.Value.(*ssa.Const); is {
							v = constTerm(vc).Str
						}
						out[constTerm(c).Str] = v
					} else {
						out["?"] = "?"
					}
				}
			}
		}
	}
	return out, ok
}

func walkSeqs(c *Ctx) (map[string]*walkKind, map[string][]string, *walkAn) {
	w := newWalkAn(c)
	ks := c.P.kinds()
	got, probs := map[string]*walkKind{}, map[string][]string{}
	for _, k := range sortedKeys(ks) {
		r, pr := w.kind(k, fmt.Sprint(ks[k]))
		if r != nil {
			got[k], probs[k] = r, pr
		}
	}
	return got, probs, w
}

func onlyVisits(seq []string) []string {
	var o []string
	for _, e := range seq {
		if strings.HasPrefix(e, "visit ") {
			o = append(o, strings.Fields(e)[1])
		}
	}
	return o
}

func nameOnly(seq []string) []string {
	var o []string
	for _, e := range seq {
		if strings.HasPrefix(e, "visit ") {
			f := strings.Fields(e)
			o = append(o, "visit "+f[1])
		} else {
			o = append(o, e)
		}
	}
	return o
}

func checkWalkChildren(c *Ctx) {
	var spec walkSpec
	if !readSpec("walk.json", &spec) {
		panic("spec/walk.json unreadable")
	}
	got, probs, w := walkSeqs(c)
	rn := renames(spec.Structs, structFields(c.P, "ecma/parser"))
	prod := c.P.producers()
	for _, k := range sortedKeys(spec.Kinds) {
		s, g := spec.Kinds[k], got[k]
		at := "ecma/walk visitor of " + k
		if g == nil {
			c.bad("unregistered|"+k, at, "no visitor is registered for %s", k)
			continue
		}
		c.count("kinds", 1)
		want, have := onlyVisits(s.Seq), applyRenames(rn, onlyVisits(g.Seq))
		c.count("children", len(want))
		if strings.Join(want, ",") != strings.Join(have, ",") {
			c.bad("children|"+k, at, "the walker visits %v for %s, the node's parts in order are %v", have, k, want)
		}
		for _, pr := range probs[k] {
			if strings.Contains(pr, "skips") || strings.Contains(pr, "performs") || strings.Contains(pr, "too many") {
				c.bad("trace|"+k, at, "visitor of %s: %s", k, pr)
			}
		}
		keys := map[string]bool{}
		for i, e := range s.Seq {
			_ = i
			if strings.HasPrefix(e, "visit ") {
				keys[strings.SplitN(e, " ", 3)[2]] = true
			}
		}
		for _, e := range g.Seq {
			if strings.HasPrefix(e, "visit ") && !keys[strings.SplitN(e, " ", 3)[2]] {
				c.bad("key|"+k+"|"+strings.SplitN(e, " ", 3)[2], at, "child of %s is announced under the key %s", k, strings.SplitN(e, " ", 3)[2])
			}
		}
		for _, st := range strings.Split(g.Struct, ",") {
			if st == "" {
				continue
			}
			c.count("type-assertions", 1)
			if len(prod.Kinds[k]) > 0 {
				for ps := range prod.Kinds[k] {
					if ps != st {
						c.bad("struct|"+k+"|"+st, at, "the visitor of %s asserts %s but the parser builds %s for it", k, st, ps)
					}
				}
			}
		}
	}
	for _, k := range sortedKeys(prod.Kinds) {
		if spec.Kinds[k] == nil && got[k] == nil && k != "N_ILLEGAL" && k != "N_STMT_EMPTY" {
			c.bad("newkind|"+k, walkPkg, "the parser builds %s nodes but no visitor is registered", k)
		}
	}
	_ = w
	primVisitNode(c)
	primVisitNodes(c)
	primCallVisitor(c)
	c.floor("kinds", 140)
	c.floor("children", 150)
	c.floor("primitives", 3)
}

func checkWalkEvents(c *Ctx) {
	var spec walkSpec
	if !readSpec("walk.json", &spec) {
		panic("spec/walk.json unreadable")
	}
	got, probs, w := walkSeqs(c)
	rn := renames(spec.Structs, structFields(c.P, "ecma/parser"))
	ks := c.P.kinds()
	valOf := map[string]string{}
	for v, n := range w.names {
		if strings.Contains(n, "=") {
			parts := strings.Split(n, "=")
			if strings.HasSuffix(n, "_BEFORE") || strings.HasSuffix(n, "_AFTER") {
				c.bad("collide|"+n, walkPkg, "events %v share one identifier", parts)
			}
		}
		for _, x := range strings.Split(n, "=") {
			valOf[x] = v
		}
	}
	for _, k := range sortedKeys(spec.Kinds) {
		s, g := spec.Kinds[k], got[k]
		at := "ecma/walk visitor of " + k
		if g == nil {
			continue
		}
		c.count("kinds", 1)
		// events of this kind, once each, first and last of the node's own actions
		b, a := "fire "+k+"_BEFORE", "fire "+k+"_AFTER"
		nb, na, ib, ia := 0, 0, -1, -1
		for i, e := range g.Seq {
			if e == b {
				nb++
				ib = i
			}
			if e == a {
				na++
				ia = i
			}
		}
		if nb != 1 || na != 1 {
			var fired []string
			for _, e := range g.Seq {
				if strings.HasPrefix(e, "fire ") {
					fired = append(fired, e[5:])
				}
			}
			c.bad("events|"+k+"|"+strings.Join(fired, ","), at, "walking a %s node fires %v instead of its own before and after events once each", k, fired)
		} else {
			for i, e := range g.Seq {
				if strings.HasPrefix(e, "visit ") && (i < ib || i > ia) {
					c.bad("nesting|"+k, at, "%s happens outside the before/after events of %s", e, k)
				}
			}
		}
		c.count("event-pairs", 1)
		// order with scopes as reviewed
		f := func(seq []string) string {
			var o []string
			for _, e := range nameOnly(seq) {
				if strings.HasPrefix(e, "fire ") {
					if strings.HasSuffix(e, "_BEFORE") {
						e = "before"
					} else {
						e = "after"
					}
				}
				o = append(o, e)
			}
			return strings.Join(o, "; ")
		}
		scoped := func(s string) string { // keep only scope structure relative to visits
			return s
		}
		ws, hs := scoped(f(s.Seq)), scoped(strings.Join(applyRenames(rn, strings.Split(f(g.Seq), "; ")), "; "))
		if scopePart(ws) != scopePart(hs) {
			c.bad("scope|"+k, at, "scope of %s is entered/left as [%s], must be [%s]", k, scopePart(hs), scopePart(ws))
		}
		c.count("scope-shapes", 1)
		for _, pr := range probs[k] {
			if strings.Contains(pr, "omits") || strings.Contains(pr, "scope") || strings.Contains(pr, "too many") {
				c.bad("trace|"+k+"|"+pr, at, "visitor of %s: %s", k, pr)
			}
		}
	}
	// every registered kind has its two event handlers registered and they fire that event
	for _, k := range sortedKeys(spec.Kinds) {
		for _, sfx := range []string{"_BEFORE", "_AFTER"} {
			v := valOf[k+sfx]
			if v == "" {
				c.bad("event|"+k+sfx, walkPkg, "event %s does not exist", k+sfx)
				continue
			}
			fn := "NodeBeforeEvent"
			if sfx == "_AFTER" {
				fn = "NodeAfterEvent"
			}
			c.count("event-ids", 1)
			f := c.P.fn(walkPkg, fn)
			if f == nil {
				c.bad("api|"+fn, walkPkg, "%s not found", fn)
				continue
			}
			ip := &Interp{P: c.P}
			for _, o := range ip.Run(f, []*Term{mk("const", fmt.Sprint(ks[k]))}) {
				if len(o.rets) != 1 || o.rets[0].Str != v {
					c.bad("eventid|"+k+sfx, c.P.pos(f.Pos()), "%s(%s) is not the event %s%s", fn, k, k, sfx)
				}
			}
			if w.table[v] != nil {
				ev := strings.Join(w.eventsOf(v), ",")
				atom := len(onlyVisits(spec.Kinds[k].Seq)) == 0
				if ev != k+sfx && !atom {
					c.bad("handler|"+k+sfx+"|"+ev, walkPkg, "the default handler of %s%s notifies listeners of [%s]", k, sfx, ev)
				}
			}
		}
	}
	tables := map[string]func(k string) []string{
		"NodeTypes": func(k string) []string { return []string{fmt.Sprint(ks[k])} },
		"StmtNodeTypes": func(k string) []string {
			if ks[k] > ks["N_STMT_BEGIN"] && ks[k] < ks["N_STMT_END"] {
				return []string{fmt.Sprint(ks[k])}
			}
			return nil
		},
		"AtomNodeTypes": func(k string) []string {
			if len(onlyVisits(spec.Kinds[k].Seq)) == 0 {
				return []string{fmt.Sprint(ks[k])}
			}
			return nil
		},
		"NodeBeforeEvents": func(k string) []string { return []string{valOf[k+"_BEFORE"]} },
		"NodeAfterEvents":  func(k string) []string { return []string{valOf[k+"_AFTER"]} },
	}
	for _, t := range sortedKeys(tables) {
		keys, ok := c.P.globalMapKeys(walkPkg, t)
		if !ok {
			c.bad("table|"+t, walkPkg, "table %s cannot be resolved", t)
			continue
		}
		want := map[string]bool{}
		for k := range spec.Kinds {
			for _, v := range tables[t](k) {
				want[v] = true
			}
		}
		for v := range want {
			c.count("table-entries", 1)
			if keys[v] != "true" {
				c.bad("table|"+t+"|"+w.names[v], walkPkg, "%s lacks %s", t, w.names[v])
			}
		}
		for v := range keys {
			if !want[v] {
				c.bad("table+|"+t+"|"+w.names[v], walkPkg, "%s lists %s", t, w.names[v])
			}
		}
	}
	primCallListener(c)
	primVisitNode(c)
	primVisitNodes(c)
	primScopes(c)
	primListeners(c)
	c.floor("kinds", 140)
	c.floor("primitives", 7)
}

// scopePart keeps what lies inside and outside of the scope.
func scopePart(s string) string {
	if !strings.Contains(s, "push") && !strings.Contains(s, "pop") {
		return ""
	}
	return s
}

func walkPrim(c *Ctx, name string) *ssa.Function {
	f := c.P.fn(walkPkg, name)
	if f == nil {
		c.bad("prim|"+name, walkPkg, "%s not found", name)
		return nil
	}
	c.count("primitives", 1)
	return f
}

// stopTerm abstracts reads of the stop flag: a fresh unknown after each foreign call.
func stopHooks(ip *Interp) {
	n := func(st *pstate) string {
		k := 0
		for _, e := range st.ev {
			if strings.HasPrefix(e, "call") {
				k++
			}
		}
		return fmt.Sprint(k)
	}
	ip.OnInstr = func(fr *frame, st *pstate, in ssa.Instruction) {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if t := fr.env[u]; t != nil && t.Op == "field" && t.Str == "WalkCtx.stop" {
				fr.env[u] = mk("stopped", n(st))
			}
		}
	}
	ip.OnBranch = func(fr *frame, st *pstate, cond *Term, taken bool, in *ssa.If) {
		if cond.Op == "stopped" && taken {
			st.addEv("stop!")
		}
	}
}

func primVisitNode(c *Ctx) {
	f := walkPrim(c, "VisitNode")
	if f == nil {
		return
	}
	n, key, ctx := mk("param", "n"), mk("param", "key"), mk("param", "ctx")
	ip := &Interp{P: c.P}
	stopHooks(ip)
	wc := mk("field", "VisitorCtx.WalkCtx", ctx)
	vcAddr := mk("faddr", "WalkCtx.vc", wc)
	vc0 := mk("field", "WalkCtx.vc", wc)
	var bad []string
	ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
		if callee == nil || fnRel(callee) != walkPkg {
			return nil, false, false
		}
		if callee.Name() == "CallVisitor" {
			st.addEv("call")
			if args[0] != mk("invoke", "Type", n) || args[1] != n || args[2] != key {
				bad = append(bad, fmt.Sprintf("dispatches on %v", args[:3]))
			}
			cur := st.mem[vcAddr]
			if cur == nil || args[3] != cur {
				bad = append(bad, "the child's visitor does not receive the child's context")
			} else {
				if st.mem[mk("faddr", "VisitorCtx.Parent", cur)] != vc0 {
					bad = append(bad, "the child's context has the wrong parent")
				}
				if st.mem[mk("faddr", "VisitorCtx.Node", cur)] != n {
					bad = append(bad, "the child's context has the wrong node")
				}
				if st.mem[mk("faddr", "VisitorCtx.WalkCtx", cur)] != wc {
					bad = append(bad, "the child's context has the wrong walk")
				}
				pt := st.mem[mk("faddr", "VisitorCtx.Path", cur)]
				if on, ok := st.lit(mk("field", "WalkCtx.Path", wc)); ok && on {
					if !reaches(st, pt, key) || !reaches(st, pt, mk("field", "VisitorCtx.Path", vc0)) {
						bad = append(bad, "the path does not extend the parent's path by the key")
					}
				}
			}
			return mk("void", ""), true, false
		}
		return nil, false, true
	}
	called := false
	for _, o := range ip.Run(f, []*Term{n, key, ctx}) {
		if o.panic {
			bad = append(bad, "can panic")
			continue
		}
		isNil, nilKnown := o.st.lit(mk("bin", "==", n, tNil))
		calls := 0
		st := false
		for _, e := range o.st.ev {
			if e == "call" {
				calls++
			} else if e == "stop!" {
				st = true
			}
		}
		if nilKnown && isNil {
			if calls != 0 {
				bad = append(bad, "visits an absent child")
			}
			continue
		}
		if st {
			if calls != 0 {
				bad = append(bad, "visits a node after the walk was stopped")
			}
			continue
		}
		if !nilKnown {
			bad = append(bad, "does not test for an absent child")
		}
		if sv, ok := o.st.lit(mk("stopped", "0")); !ok || sv {
			bad = append(bad, "visits a node without testing whether the walk was stopped")
		}
		if calls != 1 {
			bad = append(bad, fmt.Sprintf("dispatches a present child %d times", calls))
		}
		called = true
		if v := o.st.mem[vcAddr]; v != nil && v != vc0 {
			bad = append(bad, "does not restore the current context")
		}
	}
	if !called {
		bad = append(bad, "never dispatches")
	}
	for _, b := range bad {
		c.bad("prim|VisitNode|"+b, c.P.pos(f.Pos()), "visiting one child: %s", b)
	}
}

func primVisitNodes(c *Ctx) {
	for _, name := range []string{"VisitNodes", "VisitNodesWithCb"} {
		f := walkPrim(c, name)
		if f == nil {
			continue
		}
		ns := mk("param", "ns")
		ip := &Interp{P: c.P, MaxLoop: 2}
		stopHooks(ip)
		var bad []string
		elem := 0
		ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
			if callee != nil && callee.Name() == "VisitNode" {
				l := &leafer{root: ns, st: st}
				x := strings.Join(setList(l.of(args[0], "", "").may), "+")
				if x != "node[*]" {
					bad = append(bad, "visits "+x+" of the list")
				}
				elem++
				st.addEv("call")
				ks := strings.Join(setList((&leafer{root: mk("param", "key"), st: st}).of(args[1], "", "").may), " ")
				_ = ks
				return mk("void", ""), true, false
			}
			if callee == nil && !cc.IsInvoke() {
				st.addEv("cb")
				return mk("void", ""), true, false
			}
			return nil, false, callee != nil && fnRel(callee) == walkPkg
		}
		args := []*Term{mk("param", "n"), ns, mk("param", "key"), mk("param", "ctx"), mk("param", "cb")}
		for _, o := range ip.Run(f, args[:len(f.Params)]) {
			if o.panic {
				bad = append(bad, "can panic")
				continue
			}
			// exits: list exhausted or stopped
			st := false
			for _, e := range o.st.ev {
				if e == "stop!" {
					st = true
				}
			}
			exhausted := false
			for _, li := range o.st.lits {
				if li.T.Op == "bin" && li.T.Str == "<" && li.T.Args[0].Op == "idx" && !li.Pos {
					exhausted = true
				}
				if li.T.Op == "bin" && li.T.Str == "==" && li.T.Args[0].Op == "len" && li.Pos {
					exhausted = true
				}
			}
			if !st && !exhausted {
				bad = append(bad, "ends before the list is exhausted")
			}
		}
		if elem == 0 {
			bad = append(bad, "visits nothing")
		}
		for _, b := range bad {
			c.bad("prim|"+name+"|"+b, c.P.pos(f.Pos()), "visiting a list of children: %s", b)
		}
	}
}

func primCallVisitor(c *Ctx) {
	f := walkPrim(c, "CallVisitor")
	if f == nil {
		return
	}
	t, n, key, ctx := mk("param", "t"), mk("param", "n"), mk("param", "key"), mk("param", "ctx")
	ip := &Interp{P: c.P}
	var bad []string
	vs := ""
	ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
		if callee == nil && !cc.IsInvoke() {
			st.addEv("call")
			if len(args) != 3 || args[0] != n || args[1] != key || args[2] != ctx {
				bad = append(bad, "passes other arguments to the visitor")
			}
			ft := ""
			if v := fr.env[cc.Value]; v != nil {
				ft = v.key
			}
			if !strings.Contains(ft, "WalkCtx.Visitors") || !strings.Contains(ft, t.key) {
				bad = append(bad, "calls "+ft)
			}
			vs = ft
			return mk("void", ""), true, false
		}
		return nil, false, callee != nil && fnRel(callee) == walkPkg
	}
	for _, o := range ip.Run(f, []*Term{t, n, key, ctx}) {
		if o.panic {
			continue
		}
		calls := strings.Count(strings.Join(o.st.ev, ""), "call")
		nilFn := false
		for _, li := range o.st.lits {
			if li.T.Op == "bin" && li.T.Str == "==" && li.T.Args[1].isNil() && strings.Contains(li.T.Args[0].key, "WalkCtx.Visitors") && li.Pos {
				nilFn = true
			}
		}
		if !nilFn && calls != 1 {
			bad = append(bad, fmt.Sprintf("a registered visitor is called %d times", calls))
		}
	}
	if vs == "" {
		bad = append(bad, "never calls the registered visitor")
	}
	for _, b := range bad {
		c.bad("prim|CallVisitor|"+b, c.P.pos(f.Pos()), "dispatch: %s", b)
	}
}

func primCallListener(c *Ctx) {
	f := walkPrim(c, "CallListener")
	if f == nil {
		return
	}
	t, n, key, ctx := mk("param", "t"), mk("param", "n"), mk("param", "key"), mk("param", "ctx")
	ip := &Interp{P: c.P, MaxLoop: 2}
	stopHooks(ip)
	var bad []string
	most := 0
	ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
		if callee == nil && !cc.IsInvoke() {
			if len(args) != 3 || args[0] != n || args[1] != key || args[2] != ctx {
				bad = append(bad, "passes other arguments to a listener")
			}
			ft := ""
			if v := fr.env[cc.Value]; v != nil {
				ft = v.key
			}
			if !strings.Contains(ft, "WalkCtx.Listeners") || !strings.Contains(ft, t.key) {
				bad = append(bad, "calls a listener of another event")
			}
			want := "call"
			k := strings.Count(ft, "Next")
			want = fmt.Sprintf("call%d", k)
			st.addEv(want)
			return mk("void", ""), true, false
		}
		return nil, false, callee != nil && (fnRel(callee) == walkPkg)
	}
	for _, o := range ip.Run(f, []*Term{t, n, key, ctx}) {
		if o.panic {
			continue
		}
		i := 0
		st := false
		for _, e := range o.st.ev {
			if e == "stop!" {
				st = true
			}
			if strings.HasPrefix(e, "call") {
				if e != fmt.Sprintf("call%d", i) {
					bad = append(bad, "listeners are not called one by one in order")
				}
				i++
			}
		}
		if i > most {
			most = i
		}
		// not stopped: must end on an absent element
		ended := false
		for _, li := range o.st.lits {
			if li.T.Op == "bin" && li.T.Str == "==" && li.T.Args[1].isNil() && li.Pos {
				ended = true
			}
		}
		if !st && !ended && o.st.ev != nil {
			bad = append(bad, "stops before the last listener")
		}
	}
	if most < 2 {
		bad = append(bad, "does not reach later listeners")
	}
	for _, b := range bad {
		c.bad("prim|CallListener|"+b, c.P.pos(f.Pos()), "notifying listeners: %s", b)
	}
}

func primScopes(c *Ctx) {
	wc := mk("param", "c")
	seed, ids := mk("faddr", "WalkCtx.scopeIdSeed", wc), mk("faddr", "WalkCtx.scopeIds", wc)
	seed0, ids0 := mk("field", "WalkCtx.scopeIdSeed", wc), mk("field", "WalkCtx.scopeIds", wc)
	for _, name := range []string{"WalkCtx.PushScope", "WalkCtx.PopScope"} {
		f := walkPrim(c, name)
		if f == nil {
			continue
		}
		push := strings.HasSuffix(name, "PushScope")
		ip := &Interp{P: c.P}
		ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
			return nil, false, callee != nil && fnRel(callee) == walkPkg
		}
		var bad []string
		for _, o := range ip.Run(f, []*Term{wc}) {
			// does this trace open/close? yes unless the node says it has no scope of its own
			own, conditional := true, false
			for _, li := range o.st.lits {
				if li.T.Op == "is" {
					conditional = conditional || li.Pos
				}
				if li.T.Op == "invoke" && li.T.Str == "NewScope" {
					own = li.Pos
				}
			}
			_ = conditional
			sv, iv := o.st.mem[seed], o.st.mem[ids]
			switch {
			case !own && (iv != nil && iv != ids0 || sv != nil && sv != seed0):
				bad = append(bad, "changes the scope for a node without a scope of its own")
			case own && push:
				if iv == nil || iv.Op != "append" || !reaches(o.st, iv, ids0) || !reaches(o.st, iv, seed0) {
					bad = append(bad, "does not push the next scope id")
				}
				if sv != mkBin("+", seed0, mk("const", "1")) && sv != mkBin("+", mk("const", "1"), seed0) {
					bad = append(bad, "does not advance the scope id")
				}
			case own && !push:
				want := mk("slice", "", ids0, mk("none", ""), mkBin("-", mkLen(ids0), mk("const", "1")))
				want2 := mk("slice", "", ids0, mk("const", "0"), mkBin("-", mkLen(ids0), mk("const", "1")))
				if iv != want && iv != want2 {
					bad = append(bad, "does not drop exactly the innermost scope")
				}
				if sv != nil && sv != seed0 {
					bad = append(bad, "changes the scope id counter on leaving")
				}
			}
		}
		for _, b := range bad {
			c.bad("prim|"+name+"|"+b, c.P.pos(f.Pos()), "scope bookkeeping: %s", b)
		}
	}
	f := walkPrim(c, "WalkCtx.ScopeId")
	if f != nil {
		ip := &Interp{P: c.P}
		for _, o := range ip.Run(f, []*Term{wc}) {
			want := mk("elem", "", ids0, mkBin("-", mkLen(ids0), mk("const", "1")))
			if len(o.rets) == 1 && o.rets[0] != want {
				c.bad("prim|ScopeId", c.P.pos(f.Pos()), "the reported scope is %v, not the innermost entered one", o.rets[0])
			}
		}
	}
}

func primListeners(c *Ctx) {
	ls, t, impl := mk("param", "ls"), mk("param", "t"), mk("param", "impl")
	for name, want := range map[string]string{"AddNodeBeforeListener": "NodeBeforeEvent", "AddNodeAfterListener": "NodeAfterEvent"} {
		f := walkPrim(c, name)
		if f == nil {
			continue
		}
		ip := &Interp{P: c.P}
		ok := false
		ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
			if callee != nil && (callee.Name() == "NodeBeforeEvent" || callee.Name() == "NodeAfterEvent") {
				return mk("call", callee.Name(), args...), true, false
			}
			if callee != nil && callee.Name() == "AddListener" {
				ok = args[0] == ls && args[1] == mk("call", want, t) && args[2] == impl
				return tNil, true, false
			}
			return nil, false, callee != nil && fnRel(callee) == walkPkg
		}
		ip.Run(f, []*Term{ls, t, impl})
		if !ok {
			c.bad("prim|"+name, c.P.pos(f.Pos()), "%s does not register the listener under %s", name, want)
		}
	}
	for name, want := range map[string]string{"AddBeforeListener": "AddNodeBeforeListener", "AddAfterListener": "AddNodeAfterListener"} {
		f := walkPrim(c, name)
		if f == nil {
			continue
		}
		ip := &Interp{P: c.P}
		ok := false
		ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
			if callee != nil && callee.Name() == want {
				ok = args[0] == ls && args[2] == impl && args[1].Op == "rkey" && strings.Contains(args[1].key, "walk.NodeTypes")
				return mk("void", ""), true, false
			}
			return nil, false, callee != nil && fnRel(callee) == walkPkg
		}
		outs := ip.Run(f, []*Term{ls, impl})
		for _, o := range outs {
			for _, li := range o.st.lits {
				if li.T.Op != "more" {
					ok = false
				}
			}
		}
		if !ok {
			c.bad("prim|"+name, c.P.pos(f.Pos()), "%s does not register the listener for every node kind", name)
		}
	}
}

func init() {
	register("W01", func(c *Ctx) {
		c.rule("the default visitor of each node kind visits exactly the reviewed children in the reviewed order on every trace (absent children and a stopped walk excepted), under its own key, and asserts the struct the parser builds for the kind")
		c.rule("visiting one child / a list dispatches each present element exactly once on its own kind with a context whose parent is the current one, and restores it")
		checkWalkChildren(c)
	})
	register("W02", func(c *Ctx) {
		c.rule("each visitor fires its kind's before event once before and after event once after all children, and enters/leaves its scope at the reviewed point on every trace")
		c.rule("event identifiers are distinct and agree between constants, derivation functions and tables; listener notification calls every listener in order unless stopped; no node is dispatched once the walk is stopped")
		checkWalkEvents(c)
	})
}

// reaches: is x part of the value t (looking through locally built storage)?
func reaches(st *pstate, t, x *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == x {
			return true
		}
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		if t.Op == "alloc" || t.Op == "make" {
			for k, v := range st.mem {
				if k.Op != "live" && under(k, t) && f(v) {
					return true
				}
			}
		}
		return false
	}
	return f(t)
}
