package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const walkPkg = "ecma/walk"

// walkConsts: value -> name of every NodeType constant the walker declares or re-exports.
func walkConsts(p *Prog) map[string]string {
	out := map[string]string{}
	sc := p.Pkgs[walkPkg].Types.Scope()
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok {
			continue
		}
		nt, ok := c.Type().(*types.Named)
		if !ok || nt.Obj().Name() != "NodeType" {
			continue
		}
		v := c.Val().ExactString()
		if strings.HasSuffix(n, "_DEF_BEGIN") || strings.HasSuffix(n, "_DEF_END") {
			continue
		}
		if o, dup := out[v]; dup && o != n {
			out[v] = o + "=" + n // two names for one event: reported
			continue
		}
		out[v] = n
	}
	return out
}

// walkTable reads the registrations done by the package initialisers: constant index -> function.
func walkTable(p *Prog, global string) (map[string]*ssa.Function, []string) {
	out := map[string]*ssa.Function{}
	var dup []string
	sp := p.SPkgs[walkPkg]
	g, _ := sp.Members[global].(*ssa.Global)
	if g == nil {
		return nil, nil
	}
	for _, f := range p.All {
		if fnRel(f) != walkPkg || !strings.HasPrefix(f.Name(), "init") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := st.Addr.(*ssa.IndexAddr)
				if !ok || ia.X != g {
					continue
				}
				c, ok := ia.Index.(*ssa.Const)
				if !ok {
					continue
				}
				var fn *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.Function:
					fn = v
				case *ssa.MakeClosure:
					fn, _ = v.Fn.(*ssa.Function)
				case *ssa.ChangeType:
					fn, _ = v.X.(*ssa.Function)
				}
				k := constant.ToInt(c.Value).ExactString()
				if o := out[k]; o != nil && o != fn {
					dup = append(dup, k)
				}
				out[k] = fn
			}
		}
	}
	return out, dup
}

type walkKind struct {
	Struct string   `json:"struct"`
	Seq    []string `json:"seq"`
	Stop   bool     `json:"-"`
}

type walkAn struct {
	p      *Prog
	names  map[string]string
	table  map[string]*ssa.Function
	evMemo map[string][]string
	bad    func(key, at, f string, a ...any)
	prims  map[string]*ssa.Function
}

func newWalkAn(c *Ctx) *walkAn {
	w := &walkAn{p: c.P, names: walkConsts(c.P), evMemo: map[string][]string{}, bad: c.bad}
	var dup []string
	w.table, dup = walkTable(c.P, "DefaultVisitors")
	for _, d := range dup {
		c.bad("register|"+w.names[d], walkPkg, "two visitors are registered for %s", w.names[d])
	}
	return w
}

// eventsOf: what CallVisitor(const, node) does by default: the listener events it fires on the node.
func (w *walkAn) eventsOf(k string) []string {
	if e, ok := w.evMemo[k]; ok {
		return e
	}
	w.evMemo[k] = []string{"recursive"}
	f := w.table[k]
	if f == nil {
		w.evMemo[k] = []string{"unregistered:" + w.names[k]}
		return w.evMemo[k]
	}
	node := mk("param", "node")
	traces, _, _ := w.run(f, node, w.kindOfEvent(k), true)
	var res []string
	for i, t := range traces {
		if i == 0 {
			res = t.seq
		} else if strings.Join(res, ";") != strings.Join(t.seq, ";") {
			res = append(append([]string{}, res...), "varies")
		}
	}
	w.evMemo[k] = res
	return res
}

// kindOfEvent: the kind value a before/after event belongs to ("" when it is no event).
func (w *walkAn) kindOfEvent(k string) string {
	for _, n := range strings.Split(w.names[k], "=") {
		for _, sfx := range []string{"_BEFORE", "_AFTER"} {
			if b, ok := strings.CutSuffix(n, sfx); ok {
				if v, ok := w.p.kinds()[b]; ok {
					return fmt.Sprint(v)
				}
			}
		}
	}
	return ""
}

// collapsePath: X.f>X.f is the same child reached through nested wrappers of one kind.
func collapsePath(s string) string {
	parts := strings.Split(s, ">")
	var o []string
	for _, p := range parts {
		if len(o) == 0 || o[len(o)-1] != p {
			o = append(o, p)
		}
	}
	return strings.Join(o, ">")
}

type walkTrace struct {
	seq  []string // events
	lits []Lit
	st   *pstate
}

func (w *walkAn) run(f *ssa.Function, node *Term, kval string, handler bool) ([]walkTrace, map[string]bool, bool) {
	ip := &Interp{P: w.p, MaxPaths: 20000}
	asserted := map[string]bool{}
	seqNo := func(st *pstate) string {
		n := 0
		for _, e := range st.ev {
			if strings.HasPrefix(e, "visit ") || strings.HasPrefix(e, "fire ") {
				n++
			}
		}
		return fmt.Sprint(n)
	}
	leaf := func(st *pstate, t *Term) string {
		l := &leafer{root: node, st: st}
		m := map[string]bool{}
		for x := range l.of(t, "", "").may {
			m[collapsePath(x)] = true
		}
		return strings.Join(setList(m), "+")
	}
	keyOf := func(t *Term) string {
		if t.isConst() {
			return t.Str
		}
		// formatted keys: the constant format (or prefix) identifies the child
		for _, a := range t.Args {
			if a != nil && a.isConst() && strings.HasPrefix(a.Str, `"`) {
				return strings.Replace(a.Str, "[%d]", "", 1)
			}
		}
		return "?"
	}
	ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
		if callee == nil {
			if cc.IsInvoke() && cc.Method.Name() == "Type" && args[0] == node && kval != "" {
				return mk("const", kval), true, false
			}
			return nil, false, false
		}
		rel := fnRel(callee)
		if rel == "ecma/parser" {
			rn := recvNamed(callee)
			if callee.Name() == "Type" && args[0] == node && kval != "" {
				return mk("const", kval), true, false
			}
			return nil, false, rn != nil
		}
		if rel != walkPkg {
			return nil, false, false
		}
		void := mk("void", "")
		switch callee.Name() {
		case "VisitNode":
			if args[0].isNil() {
				return void, true, false
			}
			st.addEv("visit " + leaf(st, args[0]) + " " + keyOf(args[1]))
			return void, true, false
		case "VisitNodes":
			if args[1].isNil() || (args[1].Op == "alloc" && leaf(st, args[1]) == "") {
				return void, true, false
			}
			st.addEv("visit " + leaf(st, args[1]) + "[*] " + keyOf(args[2]))
			return void, true, false
		case "VisitNodesWithCb":
			st.addEv("visit " + leaf(st, args[1]) + "[*] " + keyOf(args[2]))
			return void, true, false
		case "CallVisitor":
			if args[0].isConst() && args[1] == node {
				for _, e := range w.eventsOf(args[0].Str) {
					st.addEv("fire " + e)
				}
				if args[0].Str == kval {
					st.addEv("fire recursion")
				}
			} else {
				st.addEv("fire ? " + leaf(st, args[1]))
			}
			return void, true, false
		case "CallListener":
			if args[0].isConst() {
				n := w.names[args[0].Str]
				if args[1] != node {
					n += " on " + leaf(st, args[1])
				}
				if handler {
					st.addEv(n)
				} else {
					st.addEv("fire " + n)
				}
			} else {
				st.addEv("fire ?")
			}
			return void, true, false
		case "PushScope":
			st.addEv("push")
			return void, true, false
		case "PopScope":
			st.addEv("pop")
			return void, true, false
		case "Stopped":
			return mk("stopped", seqNo(st)), true, false
		}
		return nil, false, true
	}
	ip.OnInstr = func(fr *frame, st *pstate, in ssa.Instruction) {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op == token.MUL {
				if t := fr.env[in]; t != nil && t.Op == "field" && t.Str == "WalkCtx.stop" {
					fr.env[in] = mk("stopped", seqNo(st))
				}
			}
		case *ssa.TypeAssert:
			if !in.CommaOk {
				x := fr.env[in.X]
				if x == node {
					asserted[strings.TrimPrefix(typeShort(in.AssertedType), "*parser.")] = true
				}
			}
		}
	}
	ip.OnBranch = func(fr *frame, st *pstate, cond *Term, taken bool, in *ssa.If) {
		if cond.Op == "stopped" {
			if taken {
				st.addEv("stop!")
			} else {
				st.addEv("stop?")
			}
		}
	}
	args := []*Term{node, mk("param", "key"), mk("param", "ctx")}
	var out []walkTrace
	for _, o := range ip.Run(f, args) {
		if o.panic {
			continue
		}
		out = append(out, walkTrace{seq: o.st.ev, lits: o.st.lits, st: o.st})
	}
	return out, asserted, ip.Overflow
}

// normSeq drops stop tests and repeated element visits of one loop.
func normSeq(ev []string) []string {
	var out []string
	for _, e := range ev {
		if e == "stop?" || e == "stop!" {
			continue
		}
		if len(out) > 0 && out[len(out)-1] == e && strings.Contains(e, "[*]") {
			continue
		}
		out = append(out, e)
	}
	return out
}

func stopped(ev []string) bool {
	for _, e := range ev {
		if e == "stop!" {
			return true
		}
	}
	return false
}

// kindSeq returns the complete event sequence of a visitor and whether every trace follows it.
func (w *walkAn) kind(k, kval string) (*walkKind, []string) {
	f := w.table[kval]
	if f == nil {
		return nil, nil
	}
	node := mk("param", "node")
	traces, asserted, ov := w.run(f, node, kval, false)
	var probs []string
	if ov {
		probs = append(probs, "too many traces")
	}
	var full []string
	for _, t := range traces {
		if stopped(t.seq) {
			continue
		}
		if s := normSeq(t.seq); len(s) > len(full) {
			full = s
		}
	}
	// every trace is an admissible variant of the full one
	for _, t := range traces {
		s := normSeq(t.seq)
		l := &leafer{root: node, st: t.st}
		i := 0
		isStopped := stopped(t.seq)
		for _, e := range s {
			j := i
			for j < len(full) && full[j] != e {
				j++
			}
			if j == len(full) {
				probs = append(probs, "a trace performs ["+strings.Join(s, ", ")+"]")
				break
			}
			for _, skipped := range full[i:j] {
				if !strings.HasPrefix(skipped, "visit ") {
					if skipped == "push" || skipped == "pop" {
						if isStopped {
							continue
						}
					}
					probs = append(probs, "a trace omits "+skipped)
					continue
				}
				lf := strings.Fields(skipped)[1]
				if !isStopped && !l.excused(lf, t.lits) && !l.excused(strings.TrimSuffix(lf, "[*]"), t.lits) {
					probs = append(probs, "a trace skips "+lf+" although it may be present")
				}
			}
			i = j + 1
		}
		for _, skipped := range full[i:] {
			if strings.HasPrefix(skipped, "fire ") || (skipped == "pop" && strings.Count(strings.Join(s, ";"), "push") != strings.Count(strings.Join(s, ";"), "pop")) {
				probs = append(probs, "a trace omits "+skipped)
			}
			if strings.HasPrefix(skipped, "visit ") && !isStopped {
				lf := strings.Fields(skipped)[1]
				if !l.excused(lf, t.lits) && !l.excused(strings.TrimSuffix(lf, "[*]"), t.lits) {
					probs = append(probs, "a trace skips "+lf)
				}
			}
		}
		// scopes balance
		d := 0
		for _, e := range s {
			if e == "push" {
				d++
			} else if e == "pop" {
				d--
			}
			if d < 0 {
				probs = append(probs, "leaves a scope it did not enter")
			}
		}
		if d != 0 {
			probs = append(probs, "scope entries and exits do not balance")
		}
	}
	st := strings.Join(setList(asserted), ",")
	sort.Strings(probs)
	return &walkKind{Struct: st, Seq: full}, probs
}

type walkSpec struct {
	Structs map[string][]string  `json:"structs"`
	Kinds   map[string]*walkKind `json:"kinds"`
}

func init() {
	debugCmds["walk"] = func(args []string) {
		p, err := load(false, "./ecma/...", "./span", "./util")
		if err != nil {
			panic(err)
		}
		c := &Ctx{P: p, Counts: map[string]int{}}
		w := newWalkAn(c)
		sp := walkSpec{Structs: structFields(p, "ecma/parser"), Kinds: map[string]*walkKind{}}
		ks := p.kinds()
		for _, k := range sortedKeys(ks) {
			r, pr := w.kind(k, fmt.Sprint(ks[k]))
			if r == nil {
				continue
			}
			sp.Kinds[k] = r
			fmt.Printf("%s (%s): %s", k, r.Struct, strings.Join(r.Seq, "; "))
			if len(pr) > 0 {
				fmt.Printf("   PROBLEMS %v", pr)
			}
			fmt.Println()
		}
		if len(args) > 0 && args[0] == "write" {
			writeSpec("walk.json", sp)
		}
		fmt.Println(c.Findings)
	}
}
