package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The library packages: everything that turns source text into trees, walks, graphs and values.
var libPkgs = []string{"ecma/parser", "ecma/estree", "ecma/walk", "ecma/analysis", "ecma/astutil", "ecma/exec", "span"}

// reachableFrom: every function of the module control can get to from functions of the packages
// (calls, method values, closures and functions used as values), package initialisers left out.
func (e *effects) reachableFrom(pkgs ...string) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out, todo []*ssa.Function
	push := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && !isInit(f) && inModFn(f) {
			seen[f] = true
			todo = append(todo, f)
		}
	}
	for _, f := range e.p.All {
		if oneOf(fnRel(f), pkgs...) {
			push(f)
		}
	}
	for len(todo) > 0 {
		f := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && (c.Common().IsInvoke() || c.Common().StaticCallee() != nil) {
					for _, g := range e.callees(c.Common()) {
						push(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					if g, ok := (*op).(*ssa.Function); ok {
						push(g)
						if g.Blocks == nil {
							push(g.Origin())
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func inModFn(f *ssa.Function) bool {
	r := fnRel(f)
	return r != "" && !strings.Contains(r, ".")
}

// outside: what a call outside the module touches beside its arguments, "" if nothing.
func outside(name string) string {
	name = strings.TrimPrefix(name, "I:")
	n := strings.TrimLeft(name, "(*")
	i := strings.LastIndex(n, "/")
	j := strings.Index(n[i+1:], ".")
	if j < 0 {
		return ""
	}
	pk := n[:i+1+j]
	fn := n[i+1+j+1:]
	switch {
	case oneOf(pk, "os", "os/exec", "os/signal", "io/ioutil", "net", "net/http", "syscall", "plugin", "archive/tar", "compress/gzip", "runtime/debug", "internal/poll"):
		return "the operating system"
	case pk == "io/fs" || pk == "path/filepath" && oneOf(fn, "Walk", "WalkDir", "Glob", "Abs", "EvalSymlinks"):
		return "the file system"
	case pk == "log" || pk == "flag":
		return "the process"
	case pk == "fmt" && (strings.HasPrefix(fn, "Print") || strings.HasPrefix(fn, "Scan")):
		return "standard output"
	case pk == "time" && oneOf(fn, "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker"):
		return "the clock"
	case strings.HasPrefix(pk, "math/rand") || pk == "crypto/rand" || pk == "hash/maphash":
		return "random numbers"
	case pk == "runtime" && oneOf(fn, "GC", "Goexit", "GOMAXPROCS", "NumGoroutine", "SetFinalizer", "Caller", "Callers"):
		return "the runtime"
	case strings.HasPrefix(pk, "sync") && strings.Contains(n, "Pool"):
		return "a pool shared by the process"
	}
	return ""
}

// Reviewed uses, by package and callee.
var outsideOK = map[string]string{
	"ecma/exec time.Now":   "only becomes part of the name under which an evaluator registers its own listeners",
	"ecma/walk log.Fatalf": "development aid, off unless the user sets RaiseNoImpl",
}

func init() {
	register("G01", func(c *Ctx) {
		c.rule("no function the library can reach changes memory that belongs to a package-level variable (assignment, map change, or call that changes what it is given, followed through fields that may hold such memory)")
		c.rule("no function the library can reach starts goroutines or uses the clock, random numbers, files, network, standard streams, pools or the end of the process, except the reviewed uses")
		c.assume("standard-library functions change only what their documentation says")
		e := newEffects(c.P)
		fs := e.reachableFrom(libPkgs...)
		for _, f := range fs {
			c.count("functions", 1)
			for _, r := range sortedSites(e.muts[f]) {
				if r.g == nil || !inMod(r.g.Pkg.Pkg) {
					continue
				}
				m := e.muts[f][r]
				if !e.refs[r.g] && !directStore(m.at, r.g) {
					continue
				}
				c.bad("global|"+relPkg(r.g.Pkg.Pkg)+"."+r.g.Name(), c.P.pos(m.at.Pos()), "%s changes the package variable %s (%s): what is done with one program shows in others", fnQual(f), r.g.Name(), m.what)
			}
			for _, x := range extCalls(f) {
				c.count("calls outside the module", 1)
				w := outside(x.name)
				if w == "" {
					continue
				}
				k := fnRel(f) + " " + x.name
				if r, ok := outsideOK[k]; ok && r != "" {
					c.count("reviewed uses", 1)
					continue
				}
				c.bad("outside|"+k, c.P.pos(x.at.Pos()), "%s calls %s, which involves %s", fnQual(f), x.name, w)
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Go:
						c.bad("go|"+fnQual(f), c.P.pos(in.Pos()), "%s starts a goroutine", fnQual(f))
					case *ssa.Select:
						c.bad("select|"+fnQual(f), c.P.pos(in.Pos()), "%s waits for whichever channel is ready first", fnQual(f))
					}
				}
			}
		}
		vars := 0
		for _, pk := range libPkgs {
			for _, m := range c.P.SPkgs[pk].Members {
				if _, ok := m.(*ssa.Global); ok {
					vars++
				}
			}
		}
		c.count("package variables", vars)
		c.floor("functions", 1300)
		c.floor("package variables", 20)
		c.floor("calls outside the module", 100)
	}, "./...")

	register("G02", func(c *Ctx) {
		c.rule("no code outside the parser changes memory of a tree, scope or source it was given: no assignment to a field, list element or map of a parser type, and no call of a parser function that changes its argument")
		e := newEffects(c.P)
		for _, m := range e.nodeMuts() {
			f := m.at.Parent()
			if !oneOf(fnRel(f), libPkgs...) && !oneOf(fnRel(f), "cli", "wasm", "parseutil") {
				continue
			}
			c.bad("change|"+fnRel(f)+"|"+m.what, c.P.pos(m.at.Pos()), "%s %s", fnQual(f), m.what)
		}
		for _, f := range c.P.All {
			for i, p := range f.Params {
				if i == 0 && f.Signature.Recv() != nil || structOf(p.Type()) != "ecma/parser.ParserOpts" {
					continue
				}
				c.count("options parameters", 1)
				if m, ok := e.muts[f][root{i: i}]; ok {
					c.bad("options|"+fnQual(f), c.P.pos(m.at.Pos()), "%s changes the options it is given (%s)", fnQual(f), m.what)
				}
			}
			if oneOf(fnRel(f), libPkgs...) && !oneOf(fnRel(f), "ecma/parser", "span") {
				c.count("functions", 1)
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						switch in := in.(type) {
						case *ssa.Store:
							c.count("assignments", 1)
						case *ssa.MapUpdate:
							c.count("map changes", 1)
						case ssa.CallInstruction:
							for _, g := range e.callees(in.Common()) {
								if g.Blocks != nil && oneOf(fnRel(g), "ecma/parser", "span") {
									c.count("calls into the parser", 1)
								}
							}
						}
					}
				}
			}
		}
		c.floor("functions", 400)
		c.floor("calls into the parser", 1000)
		c.floor("options parameters", 2)
	}, "./...")

	register("G03", func(c *Ctx) {
		c.rule("no result depends on the order in which a map is iterated: a loop over a map only fills maps or sets under the key it is at, counts, or answers whether some entry satisfies a condition; other loops are reviewed")
		e := newEffects(c.P)
		for _, f := range e.reachableFrom("ecma/parser", "ecma/estree", "ecma/walk", "ecma/exec", "ecma/astutil", "span") {
			if fnRel(f) == "ecma/analysis" {
				continue
			}
			c.count("functions", 1)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					r, ok := in.(*ssa.Range)
					if !ok {
						continue
					}
					if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					c.count("loops over maps", 1)
					why := e.orderMatters(r)
					if why == "" {
						continue
					}
					k := fnRel(f) + " " + shortFn(r.X.Type().String())
					if _, ok := mapLoopOK[k]; ok {
						c.count("reviewed loops", 1)
						continue
					}
					c.bad("order|"+k, c.P.pos(r.Pos()), "%s iterates over a map and %s, so its result depends on the order of iteration", fnQual(f), why)
				}
			}
		}
		c.floor("functions", 1200)
	}, "./...")
}

// Reviewed loops, by package and type of the map.
var mapLoopOK = map[string]string{
	"ecma/exec map[parser.NodeType]*walk.Listener": "removes one listener of each kind; kinds are independent",
	"ecma/walk map[parser.NodeType]bool":           "adds one listener to each kind; kinds are independent",
}

// directStore: the instruction writes the variable itself (not what it refers to).
func directStore(in ssa.Instruction, g *ssa.Global) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		_, ok := in.(*ssa.MapUpdate)
		return ok
	}
	a := st.Addr
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			a = x.X
		default:
			return a == g
		}
	}
}

// orderMatters: why the order of iteration over the map may show, "" if it cannot.
func (e *effects) orderMatters(r *ssa.Range) string {
	var next *ssa.Next
	for _, u := range *r.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	head := next.Block()
	loop := map[*ssa.BasicBlock]bool{head: true}
	var todo []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			todo = append(todo, p)
		}
	}
	for len(todo) > 0 {
		b := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if loop[b] {
			continue
		}
		loop[b] = true
		todo = append(todo, b.Preds...)
	}
	// blocks that leave the loop by a return or a jump out of its middle
	part := map[*ssa.BasicBlock]bool{}
	for b := range loop {
		for _, s := range b.Succs {
			if !loop[s] && b != head {
				for x := s; x != nil; {
					part[x] = true
					if len(x.Succs) != 1 || len(x.Succs[0].Preds) > 1 {
						break
					}
					x = x.Succs[0]
				}
			}
		}
	}
	var perEntry func(v ssa.Value, d int) bool // depends on the entry the loop is at
	perEntry = func(v ssa.Value, d int) bool {
		if d > 8 {
			return true
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		if x, ok := v.(*ssa.Extract); ok && x.Tuple == next {
			return true
		}
		if !loop[in.Block()] && !part[in.Block()] {
			return false
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && perEntry(*op, d+1) {
				return true
			}
		}
		return false
	}
	check := func(b *ssa.BasicBlock) string {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if al, ok := in.Addr.(*ssa.Alloc); ok && loop[al.Block()] {
					continue
				}
				if _, ok := in.Val.(*ssa.Const); ok {
					continue
				}
				if perEntry(in.Addr, 0) && !perEntry(in.Val, 0) {
					continue
				}
				if perEntry(in.Addr, 0) {
					continue // memory of the entry itself
				}
				return "keeps something that depends on the entry (" + addrText(in.Addr) + ")"
			case *ssa.MapUpdate, *ssa.DebugRef:
			case *ssa.Return:
				for _, v := range in.Results {
					if perEntry(v, 0) {
						return "returns something of the first entry that fits"
					}
				}
			case ssa.CallInstruction:
				cc := in.Common()
				if bi, ok := cc.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" {
						return "collects entries in a list"
					}
					continue
				}
				gs := e.callees(cc)
				if len(gs) == 0 && cc.StaticCallee() == nil {
					return "calls a function value"
				}
				for _, g := range gs {
					if g.Blocks == nil {
						if len(extMut(g)) > 0 {
							return "calls " + g.String()
						}
						continue
					}
					if len(e.muts[g]) > 0 {
						return "calls " + fnQual(g) + ", which changes something"
					}
				}
			case *ssa.Send:
				return "sends entries to a channel"
			}
		}
		return ""
	}
	var bs []*ssa.BasicBlock
	for b := range loop {
		bs = append(bs, b)
	}
	for b := range part {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	for _, b := range bs {
		if w := check(b); w != "" {
			return w
		}
	}
	// values carried around the loop
	for _, in := range head.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for _, v := range phi.Edges {
			if bo, ok := v.(*ssa.BinOp); ok && (bo.X == phi || bo.Y == phi) && isInteger(bo.Type()) {
				continue
			}
			if perEntry(v, 0) {
				return "keeps the value of some entry"
			}
		}
	}
	return ""
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
