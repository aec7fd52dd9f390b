package main

import (
	"fmt"
	"path"
	"sort"
	"strings"
)

// A group of packages sharing one reviewed decision table.
type evGroup struct {
	name string
	pkgs []string
}

var evGroups = map[string]*evGroup{}

func group(name string, pkgs ...string) *evGroup {
	g := &evGroup{name, pkgs}
	evGroups[name] = g
	return g
}

// The whole repository is loaded whatever the group, so that effects of callees are known.
func (g *evGroup) patterns() []string { return []string{"./..."} }

func (d *descr) fnFiles() map[string]string {
	out := map[string]string{}
	for _, f := range d.p.All {
		if d.pkgs[fnRel(f)] && f.Parent() == nil && f.Synthetic == "" && f.Pos().IsValid() {
			out[d.name(f)] = path.Base(d.p.Fset.Position(f.Pos()).Filename)
		}
	}
	return out
}

func (d *descr) groupFields() map[string][]string {
	out := map[string][]string{}
	for k := range d.pkgs {
		for n, fs := range structFields(d.p, k) {
			out[n] = fs
		}
	}
	return out
}

func (g *evGroup) run(p *Prog, sp *evSpec) (*eventer, []event) {
	d := newDescr(p, g.pkgs...)
	if sp != nil {
		d.useKnown(sp.Sigs)
		d.fields = renames(sp.Fields, d.groupFields())
	}
	e := newEventer(d, newReacher(d))
	if sp != nil {
		e.known = sp.Eff
		e.findNovel(sp.Sigs)
	}
	return e, e.collect(nil)
}

type tabKey struct {
	p *Prog
	g *evGroup
}
type tabRun struct {
	sp   evSpec
	e    *eventer
	cur  []event
	want []event
}

var tabRuns = map[tabKey]*tabRun{} // several checks of one run share the extraction

type evFilter func(kind, fn, file, code string) bool

// checkTable compares the part of the decision table selected by keep with the reviewed one.
func checkTable(c *Ctx, g *evGroup, keep evFilter) {
	run, ok := tabRuns[tabKey{c.P, g}]
	if !ok {
		run = &tabRun{}
		if !readSpec("ev_"+g.name+".json", &run.sp) {
			c.bad("spec", "-", "reviewed decision table missing")
			return
		}
		run.e, run.cur = g.run(c.P, &run.sp)
		run.want = run.sp.load(run.e.r.b)
		tabRuns[tabKey{c.P, g}] = run
	}
	sp, e, cur := &run.sp, run.e, run.cur
	b := e.r.b
	files := e.d.fnFiles()
	fileOf := func(fn string) string {
		if f, ok := sp.Files[fn]; ok {
			return f
		}
		return files[fn]
	}
	type k3 [3]string
	want, have := map[k3]event{}, map[k3]event{}
	fns := map[string]bool{}
	for _, ev := range run.want {
		if keep(ev.kind, ev.fn, fileOf(ev.fn), ev.code) {
			want[k3{ev.fn, ev.kind, ev.code}] = ev
			fns[ev.fn] = true
		}
	}
	for _, ev := range cur {
		if keep(ev.kind, ev.fn, fileOf(ev.fn), ev.code) {
			have[k3{ev.fn, ev.kind, ev.code}] = ev
		}
	}
	c.count("steps compared", len(want))
	c.count("functions", len(fns))
	conds := map[int]bool{}
	for _, ev := range want {
		conds[ev.f] = true
	}
	c.count("distinct conditions", len(conds))
	keys := map[k3]bool{}
	for k := range want {
		keys[k] = true
	}
	for k := range have {
		keys[k] = true
	}
	var ks []k3
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	fnAt := map[string]string{}
	for _, f := range e.d.p.All {
		if e.d.pkgs[fnRel(f)] && f.Parent() == nil {
			fnAt[e.d.name(f)] = e.d.p.pos(f.Pos())
		}
	}
	n := map[string]int{}
	wErr, hErr := errConds(run.want), errConds(cur)
	for _, k := range ks {
		if k[1] == "err" {
			continue
		}
		w, okW := want[k]
		h, okH := have[k]
		fn, key := k[0], k[1]+"|"+k[0]+"|"+k[2]
		at := fnAt[fn]
		if okH {
			at = h.at
		}
		if at == "" {
			at = fn
		}
		msg := ""
		if k[1] == "carry" && okW != okH {
			// what updates the variable shows where it is used; whether the variable is one at all
			// (or a cell, or a helper's result) is a matter of how the loop is written
			continue
		}
		switch {
		case okW && !okH:
			msg = fmt.Sprintf("%s no longer does this: %s%s", fn, short(k[2]), whenText(b, w.f))
		case !okW && okH:
			msg = fmt.Sprintf("%s now does this: %s%s", fn, short(k[2]), whenText(b, h.f))
		default:
			if h.f == w.f {
				continue
			}
			th := b.theory(append(b.support(h.f), b.support(w.f)...))
			x, y := b.and(h.f, th), b.and(w.f, th)
			if x == y {
				continue
			}
			more, less := b.and(x, b.not(y)), b.and(y, b.not(x))
			// Where the function fails before and after alike, which of its steps still happen, and
			// which of its errors is reported first, is not compared.
			if d := b.or(more, less); wErr.covers(b, d, fn, k[1], k[2]) && hErr.covers(b, d, fn, k[1], k[2]) {
				continue
			}
			msg = fmt.Sprintf("%s: the condition of \"%s\" changed", fn, short(k[2]))
			if more != bF {
				msg += "; now also when " + short(b.cubes(more, 1)[0])
			}
			if less != bF {
				msg += "; no longer when " + short(b.cubes(less, 1)[0])
			}
		}
		if n[fn]++; n[fn] > 4 {
			continue
		}
		c.bad(short(key), at, "%s", msg)
	}
}

// fnErrs: under which conditions the functions of a table end in an error.
type fnErrs struct {
	ends, each map[string][]event
}

func errConds(evs []event) *fnErrs {
	x := &fnErrs{map[string][]event{}, map[string][]event{}}
	for _, e := range evs {
		switch e.kind {
		case "err":
			x.ends[e.fn] = append(x.ends[e.fn], e)
		case "raise", "fail":
			x.each[e.fn] = append(x.each[e.fn], e)
		}
	}
	return x
}

// covers: wherever f holds the function ends in an error, and one other than the given one.
func (x *fnErrs) covers(b *bdd, f int, fn, kind, code string) bool {
	rest := f
	for _, e := range x.ends[fn] {
		if rest = b.and(rest, b.not(e.f)); rest == bF {
			break
		}
	}
	if rest != bF {
		return false
	}
	if kind != "raise" && kind != "fail" {
		return true
	}
	rest = f
	for _, e := range x.each[fn] {
		if e.kind != kind || e.code != code {
			if rest = b.and(rest, b.not(e.f)); rest == bF {
				return true
			}
		}
	}
	return rest == bF
}

func short(s string) string {
	if len(s) > 400 {
		return s[:400] + "..."
	}
	return s
}

func whenText(b *bdd, f int) string {
	cs := b.cubes(f, 1)
	if len(cs) == 0 || cs[0] == "" {
		return ""
	}
	return " (when " + short(cs[0]) + ")"
}

type tableSel struct {
	id   string
	g    *evGroup
	keep evFilter
}

var tableSels []tableSel

func tableCheck(id string, g *evGroup, floor int, rule string, keep evFilter) {
	tableSels = append(tableSels, tableSel{id, g, keep})
	register(id, func(c *Ctx) {
		c.rule(rule)
		c.rule("every observable step (error raised or handed on, node field set, state-changing call, value returned) of the selected functions, with the condition that leads to it as a Boolean function over canonical guard texts, must equal the reviewed table; helpers unknown to the table are looked through, so only what is decided counts")
		c.assume("lookahead functions (Peek*) do not change what later code observes")
		c.assume("a guard text denotes one value between two advances of the input; conditions of loop iterations are taken per iteration")
		checkTable(c, g, keep)
		c.floor("steps compared", floor)
	}, g.patterns()...)
}

func init() {
	debugCmds["mine"] = func(args []string) {
		for _, n := range args {
			g := evGroups[n]
			p, err := load(false, g.patterns()...)
			if err != nil {
				panic(err)
			}
			e, evs := g.run(p, nil)
			sp := e.mine(evs, e.d.groupFields())
			writeSpecCompact("ev_"+n+".json", sp)
			m := map[string]int{}
			for _, ev := range evs {
				m[ev.kind]++
			}
			fmt.Println(n, m, len(sp.Nodes))
		}
	}
	debugCmds["uncovered"] = func(args []string) { // steps of a table that no property selects
		var sp evSpec
		readSpec("ev_"+args[0]+".json", &sp)
		n := map[string]int{}
		for _, ev := range sp.Events {
			hit := ev.Kind == "err"
			for _, t := range tableSels {
				hit = hit || t.g.name == args[0] && t.keep(ev.Kind, ev.Fn, sp.Files[ev.Fn], ev.Code)
			}
			if !hit {
				n[sp.Files[ev.Fn]+" "+ev.Fn+" "+ev.Kind]++
			}
		}
		for k, v := range n {
			fmt.Println(k, v)
		}
	}
	debugCmds["tdiff"] = func(args []string) { // every mismatch of a group
		g := evGroups[args[0]]
		p, err := load(false, g.patterns()...)
		if err != nil {
			panic(err)
		}
		c := &Ctx{P: p, Prop: "-", Counts: map[string]int{}}
		checkTable(c, g, func(kind, fn, file, code string) bool { return true })
		for _, f := range c.Findings {
			fmt.Println(f.At, strings.ReplaceAll(f.Msg, "\n", " "))
		}
		fmt.Println(len(c.Findings), "findings")
	}
}

var gParser = group("parser", "ecma/parser", "span")

var (
	gAnalysis = group("analysis", "ecma/analysis")
	gExec     = group("exec", "ecma/exec")
	gAstutil  = group("astutil", "ecma/astutil")
	gWalk     = group("walk", "ecma/walk")
	gEstree   = group("estree", "ecma/estree")
	gUtil     = group("util", "util", "parseutil", "cli")
)
