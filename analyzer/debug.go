package main

import (
	"fmt"
	"os"
	"strings"
)

func init() {
	debugCmds["ssa"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		f := p.fn(args[0], args[1])
		if f == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		f.WriteTo(os.Stdout)
	}
	debugCmds["stat"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Println(len(p.Pkgs), len(p.All))
	}
}

func init() {
	debugCmds["allchecks"] = func(args []string) { // every registered check on one load; prints the ids that alarm
		p, err := load(false, "./...")
		if err != nil {
			fmt.Println("LOAD", err)
			os.Exit(2)
		}
		for _, id := range sortedKeys(checks) {
			if checks[id].wasm || strings.Contains(os.Getenv("MC_SKIP"), id) {
				continue
			}
			c := &Ctx{P: p, Prop: id, Counts: map[string]int{}}
			checks[id].run(c)
			n := 0
			for _, f := range c.Findings {
				_ = f
				n++
			}
			if n > 0 {
				fmt.Printf("%s(%d) ", id, n)
				if len(args) > 0 {
					fmt.Println()
					for _, f := range c.Findings {
						fmt.Println("   ", f.At, short(f.Msg))
					}
				}
			}
		}
		fmt.Println()
	}
}

func init() {
	debugCmds["dead"] = func(args []string) { // blocks the condition analysis holds unreachable
		g := evGroups[args[0]]
		p, err := load(false, g.patterns()...)
		if err != nil {
			panic(err)
		}
		d := newDescr(p, g.pkgs...)
		d.useKnown(d.sigs())
		r := newReacher(d)
		n := 0
		for _, f := range p.All {
			if !d.pkgs[fnRel(f)] || f.Blocks == nil || !d.isKnown(f) {
				continue
			}
			for _, b := range f.Blocks {
				if len(b.Preds) == 0 || b == f.Recover {
					continue
				}
				if x := r.b.simplify(r.block(b, nil)); x == bF {
					// only report the frontier
					front := false
					for _, q := range b.Preds {
						if r.b.simplify(r.block(q, nil)) != bF {
							front = true
						}
					}
					if front {
						n++
						for _, in := range b.Instrs {
							if in.Pos().IsValid() {
								fmt.Println(d.name(f), b.Index, p.pos(in.Pos()))
								break
							}
						}
					}
				}
			}
		}
		fmt.Println(n)
	}
}

func init() {
	debugCmds["aliases"] = func(args []string) {
		g := evGroups[args[0]]
		p, err := load(false, g.patterns()...)
		if err != nil {
			panic(err)
		}
		var sp evSpec
		readSpec("ev_"+g.name+".json", &sp)
		d := newDescr(p, g.pkgs...)
		d.useKnown(sp.Sigs)
		t := map[string]bool{}
		for f, g := range d.alias {
			t[g] = true
			fmt.Println(f, "=", g)
		}
		cur := d.sigs()
		for n, s := range sp.Sigs {
			if _, ok := cur[n]; !ok && !t[n] {
				fmt.Println("LOST", n, s)
			}
		}
	}
}
