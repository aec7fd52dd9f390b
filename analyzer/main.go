package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

type check struct {
	id       string
	patterns []string
	wasm     bool
	run      func(c *Ctx)
}

var checks = map[string]check{}

func register(id string, run func(c *Ctx), patterns ...string) {
	if len(patterns) == 0 {
		patterns = []string{"./ecma/...", "./span", "./util", "./parseutil"}
	}
	checks[id] = check{id: id, patterns: patterns, run: run}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: molecheck <property> [quick|thorough]")
		os.Exit(2)
	}
	if pf := os.Getenv("MC_PROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	id := os.Args[1]
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if d, ok := debugCmds[id]; ok {
		d(os.Args[2:])
		return
	}
	ck, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		os.Exit(2)
	}
	start := time.Now()
	p, err := load(ck.wasm, ck.patterns...)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load /repo:", err)
		os.Exit(2)
	}
	c := &Ctx{P: p, Prop: id, Tier: tier, Counts: map[string]int{}}
	func() {
		defer func() {
			if r := recover(); r == tooBig {
				c.bad("size", "-", "the decisions of some function can no longer be followed: %v", r)
			} else if r != nil {
				fmt.Fprintf(os.Stderr, "analyser panic: %v\n%s\n", r, debug.Stack())
				os.Exit(2)
			}
		}()
		ck.run(c)
	}()
	os.Exit(c.finish(start))
}

var debugCmds = map[string]func(args []string){}
