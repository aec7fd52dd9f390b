package main

import (
	"fmt"
	"go/types"
)

// raise sites: where the parser rejects a program, and under which conditions.

func isErrPtr(t types.Type) bool {
	s := typeShort(t)
	return s == "*parser.ParserError" || s == "*parser.LexerError"
}

func init() {
	debugCmds["events"] = func(args []string) {
		p, err := load(false, "./...")
		if err != nil {
			panic(err)
		}
		d := newDescr(p, args[0])
		r := newReacher(d)
		e := newEventer(d, r)
		n := map[string]int{}
		for _, ev := range e.collect(nil) {
			n[ev.kind]++
			if len(args) > 1 && ev.kind != args[1] {
				continue
			}
			fmt.Printf("%s %s %s\n   %s\n", ev.at, ev.fn, ev.kind, ev.code)
			for _, g := range r.b.cubes(ev.f, 12) {
				fmt.Println("      ", g)
			}
		}
		fmt.Println(n, len(r.b.nodes))
	}
}
