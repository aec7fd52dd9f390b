package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type estreeSpec struct {
	Structs map[string][]string           `json:"structs"`
	Entries map[string]map[string]*esKind `json:"entries"` // entry point -> kind -> mapping
}

var estreeEntries = []string{"Convert", "ConvertTsTyp", "ConvertProg"}

func estreeAll(p *Prog) (map[string]map[string]*esKind, []string) {
	out := map[string]map[string]*esKind{}
	var problems []string
	ks := p.kinds()
	for _, en := range estreeEntries {
		fn := p.fn("ecma/estree", en)
		if fn == nil {
			problems = append(problems, "entry "+en+" not found")
			continue
		}
		out[en] = map[string]*esKind{}
		for _, k := range sortedKeys(ks) {
			if en == "ConvertProg" && k != "N_PROG" {
				continue
			}
			if strings.HasSuffix(k, "_BEGIN") || strings.HasSuffix(k, "_END") || k == "N_ILLEGAL" {
				continue
			}
			r, ov := estreeKind(p, fn, k, ks[k])
			if ov {
				problems = append(problems, "too many traces for "+k)
			}
			out[en][k] = r
		}
	}
	return out, problems
}

var _ = (*ssa.Function)(nil)

func isPosField(obj, tag string) bool {
	n := tag
	if i := strings.IndexByte(n, ','); i >= 0 {
		n = n[:i]
	}
	return n == "start" || n == "end" || n == "loc" || strings.HasSuffix(obj, "/SrcLoc") || strings.HasSuffix(obj, "/Position")
}

func checkEstree(c *Ctx, positions bool) {
	var spec estreeSpec
	if !readSpec("estree.json", &spec) {
		fmt.Fprintln(os.Stderr, "spec/estree.json unreadable")
		os.Exit(2)
	}
	cur, problems := estreeAll(c.P)
	for _, pr := range problems {
		c.bad("undecided|"+pr, "ecma/estree", "conversion cannot be analysed: %s", pr)
	}
	rn := renames(spec.Structs, structFields(c.P, "ecma/parser"))
	for n, o := range rn {
		c.note("field %s treated as renamed from %s", n, o)
	}
	for _, en := range sortedKeys(spec.Entries) {
		for _, k := range sortedKeys(spec.Entries[en]) {
			sk := spec.Entries[en][k]
			ck := cur[en][k]
			if ck == nil {
				if !positions {
					c.bad("kind|"+en+"|"+k, "ecma/estree", "node kind %s is no longer known to the converter", k)
				}
				continue
			}
			c.count("kinds", 1)
			compareKind(c, en, k, sk, ck, rn, positions)
		}
		for _, k := range sortedKeys(cur[en]) {
			if spec.Entries[en][k] == nil && len(cur[en][k].Objs) == 0 && !positions && en == "Convert" {
				c.bad("newkind|"+k, "ecma/estree", "node kind %s has no conversion", k)
			}
		}
	}
	c.floor("kinds", 250)
}

func compareKind(c *Ctx, en, k string, sk, ck *esKind, rn map[string]string, positions bool) {
	id := en + "|" + k
	at := "ecma/estree " + en + " case " + k
	if !positions {
		if ck.Panic && !sk.Panic {
			c.bad("panic|"+id, at, "conversion of %s can panic explicitly", k)
		}
		c.count("result-kinds", 1)
		sset, cset := toSet(sk.Ret.May), toSet(applyRenames(rn, ck.Ret.May))
		for _, x := range setList(sset) {
			if !cset[x] && relevantRet(x) {
				c.bad("ret|"+id+"|"+x, at, "conversion of %s no longer produces %s", k, x)
			}
		}
		for _, x := range setList(cset) {
			if !sset[x] && relevantRet(x) {
				c.bad("ret+|"+id+"|"+x, at, "conversion of %s produces unexpected %s", k, x)
			}
		}
	}
	for _, on := range sortedKeys(sk.Objs) {
		so, co := sk.Objs[on], ck.Objs[on]
		if co == nil {
			if !positions {
				c.bad("obj|"+id+"|"+on, at, "conversion of %s no longer builds %s", k, on)
			}
			continue
		}
		if !positions {
			c.count("objects", 1)
			have := toSet(applyRenames(rn, co.Lits))
			for _, l := range so.Lits {
				if !have[l] {
					c.bad("when|"+id+"|"+on, at, "%s is built for %s without the decision [%s]", on, k, l)
				}
			}
		}
		for _, f := range sortedKeys(so.Fields) {
			if isPosField(on, f) != positions {
				continue
			}
			sf, cf := so.Fields[f], co.Fields[f]
			fid := id + "|" + on + "." + f
			if cf == nil {
				c.bad("field|"+fid, at, "output field %s.%s vanished", on, f)
				continue
			}
			c.count("fields", 1)
			compareField(c, fid, at, on+"."+f, sf, cf, rn)
		}
		for _, f := range sortedKeys(co.Fields) {
			if so.Fields[f] == nil && !positions {
				c.note("new output field %s.%s not in the reviewed table", on, f)
			}
		}
	}
}

func relevantRet(x string) bool { return !strings.HasPrefix(x, "=") && !strings.HasPrefix(x, "op:") }

func compareField(c *Ctx, fid, at, name string, sf, cf *esField, rn map[string]string) {
	if sf.Tbl != nil && cf.Tbl != nil {
		for _, k := range sortedKeys(sf.Tbl) {
			ct, ok := cf.Tbl[k]
			if !ok {
				c.bad("const|"+fid+"|"+k, at, "%s can no longer be %s", name, k)
				continue
			}
			have := toSet(applyRenames(rn, ct))
			for _, d := range sf.Tbl[k] {
				if !have[d] {
					c.bad("const|"+fid+"|"+k, at, "%s becomes %s without the decision [%s]", name, k, d)
				}
			}
		}
		for _, k := range sortedKeys(cf.Tbl) {
			if _, ok := sf.Tbl[k]; !ok {
				c.bad("const+|"+fid+"|"+k, at, "%s can be %s, which its source never means", name, k)
			}
		}
		return
	}
	if sf.Tbl != nil && cf.Tbl == nil {
		c.bad("feed|"+fid, at, "%s must be one of the constants %v but is computed from %v", name, sortedKeys(sf.Tbl), cf.May)
		return
	}
	if cf.Tbl != nil {
		if len(sf.May) > 0 {
			c.bad("feed|"+fid, at, "%s is a constant %v but must be fed from %v", name, sortedKeys(cf.Tbl), sf.May)
		}
		return
	}
	req, may := toSet(applyRenames(rn, cf.Req)), toSet(applyRenames(rn, cf.May))
	for _, r := range sf.Req {
		if !req[r] && dataLeaf(r) {
			if may[r] {
				c.bad("feed|"+fid+"|"+r, at, "%s is not fed from %s on every trace where it is present", name, r)
			} else {
				c.bad("feed|"+fid+"|"+r, at, "%s is not fed from %s", name, r)
			}
		}
	}
	smay := toSet(sf.May)
	for _, m := range setList(may) {
		if !smay[m] && dataLeaf(m) {
			c.bad("feed+|"+fid+"|"+m, at, "%s may be fed from %s", name, m)
		}
	}
	for _, m := range sf.May {
		if !may[m] && dataLeaf(m) {
			c.bad("feed|"+fid+"|"+m, at, "%s can no longer be fed from %s", name, m)
		}
	}
	// negation must not be dropped or added
	if smay["op:not"] != may["op:not"] || smay["op:==nil"] != may["op:==nil"] || smay["op:!=nil"] != may["op:!=nil"] {
		c.bad("polarity|"+fid, at, "%s has its sense inverted (operators %v, expected %v)", name, ops(cf.May), ops(sf.May))
	}
}

func ops(xs []string) []string {
	var o []string
	for _, x := range xs {
		if strings.HasPrefix(x, "op:") {
			o = append(o, x)
		}
	}
	return o
}

// dataLeaf: leaves that identify a source (not constants or operators, which refactorings may change).
func dataLeaf(x string) bool {
	return !strings.HasPrefix(x, "=") && !strings.HasPrefix(x, "op:") && !strings.HasPrefix(x, "p:")
}

func init() {
	register("E01", func(c *Ctx) {
		c.rule("for each node kind, the converter's result objects, the decisions selecting them and the source of every JSON field equal the reviewed ESTree mapping (spec/estree.json)")
		checkEstree(c, false)
	})
	register("E02", func(c *Ctx) {
		c.rule("start/end/loc of every produced object derive from the reviewed node's own range (spec/estree.json)")
		checkEstree(c, true)
	})
	debugCmds["mine-estree"] = func(args []string) {
		p, err := load(false, "./ecma/...", "./span", "./util")
		if err != nil {
			panic(err)
		}
		m, pr := estreeAll(p)
		fmt.Println(pr)
		writeSpec("estree.json", estreeSpec{Structs: structFields(p, "ecma/parser"), Entries: m})
	}
}
