package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func estreeInterp(p *Prog, kind string, kval int64, root *Term) *Interp {
	kc := mk("const", fmt.Sprint(kval))
	ip := &Interp{P: p, MaxPaths: 60000, JoinCalls: true}
	isKind := func(t *Term) bool {
		return t.Op == "invoke" && t.Str == "Type" && t.Args[0] == root
	}
	ip.OnCall = func(fr *frame, st *pstate, cc *ssa.CallCommon, callee *ssa.Function, args []*Term, pos token.Pos) (*Term, bool, bool) {
		if callee == nil {
			return nil, false, false
		}
		rel := fnRel(callee)
		rn := recvNamed(callee)
		switch rel {
		case "ecma/parser":
			if rn != nil && (callee.Name() == "Range" || callee.Name() == "Type") {
				return mk("invoke", callee.Name(), args[0]), true, false
			}
			if rn == nil {
				return nil, false, false
			}
			switch rn.Obj().Name() {
			case "Parser", "Lexer", "SymTab", "Scope":
				return nil, false, false
			}
			return nil, false, true
		case "ecma/estree":
			if (callee.Name() == "ConvertTsTyp" || callee.Name() == "Convert") && len(args) > 0 && args[0] != root {
				return nil, false, false
			}
			return nil, false, true
		}
		return nil, false, false
	}
	ip.Decide = func(fr *frame, st *pstate, c *Term) (bool, bool) {
		if c.Op == "bin" && c.Str == "==" {
			if isKind(c.Args[0]) && c.Args[1].isConst() {
				return c.Args[1] == kc, true
			}
			if c.Args[0] == root && c.Args[1].isNil() {
				return false, true
			}
			// ctx, parser and scope pointers are never nil
			if c.Args[1].isNil() && c.Args[0].Op == "param" {
				return false, true
			}
		}
		if c.Op == "bin" && c.Str == "<" && isKind(c.Args[0]) {
			return mkBin("<", kc, c.Args[1]) == tTrue, c.Args[1].isConst()
		}
		if c.Op == "bin" && c.Str == "<" && isKind(c.Args[1]) {
			return mkBin("<", c.Args[0], kc) == tTrue, c.Args[0].isConst()
		}
		// positions are reported with line and column
		if c.Op == "field" && c.Str == "ConvertCtx.LineCol" {
			return true, true
		}
		return false, false
	}
	return ip
}

func esStruct(p *Prog, name string) *types.Struct {
	n := p.namedType("ecma/estree", strings.TrimPrefix(name, "estree."))
	if n == nil {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return s
}

// esField is the provenance of one output field over all traces producing the object.
type esField struct {
	Tbl map[string][]string `json:"table,omitempty"` // constant -> decisions that select it
	Req []string            `json:"req,omitempty"`   // inputs that feed it on every trace (unless absent)
	May []string            `json:"may,omitempty"`   // inputs that may feed it
}
type esObj struct {
	Fields map[string]*esField `json:"fields"`
	Lits   []string            `json:"when,omitempty"` // decisions common to every trace producing it
	n      int
}
type esKind struct {
	Objs  map[string]*esObj `json:"objs"` // "Type" for the root object, "Type.Field/Nested" for nested ones
	Ret   *esField          `json:"ret"`
	Panic bool              `json:"panic,omitempty"`
}

// keepLeaf drops leaves that carry no meaning for the mapping (list lengths, nil, loop plumbing).
func keepLeaf(x string, ft types.Type) bool {
	if x == "=nil" || strings.HasPrefix(x, "=zero:") || strings.Contains(x, "#len") || x == "op:+" || x == "op:-" {
		return false
	}
	if strings.HasPrefix(x, "=") {
		if ft == nil {
			return false
		}
		b, ok := ft.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		if b.Info()&types.IsString != 0 && strings.HasPrefix(x, "=\"") {
			return true
		}
		if b.Info()&types.IsBoolean != 0 {
			return true
		}
		return b.Info()&types.IsNumeric != 0 && !strings.HasPrefix(x, "=\"")
	}
	return true
}

func litDesc(l *leafer, li Lit) string {
	t := li.T
	if t.Op == "bin" && t.Str == "<" && (t.Args[0].Op == "idx" || t.Args[1].Op == "idx") {
		return "" // loop control
	}
	sub := &leafer{root: l.root, st: l.st, isObj: l.isObj, ignore: l.ignore}
	ls := setList(sub.of(t, "", "").may)
	s := strings.Join(ls, " ")
	if !strings.Contains(s, ".") && !strings.Contains(s, "node") {
		return ""
	}
	if li.Pos {
		return s
	}
	return "NOT " + s
}

func estreeKind(p *Prog, fn *ssa.Function, kind string, kval int64) (*esKind, bool) {
	root := mk("param", "node")
	ip := estreeInterp(p, kind, kval, root)
	outs := ip.Run(fn, []*Term{root, mk("param", "ctx")})
	res := &esKind{Objs: map[string]*esObj{}}
	type frec struct {
		l    *leafer
		s    lset
		lits []Lit
		v    *Term
		ft   types.Type
	}
	recs := map[string]map[string][]frec{} // obj -> field -> traces
	var retRecs []frec
	litSets := map[string]map[string]int{}
	nObj := map[string]int{}
	for _, o := range outs {
		if o.panic || len(o.rets) != 1 {
			res.Panic = true
			continue
		}
		l := &leafer{root: root, st: o.st}
		l.isObj = func(a string) bool { return strings.HasPrefix(a, "estree.") }
		l.ignore = func(t *Term) bool {
			return t.Op == "call" && (strings.HasSuffix(t.Str, "Parser).Source"))
		}
		rs := l.of(o.rets[0], "", "")
		retRecs = append(retRecs, frec{l, rs, o.st.lits, o.rets[0], nil})
		done := map[*Term]bool{}
		lits := map[string]bool{}
		for _, li := range o.st.lits {
			if d := litDesc(l, li); d != "" {
				lits[d] = true
			}
		}
		for i := 0; i < len(l.objs); i++ {
			a := l.objs[i].t
			if done[a] {
				continue
			}
			done[a] = true
			tn := a.Str[:strings.IndexByte(a.Str, '@')]
			s := esStruct(p, tn)
			if s == nil {
				continue
			}
			short := strings.TrimPrefix(tn, "estree.")
			op := short
			if l.objs[i].path != "" {
				op = l.objs[i].path + "/" + short
			}
			nObj[op]++
			if litSets[op] == nil {
				litSets[op] = map[string]int{}
			}
			for d := range lits {
				litSets[op][d]++
			}
			if recs[op] == nil {
				recs[op] = map[string][]frec{}
			}
			whole := o.st.mem[a]
			for j := 0; j < s.NumFields(); j++ {
				f := short + "." + s.Field(j).Name()
				fa := mk("faddr", f, a)
				v, ok := o.st.mem[fa]
				if !ok {
					if whole != nil {
						v = fieldOf(whole, f)
					} else if upd := ip.fieldUpdates(o.st, fa, s.Field(j).Type()); upd != nil {
						v = mk("struct", "", append([]*Term{zeroOf(s.Field(j).Type())}, upd...)...)
					} else {
						v = zeroOf(s.Field(j).Type())
					}
				}
				fp := op + "." + jsonName(s, j)
				if strings.Count(fp, "/") > 3 {
					continue
				}
				fname := jsonTag(s, j)
				fl := l.of(v, "", fp)
				for k := range fl.may {
					if !keepLeaf(k, s.Field(j).Type()) {
						delete(fl.may, k)
						delete(fl.must, k)
					}
				}
				recs[op][fname] = append(recs[op][fname], frec{l, fl, o.st.lits, v, s.Field(j).Type()})
			}
		}
	}
	fold := func(rs []frec) *esField {
		if rs[0].ft != nil {
			if _, basic := rs[0].ft.Underlying().(*types.Basic); basic {
				if tbl := constTable(len(rs), func(i int) (*leafer, *Term, []Lit) { return rs[i].l, rs[i].v, rs[i].lits }); tbl != nil {
					return &esField{Tbl: tbl}
				}
			}
		}
		cand, may := map[string]bool{}, map[string]bool{}
		for _, r := range rs {
			for k := range r.s.must {
				cand[k] = true
			}
			for k := range r.s.may {
				may[k] = true
			}
		}
		req := map[string]bool{}
		for c := range cand {
			ok := true
			for _, r := range rs {
				if !r.s.must[c] && !r.l.excused(c, r.lits) {
					ok = false
					break
				}
			}
			if ok {
				req[c] = true
			}
		}
		return &esField{Req: setList(req), May: setList(may)}
	}
	for op, fs := range recs {
		ob := &esObj{Fields: map[string]*esField{}}
		for f, rs := range fs {
			ob.Fields[f] = fold(rs)
		}
		for d, n := range litSets[op] {
			if n == nObj[op] {
				ob.Lits = append(ob.Lits, d)
			}
		}
		sort.Strings(ob.Lits)
		res.Objs[op] = ob
	}
	res.Ret = fold(retRecs)
	return res, ip.Overflow
}

func init() {
	debugCmds["estree"] = func(args []string) {
		p, err := load(false, "./ecma/...", "./span", "./util")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fn := p.fn("ecma/estree", "Convert")
		ks := p.kinds()
		for _, k := range sortedKeys(ks) {
			if len(args) > 0 && args[0] != k {
				continue
			}
			r, ov := estreeKind(p, fn, k, ks[k])
			fmt.Printf("== %s overflow=%v panic=%v ret=%s\n", k, ov, r.Panic, strings.Join(r.Ret.May, " "))
			for _, on := range sortedKeys(r.Objs) {
				if strings.HasSuffix(on, "/SrcLoc") && len(args) == 0 {
					continue
				}
				o := r.Objs[on]
				fmt.Printf("  %s   when %s\n", on, strings.Join(o.Lits, " && "))
				for _, f := range sortedKeys(o.Fields) {
					x := o.Fields[f]
					if len(args) == 0 && (f == "Loc") {
						continue
					}
					rq := map[string]bool{}
					for _, q := range x.Req {
						rq[q] = true
					}
					var sb []string
					for _, m := range x.May {
						if rq[m] {
							sb = append(sb, m)
						} else {
							sb = append(sb, m+"?")
						}
					}
					for _, c := range sortedKeys(x.Tbl) {
						sb = append(sb, c+" IF{"+strings.Join(x.Tbl[c], "; ")+"}")
					}
					fmt.Printf("      %-16s %s\n", f, strings.Join(sb, " "))
				}
			}
		}
	}
}

func jsonTag(s *types.Struct, i int) string {
	t := reflect.StructTag(s.Tag(i)).Get("json")
	if t == "" {
		return s.Field(i).Name()
	}
	return t
}
func jsonName(s *types.Struct, i int) string {
	t := jsonTag(s, i)
	if k := strings.IndexByte(t, ','); k >= 0 {
		t = t[:k]
	}
	return t
}

// variants flattens joins into (decisions, value) pairs.
func variants(t *Term, lits []Lit, out func(*Term, []Lit), depth int) {
	if t.Op == "join" && depth < 6 {
		for _, a := range t.Args {
			variants(a.Args[1], append(append([]Lit(nil), lits...), joinLits[a.Args[0].key]...), out, depth+1)
		}
		return
	}
	out(t, lits)
}

// constTable describes a field that only ever takes constants: which decisions select each constant.
func constTable(n int, at func(int) (*leafer, *Term, []Lit)) map[string][]string {
	tbl := map[string]map[string]int{}
	cnt := map[string]int{}
	ok := true
	for i := 0; i < n; i++ {
		l, v, lits := at(i)
		variants(v, lits, func(t *Term, ls []Lit) {
			if !t.isConst() {
				ok = false
				return
			}
			pos := map[string]bool{} // tested values decided positively
			set := map[string]bool{}
			for _, li := range ls {
				if li.Pos && li.T.Op == "bin" && li.T.Str == "==" && li.T.Args[1].isConst() {
					pos[li.T.Args[0].key] = true
				}
			}
			for _, li := range ls {
				if !li.Pos && li.T.Op == "bin" && li.T.Str == "==" && li.T.Args[1].isConst() && !li.T.Args[1].isNil() {
					continue // "not this case" carries no more than the case taken
				}
				if d := litDesc(l, li); d != "" {
					set[d] = true
				}
			}
			if tbl[t.Str] == nil {
				tbl[t.Str] = map[string]int{}
			}
			cnt[t.Str]++
			for d := range set {
				tbl[t.Str][d]++
			}
		}, 0)
	}
	if !ok {
		return nil
	}
	out := map[string][]string{}
	for c, ds := range tbl {
		out[c] = []string{}
		for d, k := range ds {
			if k == cnt[c] {
				out[c] = append(out[c], d)
			}
		}
		sort.Strings(out[c])
	}
	return out
}
