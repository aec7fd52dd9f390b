package main

import (
	"sort"
	"strings"
)

// leafer turns provenance terms into leaf sets: which inputs feed a value on every trace (must,
// up to absence of an optional input) and on some trace (may).
type leafer struct {
	root   *Term
	st     *pstate
	isObj  func(alloc string) bool // allocations reported as separate objects
	objs   []leafObj
	ignore func(t *Term) bool
	stack  map[*Term]bool
}

type leafObj struct {
	t    *Term
	path string
}

type lset struct{ must, may map[string]bool }

func newLset() lset { return lset{map[string]bool{}, map[string]bool{}} }
func (s lset) add(x string) {
	s.must[x] = true
	s.may[x] = true
}
func (s lset) merge(o lset) {
	for k := range o.must {
		s.must[k] = true
	}
	for k := range o.may {
		s.may[k] = true
	}
}

func (l *leafer) of(t *Term, sfx, objPath string) lset {
	out := newLset()
	if t == nil {
		return out
	}
	if l.stack == nil {
		l.stack = map[*Term]bool{}
	}
	if l.stack[t] {
		return out
	}
	l.stack[t] = true
	defer delete(l.stack, t)
	if l.ignore != nil && l.ignore(t) {
		return out
	}
	switch t.Op {
	case "absent", "void", "none", "guard", "builtinfn":
	case "param":
		if t == l.root {
			out.add("node" + sfx)
		} else {
			out.add("p:" + t.Str + sfx)
		}
	case "const":
		out.add("=" + t.Str)
	case "field":
		if p, ok := l.path(t); ok {
			out.add(p + sfx)
			return out
		}
		f := t.Str
		if f == "Range.Lo" || f == "Range.Hi" || f == "Pos.Line" || f == "Pos.Col" {
			f = f[strings.IndexByte(f, '.')+1:]
		}
		return l.of(t.Args[0], "."+f+sfx, objPath)
	case "elem":
		tag := idxTag(t.Args[0], t.Args[1])
		// element of a locally built list: the stored values
		if r := rootAlloc(t.Args[0]); r != nil || t.Args[0].Op == "append" {
			return l.of(t.Args[0], sfx, objPath)
		}
		if tag == "[?]" {
			out.merge(l.of(t.Args[0], "[?]"+sfx, objPath))
			out.merge(l.of(t.Args[1], "", objPath))
			return out
		}
		return l.of(t.Args[0], tag+sfx, objPath)
	case "len":
		return l.of(t.Args[0], "#len"+sfx, objPath)
	case "make", "alloc":
		name := t.Str
		if i := strings.IndexByte(name, '@'); i >= 0 {
			name = name[:i]
		}
		if t.Op == "alloc" && l.isObj != nil && l.isObj(name) {
			out.add("new:" + name[strings.IndexByte(name, '.')+1:] + sfx)
			l.objs = append(l.objs, leafObj{t, objPath})
			return out
		}
		if v, ok := l.st.mem[t]; ok {
			out.merge(l.of(v, sfx, objPath))
		}
		for _, k := range l.memUnder(t) {
			out.merge(l.of(l.st.mem[k], sfx, objPath))
		}
		if t.Op == "make" && len(t.Args) > 0 {
			out.merge(l.of(t.Args[0], sfx, objPath))
		}
	case "call":
		n := t.Str
		if i := strings.LastIndexByte(n, '.'); i >= 0 {
			n = n[i+1:]
		}
		out.add("via:" + n)
		for _, a := range t.Args {
			if a != nil && a.Op == "param" && a != l.root {
				continue
			}
			if a.isConst() {
				continue
			}
			out.merge(l.of(a, sfx, objPath))
		}
	case "extract":
		x := l.of(t.Args[0], sfx, objPath)
		if t.Args[0].Op == "call" {
			fix := func(m map[string]bool) {
				for k := range m {
					if strings.HasPrefix(k, "via:") && !strings.Contains(k, "#") {
						delete(m, k)
						m[k+"#"+t.Str] = true
					}
				}
			}
			fix(x.must)
			fix(x.may)
		}
		return x
	case "invoke":
		if len(t.Args) == 1 {
			return l.of(t.Args[0], "@"+t.Str+sfx, objPath)
		}
		out.add("via:" + t.Str)
		for _, a := range t.Args {
			out.merge(l.of(a, sfx, objPath))
		}
	case "idx":
	case "join":
		type alt struct {
			s    lset
			lits []Lit
		}
		var alts []alt
		cand := map[string]bool{}
		for _, a := range t.Args {
			s := l.of(a.Args[1], sfx, objPath)
			alts = append(alts, alt{s, joinLits[a.Args[0].key]})
			for k := range s.must {
				cand[k] = true
			}
			for k := range s.may {
				out.may[k] = true
			}
		}
		for c := range cand {
			ok := true
			for _, a := range alts {
				if !a.s.must[c] && !l.excused(c, a.lits) {
					ok = false
					break
				}
			}
			if ok {
				out.must[c] = true
			}
		}
	case "bin", "un", "not", "is":
		if t.Op == "bin" && (t.Str == "==" || t.Str == "!=") && t.Args[1].isNil() {
			out.add("op:" + t.Str + "nil")
			out.merge(l.of(t.Args[0], sfx, objPath))
			return out
		}
		op := t.Op + t.Str
		if t.Op == "bin" {
			op = t.Str
		}
		out.add("op:" + op)
		for _, a := range t.Args {
			out.merge(l.of(a, sfx, objPath))
		}
	default:
		for _, a := range t.Args {
			out.merge(l.of(a, sfx, objPath))
		}
		if len(t.Args) == 0 {
			out.add(t.Op + ":" + t.Str)
		}
	}
	return out
}

// path renders a chain of fields from the root.
func (l *leafer) path(t *Term) (string, bool) {
	s := ""
	for t.Op == "field" {
		s = t.Str + s
		if t.Args[0].Op == "field" {
			s = ">" + s
		}
		t = t.Args[0]
	}
	return s, t == l.root
}

func idxTag(x, i *Term) string {
	switch i.Op {
	case "const":
		return "[" + i.Str + "]"
	case "idx":
		start, bound, _ := strings.Cut(i.Str, "|")
		if start == "const:0" && bound == mkLen(x).key {
			return "[*]"
		}
		return "[partial]"
	}
	if i.Op == "bin" && i.Str == "-" && i.Args[0] == mkLen(x) {
		return "[last]"
	}
	return "[?]"
}

func (l *leafer) memUnder(t *Term) []*Term {
	var ks []*Term
	for k := range l.st.mem {
		if k != t && k.Op != "live" && under(k, t) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].key < ks[j].key })
	return ks
}

// excused: on a trace with these decisions the optional input named by leaf is absent.
func (l *leafer) excused(leaf string, lits []Lit) bool {
	if strings.HasPrefix(leaf, "via:") || strings.HasPrefix(leaf, "=") || strings.HasPrefix(leaf, "new:") || strings.HasPrefix(leaf, "op:") {
		// follows the data leaves
		for _, li := range lits {
			if _, ok := l.absence(li, lits); ok {
				return true
			}
		}
		return false
	}
	for _, li := range lits {
		if p, ok := l.absence(li, lits); ok {
			for _, x := range p {
				if leaf == x || strings.HasPrefix(leaf, x) {
					return true
				}
			}
		}
	}
	return false
}

// absence: does the decision say that some input value is missing / a list empty?
func (l *leafer) absence(li Lit, all []Lit) ([]string, bool) {
	var x *Term
	t := li.T
	switch {
	case t.Op == "bin" && t.Str == "==" && t.Args[1].isNil() && li.Pos:
		x = t.Args[0]
	case t.Op == "bin" && t.Str == "==" && t.Args[0].Op == "len" && t.Args[1].Str == "0" && li.Pos:
		x = t.Args[0].Args[0]
	case t.Op == "call" && strings.HasSuffix(t.Str, "IsNilPtr") && li.Pos:
		x = t.Args[0]
	case t.Op == "is" && !li.Pos:
		x = t.Args[0]
	case t.Op == "bin" && t.Str == "<" && t.Args[0].Op == "idx" && t.Args[1].Op == "len" && !li.Pos:
		// zero iterations only
		for _, o := range all {
			if o.T == t && o.Pos {
				return nil, false
			}
		}
		x = t.Args[1].Args[0]
	case t.Op == "call" && strings.HasSuffix(t.Str, ".Empty") && li.Pos:
		x = t.Args[0]
	default:
		return nil, false
	}
	sub := &leafer{root: l.root, st: l.st, isObj: l.isObj, ignore: l.ignore}
	return setList(sub.of(x, "", "").may), true
}

func setList(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}
