package main

import (
	"crypto/sha1"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// A small ROBDD package. Variables are condition texts, ordered lexicographically, so equal
// conditions have equal diagrams however they are spelled in the source.
type bdd struct {
	nodes []bnode
	uniq  map[bnode]int
	vars  []string
	vid   map[string]int
	iteM  map[[3]int]int
	simp  map[int]int
}

type bnode struct {
	v      string
	lo, hi int
}

func newBdd() *bdd {
	return &bdd{nodes: []bnode{{}, {}}, uniq: map[bnode]int{}, iteM: map[[3]int]int{}, simp: map[int]int{}}
}

// A condition this large is left undecided rather than pursued.
const (
	maxNodes = 48 << 20
	tooBig   = "condition too large"
)

const (
	bF = 0
	bT = 1
)

func (b *bdd) mk(v string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	n := bnode{v, lo, hi}
	if i, ok := b.uniq[n]; ok {
		return i
	}
	if len(b.nodes) > maxNodes {
		panic(tooBig)
	}
	b.nodes = append(b.nodes, n)
	b.uniq[n] = len(b.nodes) - 1
	return len(b.nodes) - 1
}

func (b *bdd) v(s string) int { return b.mk(s, bF, bT) }

func (b *bdd) ite(f, g, h int) int {
	switch {
	case f == bT:
		return g
	case f == bF:
		return h
	case g == h:
		return g
	case g == bT && h == bF:
		return f
	}
	k := [3]int{f, g, h}
	if r, ok := b.iteM[k]; ok {
		return r
	}
	top := b.nodes[f].v
	for _, x := range []int{g, h} {
		if x > 1 && b.nodes[x].v < top {
			top = b.nodes[x].v
		}
	}
	co := func(x int, hi bool) int {
		if x > 1 && b.nodes[x].v == top {
			if hi {
				return b.nodes[x].hi
			}
			return b.nodes[x].lo
		}
		return x
	}
	r := b.mk(top, b.ite(co(f, false), co(g, false), co(h, false)), b.ite(co(f, true), co(g, true), co(h, true)))
	b.iteM[k] = r
	return r
}

func (b *bdd) and(x, y int) int { return b.ite(x, y, bF) }
func (b *bdd) or(x, y int) int  { return b.ite(x, bT, y) }
func (b *bdd) not(x int) int    { return b.ite(x, bF, bT) }

func (b *bdd) support(f int) []string {
	m := map[string]bool{}
	seen := map[int]bool{}
	var rec func(int)
	rec = func(x int) {
		if x < 2 || seen[x] {
			return
		}
		seen[x] = true
		m[b.nodes[x].v] = true
		rec(b.nodes[x].lo)
		rec(b.nodes[x].hi)
	}
	rec(f)
	return setList(m)
}

func (b *bdd) restrict(f int, v string, val bool) int {
	memo := map[int]int{}
	var rec func(int) int
	rec = func(x int) int {
		if x < 2 || b.nodes[x].v > v {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := b.nodes[x]
		var r int
		if n.v == v {
			if val {
				r = n.hi
			} else {
				r = n.lo
			}
		} else {
			r = b.mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[x] = r
		return r
	}
	return rec(f)
}

func (b *bdd) exists(f int, v string) int {
	return b.or(b.restrict(f, v, false), b.restrict(f, v, true))
}

func eqLhs(v string) (string, bool) {
	i := strings.LastIndex(v, "==")
	if i <= 0 {
		return "", false
	}
	return v[:i], true
}

// simplify removes tests that mutual exclusion of x==c1, x==c2 makes redundant.
// amo: at most one of the (sorted) variables holds.
func (b *bdd) amo(vs []string) int {
	none, amo := bT, bT
	for i := len(vs) - 1; i >= 0; i-- {
		amo = b.mk(vs[i], amo, none)
		none = b.mk(vs[i], none, bF)
	}
	return amo
}

func (b *bdd) simplify(f int) int {
	if r, ok := b.simp[f]; ok {
		return r
	}
	r := b.simplify1(f)
	b.simp[f] = r
	return r
}

func (b *bdd) simplify1(f int) int {
	sup := b.support(f)
	groups := map[string][]string{}
	for _, v := range sup {
		if l, ok := eqLhs(v); ok {
			groups[l] = append(groups[l], v)
		}
	}
	for _, g := range sortedKeys(groups) {
		vs := groups[g]
		if len(vs) < 2 {
			continue
		}
		// at most one of vs holds: f is decided by its value with none and with each alone
		none := b.only(f, vs, "")
		var left []string
		var val []int
		for _, v := range vs {
			if o := b.only(f, vs, v); o != none {
				left, val = append(left, v), append(val, o)
			}
		}
		// from the last variable up: rest = no earlier one held
		rest, off := none, bT // off: no later one holds
		for i := len(left) - 1; i >= 0; i-- {
			rest = b.ite(b.v(left[i]), b.and(val[i], off), rest)
			off = b.and(b.not(b.v(left[i])), off)
		}
		f = rest
	}
	return f
}

// only: f where of vs just the given one (or none) holds.
func (b *bdd) only(f int, vs []string, one string) int {
	in := toSet(vs)
	last := vs[len(vs)-1]
	memo := map[int]int{}
	var rec func(int) int
	rec = func(x int) int {
		if x < 2 || b.nodes[x].v > last {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		n := b.nodes[x]
		var r int
		switch {
		case n.v == one:
			r = rec(n.hi)
		case in[n.v]:
			r = rec(n.lo)
		default:
			r = b.mk(n.v, rec(n.lo), rec(n.hi))
		}
		memo[x] = r
		return r
	}
	return rec(f)
}

// cubes lists the paths to true, canonical for a given function (at most max).
func (b *bdd) cubes(f, max int) []string {
	var out []string
	var rec func(x int, pre []string)
	rec = func(x int, pre []string) {
		if len(out) > max || x == bF {
			return
		}
		if x == bT {
			out = append(out, strings.Join(pre, " & "))
			return
		}
		n := b.nodes[x]
		rec(n.hi, append(append([]string{}, pre...), n.v))
		rec(n.lo, append(append([]string{}, pre...), "!"+n.v))
	}
	rec(f, nil)
	sort.Strings(out)
	return out
}

// sig is a canonical digest of the function's structure.
func (b *bdd) sig(f int) string {
	memo := map[int]string{bF: "0", bT: "1"}
	var rec func(int) string
	rec = func(x int) string {
		if s, ok := memo[x]; ok {
			return s
		}
		n := b.nodes[x]
		h := sha1.Sum([]byte(n.v + "?" + rec(n.hi) + ":" + rec(n.lo)))
		s := fmt.Sprintf("%x", h[:8])
		memo[x] = s
		return s
	}
	return rec(f)
}

// theory: what arithmetic says about conditions on the same operand.
func (b *bdd) theory(vars []string) int {
	vars = setList(toSet(vars))
	type atom struct {
		v  string
		op byte // = < (x<k) > (k<x)
		k  int
	}
	groups := map[string][]string{}
	nums := map[string][]atom{}
	for _, v := range vars {
		if l, ok := eqLhs(v); ok {
			groups[l] = append(groups[l], v)
			if k, err := strconv.Atoi(v[len(l)+2:]); err == nil {
				nums[l] = append(nums[l], atom{v, '=', k})
			}
			continue
		}
		if i := strings.Index(v, "<"); i > 0 && !strings.Contains(v[:i], "(") {
			if k, err := strconv.Atoi(v[:i]); err == nil {
				nums[v[i+1:]] = append(nums[v[i+1:]], atom{v, '>', k})
				continue
			}
		}
		if i := strings.LastIndex(v, "<"); i > 0 {
			if k, err := strconv.Atoi(v[i+1:]); err == nil {
				nums[v[:i]] = append(nums[v[:i]], atom{v, '<', k})
			}
		}
	}
	c := bT
	for _, g := range sortedKeys(groups) {
		vs := groups[g]
		c = b.and(c, b.amo(vs))
	}
	for _, x := range sortedKeys(nums) {
		as := nums[x]
		hold := func(a atom, n int) bool {
			switch a.op {
			case '=':
				return n == a.k
			case '<':
				return n < a.k
			}
			return a.k < n
		}
		for i := range as {
			for j := i + 1; j < len(as); j++ {
				var poss [4]bool
				for _, base := range []int{as[i].k, as[j].k} {
					for dl := -1; dl <= 1; dl++ {
						n := base + dl
						if n < 0 && strings.HasPrefix(x, "len(") {
							continue
						}
						ix := 0
						if hold(as[i], n) {
							ix |= 1
						}
						if hold(as[j], n) {
							ix |= 2
						}
						poss[ix] = true
					}
				}
				for ix, p := range poss {
					if p {
						continue
					}
					l, r := b.v(as[i].v), b.v(as[j].v)
					if ix&1 == 0 {
						l = b.not(l)
					}
					if ix&2 == 0 {
						r = b.not(r)
					}
					c = b.and(c, b.not(b.and(l, r)))
				}
			}
		}
	}
	return c
}
