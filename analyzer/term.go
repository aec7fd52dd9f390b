package main

import (
	"fmt"
	"strings"
)

// Term is an interned provenance term: where a value comes from.
type Term struct {
	Op   string
	Str  string
	Args []*Term
	key  string
}

var termTab = map[string]*Term{}

func mk(op, str string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	if str != "" {
		b.WriteByte(':')
		b.WriteString(str)
	}
	if len(args) > 0 {
		b.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				b.WriteByte(',')
			}
			if a == nil {
				b.WriteByte('_')
			} else {
				b.WriteString(a.key)
			}
		}
		b.WriteByte(')')
	}
	k := b.String()
	if len(k) > 4000 { // deep terms are collapsed; identity is kept by the intern table
		k = k[:200] + fmt.Sprintf("#%d", hashStr(k))
	}
	if t, ok := termTab[k]; ok {
		return t
	}
	t := &Term{Op: op, Str: str, Args: args, key: k}
	termTab[k] = t
	return t
}

func hashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (t *Term) String() string {
	if t == nil {
		return "_"
	}
	return t.key
}

func (t *Term) isConst() bool { return t != nil && t.Op == "const" }
func (t *Term) isNil() bool   { return t != nil && t.Op == "const" && t.Str == "nil" }

var (
	tTrue  = mk("const", "true")
	tFalse = mk("const", "false")
	tNil   = mk("const", "nil")
)

// Lit is a branch decision taken on a path.
type Lit struct {
	T   *Term
	Pos bool
}

func (l Lit) String() string {
	if l.Pos {
		return l.T.key
	}
	return "!" + l.T.key
}
