package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// The tables of the language, written down from the ECMAScript and TypeScript definitions and
// not from the code.

// precedence levels of binary operators, loosest first (`??` and `||` must not be mixed without
// parentheses, so their order is immaterial)
var precLevels = []string{"?? ||", "&&", "|", "^", "&", "== != === !==", "< > <= >= instanceof in as", "<< >> >>>", "+ -", "* / %", "**"}

const (
	opAssign = "= += -= *= /= %= **= <<= >>= >>>= &= |= ^= &&= ||= ??="
	opUnary  = "typeof void delete ! ~"
	reserved = "break case catch class continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with"
	strictRs = "implements interface let package private protected public static yield"
	// a slash after one of these starts a regular expression
	beforeRe = "( [ { , ; : ? => ... = += -= *= /= %= **= <<= >>= >>>= &= |= ^= &&= ||= ??= ! ~ + - * / % ** < > <= >= == != === !== << >> >>> & | ^ && || ?? typeof void delete instanceof in new return throw case do else yield of"
	// a slash after one of these divides
	beforeDv = ") ] ++ -- . ?. this super null true false identifier number string regexp"
	// one of these can be the first token of an expression
	starters = "( [ { ++ -- + - ! ~ typeof void delete new function class this super null true false identifier number string regexp yield await import"
	// none of these can
	noStart = ") ] } , ; : ? => = += -= *= %= **= >>= >>>= &= |= ^= &&= ||= ??= * % ** > <= >= == != === !== >> >>> & | ^ && || ?? instanceof in . ?. return throw case do else break catch continue debugger default extends finally for if switch try var while with export"
)

var tsKeywordTypes = map[string]string{"any": "N_TS_ANY", "bigint": "N_TS_BIGINT", "boolean": "N_TS_BOOL", "intrinsic": "N_TS_INTRINSIC",
	"never": "N_TS_NEVER", "null": "N_TS_NULL", "number": "N_TS_NUM", "object": "N_TS_OBJ", "string": "N_TS_STR", "symbol": "N_TS_SYM",
	"undefined": "N_TS_UNDEF", "unknown": "N_TS_UNKNOWN", "void": "N_TS_VOID", "this": "N_TS_THIS"}

func langTables(c *Ctx) {
	d := mineData(c.P, readData())
	const tk = "ecma/parser.TokenKinds"
	rows, ok := d.v[tk].(map[string]any)
	if !ok {
		c.bad("lang|tokens", "-", "the token table can no longer be found")
		return
	}
	at := d.at[tk]
	en, _ := d.v["enum ecma/parser.TokenValue"].(map[string]any)
	in := func(rng string) map[string]bool {
		out := map[string]bool{}
		l, _ := en[rng].([]string)
		for _, t := range l {
			out[t] = true
		}
		return out
	}
	bin, asg, un := in("T_BIN_OP_BEGIN"), in("T_ASSIGN_BEGIN"), in("T_UNARY_OP_BEGIN")
	byName := map[string][]map[string]any{}
	for _, t := range sortedKeys(rows) {
		m, ok := rows[t].(map[string]any)
		if !ok {
			c.bad("lang|row|"+t, at, "the row %s of the token table is not constant", t)
			continue
		}
		m["tok"] = t
		n := fmt.Sprint(m["Name"])
		byName[n] = append(byName[n], m)
		if m["at its index"] != true {
			c.bad("lang|index|"+t, at, "the row of %s (%q) does not stand at the index of that token", t, n)
		}
		c.count("token rows", 1)
	}
	// the row of an operator or keyword; of several with the same text the one for which pick holds
	row := func(op string, pick func(t string) bool) map[string]any {
		for _, m := range byName[op] {
			if pick == nil || pick(m["tok"].(string)) {
				return m
			}
		}
		c.bad("lang|missing|"+op, at, "no token stands for %q", op)
		return map[string]any{"tok": "?"}
	}
	first := func(t string) bool {
		return !oneOf(t, "T_HYPHEN", "T_TS_NO_NULL", "T_TS_AS", "T_BACK_QUOTE")
	}
	last := -1
	binSeen := map[string]bool{}
	for _, lv := range precLevels {
		rank := ""
		for _, op := range strings.Fields(lv) {
			m := row(op, func(t string) bool {
				return op == "as" && t == "T_TS_AS" || op != "as" && first(t)
			})
			t := m["tok"].(string)
			binSeen[t] = true
			if op != "as" && !bin[t] {
				c.bad("lang|bin|"+op, at, "%q is not among the binary operators", op)
			}
			c.count("operators", 1)
			r := fmt.Sprint(m["Pcd"])
			if rank == "" {
				rank = r
				var n int
				fmt.Sscan(r, &n)
				if n <= last || n == 0 {
					c.bad("lang|prec|"+op, at, "%q does not bind tighter than the operators of the previous level", op)
				}
				last = n
			} else if r != rank {
				c.bad("lang|prec|"+op, at, "%q does not have the precedence of its level (%s)", op, lv)
			}
			if (m["RightAssoc"] == true) != (op == "**") {
				c.bad("lang|assoc|"+op, at, "%q groups the wrong way", op)
			}
		}
	}
	for t := range bin {
		if !binSeen[t] {
			c.bad("lang|bin|"+t, at, "%s is among the binary operators, but the language has no such operator", t)
		}
	}
	group := func(what, ops string, set map[string]bool) {
		n := 0
		for _, op := range strings.Fields(ops) {
			m := row(op, first)
			if !set[m["tok"].(string)] {
				c.bad("lang|"+what+"|"+op, at, "%q is not among the %s operators", op, what)
			}
			n++
			c.count("operators", 1)
		}
		if n != len(set) {
			c.bad("lang|"+what, at, "there are %d %s operators, the language has %d", len(set), what, n)
		}
	}
	group("assignment", opAssign, asg)
	group("unary", opUnary, un)
	flag := func(list, field string, want bool, what string) {
		for _, op := range strings.Fields(list) {
			m := row(op, first)
			c.count("flags", 1)
			if (m[field] == true) != want {
				c.bad("lang|"+field+"|"+op, at, "%q: %s", op, what)
			}
		}
	}
	flag(beforeRe, "BeforeExpr", true, "a slash after it must start a regular expression")
	flag(beforeDv, "BeforeExpr", false, "a slash after it must divide")
	flag(starters, "StartExpr", true, "it must be able to start an expression")
	flag(noStart, "StartExpr", false, "it must not start an expression")

	words := func(tab, list string, exact bool) {
		k := "ecma/parser." + tab
		m, ok := d.v[k].(map[string]any)
		if !ok {
			c.bad("lang|"+tab, "-", "the table %s can no longer be found", tab)
			return
		}
		for _, w := range strings.Fields(list) {
			c.count("words", 1)
			v, ok := m[w]
			if !ok {
				c.bad("lang|"+tab+"|"+w, d.at[k], "%q is missing from the reserved words (%s)", w, tab)
				continue
			}
			if t, ok := v.(string); ok {
				r, _ := rows[t].(map[string]any)
				if r == nil || r["Name"] != w {
					c.bad("lang|"+tab+"|"+w, d.at[k], "%q is read as the token %s", w, t)
				}
			} else if v != true {
				c.bad("lang|"+tab+"|"+w, d.at[k], "%q is not marked as reserved", w)
			}
		}
		if exact && len(m) != len(strings.Fields(list)) {
			c.bad("lang|"+tab+"|size", d.at[k], "there are %d words in %s, the language has %d", len(m), tab, len(strings.Fields(list)))
		}
	}
	words("Keywords", reserved, true)
	words("StrictKeywords", strictRs+" const", true)
	words("prohibitedNames", strictRs, false)

	const bt = "ecma/parser.builtinTyp"
	if m, ok := d.v[bt].(map[string]any); !ok {
		c.bad("lang|types", "-", "the table of keyword types can no longer be found")
	} else {
		for w, t := range m {
			c.count("types", 1)
			if tsKeywordTypes[w] != t {
				c.bad("lang|types|"+w, d.at[bt], "the type name %q is parsed as %v", w, t)
			}
		}
		for w := range tsKeywordTypes {
			if _, ok := m[w]; !ok && w != "this" {
				c.bad("lang|types|"+w, d.at[bt], "the type name %q is missing from the keyword types", w)
			}
		}
	}
	for _, f := range []struct {
		k string
		n int
	}{{"token rows", 120}, {"operators", 45}, {"flags", 120}, {"words", 45}, {"types", 10}} {
		c.floor(f.k, f.n)
	}
}

func entityTable(c *Ctx) {
	b, err := os.ReadFile(filepath.Join(verifRoot(), "spec", "html5.json"))
	want := map[string][]int{}
	if err == nil {
		err = json.Unmarshal(b, &want)
	}
	if err != nil {
		c.bad("entities|oracle", "-", "spec/html5.json: %v", err)
		return
	}
	d := mineData(c.P, readData())
	const k = "ecma/parser.HTMLEntities"
	m, ok := d.v[k].(map[string]any)
	if !ok {
		c.bad("entities|table", "-", "the entity table can no longer be found")
		return
	}
	max := 0
	for _, n := range sortedKeys(want) {
		c.count("entities", 1)
		if len(n) > max {
			max = len(n)
		}
		e, ok := m[n].(map[string]any)
		if !ok {
			c.bad("entities|"+n, d.at[k], "the entity %s is missing", n)
			continue
		}
		cps, s := []string{}, ""
		for _, r := range want[n] {
			cps = append(cps, fmt.Sprint(r))
			s += string(rune(r))
		}
		bs := []string{}
		for i := 0; i < len(s); i++ {
			bs = append(bs, fmt.Sprint(s[i]))
		}
		if e["Name"] != n || lst(e["CodePoints"]) != strings.Join(cps, " ") || lst(e["Bytes"]) != strings.Join(bs, " ") {
			c.bad("entities|"+n, d.at[k], "the entity %s does not stand for %q", n, s)
		}
	}
	for n := range m {
		if _, ok := want[n]; !ok {
			c.bad("entities|"+n, d.at[k], "%s is not an entity of HTML", n)
		}
	}
	if v, ok := d.v["ecma/parser.MaxHTMLEntityName"].(string); ok {
		n := 0
		fmt.Sscan(v, &n)
		if n < max {
			c.bad("entities|max", d.at["ecma/parser.MaxHTMLEntityName"], "the longest entity name has %d characters, the limit is %d", max, n)
		}
	}
	c.floor("entities", 2000)
}

func lst(v any) string {
	l, _ := v.([]any)
	s := []string{}
	for _, e := range l {
		s = append(s, fmt.Sprint(e))
	}
	return strings.Join(s, " ")
}

func init() {
	register("T01", func(c *Ctx) {
		c.rule("the token table, computed from its initialisers, agrees with tables written down from the language definition: precedence levels, grouping, operator classes, reserved words, keyword types, what may start an expression, when a slash starts a regular expression")
		c.rule("every entry of the constant tables and every range and overlap of the enumerations equals the reviewed one")
		c.assume("package-level tables are filled by their initialisers only (G01 decides that nothing else writes to them)")
		langTables(c)
		dataCheck(c, `TokenKinds|Keywords|prohibitedNames|builtinTyp|modifiers|enum ecma/parser\.TokenValue`)
		c.floor("table entries", 700)
	}, "./ecma/parser")
	register("T02", func(c *Ctx) {
		c.rule("every named character reference of HTML is in the entity table, computed from its initialiser, with its code points and UTF-8 bytes, and nothing else is")
		c.assume("package-level tables are filled by their initialisers only (G01 decides that nothing else writes to them)")
		entityTable(c)
	}, "./ecma/parser")
	const rule = "the constant tables the decisions above refer to (rows, ranges, flags) hold the reviewed entries"
	for id, re := range map[string]string{
		"L01": `TokenKinds.*(BeforeExpr|Name|index)$|Keywords|enum ecma/parser\.(TokenValue|LexerModeKind)`,
		"D01": `TokenKinds.*(Pcd|RightAssoc|StartExpr|index)$|enum ecma/parser\.(TokenValue|NodeType|ScopeKind)`,
		"D02": `builtinTyp|modifiers|enum ecma/parser\.(TokenValue|NodeType)`,
		"B01": `TokenKinds.*(Pcd|RightAssoc|index)$|enum ecma/parser\.(PropKind|NodeType|TokenValue)`,
		"B02": `builtinTyp|enum ecma/parser\.(ACC_MOD|PropKind|NodeType)`,
		"R01": `prohibitedNames|Keywords|enum ecma/parser\.(ScopeKind|BindKind|TokenValue|Feature)`,
		"R02": `builtinTyp|modifiers|enum ecma/parser\.(ScopeKind|TokenValue|Feature)`,
		"A01": `nodetypeStrings|enum ecma/parser\.(NodeType|Feature)`,
		"S01": `enum ecma/parser\.(ScopeKind|BindKind|RefDefType)`,
		"K01": `enum ecma/analysis\.|enum ecma/parser\.NodeType`,
		"K02": `enum ecma/analysis\.`,
	} {
		re := re
		alsoCheck(id, rule, func(c *Ctx) { dataCheck(c, re) })
	}
}
