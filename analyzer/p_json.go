package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The attribute names ESTree (es5 to es2022) and the JSX extension give to each node type, written
// down from those documents and not from the code.
const estreeNames = `
Program:sourceType body
Identifier:name
Literal:value
RegExpLiteral:regex
BigIntLiteral:bigint
ExpressionStatement:expression
Directive:expression directive
BlockStatement:body
StaticBlock:body
EmptyStatement:
DebuggerStatement:
WithStatement:object body
ReturnStatement:argument
LabeledStatement:label body
BreakStatement:label
ContinueStatement:label
IfStatement:test consequent alternate
SwitchStatement:discriminant cases
SwitchCase:test consequent
ThrowStatement:argument
TryStatement:block handler finalizer
CatchClause:param body
WhileStatement:test body
DoWhileStatement:body test
ForStatement:init test update body
ForInStatement:left right body
ForOfStatement:left right body await
FunctionDeclaration:id params body generator async
VariableDeclaration:declarations kind
VariableDeclarator:id init
ThisExpression:
Super:
ArrayExpression:elements
ObjectExpression:properties
Property:key value kind method shorthand computed
FunctionExpression:id params body generator async
ArrowFunctionExpression:params body expression async
UnaryExpression:operator prefix argument
UpdateExpression:operator argument prefix
BinaryExpression:operator left right
AssignmentExpression:operator left right
LogicalExpression:operator left right
MemberExpression:object property computed optional
ChainExpression:expression
ConditionalExpression:test alternate consequent
CallExpression:callee arguments optional
NewExpression:callee arguments
SequenceExpression:expressions
SpreadElement:argument
YieldExpression:argument delegate
AwaitExpression:argument
ImportExpression:source
TemplateLiteral:quasis expressions
TaggedTemplateExpression:tag quasi
TemplateElement:tail value
TemplateElementValue:cooked raw
ObjectPattern:properties
ArrayPattern:elements
RestElement:argument
AssignmentPattern:left right
ClassDeclaration:id superClass body
ClassExpression:id superClass body
ClassBody:body
MethodDefinition:key value kind computed static
PropertyDefinition:key value computed static
PrivateIdentifier:name
MetaProperty:meta property
ImportDeclaration:specifiers source
ImportSpecifier:local imported
ImportDefaultSpecifier:local
ImportNamespaceSpecifier:local
ExportNamedDeclaration:declaration specifiers source
ExportSpecifier:local exported
ExportDefaultDeclaration:declaration
ExportAllDeclaration:source exported
JSXIdentifier:name
JSXMemberExpression:object property
JSXNamespacedName:namespace name
JSXEmptyExpression:
JSXExpressionContainer:expression
JSXSpreadChild:expression
JSXOpeningElement:name attributes selfClosing
JSXClosingElement:name
JSXAttribute:name value
JSXSpreadAttribute:argument
JSXText:value raw
JSXElement:openingElement children closingElement
JSXFragment:openingFragment children closingFragment
Position:line column
SrcLoc:start end
Regexp:pattern flags
`

type jsonField struct {
	Name string `json:"n"`
	Opts string `json:"o,omitempty"`
	Type string `json:"t"`
}

type jsonShape struct {
	st     *types.Struct
	at     string
	fields []jsonField
	dup    []string
}

func jsonKind(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Name()
	case *types.Interface:
		return "any"
	case *types.Pointer:
		return jsonKind(u.Elem())
	case *types.Struct:
		return "object"
	case *types.Slice:
		return "[" + jsonKind(u.Elem()) + "]"
	case *types.Map:
		return "map"
	}
	return t.String()
}

// jsonShapes: how encoding/json writes each structure of the ESTree package.
func jsonShapes(p *Prog) map[string]*jsonShape {
	out := map[string]*jsonShape{}
	pk := p.Pkgs["ecma/estree"]
	if pk == nil {
		return out
	}
	sc := pk.Types.Scope()
	for _, name := range sc.Names() {
		tn, ok := sc.Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		st, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		sh := &jsonShape{st: st, at: p.pos(tn.Pos())}
		tagged := false
		seen := map[string]bool{}
		var add func(st *types.Struct)
		add = func(st *types.Struct) {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
				tagged = tagged || has
				if es, ok := f.Type().Underlying().(*types.Struct); ok && f.Embedded() && !has {
					add(es)
					continue
				}
				if !f.Exported() || tag == "-" {
					continue
				}
				n, o, _ := strings.Cut(tag, ",")
				if n == "" {
					n = f.Name()
				}
				if seen[n] {
					sh.dup = append(sh.dup, n)
				}
				seen[n] = true
				sh.fields = append(sh.fields, jsonField{n, o, jsonKind(f.Type())})
			}
		}
		add(st)
		if !tagged {
			continue
		}
		sort.Slice(sh.fields, func(i, j int) bool { return sh.fields[i].Name < sh.fields[j].Name })
		out[name] = sh
	}
	return out
}

// neverNil: v is a list on every path, if only an empty one.
func neverNil(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return true
	case *ssa.Slice:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return true
		}
		return neverNil(x.X, seen)
	case *ssa.ChangeType:
		return neverNil(x.X, seen)
	case *ssa.Phi:
		for i, e := range x.Edges {
			if !neverNil(e, seen) && !nilTested(e, x.Block().Preds[i], x.Block()) {
				return false
			}
		}
		return true
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return callNeverNil(c, x.Index, seen)
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if neverNil(x.Call.Args[0], seen) {
				return true
			}
			if sl, ok := x.Call.Args[1].(*ssa.Slice); ok { // append(l, one, two): not empty
				_, arr := sl.X.(*ssa.Alloc)
				return arr
			}
			return false
		}
		return callNeverNil(x, 0, seen)
	}
	return false
}

// nilTested: on the edge from pred to succ, v is known not to be nil.
func nilTested(v ssa.Value, pred, succ *ssa.BasicBlock) bool {
	for b, s := pred, succ; b != nil; b, s = b.Idom(), b {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		op, ok := iff.Cond.(*ssa.BinOp)
		if !ok || op.X != v && op.Y != v {
			continue
		}
		c, ok := op.Y.(*ssa.Const)
		if !ok {
			c, ok = op.X.(*ssa.Const)
		}
		if !ok || !c.IsNil() {
			continue
		}
		if op.Op.String() == "!=" && b.Succs[0] == s && b.Succs[1] != s || op.Op.String() == "==" && b.Succs[1] == s && b.Succs[0] != s {
			return true
		}
	}
	return false
}

func callNeverNil(c *ssa.Call, i int, seen map[ssa.Value]bool) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Blocks == nil {
		return false
	}
	if f.Origin() != nil && len(f.Blocks) == 0 {
		return false
	}
	for _, b := range f.Blocks {
		rt, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(rt.Results) {
			continue
		}
		r := rt.Results[i]
		if p, ok := r.(*ssa.Parameter); ok {
			k := 0
			for k < len(f.Params) && f.Params[k] != p {
				k++
			}
			if k < len(c.Call.Args) && neverNil(c.Call.Args[k], seen) {
				continue
			}
			return false
		}
		if !neverNil(r, seen) {
			return false
		}
	}
	return true
}

type listAttr struct {
	key, at, why string
}

// listAttrs: every list-valued attribute of every ESTree object built, and whether it can be nil.
func listAttrs(p *Prog) (n int, bad []listAttr) {
	seenKey := map[string]bool{}
	for _, f := range p.All {
		if fnRel(f) != "ecma/estree" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok {
					continue
				}
				nt, ok := al.Type().(*types.Pointer).Elem().(*types.Named)
				if !ok || nt.Obj().Pkg() == nil || nt.Obj().Pkg() != f.Pkg.Pkg {
					continue
				}
				st, ok := nt.Underlying().(*types.Struct)
				if !ok {
					continue
				}
				if copied(al) {
					continue
				}
				for i := 0; i < st.NumFields(); i++ {
					if _, ok := st.Field(i).Type().Underlying().(*types.Slice); !ok {
						continue
					}
					tag, has := reflect.StructTag(st.Tag(i)).Lookup("json")
					if !has || tag == "-" {
						continue
					}
					name, _, _ := strings.Cut(tag, ",")
					n++
					set, why := false, ""
					for _, r := range *al.Referrers() {
						fa, ok := r.(*ssa.FieldAddr)
						if !ok || fa.Field != i {
							continue
						}
						for _, q := range *fa.Referrers() {
							if s, ok := q.(*ssa.Store); ok && s.Addr == ssa.Value(fa) {
								set = true
								if !neverNil(s.Val, map[ssa.Value]bool{}) {
									why = "can be nil"
								}
							}
						}
					}
					if !set {
						why = "is never set"
					}
					if why != "" {
						k := nt.Obj().Name() + "." + name
						if !seenKey[k] {
							seenKey[k] = true
							bad = append(bad, listAttr{k, p.pos(al.Pos()), why})
						}
					}
				}
			}
		}
	}
	return
}

// copied: the object is filled as a whole from another one.
func copied(al *ssa.Alloc) bool {
	for _, r := range *al.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
			return true
		}
	}
	return false
}

type jsonSpec struct {
	Shapes map[string][]jsonField `json:"shapes"`
	Nil    []string               `json:"nil"` // list attributes that are null when absent, reviewed
}

func init() {
	debugCmds["json"] = func(args []string) {
		p, err := load(false, "./ecma/estree")
		if err != nil {
			panic(err)
		}
		sp := jsonSpec{Shapes: map[string][]jsonField{}}
		for k, v := range jsonShapes(p) {
			sp.Shapes[k] = v.fields
		}
		_, bad := listAttrs(p)
		for _, b := range bad {
			sp.Nil = append(sp.Nil, b.key)
			fmt.Println(b.key, b.at, b.why)
		}
		sort.Strings(sp.Nil)
		if len(args) > 0 {
			writeSpec("json.json", sp)
		}
	}
	register("E03", func(c *Ctx) {
		c.rule("the JSON object each ESTree structure is written as has the reviewed attribute names, each once, with the reviewed kind of value and never left out; for the node types ESTree and JSX define, the names are those of the definition")
		c.rule("a list attribute of every ESTree object built is a list on every path, never null")
		c.assume("encoding/json writes a structure as its documentation says")
		var sp jsonSpec
		if !readSpec("json.json", &sp) {
			c.bad("spec", "-", "reviewed attribute names missing")
			return
		}
		have := jsonShapes(c.P)
		used := map[string]bool{}
		match := map[string]string{}
		for n := range sp.Shapes {
			if have[n] != nil {
				match[n], used[n] = n, true
			}
		}
		for _, n := range sortedKeys(sp.Shapes) {
			if match[n] != "" {
				continue
			}
			for _, m := range sortedKeys(have) { // renamed: same attributes
				if !used[m] && fmt.Sprint(have[m].fields) == fmt.Sprint(sp.Shapes[n]) {
					match[n], used[m] = m, true
					break
				}
			}
		}
		for _, n := range sortedKeys(sp.Shapes) {
			h := have[match[n]]
			if h == nil {
				if jsonBuilt(c.P, n) {
					c.bad("gone|"+n, "-", "no structure is written with the attributes of %s", n)
				}
				continue
			}
			c.count("objects", 1)
			w := map[string]jsonField{}
			for _, f := range sp.Shapes[n] {
				w[f.Name] = f
			}
			for _, f := range h.fields {
				c.count("attributes", 1)
				r, ok := w[f.Name]
				switch {
				case !ok:
					c.bad("extra|"+n+"|"+f.Name, h.at, "%s is written with an attribute %q it does not have", n, f.Name)
				case r.Opts != f.Opts:
					c.bad("opts|"+n+"|"+f.Name, h.at, "the attribute %q of %s is written with options %q, reviewed %q", f.Name, n, f.Opts, r.Opts)
				case r.Type != f.Type:
					c.bad("kind|"+n+"|"+f.Name, h.at, "the attribute %q of %s is written as %s, reviewed %s", f.Name, n, f.Type, r.Type)
				}
				delete(w, f.Name)
			}
			for _, f := range sortedKeys(w) {
				c.bad("lost|"+n+"|"+f, h.at, "%s is no longer written with its attribute %q", n, f)
			}
			for _, f := range h.dup {
				c.bad("dup|"+n+"|"+f, h.at, "two attributes of %s are written as %q: neither appears in the output", n, f)
			}
		}
		for _, l := range strings.Split(strings.TrimSpace(estreeNames), "\n") {
			n, fs, _ := strings.Cut(l, ":")
			h := have[match[n]]
			if h == nil {
				continue
			}
			names := map[string]bool{}
			for _, f := range h.fields {
				names[f.Name] = true
			}
			for _, f := range strings.Fields(fs) {
				c.count("defined names", 1)
				if !names[f] {
					c.bad("estree|"+n+"|"+f, h.at, "%s has no attribute %q, which its definition requires", n, f)
				}
			}
		}
		for _, n := range sortedKeys(have) {
			if !used[n] {
				for _, f := range have[n].dup {
					c.bad("dup|"+n+"|"+f, have[n].at, "two attributes of %s are written as %q: neither appears in the output", n, f)
				}
			}
		}
		pk := c.P.Pkgs["ecma/estree"]
		for _, n := range pk.Types.Scope().Names() {
			if tn, ok := pk.Types.Scope().Lookup(n).(*types.TypeName); ok {
				for _, m := range []string{"MarshalJSON", "MarshalText"} {
					if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, pk.Types, m); o != nil {
						if _, ok := o.(*types.Func); ok {
							c.bad("custom|"+n, c.P.pos(tn.Pos()), "%s is written by its own %s, which this check does not look into", n, m)
						}
					}
				}
			}
		}
		okNil := map[string]bool{}
		for _, k := range sp.Nil {
			okNil[k] = true
		}
		n, bad := listAttrs(c.P)
		c.count("list attributes", n)
		for _, b := range bad {
			if !okNil[b.key] {
				c.bad("null|"+b.key, b.at, "the list attribute %s %s, so it can be written as null", b.key, b.why)
			}
		}
		c.floor("objects", 120)
		c.floor("attributes", 900)
		c.floor("defined names", 130)
		c.floor("list attributes", 60)
	}, "./ecma/estree")
}

// jsonBuilt: some code still builds an object of that name.
func jsonBuilt(p *Prog, name string) bool {
	for _, f := range p.All {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if c, ok := s.Val.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == fmt.Sprintf("%q", name) {
						return true
					}
				}
			}
		}
	}
	return false
}
