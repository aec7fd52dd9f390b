ID='s14-walk-tag'; PROP='W01'
NEEDS='a tagged template without substitutions'
BREAKS='the tag of a template that has a single text part is not visited'
EDITS=[('ecma/walk/visitor.go','''	VisitNode(n.Tag(), "Tag", ctx)
	if ctx.WalkCtx.Stopped() {
		return
	}

	VisitNodes(n, n.Elems(), "Elems", ctx)''','''	if len(n.Elems()) > 1 {
		VisitNode(n.Tag(), "Tag", ctx)
	}
	if ctx.WalkCtx.Stopped() {
		return
	}

	VisitNodes(n, n.Elems(), "Elems", ctx)''')]
IMPORTS=['"github.com/hsiaosiyuan0/mole/ecma/walk"']
DEMO='''func count(src string) int {
	p := parser.NewParser(span.NewSource("", src), parser.NewParserOpts())
	ast, err := p.Prog()
	if err != nil {
		fail("%v", err)
	}
	n := 0
	ctx := walk.NewWalkCtx(ast, p.Symtab())
	walk.AddListener(&ctx.Listeners, walk.N_NAME_BEFORE, &walk.Listener{Id: "c", Handle: func(node parser.Node, key string, ctx *walk.VisitorCtx) { n++ }})
	walk.VisitNode(ast, "", ctx.VisitorCtx())
	return n
}
func main() {
	if n := count("tag`a${x}b`"); n != 2 {
		fail("want 2 names, got %d", n)
	}
	if n := count("tag`a`"); n != 1 {
		fail("want 1 name, got %d", n)
	}
}'''
