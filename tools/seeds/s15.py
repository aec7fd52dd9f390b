ID='s15-walk-for-scope'; PROP='W02'
NEEDS='a walk that is stopped inside the head of a for loop and whose context is used afterwards'
BREAKS='the after event of a for loop fires in the wrong scope'
EDITS=[('ecma/walk/visitor.go','''	ctx.WalkCtx.PushScope()
	defer ctx.WalkCtx.PopScope()

	CallVisitor(N_STMT_FOR_BEFORE, n, key, ctx)
	defer CallVisitor(N_STMT_FOR_AFTER, n, key, ctx)
''','''	defer CallVisitor(N_STMT_FOR_AFTER, n, key, ctx)

	ctx.WalkCtx.PushScope()
	defer ctx.WalkCtx.PopScope()

	CallVisitor(N_STMT_FOR_BEFORE, n, key, ctx)
''')]
IMPORTS=['"github.com/hsiaosiyuan0/mole/ecma/walk"']
DEMO='''func main() {
	p := parser.NewParser(span.NewSource("", "for (let a = 1;;) ;"), parser.NewParserOpts())
	ast, err := p.Prog()
	if err != nil {
		fail("%v", err)
	}
	var ids []int
	ctx := walk.NewWalkCtx(ast, p.Symtab())
	h := func(node parser.Node, key string, c *walk.VisitorCtx) { ids = append(ids, c.WalkCtx.ScopeId()) }
	walk.AddListener(&ctx.Listeners, walk.N_STMT_FOR_BEFORE, &walk.Listener{Id: "b", Handle: h})
	walk.AddListener(&ctx.Listeners, walk.N_STMT_FOR_AFTER, &walk.Listener{Id: "a", Handle: h})
	walk.VisitNode(ast, "", ctx.VisitorCtx())
	if len(ids) != 2 || ids[0] != ids[1] {
		fail("scopes %v", ids)
	}
}'''
