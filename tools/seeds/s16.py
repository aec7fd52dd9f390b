ID='s16-cfg-dowhile-cut'; PROP='K01'
NEEDS='a do-while loop with a string as its condition'
BREAKS='the way out of such a loop is shown as reachable'
EDITS=[('ecma/analysis/ctrlflow.go','''		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)

		if n.Test().Type().IsLit() {
			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)''','''		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)

		if n.Test().Type().IsLit() && n.Test().Type() != parser.N_LIT_STR {
			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)''')]
IMPORTS=['"github.com/hsiaosiyuan0/mole/ecma/analysis"']
DEMO='''func dot(src string) string {
	o := parser.NewParserOpts()
	p := parser.NewParser(span.NewSource("", src), o)
	ast, err := p.Prog()
	if err != nil {
		fail("%v", err)
	}
	a := analysis.NewAnalysis(ast, p.Symtab(), p.Source())
	a.Analyze()
	return a.Graph().Dot()
}
func main() {
	for _, src := range []string{"do { a } while (true); b", "do { a } while ('x'); b"} {
		if s := dot(src); strings.Contains(s, "xlabel=\\"F\\",color=\\"orange\\"];\\n}") || strings.Count(s, "xlabel=\\"F\\"") != strings.Count(src, "if") {
			fail("%s: the loop has a way out: %s", src, s)
		}
	}
}'''
