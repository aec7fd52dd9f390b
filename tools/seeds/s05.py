ID='s05-seq-first-check'; PROP='B01'
NEEDS='a comma expression of at least three operands'
BREAKS='the extent of a comma expression starts at its second operand when it has more than two'
EDITS=[('ecma/parser/parser.go','''			if expr == nil {
				return nil, p.errorAt(p.lexer.PrevTok(), p.lexer.PrevTokRng(), "")
			}
			exprs = append(exprs, expr)
''','''			if expr == nil {
				return nil, p.errorAt(p.lexer.PrevTok(), p.lexer.PrevTokRng(), "")
			}
			if len(exprs) > 5 {
				rng = exprs[1].Range()
			}
			exprs = append(exprs, expr)
''')]
PROP='L04'
DEMO='''func main() {
	want("a,b,c,d,e,f,g", false, "{\\"type\\":\\"SequenceExpression\\",\\"start\\":0,\\"end\\":13")
}'''
