ID='s10-throw-target'; PROP='B01'
NEEDS='a yield at the end of a template or an argument list followed by a line break and `*`'
BREAKS='`yield` followed by a line break and `*` is parsed as a delegating yield'
EDITS=[('ecma/parser/parser.go','if tok.afterLineTerm || !startExpr && tv != T_MUL {','if tok.afterLineTerm && tv != T_MUL || !startExpr && tv != T_MUL {')]
DEMO='''func main() {
	rejects("function* f(){ yield\\n* 2 }", false, "")
}'''
PROP='D01'
ID='s10-yield-newline-star'
