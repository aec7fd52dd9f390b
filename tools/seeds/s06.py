ID='s06-nullish-mixing-nested'; PROP='R01'
NEEDS='`??` used to the right of a `||`/`&&` operand reached through the precedence climb'
BREAKS='mixing ?? with && without parentheses is accepted when the logical operator binds tighter'
EDITS=[('ecma/parser/parser.go','rhs, err = p.binExpr(rhs, pcd, logic, nullish, notGT, false)','rhs, err = p.binExpr(rhs, pcd, logic, false, notGT, false)')]
DEMO='''func main() {
	rejects("a ?? b && c", false, "")
	accepts("a ?? (b && c)", false)
}'''
