ID='s08-catch-clash-through-block'; PROP='S01'
NEEDS='a var declared at two levels: a function declaration in the function scope and a var of that name in a nested block'
BREAKS='a var hoisted out of a nested block no longer replaces nothing but also does not clash with a let of the function scope'
EDITS=[('ecma/parser/symtab.go','''			((localInPs.BindKind != BK_VAR && localInPs.Typ != RDT_FN) ||
				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN)) {''','''			((localInPs.BindKind == BK_CONST && localInPs.Typ != RDT_FN) || localInPs.BindKind != BK_VAR && localInPs.Scope == s && localInPs.Typ != RDT_FN ||
				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN)) {''')]
DEMO='''func main() {
	rejects("function f(){ let a; { { var a } } }", false, "")
}'''
