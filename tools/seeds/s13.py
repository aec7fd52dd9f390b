ID='s13-forof-await'; PROP='E01'
NEEDS='a for-await loop whose left side is a member'
BREAKS='the ESTree output of `for await (x.a of y)` says it is an ordinary loop'
EDITS=[('ecma/estree/convert.go','''			Await: stmt.Await(),''','''			Await: stmt.Await() && stmt.Left().Type() != parser.N_EXPR_MEMBER,''')]
DEMO='''func main() {
	want("async function f() { for await (x.a of y); }", false, "\\"await\\":true")
	want("async function f() { for await (const x of y); }", false, "\\"await\\":true")
}'''
