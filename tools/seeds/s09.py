ID='s09-eval-array-order'; PROP='X01'
NEEDS='evaluating a subtraction whose operands differ in type'
BREAKS='a string minuend is converted after the subtrahend: operands trade places when the right one is a string'
EDITS=[('ecma/exec/vm.go','''			case parser.T_SUB:
				ee.push(ToNum(lhs) - ToNum(rhs))
''','''			case parser.T_SUB:
				if s, ok := rhs.(string); ok {
					lhs, rhs = s, lhs
				}
				ee.push(ToNum(lhs) - ToNum(rhs))
''')]
IMPORTS=['"github.com/hsiaosiyuan0/mole/ecma/exec"']
DEMO='''func main() {
	p := parser.NewParser(span.NewSource("", "5 - '2'"), parser.NewParserOpts())
	ast, err := p.Prog()
	if err != nil {
		fail("%v", err)
	}
	n := ast.(*parser.Prog).Body()[0].(*parser.ExprStmt).Expr()
	ee := exec.NewExprEvaluator(n, p)
	r, _ := ee.Exec(nil).GetResult()
	if r != 3.0 {
		fail("got %v", r)
	}
}'''
