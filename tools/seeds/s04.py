ID='s04-continue-in-switch'; PROP='R01'
NEEDS='a continue statement inside a switch that is not inside a loop'
BREAKS='`continue` is accepted in a switch that has no enclosing loop'
EDITS=[('ecma/parser/parser.go','''	scope := p.scope()
	if !scope.IsKind(SPK_LOOP_DIRECT) && !scope.IsKind(SPK_LOOP_INDIRECT) {
		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_CONTINUE)
	}

	return &ContStmt{N_STMT_CONT, p.finRng(rng), nil, p.loopStk[len(p.loopStk)-1]}, nil
''','''	scope := p.scope()
	var target Node
	if len(p.loopStk) > 0 {
		target = p.loopStk[len(p.loopStk)-1]
	}
	if target == nil && !scope.IsKind(SPK_SWITCH_INDIRECT) && !scope.IsKind(SPK_LOOP_INDIRECT) {
		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_CONTINUE)
	}

	return &ContStmt{N_STMT_CONT, p.finRng(rng), nil, target}, nil
''')]
DEMO='''func main() {
	rejects("switch(1){ case 1: { continue } }", false, "")
	rejects("while(1){ function f(){ continue } }", false, "")
	accepts("while(1){ switch(1){ case 1: continue } }", false)
}'''
