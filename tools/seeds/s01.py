ID='s01-params-nested-default'; PROP='R01'
NEEDS='a parameter list whose clash is hidden inside an object or array pattern that itself has a default value'
BREAKS='names bound inside a destructuring parameter with a default are not collected, so duplicates are accepted'
EDITS=[('ecma/parser/parser.go','''		names, err := p.namesInPattern(node.(*AssignPat).lhs, kw)
		if err != nil {
			return nil, err
		}
		out = append(out, names...)
''','''		lhs := node.(*AssignPat).lhs
		if lhs.Type() == N_PAT_OBJ {
			// the names of the pattern are bound by its own properties
			break
		}
		names, err := p.namesInPattern(lhs, kw)
		if err != nil {
			return nil, err
		}
		out = append(out, names...)
''')]
DEMO='''func main() {
	rejects("function f(a, {a} = {}) {}", false, "")
	accepts("function f(a, {b} = {}) {}", false)
}'''
