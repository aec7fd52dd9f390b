ID='s21-estree-index-sign'; PROP='E03'
NEEDS='the JSON of an index signature in a class that is not declared'
BREAKS='the attribute "declare" is missing instead of false'
EDITS=[('ecma/estree/ts_node.go','''	Readonly       bool    `json:"readonly"`
	Declare        bool    `json:"declare"`
	Accessibility  string  `json:"accessibility"`
	Parameters     []Node  `json:"parameters"`
	TypeAnnotation Node    `json:"typeAnnotation"`''','''	Readonly       bool    `json:"readonly"`
	Declare        bool    `json:"declare,omitempty"`
	Accessibility  string  `json:"accessibility"`
	Parameters     []Node  `json:"parameters"`
	TypeAnnotation Node    `json:"typeAnnotation"`''')]
DEMO='''func main() {
	want("class A { [a: string]: any }", true, "\\"declare\\":false,\\"accessibility\\":\\"\\",\\"parameters\\"")
}'''
