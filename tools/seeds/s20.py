ID='s20-html-entity'; PROP='T02'
NEEDS='JSX text with the reference &sstarf;'
BREAKS='one character reference decodes to another character'
EDITS=[('ecma/parser/html_entity.go','''		"&sstarf;",
		[]rune{8902},
		[]byte{226, 139, 134},''','''		"&sstarf;",
		[]rune{8902},
		[]byte{226, 139, 133},''')]
DEMO='''func main() {
	want("<a>&sstarf;</a>", false, "\u22c6")
}'''
