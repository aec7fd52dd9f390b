ID='s07-crlf-linecol'; PROP='L04'
NEEDS='line/column of a position after a lone carriage return'
BREAKS='a lone CR is no longer counted as a line break when positions are turned into lines and columns'
EDITS=[('span/source.go','''regexp.MustCompile("(?m)\\r\\n?|\\n")''','''regexp.MustCompile("(?m)\\r?\\n")''')]
DEMO='''func main() {
	s := span.NewSource("", "a\\rb")
	from, _ := s.LineCol(span.Range{Lo: 2, Hi: 3})
	if from.Line != 2 {
		fail("line %d", from.Line)
	}
}'''
