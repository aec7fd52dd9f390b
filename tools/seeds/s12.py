ID='s12-codepoint-limit'; PROP='L02'
NEEDS='a code point escape whose value is just above the last code point'
BREAKS='`\\u{0110000}` is accepted and decoded as something else instead of being reported'
EDITS=[('ecma/parser/lexer.go','''	if r > unicode.MaxRune {
		return utf8.RuneError,''','''	if r > unicode.MaxRune && hex[0] != '0' {
		return utf8.RuneError,''')]
DEMO='''func main() {
	accepts("x = '\\\\u{10ffff}'", false)
	rejects("x = '\\\\u{0110000}'", false, "")
}'''
