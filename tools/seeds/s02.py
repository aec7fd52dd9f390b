ID='s02-octal-escape-width'; PROP='L02'
NEEDS='a legacy octal escape that starts with the digit 3 followed by two more octal digits'
BREAKS='the three-digit octal escapes \\300..\\377 are read as two digits followed by a literal digit'
EDITS=[('ecma/parser/lexer.go',"zeroToThree := first >= '0' && first <= '3'","zeroToThree := first >= '0' && first < '3'")]
DEMO='''func main() {
	want("x = '\\\\\\\\377'", false, "\\"value\\":\\"\\\\u00ff\\"")
}'''.replace('\\\\u00ff','ÿ')
