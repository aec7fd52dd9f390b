ID='s11-jsx-text-hang'; PROP='P01'
NEEDS='JSX text that ends in the middle of a character reference'
BREAKS='the scanner reads the end mark for ever: parsing such a text never ends'
EDITS=[('ecma/parser/lexer.go',"""		if c == '{' || c == '<' || c == span.EOF {
			if i == 0 && c == span.EOF {""","""		if c == '{' || c == '<' || i == 0 && c == span.EOF {
			if c == span.EOF {""")]
IMPORTS=['"time"']
DEMO='''func main() {
	go func() { time.Sleep(5 * time.Second); fail("does not end") }()
	rejects("<a>b", false, "")
	rejects("<a>b &am", false, "")
}'''
