package main

import (
	"regexp"
	"strings"
)

func oneOf(s string, l ...string) bool {
	for _, x := range l {
		if s == x {
			return true
		}
	}
	return false
}

var (
	boolRet   = regexp.MustCompile(`ret\d+ true$`)
	rngField  = regexp.MustCompile(`^\w+\.(rng|range|txt|Lo|Hi|lo|hi|\w*Rng|\w*Loc|\w*Range) := `)
	scopeCall = regexp.MustCompile(`(^|\.)(Scope|SymTab|Ref)\.|(^|\.)(Scope|SymTab)\.|EnterScope|LeaveScope|addLocalBinding|AddLocal|AddKind|EraseKind`)
	featVar   = regexp.MustCompile(`recv\.(feat|ts)\b|recv\.lexer\.feat|FEAT_`)
	literalFn = regexp.MustCompile(`^Lexer\.(read(BinaryNum|Codepoint|Decimal\w*|EscapeSeq|ExpPart|Hex\w*|JSXTxt|JsxStr|Octal\w*|Num|Regexp|Str|Tpl\w*|Unicode\w*)|bigintSuffix|isLegalFlag|errCharError)$|^(ParseBigint|ParseFloat|NodeToFloat|NodeIsBigint|TokRawText|TokText|NodeText)$`)
	stateFn   = regexp.MustCompile(`^(Lexer\.(Add|Cur|Erase|Is|Pop|Push)Mode|Lexer\.(PushState|PopState|DiscardState|Next|NextRevise|Peek\w*|PrevTok\w*|advance|lexTok|lsh|maybeLsh|tryLsh|revisePeekedLsh|take\w+|readTokWithComment|readTok|\w*[cC]omment|newToken|finToken)|TokensBuf\.\w+|NewLexer|newLexerState)$`)
	checkFn   = regexp.MustCompile(`^Parser\.(check\w*|collect\w*|is[A-Z]\w*|nameOf\w*|name[A-Z]\w*|add[A-Z]\w*)$`)
)

func init() {
	// ---- early errors ----
	tableCheck("R01", gParser, 500, "JavaScript early errors: each error is raised, or handed on, under exactly the reviewed condition",
		func(kind, fn, file, code string) bool {
			switch file {
			case "parser.go":
				return kind == "raise" || kind == "fail" || kind == "panic" || kind == "ret" && boolRet.MatchString(code) || checkFn.MatchString(fn)
			case "symtab.go", "errors.go":
				return true
			}
			return false
		})
	tableCheck("R02", gParser, 200, "TypeScript and JSX errors: each error is raised, or handed on, under exactly the reviewed condition",
		func(kind, fn, file, code string) bool {
			switch file {
			case "ts.go", "jsx.go":
				return kind == "raise" || kind == "fail" || kind == "panic" || kind == "ret" && boolRet.MatchString(code)
			}
			return false
		})
	// ---- trees ----
	tableCheck("B01", gParser, 700, "JavaScript nodes: every part of a node is set from the reviewed source under the reviewed condition, and the node returned is the one built",
		func(kind, fn, file, code string) bool {
			return file == "parser.go" && oneOf(kind, "build", "store", "ret", "carry")
		})
	tableCheck("B02", gParser, 450, "TypeScript nodes and type information: every part is set from the reviewed source under the reviewed condition",
		func(kind, fn, file, code string) bool {
			return (file == "ts.go" || file == "typinfo.go") && oneOf(kind, "build", "store", "ret", "carry") || file == "parser.go" && strings.Contains(code, "TypInfo")
		})
	tableCheck("B03", gParser, 150, "JSX: every step of the JSX productions and of JSX text and entities",
		func(kind, fn, file, code string) bool {
			return file == "jsx.go" || fn == "Lexer.readJSXTxt" || fn == "Lexer.readJsxStr"
		})
	tableCheck("A01", gParser, 500, "node accessors: each returns or sets the part its name stands for, for every node type",
		func(kind, fn, file, code string) bool {
			return oneOf(file, "ast.go", "ts_ast.go", "jsx_ast.go", "typinfo.go", "nodetype.go", "feature.go") && oneOf(kind, "ret", "store", "build", "call", "carry")
		})
	// ---- productions ----
	tableCheck("D01", gParser, 900, "productions: each sub-parser is invoked with the reviewed arguments, after the reviewed number of input advances, under the reviewed condition",
		func(kind, fn, file, code string) bool {
			return kind == "call" && file == "parser.go"
		})
	tableCheck("D02", gParser, 300, "TypeScript productions: each sub-parser is invoked with the reviewed arguments, after the reviewed number of input advances, under the reviewed condition",
		func(kind, fn, file, code string) bool {
			return kind == "call" && file == "ts.go"
		})
	tableCheck("S01", gParser, 150, "scopes: each scope is entered, left, marked and filled under the reviewed condition, and lookups read what was stored",
		func(kind, fn, file, code string) bool {
			return file == "symtab.go" || oneOf(kind, "call", "store") && scopeCall.MatchString(code) || checkFn.MatchString(fn) && strings.Contains(fn, "Binding")
		})
	// ---- lexical level ----
	tableCheck("L01", gParser, 250, "tokens: which token is produced for which characters, with which range and attributes",
		func(kind, fn, file, code string) bool {
			return file == "lexer.go" && !literalFn.MatchString(fn) && !strings.HasPrefix(fn, "TokensBuf") || file == "token.go"
		})
	tableCheck("L02", gParser, 120, "literals: digits, escapes, regular expressions and templates are read and decoded under the reviewed conditions",
		func(kind, fn, file, code string) bool {
			return literalFn.MatchString(fn)
		})
	tableCheck("L03", gParser, 80, "lookahead, saved states, modes and comments of the token stream",
		func(kind, fn, file, code string) bool {
			return stateFn.MatchString(fn) || file == "source.go" && strings.Contains(fn, "State")
		})
	tableCheck("L04", gParser, 200, "positions: offsets, lines and columns of the source cursor and the ranges given to tokens and nodes",
		func(kind, fn, file, code string) bool {
			return file == "source.go" || oneOf(kind, "build", "store") && rngField.MatchString(code) ||
				oneOf(fn, "Parser.rng", "Parser.finRng", "Parser.rngFromTok", "Lexer.Rng", "Lexer.FinRng", "Lexer.PrevTokRng")
		})
}

func init() {
	// ---- consumers of the tree ----
	all := func(kind, fn, file, code string) bool { return true }
	inFile := func(fs ...string) evFilter {
		return func(kind, fn, file, code string) bool { return oneOf(file, fs...) }
	}
	tableCheck("K01", gAnalysis, 300, "control-flow graph: how each statement and expression is turned into blocks, edges and jumps", inFile("ctrlflow.go"))
	tableCheck("K02", gAnalysis, 150, "control-flow graph primitives: linking, joining, edge lookup, iteration and printing", inFile("graph.go"))
	tableCheck("X01", gExec, 60, "expression evaluator: which value each operation leaves on the stack", all)
	tableCheck("X02", gAstutil, 90, "tree utilities: branch selection, name collection, dependency graph", all)
	// ---- utilities ----
	tableCheck("U01", gUtil, 40, "containers: ordered map, least-recently-used cache, sets, slices and object paths", inFile("lru.go", "map.go", "merge.go", "obj.go", "sets.go", "slice.go"))
	tableCheck("I01", gUtil, 40, "command line: each option is read, each failure is reported, and the result goes where it was asked to go", inFile("main.go", "ast.go"))
}

func alsoCheck(id string, rule string, run func(c *Ctx)) {
	ck := checks[id]
	first := ck.run
	ck.run = func(c *Ctx) {
		c.rule(rule)
		run(c)
		first(c)
	}
	checks[id] = ck
}

func init() {
	inFile := func(fs ...string) evFilter {
		return func(kind, fn, file, code string) bool { return oneOf(file, fs...) }
	}
	const locks = "guarded containers are touched only while the lock of their owner is held (for writing when changed), every lock is released on every path and never taken twice"
	tableCheck("C01", gUtil, 14, "parse cache: who parses, who waits and who is answered", inFile("cache.go"))
	alsoCheck("C01", locks, func(c *Ctx) {
		lockCheck(c, "ParseCache", "LruCache")
		c.floor("guarded accesses", 20)
		c.floor("lock operations", 8)
	})
	tableCheck("C02", gUtil, 30, "directory walk: how directories are queued, handed out, reported and how the walk ends", inFile("walkdir.go"))
	alsoCheck("C02", locks, func(c *Ctx) {
		lockCheck(c, "DirWalker")
		c.floor("guarded accesses", 5)
		c.floor("lock operations", 4)
	})
	tableCheck("Z01", gUtil, 30, "archives, downloads and commands: which files are written, where and under which checks", inFile("shell.go"))
}
