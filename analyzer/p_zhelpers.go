package main

import (
	"regexp"
	"strings"
)

var locHelper = regexp.MustCompile(`(?i)loc|rng`)

func init() {
	// the helpers conversion and walk rest on, where provenance alone does not see a wrong choice
	also := func(id string, g *evGroup, floor int, rule string, keep evFilter) {
		tableSels = append(tableSels, tableSel{id, g, keep})
		alsoCheck(id, rule, func(c *Ctx) {
			checkTable(c, g, keep)
			c.floor("steps compared", floor)
		})
	}
	also("E02", gEstree, 25, "position helpers of the conversion: every choice between extents is made under the reviewed condition",
		func(kind, fn, file, code string) bool { return locHelper.MatchString(fn) })
	also("E01", gEstree, 25, "context, flags and template parts of the conversion: every step happens under the reviewed condition",
		func(kind, fn, file, code string) bool {
			return strings.HasPrefix(fn, "ConvertCtx") || strings.HasPrefix(fn, "ConvertScopeFlag") || oneOf(fn, "tplLiteral", "optional", "isTyParamProp", "tsParamProp", "ident")
		})
	also("W01", gWalk, 20, "walk primitives: dispatch, context stack and stop happen under the reviewed condition",
		func(kind, fn, file, code string) bool {
			return file == "ctx.go" && !strings.Contains(fn, "Scope") && !strings.Contains(fn, "Listener")
		})
	also("W02", gWalk, 12, "scope stack and listener notification happen under the reviewed condition",
		func(kind, fn, file, code string) bool {
			return file == "ctx.go" && (strings.Contains(fn, "Scope") || strings.Contains(fn, "Listener") || strings.Contains(fn, "Stop") || strings.Contains(code, "Listener")) ||
				strings.HasSuffix(fn, "Listener")
		})
}
