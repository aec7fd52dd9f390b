From a45dc51ed6f641c9ee8e5a7448c41038de2c41fa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 08:59:49 +0000
Subject: [PATCH 01/37] fix: walker enters the scope of for-in/of loops and
 static blocks

The parser opens a scope for both, so every later scope id reported by the
walker was off by one.
---
 ecma/parser/ast.go   | 4 ++--
 ecma/walk/visitor.go | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 5f3421f..d98bfa0 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1546,7 +1546,7 @@ func (n *ForStmt) Body() Node {
 	return n.body
 }
 
-// #[visitor(Left,Right,Body)]
+// #[visitor(PUSH_SCOPE,Left,Right,Body)]
 type ForInOfStmt struct {
 	typ   NodeType
 	rng   span.Range
@@ -2038,7 +2038,7 @@ func (n *Field) SetTypInfo(ti *TypInfo) {
 	n.ti = ti
 }
 
-// #[visitor(Body)]
+// #[visitor(PUSH_SCOPE,Body)]
 type StaticBlock struct {
 	typ  NodeType
 	rng  span.Range
diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 36c2105..4b9a13d 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1956,6 +1956,9 @@ func VisitAssignPatAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitStaticBlock(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.StaticBlock)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STATIC_BLOCK_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STATIC_BLOCK_AFTER, n, key, ctx)
 
@@ -2071,6 +2074,9 @@ func VisitTsTypOpAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitForInOfStmt(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ForInOfStmt)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STMT_FOR_IN_OF_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STMT_FOR_IN_OF_AFTER, n, key, ctx)
 
-- 
2.43.0


From 9cc102df4e102304bae4a9bda537b00ea8ba3563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:00 +0000
Subject: [PATCH 02/37] fix: a stop requested by a before-listener also skips
 the node's first child

---
 ecma/walk/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index ae576bd..9081d82 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -137,7 +137,7 @@ func (vc *VisitorCtx) ParentIsJmp(key string) bool {
 }
 
 func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
-	if n == nil {
+	if n == nil || ctx.WalkCtx.stop {
 		return
 	}
 	ctx.WalkCtx.PushVisitorCtx(n, key)
-- 
2.43.0


From 1c4d2002792b37d2fc853ce65950e6d28f619557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:46 +0000
Subject: [PATCH 03/37] fix: walker fires each node kind's own before/after
 events

---
 ecma/walk/visitor.go       | 38 ++++++++++++++++++++------------------
 script/visitor_gen/main.go | 18 ++++++++++--------
 2 files changed, 30 insertions(+), 26 deletions(-)

diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 4b9a13d..863740c 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -627,6 +627,8 @@ var NodeTypes = map[parser.NodeType]bool{
 }
 
 var StmtNodeTypes = map[parser.NodeType]bool{
+	N_STMT_CLASS:     true,
+	N_STMT_FN:        true,
 	N_STMT_BLOCK:     true,
 	N_STMT_BRK:       true,
 	N_STMT_CONT:      true,
@@ -1085,8 +1087,8 @@ func VisitTsInterfaceBodyAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsDec)
 
-	CallVisitor(N_TS_DEC_TYP_DEC_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_DEC_TYP_DEC_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.Name(), "Name", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1100,11 +1102,11 @@ func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitSuper(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1243,8 +1245,8 @@ func VisitExportSpecAfter(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsPredef(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NULL_BEFORE, node, key, ctx)
-	CallListener(N_TS_NULL_AFTER, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxEmpty(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1428,8 +1430,8 @@ func VisitDoWhileStmtAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.FnDec)
 
-	CallVisitor(N_EXPR_FN_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_FN_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1451,11 +1453,11 @@ func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitFnDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitFnDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitIdent(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1611,8 +1613,8 @@ func VisitAssignExprAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ClassDec)
 
-	CallVisitor(N_EXPR_CLASS_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_CLASS_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1631,11 +1633,11 @@ func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitClassDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitClassDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxSpreadChild(node parser.Node, key string, ctx *VisitorCtx) {
@@ -2463,8 +2465,8 @@ func VisitJsxAttrAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsNewSig)
 
-	CallVisitor(N_TS_NEW_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_NEW_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.TypParams(), "TypParams", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -2483,11 +2485,11 @@ func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsNewSigBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsNewSigAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitForStmt(node parser.Node, key string, ctx *VisitorCtx) {
diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index 15c9000..bf4191b 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -28,6 +28,7 @@ type StructInfo struct {
 	TypName   string
 	PushScope bool
 	Methods   []*MethodInfo
+	Shared    bool // whether the struct is used by more than one node type
 }
 
 func genVisitor(output io.Writer, s *StructInfo) error {
@@ -48,8 +49,8 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
 
       {{ if eq $key 0 }}
-        CallVisitor(N_{{ $.TypName | UnPrefix }}_BEFORE, n, key, ctx)
-        defer CallVisitor(N_{{ $.TypName | UnPrefix }}_AFTER, n, key, ctx)
+        CallVisitor({{ if $.Shared }}NodeBeforeEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_BEFORE{{ end }}, n, key, ctx)
+        defer CallVisitor({{ if $.Shared }}NodeAfterEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_AFTER{{ end }}, n, key, ctx)
       {{- end }}
 
       {{ if ne $value.Name "PUSH_SCOPE" }}
@@ -64,18 +65,18 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
     {{- end }}
   {{- else}}
-    CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
-    CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+    CallListener({{ if $.Shared }}NodeBeforeEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_BEFORE{{ end }}, node, key, ctx)
+    CallListener({{ if $.Shared }}NodeAfterEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_AFTER{{ end }}, node, key, ctx)
   {{- end }}
 }
 
 {{ if ge (len .Methods) 1 }}
 func Visit{{ .Name }}Before(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
+  CallListener({{ if $.Shared }}NodeBeforeEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_BEFORE{{ end }}, node, key, ctx)
 }
 
 func Visit{{ .Name }}After(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+  CallListener({{ if $.Shared }}NodeAfterEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_AFTER{{ end }}, node, key, ctx)
 }
 {{- end}}
   `)
@@ -218,7 +219,7 @@ var NodeTypes = map[parser.NodeType]bool{
 
 var StmtNodeTypes = map[parser.NodeType]bool{
   {{- range $key, $value := .NodeTypStruct }}
-  {{- if StartsWith (index $.StructColl $value).TypName "N_STMT_"  }}
+  {{- if StartsWith $key "N_STMT_"  }}
       N_{{ $key | UnPrefix | ToUpper }}: true,
     {{- end }}
   {{- end }}
@@ -317,7 +318,7 @@ func main() {
 		if ok {
 			return s
 		}
-		structColl[name] = &StructInfo{name, "", false, []*MethodInfo{}}
+		structColl[name] = &StructInfo{name, "", false, []*MethodInfo{}, false}
 		return structColl[name]
 	}
 
@@ -332,6 +333,7 @@ func main() {
 			nodeTypStruct[nodeTyp] = structName
 
 			s := getStruct(structName)
+			s.Shared = s.TypName != ""
 			s.TypName = nodeTyp
 		} else if name, _, ok := macro.IsStructDec(ctx.Node); ok {
 			s := getStruct(name)
-- 
2.43.0


From 0d34c67152a22f263a06b5d0ed2b4056d867c935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 04/37] fix: parse cache runs one parse per key and answers
 every caller

The lookup and the insertion of the pending entry were separate critical
sections, so two concurrent callers could both start a parse. A second call
after completion panicked (the stored value never matched *Parsed) and of
several callers waiting for one pending parse only one got the result.
---
 parseutil/cache.go | 69 +++++++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 28 deletions(-)

diff --git a/parseutil/cache.go b/parseutil/cache.go
index fae7a2c..c8f8b98 100644
--- a/parseutil/cache.go
+++ b/parseutil/cache.go
@@ -18,57 +18,70 @@ type Parser interface {
 	Parse(file, code string, readFile bool, biz interface{}) Parsed
 }
 
+// the state of parsing one key, the callers arrived before the parsing is finished
+// are kept in `waiters`, each of them has its own channel
+type parseEntry struct {
+	done    bool
+	parsed  Parsed
+	waiters []FutureParsed
+}
+
 type ParseCache[T comparable] struct {
 	ps map[ParserType]Parser
 
-	store     map[T]interface{}
+	store     map[T]*parseEntry
 	storeLock sync.Mutex
 }
 
 func NewParseCache[T comparable]() *ParseCache[T] {
 	return &ParseCache[T]{
 		ps:        map[ParserType]Parser{},
-		store:     map[T]interface{}{},
+		store:     map[T]*parseEntry{},
 		storeLock: sync.Mutex{},
 	}
 }
 
 func (c *ParseCache[T]) SetParser(p Parser) {
+	c.storeLock.Lock()
+	defer c.storeLock.Unlock()
+
 	c.ps[p.Type()] = p
 }
 
 func (c *ParseCache[T]) Parse(typ ParserType, key T, file, code string, readFile bool, biz interface{}) FutureParsed {
-	var r interface{}
-	c.storeLock.Lock()
-	r = c.store[key]
-	c.storeLock.Unlock()
-
-	switch v := r.(type) {
-	case FutureParsed: // already has a pending process
-		return v
+	ret := make(FutureParsed, 1)
 
-	case *Parsed: // process has been done before
-		ret := make(FutureParsed, 1)
-		ret <- v
+	c.storeLock.Lock()
+	defer c.storeLock.Unlock()
+
+	entry := c.store[key]
+	if entry != nil {
+		if entry.done { // process has been done before
+			ret <- entry.parsed
+		} else { // already has a pending process
+			entry.waiters = append(entry.waiters, ret)
+		}
 		return ret
+	}
 
-	case nil: // first time
-		ret := make(FutureParsed, 1)
-		c.storeLock.Lock()
-		c.store[key] = ret
-		c.storeLock.Unlock()
+	// first time
+	entry = &parseEntry{waiters: []FutureParsed{ret}}
+	c.store[key] = entry
+	parser := c.ps[typ]
 
-		go func() {
-			r := c.ps[typ].Parse(file, code, readFile, biz)
+	go func() {
+		r := parser.Parse(file, code, readFile, biz)
 
-			c.storeLock.Lock()
-			c.store[key] = r
-			c.storeLock.Unlock()
+		c.storeLock.Lock()
+		defer c.storeLock.Unlock()
 
-			ret <- r
-		}()
+		entry.done = true
+		entry.parsed = r
+		for _, w := range entry.waiters {
+			w <- r
+		}
+		entry.waiters = nil
+	}()
 
-		return ret
-	}
-	panic("unreachable")
+	return ret
 }
-- 
2.43.0


From 9697decfb94e4474b2a76a73698b7ebaa0d8b18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:08 +0000
Subject: [PATCH 05/37] fix: LRU cache evicts entries completely and in
 least-recently-used order

Eviction removed entries from the recency list only, so evicted keys stayed
reachable and the store grew without bound; a capacity below three never
evicted; reads did not count as use; the existence test and the update were
separate critical sections.
---
 util/lru.go | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/util/lru.go b/util/lru.go
index 3ad84ef..9d8e496 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -16,6 +16,9 @@ func NewLruCache[K comparable, V any](cap int, clear int) *LruCache[K, V] {
 	if clear == 0 || clear > cap {
 		clear = cap / 3
 	}
+	if clear < 1 {
+		clear = 1
+	}
 	return &LruCache[K, V]{
 		cap:   cap,
 		store: NewOrderedMap[K, V](),
@@ -33,32 +36,27 @@ func (c *LruCache[K, V]) HasKey(key K) bool {
 }
 
 func (c *LruCache[K, V]) Get(key K) V {
-	c.lock.RLock()
-	defer c.lock.RUnlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
+	if elem, ok := c.store.dict[key]; ok {
+		c.store.list.MoveToBack(elem)
+	}
 	return c.store.Get(key)
 }
 
 func (c *LruCache[K, V]) Set(key K, val V) {
-	if c.HasKey(key) {
-		c.lock.Lock()
-		defer c.lock.Unlock()
-
-		elem := c.store.Set(key, val)
-		c.store.list.MoveToBack(elem)
-		return
-	}
-
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
 	// clear the store if it's full
-	if c.store.list.Len()+1 > c.cap {
+	if !c.store.HasKey(key) && c.store.list.Len()+1 > c.cap {
 		for i := 0; i < c.clear; i++ {
-			elem := c.store.list.Front()
-			if elem != nil {
-				c.store.list.Remove(elem)
+			elem := c.store.Front()
+			if elem == nil {
+				break
 			}
+			c.store.Remove(elem.Value.(*KvPair[K, V]).Key)
 		}
 	}
 	c.store.Set(key, val)
-- 
2.43.0


From f8e96215917e4a971c753f5ba532f77135e3586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:03 +0000
Subject: [PATCH 06/37] fix: directory walker releases all workers and cannot
 block on stop

Only one of the workers received the end signal, a second stop request or a
failing directory read with a single worker blocked the walk forever, and the
job queue's length was read without its lock.
---
 util/walkdir.go | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index b2cc3ff..bae77db 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -56,12 +56,12 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 }
 
 func (w *DirWalker) shift() string {
-	if w.dirs.Len() == 0 {
-		return ""
-	}
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
+	if w.dirs.Len() == 0 {
+		return ""
+	}
 	d := w.dirs.Front()
 	w.dirs.Remove(d)
 	return d.Value.(string)
@@ -86,7 +86,7 @@ loop:
 
 			files, err := os.ReadDir(dir)
 			if err != nil {
-				w.stop <- err
+				w.Stop(err)
 				return
 			}
 
@@ -95,11 +95,19 @@ loop:
 			w.handle(dir, true, w)
 
 			for _, file := range files {
+				if w.finished() {
+					return
+				}
 				pth := filepath.Join(dir, file.Name())
 				if file.IsDir() {
 					w.wg.Add(1)
 					w.push(pth)
-					go func() { w.newJob <- true }()
+					go func() {
+						select {
+						case w.newJob <- true:
+						case <-w.fin:
+						}
+					}()
 				} else {
 					w.handle(pth, false, w)
 				}
@@ -120,8 +128,21 @@ func (w *DirWalker) initWorkers() *DirWalker {
 	return w
 }
 
+// finished reports whether `Walk` has ended
+func (w *DirWalker) finished() bool {
+	select {
+	case <-w.fin:
+		return true
+	default:
+		return false
+	}
+}
+
 func (w *DirWalker) Stop(err error) {
-	w.stop <- err
+	select {
+	case w.stop <- err:
+	case <-w.fin: // the walk has been ended by others
+	}
 }
 
 func (w *DirWalker) Err() error {
@@ -135,7 +156,10 @@ func (w *DirWalker) Walk() {
 
 	go func() {
 		w.wg.Wait()
-		w.wgFin <- true
+		select {
+		case w.wgFin <- true:
+		case <-w.fin:
+		}
 	}()
 
 loop:
@@ -149,5 +173,6 @@ loop:
 		}
 	}
 
-	w.fin <- true
+	// release all the workers
+	close(w.fin)
 }
-- 
2.43.0


From 7382e7f723156223ca3c3c2e0521180f23cf60d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:18 +0000
Subject: [PATCH 07/37] fix: unpacking a tarball cannot write outside of the
 target directory

Entry names were joined to the target unchecked; also each extracted file is
closed when it is written instead of when the whole archive is done.
---
 util/shell.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/util/shell.go b/util/shell.go
index 1e9c711..2cdc69a 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"strings"
 )
 
 func Shell(command string, args ...string) {
@@ -107,6 +108,10 @@ func UnTarGz(tarball, dist string) error {
 		}
 
 		path := filepath.Join(dist, header.Name)
+		// the entries must not escape from `dist`
+		if rel, err := filepath.Rel(dist, path); err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return fmt.Errorf("illegal path in tarball: %s", header.Name)
+		}
 		info := header.FileInfo()
 		if info.IsDir() {
 			if err = os.MkdirAll(path, info.Mode()); err != nil {
@@ -119,9 +124,11 @@ func UnTarGz(tarball, dist string) error {
 		if err != nil {
 			return err
 		}
-		defer file.Close()
 
 		_, err = io.Copy(file, tarReader)
+		if cerr := file.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a428be27de4e9ae95208946439d24bc3db357f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:18 +0000
Subject: [PATCH 08/37] fix: conversion without line/column positions does not
 dereference absent locations

---
 ecma/estree/convert.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 11284d3..cd89719 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -152,10 +152,12 @@ func tplLiteral(tplLoc span.Range, elems []parser.Node, ctx *ConvertCtx) *Templa
 		if elem.Type() != parser.N_LIT_STR {
 			if first || last {
 				lc := locOfRng(tplLoc, ctx.Parser.Source(), ctx)
-				if first {
-					lc.End.Column = lc.Start.Column
-				} else {
-					lc.Start.Column = lc.End.Column
+				if lc != nil {
+					if first {
+						lc.End.Column = lc.Start.Column
+					} else {
+						lc.Start.Column = lc.End.Column
+					}
 				}
 				quasis = append(quasis, &TemplateElement{
 					Type:  "TemplateElement",
@@ -359,7 +361,9 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	firstRng, firstLoc := FirstLoc(s, ctx, starLocList...)
 	rng.Lo = firstRng.Lo
-	loc.Start = firstLoc.Start
+	if loc != nil && firstLoc != nil {
+		loc.Start = firstLoc.Start
+	}
 
 	endLocList := []span.Range{}
 	if ti.TypAnnot() != nil {
@@ -369,14 +373,16 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	endRng, endLoc := LastLoc(s, ctx, endLocList...)
 	rng.Hi = endRng.Hi
-	loc.End = endLoc.End
+	if loc != nil && endLoc != nil {
+		loc.End = endLoc.End
+	}
 
 	return
 }
 
 func TplLocWithTag(n *parser.TplExpr, s *span.Source, ctx *ConvertCtx) *SrcLoc {
 	loc := CalcLoc(n, s, ctx)
-	if n.Tag() != nil {
+	if n.Tag() != nil && loc != nil {
 		tl := CalcLoc(n.Tag(), s, ctx)
 		loc.Start = tl.Start
 		loc.End = tl.End
@@ -426,8 +432,9 @@ func locWithDecorator(node parser.Node, ds []parser.Node, s *span.Source, ctx *C
 		return
 	}
 	d := ds[0]
-	dLoc := locOfNode(d, s, ctx)
-	loc.Start = dLoc.Start
+	if dLoc := locOfNode(d, s, ctx); loc != nil && dLoc != nil {
+		loc.Start = dLoc.Start
+	}
 	rng.Lo = d.Range().Lo
 	return
 }
-- 
2.43.0


From 4416fa0054b10514fae870b181ce0cc0c8390314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:18 +0000
Subject: [PATCH 09/37] fix: the ast command reports parse and write errors

The result of printing was dropped, so a syntax error ended with status 0 and
no message; with -perf the parse error was shadowed and the command crashed.
---
 cli/ast.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/cli/ast.go b/cli/ast.go
index 58250a7..1be7e15 100644
--- a/cli/ast.go
+++ b/cli/ast.go
@@ -37,7 +37,10 @@ func (a *AstInspector) Process(opts *Options) bool {
 	}
 
 	if opts.ast {
-		printJsAst(string(src), opts.file, opts.perf)
+		if _, err = printJsAst(string(src), opts.file, opts.perf); err != nil {
+			fmt.Fprintln(os.Stderr, err)
+			os.Exit(1)
+		}
 	}
 
 	return true
@@ -59,17 +62,16 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	var ast parser.Node
 	var err error
 	if perf {
-		cpuProf, err := os.Create("cpu.prof")
-		if err != nil {
+		var cpuProf, heap *os.File
+		if cpuProf, err = os.Create("cpu.prof"); err != nil {
 			return "", err
 		}
 		defer cpuProf.Close()
 
-		heap, err := os.Create("heap.out")
-		if err != nil {
+		if heap, err = os.Create("heap.out"); err != nil {
 			return "", err
 		}
-		defer cpuProf.Close()
+		defer heap.Close()
 
 		_runtime.StartCPUProfile(cpuProf)
 		ast, err = p.Prog()
@@ -98,7 +100,9 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	output := out.String()
 
 	outFile := assembleOutFile(file, "_ast")
-	ioutil.WriteFile(outFile, out.Bytes(), 0644)
+	if err = ioutil.WriteFile(outFile, out.Bytes(), 0644); err != nil {
+		return "", err
+	}
 	fmt.Printf("Result is also saved in: %s\n", outFile)
 
 	if ok := copyToClipboard(outFile); ok {
-- 
2.43.0


From 687d2c0e786c7045e893a7a0b642633de2614538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:06 +0000
Subject: [PATCH 10/37] fix: ESTree output keeps type parameters of declare
 class/type, optional patterns and generator flags

---
 ecma/estree/convert.go    |  1 +
 ecma/estree/ts_convert.go | 24 ++++++++++++++----------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index cd89719..c962710 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -845,6 +845,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 				End:            int(rng.Hi),
 				Loc:            loc,
 				Properties:     elems(n.Props(), ctx),
+				Optional:       ti.Optional(),
 				TypeAnnotation: typAnnot(ti, ctx),
 			}
 		}
diff --git a/ecma/estree/ts_convert.go b/ecma/estree/ts_convert.go
index e357329..5cb0c33 100644
--- a/ecma/estree/ts_convert.go
+++ b/ecma/estree/ts_convert.go
@@ -237,7 +237,7 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 			Id:             Convert(n.Id(), ctx),
 			Params:         fnParams(n.Params(), ctx),
 			Body:           Convert(n.Body(), ctx),
-			Generator:      false,
+			Generator:      n.Generator(),
 			Async:          n.Async(),
 			TypeParameters: typParams(ti, ctx),
 			ReturnType:     typAnnot(ti, ctx),
@@ -283,15 +283,18 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 		n := node.(*parser.TsDec)
 		cls := n.Inner().(*parser.ClassDec)
 		return &TSClassDeclaration{
-			Type:       "ClassDeclaration",
-			Start:      int(n.Range().Lo),
-			End:        int(cls.Range().Hi),
-			Loc:        locOfNode(n, ctx.Parser.Source(), ctx),
-			Id:         Convert(cls.Id(), ctx),
-			SuperClass: Convert(cls.Super(), ctx),
-			Body:       Convert(cls.Body(), ctx),
-			Declare:    true,
-			Abstract:   cls.Abstract(),
+			Type:                "ClassDeclaration",
+			Start:               int(n.Range().Lo),
+			End:                 int(cls.Range().Hi),
+			Loc:                 locOfNode(n, ctx.Parser.Source(), ctx),
+			Id:                  Convert(cls.Id(), ctx),
+			TypeParameters:      ConvertTsTyp(cls.TypParams(), ctx),
+			SuperClass:          Convert(cls.Super(), ctx),
+			SuperTypeParameters: ConvertTsTyp(cls.SuperTypArgs(), ctx),
+			Implements:          elems(cls.Implements(), ctx),
+			Body:                Convert(cls.Body(), ctx),
+			Declare:             true,
+			Abstract:            cls.Abstract(),
 		}
 	case parser.N_TS_IDX_SIG:
 		n := node.(*parser.TsIdxSig)
@@ -428,6 +431,7 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 			End:            int(n.Range().Hi),
 			Loc:            locOfNode(n, ctx.Parser.Source(), ctx),
 			Id:             Convert(dec.Id(), ctx),
+			TypeParameters: ConvertTsTyp(dec.TypParams(), ctx),
 			TypeAnnotation: typAnnot(dec.TypInfo(), ctx),
 			Declare:        true,
 		}
-- 
2.43.0


From 5898a1d08efc29164125eb542d0694357fd06411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:07 +0000
Subject: [PATCH 11/37] fix: report a second default clause also when case
 clauses lie between

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 259d5c8..3a3a7e3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2093,7 +2093,7 @@ func (p *Parser) switchStmt() (Node, error) {
 			return nil, err
 		}
 		if caseClause != nil {
-			metDefault = caseClause.test == nil
+			metDefault = metDefault || caseClause.test == nil
 			cases = append(cases, caseClause)
 		} else {
 			break
-- 
2.43.0


From 55cce2d8d0d00692a64c31d1f23aed0f99e3e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:08 +0000
Subject: [PATCH 12/37] fix: reject a token that cannot be a JSX child instead
 of looping forever

---
 ecma/parser/jsx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 65b7d82..6986f1d 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -351,7 +351,7 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 				children = append(children, child)
 			} else if av == T_EOF {
 				return nil, p.errorAtLoc(ahead.rng, ERR_UNTERMINATED_JSX_CONTENTS)
-			} else if av == T_ILLEGAL {
+			} else {
 				return nil, p.errorTok(ahead)
 			}
 		}
-- 
2.43.0


From efb7e0088786d5a4be20bb0c532e2ab33f1850f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:08 +0000
Subject: [PATCH 13/37] fix: read past a bad rune in a template instead of
 looping forever

---
 ecma/parser/lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bcd7e56..8836ddd 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -575,6 +575,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 			}
 			text = utf8.AppendRune(text, r)
 		} else if c == utf8.RuneError {
+			l.src.Read()
 			errEscape = ERR_BAD_RUNE
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
-- 
2.43.0


From 28a4300e62917314f1ee4201985f1a22fe90c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:08 +0000
Subject: [PATCH 14/37] fix: decode every entity of a JSX text by its own name
 and keep a bare ampersand

---
 ecma/parser/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 8836ddd..3534c98 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1699,18 +1699,21 @@ func (l *Lexer) readJSXTxt() *Token {
 			i += 1
 			entity = utf8.AppendRune(entity, c)
 			if c == ';' {
-				key := string(entity[0:i])
+				key := string(entity)
 				if ed, ok := HTMLEntities[key]; ok {
 					rs = append(rs, ed.Bytes...)
 				} else {
 					return l.errTokMsg(tok, fmt.Sprintf(ERR_TPL_JSX_UNDEFINED_HTML_ENTITY, key))
 				}
 				i = 0
+				entity = entity[:0]
 			}
 		} else {
 			rs = utf8.AppendRune(rs, l.src.Read())
 		}
 	}
+	// `&` did not begin an entity
+	rs = append(rs, entity...)
 
 	tok.ext = preWs + util.Bytes2str(&rs)
 	return l.finToken(tok, T_JSX_TXT)
-- 
2.43.0


From 34de4723f0c13fc94d2818d9a7a2f096f872f065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:45 +0000
Subject: [PATCH 15/37] fix: division evaluates to the quotient

---
 ecma/exec/vm.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 1e5f63d..2c06b15 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -191,12 +191,7 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_MUL:
 				ee.push(ToNum(lhs) * ToNum(rhs))
 			case parser.T_DIV:
-				r := ToNum(rhs)
-				if r == 0 {
-					ee.push(math.NaN())
-				} else {
-					ee.push(ToNum(lhs) - r)
-				}
+				ee.push(ToNum(lhs) / ToNum(rhs))
 			case parser.T_AND:
 				ee.push(ToBool(lhs) && ToBool(rhs))
 			case parser.T_OR:
-- 
2.43.0


From 4f4ee3088ed59b499de72729785f2f69f51c76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:45 +0000
Subject: [PATCH 16/37] fix: operators that are not evaluated yield no value
 and keep the operand stack in balance

---
 ecma/exec/vm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 2c06b15..913b120 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -196,6 +196,9 @@ func (ee *ExprEvaluator) init() {
 				ee.push(ToBool(lhs) && ToBool(rhs))
 			case parser.T_OR:
 				ee.push(ToBool(lhs) || ToBool(rhs))
+			default:
+				// not supported, keep the stack in balance
+				ee.push(nil)
 			}
 		})
 
@@ -212,7 +215,7 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_NOT:
 				ee.push(!ToBool(arg))
 			default:
-				ee.push(false)
+				ee.push(nil)
 			}
 		})
 
-- 
2.43.0


From 24c77f9c867e9d02ffa8fc9266a9990248790fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:01 +0000
Subject: [PATCH 17/37] fix: && and || evaluate to one of their operands

---
 ecma/exec/vm.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 913b120..285d8ce 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -193,9 +193,17 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_DIV:
 				ee.push(ToNum(lhs) / ToNum(rhs))
 			case parser.T_AND:
-				ee.push(ToBool(lhs) && ToBool(rhs))
+				if ToBool(lhs) {
+					ee.push(rhs)
+				} else {
+					ee.push(lhs)
+				}
 			case parser.T_OR:
-				ee.push(ToBool(lhs) || ToBool(rhs))
+				if ToBool(lhs) {
+					ee.push(lhs)
+				} else {
+					ee.push(rhs)
+				}
 			default:
 				// not supported, keep the stack in balance
 				ee.push(nil)
-- 
2.43.0


From 280846499abd4cae2c84bd1409a8dc603de25d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:35 +0000
Subject: [PATCH 18/37] fix: a branch without a test is selected once

---
 ecma/astutil/astutil.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 8784bdb..3460727 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -186,6 +186,7 @@ func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser
 	for _, b := range bs {
 		if b.test == nil {
 			tbs = append(tbs, b.body)
+			continue
 		}
 		v, err := exec.NewExprEvaluator(b.test, p).Exec(vars).GetResult()
 		if err != nil {
-- 
2.43.0


From fc2e0212593ebcf772b9bacb8bf0ee10865ac741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:31:28 +0000
Subject: [PATCH 19/37] fix: a name imported twice is reported

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3a3a7e3..2df65c8 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -928,7 +928,7 @@ func (p *Parser) importDec() (Node, error) {
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
-			if p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
+			if err := p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 5a1089b287b0787e1f5632b1c2059509cf6b2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:55 +0000
Subject: [PATCH 20/37] fix: the listeners of one walk are not shared with
 other walks

---
 ecma/walk/ctx.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index 9081d82..0fef90c 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -28,7 +28,17 @@ type WalkCtx struct {
 func NewWalkCtx(root parser.Node, symtab *parser.SymTab) *WalkCtx {
 	c := &WalkCtx{}
 	c.Visitors = DefaultVisitors
-	c.Listeners = DefaultListeners
+	// the listeners of a walk are its own, adding to or removing from them does not touch other walks
+	for t, fns := range DefaultListeners {
+		if fns == nil || fns.Front() == nil {
+			continue
+		}
+		c.Listeners[t] = util.NewOrderedMap[string, *Listener]()
+		for elem := fns.Front(); elem != nil; elem = elem.Next() {
+			pair := elem.Value.(*util.KvPair[string, *Listener])
+			c.Listeners[t].Set(pair.Key, pair.Val)
+		}
+	}
 	c.Root = root
 	c.Symtab = symtab
 	c.vc = &VisitorCtx{c, c.vc, []string{}, root}
-- 
2.43.0


From 92ed5b1baba601d89e08338a122a90698e782fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:43 +0000
Subject: [PATCH 21/37] fix: converting an index signature does not write to
 the tree

---
 ecma/estree/ts_convert.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecma/estree/ts_convert.go b/ecma/estree/ts_convert.go
index 5cb0c33..67bb252 100644
--- a/ecma/estree/ts_convert.go
+++ b/ecma/estree/ts_convert.go
@@ -298,14 +298,6 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 		}
 	case parser.N_TS_IDX_SIG:
 		n := node.(*parser.TsIdxSig)
-		if wt, ok := n.Key().(parser.NodeWithTypInfo); ok {
-			ti := wt.TypInfo()
-			if ti == nil {
-				ti = parser.NewTypInfo()
-				wt.SetTypInfo(ti)
-			}
-			ti.SetTypAnnot(n.KeyType())
-		}
 		return &TSIndexSignature{
 			Type:           "TSIndexSignature",
 			Start:          int(n.Range().Lo),
-- 
2.43.0


From cb9d653fef2e24c2a7e9ffddb2bbdb0447ef137e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:57 +0000
Subject: [PATCH 22/37] fix: asking for a property name does not write to the
 tree

---
 ecma/astutil/astutil.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 3460727..e48ed8b 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -8,7 +8,9 @@ import (
 )
 
 func GetStaticPropertyName(node parser.Node) string {
-	node = parser.UnParen(node)
+	if pe, ok := node.(*parser.ParenExpr); ok {
+		node = pe.Expr()
+	}
 	switch node.Type() {
 	case parser.N_EXPR_MEMBER:
 		n := node.(*parser.MemberExpr)
-- 
2.43.0


From 5d2a607e7becee3ed9d7e230ec9475285f780ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:32 +0000
Subject: [PATCH 23/37] fix: a parser does not change the options it is given

---
 ecma/parser/parser.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2df65c8..0351fc4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -117,14 +117,15 @@ func NewParser(src *span.Source, opts *ParserOpts) *Parser {
 }
 
 func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
-	if opts.Feature&FEAT_ASYNC_AWAIT == 0 {
-		opts.Feature = opts.Feature.Off(FEAT_GLOBAL_ASYNC)
+	feat := opts.Feature
+	if feat&FEAT_ASYNC_AWAIT == 0 {
+		feat = feat.Off(FEAT_GLOBAL_ASYNC)
 	}
-	if opts.Feature&FEAT_MODULE != 0 {
-		opts.Feature = opts.Feature.On(FEAT_IMPORT_DEC).On(FEAT_EXPORT_DEC)
+	if feat&FEAT_MODULE != 0 {
+		feat = feat.On(FEAT_IMPORT_DEC).On(FEAT_EXPORT_DEC)
 	}
 
-	p.feat = opts.Feature
+	p.feat = feat
 	p.imp = map[string]*Ident{}
 	p.checkName = true
 	p.danglingPvtRefs = make([]*Ref, 0)
@@ -138,7 +139,7 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 
 	p.lexer = NewLexer(src)
 	p.lexer.ver = opts.Version
-	p.lexer.feat = opts.Feature
+	p.lexer.feat = feat
 	if p.feat&FEAT_TS != 0 || p.feat&FEAT_DTS != 0 {
 		p.lexer.AddMode(LM_TS)
 	}
-- 
2.43.0


From 2b947282f1c9bec2cbce7c9cecb1cbdd80aa43ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:12 +0000
Subject: [PATCH 24/37] fix: a block inside try is not taken for a switch

---
 ecma/parser/symtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 050e26f..4cdeb22 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -536,7 +536,7 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 			scope.Kind |= SPK_SWITCH_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_TRY) || s.Cur.IsKind(SPK_TRY_INDIRECT) {
-			scope.Kind |= SPK_SWITCH_INDIRECT
+			scope.Kind |= SPK_TRY_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_FORMAL_PARAMS) {
 			scope.Kind |= SPK_FORMAL_PARAMS
-- 
2.43.0


From 1c4aae12cb6fe043000e1f784869b5afbcd73cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:46 +0000
Subject: [PATCH 25/37] fix: a label stays in effect after a statement labelled
 within it

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0351fc4..6a2e00a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1967,8 +1967,8 @@ func (p *Parser) labelStmt() (Node, error) {
 
 	node.rng = p.finRng(rng)
 	node.body = body
-	// reset to check next label chain
-	scope.uniqueLabels = make(map[string]Node)
+	// the label is no longer in effect after its statement
+	delete(scope.uniqueLabels, labelName)
 	return node, nil
 }
 
-- 
2.43.0


From 4fa7ab7f36175901e9fdf2212fdca3b76bfc3de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:32 +0000
Subject: [PATCH 26/37] fix: a slash after typeof, void, delete, ... or a
 template span starts a regexp, after null, true, false or a template end it
 divides

---
 ecma/parser/token.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 703feec..a9593fb 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -351,15 +351,15 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_COMMENT, "comment", 0, false, false, false},
 
 	// literals
-	{T_NULL, "null", 0, false, true, true},
-	{T_TRUE, "true", 0, false, true, true},
-	{T_FALSE, "false", 0, false, true, true},
+	{T_NULL, "null", 0, false, false, true},
+	{T_TRUE, "true", 0, false, false, true},
+	{T_FALSE, "false", 0, false, false, true},
 	{T_NUM, "number", 0, false, false, true},
 	{T_STRING, "string", 0, false, false, true},
 
 	{T_TPL_HEAD, "template head", 0, false, true, true},
-	{T_TPL_SPAN, "template span", 0, false, false, false},
-	{T_TPL_TAIL, "template tail", 0, false, true, false},
+	{T_TPL_SPAN, "template span", 0, false, true, false},
+	{T_TPL_TAIL, "template tail", 0, false, false, false},
 
 	{T_NAME, "identifier", 0, false, false, true},
 	{T_NAME_PVT, "private identifier", 0, false, false, false},
@@ -429,7 +429,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_BRACKET_L, "[", 0, false, true, true},
 	{T_BRACKET_R, "]", 0, false, false, false},
 	{T_DOT, ".", 0, false, false, false},
-	{T_DOT_TRI, "...", 0, false, false, false},
+	{T_DOT_TRI, "...", 0, false, true, false},
 	{T_SEMI, ";", 0, false, true, false},
 	{T_COMMA, ",", 0, false, true, false},
 	{T_HOOK, "?", 0, false, true, false},
@@ -478,9 +478,9 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 
 	// unary
 	{T_UNARY_OP_BEGIN, "unary operator being", 0, false, false, false},
-	{T_TYPE_OF, "typeof", 0, true, false, true},
-	{T_VOID, "void", 0, true, false, true},
-	{T_DELETE, "delete", 0, true, false, true},
+	{T_TYPE_OF, "typeof", 0, true, true, true},
+	{T_VOID, "void", 0, true, true, true},
+	{T_DELETE, "delete", 0, true, true, true},
 	{T_NOT, "!", 0, true, true, true},
 	{T_BIT_NOT, "~", 0, true, true, true},
 	{T_UNARY_OP_END, "unary operator end", 0, false, false, false},
-- 
2.43.0


From 954bf433e15fa0debcd716831a5b942b61ad7ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:05 +0000
Subject: [PATCH 27/37] fix: await can start the argument of yield and await

---
 ecma/parser/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index a9593fb..43be95c 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -411,7 +411,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
-	{T_AWAIT, "await", 0, true, false, false},
+	{T_AWAIT, "await", 0, true, false, true},
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
-- 
2.43.0


From 5e8418d8cf4eb3afde014f372783c011e444b8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:23 +0000
Subject: [PATCH 28/37] fix: a slash after a plain template divides

---
 ecma/parser/lexer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 3534c98..bdce394 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -176,6 +176,9 @@ func NewLexer(src *span.Source) *Lexer {
 func (l *Lexer) Next() *Token {
 	tok := l.readTok()
 	l.state.prtVal = tok.value
+	if tok.IsPlainTpl() {
+		l.state.prtVal = T_TPL_TAIL // nothing of the template follows
+	}
 	l.state.prtRng = tok.rng
 	return tok
 }
@@ -455,6 +458,9 @@ func (l *Lexer) advance() *Token {
 	// other prt fields such as `prtRng` will be updated after `Next` is
 	// called
 	l.state.prtVal = tok.value
+	if tok.IsPlainTpl() {
+		l.state.prtVal = T_TPL_TAIL // nothing of the template follows
+	}
 
 	if tok.value == T_EOF {
 		return tok
-- 
2.43.0


From af8531b0dfc40039024fabac54ebce3c55de0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:18 +0000
Subject: [PATCH 29/37] fix: a slash after a property spelled like a keyword
 divides

---
 ecma/parser/lexer.go | 13 ++++---------
 ecma/parser/token.go | 13 +++++++++++++
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bdce394..708edb0 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -175,10 +175,7 @@ func NewLexer(src *span.Source) *Lexer {
 // read a token, named `next` to indicate it will move the cursor
 func (l *Lexer) Next() *Token {
 	tok := l.readTok()
-	l.state.prtVal = tok.value
-	if tok.IsPlainTpl() {
-		l.state.prtVal = T_TPL_TAIL // nothing of the template follows
-	}
+	l.state.prtVal = tok.prtVal()
 	l.state.prtRng = tok.rng
 	return tok
 }
@@ -457,10 +454,7 @@ func (l *Lexer) advance() *Token {
 	// only update `prtVal` for telling whether ahead is regexp or not,
 	// other prt fields such as `prtRng` will be updated after `Next` is
 	// called
-	l.state.prtVal = tok.value
-	if tok.IsPlainTpl() {
-		l.state.prtVal = T_TPL_TAIL // nothing of the template follows
-	}
+	l.state.prtVal = tok.prtVal()
 
 	if tok.value == T_EOF {
 		return tok
@@ -629,7 +623,8 @@ func (l *Lexer) readName(jsx bool) *Token {
 	}
 
 	containsEscape := escapeInStart || escapeInPart
-	tok.ext = &TokExtIdent{containsEscape}
+	prt := l.state.prtVal
+	tok.ext = &TokExtIdent{containsEscape, prt == T_DOT || prt == T_OPT_CHAIN}
 
 	tok.rng.Hi = l.src.Ofst()
 	if containsEscape {
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 43be95c..61eebe8 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -87,6 +87,18 @@ func (t *Token) Kind() *TokenKind {
 	return TokenKinds[t.value]
 }
 
+// the token value which tells whether a slash after the token divides or
+// starts a regexp
+func (t *Token) prtVal() TokenValue {
+	if t.IsPlainTpl() {
+		return T_TPL_TAIL // nothing of the template follows
+	}
+	if ext, ok := t.ext.(*TokExtIdent); ok && ext.AfterDot && t.IsKw() {
+		return T_NAME
+	}
+	return t.value
+}
+
 func (t *Token) IsPlainTpl() bool {
 	if t.value != T_TPL_HEAD {
 		return false
@@ -125,6 +137,7 @@ type TokExtStr struct {
 
 type TokExtIdent struct {
 	ContainsEscape bool
+	AfterDot       bool // a property name, even if it's spelled like a keyword
 }
 
 type IllegalEscapeInfo struct {
-- 
2.43.0


From f3e44cc19cfabcadf1fe4ac9266bc53ee956a7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:41 +0000
Subject: [PATCH 30/37] fix: JSX element and attribute names can be spelled
 like keywords

---
 ecma/parser/lexer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 708edb0..ac38e1a 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -633,6 +633,11 @@ func (l *Lexer) readName(jsx bool) *Token {
 		tok.text = TokText(tok, l.src)
 	}
 
+	// the name of an element or an attribute can be any identifier name
+	if jsx {
+		return l.finToken(tok, T_NAME)
+	}
+
 	text := tok.text
 	if IsKeyword(text) {
 		if containsEscape {
-- 
2.43.0


From 86051eef162c028ae26e7dac7fdc3e60eefcab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:04 +0000
Subject: [PATCH 31/37] fix: hyphenated element names are accepted in TSX

---
 ecma/parser/ts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 9bb658d..448351c 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1790,7 +1790,7 @@ func (p *Parser) tsTypArgs(canConst bool, noJsx bool) (Node, error) {
 				return nil, err
 			}
 			arg = &TsParam{N_TS_PARAM, p.finRng(id.Range()), id, cons, nil}
-		} else if !noJsx && jsx && (av == T_NAME || ahead.IsKw() || av == T_DIV || av == T_BRACE_L || (av == T_GT && nameLike && len(args) == 0)) {
+		} else if !noJsx && jsx && (av == T_NAME || ahead.IsKw() || av == T_DIV || av == T_SUB || av == T_BRACE_L || (av == T_GT && nameLike && len(args) == 0)) {
 			return nil, errTypArgMaybeJsx
 		}
 
-- 
2.43.0


From d06509611e60cddd9705e3fd81169ce0a3977705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:09 +0000
Subject: [PATCH 32/37] fix: in is a reserved word

---
 ecma/parser/parser.go | 4 ++--
 ecma/parser/token.go  | 7 ++++---
 ecma/parser/ts.go     | 4 ++--
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 6a2e00a..6768865 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2330,7 +2330,7 @@ func (p *Parser) forStmt() (Node, error) {
 	scope.EraseKind(SPK_NOT_IN)
 
 	tok = p.lexer.Peek()
-	isIn := IsName(tok, "in", false)
+	isIn := tok.value == T_IN
 	isOf := IsName(tok, "of", false)
 
 	if await && !isOf {
@@ -2502,7 +2502,7 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 			return true
 		}
 		if ahead.value == T_NAME {
-			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
+			if p.scope().IsKind(SPK_NOT_IN) && IsName(ahead, "of", false) {
 				return false
 			}
 			return true
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 61eebe8..0d986b8 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -63,12 +63,12 @@ func (t *Token) IsLegal() bool {
 }
 
 func (t *Token) IsBin(notIn bool, ts bool) TokenValue {
+	if notIn && t.value == T_IN {
+		return T_ILLEGAL
+	}
 	if t.value > T_BIN_OP_BEGIN && t.value < T_BIN_OP_END {
 		return t.value
 	}
-	if !notIn && IsName(t, "in", false) {
-		return T_IN
-	}
 	if ts && IsName(t, "as", false) {
 		return T_TS_AS
 	}
@@ -546,6 +546,7 @@ func init() {
 	Keywords[TokenKinds[T_TYPE_OF].Name] = T_TYPE_OF
 	Keywords[TokenKinds[T_DELETE].Name] = T_DELETE
 	Keywords[TokenKinds[T_INSTANCE_OF].Name] = T_INSTANCE_OF
+	Keywords[TokenKinds[T_IN].Name] = T_IN
 
 	for i := T_CTX_KEYWORD_BEGIN + 1; i < T_CTX_KEYWORD_END; i++ {
 		CtxKeywords[TokenKinds[i].Name] = i
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 448351c..378bebc 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1529,7 +1529,7 @@ func (p *Parser) tsTypParam(id Node, ext, in bool) (Node, error) {
 				return nil, err
 			}
 		}
-	} else if in && av == T_NAME && ahead.text == "in" && !ahead.ContainsEscape() {
+	} else if in && av == T_IN {
 		p.lexer.Next()
 		cons, err = p.tsTyp(false, false, true)
 		if err != nil {
@@ -2440,7 +2440,7 @@ func (p *Parser) tsAheadIsAbstract(tok *Token, prop bool, pvt bool, new bool) (b
 			return true, false, false
 		}
 		if av == T_NAME {
-			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
+			if p.scope().IsKind(SPK_NOT_IN) && IsName(ahead, "of", false) {
 				return false, false, false
 			}
 			return true, false, false
-- 
2.43.0


From 71dad5bed71d78c638a9009b84c451cebe773048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:23 +0000
Subject: [PATCH 33/37] fix: keep the decorators of ambient classes in the
 ESTree output

---
 ecma/estree/ts_convert.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/estree/ts_convert.go b/ecma/estree/ts_convert.go
index 67bb252..353fc5e 100644
--- a/ecma/estree/ts_convert.go
+++ b/ecma/estree/ts_convert.go
@@ -295,6 +295,7 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 			Body:                Convert(cls.Body(), ctx),
 			Declare:             true,
 			Abstract:            cls.Abstract(),
+			Decorators:          elems(parser.DecoratorsOf(cls), ctx),
 		}
 	case parser.N_TS_IDX_SIG:
 		n := node.(*parser.TsIdxSig)
-- 
2.43.0


From 857b328d89fe5b2a7c218c25ff7cae204b24355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:02 +0000
Subject: [PATCH 34/37] fix: accept default types without constraint and
 trailing commas in type parameter lists

---
 ecma/parser/ts.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 378bebc..64b4a42 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1522,13 +1522,6 @@ func (p *Parser) tsTypParam(id Node, ext, in bool) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		if p.lexer.Peek().value == T_ASSIGN {
-			p.lexer.Next()
-			val, err = p.tsTyp(false, false, false)
-			if err != nil {
-				return nil, err
-			}
-		}
 	} else if in && av == T_IN {
 		p.lexer.Next()
 		cons, err = p.tsTyp(false, false, true)
@@ -1536,6 +1529,14 @@ func (p *Parser) tsTypParam(id Node, ext, in bool) (Node, error) {
 			return nil, err
 		}
 	}
+	// the default type does not require the constraint
+	if ext && p.lexer.Peek().value == T_ASSIGN {
+		p.lexer.Next()
+		val, err = p.tsTyp(false, false, false)
+		if err != nil {
+			return nil, err
+		}
+	}
 	return &TsParam{N_TS_PARAM, p.finRng(id.Range()), id, cons, val}, nil
 }
 
@@ -1557,6 +1558,12 @@ func (p *Parser) tsTypParams() (Node, error) {
 			break
 		} else if av == T_COMMA {
 			p.lexer.Next()
+			// the list can be ended with a comma
+			if len(ps) > 0 && p.lexer.Peek().value == T_GT {
+				continue
+			}
+		} else if len(ps) > 0 {
+			return nil, p.errorTok(ahead)
 		}
 
 		pa, err := p.tsTypParam(nil, true, false)
-- 
2.43.0


From 3122d75f6d0de260ba30e8f1d0170ca5b9b3a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:23 +0000
Subject: [PATCH 35/37] fix: require the comma between import specifiers

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 6768865..53d145f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1027,6 +1027,8 @@ func (p *Parser) importNamed(typ bool) ([]Node, error) {
 		specs = append(specs, spec)
 		if p.lexer.Peek().value == T_COMMA {
 			p.lexer.Next()
+		} else {
+			break
 		}
 	}
 
-- 
2.43.0


From 4caf81b2254fd6e6eac205146e7e417160d255cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:31 +0000
Subject: [PATCH 36/37] fix: accept more than one type in the implements clause

---
 ecma/parser/ts.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 64b4a42..9747662 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -2531,6 +2531,11 @@ func (p *Parser) tsImplements() ([]Node, error) {
 		if av == T_BRACE_L {
 			break
 		}
+		if len(impl) > 0 {
+			if _, err := p.nextMustTok(T_COMMA); err != nil {
+				return nil, err
+			}
+		}
 		typ, err := p.tsTyp(false, false, false)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 232944c3a70a437eafa6a975d27cc8748d2c857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:28 +0000
Subject: [PATCH 37/37] fix: require the comma between enum members, tuple
 elements and extended interfaces

---
 ecma/parser/ts.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 9747662..ea84d23 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -805,8 +805,11 @@ func (p *Parser) tsTuple(rough bool) (Node, error) {
 			}
 		}
 		args = append(args, arg)
-		if p.lexer.Peek().value == T_COMMA {
+		ahead = p.lexer.Peek()
+		if ahead.value == T_COMMA {
 			p.lexer.Next()
+		} else if ahead.value != T_BRACKET_R {
+			return nil, p.errorTok(ahead)
 		}
 		if named {
 			for _, mb := range args {
@@ -1975,6 +1978,8 @@ func (p *Parser) tsItfExtClause() ([]Node, error) {
 			break
 		} else if av == T_COMMA {
 			p.lexer.Next()
+		} else {
+			return nil, p.errorTok(ahead)
 		}
 	}
 	return ns, nil
@@ -2045,8 +2050,11 @@ func (p *Parser) tsEnumBody() ([]Node, error) {
 			}
 		}
 		mems = append(mems, &TsEnumMember{N_TS_ENUM_MEMBER, p.finRng(name.Range()), name, val})
-		if p.lexer.Peek().value == T_COMMA {
+		ahead = p.lexer.Peek()
+		if ahead.value == T_COMMA {
 			p.lexer.Next()
+		} else if ahead.value != T_BRACE_R {
+			return nil, p.errorTok(ahead)
 		}
 	}
 	return mems, nil
-- 
2.43.0

