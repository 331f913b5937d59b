From cf1bd674b572447ba88831b1652b4d2db1f86058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:46 +0000
Subject: [PATCH 01/22] fix: pattern must not match its value more than max
 times

---
 parser_pattern.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..a086947 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -87,6 +87,12 @@ func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
 		pos := ctx.Code.Pos()
+		if patt.max == 0 {
+			if patt.min > 0 {
+				return nil
+			}
+			return NewNativeArray([]Ast{})
+		}
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
 			ctx.Code.SetPos(pos)
@@ -96,7 +102,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -113,9 +119,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From eb893c37badae33b513bc0debece16485d7430f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 02/22] fix: unbounded pattern must terminate when its value
 matches the empty string

---
 parser_pattern.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index a086947..25a4dbd 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -118,6 +118,11 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			// without a max, stop when an iteration consumes nothing: it would
+			// otherwise repeat forever
+			if patt.max < 0 && len(matches) >= patt.min && ctx.Code.Pos() == pos2 {
+				break
+			}
 			matches = append(matches, resValue)
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
-- 
2.43.0


From 30f2fb61345670cc39230d1974ca2f91729fcca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:39 +0000
Subject: [PATCH 03/22] fix: a label inside an existential must not panic or
 surface as the key '@'

---
 parser_existential.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/parser_existential.go b/parser_existential.go
index 5d48812..75d65f9 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -16,6 +16,14 @@ func newExistential(it Ast) *existential {
 }
 
 func (ex *existential) handlesChildLabel() bool {
+	if lbl := ex.it.getRule().label; lbl != "" && lbl != "@" && lbl != "&" {
+		// (x:A)? produces the map {x:A}, which prepare() has merged with "@"
+		return false
+	}
+	return ex.parentHandlesChildLabel()
+}
+
+func (ex *existential) parentHandlesChildLabel() bool {
 	if ex.rule.parent != nil {
 		return ex.rule.parent.handlesChildLabel()
 	} else {
@@ -28,7 +36,7 @@ func (ex *existential) getRule() *rule { return ex.rule }
 func (ex *existential) prepare() {
 	lbls := ex.calculateLabels()
 	ex.labels_.Set(lbls)
-	if len(lbls) > 0 && ex.label == "" {
+	if len(lbls) > 0 && ex.label == "" && ex.parentHandlesChildLabel() {
 		ex.label = "@"
 	}
 	caps := ex.it.getRule().captures_.Get()
-- 
2.43.0


From 849c94dbe7a799cb86b81aa4047fccd5a9158881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 04/22] fix: NativeMap.IsEmpty returned the opposite

---
 native_map.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/native_map.go b/native_map.go
index 2517506..c4a58bc 100644
--- a/native_map.go
+++ b/native_map.go
@@ -75,10 +75,7 @@ func (nm *NativeMap) Keys() []string {
 }
 
 func (nm *NativeMap) IsEmpty() bool {
-	for range nm.vals {
-		return true
-	}
-	return false
+	return len(nm.vals) == 0
 }
 
 func (nm *NativeMap) GetExists(k string) (Ast, bool) {
-- 
2.43.0


From 1ca7699b1778d2987d0a68ae3fd8ef4d4b1cd994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 05/22] fix: TokenStream coordinates in the last token were
 relative to the previous one

---
 codestream_token.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..7776035 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -305,16 +305,16 @@ func (code *TokenStream) coords(workOffset int) coord {
 	// find most advanced token number, such that the following token would begin
 	// after workOffset.
 	nToken := 0
-	var token Token
+	token := code.tokens[nToken]
 	for {
 		if nToken >= len(code.tokens)-1 {
 			break // don't panic, it can make sense when a token was inserted
 		}
-		token = code.tokens[nToken]
 		if workOffset < token.WorkOffset+len(token.Repr) {
 			break
 		}
 		nToken++
+		token = code.tokens[nToken]
 	}
 	if nToken >= len(code.tokens) {
 		panic(fmt.Sprintf("nToken=%d goes beyond len(code.tokens)=%d\n"+
-- 
2.43.0


From 3b2c22456e54602066246ba0d4e56202419986b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:47 +0000
Subject: [PATCH 06/22] fix: PeekLines must not panic beyond the text, and
 peeks the current line by default

---
 codestream_rune.go  | 7 +++++--
 codestream_token.go | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index fba68a4..2588e0c 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -91,8 +91,8 @@ func (code *RuneStream) PeekRunes(n int) string {
 // In that case, it will peek from the minimum to the maximum of the series.
 // When only 1 value is given, a second value of 0 is implied to create a range.
 func (code *RuneStream) PeekLines(n ...int) string {
-	if len(n) <= 0 {
-		return ""
+	if len(n) == 0 {
+		n = []int{0}
 	} else if len(n) == 1 {
 		n = []int{n[0], 0} // implied 0
 	}
@@ -106,6 +106,9 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+		return "" // no such line
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
diff --git a/codestream_token.go b/codestream_token.go
index 7776035..ec27db9 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -181,6 +181,9 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+		return "" // no such line
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-- 
2.43.0


From 0e9c121f50b020408e9852b9baa417a95600d465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 07/22] fix: LastNRunes must not panic on U+FFFD or on invalid
 UTF-8

---
 helpers/helpers.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..37aac51 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -135,7 +135,7 @@ func BoolToString(b bool) string {
 
 // take last `nTake` runes from `abc`, in natural order. ("abc", 2) -> "bc"
 // When nTake is more than the number of available runes, return all of them.
-// If RuneError at some point, panic.
+// An invalid byte counts as one rune.
 func LastNRunes(abc string, nTake int) string {
 	totalSize := 0 // size in bytes
 	slice := abc
@@ -143,10 +143,7 @@ func LastNRunes(abc string, nTake int) string {
 		if len(slice) == 0 {
 			break
 		}
-		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
-			panic(fmt.Sprintf("RuneError: %q\n", c))
-		}
+		_, csize := utf8.DecodeLastRuneInString(slice)
 		totalSize += csize // csize is char len in bytes for rune c
 		slice = slice[:len(slice)-csize]
 		nTake--
-- 
2.43.0


From a64424d17842324fa610b26345d4fab4c7cf00cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:07 +0000
Subject: [PATCH 08/22] fix: nesting deeper than 1024 rules must not panic

---
 parsectx.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index fa204ad..50091bb 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame // grows as needed
 	stackLength int
 	loopStack   []string
 }
@@ -86,7 +86,12 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	frame := ctx.getFrame(x)
+	if ctx.stackLength < len(ctx.stack) {
+		ctx.stack[ctx.stackLength] = frame
+	} else {
+		ctx.stack = append(ctx.stack, frame)
+	}
 	ctx.stackLength++
 }
 func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
-- 
2.43.0


From 04a08d4f5fb5dad9a85d9607cbed4cb5e0d26d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:09 +0000
Subject: [PATCH 09/22] fix: tracing a SkipCache rule which fails must not
 panic

---
 packrat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..00d809d 100644
--- a/packrat.go
+++ b/packrat.go
@@ -89,7 +89,9 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		}
 		if x.getRule().skipCache {
 			result := fparse(ctx)
-			if showLog {
+			if showLog && result == nil {
+				ctx.log(Cyan("`->:")+" nil", opts)
+			} else if showLog {
 				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
-- 
2.43.0


From b200d64b1417359f0dea67573b4c58dace8bcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 10/22] fix: a callback panic during a Debug parse must not
 leave stack tracing on

---
 grammar.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..730cc56 100644
--- a/grammar.go
+++ b/grammar.go
@@ -111,13 +111,13 @@ func (gm *Grammar) parse(ctx *ParseContext) Ast {
 	if ctx.parseOptions.debug {
 		// temporarily enable stack tracing
 		gm.TraceOptions.Stack = true
+		// undo temporary stack tracing, even if a rule callback panics
+		defer func() { gm.TraceOptions.Stack = oldTrace }()
 	}
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
 	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From 4fa1c8e79ce66d8202e528b4ca2eb77657d50023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:30 +0000
Subject: [PATCH 11/22] fix: GetUntil must return "" without moving when its
 argument is unfound, as documented by CodeStream

---
 codestream_rune.go  | 8 ++++----
 codestream_token.go | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index 2588e0c..0eff73c 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -54,14 +54,14 @@ func (code *RuneStream) workLength() int { return len(code.text) }
 
 // Get until the string `end` is encountered.
 // Change code.pos accordingly, including the `end`.
+// When unfound, return "" and don't change code.pos.
 func (code *RuneStream) GetUntil(end string) string {
 	offset := strings.Index(code.text[code.pos:], end)
 	if offset == -1 {
-		offset = len(code.text)
-	} else {
-		offset += code.pos // because we searched from this pos
-		offset += len(end) // what we're after is length in bytes
+		return ""
 	}
+	offset += code.pos // because we searched from this pos
+	offset += len(end) // what we're after is length in bytes
 	oldpos := code.pos
 	code.pos = offset
 	return code.text[oldpos:offset]
diff --git a/codestream_token.go b/codestream_token.go
index ec27db9..9332a7a 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -128,14 +128,14 @@ func (code *TokenStream) workLength() int { return len(code.work) }
 
 // Get the string from current position until the start of string `needle` is found.
 // Update current position accordingly (**after** `needle` if found).
+// When unfound, return "" and don't update the position.
 func (code *TokenStream) GetUntil(needle string) string {
 	offset := strings.Index(code.work[code.workOffset:], needle)
 	if offset == -1 {
-		offset = len(code.work)
-	} else {
-		offset += code.workOffset // because we searched from this pos
-		offset += len(needle)     // what we're after is the length in bytes
+		return ""
 	}
+	offset += code.workOffset // because we searched from this pos
+	offset += len(needle)     // what we're after is the length in bytes
 	oldWorkOffset := code.workOffset
 	code.workOffset = offset
 	return code.work[oldWorkOffset:offset]
-- 
2.43.0


From d7d982a9e3eb2f8dd12166b47b67c2e86d1d0ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:32 +0000
Subject: [PATCH 12/22] fix: TokenStreamFromGoCode must report lexical errors,
 and only those of its own source

---
 codestream_token.go | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 9332a7a..8e25aae 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -334,27 +334,18 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
 func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
+	var scanErrors []error
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
+	}
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
 	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
-	}
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -394,6 +385,10 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	// errors are only known once everything was scanned
+	if len(scanErrors) > 0 {
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From 49eb61de8427d63239a8bebd49c168c919de227e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:12 +0000
Subject: [PATCH 13/22] fix: merging labels with @ or & must not alter a cached
 result

---
 parser_sequence.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..5f932c1 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -161,12 +161,14 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 		label := child.getRule().label
 		switch label {
 		case "&":
+			res = unshared(res)
 			if IsUndefined(results) {
 				results = res
 			} else {
 				results = merge(res, results)
 			}
 		case "@":
+			res = unshared(res)
 			if IsUndefined(results) {
 				results = res
 			} else {
@@ -204,6 +206,20 @@ func (seq *sequence) forEachChild(f func(Parser) Parser) Parser {
 	return seq
 }
 
+// A map a child produced may also be in the packrat cache: it must be copied
+// before it gets extended.
+func unshared(ast Ast) Ast {
+	if nm, isMap := ast.(*NativeMap); isMap {
+		clone := NewEmptyNativeMap()
+		clone.SetOrigin(nm.GetOrigin())
+		for _, k := range nm.Keys() {
+			clone.Set(k, nm.GetOrPanic(k))
+		}
+		return clone
+	}
+	return ast
+}
+
 // Port of lib/helpers.js:extend() in a less general way (Ast-specific)
 // Extend a source object with the properties of a newcomer object (shallow copy).
 // The modified `toExtend` object is returned.
-- 
2.43.0


From 4dd083fba8536cae6bd0b60560b43c8c9ad4b083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 14/22] fix: as a left-recursive rule grows, wipe all the rules
 derived from it

Rules which used the cached result of a rule to be wiped, or which a wiped
rule had marked itself, kept the result they had before the rule grew.
---
 packrat.go  | 14 +++++++++++++-
 parsectx.go | 16 ++++++++++++++++
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 00d809d..d472677 100644
--- a/packrat.go
+++ b/packrat.go
@@ -34,6 +34,16 @@ func (fr *frame) cacheSet(result Ast, endpos int) {
 	}
 }
 
+// involve marks f to be wiped as fr grows, together with what f has marked.
+func (fr *frame) involve(f *frame) {
+	fr.wipemask[f.id] = true
+	for id, marked := range f.wipemask {
+		if marked && id != fr.id {
+			fr.wipemask[id] = true
+		}
+	}
+}
+
 func newFrame(pos int, id int) *frame {
 	return &frame{
 		result:    nil,
@@ -116,6 +126,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 						ctx.log(Cyan("`-hit:")+" nil", opts)
 					}
 				}
+				ctx.markDependents(x)
 				ctx.Code.SetPos(frame.endpos)
 				return frame.result
 			}
@@ -240,8 +251,9 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 				if i_frame.pos < startPos || i_frame.id == x.getRule().id {
 					break
 				}
-				frame.wipemask[i_frame.id] = true
+				frame.involve(i_frame)
 			}
+			ctx.markDependents(x)
 			// Step 2: Return whatever was cacheSet.
 			if frame.endpos >= 0 {
 				ctx.Code.SetPos(frame.endpos)
diff --git a/parsectx.go b/parsectx.go
index 50091bb..c23d4d2 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -139,6 +139,22 @@ func (ctx *ParseContext) wipeWith(frame_ *frame, makeStash bool) stash {
 	}
 }
 
+// markDependents is called when the cached result of x is used. When x is to
+// be wiped as a left-recursive rule grows at this position, so are the rules
+// which are about to be derived from that result.
+func (ctx *ParseContext) markDependents(x Parser) {
+	id, pos := x.getRule().id, ctx.Code.Pos()
+	for i := ctx.stackLength - 2; i >= 0 && ctx.stack[i].pos == pos; i-- {
+		growing := ctx.stack[i]
+		if growing.loopstage < 2 || growing.wipemask == nil || !growing.wipemask[id] {
+			continue
+		}
+		for j := i + 1; j < ctx.stackLength-1; j++ {
+			growing.involve(ctx.stack[j])
+		}
+	}
+}
+
 func (ctx *ParseContext) restoreWith(stash_ stash) {
 	for i, frame := range stash_ {
 		if frame != nil {
-- 
2.43.0


From b4bc0b2d54bf93486cd29c49fd730b51abe8ff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 15/22] fix: TRACE=loop with line=N panicked when a
 left-recursive rule grew on another line

---
 packrat.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packrat.go b/packrat.go
index d472677..3aed0d5 100644
--- a/packrat.go
+++ b/packrat.go
@@ -159,7 +159,8 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
-					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
+					traceLoop := opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine)
+					if traceLoop {
 						ctx.loopStackPush(x.getRule().name)
 						// if false {
 						//  line := ctx.Code.Line()
@@ -210,7 +211,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if traceLoop {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From e2a54a657d2e0ad59cf944aae35ac0f95abc7475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 16/22] fix: &:e must not panic where an optional e is absent

---
 parser_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 5f932c1..c7a2cdc 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -164,7 +164,7 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 			res = unshared(res)
 			if IsUndefined(results) {
 				results = res
-			} else {
+			} else if !IsUndefined(res) {
 				results = merge(res, results)
 			}
 		case "@":
-- 
2.43.0


From 61512f5a971cf0ce87e03f5692b1f10af30cb9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:34 +0000
Subject: [PATCH 17/22] fix: in a sequence without other labels, @:R? and &:R?
 must merge as @:R does

---
 parser_existential.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser_existential.go b/parser_existential.go
index 75d65f9..b16a21e 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -48,9 +48,13 @@ func (ex *existential) calculateLabels() []string {
 	lbl := ex.label
 	if lbl != "" && lbl != "@" && lbl != "&" {
 		return []string{lbl}
-	} else {
-		return ex.it.getRule().labels_.Get()
 	}
+	lbls := ex.it.getRule().labels_.Get()
+	if lbl != "" && len(lbls) == 0 {
+		// @:R? or &:R? merge the labels of whatever R produces
+		return []string{lbl}
+	}
+	return lbls
 }
 
 func (ex *existential) String() string {
-- 
2.43.0


From bb1c0968026542568fd828f5d2bf72de34f4ee9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 18/22] fix: a cached result must have the origin of the rule
 it is reused for

---
 packrat.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/packrat.go b/packrat.go
index 3aed0d5..9c7f1a3 100644
--- a/packrat.go
+++ b/packrat.go
@@ -128,6 +128,11 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 				}
 				ctx.markDependents(x)
 				ctx.Code.SetPos(frame.endpos)
+				if frame.result != nil {
+					// a rule that passed this result on as its own may have
+					// set another origin since
+					setOrigin(frame.result, ctx, startPos, x)
+				}
 				return frame.result
 			}
 			frame.loopstage = 1
@@ -292,18 +297,23 @@ func prepareResult(fparse2 parseFunc2, caller Parser) parseFunc {
 			// This only is for debugging.
 			// TODO double check original coffee implementation,
 			//      not sure if entirely correct.
-			result.SetOrigin(Origin{
-				Code:     ctx.Code.Code(),
-				Start:    ctx.stackPeek(0).pos,
-				End:      ctx.Code.Pos(),
-				Line:     ctx.Code.Line(),
-				RuleName: caller.getRule().parser.getRule().name,
-			})
+			setOrigin(result, ctx, ctx.stackPeek(0).pos, caller)
 		}
 		return result
 	}
 }
 
+// the result spans from start to the current position
+func setOrigin(result Ast, ctx *ParseContext, start int, caller Parser) {
+	result.SetOrigin(Origin{
+		Code:     ctx.Code.Code(),
+		Start:    start,
+		End:      ctx.Code.Pos(),
+		Line:     ctx.Code.Line(),
+		RuleName: caller.getRule().parser.getRule().name,
+	})
+}
+
 func wrap(fparse2 parseFunc2, node Parser) parseFunc {
 	// wrapped1 := stack(loopify(prepareResult(fparse2, node), node), node)
 	// wrapped2 := prepareResult(fparse2, node)
-- 
2.43.0


From 26061ccb0c04bb27157afd8dac16d24d4cb89200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 19/22] fix: a lookahead must return undefined where it
 matches, as documented

---
 parser_lookahead.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser_lookahead.go b/parser_lookahead.go
index 8c9bcf8..2cddf6c 100644
--- a/parser_lookahead.go
+++ b/parser_lookahead.go
@@ -36,7 +36,10 @@ func (look *lookahead) parse(ctx *ParseContext) Ast {
 		pos := ctx.Code.Pos()
 		result := look.expr.parse(ctx) // check whether it parses...
 		ctx.Code.SetPos(pos)           // ...but revert to prev pos if so
-		return result
+		if result == nil {
+			return nil
+		}
+		return NewNativeUndefined()
 	}, look)(ctx)
 }
 
-- 
2.43.0


From 1302741adb3a614d0f287a55039263108c827fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 20/22] fix: peeking with arguments near the limits of int must
 not overflow

---
 codestream_rune.go  | 12 +++++++-----
 codestream_token.go | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index 0eff73c..1fcaed9 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -70,7 +70,7 @@ func (code *RuneStream) GetUntil(end string) string {
 // take a look n runes before or after, don't update position
 func (code *RuneStream) PeekRunes(n int) string {
 	if n <= 0 {
-		return helpers.LastNRunes(code.text[:code.pos], -n)
+		return helpers.LastNRunes(code.text[:code.pos], -helpers.Max(n, -code.pos))
 	} else {
 		var b strings.Builder
 		i := 0
@@ -106,13 +106,15 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
-	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+	line := code.Line()
+	lastLine := len(code.lineStarts) - 1
+	if min > lastLine-line || max < -line {
 		return "" // no such line
 	}
-	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
+	start := code.lineStarts[line+helpers.Max(min, -line)]
 	var end int
-	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-	if endLine < len(code.lineStarts)-1 {
+	endLine := line + helpers.Min(max, lastLine-line)
+	if endLine < lastLine {
 		end = code.lineStarts[endLine+1] - 1
 	} else {
 		end = len(code.text)
diff --git a/codestream_token.go b/codestream_token.go
index 8e25aae..a35a819 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -146,7 +146,7 @@ func (code *TokenStream) GetUntil(needle string) string {
 // don't update position
 func (code *TokenStream) PeekRunes(n int) string {
 	if n <= 0 {
-		return helpers.LastNRunes(code.work[:code.workOffset], -n)
+		return helpers.LastNRunes(code.work[:code.workOffset], -helpers.Max(n, -code.workOffset))
 	} else {
 		var b strings.Builder
 		i := 0
@@ -181,13 +181,15 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
-	if code.Line()+min >= len(code.lineStarts) || code.Line()+max < 0 {
+	line := code.Line()
+	lastLine := len(code.lineStarts) - 1
+	if min > lastLine-line || max < -line {
 		return "" // no such line
 	}
-	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
+	start := code.lineStarts[line+helpers.Max(min, -line)]
 	var end int
-	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-	if endLine < len(code.lineStarts)-1 {
+	endLine := line + helpers.Min(max, lastLine-line)
+	if endLine < lastLine {
 		end = code.lineStarts[endLine+1] - 1
 	} else {
 		end = len(code.original)
-- 
2.43.0


From 534247c28a4bd908aead1ad8e0ad2f630909f91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 21/22] fix: keep the rule name of an origin

---
 attr.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/attr.go b/attr.go
index dbea2b7..8d778ed 100644
--- a/attr.go
+++ b/attr.go
@@ -7,10 +7,11 @@ package joeson
 // - Embed an `*Attr` field,
 // - Have a `String() string` method.
 type Attr struct {
-	Code  string
-	Start int
-	End   int
-	Line  int
+	Code     string
+	Start    int
+	End      int
+	Line     int
+	RuleName string
 }
 
 func NewAttr() *Attr {
@@ -37,14 +38,16 @@ func (attr *Attr) SetOrigin(o Origin) {
 	attr.Start = o.Start
 	attr.End = o.End
 	attr.Line = o.Line
+	attr.RuleName = o.RuleName
 }
 
 func (attr *Attr) GetOrigin() Origin {
 	return Origin{
-		Code:  attr.Code,
-		Line:  attr.Line,
-		Start: attr.Start,
-		End:   attr.End,
+		Code:     attr.Code,
+		Line:     attr.Line,
+		Start:    attr.Start,
+		End:      attr.End,
+		RuleName: attr.RuleName,
 	}
 }
 
-- 
2.43.0


From 86d40019f1f0154e35c2cf6d13df77054ba334c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:56 +0000
Subject: [PATCH 22/22] fix: escape quotes when a literal is printed

---
 parser_str.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_str.go b/parser_str.go
index add6ccc..c5174b3 100644
--- a/parser_str.go
+++ b/parser_str.go
@@ -1,6 +1,8 @@
 package joeson
 
 import (
+	"strings"
+
 	"github.com/grepsuzette/joeson/helpers"
 )
 
@@ -28,7 +30,7 @@ func (s str) getRule() *rule          { return s.rule }
 func (s str) prepare()                {}
 func (s str) handlesChildLabel() bool { return false }
 func (s str) String() string {
-	return Green("'" + helpers.Escape(s.Str) + "'")
+	return Green("'" + strings.ReplaceAll(helpers.Escape(s.Str), "'", "\\'") + "'")
 }
 
 func (s str) parse(ctx *ParseContext) Ast {
-- 
2.43.0

