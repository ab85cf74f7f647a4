From dd9e78ceaa311227d1f74f28f6e9020b61da785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:48 +0000
Subject: [PATCH 01/27] fix: repetition maximum of 0 or 1 let one match too
 many through

The maximum was only looked at after a second match, so x*{,1} and
x*{1,1} accepted two matches and x*{0,0} accepted one.
---
 parser_pattern.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser_pattern.go b/parser_pattern.go
index c645045..a086947 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -87,6 +87,12 @@ func (patt *pattern) getRule() *rule { return patt.rule }
 func (patt *pattern) parse(ctx *ParseContext) Ast {
 	return wrap(func(_ *ParseContext, _ Parser) Ast {
 		pos := ctx.Code.Pos()
+		if patt.max == 0 {
+			if patt.min > 0 {
+				return nil
+			}
+			return NewNativeArray([]Ast{})
+		}
 		resValue := patt.value.parse(ctx)
 		if resValue == nil {
 			ctx.Code.SetPos(pos)
@@ -96,7 +102,7 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 			return NewNativeArray([]Ast{})
 		}
 		var matches []Ast = []Ast{resValue}
-		for {
+		for patt.max < 0 || len(matches) < patt.max {
 			pos2 := ctx.Code.Pos()
 			if !IsUndefined(patt.join) {
 				resJoin := patt.join.parse(ctx)
@@ -113,9 +119,6 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				break
 			}
 			matches = append(matches, resValue)
-			if patt.max > -1 && len(matches) >= int(patt.max) {
-				break
-			}
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
 			ctx.Code.SetPos(pos)
-- 
2.43.0


From c1b91062ecf0312557b317e4d251940f7c0662d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 02/27] fix: unbounded repetition of something empty never
 terminated

('a'?)* kept matching the empty string at the same position forever.
---
 parser_pattern.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_pattern.go b/parser_pattern.go
index a086947..dbcd214 100644
--- a/parser_pattern.go
+++ b/parser_pattern.go
@@ -118,6 +118,10 @@ func (patt *pattern) parse(ctx *ParseContext) Ast {
 				ctx.Code.SetPos(pos2)
 				break
 			}
+			// an unbounded repetition that no longer progresses never would again
+			if patt.max < 0 && ctx.Code.Pos() == pos2 && len(matches) >= patt.min {
+				break
+			}
 			matches = append(matches, resValue)
 		}
 		if patt.min > -1 && int(patt.min) > len(matches) {
-- 
2.43.0


From 3543959ff14b294674d425f73e3eb9d7296cd2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 03/27] fix: nesting deeper than 1024 rules panicked

The rule stack was a fixed array, so a long enough input crashed with an
index out of range.
---
 parsectx.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parsectx.go b/parsectx.go
index fa204ad..6c22eeb 100644
--- a/parsectx.go
+++ b/parsectx.go
@@ -21,7 +21,7 @@ type ParseContext struct {
 
 	numRules    int
 	frames      [][]*frame // 2D: [len(code.text) + 1][numRules]
-	stack       [1024]*frame
+	stack       []*frame
 	stackLength int
 	loopStack   []string
 }
@@ -86,7 +86,7 @@ func (ctx *ParseContext) loopStackPush(name string) { ctx.loopStack = append(ctx
 func (ctx *ParseContext) loopStackPop()             { ctx.loopStack = ctx.loopStack[:len(ctx.loopStack)-1] }
 func (ctx *ParseContext) stackPeek(skip int) *frame { return ctx.stack[ctx.stackLength-1-skip] }
 func (ctx *ParseContext) stackPush(x Parser) {
-	ctx.stack[ctx.stackLength] = ctx.getFrame(x)
+	ctx.stack = append(ctx.stack[:ctx.stackLength], ctx.getFrame(x))
 	ctx.stackLength++
 }
 func (ctx *ParseContext) stackPop() { ctx.stackLength-- }
-- 
2.43.0


From 634c791f4f1351d06d693289ee2d7a44dff4b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 04/27] fix: NativeMap.IsEmpty was inverted

---
 native_map.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/native_map.go b/native_map.go
index 2517506..c4a58bc 100644
--- a/native_map.go
+++ b/native_map.go
@@ -75,10 +75,7 @@ func (nm *NativeMap) Keys() []string {
 }
 
 func (nm *NativeMap) IsEmpty() bool {
-	for range nm.vals {
-		return true
-	}
-	return false
+	return len(nm.vals) == 0
 }
 
 func (nm *NativeMap) GetExists(k string) (Ast, bool) {
-- 
2.43.0


From 725fb52cea055ad8d2459100a7a84747a8abda66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 05/27] fix: PeekLines panicked on a range outside the text

PeekLines(2,3) near the end and PeekLines(-3,-2) near the start of the
text crashed. RuneStream.PeekLines() now also peeks the current line, as
CodeStream documents and TokenStream does.
---
 codestream_rune.go  | 7 +++++--
 codestream_token.go | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/codestream_rune.go b/codestream_rune.go
index fba68a4..a7bb067 100644
--- a/codestream_rune.go
+++ b/codestream_rune.go
@@ -91,8 +91,8 @@ func (code *RuneStream) PeekRunes(n int) string {
 // In that case, it will peek from the minimum to the maximum of the series.
 // When only 1 value is given, a second value of 0 is implied to create a range.
 func (code *RuneStream) PeekLines(n ...int) string {
-	if len(n) <= 0 {
-		return ""
+	if len(n) == 0 {
+		n = []int{0}
 	} else if len(n) == 1 {
 		n = []int{n[0], 0} // implied 0
 	}
@@ -106,6 +106,9 @@ func (code *RuneStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+max < 0 || code.Line()+min >= len(code.lineStarts) {
+		return "" // the range lies entirely outside the text
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
diff --git a/codestream_token.go b/codestream_token.go
index 63e94cc..4a13f4c 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -181,6 +181,9 @@ func (code *TokenStream) PeekLines(n ...int) string {
 			max = n
 		}
 	}
+	if code.Line()+max < 0 || code.Line()+min >= len(code.lineStarts) {
+		return "" // the range lies entirely outside the text
+	}
 	start := code.lineStarts[helpers.Max(0, code.Line()+min)]
 	var end int
 	endLine := helpers.Min(len(code.lineStarts)-1, code.Line()+max)
-- 
2.43.0


From ba560bb905ea9f69862a36c522e31a6fdec14de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:16 +0000
Subject: [PATCH 06/27] fix: wrong line and column for positions in the last
 token

TokenStream.coords measured the offset within the last token from the
start of the token before it.
---
 codestream_token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codestream_token.go b/codestream_token.go
index 4a13f4c..452b2ec 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -310,10 +310,10 @@ func (code *TokenStream) coords(workOffset int) coord {
 	nToken := 0
 	var token Token
 	for {
+		token = code.tokens[nToken]
 		if nToken >= len(code.tokens)-1 {
 			break // don't panic, it can make sense when a token was inserted
 		}
-		token = code.tokens[nToken]
 		if workOffset < token.WorkOffset+len(token.Repr) {
 			break
 		}
-- 
2.43.0


From c6e1a5b2b318e215693014be866f6fc9a3fcdb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 07/27] fix: TokenStreamFromGoCode lost most errors and
 remembered old ones

Errors found after the first character were never reported, and the
global list made the second call with an illegal first character panic.
---
 codestream_token.go | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/codestream_token.go b/codestream_token.go
index 452b2ec..30a1f5d 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -334,13 +334,6 @@ func (code *TokenStream) coords(workOffset int) coord {
 	}
 }
 
-// use by error handler below
-var scanErrors []error
-
-func handleErrors(pos token.Position, msg string) {
-	scanErrors = append(scanErrors, scannerError{pos, msg})
-}
-
 // TokenStreamFromGoCode is a special function transforming
 // some go code into a TokenStream. You can then call
 // `yourGrammar.ParseTokens(ts TokenStream)` directly.
@@ -348,13 +341,11 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	var scan goscanner.Scanner
 	fset := token.NewFileSet()
 	file := fset.AddFile("", fset.Base(), len(source))
-	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
-	if scan.ErrorCount > 0 {
-		if scan.ErrorCount != len(scanErrors) {
-			panic("assert") // errors must have been collected
-		}
-		return nil, errors.Join(scanErrors...)
+	var scanErrors []error
+	handleErrors := func(pos token.Position, msg string) {
+		scanErrors = append(scanErrors, scannerError{pos, msg})
 	}
+	scan.Init(file, []byte(source), handleErrors, 0 /*goscanner.ScanComments*/)
 	tokens := []Token{}
 	workOffset := 0
 	prev := ""
@@ -394,6 +385,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
 		b.WriteString(s)
 	}
+	if len(scanErrors) > 0 {
+		return nil, errors.Join(scanErrors...)
+	}
 	return NewTokenStream(source, tokens), nil
 }
 
-- 
2.43.0


From 7e95987b2d6386459df1940a0c10aa0b687a7e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 08/27] fix: tracing a SkipCache rule that fails to match
 panicked

---
 packrat.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packrat.go b/packrat.go
index 06790b4..0923ef5 100644
--- a/packrat.go
+++ b/packrat.go
@@ -90,7 +90,11 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 		if x.getRule().skipCache {
 			result := fparse(ctx)
 			if showLog {
-				ctx.log(Cyan("`->:")+" "+helpers.Escape(result.String())+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
+				s := "nil"
+				if result != nil {
+					s = result.String()
+				}
+				ctx.log(Cyan("`->:")+" "+helpers.Escape(s)+" "+BoldBlack(helpers.TypeOfToString(result)), opts)
 			}
 			return result
 		}
-- 
2.43.0


From d53ffd2e385f9a80eca2ce5a951afa06ceb631b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 09/27] fix: TRACE=loop,line=N panicked on left recursion
 outside line N

---
 packrat.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packrat.go b/packrat.go
index 0923ef5..f54b35b 100644
--- a/packrat.go
+++ b/packrat.go
@@ -150,7 +150,8 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 					return result
 				} else {
 					frame.loopstage = 3
-					if opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine) {
+					loopPushed := opts.Loop && ((opts.FilterLine < 0) || ctx.Code.Line() == opts.FilterLine)
+					if loopPushed {
 						ctx.loopStackPush(x.getRule().name)
 						// if false {
 						//  line := ctx.Code.Line()
@@ -201,7 +202,7 @@ func loopify(fparse parseFunc, x Parser) parseFunc {
 							break
 						}
 					}
-					if opts.Loop {
+					if loopPushed {
 						ctx.loopStackPop()
 					}
 					ctx.wipeWith(frame, false)
-- 
2.43.0


From 9c4e8a9657844803510431e50ce7e6a6a553c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 10/27] fix: Debug{true} for one parse leaked into other parses

It switched the trace options of the grammar, so a nested parse was
traced too, and they stayed on when a parse function panicked.
---
 grammar.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/grammar.go b/grammar.go
index 468e3ed..031c659 100644
--- a/grammar.go
+++ b/grammar.go
@@ -106,18 +106,16 @@ func (gm *Grammar) ParseTokens(tokens *TokenStream, options ...ParseOption) Ast
 // Use ParseString() or ParseTokens()
 // This parse(ctx) is for Grammar to implement Parser
 func (gm *Grammar) parse(ctx *ParseContext) Ast {
-	oldTrace := gm.TraceOptions.Stack
 	ctx.GrammarName = gm.getRule().name
 	if ctx.parseOptions.debug {
-		// temporarily enable stack tracing
-		gm.TraceOptions.Stack = true
+		// enable stack tracing for this parse only (gm.TraceOptions is shared)
+		ctx.TraceOptions = ctx.TraceOptions.Copy()
+		ctx.TraceOptions.Stack = true
 	}
 	if gm.rank == nil {
 		panic("Grammar.rank is nil")
 	}
 	result := gm.rank.parse(ctx)
-	// undo temporary stack tracing
-	gm.TraceOptions.Stack = oldTrace
 	// if parse is incomplete, compute error message
 	if ctx.Code.Pos() != ctx.Code.workLength() {
 		// find the maximum parsed entity
-- 
2.43.0


From b0eb90004225e2c93ff6aa287a674125ec38cfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:15 +0000
Subject: [PATCH 11/27] fix: tracing panicked on input with invalid UTF-8 or
 U+FFFD

---
 helpers/helpers.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index cc34f46..7d2a158 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -135,7 +135,7 @@ func BoolToString(b bool) string {
 
 // take last `nTake` runes from `abc`, in natural order. ("abc", 2) -> "bc"
 // When nTake is more than the number of available runes, return all of them.
-// If RuneError at some point, panic.
+// A byte which is not valid UTF-8 counts as one rune.
 func LastNRunes(abc string, nTake int) string {
 	totalSize := 0 // size in bytes
 	slice := abc
@@ -143,10 +143,7 @@ func LastNRunes(abc string, nTake int) string {
 		if len(slice) == 0 {
 			break
 		}
-		c, csize := utf8.DecodeLastRuneInString(slice)
-		if c == utf8.RuneError {
-			panic(fmt.Sprintf("RuneError: %q\n", c))
-		}
+		_, csize := utf8.DecodeLastRuneInString(slice)
 		totalSize += csize // csize is char len in bytes for rune c
 		slice = slice[:len(slice)-csize]
 		nTake--
-- 
2.43.0


From 8a219b591d44f80154945d60e1ec53b12d45b500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 12/27] fix: labels set by a sequence leaked into cached
 results

A map merged with @: or &: was extended in place, so after backtracking
other alternatives got the labels of the abandoned one.
---
 native_map.go      | 10 ++++++++++
 parser_sequence.go |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/native_map.go b/native_map.go
index c4a58bc..f9456ca 100644
--- a/native_map.go
+++ b/native_map.go
@@ -54,6 +54,16 @@ func (nm *NativeMap) Concat() NativeString {
 	return NewNativeString(b.String())
 }
 
+// shallow copy
+func (nm *NativeMap) clone() *NativeMap {
+	attr := *nm.Attr
+	neu := &NativeMap{&attr, make(map[string]Ast, len(nm.vals)), append([]string(nil), nm.keys...)}
+	for k, v := range nm.vals {
+		neu.vals[k] = v
+	}
+	return neu
+}
+
 func (nm *NativeMap) assertNode() {}
 func (nm *NativeMap) String() string {
 	var b strings.Builder
diff --git a/parser_sequence.go b/parser_sequence.go
index 3b008c4..5db4bf3 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -159,6 +159,9 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 			return nil
 		}
 		label := child.getRule().label
+		if nm, isMap := res.(*NativeMap); isMap && (label == "&" || label == "@") {
+			res = nm.clone() // res may be cached, it must not be modified below
+		}
 		switch label {
 		case "&":
 			if IsUndefined(results) {
-- 
2.43.0


From 99be49769704359ba482c9b0a26e9c2b3def44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 13/27] fix: optional labelled element in a sequence panicked

(a:'x')? b:'y' failed with an assertion, because the sequence got the
bare value to merge instead of a map with its label.
---
 parser_existential.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser_existential.go b/parser_existential.go
index 5d48812..533b55b 100644
--- a/parser_existential.go
+++ b/parser_existential.go
@@ -56,6 +56,10 @@ func (ex *existential) parse(ctx *ParseContext) Ast {
 		if result == nil {
 			ctx.Code.SetPos(pos)
 			return NewNativeUndefined()
+		} else if lbl := ex.it.getRule().label; lbl != "" && lbl != "@" && lbl != "&" &&
+			ex.rule.label == "@" && ex.handlesChildLabel() {
+			// in (a:foo)? the sequence merges what is optional, which has to be a map
+			return NewNativeMap(map[string]Ast{lbl: result})
 		} else {
 			return result
 		}
-- 
2.43.0


From 3ce34dd61c51244b9b11abd931f65ff1b4d9b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:33 +0000
Subject: [PATCH 14/27] fix: absent optional element labelled & in a sequence
 panicked

a:'x' &:Y? failed with "unhandled property" when there was no Y, whereas
@:Y? was fine.
---
 parser_sequence.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index 5db4bf3..d5ce330 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -166,7 +166,7 @@ func (seq *sequence) parseAsObject(ctx *ParseContext) Ast {
 		case "&":
 			if IsUndefined(results) {
 				results = res
-			} else {
+			} else if !IsUndefined(res) { // else there is nothing to extend
 				results = merge(res, results)
 			}
 		case "@":
-- 
2.43.0


From 152c5c7c8b782103f21b85811ee4c4a8f4708333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:57 +0000
Subject: [PATCH 15/27] fix: label of a parenthesised sequence was ignored

x:([a] [b]) [c] gave an array and dropped x, while x:([a]|[b]) [c] and
x:([a] [b])* [c] gave a map: a sequence did not report its own label to
the sequence around it.
---
 parser_sequence.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser_sequence.go b/parser_sequence.go
index d5ce330..e6cbc76 100644
--- a/parser_sequence.go
+++ b/parser_sequence.go
@@ -40,7 +40,12 @@ func newSequence(it Ast) *sequence {
 			sequence: parsers,
 		}
 		rule.node = seq
-		rule.labels_ = helpers.LazyFromFunc(func() []string { return seq.calculateLabels() })
+		rule.labels_ = helpers.LazyFromFunc(func() []string {
+			if rule.label != "" && rule.label != "@" && rule.label != "&" {
+				return []string{rule.label} // as seen by an enclosing sequence
+			}
+			return seq.calculateLabels()
+		})
 		rule.captures_ = helpers.LazyFromFunc(func() []Ast { return seq.calculateCaptures() })
 		seq.lazyType = helpers.LazyFromFunc(func() sequenceRepr { return seq.calculateType() })
 		return seq
@@ -71,7 +76,7 @@ func (seq *sequence) calculateCaptures() []Ast {
 // otherwise, if at least 1 capture, it is Array
 // otherwise a Single
 func (seq *sequence) calculateType() sequenceRepr {
-	if len(seq.labels_.Get()) == 0 {
+	if len(seq.calculateLabels()) == 0 {
 		if len(seq.captures_.Get()) > 1 {
 			return Array
 		} else {
-- 
2.43.0


From c56cab812c9c4906c69b52cf6a41c06af8e61ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 16/27] fix: adjacent tokens of Go code were merged
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Tokens that were apart in the source could become another token in the
working text: a < -b gave a<-b, a / *p gave a/*p, é b gave éb.
---
 codestream_token.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/codestream_token.go b/codestream_token.go
index 30a1f5d..a3a1db1 100644
--- a/codestream_token.go
+++ b/codestream_token.go
@@ -380,6 +380,9 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 				s = tokStr
 			}
 		}
+		if wouldMerge(prev, s) {
+			s = " " + s
+		}
 		workOffset += len(prev)
 		prev = s
 		tokens = append(tokens, Token{s, int(pos) - 1, workOffset})
@@ -391,6 +394,24 @@ func TokenStreamFromGoCode(source string) (*TokenStream, error) {
 	return NewTokenStream(source, tokens), nil
 }
 
+// whether writing b right after a would turn a into another token, e.g. `<`
+// and `-`, `/` and `*` or, since identifiers may end with any letter, `é` and `a`.
+func wouldMerge(a, b string) bool {
+	a = strings.TrimLeft(a, " ")
+	if a == "" || strings.HasPrefix(b, " ") {
+		return false
+	}
+	var scan goscanner.Scanner
+	fset := token.NewFileSet()
+	text := a + b
+	scan.Init(fset.AddFile("", fset.Base(), len(text)), []byte(text), nil, goscanner.ScanComments)
+	_, tok, lit := scan.Scan()
+	if lit == "" {
+		lit = tok.String()
+	}
+	return lit != strings.TrimRight(a, "\n")
+}
+
 type scannerError struct {
 	pos token.Position
 	msg string
-- 
2.43.0


From bf8e98ee475ad7da290926664d1f4ce66638c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:19 +0000
Subject: [PATCH 17/27] fix: a parser given a name by Named is a rule

---
 line.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/line.go b/line.go
index 7ab54b4..d2c1e16 100644
--- a/line.go
+++ b/line.go
@@ -110,6 +110,8 @@ func rule2line(x any) Line {
 		return newSLine(v)
 	case sLine:
 		return O(v.Str)
+	case cLine:
+		return v // it has a Parser, and so would also be one
 	case Parser:
 		return newCLine(v)
 	case ALine:
-- 
2.43.0


From d45e30a6d22725bd969ce21e86768019375de981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:27 +0000
Subject: [PATCH 18/27] fix: options of a rule given as a parser were dropped

---
 line.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/line.go b/line.go
index d2c1e16..999bd6c 100644
--- a/line.go
+++ b/line.go
@@ -158,6 +158,7 @@ func getRule(
 	case cLine:
 		answer = v.Parser
 		answer.getRule().name = name
+		answer.getRule().parseOptions = attrs
 	case ILine:
 		panic("assert") // ILine is impossible here
 	case OLine:
-- 
2.43.0


From 4d7a90a52ac95e2b51eb98e71451dc67a7ec1eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 19/27] fix: lisp-repl: not gave its argument back

---
 examples/lisp-repl/machine_primitives.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/lisp-repl/machine_primitives.go b/examples/lisp-repl/machine_primitives.go
index cccfc62..46e96f3 100644
--- a/examples/lisp-repl/machine_primitives.go
+++ b/examples/lisp-repl/machine_primitives.go
@@ -109,7 +109,7 @@ func not(m Machine, rest List) Expr {
 	if rest.Length() != 1 {
 		panic("`not` admits only 1 arg")
 	}
-	return Bool(boolFromExpr(m, rest.List[0]))
+	return Bool(!boolFromExpr(m, rest.List[0]))
 }
 
 // (if <predicate> <then-expr> <else-expr>)
-- 
2.43.0


From 901f9cb85f4a976f5d6d908ca3e4f712991d08c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 20/27] fix: lisp-repl: lines that were read ahead got lost

---
 examples/lisp-repl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/lisp-repl/main.go b/examples/lisp-repl/main.go
index 4f27246..0fd3f8c 100644
--- a/examples/lisp-repl/main.go
+++ b/examples/lisp-repl/main.go
@@ -30,9 +30,9 @@ func main() {
 	gm := grammar()
 	vm := NewMachine()
 	fmt.Println("pseudo lisp REPL. This will try to interpret some lisp like expr")
+	reader := bufio.NewReader(os.Stdin) // only one, as it reads ahead
 	for true {
 		fmt.Print("Eval: ")
-		reader := bufio.NewReader(os.Stdin)
 		input, err := reader.ReadString('\n')
 		if err != nil {
 			if err == io.EOF {
-- 
2.43.0


From a40e92bc20e9a97b79e4bacb886bb09b8b8fc303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 21/27] fix: lisp-repl: a list for a number overflowed the
 stack

---
 examples/lisp-repl/machine_internal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/lisp-repl/machine_internal.go b/examples/lisp-repl/machine_internal.go
index e9ca2ab..a9e729f 100644
--- a/examples/lisp-repl/machine_internal.go
+++ b/examples/lisp-repl/machine_internal.go
@@ -17,6 +17,9 @@ func numberFromExpr(m Machine, item Expr) float64 {
 	case kindOperator:
 		panic("m.numberFromExpr should have numbers or list only")
 	case kindList:
+		if item.List.Length() == 0 || item.List.List[0].Kind != kindOperator {
+			panic("expected a number, got " + item.String()) // it evaluates to itself
+		}
 		return numberFromExpr(m, m.Eval(item))
 	}
 	panic(E)
-- 
2.43.0


From 663a5f8cd2c578c8eb65d2be327b9d1c77c2537b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:19 +0000
Subject: [PATCH 22/27] fix: LastNRunesReversed stopped at U+FFFD and at
 invalid bytes

---
 helpers/helpers.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/helpers/helpers.go b/helpers/helpers.go
index 7d2a158..84dac21 100644
--- a/helpers/helpers.go
+++ b/helpers/helpers.go
@@ -160,11 +160,11 @@ func LastNRunesReversed(abc string, nTake int) string {
 	slice := abc
 	var b strings.Builder
 	for i := len(abc) - sizeinit; i >= len(abc)-sizeinit-nTake+1; i-- {
-		r, size := utf8.DecodeLastRuneInString(slice)
-		if r == utf8.RuneError {
+		_, size := utf8.DecodeLastRuneInString(slice)
+		if size == 0 {
 			break
 		}
-		b.WriteRune(r)
+		b.WriteString(slice[len(slice)-size:])
 		slice = slice[:len(slice)-size]
 	}
 	return b.String()
-- 
2.43.0


From be295eb990cf0f487bae50d02371d9fa05667b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 23/27] Revert "fix: lisp-repl: a list for a number overflowed
 the stack"

This reverts commit a40e92bc20e9a97b79e4bacb886bb09b8b8fc303.
---
 examples/lisp-repl/machine_internal.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/examples/lisp-repl/machine_internal.go b/examples/lisp-repl/machine_internal.go
index a9e729f..e9ca2ab 100644
--- a/examples/lisp-repl/machine_internal.go
+++ b/examples/lisp-repl/machine_internal.go
@@ -17,9 +17,6 @@ func numberFromExpr(m Machine, item Expr) float64 {
 	case kindOperator:
 		panic("m.numberFromExpr should have numbers or list only")
 	case kindList:
-		if item.List.Length() == 0 || item.List.List[0].Kind != kindOperator {
-			panic("expected a number, got " + item.String()) // it evaluates to itself
-		}
 		return numberFromExpr(m, m.Eval(item))
 	}
 	panic(E)
-- 
2.43.0


From ca8a154b9ddf6062af9d64897addaf5bef15a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 24/27] Revert "fix: lisp-repl: lines that were read ahead got
 lost"

This reverts commit 901f9cb85f4a976f5d6d908ca3e4f712991d08c4.
---
 examples/lisp-repl/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/lisp-repl/main.go b/examples/lisp-repl/main.go
index 0fd3f8c..4f27246 100644
--- a/examples/lisp-repl/main.go
+++ b/examples/lisp-repl/main.go
@@ -30,9 +30,9 @@ func main() {
 	gm := grammar()
 	vm := NewMachine()
 	fmt.Println("pseudo lisp REPL. This will try to interpret some lisp like expr")
-	reader := bufio.NewReader(os.Stdin) // only one, as it reads ahead
 	for true {
 		fmt.Print("Eval: ")
+		reader := bufio.NewReader(os.Stdin)
 		input, err := reader.ReadString('\n')
 		if err != nil {
 			if err == io.EOF {
-- 
2.43.0


From 62cd2b0a688c79f3d7d524f60afc411877ab0f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:51 +0000
Subject: [PATCH 25/27] Revert "fix: lisp-repl: not gave its argument back"

This reverts commit 4d7a90a52ac95e2b51eb98e71451dc67a7ec1eaf.
---
 examples/lisp-repl/machine_primitives.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/lisp-repl/machine_primitives.go b/examples/lisp-repl/machine_primitives.go
index 46e96f3..cccfc62 100644
--- a/examples/lisp-repl/machine_primitives.go
+++ b/examples/lisp-repl/machine_primitives.go
@@ -109,7 +109,7 @@ func not(m Machine, rest List) Expr {
 	if rest.Length() != 1 {
 		panic("`not` admits only 1 arg")
 	}
-	return Bool(!boolFromExpr(m, rest.List[0]))
+	return Bool(boolFromExpr(m, rest.List[0]))
 }
 
 // (if <predicate> <then-expr> <else-expr>)
-- 
2.43.0


From a92c5d74abc652091181fb9072f944cba82aa79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:03 +0000
Subject: [PATCH 26/27] fix: parses with the same grammar in several goroutines
 were a data race

The lazy values of a grammar (type of a sequence, labels) are worked out
during the first parse and were written without synchronization.
---
 helpers/lazy.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/helpers/lazy.go b/helpers/lazy.go
index 01f9ebe..81f4d7d 100644
--- a/helpers/lazy.go
+++ b/helpers/lazy.go
@@ -1,28 +1,34 @@
 package helpers
 
+import "sync/atomic"
+
 // lazy, when lazy.Get() is called:
 // - returns lazy.val if set,
 // - returns lazy.val = lazy.f() otherwise
+//
+// Once it has a value or a function Get() can be called from
+// several goroutines at the same time.
 
 type Lazy[T any] struct {
-	val *T
-	f   func() T // lazy evaluator
+	val atomic.Value // *T
+	f   func() T     // lazy evaluator
 }
 
 func NewLazy[T any]() *Lazy[T]                { return &Lazy[T]{} }
 func LazyFromValue[T any](t T) *Lazy[T]       { r := &Lazy[T]{}; r.Set(t); return r }
 func LazyFromFunc[T any](f func() T) *Lazy[T] { return &Lazy[T]{f: f} }
 
-func (k *Lazy[T]) IsSet() bool { return k.val != nil }
-func (k *Lazy[T]) Set(t T)     { k.val = &t }
-func (k *Lazy[T]) Clear()      { k.val = nil; k.f = nil }
+func (k *Lazy[T]) load() *T    { val, _ := k.val.Load().(*T); return val }
+func (k *Lazy[T]) IsSet() bool { return k.load() != nil }
+func (k *Lazy[T]) Set(t T)     { k.val.Store(&t) }
+func (k *Lazy[T]) Clear()      { k.val.Store((*T)(nil)); k.f = nil }
 func (k *Lazy[T]) Get() T {
-	if !k.IsSet() && k.f != nil {
-		ptr := k.f()
-		(*k).val = &ptr
-		return *k.val
+	if val := k.load(); val == nil && k.f != nil {
+		t := k.f()
+		k.Set(t)
+		return t
 	} else {
-		return *k.val
+		return *val
 	}
 }
 
-- 
2.43.0


From 902d2c7292af563a726c81fc63c889a1d824aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:03 +0000
Subject: [PATCH 27/27] fix: building grammars from the same lines in several
 goroutines was a data race

---
 line.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/line.go b/line.go
index 999bd6c..db8f86b 100644
--- a/line.go
+++ b/line.go
@@ -205,6 +205,8 @@ func getRule(
 		panic("assert")
 	}
 	// fmt.Printf(" name=%s attrs rule.rule.Debug=%s rule.Debug=%s attrs.Debug=%s\n", name, reflect.TypeOf(line).String(), rule.Debug, rule.Debug, attrs.Debug)
-	rule.parseOptions.cb = attrs.cb
+	if rule.parseOptions != attrs { // attrs belong to the line, others may be reading them
+		rule.parseOptions.cb = attrs.cb
+	}
 	return answer
 }
-- 
2.43.0

