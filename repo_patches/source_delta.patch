From 54f191e07d5229ab558053c5ab8b9cdd245e68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:13 +0000
Subject: [PATCH 01/68] fix: don't read past an invalid token when parsing JSON

The JSON scanner stops at an invalid byte without producing an EOF token, so
error recovery read past the end of the token list and crashed, for example
for the input {"a"$.
---
 hcl/json/parser.go | 4 ++--
 hcl/json/peeker.go | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index d368ea8..4de642f 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -119,7 +119,7 @@ func parseObject(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
@@ -270,7 +270,7 @@ func parseArray(p *peeker) (node, hcl.Diagnostics) {
 				if open <= 1 {
 					return
 				}
-			case tokenEOF:
+			case tokenEOF, tokenInvalid:
 				// Ran out of source before we were able to recover,
 				// so we'll bail here and let the caller deal with it.
 				return
diff --git a/hcl/json/peeker.go b/hcl/json/peeker.go
index fc7bbf5..ba3b172 100644
--- a/hcl/json/peeker.go
+++ b/hcl/json/peeker.go
@@ -18,7 +18,9 @@ func (p *peeker) Peek() token {
 
 func (p *peeker) Read() token {
 	ret := p.tokens[p.pos]
-	if ret.Type != tokenEOF {
+	// An invalid token, like an EOF token, is always the last token produced
+	// by the scanner, so we must not advance past it.
+	if ret.Type != tokenEOF && ret.Type != tokenInvalid {
 		p.pos++
 	}
 	return ret
-- 
2.43.0


From 0918600d4c67579e991b5a76a2d97dc360c9edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:47:24 +0000
Subject: [PATCH 02/68] fix: report JSON string errors inside the string they
 are about

The reported range was one byte too far and so could fall outside of the
string, or even outside of the source buffer.
---
 hcl/json/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hcl/json/parser.go b/hcl/json/parser.go
index 4de642f..be14bc2 100644
--- a/hcl/json/parser.go
+++ b/hcl/json/parser.go
@@ -403,7 +403,15 @@ func parseString(p *peeker) (node, hcl.Diagnostics) {
 	if err != nil {
 		var errRange hcl.Range
 		if serr, ok := err.(*json.SyntaxError); ok {
-			errOfs := serr.Offset
+			// serr.Offset counts the bytes read up to and including the
+			// one that was in error, so the error itself is one byte back.
+			errOfs := serr.Offset - 1
+			if max := int64(len(tok.Bytes) - 1); errOfs > max {
+				errOfs = max
+			}
+			if errOfs < 0 {
+				errOfs = 0
+			}
 			errPos := tok.Range.Start
 			errPos.Byte += int(errOfs)
 
-- 
2.43.0


From 3b085e0d423e55d9e213509b43a85e2806ab3557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:06 +0000
Subject: [PATCH 03/68] fix: don't register JSON files that could not be read

A failed ParseJSONFile left a nil entry in the file registry, which made
Sources crash afterwards.
---
 hclparse/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hclparse/parser.go b/hclparse/parser.go
index 6d47f12..7e1f4f3 100644
--- a/hclparse/parser.go
+++ b/hclparse/parser.go
@@ -89,7 +89,9 @@ func (p *Parser) ParseJSONFile(filename string) (*hcl.File, hcl.Diagnostics) {
 	}
 
 	file, diags := json.ParseFile(filename)
-	p.files[filename] = file
+	if file != nil {
+		p.files[filename] = file
+	}
 	return file, diags
 }
 
-- 
2.43.0


From 57d80c60437df4092d3bde714706f45257b41eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:08 +0000
Subject: [PATCH 04/68] fix: report unreadable include files instead of
 crashing

---
 ext/include/file_resolver.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index c79a094..7ffa5f0 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -48,5 +48,9 @@ func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body
 		f, diags = r.Parser.ParseHCLFile(targetFile)
 	}
 
+	if f == nil {
+		// The file could not be read at all, so there is no body to return.
+		return nil, diags
+	}
 	return f.Body, diags
 }
-- 
2.43.0


From 10b2bd4a871f6e3ee5780f0cc52ae44aa19bb0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:11 +0000
Subject: [PATCH 05/68] fix: resolve includes from files with absolute names

The file resolver is documented to accept absolute caller filenames but
joined them to the base directory anyway. This also affected includes inside
of included files when using an absolute base directory.
---
 ext/include/file_resolver.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/include/file_resolver.go b/ext/include/file_resolver.go
index 7ffa5f0..5c48f90 100644
--- a/ext/include/file_resolver.go
+++ b/ext/include/file_resolver.go
@@ -36,7 +36,10 @@ type fileResolver struct {
 }
 
 func (r fileResolver) ResolveBodyPath(path string, refRange hcl.Range) (hcl.Body, hcl.Diagnostics) {
-	callerFile := filepath.Join(r.BaseDir, refRange.Filename)
+	callerFile := refRange.Filename
+	if !filepath.IsAbs(callerFile) {
+		callerFile = filepath.Join(r.BaseDir, callerFile)
+	}
 	callerDir := filepath.Dir(callerFile)
 	targetFile := filepath.Join(callerDir, path)
 
-- 
2.43.0


From 860d079f3737c82d48f5883613b5d3adb38de64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:13 +0000
Subject: [PATCH 06/68] fix: keep diagnostics about invalid include blocks

Errors in the include blocks themselves, such as a missing or invalid path,
were collected but then dropped, so that a bad include was silently ignored.
Also ignore nil bodies returned by a resolver, as its documentation says.
---
 ext/include/transformer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ext/include/transformer.go b/ext/include/transformer.go
index 15c513f..4a31117 100644
--- a/ext/include/transformer.go
+++ b/ext/include/transformer.go
@@ -76,10 +76,15 @@ func (t *transformer) TransformBody(in hcl.Body) hcl.Body {
 		}
 
 		incBody, incDiags := t.Resolver.ResolveBodyPath(path, pathExpr.Range())
+		if incBody == nil && !incDiags.HasErrors() {
+			// Nothing to include, but we'll still emit any warnings.
+			diags = append(diags, incDiags...)
+			continue
+		}
 		bodies = append(bodies, transform.BodyWithDiagnostics(incBody, incDiags))
 	}
 
-	return hcl.MergeBodies(bodies)
+	return transform.BodyWithDiagnostics(hcl.MergeBodies(bodies), diags)
 }
 
 var includeBlockSchema = &hcl.BodySchema{
-- 
2.43.0


From dc85688ae43da3c459f03729bf8d8bf5516d1c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:16 +0000
Subject: [PATCH 07/68] fix: apply deep transforms to blocks in partial content
 remainders

---
 ext/transform/transform.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ext/transform/transform.go b/ext/transform/transform.go
index 30e9eed..e31c7f2 100644
--- a/ext/transform/transform.go
+++ b/ext/transform/transform.go
@@ -45,6 +45,14 @@ func (w deepWrapper) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diag
 func (w deepWrapper) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	content, remain, diags := w.Transformed.PartialContent(schema)
 	content = w.transformContent(content)
+	if remain != nil {
+		// The remaining body has already been transformed itself, but any
+		// child blocks later extracted from it must be transformed too.
+		remain = deepWrapper{
+			Transformed: remain,
+			Transformer: w.Transformer,
+		}
+	}
 	return content, remain, diags
 }
 
-- 
2.43.0


From 85b50e3e1c010014083cbc6f742bc32749ce3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:55 +0000
Subject: [PATCH 08/68] fix: don't write to a shared placeholder token when
 formatting

Formatting two inputs concurrently was a data race, because the spacing pass
assigned to the package-level placeholder used after the end of each line.
---
 hclwrite/format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 7111ebd..4b7e36d 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -119,7 +119,8 @@ func formatSpaces(lines []formatLine) {
 			if i < (len(line.lead) - 1) {
 				after = line.lead[i+1]
 			} else {
-				after = nilToken
+				// There is nothing after the last token to adjust
+				continue
 			}
 			if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
@@ -143,7 +144,8 @@ func formatSpaces(lines []formatLine) {
 			if i < (len(line.assign) - 1) {
 				after = line.assign[i+1]
 			} else {
-				after = nilToken
+				// There is nothing after the last token to adjust
+				continue
 			}
 			if spaceAfterToken(token, before, after) {
 				after.SpacesBefore = 1
-- 
2.43.0


From 37bc545cdde82b80abe98710d033c21fa5205e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:59 +0000
Subject: [PATCH 09/68] fix: forget the items of a writer body when clearing it

Attributes set after Clear were otherwise applied to the detached attributes
of the same name, and so were missing from the output.
---
 hclwrite/ast_body.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index cf69fee..74523f3 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -35,6 +35,7 @@ func (b *Body) appendItemNode(nn *node) *node {
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
+	b.items = newNodeSet()
 }
 
 func (b *Body) AppendUnstructuredTokens(ts Tokens) {
-- 
2.43.0


From ae351fe497cb080455876d4256c115f767d6113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:02 +0000
Subject: [PATCH 10/68] fix: return the new attribute when setting creates one

---
 hclwrite/ast_body.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 74523f3..e7777aa 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -97,7 +97,7 @@ func (b *Body) SetAttributeValue(name string, val cty.Value) *Attribute {
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
@@ -118,7 +118,7 @@ func (b *Body) SetAttributeTraversal(name string, traversal hcl.Traversal) *Attr
 	if attr != nil {
 		attr.expr = attr.expr.ReplaceWith(expr)
 	} else {
-		attr := newAttribute()
+		attr = newAttribute()
 		attr.init(name, expr)
 		b.appendItem(attr)
 	}
-- 
2.43.0


From 39164fc43219d13117786fe225ac28c7e5cbfd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:05 +0000
Subject: [PATCH 11/68] fix: return writer blocks in source order

Body.Blocks iterated over a set and so returned blocks in random order. Also
keep the ends of a node list correct when replacing its first or last node.
---
 hclwrite/ast_body.go | 5 +++--
 hclwrite/node.go     | 6 ++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index e7777aa..2068f21 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -56,10 +56,11 @@ func (b *Body) Attributes() map[string]*Attribute {
 	return ret
 }
 
-// Blocks returns a new slice of all the blocks in the body.
+// Blocks returns a new slice of all the blocks in the body, in the order
+// they appear in the body.
 func (b *Body) Blocks() []*Block {
 	ret := make([]*Block, 0, len(b.items))
-	for n := range b.items {
+	for _, n := range b.items.List() {
 		if block, isBlock := n.content.(*Block); isBlock {
 			ret = append(ret, block)
 		}
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 71fd00f..06f6ada 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -77,6 +77,12 @@ func (n *node) ReplaceWith(c nodeContent) *node {
 	if after != nil {
 		after.before = nn
 	}
+	if list.first == n {
+		list.first = nn
+	}
+	if list.last == n {
+		list.last = nn
+	}
 	return nn
 }
 
-- 
2.43.0


From 74b9c072c5595a32e00c27f32cd52e2525f26abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:09 +0000
Subject: [PATCH 12/68] fix: return the generated tokens from
 TokensForTraversal

The tokens for each step were discarded, so the result was always empty.
---
 hclwrite/generate.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index d249cfd..ebd318f 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -159,12 +159,12 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
-		appendTokensForTraversalStep(step, toks)
+		toks = appendTokensForTraversalStep(step, toks)
 	}
 	return toks
 }
 
-func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
+func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) Tokens {
 	switch ts := step.(type) {
 	case hcl.TraverseRoot:
 		toks = append(toks, &Token{
@@ -188,7 +188,7 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 			Type:  hclsyntax.TokenOBrack,
 			Bytes: []byte{'['},
 		})
-		appendTokensForValue(ts.Key, toks)
+		toks = appendTokensForValue(ts.Key, toks)
 		toks = append(toks, &Token{
 			Type:  hclsyntax.TokenCBrack,
 			Bytes: []byte{']'},
@@ -196,6 +196,8 @@ func appendTokensForTraversalStep(step hcl.Traverser, toks Tokens) {
 	default:
 		panic(fmt.Sprintf("unsupported traversal step type %T", step))
 	}
+
+	return toks
 }
 
 func escapeQuotedStringLit(s string) []byte {
-- 
2.43.0


From 086a209830409f48e641284c9059b4ad184023b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:12 +0000
Subject: [PATCH 13/68] fix: quote generated object keys that would not be read
 as names

An object key of "for" or "null" was written without quotes, which is a
syntax error or an evaluation error when reading the result.
---
 hclwrite/generate.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/hclwrite/generate.go b/hclwrite/generate.go
index ebd318f..a197ef4 100644
--- a/hclwrite/generate.go
+++ b/hclwrite/generate.go
@@ -129,7 +129,7 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 				})
 			}
 			eKey, eVal := it.Element()
-			if hclsyntax.ValidIdentifier(eKey.AsString()) {
+			if isBareObjectKey(eKey.AsString()) {
 				toks = append(toks, &Token{
 					Type:  hclsyntax.TokenIdent,
 					Bytes: []byte(eKey.AsString()),
@@ -157,6 +157,20 @@ func appendTokensForValue(val cty.Value, toks Tokens) Tokens {
 	return toks
 }
 
+// isBareObjectKey returns true if the given object key can be written without
+// quotes in an object constructor expression.
+func isBareObjectKey(key string) bool {
+	switch key {
+	case "for", "null":
+		// Although these are valid identifiers, the parser would understand
+		// them as the start of a "for" expression and as a null key
+		// respectively, so they must be quoted.
+		return false
+	default:
+		return hclsyntax.ValidIdentifier(key)
+	}
+}
+
 func appendTokensForTraversal(traversal hcl.Traversal, toks Tokens) Tokens {
 	for _, step := range traversal {
 		toks = appendTokensForTraversalStep(step, toks)
-- 
2.43.0


From bfd35f3cfed59d20bce2bec99c06b57b15cf3f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:48 +0000
Subject: [PATCH 14/68] fix: keep parentheses in place when loading attributes
 for editing

The tokens of an attribute's expression were found using the expression's
source range, which doesn't include surrounding parentheses and, for index and
splat operators, doesn't include the operand. The remaining tokens then ended
up after the end of the line, producing invalid output.
---
 hclwrite/parser.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 0e8952d..f157731 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -254,10 +254,17 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 	children.AppendUnstructuredTokens(before.Tokens())
 	children.AppendUnstructuredTokens(equalsTokens.Tokens())
 
-	before, exprTokens, from := from.Partition(nativeAttr.Expr.Range())
+	// The expression consists of everything that remains, except for any
+	// comments that precede it. We can't rely on nativeAttr.Expr.Range() here
+	// because it doesn't include any parentheses around the expression and,
+	// for some expression types, doesn't include all of the operands either.
+	exprStart := 0
+	for exprStart < from.Len() && from.nativeTokens[exprStart].Type == hclsyntax.TokenComment {
+		exprStart++
+	}
 	{
-		children.AppendUnstructuredTokens(before.Tokens())
-		exprNode := parseExpression(nativeAttr.Expr, exprTokens)
+		children.AppendUnstructuredTokens(from.Slice(0, exprStart).Tokens())
+		exprNode := parseExpression(nativeAttr.Expr, from.Slice(exprStart, from.Len()))
 		attr.expr = exprNode
 		children.AppendNode(exprNode)
 	}
@@ -270,9 +277,6 @@ func parseAttribute(nativeAttr *hclsyntax.Attribute, from, leadComments, lineCom
 
 	children.AppendUnstructuredTokens(newline.Tokens())
 
-	// Collect any stragglers, though there shouldn't be any
-	children.AppendUnstructuredTokens(from.Tokens())
-
 	return newNode(attr)
 }
 
-- 
2.43.0


From 3556a956f382b3afed6d5e657bd0677616bdf94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:18 +0000
Subject: [PATCH 15/68] fix: load legacy and unusual index keys for editing

Loading an attribute with a legacy index like foo.0 panicked, and the key of
an index like foo[true] was lost.
---
 hclwrite/parser.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index f157731..65de6c9 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -408,6 +408,15 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 		children = step.inTree.children
 		before, from, after = from.Partition(nativeStep.SourceRange())
 
+		if from.Len() > 0 && from.Types()[0] == hclsyntax.TokenDot {
+			// This is the legacy index syntax foo.0, which has no brackets.
+			inBefore, token, inAfter := from.PartitionTypeSingle(hclsyntax.TokenNumberLit)
+			children.AppendUnstructuredTokens(inBefore.Tokens())
+			step.key = children.Append(newNumber(token))
+			children.AppendUnstructuredTokens(inAfter.Tokens())
+			return before, newNode(step), after
+		}
+
 		var inBefore, oBrack, keyTokens, cBrack inputTokens
 		inBefore, oBrack, from = from.PartitionType(hclsyntax.TokenOBrack)
 		children.AppendUnstructuredTokens(inBefore.Tokens())
@@ -425,6 +434,10 @@ func parseTraversalStep(nativeStep hcl.Traverser, from inputTokens) (before inpu
 			key := newNumber(valToken)
 			step.key = children.Append(key)
 			children.AppendUnstructuredTokens(valAfter.Tokens())
+		default:
+			// Other literals, such as true and null, are not useful as keys
+			// but are syntactically valid.
+			children.AppendUnstructuredTokens(keyTokens.Tokens())
 		}
 
 		children.AppendUnstructuredTokens(cBrack.Tokens())
-- 
2.43.0


From ee2682c70df16b8b976e9e05a279dc816cacda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:46 +0000
Subject: [PATCH 16/68] fix: begin a new line when appending to a body for
 editing

Appending an attribute or block to a file without a newline at its end, or to
a block written in the single-line form, produced invalid output.
---
 hclwrite/ast_body.go | 51 ++++++++++++++++++++++++++++++++++++++++++--
 hclwrite/node.go     | 17 +++++++++++++++
 hclwrite/parser.go   |  1 +
 hclwrite/tokens.go   | 19 +++++++++++++++++
 4 files changed, 86 insertions(+), 2 deletions(-)

diff --git a/hclwrite/ast_body.go b/hclwrite/ast_body.go
index 2068f21..d6b6321 100644
--- a/hclwrite/ast_body.go
+++ b/hclwrite/ast_body.go
@@ -10,6 +10,10 @@ type Body struct {
 	inTree
 
 	items nodeSet
+
+	// inBraces is set for the body of a block that was loaded from source,
+	// whose opening brace is not necessarily followed by a newline.
+	inBraces bool
 }
 
 func newBody() *Body {
@@ -20,6 +24,7 @@ func newBody() *Body {
 }
 
 func (b *Body) appendItem(c nodeContent) *node {
+	b.prepareNewLine()
 	nn := b.children.Append(c)
 	b.items.Add(nn)
 	return nn
@@ -32,6 +37,41 @@ func (b *Body) appendItemNode(nn *node) *node {
 	return nn
 }
 
+// prepareNewLine makes sure that whatever is appended to the body next will
+// begin on a line of its own, and that the body is not in the single-line block
+// form that can contain at most one attribute.
+func (b *Body) prepareNewLine() {
+	if b.inBraces {
+		onNewLine := false
+	Start:
+		for n := b.children.first; n != nil; n = n.after {
+			for _, tok := range n.BuildTokens(nil) {
+				if tok.isInlineComment() {
+					continue
+				}
+				onNewLine = tok.endsLine()
+				break Start
+			}
+		}
+		if !onNewLine {
+			b.children.Prepend(newlineTokens())
+		}
+	}
+
+	for n := b.children.last; n != nil; n = n.before {
+		toks := n.BuildTokens(nil)
+		for i := len(toks) - 1; i >= 0; i-- {
+			if toks[i].isInlineComment() {
+				continue
+			}
+			if !toks[i].endsLine() {
+				b.children.Append(newlineTokens())
+			}
+			return
+		}
+	}
+}
+
 // Clear removes all of the items from the body, making it empty.
 func (b *Body) Clear() {
 	b.children.Clear()
@@ -146,10 +186,17 @@ func (b *Body) AppendNewBlock(typeName string, labels []string) *Block {
 // which generally serves as a separator between different sets of body
 // contents.
 func (b *Body) AppendNewline() {
-	b.AppendUnstructuredTokens(Tokens{
+	if b.inBraces {
+		b.prepareNewLine()
+	}
+	b.AppendUnstructuredTokens(newlineTokens())
+}
+
+func newlineTokens() Tokens {
+	return Tokens{
 		{
 			Type:  hclsyntax.TokenNewline,
 			Bytes: []byte{'\n'},
 		},
-	})
+	}
 }
diff --git a/hclwrite/node.go b/hclwrite/node.go
index 06f6ada..c1c5748 100644
--- a/hclwrite/node.go
+++ b/hclwrite/node.go
@@ -124,6 +124,23 @@ func (ns *nodes) Append(c nodeContent) *node {
 	return n
 }
 
+// Prepend inserts a new node with the given content at the start of the list.
+func (ns *nodes) Prepend(c nodeContent) *node {
+	n := &node{
+		content: c,
+		list:    ns,
+		after:   ns.first,
+	}
+	if ns.first != nil {
+		ns.first.before = n
+	}
+	ns.first = n
+	if ns.last == nil {
+		ns.last = n
+	}
+	return n
+}
+
 func (ns *nodes) AppendNode(n *node) {
 	if ns.last != nil {
 		n.before = ns.last
diff --git a/hclwrite/parser.go b/hclwrite/parser.go
index 65de6c9..0847d34 100644
--- a/hclwrite/parser.go
+++ b/hclwrite/parser.go
@@ -333,6 +333,7 @@ func parseBlock(nativeBlock *hclsyntax.Block, from, leadComments, lineComments,
 	before, body, after := parseBody(nativeBlock.Body, bodyTokens)
 	children.AppendUnstructuredTokens(before.Tokens())
 	block.body = body
+	body.content.(*Body).inBraces = true
 	children.AppendNode(body)
 	children.AppendUnstructuredTokens(after.Tokens())
 
diff --git a/hclwrite/tokens.go b/hclwrite/tokens.go
index d87f818..9e761ed 100644
--- a/hclwrite/tokens.go
+++ b/hclwrite/tokens.go
@@ -40,6 +40,25 @@ func (t *Token) asHCLSyntax() hclsyntax.Token {
 	}
 }
 
+// endsLine returns true if whatever follows the token will be on a new line.
+func (t *Token) endsLine() bool {
+	switch t.Type {
+	case hclsyntax.TokenNewline:
+		return true
+	case hclsyntax.TokenComment:
+		// Single-line comments include their terminating newline
+		return bytes.HasSuffix(t.Bytes, []byte{'\n'})
+	default:
+		return false
+	}
+}
+
+// isInlineComment returns true if the token is a comment that can be followed
+// by other tokens on the same line.
+func (t *Token) isInlineComment() bool {
+	return t.Type == hclsyntax.TokenComment && bytes.HasPrefix(t.Bytes, []byte("/*"))
+}
+
 // Tokens is a flat list of tokens.
 type Tokens []*Token
 
-- 
2.43.0


From 8b2d163d016b4fbdab87a78df630a1d7ef38c7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:56:32 +0000
Subject: [PATCH 17/68] fix: don't join legacy index operators when formatting

Removing the spaces from "foo.0 .1" turned two index operators into the
fractional number 0.1, which is a syntax error.
---
 hclwrite/format.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 4b7e36d..5dfc4ea 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -237,6 +237,11 @@ func spaceAfterToken(subject, before, after *Token) bool {
 		// Don't split a function name from open paren in a call
 		return false
 
+	case subject.Type == hclsyntax.TokenDot && before.Type == hclsyntax.TokenNumberLit && after.Type == hclsyntax.TokenNumberLit:
+		// Consecutive legacy index operators, like foo.0. 1, would be
+		// understood as a fractional number without the space.
+		return true
+
 	case subject.Type == hclsyntax.TokenDot || after.Type == hclsyntax.TokenDot:
 		// Don't use spaces around attribute access dots
 		return false
-- 
2.43.0


From 0b218525e7113b5c150a37e178e4fc43c8393c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:30 +0000
Subject: [PATCH 18/68] fix: pack the whole expression of each attribute

The packed source code was missing parentheses around the expression, the
operands of index and splat operators, and the newline that a heredoc needs
after its closing marker, all of which change the meaning of the expression.
Also respect the given start position when locating the source code.
---
 hclpack/pack_native.go | 57 ++++++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/hclpack/pack_native.go b/hclpack/pack_native.go
index 05f67a6..415c131 100644
--- a/hclpack/pack_native.go
+++ b/hclpack/pack_native.go
@@ -1,6 +1,8 @@
 package hclpack
 
 import (
+	"bytes"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/hashicorp/hcl2/hcl/hclsyntax"
 )
@@ -14,15 +16,14 @@ import (
 func PackNativeFile(src []byte, filename string, start hcl.Pos) (*Body, hcl.Diagnostics) {
 	f, diags := hclsyntax.ParseConfig(src, filename, start)
 	rootBody := f.Body.(*hclsyntax.Body)
-	return packNativeBody(rootBody, src), diags
+	return packNativeBody(rootBody, src, start.Byte), diags
 }
 
-func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
+func packNativeBody(body *hclsyntax.Body, src []byte, startByte int) *Body {
 	ret := &Body{}
 	for name, attr := range body.Attributes {
-		exprRng := attr.Expr.Range()
+		exprSrc, exprRng := nativeExprSource(attr, src, startByte)
 		exprStartRng := attr.Expr.StartRange()
-		exprSrc := exprRng.SliceBytes(src)
 		ret.setAttribute(name, Attribute{
 			Expr: Expression{
 				Source:     exprSrc,
@@ -37,7 +38,7 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 	}
 
 	for _, block := range body.Blocks {
-		childBody := packNativeBody(block.Body, src)
+		childBody := packNativeBody(block.Body, src, startByte)
 		defRange := block.TypeRange
 		if len(block.LabelRanges) > 0 {
 			defRange = hcl.RangeBetween(defRange, block.LabelRanges[len(block.LabelRanges)-1])
@@ -56,3 +57,49 @@ func packNativeBody(body *hclsyntax.Body, src []byte) *Body {
 
 	return ret
 }
+
+// nativeExprSource returns the source code for the expression of the given
+// attribute, along with the range it came from.
+//
+// We take everything that follows the equals sign here, rather than using the
+// range of the expression itself, because the latter doesn't include any
+// parentheses around the expression or, for some operators, their operands.
+func nativeExprSource(attr *hclsyntax.Attribute, src []byte, startByte int) ([]byte, hcl.Range) {
+	rng := hcl.Range{
+		Filename: attr.SrcRange.Filename,
+		Start:    attr.EqualsRange.End,
+		End:      attr.SrcRange.End,
+	}
+	startIdx, endIdx := rng.Start.Byte-startByte, rng.End.Byte-startByte
+	if startIdx < 0 || endIdx < startIdx || endIdx > len(src) {
+		// Possible only if there were syntax errors
+		return nil, attr.Expr.Range()
+	}
+
+	for startIdx < endIdx && (src[startIdx] == ' ' || src[startIdx] == '\t') {
+		startIdx++
+		rng.Start.Byte++
+		rng.Start.Column++
+	}
+
+	// The closing marker of a heredoc template is recognized only if it is
+	// followed by a newline, so we must include that in the source code if
+	// the expression ends with a heredoc.
+	toks, _ := hclsyntax.LexExpression(src[startIdx:endIdx], rng.Filename, rng.Start)
+	heredocs := 0
+	for _, tok := range toks {
+		switch tok.Type {
+		case hclsyntax.TokenOHeredoc:
+			heredocs++
+		case hclsyntax.TokenCHeredoc:
+			heredocs--
+		}
+	}
+	if heredocs > 0 {
+		if nl := bytes.IndexByte(src[endIdx:], '\n'); nl >= 0 {
+			endIdx += nl + 1
+		}
+	}
+
+	return src[startIdx:endIdx:endIdx], rng
+}
-- 
2.43.0


From 718ac3f96dce77e32fd63e408fc7746250a026ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:33 +0000
Subject: [PATCH 19/68] fix: don't panic on out-of-range positions in a packed
 body

---
 hclpack/positions_packed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hclpack/positions_packed.go b/hclpack/positions_packed.go
index 29c7144..0cce9fc 100644
--- a/hclpack/positions_packed.go
+++ b/hclpack/positions_packed.go
@@ -172,10 +172,10 @@ func packRange(rng hcl.Range, pos map[string]map[hcl.Pos]posOfs) rangePacked {
 func (rp rangePacked) Unpack(fns []string, poss []position) hcl.Range {
 	startIdx := rp.Start.Index()
 	endIdx := rp.End.Index()
-	if startIdx < 0 && startIdx >= len(poss) {
+	if startIdx < 0 || startIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
-	if endIdx < 0 && endIdx >= len(poss) {
+	if endIdx < 0 || endIdx >= len(poss) {
 		return hcl.Range{} // out of bounds, so invalid
 	}
 	startPos := poss[startIdx]
-- 
2.43.0


From 4585080397f8648fd45e2baaa79c6f58370c53f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:35 +0000
Subject: [PATCH 20/68] fix: give each attribute of a packed body its own
 expression

JustAttributes returned attributes that all referred to the same loop variable
and thus to the same expression. The diagnostics for unexpected blocks were
likewise all at the same place, and had no subject.
---
 hclpack/structure.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 488a99e..5c4c83b 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -192,6 +192,9 @@ func (b *Body) content(schema *hcl.BodySchema, remain *Body) (*hcl.BodyContent,
 
 // JustAttributes is an implementation of the method of the same name on hcl.Body.
 func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
+	if b == nil {
+		b = &Body{} // We'll treat a nil body like an empty one, for convenience
+	}
 	var diags hcl.Diagnostics
 	if len(b.ChildBlocks) > 0 {
 		for _, block := range b.ChildBlocks {
@@ -199,7 +202,8 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 				Severity: hcl.DiagError,
 				Summary:  fmt.Sprintf("Unexpected %s block", block.Type),
 				Detail:   "Blocks are not allowed here.",
-				Context:  &block.TypeRange,
+				Subject:  block.TypeRange.Ptr(),
+				Context:  block.DefRange.Ptr(),
 			})
 		}
 		// We'll continue processing anyway, and return any attributes we find
@@ -212,6 +216,8 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 	ret := make(hcl.Attributes, len(b.Attributes))
 	for n, a := range b.Attributes {
+		// Redeclare so that each result refers to its own expression
+		a := a
 		ret[n] = a.asHCLAttribute(n)
 	}
 	return ret, diags
-- 
2.43.0


From 8aba2780eecbca0e311d88d6f474c8d06424c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:10 +0000
Subject: [PATCH 21/68] fix: don't panic when an expanded function argument is
 rejected

The index reported by the function refers to the arguments after expansion,
so it can be greater than the number of argument expressions.
---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index d3f7a74..7c5a475 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -393,7 +393,7 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 			} else {
 				param = varParam
 			}
-			argExpr := e.Args[i]
+			argExpr := args[i]
 
 			// TODO: we should also unpick a PathError here and show the
 			// path to the deep value where the error was detected.
-- 
2.43.0


From 8f22aedce459ac9075c5c13d5719effe39752780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:15 +0000
Subject: [PATCH 22/68] fix: allow an unknown value of unknown type as an
 expanding argument

Its type might turn out to be a suitable one, so this is not an error yet.
---
 hcl/hclsyntax/expression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 7c5a475..2655a0b 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -259,6 +259,10 @@ func (e *FunctionCallExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnosti
 		}
 
 		switch {
+		case expandVal.Type() == cty.DynamicPseudoType && !expandVal.IsKnown():
+			// We can't tell yet whether this is a suitable value, or how
+			// many arguments it will expand to.
+			return cty.DynamicVal, diags
 		case expandVal.Type().IsTupleType() || expandVal.Type().IsListType() || expandVal.Type().IsSetType():
 			if expandVal.IsNull() {
 				diags = append(diags, &hcl.Diagnostic{
-- 
2.43.0


From e52c47f8dd9426fda7a8100a2d245c00830e3e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:57 +0000
Subject: [PATCH 23/68] fix: evaluate parenthesized object keys as expressions

A variable name in parentheses was still treated as a literal key, even though
parentheses are the documented way to use a variable as a key, and a longer
reference in parentheses was rejected with the advice to add parentheses.
---
 hcl/hclsyntax/expression.go | 15 ++++++++++++++-
 hcl/hclsyntax/parser.go     | 11 ++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 2655a0b..cfed02e 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -809,9 +809,17 @@ func (e *ObjectConsExpr) ExprMap() []hcl.KeyValuePair {
 // must be interpreted as a literal string rather than evaluated directly.
 type ObjectConsKeyExpr struct {
 	Wrapped Expression
+
+	// ForceNonLiteral is set if the key was written with parentheses around
+	// it, in which case it is always evaluated as a normal expression.
+	ForceNonLiteral bool
 }
 
 func (e *ObjectConsKeyExpr) literalName() string {
+	if e.ForceNonLiteral {
+		return ""
+	}
+
 	// This is our logic for deciding whether to behave like a literal string.
 	// We lean on our AbsTraversalForExpr implementation here, which already
 	// deals with some awkward cases like the expression being the result
@@ -838,7 +846,7 @@ func (e *ObjectConsKeyExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnost
 	// (This is handled at evaluation time rather than parse time because
 	// an application using static analysis _can_ accept a naked multi-step
 	// traversal here, if desired.)
-	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 {
+	if travExpr, isTraversal := e.Wrapped.(*ScopeTraversalExpr); isTraversal && len(travExpr.Traversal) > 1 && !e.ForceNonLiteral {
 		var diags hcl.Diagnostics
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
@@ -865,6 +873,11 @@ func (e *ObjectConsKeyExpr) StartRange() hcl.Range {
 
 // Implementation for hcl.AbsTraversalForExpr.
 func (e *ObjectConsKeyExpr) AsTraversal() hcl.Traversal {
+	// A parenthesized key is never a bare name or traversal.
+	if e.ForceNonLiteral {
+		return nil
+	}
+
 	// We can produce a traversal only if our wrappee can.
 	st, diags := hcl.AbsTraversalForExpr(e.Wrapped)
 	if diags.HasErrors() {
diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 772ebae..4e145fb 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -1293,6 +1293,12 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 
 		var key Expression
 		var keyDiags hcl.Diagnostics
+
+		// Parentheses are not represented in the AST, but in this position
+		// they distinguish a key expression from a literal name and so we
+		// need to remember that they were present.
+		forceNonLiteral := next.Type == TokenOParen
+
 		key, keyDiags = p.ParseExpression()
 		diags = append(diags, keyDiags...)
 
@@ -1307,7 +1313,10 @@ func (p *parser) parseObjectCons() (Expression, hcl.Diagnostics) {
 		// We wrap up the key expression in a special wrapper that deals
 		// with our special case that naked identifiers as object keys
 		// are interpreted as literal strings.
-		key = &ObjectConsKeyExpr{Wrapped: key}
+		key = &ObjectConsKeyExpr{
+			Wrapped:         key,
+			ForceNonLiteral: forceNonLiteral,
+		}
 
 		next = p.Peek()
 		if next.Type != TokenEqual && next.Type != TokenColon {
-- 
2.43.0


From 39b7991e84e4f50e2a3ea0b9a0e607e50d00ab1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:02 +0000
Subject: [PATCH 24/68] fix: report correct ranges for attribute-only splat
 operators

A splat operator with no attributes after it had an invalid end position, and
errors in the attributes were reported at the position of the star.
---
 hcl/hclsyntax/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/parser.go b/hcl/hclsyntax/parser.go
index 4e145fb..1ac4a40 100644
--- a/hcl/hclsyntax/parser.go
+++ b/hcl/hclsyntax/parser.go
@@ -670,6 +670,7 @@ Traversal:
 				trav := make(hcl.Traversal, 0, 1)
 				var firstRange, lastRange hcl.Range
 				firstRange = p.NextRange()
+				lastRange = marker.Range // until we find some traversal steps
 				for p.Peek().Type == TokenDot {
 					dot := p.Read()
 
@@ -691,7 +692,7 @@ Traversal:
 								Severity: hcl.DiagError,
 								Summary:  "Invalid legacy index syntax",
 								Detail:   fmt.Sprintf("When using the legacy index syntax, chaining two indexes together is not permitted. Use the proper index syntax with a full splat expression [*] instead, like [%s][%s].", first, second),
-								Subject:  &attrTok.Range,
+								Subject:  &numTok.Range,
 							})
 							trav = append(trav, hcl.TraverseIndex{
 								Key:      cty.DynamicVal,
@@ -725,7 +726,7 @@ Traversal:
 									Severity: hcl.DiagError,
 									Summary:  "Invalid attribute name",
 									Detail:   "An attribute name is required after a dot.",
-									Subject:  &attrTok.Range,
+									Subject:  p.Peek().Range.Ptr(),
 								})
 							}
 						}
-- 
2.43.0


From 6f60acf5c5fb67fc957ecade58be855273358723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:25 +0000
Subject: [PATCH 25/68] fix: don't complain about blocks that were already
 extracted

Listing the attributes of the remainder of a partial extraction reported an
error about the blocks that the partial extraction had already returned.
---
 hcl/hclsyntax/structure.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/structure.go b/hcl/hclsyntax/structure.go
index 476025d..2e8c302 100644
--- a/hcl/hclsyntax/structure.go
+++ b/hcl/hclsyntax/structure.go
@@ -251,8 +251,10 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 	attrs := make(hcl.Attributes)
 	var diags hcl.Diagnostics
 
-	if len(b.Blocks) > 0 {
-		example := b.Blocks[0]
+	for _, example := range b.Blocks {
+		if _, hidden := b.hiddenBlocks[example.Type]; hidden {
+			continue
+		}
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  fmt.Sprintf("Unexpected %q block", example.Type),
@@ -262,6 +264,7 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 		// we will continue processing anyway, and return the attributes
 		// we are able to find so that certain analyses can still be done
 		// in the face of errors.
+		break
 	}
 
 	if b.Attributes == nil {
-- 
2.43.0


From 3803b8972fad8bd802c557c45b1760d095e671b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:03 +0000
Subject: [PATCH 26/68] fix: allow range scanning of fragments with a non-zero
 start offset

The byte offset of the start position was applied to the given buffer, so the
start of the fragment was skipped.
---
 hcl/pos_scanner.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 17c0d7c..7fe7409 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -23,6 +23,8 @@ type RangeScanner struct {
 	b        []byte
 	cb       bufio.SplitFunc
 
+	startByte int // byte offset of the start of b
+
 	pos Pos    // position of next byte to process in b
 	cur Range  // latest range
 	tok []byte // slice of b that is covered by cur
@@ -51,12 +53,15 @@ func NewRangeScannerFragment(b []byte, filename string, start Pos, cb bufio.Spli
 		filename: filename,
 		b:        b,
 		cb:       cb,
-		pos:      start,
+
+		startByte: start.Byte,
+		pos:       start,
 	}
 }
 
 func (sc *RangeScanner) Scan() bool {
-	if sc.pos.Byte >= len(sc.b) || sc.err != nil {
+	remain := sc.b[sc.pos.Byte-sc.startByte:]
+	if len(remain) == 0 || sc.err != nil {
 		// All done
 		return false
 	}
@@ -64,7 +69,7 @@ func (sc *RangeScanner) Scan() bool {
 	// Since we're operating on an in-memory buffer, we always pass the whole
 	// remainder of the buffer to our SplitFunc and set isEOF to let it know
 	// that it has the whole thing.
-	advance, token, err := sc.cb(sc.b[sc.pos.Byte:], true)
+	advance, token, err := sc.cb(remain, true)
 
 	// Since we are setting isEOF to true this should never happen, but
 	// if it does we will just abort and assume the SplitFunc is misbehaving.
@@ -92,7 +97,7 @@ func (sc *RangeScanner) Scan() bool {
 	// we're being asked to skip over by the SplitFunc.
 	// adv is a slice covering any additional bytes we are skipping over, based
 	// on what the SplitFunc told us to do with advance.
-	adv := sc.b[sc.pos.Byte : sc.pos.Byte+advance]
+	adv := remain[:advance]
 
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
-- 
2.43.0


From 8a963f2c3e5e6717a974e174c4b66f2fc221e056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:09 +0000
Subject: [PATCH 27/68] fix: count lines in range scanning as the parsers do

A lone carriage return is not a newline in either syntax, but the range scanner
counted it as one and so disagreed with the parsers about the following line
numbers. Also avoid the token size limit of bufio.Scanner, since exceeding it
would leave the scanner unable to make progress.
---
 hcl/pos_scanner.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/hcl/pos_scanner.go b/hcl/pos_scanner.go
index 7fe7409..ffa4888 100644
--- a/hcl/pos_scanner.go
+++ b/hcl/pos_scanner.go
@@ -2,7 +2,6 @@ package hcl
 
 import (
 	"bufio"
-	"bytes"
 
 	"github.com/apparentlymart/go-textseg/textseg"
 )
@@ -102,19 +101,20 @@ func (sc *RangeScanner) Scan() bool {
 	// We now need to scan over our token to count the grapheme clusters
 	// so we can correctly advance Column, and count the newlines so we
 	// can correctly advance Line.
-	advR := bytes.NewReader(adv)
-	gsc := bufio.NewScanner(advR)
 	advanced := 0
-	gsc.Split(textseg.ScanGraphemeClusters)
-	for gsc.Scan() {
-		gr := gsc.Bytes()
+	for advanced < len(adv) {
+		grLen, gr, err := textseg.ScanGraphemeClusters(adv[advanced:], true)
+		if err != nil || grLen == 0 {
+			// should never happen, because every byte belongs to a cluster
+			grLen, gr = len(adv)-advanced, adv[advanced:]
+		}
 		new.Byte += len(gr)
 		new.Column++
 
 		// We rely here on the fact that \r\n is considered a grapheme cluster
 		// and so we don't need to worry about miscounting additional lines
-		// on files with Windows-style line endings.
-		if len(gr) != 0 && (gr[0] == '\r' || gr[0] == '\n') {
+		// on files with Windows-style line endings. A lone \r is not a newline.
+		if gr[len(gr)-1] == '\n' {
 			new.Column = 1
 			new.Line++
 		}
@@ -126,7 +126,7 @@ func (sc *RangeScanner) Scan() bool {
 			// so that the caller only sees the range covered by token.)
 			end = new
 		}
-		advanced += len(gr)
+		advanced += grLen
 	}
 
 	sc.cur = Range{
-- 
2.43.0


From ef9564f89b8ef536d4639fed1c46ab861dea9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:25 +0000
Subject: [PATCH 28/68] fix: don't write to the backing array of a spec's label
 names

If the slice given by the caller has spare capacity then appending to it
overwrites whatever is stored there, and is a data race if the specification
is used concurrently.
---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index f9da7f6..1e8051f 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -841,7 +841,7 @@ func (s *BlockMapSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
@@ -990,7 +990,7 @@ func (s *BlockObjectSpec) blockHeaderSchemata() []hcl.BlockHeaderSchema {
 	return []hcl.BlockHeaderSchema{
 		{
 			Type:       s.TypeName,
-			LabelNames: append(s.LabelNames, findLabelSpecs(s.Nested)...),
+			LabelNames: append(s.LabelNames[:len(s.LabelNames):len(s.LabelNames)], findLabelSpecs(s.Nested)...),
 		},
 	}
 }
-- 
2.43.0


From ce2bd892bba3a95efd880bfd5a50ddce8e086fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:28 +0000
Subject: [PATCH 29/68] fix: skip key labels when finding the range of a
 labelled block spec

Decoding hides the labels used as map keys from the nested specification, so
finding source ranges must do so too in order to refer to the same labels.
---
 hcldec/spec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 1e8051f..582499b 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -963,7 +963,7 @@ func (s *BlockMapSpec) sourceRange(content *hcl.BodyContent, blockLabels []block
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockObjectSpec is a Spec that produces a cty object of the results of
@@ -1107,7 +1107,7 @@ func (s *BlockObjectSpec) sourceRange(content *hcl.BodyContent, blockLabels []bl
 		return content.MissingItemRange
 	}
 
-	return sourceRange(childBlock.Body, labelsForBlock(childBlock), s.Nested)
+	return sourceRange(childBlock.Body, labelsForBlock(childBlock)[len(s.LabelNames):], s.Nested)
 }
 
 // A BlockAttrsSpec is a Spec that interprets a single block as if it were
-- 
2.43.0


From c38b6999edf846db91bb255cc718c1b1149bfd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:31 +0000
Subject: [PATCH 30/68] fix: don't panic on mixed types in a dynamically-typed
 attributes block

If the element type is not fixed then the attributes can have different types,
which must be converted to a single type in order to construct a map.
---
 hcldec/spec.go | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index 582499b..d54ec04 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1238,6 +1238,46 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
+	if s.ElementType.HasDynamicTypes() {
+		// Since our target is a map, all of the values must have the same type
+		// or cty.MapVal will panic below.
+		names := make([]string, 0, len(vals))
+		for name := range vals {
+			names = append(names, name)
+		}
+		sort.Strings(names)
+		etys := make([]cty.Type, len(names))
+		for i, name := range names {
+			etys[i] = vals[name].Type()
+		}
+		ety, convs := convert.UnifyUnsafe(etys)
+		if ety == cty.NilType {
+			diags = append(diags, &hcl.Diagnostic{
+				Severity: hcl.DiagError,
+				Summary:  fmt.Sprintf("Inconsistent argument types in %s block", s.TypeName),
+				Detail:   "All of the arguments in this block must be of the same type.",
+				Subject:  &block.DefRange,
+			})
+			return cty.DynamicVal, diags
+		}
+		for i, name := range names {
+			if convs[i] == nil {
+				continue
+			}
+			newV, err := convs[i](vals[name])
+			if err != nil {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  fmt.Sprintf("Inconsistent argument types in %s block", s.TypeName),
+					Detail:   fmt.Sprintf("Argument %q has an inconsistent type: %s.", name, err),
+					Subject:  attrs[name].Expr.Range().Ptr(),
+				})
+				return cty.DynamicVal, diags
+			}
+			vals[name] = newV
+		}
+	}
+
 	return cty.MapVal(vals), diags
 }
 
-- 
2.43.0


From f7f40229164ffbe7dfcd70f75c18ff1843529260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:35 +0000
Subject: [PATCH 31/68] fix: mention each attribute only once in an implied
 schema

A required attribute inside a DefaultSpec was mentioned twice, and so it was
reported as missing even if it was present.
---
 hcldec/schema.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hcldec/schema.go b/hcldec/schema.go
index b57bd96..24216ec 100644
--- a/hcldec/schema.go
+++ b/hcldec/schema.go
@@ -10,6 +10,7 @@ import (
 func ImpliedSchema(spec Spec) *hcl.BodySchema {
 	var attrs []hcl.AttributeSchema
 	var blocks []hcl.BlockHeaderSchema
+	attrIdx := map[string]int{}
 
 	// visitSameBodyChildren walks through the spec structure, calling
 	// the given callback for each descendent spec encountered. We are
@@ -17,7 +18,16 @@ func ImpliedSchema(spec Spec) *hcl.BodySchema {
 	var visit visitFunc
 	visit = func(s Spec) {
 		if as, ok := s.(attrSpec); ok {
-			attrs = append(attrs, as.attrSchemata()...)
+			// More than one spec might refer to the same attribute, but
+			// the schema must mention each one only once.
+			for _, attrS := range as.attrSchemata() {
+				if idx, exists := attrIdx[attrS.Name]; exists {
+					attrs[idx].Required = attrs[idx].Required || attrS.Required
+					continue
+				}
+				attrIdx[attrS.Name] = len(attrs)
+				attrs = append(attrs, attrS)
+			}
 		}
 
 		if bs, ok := s.(blockSpec); ok {
-- 
2.43.0


From 48fcc3fdf8b351af22ef8c77a6c2d67837c74b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:05:38 +0000
Subject: [PATCH 32/68] fix: register all serializable specs with gob

---
 hcldec/gob.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hcldec/gob.go b/hcldec/gob.go
index e2027cf..08a6462 100644
--- a/hcldec/gob.go
+++ b/hcldec/gob.go
@@ -16,8 +16,11 @@ func init() {
 	gob.Register((*ExprSpec)(nil))
 	gob.Register((*BlockSpec)(nil))
 	gob.Register((*BlockListSpec)(nil))
+	gob.Register((*BlockTupleSpec)(nil))
 	gob.Register((*BlockSetSpec)(nil))
 	gob.Register((*BlockMapSpec)(nil))
+	gob.Register((*BlockObjectSpec)(nil))
+	gob.Register((*BlockAttrsSpec)(nil))
 	gob.Register((*BlockLabelSpec)(nil))
 	gob.Register((*DefaultSpec)(nil))
 }
-- 
2.43.0


From a6bc0b18b10a1178cc2eb9a078dff0b2062e177b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:08 +0000
Subject: [PATCH 33/68] fix: honor iteration and hidden items in expanded
 JustAttributes

The attributes of a dynamic block's content could not refer to the iterator,
and the remaining body after a PartialContent call would return attributes that
were already taken and complain about blocks that were already taken.
---
 ext/dynblock/expand_body.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index dd30822..1423f32 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -251,10 +251,32 @@ func (b *expandBody) expandChild(child hcl.Body, i *iteration) hcl.Body {
 }
 
 func (b *expandBody) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
-	// blocks aren't allowed in JustAttributes mode and this body can
-	// only produce blocks, so we'll just pass straight through to our
-	// underlying body here.
-	return b.original.JustAttributes()
+	// Blocks aren't allowed in JustAttributes mode, so we have no expansion
+	// to do here, but we must still disregard anything that was already
+	// seen by an earlier PartialContent call.
+	body := b.original
+	var diags hcl.Diagnostics
+	if len(b.hiddenBlocks) != 0 {
+		var rawContent *hcl.BodyContent
+		rawContent, body, diags = body.PartialContent(b.extendSchema(&hcl.BodySchema{}))
+		for _, rawBlock := range rawContent.Blocks {
+			if rawBlock.Type != "dynamic" {
+				continue
+			}
+			if _, hidden := b.hiddenBlocks[rawBlock.Labels[0]]; !hidden {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  fmt.Sprintf("Unexpected %q block", rawBlock.Type),
+					Detail:   "Blocks are not allowed here.",
+					Subject:  &rawBlock.TypeRange,
+				})
+			}
+		}
+	}
+
+	attrs, attrsDiags := body.JustAttributes()
+	diags = append(diags, attrsDiags...)
+	return b.prepareAttributes(attrs), diags
 }
 
 func (b *expandBody) MissingItemRange() hcl.Range {
-- 
2.43.0


From 5411cd6b95a6b69c26c8a92450a1243c0991eaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:11 +0000
Subject: [PATCH 34/68] fix: preserve the missing item range for unknown
 dynamic blocks

---
 ext/dynblock/unknown_body.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ext/dynblock/unknown_body.go b/ext/dynblock/unknown_body.go
index 932f6a3..23580c8 100644
--- a/ext/dynblock/unknown_body.go
+++ b/ext/dynblock/unknown_body.go
@@ -56,7 +56,9 @@ func (b unknownBody) MissingItemRange() hcl.Range {
 }
 
 func (b unknownBody) fixupContent(got *hcl.BodyContent) *hcl.BodyContent {
-	ret := &hcl.BodyContent{}
+	ret := &hcl.BodyContent{
+		MissingItemRange: got.MissingItemRange,
+	}
 	ret.Attributes = b.fixupAttrs(got.Attributes)
 	if len(got.Blocks) > 0 {
 		ret.Blocks = make(hcl.Blocks, 0, len(got.Blocks))
-- 
2.43.0


From 70d7541a96d9c3b16f7c77d30f9f000b1b03c602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:14 +0000
Subject: [PATCH 35/68] fix: find all variables when walking with an hcldec
 specification

VariablesHCLDec is intended as a drop-in replacement for hcldec.Variables but
it didn't find variables in blocks decoded by BlockAttrsSpec, nor those needed
by the specification itself.
---
 ext/dynblock/variables.go        | 33 ++++++++++++++++-----------
 ext/dynblock/variables_hcldec.go | 38 ++++++++++++++++++++++++++++++++
 2 files changed, 58 insertions(+), 13 deletions(-)

diff --git a/ext/dynblock/variables.go b/ext/dynblock/variables.go
index ad838f3..19660bd 100644
--- a/ext/dynblock/variables.go
+++ b/ext/dynblock/variables.go
@@ -77,19 +77,7 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	children = make([]WalkVariablesChild, 0, len(container.Blocks))
 
 	if n.includeContent {
-		for _, attr := range container.Attributes {
-			for _, traversal := range attr.Expr.Variables() {
-				var ours, inherited bool
-				if n.it != nil {
-					ours = traversal.RootName() == n.it.IteratorName
-					_, inherited = n.it.Inherited[traversal.RootName()]
-				}
-
-				if !(ours || inherited) {
-					vars = append(vars, traversal)
-				}
-			}
-		}
+		vars = append(vars, n.attributeVariables(container.Attributes)...)
 	}
 
 	for _, block := range container.Blocks {
@@ -169,6 +157,25 @@ func (n WalkVariablesNode) Visit(schema *hcl.BodySchema) (vars []hcl.Traversal,
 	return vars, children
 }
 
+// attributeVariables returns the variable traversals in the given attributes
+// aside from those that refer to iterators.
+func (n WalkVariablesNode) attributeVariables(attrs hcl.Attributes) (vars []hcl.Traversal) {
+	for _, attr := range attrs {
+		for _, traversal := range attr.Expr.Variables() {
+			var ours, inherited bool
+			if n.it != nil {
+				ours = traversal.RootName() == n.it.IteratorName
+				_, inherited = n.it.Inherited[traversal.RootName()]
+			}
+
+			if !(ours || inherited) {
+				vars = append(vars, traversal)
+			}
+		}
+	}
+	return vars
+}
+
 func (n WalkVariablesNode) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// We augment the requested schema to also include our special "dynamic"
 	// block type, since then we'll get instances of it interleaved with
diff --git a/ext/dynblock/variables_hcldec.go b/ext/dynblock/variables_hcldec.go
index a078d91..406dbed 100644
--- a/ext/dynblock/variables_hcldec.go
+++ b/ext/dynblock/variables_hcldec.go
@@ -30,9 +30,23 @@ func ExpandVariablesHCLDec(body hcl.Body, spec hcldec.Spec) []hcl.Traversal {
 func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Traversal {
 	vars, children := node.Visit(hcldec.ImpliedSchema(spec))
 
+	if node.includeContent {
+		// The spec might itself contain expressions, whose variables are
+		// needed regardless of what is in the body.
+		vars = append(vars, hcldec.Variables(hcl.EmptyBody(), spec)...)
+	}
+
 	if len(children) > 0 {
 		childSpecs := hcldec.ChildBlockTypes(spec)
+		attrsBlocks := map[string]struct{}{}
+		findAttrsBlocks(spec, attrsBlocks)
 		for _, child := range children {
+			if _, isAttrs := attrsBlocks[child.BlockTypeName]; isAttrs && node.includeContent {
+				// The body of such a block is interpreted directly as
+				// attributes, so there is no schema for it.
+				attrs, _ := child.Node.body.JustAttributes()
+				vars = append(vars, child.Node.attributeVariables(attrs)...)
+			}
 			if childSpec, exists := childSpecs[child.BlockTypeName]; exists {
 				vars = append(vars, walkVariablesWithHCLDec(child.Node, childSpec)...)
 			}
@@ -41,3 +55,27 @@ func walkVariablesWithHCLDec(node WalkVariablesNode, spec hcldec.Spec) []hcl.Tra
 
 	return vars
 }
+
+// findAttrsBlocks adds to the given set the type name of each block in the
+// given spec that is decoded using hcldec.BlockAttrsSpec.
+func findAttrsBlocks(spec hcldec.Spec, into map[string]struct{}) {
+	switch s := spec.(type) {
+	case *hcldec.BlockAttrsSpec:
+		into[s.TypeName] = struct{}{}
+	case hcldec.ObjectSpec:
+		for _, c := range s {
+			findAttrsBlocks(c, into)
+		}
+	case hcldec.TupleSpec:
+		for _, c := range s {
+			findAttrsBlocks(c, into)
+		}
+	case *hcldec.DefaultSpec:
+		findAttrsBlocks(s.Primary, into)
+		findAttrsBlocks(s.Default, into)
+	case *hcldec.TransformExprSpec:
+		findAttrsBlocks(s.Wrapped, into)
+	case *hcldec.TransformFuncSpec:
+		findAttrsBlocks(s.Wrapped, into)
+	}
+}
-- 
2.43.0


From 8641725beb1e4d4da392381e9a00ee20c2dc35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:17 +0000
Subject: [PATCH 36/68] fix: populate the context of user functions only once

Concurrent calls to functions from the same body would race to call the context
function and store its result.
---
 ext/userfunc/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ext/userfunc/decode.go b/ext/userfunc/decode.go
index 2f3ce64..efa0a6f 100644
--- a/ext/userfunc/decode.go
+++ b/ext/userfunc/decode.go
@@ -1,6 +1,8 @@
 package userfunc
 
 import (
+	"sync"
+
 	"github.com/hashicorp/hcl2/hcl"
 	"github.com/zclconf/go-cty/cty"
 	"github.com/zclconf/go-cty/cty/function"
@@ -41,13 +43,15 @@ func decodeUserFunctions(body hcl.Body, blockType string, contextFunc ContextFun
 	// first call to getBaseCtx will populate context, and then the same
 	// context will be used for all subsequent calls. It's assumed that
 	// all functions in a given body should see an identical context.
+	// Functions might be called concurrently, so this must happen only once.
 	var baseCtx *hcl.EvalContext
+	var baseCtxOnce sync.Once
 	getBaseCtx := func() *hcl.EvalContext {
-		if baseCtx == nil {
+		baseCtxOnce.Do(func() {
 			if contextFunc != nil {
 				baseCtx = contextFunc()
 			}
-		}
+		})
 		// baseCtx might still be nil here, and that's okay
 		return baseCtx
 	}
-- 
2.43.0


From 5994d7b459209e1d98ec79734231906475d4e728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:58 +0000
Subject: [PATCH 37/68] fix: don't panic if a splat over a list has results of
 varying type

Applying one splat operator inside another can produce tuples of different
lengths, which cannot be elements of the same list.
---
 hcl/hclsyntax/expression.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index cfed02e..bb09353 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1387,6 +1387,16 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 			diags = append(diags, tyDiags...)
 			return cty.ListValEmpty(ty.ElementType()), diags
 		}
+		ety := cty.DynamicPseudoType
+		for _, val := range vals {
+			if ety == cty.DynamicPseudoType {
+				ety = val.Type()
+			} else if vty := val.Type(); vty != cty.DynamicPseudoType && !vty.Equals(ety) {
+				// This can happen if there is another splat operator inside
+				// that is applied to a mixture of null and non-null values.
+				return cty.TupleVal(vals), diags
+			}
+		}
 		return cty.ListVal(vals), diags
 	default:
 		return cty.TupleVal(vals), diags
-- 
2.43.0


From f14630e0f72d5f27e60cb4e5c11596af0150a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:01 +0000
Subject: [PATCH 38/68] fix: treat the null literal as any other null in a
 splat expression

The null keyword has no type, but it's still known to be null and so the result
must be an empty tuple rather than an unknown value.
---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index bb09353..0d58910 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1280,7 +1280,7 @@ func (e *SplatExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 	}
 
 	sourceTy := sourceVal.Type()
-	if sourceTy == cty.DynamicPseudoType {
+	if sourceTy == cty.DynamicPseudoType && !sourceVal.IsNull() {
 		// If we don't even know the _type_ of our source value yet then
 		// we'll need to defer all processing, since we can't decide our
 		// result type either.
-- 
2.43.0


From 58cf3729002cfc21caf5440e65f0d6c025a0ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:03 +0000
Subject: [PATCH 39/68] fix: don't drop a combining mark that follows flush
 heredoc indentation

---
 hcl/hclsyntax/parser_template.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/parser_template.go b/hcl/hclsyntax/parser_template.go
index a141626..dc68120 100644
--- a/hcl/hclsyntax/parser_template.go
+++ b/hcl/hclsyntax/parser_template.go
@@ -706,8 +706,11 @@ func flushHeredocTemplateParts(parts *templateParts) {
 	for _, lit := range adjust {
 		// Since we want to count space _characters_ rather than space _bytes_,
 		// we can't just do a straightforward slice operation here and instead
-		// need to hunt for the split point with a scanner.
-		valBytes := []byte(lit.Val)
+		// need to hunt for the split point with a scanner. We look only at the
+		// leading spaces, as we did when counting, because a combining mark
+		// after the last space would otherwise be taken as part of it.
+		trimmed := strings.TrimLeftFunc(lit.Val, unicode.IsSpace)
+		valBytes := []byte(lit.Val[:len(lit.Val)-len(trimmed)])
 		spaceByteCount := 0
 		for i := 0; i < minSpaces; i++ {
 			adv, _, _ := textseg.ScanGraphemeClusters(valBytes, true)
-- 
2.43.0


From 41acc71c442e566c051be19f68b5c7cfa83a4864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:47:39 +0000
Subject: [PATCH 40/68] fix: dynblock: don't let an earlier request for
 "dynamic" blocks hide their label

Extracting blocks of type "dynamic" through PartialContent on an expanded
body caused later reads of the remaining body to use the caller's header
schema for that block type, and then to crash for want of a label.
---
 ext/dynblock/expand_body.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ext/dynblock/expand_body.go b/ext/dynblock/expand_body.go
index 1423f32..2f9c509 100644
--- a/ext/dynblock/expand_body.go
+++ b/ext/dynblock/expand_body.go
@@ -98,6 +98,11 @@ func (b *expandBody) extendSchema(schema *hcl.BodySchema) *hcl.BodySchema {
 	// (We'll filter these out again once we process the result of either
 	// Content or PartialContent.)
 	for _, blockS := range b.hiddenBlocks {
+		if blockS.Type == dynamicBlockHeaderSchema.Type {
+			// Our own definition of this block type must take precedence,
+			// because we depend on the presence of its label.
+			continue
+		}
 		extSchema.Blocks = append(extSchema.Blocks, blockS)
 	}
 
-- 
2.43.0


From a63490598f1379c350e400984e3b30c5a7f58585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:46 +0000
Subject: [PATCH 41/68] fix: hcldec: report inconsistent types within
 collections instead of crashing

---
 hcldec/spec.go | 75 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index d54ec04..e7e0dfd 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -515,6 +515,19 @@ func (s *BlockListSpec) decode(content *hcl.BodyContent, blockLabels []blockLabe
 				elems[i] = newV
 			}
 		}
+		for i, v := range elems {
+			// Unification can leave the types different if some of them
+			// are not fully known, such as for an empty collection.
+			if !v.Type().Equals(elems[0].Type()) {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+					Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+					Subject:  &sourceRanges[i],
+				})
+				return cty.DynamicVal, diags
+			}
+		}
 
 		ret = cty.ListVal(elems)
 	}
@@ -789,6 +802,19 @@ func (s *BlockSetSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 				elems[i] = newV
 			}
 		}
+		for i, v := range elems {
+			// Unification can leave the types different if some of them
+			// are not fully known, such as for an empty collection.
+			if !v.Type().Equals(elems[0].Type()) {
+				diags = append(diags, &hcl.Diagnostic{
+					Severity: hcl.DiagError,
+					Summary:  fmt.Sprintf("Unconsistent argument types in %s blocks", s.TypeName),
+					Detail:   "Corresponding attributes in all blocks of this type must be the same.",
+					Subject:  &sourceRanges[i],
+				})
+				return cty.DynamicVal, diags
+			}
+		}
 
 		ret = cty.SetVal(elems)
 	}
@@ -1238,18 +1264,21 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 		vals[name] = attrVal
 	}
 
-	if s.ElementType.HasDynamicTypes() {
-		// Since our target is a map, all of the values must have the same type
-		// or cty.MapVal will panic below.
-		names := make([]string, 0, len(vals))
-		for name := range vals {
-			names = append(names, name)
-		}
-		sort.Strings(names)
-		etys := make([]cty.Type, len(names))
-		for i, name := range names {
-			etys[i] = vals[name].Type()
-		}
+	// Since our target is a map, all of the values must have the same type
+	// or cty.MapVal will panic below. Different types can arise if the element
+	// type contains cty.DynamicPseudoType.
+	names := make([]string, 0, len(vals))
+	for name := range vals {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	etys := make([]cty.Type, len(names))
+	sameType := true
+	for i, name := range names {
+		etys[i] = vals[name].Type()
+		sameType = sameType && etys[i].Equals(etys[0])
+	}
+	if !sameType {
 		ety, convs := convert.UnifyUnsafe(etys)
 		if ety == cty.NilType {
 			diags = append(diags, &hcl.Diagnostic{
@@ -1261,20 +1290,30 @@ func (s *BlockAttrsSpec) decode(content *hcl.BodyContent, blockLabels []blockLab
 			return cty.DynamicVal, diags
 		}
 		for i, name := range names {
-			if convs[i] == nil {
-				continue
+			if convs[i] != nil {
+				newV, err := convs[i](vals[name])
+				if err != nil {
+					diags = append(diags, &hcl.Diagnostic{
+						Severity: hcl.DiagError,
+						Summary:  fmt.Sprintf("Inconsistent argument types in %s block", s.TypeName),
+						Detail:   fmt.Sprintf("Argument %q has an inconsistent type: %s.", name, err),
+						Subject:  attrs[name].Expr.Range().Ptr(),
+					})
+					return cty.DynamicVal, diags
+				}
+				vals[name] = newV
 			}
-			newV, err := convs[i](vals[name])
-			if err != nil {
+			if !vals[name].Type().Equals(vals[names[0]].Type()) {
+				// Unification can leave the types different if some of them
+				// are not fully known, such as for an empty collection.
 				diags = append(diags, &hcl.Diagnostic{
 					Severity: hcl.DiagError,
 					Summary:  fmt.Sprintf("Inconsistent argument types in %s block", s.TypeName),
-					Detail:   fmt.Sprintf("Argument %q has an inconsistent type: %s.", name, err),
+					Detail:   "All of the arguments in this block must be of the same type.",
 					Subject:  attrs[name].Expr.Range().Ptr(),
 				})
 				return cty.DynamicVal, diags
 			}
-			vals[name] = newV
 		}
 	}
 
-- 
2.43.0


From 2b41b10778ed0b32c96fa0fe3f0506027b2c38d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:12 +0000
Subject: [PATCH 42/68] fix: json: recognize quotes and escapes after
 prepending characters

---
 hcl/json/scanner.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hcl/json/scanner.go b/hcl/json/scanner.go
index da72884..b3a7fab 100644
--- a/hcl/json/scanner.go
+++ b/hcl/json/scanner.go
@@ -219,8 +219,20 @@ Byte:
 			// Ignoring error because this scanner cannot produce errors.
 			advance, _, _ := textseg.ScanGraphemeClusters(buf[i:], true)
 
+			// Some characters form a grapheme cluster with the character
+			// that follows, but we must still recognize that character if
+			// it's significant to us. It'll advance the column then.
+			cols := 1
+			for j := 1; j < advance; j++ {
+				if b := buf[i+j]; b == '"' || b == '\\' || b < 32 {
+					advance = j
+					cols = 0
+					break
+				}
+			}
+
 			p.Pos.Byte += advance
-			p.Pos.Column++
+			p.Pos.Column += cols
 			i += advance
 
 			escaping = false
-- 
2.43.0


From 6354a33012d144a58ed83f15637861188f2e6d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:05 +0000
Subject: [PATCH 43/68] fix: count brackets inside heredocs when computing
 indentation

An interpolation in a heredoc that continues on the next line was counted
only at its end, so lines after the heredoc lost a level of indentation.
---
 hclwrite/format.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hclwrite/format.go b/hclwrite/format.go
index 5dfc4ea..d676ba8 100644
--- a/hclwrite/format.go
+++ b/hclwrite/format.go
@@ -69,9 +69,6 @@ func formatIndent(lines []formatLine) {
 		netBrackets := 0
 		for _, token := range line.lead {
 			netBrackets += tokenBracketChange(token)
-			if token.Type == hclsyntax.TokenOHeredoc {
-				break
-			}
 		}
 
 		for _, token := range line.assign {
-- 
2.43.0


From 4fb93823f6c00f1d6126b0f4eabc4f333973efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:41 +0000
Subject: [PATCH 44/68] fix: treat quoted strings with several literal parts as
 literal

A string like "$$" or "%%{" is represented as a template of several literal
parts. Indexing with such a key was not recognised as a static reference.
---
 hcl/hclsyntax/expression_template.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/hcl/hclsyntax/expression_template.go b/hcl/hclsyntax/expression_template.go
index ca3dae1..694bd6f 100644
--- a/hcl/hclsyntax/expression_template.go
+++ b/hcl/hclsyntax/expression_template.go
@@ -102,11 +102,18 @@ func (e *TemplateExpr) StartRange() hcl.Range {
 // interpretation, not situations that result in literals as a technicality
 // of the template expression unwrapping behavior.
 func (e *TemplateExpr) IsStringLiteral() bool {
-	if len(e.Parts) != 1 {
+	if len(e.Parts) == 0 {
 		return false
 	}
-	_, ok := e.Parts[0].(*LiteralValueExpr)
-	return ok
+	for _, part := range e.Parts {
+		// A literal that includes template introducer characters, like "$$",
+		// is represented as several parts.
+		lit, ok := part.(*LiteralValueExpr)
+		if !ok || lit.Val.Type() != cty.String {
+			return false
+		}
+	}
+	return true
 }
 
 // TemplateJoinExpr is used to convert tuples of strings produced by template
-- 
2.43.0


From 547e1a917e7f76050141f3b41526403f3ef575fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:01 +0000
Subject: [PATCH 45/68] fix: a name starting with a byte order mark is not a
 valid identifier

---
 hcl/hclsyntax/public.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/public.go b/hcl/hclsyntax/public.go
index cf0ee29..7336e26 100644
--- a/hcl/hclsyntax/public.go
+++ b/hcl/hclsyntax/public.go
@@ -167,5 +167,8 @@ func ValidIdentifier(s string) bool {
 	// is easiest to do with our existing scanner-related infrastructure here
 	// and nobody should be validating identifiers in a tight loop.
 	tokens := scanTokens([]byte(s), "", hcl.Pos{}, scanIdentOnly)
-	return len(tokens) == 2 && tokens[0].Type == TokenIdent && tokens[1].Type == TokenEOF
+	//
+	// The scanner skips a leading byte order mark, so we must also make sure
+	// that the token covers the whole string.
+	return len(tokens) == 2 && tokens[0].Type == TokenIdent && len(tokens[0].Bytes) == len(s) && tokens[1].Type == TokenEOF
 }
-- 
2.43.0


From 6b12a8194bb83280ce468eabddcf8e936e1861b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:45 +0000
Subject: [PATCH 46/68] fix: Writing out a hclwrite file no longer changes the
 spaces of its tokens

---
 hclwrite/ast.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hclwrite/ast.go b/hclwrite/ast.go
index 0904165..a9c2bda 100644
--- a/hclwrite/ast.go
+++ b/hclwrite/ast.go
@@ -35,6 +35,13 @@ func (f *File) Body() *Body {
 // the spaces between them.
 func (f *File) WriteTo(wr io.Writer) (int64, error) {
 	tokens := f.inTree.children.BuildTokens(nil)
+
+	// Formatting adjusts tokens in place, so we work on copies in order to
+	// leave the file itself unchanged.
+	for i, token := range tokens {
+		formatted := *token
+		tokens[i] = &formatted
+	}
 	format(tokens)
 	return tokens.WriteTo(wr)
 }
-- 
2.43.0


From 1d811623307772557bb405cd3a2da17b017bd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:39:19 +0000
Subject: [PATCH 47/68] fix: don't report adjacent ranges as overlapping

---
 hcl/pos.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/hcl/pos.go b/hcl/pos.go
index 06db8bf..f9a0bf4 100644
--- a/hcl/pos.go
+++ b/hcl/pos.go
@@ -202,12 +202,10 @@ func (r Range) Overlaps(other Range) bool {
 	case r.Empty() || other.Empty():
 		// Empty ranges can never overlap
 		return false
-	case r.ContainsOffset(other.Start.Byte) || r.ContainsOffset(other.End.Byte):
-		return true
-	case other.ContainsOffset(r.Start.Byte) || other.ContainsOffset(r.End.Byte):
-		return true
 	default:
-		return false
+		// The end of a range is exclusive, so two ranges that merely touch
+		// do not overlap.
+		return r.Start.Byte < other.End.Byte && other.Start.Byte < r.End.Byte
 	}
 }
 
-- 
2.43.0


From 87d2fd6230588c0e30b4ee981ec10d45483e7961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:23 +0000
Subject: [PATCH 48/68] fix: show every line that a diagnostic's snippet covers

---
 hcl/diagnostic_text.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hcl/diagnostic_text.go b/hcl/diagnostic_text.go
index 0b4a262..0154753 100644
--- a/hcl/diagnostic_text.go
+++ b/hcl/diagnostic_text.go
@@ -112,7 +112,9 @@ func (w *diagnosticTextWriter) WriteDiagnostic(diag *Diagnostic) error {
 
 			for sc.Scan() {
 				lineRange := sc.Range()
-				if !lineRange.Overlaps(snipRange) {
+				if snipRange.Start.Byte > lineRange.End.Byte || snipRange.End.Byte <= lineRange.Start.Byte {
+					// (lineRange doesn't include the newline at its end, but
+					// a snippet starting there still belongs to this line.)
 					continue
 				}
 
-- 
2.43.0


From f64fe17a7a4a51c72c575d3a8a714bcdfe241eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:23 +0000
Subject: [PATCH 49/68] fix: leave an empty body after partial content of a
 failed transform

---
 ext/transform/error.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ext/transform/error.go b/ext/transform/error.go
index d7de418..bb9c5f3 100644
--- a/ext/transform/error.go
+++ b/ext/transform/error.go
@@ -67,7 +67,11 @@ func (b diagBody) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnos
 
 func (b diagBody) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
 	if b.Diags.HasErrors() {
-		return b.emptyContent(), b.Wrapped, b.Diags
+		remain := b.Wrapped
+		if remain == nil {
+			remain = hcl.EmptyBody()
+		}
+		return b.emptyContent(), remain, b.Diags
 	}
 
 	content, remain, wrappedDiags := b.Wrapped.PartialContent(schema)
-- 
2.43.0


From 8825ebfbd0c838629a1b4b2ded6f72c82da7bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:13 +0000
Subject: [PATCH 50/68] fix: don't crash on default spec blocks with a single
 nested spec

---
 cmd/hcldec/spec.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c8b90d3..e01574f 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -523,7 +523,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			Severity: hcl.DiagWarning,
 			Summary:  "Useless default block",
 			Detail:   "A default block with only one spec is equivalent to using that spec alone.",
-			Subject:  &content.Blocks[1].DefRange,
+			Subject:  &content.Blocks[0].DefRange,
 		})
 	}
 
@@ -544,6 +544,10 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 			}
 		}
 	}
+	if spec == nil {
+		// all of the candidates had errors
+		spec = errSpec
+	}
 
 	return spec, diags
 }
-- 
2.43.0


From e7c781238089b3755c7609269d9881d2a3882703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:15 +0000
Subject: [PATCH 51/68] fix: accept block_attrs blocks in hcldec specifications

---
 cmd/hcldec/spec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index e01574f..c13f9b5 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -610,6 +610,7 @@ var specBlockTypes = []string{
 	"attr",
 
 	"block",
+	"block_attrs",
 	"block_list",
 	"block_map",
 	"block_set",
-- 
2.43.0


From 66c4446d9f1ef7342a131e32dd306f56407fd550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:18 +0000
Subject: [PATCH 52/68] fix: require a block type for block specs in hcldec

---
 cmd/hcldec/spec.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index c13f9b5..8f0d6dd 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -256,6 +256,16 @@ func decodeBlockSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Diagno
 	diags = append(diags, nestedDiags...)
 	spec.Nested = nested
 
+	if spec.TypeName == "" {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Missing block_type in block spec",
+			Detail:   "The block_type attribute is required, to specify the block type name that is expected in an input HCL file.",
+			Subject:  body.MissingItemRange().Ptr(),
+		})
+		return errSpec, diags
+	}
+
 	return spec, diags
 }
 
-- 
2.43.0


From 264d2b22b3815673fef4b9a8cb84b7fc57e401c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:21 +0000
Subject: [PATCH 53/68] fix: keep full precision of numbers in hcldec output

---
 cmd/hcldec/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 16dbb03..c90cb95 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"io/ioutil"
@@ -332,7 +333,9 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 
 func stripJSONNullProperties(src []byte) []byte {
 	var v interface{}
-	err := json.Unmarshal(src, &v)
+	dec := json.NewDecoder(bytes.NewReader(src))
+	dec.UseNumber() // preserve the numbers exactly as given
+	err := dec.Decode(&v)
 	if err != nil {
 		// We expect valid JSON
 		panic(err)
-- 
2.43.0


From a730e8cd6a3f3c35b2fbe87f88d90bccb59893af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:23 +0000
Subject: [PATCH 54/68] fix: report failure to write hcldec output

---
 cmd/hcldec/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index c90cb95..7457f03 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -218,7 +218,9 @@ func realmain(args []string) error {
 		}
 	}
 
-	fmt.Fprintf(target, "%s\n", out)
+	if _, err := fmt.Fprintf(target, "%s\n", out); err != nil {
+		return fmt.Errorf("failed to write result: %s", err)
+	}
 
 	return nil
 }
@@ -326,7 +328,9 @@ func showVarRefsJSON(vars []hcl.Traversal, ctx *hcl.EvalContext) error {
 		}
 	}
 
-	fmt.Fprintf(target, "%s\n", out)
+	if _, err := fmt.Fprintf(target, "%s\n", out); err != nil {
+		return fmt.Errorf("failed to write result: %s", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 4fd7580ad3a627a817b8b8eb26f683dc2e1b6ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:26 +0000
Subject: [PATCH 55/68] fix: check each file given to hclfmt -check

---
 cmd/hclfmt/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/hclfmt/main.go b/cmd/hclfmt/main.go
index 5223897..5733b8c 100644
--- a/cmd/hclfmt/main.go
+++ b/cmd/hclfmt/main.go
@@ -10,6 +10,7 @@ import (
 	"strings"
 
 	"github.com/hashicorp/hcl2/hcl"
+	"github.com/hashicorp/hcl2/hcl/hclsyntax"
 	"github.com/hashicorp/hcl2/hclparse"
 	"github.com/hashicorp/hcl2/hclwrite"
 	"golang.org/x/crypto/ssh/terminal"
@@ -119,7 +120,10 @@ func processFile(fn string, in *os.File) error {
 	}
 
 	if *check {
-		_, diags := parser.ParseHCL(inSrc, fn)
+		// We always parse here, rather than using parser.ParseHCL, because
+		// that would skip any file that was already given before.
+		f, diags := hclsyntax.ParseConfig(inSrc, fn, hcl.Pos{Byte: 0, Line: 1, Column: 1})
+		parser.AddFile(fn, f)
 		diagWr.WriteDiagnostics(diags)
 		if diags.HasErrors() {
 			checkErrs = true
-- 
2.43.0


From c35943d3e7c5174377b8dc9cf568e8851e8dc4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:56:29 +0000
Subject: [PATCH 56/68] fix: detect dynamic element types in block_map specs of
 hcldec

---
 cmd/hcldec/spec.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 8f0d6dd..5fdb914 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -404,7 +404,7 @@ func decodeBlockMapSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Dia
 		return errSpec, diags
 	}
 
-	if hcldec.ImpliedType(spec).HasDynamicTypes() {
+	if hasDynamicTypes(hcldec.ImpliedType(spec)) {
 		diags = append(diags, &hcl.Diagnostic{
 			Severity: hcl.DiagError,
 			Summary:  "Invalid block_map spec",
@@ -416,6 +416,31 @@ func decodeBlockMapSpec(body hcl.Body, impliedName string) (hcldec.Spec, hcl.Dia
 	return spec, diags
 }
 
+// hasDynamicTypes returns true if the given type is or contains the dynamic
+// pseudo-type, including as the element type of a collection.
+func hasDynamicTypes(ty cty.Type) bool {
+	switch {
+	case ty.IsCollectionType():
+		return hasDynamicTypes(ty.ElementType())
+	case ty.IsTupleType():
+		for _, ety := range ty.TupleElementTypes() {
+			if hasDynamicTypes(ety) {
+				return true
+			}
+		}
+		return false
+	case ty.IsObjectType():
+		for _, aty := range ty.AttributeTypes() {
+			if hasDynamicTypes(aty) {
+				return true
+			}
+		}
+		return false
+	default:
+		return ty == cty.DynamicPseudoType
+	}
+}
+
 func decodeBlockNestedSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 	content, diags := body.Content(specSchemaUnlabelled)
 
-- 
2.43.0


From 436ac1a3cb25c95a3c8684d0105508c32ad52e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:30 +0000
Subject: [PATCH 57/68] fix: hcldec: keep the implied type when a transform
 expression fails

The result of a failed expression has no type, so a block map with such a
transform in one of several blocks panicked about inconsistent types instead
of reporting the error.
---
 hcldec/spec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index e7e0dfd..aa64048 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -1536,6 +1536,9 @@ func (s *TransformExprSpec) decode(content *hcl.BodyContent, blockLabels []block
 	}
 	resultVal, resultDiags := s.Expr.Value(chiCtx)
 	diags = append(diags, resultDiags...)
+	if resultDiags.HasErrors() {
+		return cty.UnknownVal(s.impliedType()), diags
+	}
 	return resultVal, diags
 }
 
-- 
2.43.0


From a0b9d1274af6d7088b43bca3e155732a70f09ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:04:33 +0000
Subject: [PATCH 58/68] fix: cmd/hcldec: require the result of a transform spec

The attribute is documented as required, but leaving it out was accepted and
made every result null.
---
 cmd/hcldec/spec.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cmd/hcldec/spec.go b/cmd/hcldec/spec.go
index 5fdb914..2a1d258 100644
--- a/cmd/hcldec/spec.go
+++ b/cmd/hcldec/spec.go
@@ -589,7 +589,7 @@ func decodeDefaultSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 
 func decodeTransformSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 	type content struct {
-		Result hcl.Expression `hcl:"result"`
+		Result *hcl.Attribute `hcl:"result"`
 		Nested hcl.Body       `hcl:",remain"`
 	}
 
@@ -599,8 +599,18 @@ func decodeTransformSpec(body hcl.Body) (hcldec.Spec, hcl.Diagnostics) {
 		return errSpec, diags
 	}
 
+	if args.Result == nil {
+		diags = append(diags, &hcl.Diagnostic{
+			Severity: hcl.DiagError,
+			Summary:  "Missing result in transform spec",
+			Detail:   "The result attribute is required, to specify the expression that produces the result of the transform.",
+			Subject:  body.MissingItemRange().Ptr(),
+		})
+		return errSpec, diags
+	}
+
 	spec := &hcldec.TransformExprSpec{
-		Expr:         args.Result,
+		Expr:         args.Result.Expr,
 		VarName:      "nested",
 		TransformCtx: specCtx,
 	}
-- 
2.43.0


From f4fd74ff95dbaa4b5172312b93fcfa1f24361899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:19 +0000
Subject: [PATCH 59/68] fix: cmd/hcldec: report values without JSON form also
 with --with-type

The marshaler ignores such errors when asked for type information and gives
malformed JSON, on which the command then panicked.
---
 cmd/hcldec/main.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cmd/hcldec/main.go b/cmd/hcldec/main.go
index 7457f03..369635b 100644
--- a/cmd/hcldec/main.go
+++ b/cmd/hcldec/main.go
@@ -193,13 +193,14 @@ func realmain(args []string) error {
 		os.Exit(2)
 	}
 
-	wantType := val.Type()
-	if *withType {
+	out, err := ctyjson.Marshal(val, val.Type())
+	if err == nil && *withType {
 		// We'll instead ask to encode as dynamic, which will make the
-		// marshaler include type information.
-		wantType = cty.DynamicPseudoType
+		// marshaler include type information. In this case it doesn't report
+		// values that can't be represented, so we do this only once we know
+		// that encoding the value is possible.
+		out, err = ctyjson.Marshal(val, cty.DynamicPseudoType)
 	}
-	out, err := ctyjson.Marshal(val, wantType)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 0f173a385287dfe8653d4a53e045e283602bfc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:31 +0000
Subject: [PATCH 60/68] fix: hcldec: compare block map keys in the form they
 have in the result

Map keys and attribute names are normalized by cty, so two blocks whose
labels differ only in their Unicode form were not reported as duplicates and
one of them, picked at random, was silently dropped.
---
 hcldec/spec.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hcldec/spec.go b/hcldec/spec.go
index aa64048..f0b0e8d 100644
--- a/hcldec/spec.go
+++ b/hcldec/spec.go
@@ -911,7 +911,8 @@ func (s *BlockMapSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 		childLabels := labelsForBlock(childBlock)
 		val, _, childDiags := decode(childBlock.Body, childLabels[len(s.LabelNames):], ctx, s.Nested, false)
 		targetMap := elems
-		for _, key := range childBlock.Labels[:len(s.LabelNames)-1] {
+		for _, label := range childBlock.Labels[:len(s.LabelNames)-1] {
+			key := cty.NormalizeString(label)
 			if _, exists := targetMap[key]; !exists {
 				targetMap[key] = make(map[string]interface{})
 			}
@@ -920,7 +921,7 @@ func (s *BlockMapSpec) decode(content *hcl.BodyContent, blockLabels []blockLabel
 
 		diags = append(diags, childDiags...)
 
-		key := childBlock.Labels[len(s.LabelNames)-1]
+		key := cty.NormalizeString(childBlock.Labels[len(s.LabelNames)-1])
 		if _, exists := targetMap[key]; exists {
 			labelsBuf := bytes.Buffer{}
 			for _, label := range childBlock.Labels {
@@ -1057,7 +1058,8 @@ func (s *BlockObjectSpec) decode(content *hcl.BodyContent, blockLabels []blockLa
 		childLabels := labelsForBlock(childBlock)
 		val, _, childDiags := decode(childBlock.Body, childLabels[len(s.LabelNames):], ctx, s.Nested, false)
 		targetMap := elems
-		for _, key := range childBlock.Labels[:len(s.LabelNames)-1] {
+		for _, label := range childBlock.Labels[:len(s.LabelNames)-1] {
+			key := cty.NormalizeString(label)
 			if _, exists := targetMap[key]; !exists {
 				targetMap[key] = make(map[string]interface{})
 			}
@@ -1066,7 +1068,7 @@ func (s *BlockObjectSpec) decode(content *hcl.BodyContent, blockLabels []blockLa
 
 		diags = append(diags, childDiags...)
 
-		key := childBlock.Labels[len(s.LabelNames)-1]
+		key := cty.NormalizeString(childBlock.Labels[len(s.LabelNames)-1])
 		if _, exists := targetMap[key]; exists {
 			labelsBuf := bytes.Buffer{}
 			for _, label := range childBlock.Labels {
-- 
2.43.0


From b8c3825aa6daa255e647a667e8a1a8c604d007c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:03:00 +0000
Subject: [PATCH 61/68] fix: gohcl: ignore undecoded attribute fields when
 encoding

A field of type *hcl.Attribute holds an attribute that was not decoded and is
documented to be ignored. It was compared after dereferencing the pointer, so
encoding a structure with a non-nil one panicked.
---
 gohcl/encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gohcl/encode.go b/gohcl/encode.go
index 3cbf7e4..87f7998 100644
--- a/gohcl/encode.go
+++ b/gohcl/encode.go
@@ -114,7 +114,7 @@ func populateBody(rv reflect.Value, ty reflect.Type, tags *fieldTags, dst *hclwr
 
 		if _, isAttr := tags.Attributes[name]; isAttr {
 
-			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(fieldTy) {
+			if exprType.AssignableTo(fieldTy) || attrType.AssignableTo(field.Type) {
 				continue // ignore undecoded fields
 			}
 			if !fieldVal.IsValid() {
-- 
2.43.0


From 08ae3588e9c5b0c46b05ab93348c674d30200f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:50 +0000
Subject: [PATCH 62/68] fix: gohcl: replace the target map also when there are
 no attributes

Decoding a body without any attributes into a map, or into a map field tagged
"remain", left the elements of an earlier decoding in place, since some
bodies return a nil attribute map when there is nothing to return.
---
 gohcl/decode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gohcl/decode.go b/gohcl/decode.go
index 3a149a8..2426475 100644
--- a/gohcl/decode.go
+++ b/gohcl/decode.go
@@ -199,7 +199,7 @@ func decodeBodyToStruct(body hcl.Body, ctx *hcl.EvalContext, val reflect.Value)
 
 func decodeBodyToMap(body hcl.Body, ctx *hcl.EvalContext, v reflect.Value) hcl.Diagnostics {
 	attrs, diags := body.JustAttributes()
-	if attrs == nil {
+	if attrs == nil && diags.HasErrors() {
 		return diags
 	}
 
-- 
2.43.0


From 8291cfa726a0e3325ce29cea5bb873f8c32ebe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:41 +0000
Subject: [PATCH 63/68] fix: hclsyntax: evaluation context of diagnostics for
 the condition of a for expression

---
 hcl/hclsyntax/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 0d58910..9838803 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -975,7 +975,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 				Subject:     e.CondExpr.Range().Ptr(),
 				Context:     &e.SrcRange,
 				Expression:  e.CondExpr,
-				EvalContext: ctx,
+				EvalContext: childCtx,
 			})
 			return cty.DynamicVal, diags
 		}
@@ -988,7 +988,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 				Subject:     e.CondExpr.Range().Ptr(),
 				Context:     &e.SrcRange,
 				Expression:  e.CondExpr,
-				EvalContext: ctx,
+				EvalContext: childCtx,
 			})
 			return cty.DynamicVal, diags
 		}
-- 
2.43.0


From 87a7243a9b2ddaa41a08f93d7a194227441344ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:37:31 +0000
Subject: [PATCH 64/68] fix: hclsyntax: report a null object key at the key
 rather than at the value

---
 hcl/hclsyntax/expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 9838803..025d7f1 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -744,7 +744,7 @@ func (e *ObjectConsExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics
 				Severity:    hcl.DiagError,
 				Summary:     "Null value as key",
 				Detail:      "Can't use a null value as a key.",
-				Subject:     item.ValueExpr.Range().Ptr(),
+				Subject:     item.KeyExpr.Range().Ptr(),
 				Expression:  item.KeyExpr,
 				EvalContext: ctx,
 			})
-- 
2.43.0


From fdb1bbf88416f73125efc039d56c402a10f0a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:38:11 +0000
Subject: [PATCH 65/68] fix: hclsyntax: report unusable keys and conditions of
 for expressions also after an unknown one

---
 hcl/hclsyntax/expression.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hcl/hclsyntax/expression.go b/hcl/hclsyntax/expression.go
index 025d7f1..b6df85b 100644
--- a/hcl/hclsyntax/expression.go
+++ b/hcl/hclsyntax/expression.go
@@ -1010,6 +1010,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 		it := collVal.ElementIterator()
 
 		known := true
+		invalid := false
 		for it.Next() {
 			k, v := it.Element()
 			childCtx := ctx.NewChild()
@@ -1023,7 +1024,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 				includeRaw, condDiags := e.CondExpr.Value(childCtx)
 				diags = append(diags, condDiags...)
 				if includeRaw.IsNull() {
-					if known {
+					if !invalid {
 						diags = append(diags, &hcl.Diagnostic{
 							Severity:    hcl.DiagError,
 							Summary:     "Invalid 'for' condition",
@@ -1035,11 +1036,12 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 						})
 					}
 					known = false
+					invalid = true
 					continue
 				}
 				include, err := convert.Convert(includeRaw, cty.Bool)
 				if err != nil {
-					if known {
+					if !invalid {
 						diags = append(diags, &hcl.Diagnostic{
 							Severity:    hcl.DiagError,
 							Summary:     "Invalid 'for' condition",
@@ -1051,6 +1053,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 						})
 					}
 					known = false
+					invalid = true
 					continue
 				}
 				if !include.IsKnown() {
@@ -1067,7 +1070,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 			keyRaw, keyDiags := e.KeyExpr.Value(childCtx)
 			diags = append(diags, keyDiags...)
 			if keyRaw.IsNull() {
-				if known {
+				if !invalid {
 					diags = append(diags, &hcl.Diagnostic{
 						Severity:    hcl.DiagError,
 						Summary:     "Invalid object key",
@@ -1079,6 +1082,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 					})
 				}
 				known = false
+				invalid = true
 				continue
 			}
 			if !keyRaw.IsKnown() {
@@ -1088,7 +1092,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 
 			key, err := convert.Convert(keyRaw, cty.String)
 			if err != nil {
-				if known {
+				if !invalid {
 					diags = append(diags, &hcl.Diagnostic{
 						Severity:    hcl.DiagError,
 						Summary:     "Invalid object key",
@@ -1100,6 +1104,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 					})
 				}
 				known = false
+				invalid = true
 				continue
 			}
 
@@ -1150,6 +1155,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 		it := collVal.ElementIterator()
 
 		known := true
+		invalid := false
 		for it.Next() {
 			k, v := it.Element()
 			childCtx := ctx.NewChild()
@@ -1163,7 +1169,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 				includeRaw, condDiags := e.CondExpr.Value(childCtx)
 				diags = append(diags, condDiags...)
 				if includeRaw.IsNull() {
-					if known {
+					if !invalid {
 						diags = append(diags, &hcl.Diagnostic{
 							Severity:    hcl.DiagError,
 							Summary:     "Invalid 'for' condition",
@@ -1175,6 +1181,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 						})
 					}
 					known = false
+					invalid = true
 					continue
 				}
 				if !includeRaw.IsKnown() {
@@ -1187,7 +1194,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 
 				include, err := convert.Convert(includeRaw, cty.Bool)
 				if err != nil {
-					if known {
+					if !invalid {
 						diags = append(diags, &hcl.Diagnostic{
 							Severity:    hcl.DiagError,
 							Summary:     "Invalid 'for' condition",
@@ -1199,6 +1206,7 @@ func (e *ForExpr) Value(ctx *hcl.EvalContext) (cty.Value, hcl.Diagnostics) {
 						})
 					}
 					known = false
+					invalid = true
 					continue
 				}
 
-- 
2.43.0


From 13fc39cf3c036247a3f714091400f6f84de31c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:22 +0000
Subject: [PATCH 66/68] fix: typeexpr: don't render an object type with the
 attribute "for" first

---
 ext/typeexpr/public.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/typeexpr/public.go b/ext/typeexpr/public.go
index e3f5eef..8a67e26 100644
--- a/ext/typeexpr/public.go
+++ b/ext/typeexpr/public.go
@@ -83,6 +83,10 @@ func TypeString(ty cty.Type) string {
 			names = append(names, name)
 		}
 		sort.Strings(names)
+		if len(names) > 1 && names[0] == "for" {
+			// A leading "for" would introduce a for expression.
+			names[0], names[1] = names[1], names[0]
+		}
 		first := true
 		for _, name := range names {
 			aty := atys[name]
-- 
2.43.0


From 43c26c0f1ed77835cbbb9d50e12555beaa9107d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:47:23 +0000
Subject: [PATCH 67/68] fix: treat a nil packed body as empty everywhere

Content and JustAttributes take a nil body to be an empty one, but
PartialContent and MissingItemRange dereferenced it and panicked.
---
 hclpack/structure.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hclpack/structure.go b/hclpack/structure.go
index 5c4c83b..9399811 100644
--- a/hclpack/structure.go
+++ b/hclpack/structure.go
@@ -36,8 +36,9 @@ func (b *Body) Content(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Diagnostic
 // so callers can type-assert to obtain a child Body in order to serialize it
 // separately if needed.
 func (b *Body) PartialContent(schema *hcl.BodySchema) (*hcl.BodyContent, hcl.Body, hcl.Diagnostics) {
-	remain := &Body{
-		MissingItemRange_: b.MissingItemRange_,
+	remain := &Body{}
+	if b != nil { // We'll treat a nil body like an empty one, for convenience
+		remain.MissingItemRange_ = b.MissingItemRange_
 	}
 	content, diags := b.content(schema, remain)
 	return content, remain, diags
@@ -225,6 +226,9 @@ func (b *Body) JustAttributes() (hcl.Attributes, hcl.Diagnostics) {
 
 // MissingItemRange is an implementation of the method of the same name on hcl.Body.
 func (b *Body) MissingItemRange() hcl.Range {
+	if b == nil {
+		return hcl.Range{} // We'll treat a nil body like an empty one, for convenience
+	}
 	return b.MissingItemRange_
 }
 
-- 
2.43.0


From 83ee1459b410ed2765a9f03aa7697f25672312cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:59:11 +0000
Subject: [PATCH 68/68] fix: say where items are missing in the content of
 merged bodies

The content of a merged body had no range for missing items, so that an
error about a missing block pointed at line zero of a file without a name.
---
 hcl/merged.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hcl/merged.go b/hcl/merged.go
index 96e62a5..d475281 100644
--- a/hcl/merged.go
+++ b/hcl/merged.go
@@ -159,7 +159,7 @@ func (mb mergedBodies) mergedContent(schema *BodySchema, partial bool) (*BodyCon
 	}
 
 	var diags Diagnostics
-	for _, body := range mb {
+	for i, body := range mb {
 		var thisContent *BodyContent
 		var thisLeftovers Body
 		var thisDiags Diagnostics
@@ -177,6 +177,11 @@ func (mb mergedBodies) mergedContent(schema *BodySchema, partial bool) (*BodyCon
 			diags = append(diags, thisDiags...)
 		}
 
+		if i == 0 {
+			// arbitrarily use the first body's missing item range
+			content.MissingItemRange = thisContent.MissingItemRange
+		}
+
 		if thisContent.Attributes != nil {
 			for name, attr := range thisContent.Attributes {
 				if existing := content.Attributes[name]; existing != nil {
-- 
2.43.0

