From e51f1dfb01d0731d850f83dc22dbb36fe3d597cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:55 +0000
Subject: [PATCH 01/38] fix: give tags, reader conditionals and EOF after #
 their real positions

The octothorpe token of a tag started one column late and the token of a
reader conditional two or three columns late; an EOF right after # or #?
closed the token channel without an EOF token, so that the resulting error
had no position.
---
 parse/lex.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 85ad163..87fd008 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -419,7 +419,7 @@ func lexDispatch(l *lexer) stateFn {
 	r, eof := l.next()
 	if eof {
 		l.emit(tokOctothorpe)
-		return nil
+		return l.eof()
 	}
 	val := string(l.val)
 	switch r {
@@ -432,15 +432,13 @@ func lexDispatch(l *lexer) stateFn {
 		// Check whether we have #?(...) or #?@(...).
 		r, eof = l.next()
 		if eof {
-			l.synth(tokDispatch, val)
-			return nil
+			l.emit(tokDispatch)
+			return l.eof()
 		}
 		if r != '@' {
 			l.back()
 		}
-		val = string(l.val)
-		l.skip()
-		l.synth(tokDispatch, val)
+		l.emit(tokDispatch)
 		return lexOuter
 	case ':':
 		l.synth(tokDispatch, val)
@@ -460,7 +458,6 @@ func lexDispatch(l *lexer) stateFn {
 		l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
-		l.skip()
 		l.emit(tokOctothorpe)
 	}
 	return lexOuter
-- 
2.43.0


From af1ce7488c93b6136a48a0f768b0b8a1e1500379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:09 +0000
Subject: [PATCH 02/38] fix: don't let a newline be the operand of ^, #_ or #=

'^\nfoo' made a metadata node whose child was the newline, which the printer
panics on, and '#_\nfoo' did not discard foo.
---
 parse/parse.go | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 58e8e57..bcf8180 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -226,6 +226,23 @@ func (t *Tree) parseNextSemantic() Node {
 	}
 }
 
+// parseOperand parses the item that a #_, ^, or #= prefix is attached to. Like
+// parseNextSemantic it skips newlines and expects that an item exists. However,
+// if the tree includes non-semantic nodes, then a comment which follows the
+// prefix is kept, as the prefix's operand.
+func (t *Tree) parseOperand() Node {
+	for {
+		if next := t.next(); next.typ == tokEOF {
+			t.unexpectedEOF(next)
+		}
+		t.backup()
+		n := t.parseNext()
+		if _, ok := n.(*CommentNode); isSemantic(n) || ok && t.includeNonSemantic {
+			return n
+		}
+	}
+}
+
 func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 	var r rune
 	val := tok.val[1:]
@@ -431,30 +448,15 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 }
 
 func (t *Tree) parseMetadata(start token) *MetadataNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &MetadataNode{Pos: start.pos, Node: t.parseNext()}
+	return &MetadataNode{Pos: start.pos, Node: t.parseOperand()}
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseOperand()}
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-	tok := t.next()
-	if tok.typ == tokEOF {
-		t.unexpectedEOF(tok)
-	}
-	t.backup()
-	return &ReaderEvalNode{Pos: start.pos, Node: t.parseNext()}
+	return &ReaderEvalNode{Pos: start.pos, Node: t.parseOperand()}
 }
 
 func (t *Tree) parseRegex(start token) *RegexNode {
-- 
2.43.0


From 3794eebbb82f54705e85d4b0e5b585786c067444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:30 +0000
Subject: [PATCH 03/38] fix: print tags such as '# _' so that they stay tags

The tag _ was printed as '#_', which discards the next form; likewise for tags
that start with =, ?, ! or <.
---
 format/format.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/format/format.go b/format/format.go
index 64b2c35..843586c 100644
--- a/format/format.go
+++ b/format/format.go
@@ -193,6 +193,10 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('`')
 		return p.printNode(node.Node, w)
 	case *parse.TagNode:
+		if strings.IndexAny(node.Val, "_=?!<") == 0 {
+			// "# _" is the tag _, but "#_" is a dispatch macro.
+			return w + p.writeString("# "+node.Val)
+		}
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
-- 
2.43.0


From 8bb94e3e8ac1c1187fae17294aa4176e3a68e409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:31 +0000
Subject: [PATCH 04/38] fix: keep unquoted derefs (~ @foo) distinct from
 unquote-splices (~@foo)

---
 format/format.go | 3 +++
 parse/parse.go   | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index 843586c..a407ab5 100644
--- a/format/format.go
+++ b/format/format.go
@@ -200,6 +200,9 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		return w + p.writeString("#"+node.Val)
 	case *parse.UnquoteNode:
 		w += p.writeByte('~')
+		if _, ok := node.Node.(*parse.DerefNode); ok {
+			w += p.writeByte(' ') // "~@" is unquote-splice
+		}
 		return p.printNode(node.Node, w)
 	case *parse.UnquoteSpliceNode:
 		w += p.writeString("~@")
diff --git a/parse/parse.go b/parse/parse.go
index bcf8180..988ab73 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -189,7 +189,10 @@ func (t *Tree) parseNext() Node {
 			next := t.next()
 			switch next.typ {
 			case tokAtSign:
-				return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				// "~ @foo" is an unquoted deref.
+				if next.pos.Offset == tok.pos.Offset+1 {
+					return &UnquoteSpliceNode{Pos: tok.pos, Node: t.parseNextSemantic()}
+				}
 			case tokEOF:
 				t.unexpectedEOF(next)
 			}
-- 
2.43.0


From bb55b0ab4c088dfcd2ea1dbbe35e604f2a9547a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 05/38] fix: keep code that follows a comment out of the
 comment

A comment ended by a carriage return, or one that a transform moved, could be
printed with the following code (or closing delimiter) on its line.
---
 format/format.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/format/format.go b/format/format.go
index a407ab5..356254b 100644
--- a/format/format.go
+++ b/format/format.go
@@ -93,6 +93,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 		}
 	}()
 	applyTransforms(t, p.Transforms)
+	t.Roots = terminateComments(t.Roots)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
 		p.markThreadFirsts(node)
@@ -102,6 +103,52 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	return p.bw.Flush()
 }
 
+// terminateComments adds newlines to ensure that every comment is the last
+// thing on its line; otherwise, whatever follows would become part of it.
+// (A comment which was not followed by a newline node was ended by a carriage
+// return or else some transform moved the newline.)
+func terminateComments(nodes []parse.Node) []parse.Node {
+	var newNodes []parse.Node
+	for i, n := range nodes {
+		newNodes = append(newNodes, n)
+		if endsWithComment(n) && i+1 < len(nodes) && !goclj.Newline(nodes[i+1]) {
+			newNodes = append(newNodes, &parse.NewlineNode{})
+		}
+		children := n.Children()
+		if len(children) == 0 {
+			continue
+		}
+		newChildren := terminateComments(children)
+		if !isPrefixNode(n) && endsWithComment(newChildren[len(newChildren)-1]) {
+			// The closing delimiter comes next.
+			newChildren = append(newChildren, &parse.NewlineNode{})
+		}
+		if len(newChildren) != len(children) {
+			n.SetChildren(newChildren)
+		}
+	}
+	return newNodes
+}
+
+func endsWithComment(n parse.Node) bool {
+	if isPrefixNode(n) {
+		return endsWithComment(n.Children()[0])
+	}
+	return goclj.Comment(n)
+}
+
+// isPrefixNode reports whether n is written as a prefix followed by its only
+// child.
+func isPrefixNode(n parse.Node) bool {
+	switch n.(type) {
+	case *parse.DerefNode, *parse.MetadataNode, *parse.QuoteNode,
+		*parse.ReaderDiscardNode, *parse.ReaderEvalNode,
+		*parse.SyntaxQuoteNode, *parse.UnquoteNode, *parse.UnquoteSpliceNode:
+		return true
+	}
+	return false
+}
+
 // printNode prints a representation of node using w, the given indent level
 // as a baseline. It returns the new indent.
 func (p *Printer) printNode(node parse.Node, w int) int {
-- 
2.43.0


From 5861296c2f9d53b36346c1fb959cf166569a0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 06/38] fix: don't take a string followed only by comments for
 a docstring

A string which was only followed by comments or by discarded forms was
reindented, though it is the value (of a def, say) and not a docstring.
---
 format/docstring.go | 13 +++++++++++++
 format/format.go    | 28 ++++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/format/docstring.go b/format/docstring.go
index 4a0db83..de7636c 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -19,6 +19,7 @@ func (p *Printer) markDocstrings(n parse.Node) {
 		return
 	}
 	var docstring *parse.StringNode
+	discarded := 0 // how many of the next forms are discarded
 	for _, node := range nodes[2:] {
 		if goclj.Newline(node) {
 			continue
@@ -30,7 +31,19 @@ func (p *Printer) markDocstrings(n parse.Node) {
 		//   (def s "this is not a docstring")
 		//   (def s "this is a docstring" "x")
 		//
+		// (Comments and discarded forms don't count.)
 		if docstring != nil {
+			if goclj.Comment(node) {
+				continue
+			}
+			if _, ok := node.(*parse.ReaderDiscardNode); ok {
+				discarded += missingForms(node)
+				continue
+			}
+			if discarded > 0 {
+				discarded += missingForms(node) - 1
+				continue
+			}
 			p.docstrings[docstring] = struct{}{}
 			return
 		}
diff --git a/format/format.go b/format/format.go
index 356254b..261986e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -149,6 +149,34 @@ func isPrefixNode(n parse.Node) bool {
 	return false
 }
 
+// missingForms returns how many of the forms that follow n belong to n.
+// For instance, the parser doesn't attach the form that follows a tag or some
+// metadata to the corresponding node.
+func missingForms(n parse.Node) int {
+	switch n.(type) {
+	case *parse.TagNode:
+		return 1
+	case *parse.MetadataNode:
+		return 1 + missingOperandForms(n.Children()[0])
+	}
+	if isPrefixNode(n) {
+		return missingOperandForms(n.Children()[0])
+	}
+	return 0
+}
+
+// missingOperandForms is like missingForms for the child of a prefix node. Such
+// a child may not be a form at all.
+func missingOperandForms(n parse.Node) int {
+	switch n.(type) {
+	case *parse.CommentNode:
+		return 1
+	case *parse.ReaderDiscardNode:
+		return 1 + missingForms(n)
+	}
+	return missingForms(n)
+}
+
 // printNode prints a representation of node using w, the given indent level
 // as a baseline. It returns the new indent.
 func (p *Printer) printNode(node parse.Node, w int) int {
-- 
2.43.0


From bee3df35b0370396cc3d269868fd50abdec86cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 07/38] fix: keep metadata, comments and their targets together
 when sorting ns clauses

Metadata, tags and unfinished discards were separated from the forms they apply
to, a second comment beside an entry was lost, and a comment beside :require
moved so that formatting again gave a different result.
---
 format/transform.go | 59 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 2e29b3b..4c697d8 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -284,7 +284,8 @@ func enforceNSStyle(ns parse.Node) {
 		if isSym {
 			clauseChildren[0] = &parse.KeywordNode{Val: ":" + clause}
 		}
-		if multipleArgs && len(clauseChildren) >= 2 && goclj.Semantic(clauseChildren[1]) {
+		if multipleArgs && len(clauseChildren) >= 2 &&
+			!goclj.Newline(clauseChildren[1]) && !goclj.Comment(clauseChildren[1]) {
 			clauseChildren = append(
 				[]parse.Node{clauseChildren[0], newline},
 				clauseChildren[1:]...,
@@ -360,35 +361,60 @@ func sortImportRequire(n *parse.ListNode) {
 	var (
 		nodes             = n.Children()
 		sorted            = make(importRequireList, 0, len(nodes)/2)
+		keywordComments   []*parse.CommentNode
 		lineComments      []*parse.CommentNode
 		initialNewline    = false
 		afterSemanticNode = false
+		missing           = 0 // forms needed to complete the last entry
 	)
-	for i, node := range nodes[1:] {
+	for _, node := range nodes[1:] {
+		if missing > 0 {
+			// Keep prefixes, such as metadata, with their target.
+			last := sorted[len(sorted)-1]
+			if goclj.Newline(node) {
+				continue
+			}
+			last.nodes = append(last.nodes, node)
+			if goclj.Comment(node) {
+				continue
+			}
+			missing += missingForms(node)
+			if _, ok := node.(*parse.ReaderDiscardNode); !ok {
+				missing--
+			}
+			continue
+		}
 		switch node := node.(type) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
-				sorted[len(sorted)-1].commentBeside = node
+				last := sorted[len(sorted)-1]
+				last.commentsBeside = append(last.commentsBeside, node)
+			} else if len(sorted) == 0 && !initialNewline {
+				keywordComments = append(keywordComments, node)
 			} else {
 				lineComments = append(lineComments, node)
 			}
 		case *parse.NewlineNode:
-			if i == 0 {
+			if len(sorted) == 0 {
 				initialNewline = true
 			}
 			afterSemanticNode = false
 		default:
 			ir := &importRequire{
 				commentsAbove: lineComments,
-				node:          node,
+				nodes:         []parse.Node{node},
 			}
 			sorted = append(sorted, ir)
 			lineComments = nil
 			afterSemanticNode = true
+			missing = missingForms(node)
 		}
 	}
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
+	for _, cn := range keywordComments {
+		newNodes = append(newNodes, cn)
+	}
 	if initialNewline {
 		newNodes = append(newNodes, newline)
 	}
@@ -396,9 +422,9 @@ func sortImportRequire(n *parse.ListNode) {
 		for _, cn := range ir.commentsAbove {
 			newNodes = append(newNodes, cn, newline)
 		}
-		newNodes = append(newNodes, ir.node)
-		if ir.commentBeside != nil {
-			newNodes = append(newNodes, ir.commentBeside)
+		newNodes = append(newNodes, ir.nodes...)
+		for _, cn := range ir.commentsBeside {
+			newNodes = append(newNodes, cn)
 		}
 		newNodes = append(newNodes, newline)
 	}
@@ -567,9 +593,9 @@ func enforceConsistentIfNewlines(nodes []parse.Node) []parse.Node {
 
 // An importRequire is an import/require with associated comment nodes.
 type importRequire struct {
-	commentsAbove []*parse.CommentNode
-	commentBeside *parse.CommentNode
-	node          parse.Node
+	commentsAbove  []*parse.CommentNode
+	commentsBeside []*parse.CommentNode
+	nodes          []parse.Node // prefixes (metadata, say) and their target
 }
 
 type importRequireList []*importRequire
@@ -581,8 +607,8 @@ func (l importRequireList) Less(i, j int) bool {
 	// We only consider nodes comparable if they are symbols or
 	// lists/vectors with a symbol as a first child. Everything else
 	// compares as greater than one of these (and equal to one another).
-	k0, ok0 := getImportRequireSortKey(l[i].node)
-	k1, ok1 := getImportRequireSortKey(l[j].node)
+	k0, ok0 := l[i].sortKey()
+	k1, ok1 := l[j].sortKey()
 	if ok0 {
 		if ok1 {
 			return k0 < k1
@@ -592,6 +618,13 @@ func (l importRequireList) Less(i, j int) bool {
 	return false // junk == junk, junk > valid
 }
 
+func (ir *importRequire) sortKey() (key string, ok bool) {
+	if _, ok := ir.nodes[0].(*parse.ReaderDiscardNode); ok {
+		return "", false
+	}
+	return getImportRequireSortKey(ir.nodes[len(ir.nodes)-1])
+}
+
 func getImportRequireSortKey(n parse.Node) (key string, ok bool) {
 	switch n := n.(type) {
 	case *parse.SymbolNode:
-- 
2.43.0


From a871e76aa4e7cee170cedbd8d2aac35ca212cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 08/38] fix: don't split .foo or foo. into an import with an
 empty name

---
 format/transform.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 4c697d8..4423fde 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -336,7 +336,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j < 0 {
+			if j <= 0 || j == len(n.Val)-1 {
 				break
 			}
 			nodes[i] = &parse.ListNode{
-- 
2.43.0


From bc9a43e1d79a94c1969d105881d6a7d845864fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 09/38] fix: write merged requires in a deterministic order

---
 format/require.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/format/require.go b/format/require.go
index 9a58714..4a9e528 100644
--- a/format/require.go
+++ b/format/require.go
@@ -262,7 +262,13 @@ func (rl *requireList) render() []parse.Node {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
 	nodes = append(nodes, newline)
-	for _, r := range rl.m {
+	names := make([]string, 0, len(rl.m))
+	for name := range rl.m {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	for _, name := range names {
+		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline)
 		}
-- 
2.43.0


From f8b7709ba25c62109a095bf294f68f0bb140f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 10/38] fix: don't consider a referred / to be unused

---
 format/unused.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/unused.go b/format/unused.go
index 7e0512d..7ab043f 100644
--- a/format/unused.go
+++ b/format/unused.go
@@ -44,7 +44,8 @@ func findSymbols(roots []parse.Node) *symbolCache {
 			}
 		}
 		if name != "" {
-			if i := strings.IndexRune(name, '/'); i < 0 {
+			// (The symbol / has no namespace.)
+			if i := strings.IndexRune(name, '/'); i <= 0 {
 				syms.symbols[name] = struct{}{}
 			} else {
 				syms.namespaces[name[:i]] = struct{}{}
-- 
2.43.0


From 27724938bf359232848d7d28cb293d2cacba34d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 11/38] fix: \backspace is U+0008, not U+007F

---
 parse/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 988ab73..7c9870b 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -266,7 +266,7 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		case "formfeed":
 			r = '\f'
 		case "backspace":
-			r = 0x7f
+			r = '\b'
 		case "return":
 			r = '\r'
 		default:
-- 
2.43.0


From 5444582a79d109201d6a138f10a7a4a83fa7c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 12/38] fix: report errors writing to standard output

---
 cljfmt/cljfmt.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index 5035238..b263456 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -215,7 +215,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 	}
 	if !bytes.Equal(buf1.Bytes(), buf2.Bytes()) {
 		if c.list {
-			fmt.Println(filename)
+			if _, err := fmt.Println(filename); err != nil {
+				return err
+			}
 		}
 		if c.write {
 			if err := ioutil.WriteFile(filename, buf2.Bytes(), perm); err != nil {
@@ -224,7 +226,9 @@ func (c *config) processFile(filename string, in io.Reader) error {
 		}
 	}
 	if !c.list && !c.write {
-		io.Copy(os.Stdout, &buf2)
+		if _, err := io.Copy(os.Stdout, &buf2); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 8ede863bd2a3300941eddb16329c0d267051f2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:06 +0000
Subject: [PATCH 13/38] fix: don't leak the lexer goroutine when parsing fails

---
 parse/lex.go   | 26 ++++++++++++++++++++------
 parse/parse.go |  1 +
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/parse/lex.go b/parse/lex.go
index 87fd008..235557f 100644
--- a/parse/lex.go
+++ b/parse/lex.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"runtime"
 	"unicode"
 )
 
@@ -127,7 +128,8 @@ type lexer struct {
 	start   *Pos // the start position of the token being scanned
 	lastPos *Pos // the position before the most recent next() call
 	tokens  chan token
-	val     []rune // the literal contents of the token
+	done    chan struct{} // closed when no more tokens are wanted
+	val     []rune        // the literal contents of the token
 }
 
 func lex(name string, input *bufio.Reader) *lexer {
@@ -137,11 +139,23 @@ func lex(name string, input *bufio.Reader) *lexer {
 		pos:    &Pos{Name: name, Line: 1, Col: 1},
 		start:  &Pos{Name: name, Line: 1, Col: 1},
 		tokens: make(chan token),
+		done:   make(chan struct{}),
 	}
 	go l.run()
 	return l
 }
 
+// stop makes the lexer's goroutine exit. It may only be called once.
+func (l *lexer) stop() { close(l.done) }
+
+func (l *lexer) send(tok token) {
+	select {
+	case l.tokens <- tok:
+	case <-l.done:
+		runtime.Goexit()
+	}
+}
+
 type inputReadErr struct {
 	err error
 }
@@ -211,7 +225,7 @@ func (l *lexer) scanUntil(set string) {
 }
 
 func (l *lexer) emit(typ tokType) {
-	l.tokens <- token{typ, l.start, string(l.val)}
+	l.send(token{typ, l.start, string(l.val)})
 	l.skip()
 }
 
@@ -221,7 +235,7 @@ func (l *lexer) skip() {
 }
 
 func (l *lexer) synth(typ tokType, val string) {
-	l.tokens <- token{typ, l.start, val}
+	l.send(token{typ, l.start, val})
 }
 
 func (l *lexer) nextToken() token {
@@ -229,12 +243,12 @@ func (l *lexer) nextToken() token {
 }
 
 func (l *lexer) errorf(format string, args ...interface{}) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf(format, args...)}
+	l.send(token{tokError, l.start, fmt.Sprintf(format, args...)})
 	return nil
 }
 
 func (l *lexer) scanError(err error) stateFn {
-	l.tokens <- token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)}
+	l.send(token{tokError, l.start, fmt.Sprintf("error while scanning: %s", err)})
 	return nil
 }
 
@@ -455,7 +469,7 @@ func lexDispatch(l *lexer) stateFn {
 		return lexComment
 	case '<':
 		// #< is the 'unreadable' reader dispatch macro.
-		l.errorf("unreadable dispatch macro")
+		return l.errorf("unreadable dispatch macro")
 	default:
 		l.back()
 		l.emit(tokOctothorpe)
diff --git a/parse/parse.go b/parse/parse.go
index 7c9870b..1c53a44 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -40,6 +40,7 @@ func nodesToString(nodes []Node, depth int) string {
 }
 
 func (t *Tree) parse() (err error) {
+	defer t.lex.stop()
 	defer t.recover(&err)
 	var linkParents func(Node)
 	linkParents = func(n Node) {
-- 
2.43.0


From 27812bb0d85ba731c1d454cce44468de15ef3254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:19 +0000
Subject: [PATCH 14/38] fix: don't share a newline node among all formatted
 trees

Formatting different trees concurrently was a data race (on its parent).
---
 format/require.go   | 25 +++++++++++++------------
 format/transform.go | 10 +++++-----
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/format/require.go b/format/require.go
index 4a9e528..997d090 100644
--- a/format/require.go
+++ b/format/require.go
@@ -150,7 +150,8 @@ type nodeComments struct {
 	commentsBesideMerged bool
 }
 
-var newline = &parse.NewlineNode{}
+// newline makes a fresh node: every node has a single parent.
+func newline() *parse.NewlineNode { return &parse.NewlineNode{} }
 
 func (nc *nodeComments) attachCommentsAbove(cs []*parse.CommentNode) {
 	nc.commentsAbove = append(nc.commentsAbove, cs...)
@@ -261,7 +262,7 @@ func (rl *requireList) render() []parse.Node {
 	} else {
 		nodes = append(nodes, &parse.KeywordNode{Val: ":require"})
 	}
-	nodes = append(nodes, newline)
+	nodes = append(nodes, newline())
 	names := make([]string, 0, len(rl.m))
 	for name := range rl.m {
 		names = append(names, name)
@@ -270,7 +271,7 @@ func (rl *requireList) render() []parse.Node {
 	for _, name := range names {
 		r := rl.m[name]
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		parts := []parse.Node{&parse.SymbolNode{Val: r.name}}
 		as := sortStringSet(r.as)
@@ -284,7 +285,7 @@ func (rl *requireList) render() []parse.Node {
 					&parse.SymbolNode{Val: as[0]},
 				},
 			}
-			nodes = append(nodes, n, newline)
+			nodes = append(nodes, n, newline())
 			as = as[1:]
 		}
 		if len(as) > 0 {
@@ -308,25 +309,25 @@ func (rl *requireList) render() []parse.Node {
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, r := range rl.extraRequire {
 		for _, c := range r.comments.commentsAbove {
-			nodes = append(nodes, c, newline)
+			nodes = append(nodes, c, newline())
 		}
 		nodes = append(nodes, r.n)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
-		nodes = append(nodes, newline)
+		nodes = append(nodes, newline())
 	}
 	for _, c := range rl.commentsBelow {
-		nodes = append(nodes, c, newline)
+		nodes = append(nodes, c, newline())
 	}
 
 	list := []parse.Node{
 		&parse.ListNode{Nodes: nodes},
-		newline,
+		newline(),
 	}
 	if len(rl.extraUse) > 0 {
 		extra := []parse.Node{
@@ -334,17 +335,17 @@ func (rl *requireList) render() []parse.Node {
 		}
 		for _, n := range rl.extraUse {
 			for _, c := range n.comments.commentsAbove {
-				extra = append(extra, c, newline)
+				extra = append(extra, c, newline())
 			}
 			extra = append(extra, n.n)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
-			extra = append(extra, newline)
+			extra = append(extra, newline())
 		}
 		list = append(list,
 			&parse.ListNode{Nodes: extra},
-			newline,
+			newline(),
 		)
 	}
 	return list
diff --git a/format/transform.go b/format/transform.go
index 4423fde..79ee6ec 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -287,7 +287,7 @@ func enforceNSStyle(ns parse.Node) {
 		if multipleArgs && len(clauseChildren) >= 2 &&
 			!goclj.Newline(clauseChildren[1]) && !goclj.Comment(clauseChildren[1]) {
 			clauseChildren = append(
-				[]parse.Node{clauseChildren[0], newline},
+				[]parse.Node{clauseChildren[0], newline()},
 				clauseChildren[1:]...,
 			)
 		}
@@ -416,21 +416,21 @@ func sortImportRequire(n *parse.ListNode) {
 		newNodes = append(newNodes, cn)
 	}
 	if initialNewline {
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	for _, ir := range sorted {
 		for _, cn := range ir.commentsAbove {
-			newNodes = append(newNodes, cn, newline)
+			newNodes = append(newNodes, cn, newline())
 		}
 		newNodes = append(newNodes, ir.nodes...)
 		for _, cn := range ir.commentsBeside {
 			newNodes = append(newNodes, cn)
 		}
-		newNodes = append(newNodes, newline)
+		newNodes = append(newNodes, newline())
 	}
 	// unattached comments at the bottom
 	for _, cn := range lineComments {
-		newNodes = append(newNodes, cn, newline)
+		newNodes = append(newNodes, cn, newline())
 	}
 	// drop trailing newline
 	if len(newNodes) >= 2 && !goclj.Comment(newNodes[len(newNodes)-2]) {
-- 
2.43.0


From 8c92949aebbeb554324bb5f77052e632944f94a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:42 +0000
Subject: [PATCH 15/38] fix: don't carry state over between trees printed with
 the same Printer

The aliases of earlier trees affected indentation, and the caller's Transforms
map was modified.
---
 format/format.go | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/format/format.go b/format/format.go
index 261986e..c79cc2d 100644
--- a/format/format.go
+++ b/format/format.go
@@ -45,13 +45,8 @@ type Printer struct {
 // NewPrinter creates a printer to the given writer.
 func NewPrinter(w io.Writer) *Printer {
 	return &Printer{
-		bufWriter:     &bufWriter{bufio.NewWriter(w)},
-		IndentChar:    ' ',
-		specialIndent: make(map[parse.Node]IndentStyle),
-		threadFirst:   make(map[parse.Node]struct{}),
-		docstrings:    make(map[*parse.StringNode]struct{}),
-		requires:      make(map[string]string),
-		refers:        make(map[string]string),
+		bufWriter:  &bufWriter{bufio.NewWriter(w)},
+		IndentChar: ' ',
 	}
 }
 
@@ -71,15 +66,19 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 	for k, v := range p.ThreadFirstStyleOverrides {
 		p.threadFirstStyles[k] = v
 	}
-	if p.Transforms == nil {
-		p.Transforms = DefaultTransforms
-	} else {
-		for k, v := range DefaultTransforms {
-			if _, ok := p.Transforms[k]; !ok {
-				p.Transforms[k] = v
-			}
-		}
+	transforms := make(map[Transform]bool)
+	for k, v := range DefaultTransforms {
+		transforms[k] = v
+	}
+	for k, v := range p.Transforms {
+		transforms[k] = v
 	}
+	// Forget what was learned from previous trees.
+	p.specialIndent = make(map[parse.Node]IndentStyle)
+	p.threadFirst = make(map[parse.Node]struct{})
+	p.docstrings = make(map[*parse.StringNode]struct{})
+	p.requires = make(map[string]string)
+	p.refers = make(map[string]string)
 	defer func() {
 		if e := recover(); e != nil {
 			switch e := e.(type) {
@@ -92,7 +91,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
-	applyTransforms(t, p.Transforms)
+	applyTransforms(t, transforms)
 	t.Roots = terminateComments(t.Roots)
 	for _, node := range t.Roots {
 		p.markDocstrings(node)
-- 
2.43.0


From 68f22991727bdf78ff2ba1fb342fd281e82bf67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:43 +0000
Subject: [PATCH 16/38] fix: SetChildren of a node's old parent must not reset
 its Parent

Moving a child to a new parent and then removing it from the old one left the
child without a parent.
---
 parse/node.go | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/parse/node.go b/parse/node.go
index 6fc7c34..2b3dd08 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -71,7 +71,7 @@ func (n *DerefNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on DerefNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -102,7 +102,7 @@ func (n *ListNode) setParent(p Node) { n.parent = p }
 func (n *ListNode) Children() []Node { return n.Nodes }
 func (n *ListNode) SetChildren(nodes []Node) {
 	for _, c := range n.Nodes {
-		c.setParent(nil)
+		unlink(c, n)
 	}
 	n.Nodes = nodes
 	for _, c := range n.Nodes {
@@ -130,7 +130,7 @@ func (n *MapNode) setParent(p Node) { n.parent = p }
 func (n *MapNode) Children() []Node { return n.Nodes }
 func (n *MapNode) SetChildren(nodes []Node) {
 	for _, c := range n.Nodes {
-		c.setParent(nil)
+		unlink(c, n)
 	}
 	n.Nodes = nodes
 	for _, c := range n.Nodes {
@@ -152,7 +152,7 @@ func (n *MetadataNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on MetadataNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -217,7 +217,7 @@ func (n *QuoteNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on QuoteNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -248,7 +248,7 @@ func (n *SyntaxQuoteNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on SyntaxQuoteNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -267,7 +267,7 @@ func (n *UnquoteNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on UnquoteNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -286,7 +286,7 @@ func (n *UnquoteSpliceNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on UnquoteSpliceNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -305,7 +305,7 @@ func (n *VectorNode) setParent(p Node) { n.parent = p }
 func (n *VectorNode) Children() []Node { return n.Nodes }
 func (n *VectorNode) SetChildren(nodes []Node) {
 	for _, c := range n.Nodes {
-		c.setParent(nil)
+		unlink(c, n)
 	}
 	n.Nodes = nodes
 	for _, c := range n.Nodes {
@@ -327,7 +327,7 @@ func (n *FnLiteralNode) setParent(p Node) { n.parent = p }
 func (n *FnLiteralNode) Children() []Node { return n.Nodes }
 func (n *FnLiteralNode) SetChildren(nodes []Node) {
 	for _, c := range n.Nodes {
-		c.setParent(nil)
+		unlink(c, n)
 	}
 	n.Nodes = nodes
 	for _, c := range n.Nodes {
@@ -349,7 +349,7 @@ func (n *ReaderCondNode) setParent(p Node) { n.parent = p }
 func (n *ReaderCondNode) Children() []Node { return n.Nodes }
 func (n *ReaderCondNode) SetChildren(nodes []Node) {
 	for _, c := range n.Nodes {
-		c.setParent(nil)
+		unlink(c, n)
 	}
 	n.Nodes = nodes
 	for _, c := range n.Nodes {
@@ -371,7 +371,7 @@ func (n *ReaderCondSpliceNode) setParent(p Node) { n.parent = p }
 func (n *ReaderCondSpliceNode) Children() []Node { return n.Nodes }
 func (n *ReaderCondSpliceNode) SetChildren(nodes []Node) {
 	for _, c := range n.Nodes {
-		c.setParent(nil)
+		unlink(c, n)
 	}
 	n.Nodes = nodes
 	for _, c := range n.Nodes {
@@ -393,7 +393,7 @@ func (n *ReaderDiscardNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on ReaderDiscardNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -412,7 +412,7 @@ func (n *ReaderEvalNode) SetChildren(nodes []Node) {
 	if len(nodes) != 1 {
 		panicf("SetChildren called on ReaderEvalNode with %d nodes", len(nodes))
 	}
-	n.Node.setParent(nil)
+	unlink(n.Node, n)
 	n.Node = nodes[0]
 	n.Node.setParent(n)
 }
@@ -443,7 +443,7 @@ func (n *SetNode) setParent(p Node) { n.parent = p }
 func (n *SetNode) Children() []Node { return n.Nodes }
 func (n *SetNode) SetChildren(nodes []Node) {
 	for _, c := range n.Nodes {
-		c.setParent(nil)
+		unlink(c, n)
 	}
 	n.Nodes = nodes
 	for _, c := range n.Nodes {
@@ -475,6 +475,14 @@ func (n *TagNode) setParent(p Node)   { n.parent = p }
 func (n *TagNode) Children() []Node   { return nil }
 func (n *TagNode) SetChildren([]Node) { panic("SetChildren called on TagNode") }
 
+// unlink is called when child is removed from parent. The child may have been
+// moved to another parent already.
+func unlink(child, parent Node) {
+	if child.Parent() == parent {
+		child.setParent(nil)
+	}
+}
+
 func isSemantic(n Node) bool {
 	switch n.(type) {
 	case *CommentNode, *NewlineNode:
-- 
2.43.0


From 9763cb987d67fb09d433e1970817289a2b4f4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:56 +0000
Subject: [PATCH 17/38] fix: with IgnoreReaderDiscard, ignore all of the
 discarded form and only that

'#_ #_ a b', '#_ ^:m x' and '#_ #tag x' left part of the discarded forms, and
the x of 'quote #_x y' was quoted in place of y.
---
 parse/parse.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/parse/parse.go b/parse/parse.go
index 1c53a44..0cee7ad 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -224,6 +224,9 @@ func (t *Tree) parseNextSemantic() Node {
 		}
 		t.backup()
 		n := t.parseNext()
+		if _, ok := n.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
+			continue
+		}
 		if isSemantic(n) {
 			return n
 		}
@@ -241,6 +244,9 @@ func (t *Tree) parseOperand() Node {
 		}
 		t.backup()
 		n := t.parseNext()
+		if _, ok := n.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
+			continue
+		}
 		if _, ok := n.(*CommentNode); isSemantic(n) || ok && t.includeNonSemantic {
 			return n
 		}
@@ -456,7 +462,30 @@ func (t *Tree) parseMetadata(start token) *MetadataNode {
 }
 
 func (t *Tree) parseReaderDiscard(start token) *ReaderDiscardNode {
-	return &ReaderDiscardNode{Pos: start.pos, Node: t.parseOperand()}
+	n := &ReaderDiscardNode{Pos: start.pos, Node: t.parseOperand()}
+	if t.ignoreReaderDiscard {
+		// The operand may only be the beginning of the discarded form.
+		for missing := missingForms(n.Node); missing > 0; missing-- {
+			missing += missingForms(t.parseNextSemantic())
+		}
+	}
+	return n
+}
+
+// missingForms returns how many of the forms that follow n (in which discarded
+// forms have been ignored) belong to n.
+func missingForms(n Node) int {
+	switch n := n.(type) {
+	case *CommentNode: // as an operand
+		return 1
+	case *TagNode:
+		return 1
+	case *MetadataNode:
+		return 1 + missingForms(n.Node)
+	case *DerefNode, *QuoteNode, *ReaderEvalNode, *SyntaxQuoteNode, *UnquoteNode, *UnquoteSpliceNode:
+		return missingForms(n.Children()[0])
+	}
+	return 0
 }
 
 func (t *Tree) parseReaderEval(start token) *ReaderEvalNode {
-- 
2.43.0


From 0440c85a52779d11c01a8eeb81b77a473e229929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 18/38] fix: keep :refer-macros when merging a :use into a
 :require

---
 format/require.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/format/require.go b/format/require.go
index 997d090..ef1346f 100644
--- a/format/require.go
+++ b/format/require.go
@@ -301,9 +301,9 @@ func (rl *requireList) render() []parse.Node {
 			if n := r.refer.render(); n != nil {
 				parts = append(parts, &parse.KeywordNode{Val: ":refer"}, n)
 			}
-			if n := r.referMacros.render(); n != nil {
-				parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
-			}
+		}
+		if n := r.referMacros.render(); n != nil {
+			parts = append(parts, &parse.KeywordNode{Val: ":refer-macros"}, n)
 		}
 		nodes = append(nodes, &parse.VectorNode{Nodes: parts})
 		if r.comments.commentBeside != nil {
-- 
2.43.0


From 18ae9d5427d09ef3da97cdc6dbeaf7878c65224a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:46 +0000
Subject: [PATCH 19/38] fix: have the transforms see the newline that ends a
 comment

The newline after a comment which was ended by a carriage return was only added
after the transforms, so that formatting again could give a different result.
---
 format/format.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/format/format.go b/format/format.go
index c79cc2d..d654c5a 100644
--- a/format/format.go
+++ b/format/format.go
@@ -91,6 +91,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 			}
 		}
 	}()
+	t.Roots = terminateComments(t.Roots)
 	applyTransforms(t, transforms)
 	t.Roots = terminateComments(t.Roots)
 	for _, node := range t.Roots {
@@ -104,7 +105,7 @@ func (p *Printer) PrintTree(t *parse.Tree) (err error) {
 
 // terminateComments adds newlines to ensure that every comment is the last
 // thing on its line; otherwise, whatever follows would become part of it.
-// (A comment which was not followed by a newline node was ended by a carriage
+// (A comment which is not followed by a newline node was ended by a carriage
 // return or else some transform moved the newline.)
 func terminateComments(nodes []parse.Node) []parse.Node {
 	var newNodes []parse.Node
-- 
2.43.0


From 27c8a9a640ebf2d64e8ae93ce279e186104b3a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:47 +0000
Subject: [PATCH 20/38] fix: leave a prefix without a target at the end of a
 sorted ns clause

---
 format/transform.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 79ee6ec..804f64d 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -410,6 +410,9 @@ func sortImportRequire(n *parse.ListNode) {
 			missing = missingForms(node)
 		}
 	}
+	if missing > 0 {
+		sorted[len(sorted)-1].incomplete = true
+	}
 	sort.Stable(sorted)
 	newNodes := []parse.Node{nodes[0]}
 	for _, cn := range keywordComments {
@@ -596,6 +599,7 @@ type importRequire struct {
 	commentsAbove  []*parse.CommentNode
 	commentsBeside []*parse.CommentNode
 	nodes          []parse.Node // prefixes (metadata, say) and their target
+	incomplete     bool         // the target is missing
 }
 
 type importRequireList []*importRequire
@@ -619,7 +623,7 @@ func (l importRequireList) Less(i, j int) bool {
 }
 
 func (ir *importRequire) sortKey() (key string, ok bool) {
-	if _, ok := ir.nodes[0].(*parse.ReaderDiscardNode); ok {
+	if _, ok := ir.nodes[0].(*parse.ReaderDiscardNode); ok || ir.incomplete {
 		return "", false
 	}
 	return getImportRequireSortKey(ir.nodes[len(ir.nodes)-1])
-- 
2.43.0


From c82bed4b8d3be2088cbe7ce46430b55776e5718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:55 +0000
Subject: [PATCH 21/38] fix: only join a defn's arglist or defmethod's dispatch
 value to the name

With an empty line or comment before it, there is no name there, and formatting
again gave a different result.
---
 format/transform.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/format/transform.go b/format/transform.go
index 804f64d..3fb6e5b 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -469,6 +469,9 @@ func fixDefnArglist(defn parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
+	if goclj.Newline(nodes[1]) || goclj.Comment(nodes[1]) {
+		return
+	}
 	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {
 		return
 	}
@@ -485,6 +488,9 @@ func fixDefmethodDispatchVal(defmethod parse.Node) {
 	if len(nodes) < 5 {
 		return
 	}
+	if goclj.Newline(nodes[1]) || goclj.Comment(nodes[1]) {
+		return
+	}
 	if !goclj.Newline(nodes[2]) {
 		return
 	}
-- 
2.43.0


From 6e07dd90b45cf36cc4766b9dc69c3dc93167e7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:56 +0000
Subject: [PATCH 22/38] fix: don't split imports such as java.#!x, where the
 class wouldn't be a symbol

---
 format/transform.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index 3fb6e5b..cf6e104 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -3,6 +3,8 @@ package format
 import (
 	"sort"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 
 	"github.com/cespare/goclj"
 	"github.com/cespare/goclj/parse"
@@ -336,7 +338,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j <= 0 || j == len(n.Val)-1 {
+			if j <= 0 || !isClassName(n.Val[j+1:]) {
 				break
 			}
 			nodes[i] = &parse.ListNode{
@@ -349,6 +351,17 @@ func enforceImportStyle(nodes []parse.Node) {
 	}
 }
 
+// isClassName reports whether s, the end of some symbol, looks like the name of
+// a class. (In particular, is it a symbol by itself?)
+func isClassName(s string) bool {
+	r, _ := utf8.DecodeRuneInString(s)
+	switch s {
+	case "nil", "true", "false":
+		return false
+	}
+	return s != "" && (r == '_' || r == '$' || unicode.IsLetter(r))
+}
+
 func sortNS(ns parse.Node) {
 	for _, n := range ns.Children()[1:] {
 		if goclj.FnFormKeyword(n, ":require", ":require-macros", ":import") {
-- 
2.43.0


From ca4b2e8f57f94b9e29999a10c655488a02fd287c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:36 +0000
Subject: [PATCH 23/38] fix: a namespaced map starts at its #, not at its brace

---
 parse/parse.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parse/parse.go b/parse/parse.go
index 0cee7ad..12bb4fc 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -453,6 +453,7 @@ func (t *Tree) parseNamespacedMap(start token) *MapNode {
 		t.errorf(tok.pos, "namespaced map must have a map")
 	}
 	m := t.parseMap(tok)
+	m.Pos = start.pos
 	m.Namespace = ns
 	return m
 }
-- 
2.43.0


From aba92865615cd538a6c0f400905046dbb3ef4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 24/38] fix: indent the second of a pair once, however many
 newlines precede it

---
 format/format.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/format/format.go b/format/format.go
index d654c5a..3ce2405 100644
--- a/format/format.go
+++ b/format/format.go
@@ -728,8 +728,10 @@ func (p *Printer) printSequence(nodes []parse.Node, w int, style IndentStyle) in
 				IndentCond2,
 				IndentCond4:
 				if pairIdx > 0 {
-					w += 2
-					extraIndent = true
+					if !extraIndent {
+						w += 2
+						extraIndent = true
+					}
 				} else if i == 1 && semanticIdx == 1 {
 					w++
 				}
-- 
2.43.0


From cb0db1454e1d0ea90fd419fdcbc50624c45fb933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 25/38] fix: keep prefixes and their targets together when
 rewriting requires

---
 format/format.go    | 20 ++++++++++++++++++++
 format/require.go   | 19 +++++++++++++------
 format/transform.go | 11 +++++++----
 3 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/format/format.go b/format/format.go
index 3ce2405..9dbe429 100644
--- a/format/format.go
+++ b/format/format.go
@@ -177,6 +177,26 @@ func missingOperandForms(n parse.Node) int {
 	return missingForms(n)
 }
 
+// findOperands reports, for each node, whether it belongs to an earlier one
+// (because it is the target of metadata, say).
+func findOperands(nodes []parse.Node) []bool {
+	operands := make([]bool, len(nodes))
+	missing := 0
+	for i, n := range nodes {
+		if goclj.Newline(n) || goclj.Comment(n) {
+			continue
+		}
+		if missing > 0 {
+			operands[i] = true
+			if _, ok := n.(*parse.ReaderDiscardNode); !ok {
+				missing--
+			}
+		}
+		missing += missingForms(n)
+	}
+	return operands
+}
+
 // printNode prints a representation of node using w, the given indent level
 // as a baseline. It returns the new indent.
 func (p *Printer) printNode(node parse.Node, w int) int {
diff --git a/format/require.go b/format/require.go
index ef1346f..4858b14 100644
--- a/format/require.go
+++ b/format/require.go
@@ -172,7 +172,7 @@ func (nc *nodeComments) attachCommentBeside(c *parse.CommentNode) {
 }
 
 type nodeWithComments struct {
-	n        parse.Node
+	nodes    []parse.Node // prefixes (metadata, say) and their target
 	comments nodeComments
 }
 
@@ -228,7 +228,8 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	case ":require-macros", ":use-macros":
 		rl.macros = true
 	}
-	for _, node := range nodes[1:] {
+	operands := findOperands(nodes)
+	for i, node := range nodes[1:] {
 		switch node := node.(type) {
 		case *parse.CommentNode:
 			if afterSemanticNode {
@@ -239,11 +240,17 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 		case *parse.NewlineNode:
 			afterSemanticNode = false
 		default:
-			if r := parseFn(node); r != nil {
+			if operands[i+1] {
+				// Keep prefixes with their target. (Prefixes
+				// themselves aren't recognized.)
+				last := (*extra)[len(*extra)-1]
+				last.nodes = append(last.nodes, node)
+				prevComments = &last.comments
+			} else if r := parseFn(node); r != nil {
 				r2 := rl.merge(r)
 				prevComments = &r2.comments
 			} else {
-				nc := &nodeWithComments{n: node}
+				nc := &nodeWithComments{nodes: []parse.Node{node}}
 				*extra = append(*extra, nc)
 				prevComments = &nc.comments
 			}
@@ -315,7 +322,7 @@ func (rl *requireList) render() []parse.Node {
 		for _, c := range r.comments.commentsAbove {
 			nodes = append(nodes, c, newline())
 		}
-		nodes = append(nodes, r.n)
+		nodes = append(nodes, r.nodes...)
 		if r.comments.commentBeside != nil {
 			nodes = append(nodes, r.comments.commentBeside)
 		}
@@ -337,7 +344,7 @@ func (rl *requireList) render() []parse.Node {
 			for _, c := range n.comments.commentsAbove {
 				extra = append(extra, c, newline())
 			}
-			extra = append(extra, n.n)
+			extra = append(extra, n.nodes...)
 			if n.comments.commentBeside != nil {
 				extra = append(extra, n.comments.commentBeside)
 			}
diff --git a/format/transform.go b/format/transform.go
index cf6e104..c05dc46 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -175,13 +175,14 @@ func useToRequire(ns parse.Node) {
 	prevSkipped := false
 	nodes := []parse.Node{&parse.SymbolNode{Val: "ns"}}
 	i := 0
-	for _, n := range ns.Children()[1:] {
+	operands := findOperands(ns.Children())
+	for j, n := range ns.Children()[1:] {
 		if prevSkipped && goclj.Newline(n) {
 			prevSkipped = false
 			continue
 		}
 		prevSkipped = false
-		if goclj.FnFormKeyword(n, ":require", ":use") {
+		if goclj.FnFormKeyword(n, ":require", ":use") && !operands[j+1] {
 			children := n.Children()
 			name := children[0].(*parse.KeywordNode).Val
 			rl.parseRequireUse(children, name == ":use")
@@ -204,9 +205,10 @@ func useToRequire(ns parse.Node) {
 func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	children := ns.Children()
 	nodes := children[:0]
+	clauseOperands := findOperands(children)
 	for i := 0; i < len(children); i++ {
 		n := children[i]
-		if !goclj.FnFormKeyword(n, ":require", ":require-macros") {
+		if !goclj.FnFormKeyword(n, ":require", ":require-macros") || clauseOperands[i] {
 			nodes = append(nodes, n)
 			continue
 		}
@@ -214,12 +216,13 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 		// because they may be needed for their side-effects.
 		var keep []parse.Node
 		var requires []parse.Node
+		operands := findOperands(n.Children())
 		for i, child := range n.Children() {
 			if i == 0 {
 				requires = append(requires, child)
 				continue
 			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 {
+			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 && !operands[i] {
 				keep = append(keep, child)
 			} else {
 				requires = append(requires, child)
-- 
2.43.0


From 2be00f855dbceac771db4d39b3f23fc3b031fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:44 +0000
Subject: [PATCH 26/38] fix: don't remove [foo] because of a newline or comment
 in it

---
 format/transform.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/format/transform.go b/format/transform.go
index c05dc46..ff9ad42 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -222,7 +222,7 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 				requires = append(requires, child)
 				continue
 			}
-			if vec, ok := child.(*parse.VectorNode); ok && len(vec.Children()) == 1 && !operands[i] {
+			if isSideEffectRequire(child) && !operands[i] {
 				keep = append(keep, child)
 			} else {
 				requires = append(requires, child)
@@ -251,6 +251,21 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	ns.SetChildren(nodes)
 }
 
+// isSideEffectRequire reports whether n is of the form [foo].
+func isSideEffectRequire(n parse.Node) bool {
+	vec, ok := n.(*parse.VectorNode)
+	if !ok {
+		return false
+	}
+	semantic := 0
+	for _, child := range vec.Children() {
+		if goclj.Semantic(child) {
+			semantic++
+		}
+	}
+	return semantic == 1
+}
+
 func enforceNSStyle(ns parse.Node) {
 	children := ns.Children()
 	for i := 1; i < len(children); i++ {
-- 
2.43.0


From 9b0fdcd2ecd2efbe82cb3ffe18f1b45b338a2df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 27/38] fix: track the column correctly after a string that
 contains newlines

---
 format/format.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/format/format.go b/format/format.go
index 9dbe429..905b410 100644
--- a/format/format.go
+++ b/format/format.go
@@ -208,7 +208,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			return w + p.writeString("false")
 		}
 	case *parse.CharacterNode:
-		return w + p.writeString(node.Text)
+		return p.writeMultiline(node.Text, w)
 	case *parse.CommentNode:
 		return w + p.writeString(node.Text)
 	case *parse.DerefNode:
@@ -270,7 +270,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 		w += p.writeByte('\'')
 		return p.printNode(node.Node, w)
 	case *parse.RegexNode:
-		return w + p.writeString(`#"`+node.Val+`"`)
+		return p.writeMultiline(`#"`+node.Val+`"`, w)
 	case *parse.SetNode:
 		w += p.writeString("#{")
 		w = p.printSequence(node.Nodes, w, IndentNormal)
@@ -281,7 +281,7 @@ func (p *Printer) printNode(node parse.Node, w int) int {
 			val = p.alignDocstring(val, w)
 			delete(p.docstrings, node)
 		}
-		return w + p.writeString(`"`+val+`"`)
+		return p.writeMultiline(`"`+val+`"`, w)
 	case *parse.SymbolNode:
 		return w + p.writeString(node.Val)
 	case *parse.SyntaxQuoteNode:
@@ -840,6 +840,17 @@ func (bw *bufWriter) writeString(s string) int {
 	}
 	return n
 }
+
+// writeMultiline writes s, which may contain newlines, at column w.
+// It returns the new column.
+func (bw *bufWriter) writeMultiline(s string, w int) int {
+	n := bw.writeString(s)
+	if i := strings.LastIndexByte(s, '\n'); i >= 0 {
+		return n - (i + 1)
+	}
+	return w + n
+}
+
 func (bw *bufWriter) writeByte(b byte) int {
 	if err := bw.bw.WriteByte(b); err != nil {
 		panic(bufErr{err})
-- 
2.43.0


From b51111449598ddb8f0ba43489ed4ed8282d39321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:42 +0000
Subject: [PATCH 28/38] fix: keep the relative indentation of docstrings
 indented by tabs

The indent characters that an earlier run wrote weren't counted, so formatting
the output again lost the extra indentation.
---
 format/docstring.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format/docstring.go b/format/docstring.go
index de7636c..7df7f25 100644
--- a/format/docstring.go
+++ b/format/docstring.go
@@ -63,7 +63,7 @@ func (p *Printer) alignDocstring(docstring string, w int) string {
 	)
 	for _, line := range lines[1:] {
 		prefix := indent
-		n := strings.IndexFunc(line, func(r rune) bool { return r != ' ' })
+		n := strings.IndexFunc(line, func(r rune) bool { return r != ' ' && r != p.IndentChar })
 		if n > w {
 			prefix += strings.Repeat(" ", n-w)
 		}
-- 
2.43.0


From 898ba3f47b0a462a37ba4e4edcab844fb9af4230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:58 +0000
Subject: [PATCH 29/38] fix: lay out only the binding vector of a letfn as
 bindings

---
 format/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/format/format.go b/format/format.go
index 905b410..407676e 100644
--- a/format/format.go
+++ b/format/format.go
@@ -405,6 +405,7 @@ func (p *Printer) applySpecialLetfn(nodes []parse.Node) {
 				p.specialIndent[fn] = IndentListBody
 			}
 		}
+		return
 	}
 }
 
-- 
2.43.0


From 3f34a2aecfc50b89e035a9a78972ce53d1e11454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:04 +0000
Subject: [PATCH 30/38] fix: walk a directory that is given by a symbolic link

---
 cljfmt/cljfmt.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cljfmt/cljfmt.go b/cljfmt/cljfmt.go
index b263456..2127614 100644
--- a/cljfmt/cljfmt.go
+++ b/cljfmt/cljfmt.go
@@ -250,7 +250,8 @@ func (c *config) walkDir(path string) {
 		}
 		return nil // not a Clojure file
 	}
-	if err := filepath.Walk(path, walk); err != nil {
+	// Walk doesn't follow symbolic links; with the separator, path isn't one.
+	if err := filepath.Walk(path+string(filepath.Separator), walk); err != nil {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From dea97765dc9be24df77bf681d725034cb839493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 31/38] fix: recognize (comment ...) forms with a newline or
 comment ahead of the symbol

When the tree included non-semantic nodes, IgnoreCommentForm didn't ignore
such lists.
---
 parse/parse.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 12bb4fc..6ebff6c 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -536,13 +536,16 @@ func (t *Tree) parseVarQuote(start token) *VarQuoteNode {
 
 func (t *Tree) includeNode(node Node) bool {
 	if list, ok := node.(*ListNode); ok {
-		children := list.Children()
-		if len(children) > 0 {
-			if sym, ok := children[0].(*SymbolNode); ok {
+		for _, child := range list.Children() {
+			if !isSemantic(child) {
+				continue
+			}
+			if sym, ok := child.(*SymbolNode); ok {
 				if sym.Val == "comment" && t.ignoreCommentForm {
 					return false
 				}
 			}
+			break
 		}
 	}
 	if _, ok := node.(*ReaderDiscardNode); ok && t.ignoreReaderDiscard {
-- 
2.43.0


From c45f5b7d62dbd811fcd24dc5f0e84911f94cd525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 32/38] fix: leave require clauses that end with an incomplete
 prefix

---
 format/format.go    | 16 +++++++++++-----
 format/require.go   |  2 +-
 format/transform.go | 10 +++++-----
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/format/format.go b/format/format.go
index 407676e..090c74b 100644
--- a/format/format.go
+++ b/format/format.go
@@ -178,10 +178,10 @@ func missingOperandForms(n parse.Node) int {
 }
 
 // findOperands reports, for each node, whether it belongs to an earlier one
-// (because it is the target of metadata, say).
-func findOperands(nodes []parse.Node) []bool {
-	operands := make([]bool, len(nodes))
-	missing := 0
+// (because it is the target of metadata, say), and how many forms the last
+// ones still need.
+func findOperands(nodes []parse.Node) (operands []bool, missing int) {
+	operands = make([]bool, len(nodes))
 	for i, n := range nodes {
 		if goclj.Newline(n) || goclj.Comment(n) {
 			continue
@@ -194,7 +194,13 @@ func findOperands(nodes []parse.Node) []bool {
 		}
 		missing += missingForms(n)
 	}
-	return operands
+	return operands, missing
+}
+
+// incomplete reports whether n ends with a prefix that has no target.
+func incomplete(n parse.Node) bool {
+	_, missing := findOperands(n.Children())
+	return missing > 0
 }
 
 // printNode prints a representation of node using w, the given indent level
diff --git a/format/require.go b/format/require.go
index 4858b14..e48eb47 100644
--- a/format/require.go
+++ b/format/require.go
@@ -228,7 +228,7 @@ func (rl *requireList) parseRequireUse(nodes []parse.Node, use bool) {
 	case ":require-macros", ":use-macros":
 		rl.macros = true
 	}
-	operands := findOperands(nodes)
+	operands, _ := findOperands(nodes)
 	for i, node := range nodes[1:] {
 		switch node := node.(type) {
 		case *parse.CommentNode:
diff --git a/format/transform.go b/format/transform.go
index ff9ad42..46d6f79 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -175,14 +175,14 @@ func useToRequire(ns parse.Node) {
 	prevSkipped := false
 	nodes := []parse.Node{&parse.SymbolNode{Val: "ns"}}
 	i := 0
-	operands := findOperands(ns.Children())
+	operands, _ := findOperands(ns.Children())
 	for j, n := range ns.Children()[1:] {
 		if prevSkipped && goclj.Newline(n) {
 			prevSkipped = false
 			continue
 		}
 		prevSkipped = false
-		if goclj.FnFormKeyword(n, ":require", ":use") && !operands[j+1] {
+		if goclj.FnFormKeyword(n, ":require", ":use") && !operands[j+1] && !incomplete(n) {
 			children := n.Children()
 			name := children[0].(*parse.KeywordNode).Val
 			rl.parseRequireUse(children, name == ":use")
@@ -205,10 +205,10 @@ func useToRequire(ns parse.Node) {
 func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 	children := ns.Children()
 	nodes := children[:0]
-	clauseOperands := findOperands(children)
+	clauseOperands, _ := findOperands(children)
 	for i := 0; i < len(children); i++ {
 		n := children[i]
-		if !goclj.FnFormKeyword(n, ":require", ":require-macros") || clauseOperands[i] {
+		if !goclj.FnFormKeyword(n, ":require", ":require-macros") || clauseOperands[i] || incomplete(n) {
 			nodes = append(nodes, n)
 			continue
 		}
@@ -216,7 +216,7 @@ func removeUnusedRequires(ns parse.Node, syms *symbolCache) {
 		// because they may be needed for their side-effects.
 		var keep []parse.Node
 		var requires []parse.Node
-		operands := findOperands(n.Children())
+		operands, _ := findOperands(n.Children())
 		for i, child := range n.Children() {
 			if i == 0 {
 				requires = append(requires, child)
-- 
2.43.0


From 5366522de2c28d5b6dacea1034df79f66ce1c718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:10 +0000
Subject: [PATCH 33/38] fix: reject configuration keys that are not (plain)
 keywords

---
 cljfmt/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index e06298a..5022322 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -32,7 +32,7 @@ func (c *config) parseDotConfig(r io.Reader, name string) error {
 		return unexpectedNodeError{tree.Roots[1]}
 	}
 	m, ok := tree.Roots[0].(*parse.MapNode)
-	if !ok {
+	if !ok || m.Namespace != "" {
 		return unexpectedNodeError{tree.Roots[0]}
 	}
 	if len(m.Nodes)%2 != 0 {
@@ -42,7 +42,7 @@ func (c *config) parseDotConfig(r io.Reader, name string) error {
 		k := m.Nodes[i]
 		sym, ok := k.(*parse.KeywordNode)
 		if !ok {
-			continue
+			return unexpectedNodeError{k}
 		}
 		switch sym.Val {
 		case ":extensions":
-- 
2.43.0


From d69bf28dfc7cbc7a1f13cdd73e28928e533e30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:26 +0000
Subject: [PATCH 34/38] fix: reject unknown styles in the configuration even if
 they do not come to apply

---
 cljfmt/config.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/cljfmt/config.go b/cljfmt/config.go
index 5022322..01585f7 100644
--- a/cljfmt/config.go
+++ b/cljfmt/config.go
@@ -71,20 +71,12 @@ func (c *config) parseDotConfig(r io.Reader, name string) error {
 			case ":indent-overrides":
 				c.indentOverrides = make(map[string]format.IndentStyle)
 				for k, v := range overrides {
-					style, ok := indentStyles[v]
-					if !ok {
-						return fmt.Errorf("unknown indent style %q", v)
-					}
-					c.indentOverrides[k] = style
+					c.indentOverrides[k] = indentStyles[v]
 				}
 			case ":thread-first-overrides":
 				c.threadFirstOverrides = make(map[string]format.ThreadFirstStyle)
 				for k, v := range overrides {
-					style, ok := threadFirstStyles[v]
-					if !ok {
-						return fmt.Errorf("unknown thread-first style %q", v)
-					}
-					c.threadFirstOverrides[k] = style
+					c.threadFirstOverrides[k] = threadFirstStyles[v]
 				}
 			}
 		default:
@@ -121,6 +113,16 @@ func parseOverrides(nodes []parse.Node, name string) (map[string]string, error)
 		if !ok {
 			return nil, unexpectedNodeError{nodes[i+1]}
 		}
+		switch name {
+		case ":indent-overrides":
+			if _, ok := indentStyles[kw.Val]; !ok {
+				return nil, fmt.Errorf("unknown indent style %q", kw.Val)
+			}
+		case ":thread-first-overrides":
+			if _, ok := threadFirstStyles[kw.Val]; !ok {
+				return nil, fmt.Errorf("unknown thread-first style %q", kw.Val)
+			}
+		}
 		for _, s := range names {
 			overrides[s] = kw.Val
 		}
-- 
2.43.0


From 76996a9088ca1963bd1f78764463dcbed646b3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 35/38] fix: an empty refer list that has been edited is as
 empty as any other

Whether the slice of nodes was nil decided whether an empty :refer was
kept, so trees with the same nodes could be printed differently.
---
 format/require.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/format/require.go b/format/require.go
index e48eb47..95d5ceb 100644
--- a/format/require.go
+++ b/format/require.go
@@ -438,8 +438,12 @@ func parseRequireSeq(nodes []parse.Node) *require {
 	if as != "" {
 		r.as = map[string]struct{}{as: {}}
 	}
-	r.refer.origRefer = refer
-	r.referMacros.origRefer = referMacros
+	if len(refer) > 0 {
+		r.refer.origRefer = refer
+	}
+	if len(referMacros) > 0 {
+		r.referMacros.origRefer = referMacros
+	}
 	return r
 }
 
@@ -482,7 +486,9 @@ func parseUseSeq(nodes []parse.Node) *require {
 			default:
 				return nil
 			}
-			r.refer.origRefer = nodes[2].Children()
+			if refer := nodes[2].Children(); len(refer) > 0 {
+				r.refer.origRefer = refer
+			}
 			for _, n := range r.refer.origRefer {
 				switch n.(type) {
 				case *parse.SymbolNode,
-- 
2.43.0


From 022d783e48c9e2a4570690b6eed6d46ed66065fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 36/38] fix: the length of a reader conditional counts forms,
 as elsewhere

---
 parse/node.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse/node.go b/parse/node.go
index 2b3dd08..66fa168 100644
--- a/parse/node.go
+++ b/parse/node.go
@@ -342,7 +342,7 @@ type ReaderCondNode struct {
 }
 
 func (n *ReaderCondNode) String() string {
-	return fmt.Sprintf("reader-cond(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondNode) Parent() Node     { return n.parent }
 func (n *ReaderCondNode) setParent(p Node) { n.parent = p }
@@ -364,7 +364,7 @@ type ReaderCondSpliceNode struct {
 }
 
 func (n *ReaderCondSpliceNode) String() string {
-	return fmt.Sprintf("reader-cond-splice(length=%d)", len(n.Nodes))
+	return fmt.Sprintf("reader-cond-splice(length=%d)", countSemantic(n.Nodes))
 }
 func (n *ReaderCondSpliceNode) Parent() Node     { return n.parent }
 func (n *ReaderCondSpliceNode) setParent(p Node) { n.parent = p }
-- 
2.43.0


From ff00a84b3b5126dca0e369d28903d0637e9e8167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 37/38] fix: reject signs in octal and unicode character
 literals

strconv.ParseInt accepts a sign, so that \u-000 and \o+12 were read as
characters; a character literal has only digits.
---
 parse/parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse/parse.go b/parse/parse.go
index 6ebff6c..bc621da 100644
--- a/parse/parse.go
+++ b/parse/parse.go
@@ -279,14 +279,14 @@ func (t *Tree) parseCharLiteral(tok token) *CharacterNode {
 		default:
 			switch runes[0] {
 			case 'o':
-				n, err := strconv.ParseInt(val[1:], 8, 32)
-				if len(val) != 4 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 8, 32)
+				if len(val) != 4 || err != nil {
 					t.errorf(tok.pos, "invalid octal literal")
 				}
 				r = rune(n)
 			case 'u':
-				n, err := strconv.ParseInt(val[1:], 16, 32)
-				if len(val) != 5 || err != nil || n < 0 {
+				n, err := strconv.ParseUint(val[1:], 16, 32)
+				if len(val) != 5 || err != nil {
 					t.errorf(tok.pos, "invalid unicode literal")
 				}
 				r = rune(n)
-- 
2.43.0


From 2f0011219aa5529931f1fa998e8694b1b6ab8cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 38/38] fix: don't split an import whose package would be read
 as a literal

The style transform turned (:import true.b) into (:import (true b)), where
true is read as a boolean rather than as part of a symbol.
---
 format/transform.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/format/transform.go b/format/transform.go
index 46d6f79..74239ab 100644
--- a/format/transform.go
+++ b/format/transform.go
@@ -356,7 +356,7 @@ func enforceImportStyle(nodes []parse.Node) {
 			nodes[i] = &parse.ListNode{Nodes: n.Nodes}
 		case *parse.SymbolNode:
 			j := strings.LastIndexByte(n.Val, '.')
-			if j <= 0 || !isClassName(n.Val[j+1:]) {
+			if j <= 0 || isLiteral(n.Val[:j]) || !isClassName(n.Val[j+1:]) {
 				break
 			}
 			nodes[i] = &parse.ListNode{
@@ -373,11 +373,17 @@ func enforceImportStyle(nodes []parse.Node) {
 // a class. (In particular, is it a symbol by itself?)
 func isClassName(s string) bool {
 	r, _ := utf8.DecodeRuneInString(s)
+	return s != "" && !isLiteral(s) && (r == '_' || r == '$' || unicode.IsLetter(r))
+}
+
+// isLiteral reports whether s, which may be part of some symbol, is not a
+// symbol by itself.
+func isLiteral(s string) bool {
 	switch s {
 	case "nil", "true", "false":
-		return false
+		return true
 	}
-	return s != "" && (r == '_' || r == '$' || unicode.IsLetter(r))
+	return false
 }
 
 func sortNS(ns parse.Node) {
-- 
2.43.0

