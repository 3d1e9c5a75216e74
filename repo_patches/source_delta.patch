From 19a437812d81f9d66e933f5572530a4cccd1d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 01/43] fix: advance the lexer past invalid UTF-8 instead of
 looping on it

---
 lexer/lexer.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0e7eb38..4b0178e 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -201,9 +201,6 @@ func (l *Lexer) next() {
 		return
 	}
 	ch, w := utf8.DecodeRune(l.src[l.rdOffset:])
-	if ch == utf8.RuneError {
-		return
-	}
 	l.chr = ch
 	l.offset = l.rdOffset
 	l.rdOffset += w
-- 
2.43.0


From aca4da9ea9bc9e5dfc2020c8df3795c702ca01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 02/43] fix: do not slice out of range or drop a character of
 an unterminated string

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4b0178e..123a5a2 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -319,7 +319,7 @@ func (l *Lexer) scanString() string {
 	for {
 		if l.chr < 0 || l.chr == '\n' {
 			l.error(l.offset, "unexpected newline character before string termination")
-			break
+			return string(l.src[offsetPre:l.offset])
 		}
 		if l.chr == '"' {
 			l.next()
-- 
2.43.0


From eb613bf214e97bc3588cdf5139b6b11831783af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 03/43] fix: do not write the lexer's trailing byte into the
 caller's buffer

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 123a5a2..4d97f71 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -50,7 +50,7 @@ func (l *Lexer) addLineOffset(offset int) {
 
 // NewLexer returns a new Lexer given code sourcce in bytes
 func NewLexer(src []byte) *Lexer {
-	src = append(src, 32) // Hack:: trailing byte ignored without adding an ignorable byte
+	src = append(src[:len(src):len(src)], 32) // Hack:: trailing byte ignored without adding an ignorable byte
 	l := &Lexer{
 		src:      src,
 		offset:   0,
-- 
2.43.0


From 466ddeffe5e814fc1fb13775b473983cff317766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 04/43] fix: keep text literals and internal markers out of the
 keyword table

---
 token/token.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/token/token.go b/token/token.go
index 03a6316..3404ab1 100644
--- a/token/token.go
+++ b/token/token.go
@@ -312,6 +312,10 @@ func init() {
 	keywords = make(map[string]Token)
 	// skip the IDENT literal
 	for i := Token(INT); i < literal_end; i++ {
+		// text literals have no spelling of their own and markers are not tokens
+		if i == TEXT_LITERAL || i == numeric_end {
+			continue
+		}
 		v := tokens[i]
 		keywords[v] = i
 	}
-- 
2.43.0


From 3c21713014f31ce648d917f1858d10c5fe788acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 05/43] fix: report lexer errors from ParseFile and always
 return the tree

---
 lexer/lexer.go   | 8 +++++++-
 parser/parser.go | 9 ++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4d97f71..e992fe8 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -381,7 +381,13 @@ func isIdentifierBodyChar(x rune) bool {
 }
 
 func (l *Lexer) error(offset int, message string) {
-	l.Errors = append(l.Errors, Error{Pos: token.Position{Offset: offset}, Msg: message})
+	lenLines := len(l.lineOffsets)
+	pos := token.Position{
+		Offset: offset,
+		Line:   lenLines,
+		Column: offset - l.lineOffsets[lenLines-1],
+	}
+	l.Errors = append(l.Errors, Error{Pos: pos, Msg: message})
 	l.ErrCount += 1
 }
 
diff --git a/parser/parser.go b/parser/parser.go
index e9fb87a..84a1df7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -79,11 +79,6 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 	cddl := &ast.CDDL{}
 	cddl.Rules = []ast.CDDLEntry{}
 
-	// Don't parse if lexer errors are non zero
-	if len(p.lexer.Errors) != 0 {
-		return nil, nil
-	}
-
 	for p.currToken != token.EOF {
 		cddlEntry, err := p.parseRule()
 		if err != nil {
@@ -102,6 +97,10 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 		}
 	}
 
+	for _, lexErr := range p.lexer.Errors {
+		p.errorHandler(p.error(lexErr.Msg, lexErr.Pos, lexErr.Pos))
+	}
+
 	return cddl, p.errors.Collect()
 
 }
-- 
2.43.0


From 76eb86156a99f0926a11f92c1d2cac936e1870f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 06/43] fix: do not skip the token after a rule's trailing
 comment

---
 parser/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 84a1df7..5e5be62 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -172,7 +172,6 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	if p.peekToken == token.COMMENT && isSameLineTokens(p.pos, p.peekPos) {
 		p.next()
 		rule.TrailingComment = p.parseInnerComment()
-		p.next()
 	}
 
 	return rule, nil
-- 
2.43.0


From 40b0d095c185d5825d8957ebbefda00efba5727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 07/43] fix: do not dereference a failed type assertion in
 .regexp

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5e5be62..ca0d066 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -565,7 +565,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 	if b, ok := left.(*ast.TstrType); ok {
 		base = b
 	} else {
-		return nil, p.errorUnsupportedTypes(b.Pos, p.currliteral, token.TSTR)
+		return nil, p.errorUnsupportedTypes(p.pos, p.currliteral, token.TSTR)
 	}
 	r := &ast.Regexp{
 		Pos:   p.pos,
-- 
2.43.0


From ceb9af4a4902c1d2e04d36ee2565e70972751279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:51 +0000
Subject: [PATCH 08/43] fix: keep the left operand of comparison operators

---
 parser/parser.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index ca0d066..7e86d14 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -724,8 +724,6 @@ func (p *Parser) parseInnerComment() *ast.Comment {
 }
 
 func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic) {
-	var leftI *ast.IntegerType
-
 	switch left.(type) {
 	case *ast.UintType, *ast.IntegerType, *ast.FloatType:
 	default:
@@ -735,7 +733,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	op := &ast.ComparatorOpControl{
 		Pos:      p.pos,
 		Token:    p.currToken,
-		Left:     leftI,
+		Left:     left,
 		Operator: p.currliteral,
 	}
 	if !p.peekToken.IsNumeric() {
@@ -745,7 +743,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 
 	right, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		return &ast.BadNode{Base: leftI, Token: p.currToken}, err
+		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
 	op.Right = right
 
-- 
2.43.0


From 13ae7273782807bc5aff59f7a21d6ecd0a851d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:53 +0000
Subject: [PATCH 09/43] fix: report a comparison with a non numeric operand

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 7e86d14..764b6cf 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -736,8 +736,8 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 		Left:     left,
 		Operator: p.currliteral,
 	}
-	if !p.peekToken.IsNumeric() {
-		p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
+	if !p.peekToken.IsNumeric() && p.peekToken != token.IDENT {
+		return op, p.errorUnsupportedType(p.peekPos, p.currliteral, token.INT)
 	}
 	p.next()
 
-- 
2.43.0


From 25412383c8b6a9645610d88a0039ddde5e04c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 10/43] fix: report a tag whose closing parenthesis is missing

---
 parser/parser.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 764b6cf..d449125 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -105,13 +105,12 @@ func (p *Parser) ParseFile() (*ast.CDDL, ErrorList) {
 
 }
 
-func (p *Parser) expectPeek(tok token.Token) bool {
+func (p *Parser) expectPeek(tok token.Token) errors.Diagnostic {
 	if p.peekToken != tok {
-		p.errorTokenExpected(p.peekPos, tok)
-		return false
+		return p.errorTokenExpected(p.peekPos, tok)
 	}
 	p.next()
-	return false
+	return nil
 }
 
 func (p *Parser) Errors() ErrorList {
@@ -446,7 +445,9 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 		if err != nil {
 			return tagBase, err
 		}
-		p.expectPeek(token.RPAREN)
+		if err := p.expectPeek(token.RPAREN); err != nil {
+			return tagBase, err
+		}
 	}
 	return tagBase, nil
 }
-- 
2.43.0


From 93166ad026807f8c64d3a21340d0cb97f007aa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:23 +0000
Subject: [PATCH 11/43] fix: make Start and End safe on nodes with absent
 children

---
 ast/bad_node.go           |  3 +++
 ast/control_bits.go       |  6 ++++++
 ast/control_comparator.go |  6 ++++++
 ast/control_regexp.go     |  6 ++++++
 ast/control_size.go       |  6 ++++++
 ast/entry.go              |  6 ++++++
 ast/enumeration.go        |  3 +++
 ast/groupchoice.go        |  6 ++++++
 ast/occurrence.go         | 14 +++++++++++++-
 ast/range.go              |  6 ++++++
 ast/rule.go               |  6 ++++++
 ast/tag.go                | 10 +++++++++-
 ast/typechoice.go         |  6 ++++++
 ast/unwrap.go             |  3 +++
 14 files changed, 85 insertions(+), 2 deletions(-)

diff --git a/ast/bad_node.go b/ast/bad_node.go
index 627ff51..c952e75 100644
--- a/ast/bad_node.go
+++ b/ast/bad_node.go
@@ -19,6 +19,9 @@ type BadNode struct {
 
 // Start returns the start if the base node
 func (b *BadNode) Start() token.Position {
+	if b.Base == nil {
+		return b.Pos
+	}
 	return b.Base.Start()
 }
 
diff --git a/ast/control_bits.go b/ast/control_bits.go
index 9b87e3f..1cd262c 100644
--- a/ast/control_bits.go
+++ b/ast/control_bits.go
@@ -18,9 +18,15 @@ type Bits struct {
 }
 
 func (r *Bits) Start() token.Position {
+	if r.Base == nil {
+		return r.Pos
+	}
 	return r.Base.Start()
 }
 
 func (r *Bits) End() token.Position {
+	if r.Contstraint == nil {
+		return token.Position{Offset: -1}
+	}
 	return r.Contstraint.End()
 }
diff --git a/ast/control_comparator.go b/ast/control_comparator.go
index c81cf53..a62a76a 100644
--- a/ast/control_comparator.go
+++ b/ast/control_comparator.go
@@ -14,9 +14,15 @@ type ComparatorOpControl struct {
 }
 
 func (cc *ComparatorOpControl) Start() token.Position {
+	if cc.Left == nil {
+		return cc.Pos
+	}
 	return cc.Left.Start()
 }
 
 func (cc *ComparatorOpControl) End() token.Position {
+	if cc.Right == nil {
+		return token.Position{Offset: -1}
+	}
 	return cc.Right.End()
 }
diff --git a/ast/control_regexp.go b/ast/control_regexp.go
index ef76ec7..515d7fc 100644
--- a/ast/control_regexp.go
+++ b/ast/control_regexp.go
@@ -11,9 +11,15 @@ type Regexp struct {
 }
 
 func (r *Regexp) Start() token.Position {
+	if r.Base == nil {
+		return r.Pos
+	}
 	return r.Base.Start()
 }
 
 func (r *Regexp) End() token.Position {
+	if r.Regex == nil {
+		return token.Position{Offset: -1}
+	}
 	return r.Regex.End()
 }
diff --git a/ast/control_size.go b/ast/control_size.go
index e42d770..75b4054 100644
--- a/ast/control_size.go
+++ b/ast/control_size.go
@@ -19,10 +19,16 @@ type SizeOperatorControl struct {
 
 // Start returns the start of the base type
 func (sc *SizeOperatorControl) Start() token.Position {
+	if sc.Type == nil {
+		return sc.Pos
+	}
 	return sc.Type.Start()
 }
 
 // End returns the end of the size
 func (sc *SizeOperatorControl) End() token.Position {
+	if sc.Size == nil {
+		return token.Position{Offset: -1}
+	}
 	return sc.Size.End()
 }
diff --git a/ast/entry.go b/ast/entry.go
index 8856299..5277189 100644
--- a/ast/entry.go
+++ b/ast/entry.go
@@ -12,9 +12,15 @@ type Entry struct {
 }
 
 func (r *Entry) Start() token.Position {
+	if r.Name == nil {
+		return r.Pos
+	}
 	return r.Name.Start()
 }
 func (r *Entry) End() token.Position {
+	if r.Value == nil {
+		return token.Position{Offset: -1}
+	}
 	return r.Value.End()
 }
 
diff --git a/ast/enumeration.go b/ast/enumeration.go
index e2364b4..1aba030 100644
--- a/ast/enumeration.go
+++ b/ast/enumeration.go
@@ -12,6 +12,9 @@ func (e *Enumeration) Start() token.Position {
 	return e.Pos
 }
 func (e *Enumeration) End() token.Position {
+	if e.Value == nil {
+		return token.Position{Offset: -1}
+	}
 	return e.Value.End()
 }
 
diff --git a/ast/groupchoice.go b/ast/groupchoice.go
index 9948fc5..db5d2f8 100644
--- a/ast/groupchoice.go
+++ b/ast/groupchoice.go
@@ -9,9 +9,15 @@ type GroupChoice struct {
 }
 
 func (gc *GroupChoice) Start() token.Position {
+	if gc.First == nil {
+		return gc.Pos
+	}
 	return gc.First.Start()
 }
 
 func (gc *GroupChoice) End() token.Position {
+	if gc.Second == nil {
+		return token.Position{Offset: -1}
+	}
 	return gc.Second.End()
 }
diff --git a/ast/occurrence.go b/ast/occurrence.go
index 56b6a77..8ee6cbc 100644
--- a/ast/occurrence.go
+++ b/ast/occurrence.go
@@ -14,6 +14,9 @@ func (i *Optional) Start() token.Position {
 }
 
 func (i *Optional) End() token.Position {
+	if i.Item == nil {
+		return token.Position{Offset: -1}
+	}
 	return i.Item.End()
 }
 
@@ -27,11 +30,20 @@ type NMOccurrence struct {
 }
 
 func (nm *NMOccurrence) Start() token.Position {
+	if nm.N == nil {
+		return nm.Pos
+	}
 	return nm.N.Start()
 }
 
 func (nm *NMOccurrence) End() token.Position {
-	return nm.M.End()
+	if nm.M != nil {
+		return nm.M.End()
+	}
+	if nm.Item != nil {
+		return nm.Item.End()
+	}
+	return token.Position{Offset: -1}
 }
 
 func (nm *NMOccurrence) groupEntry() {}
diff --git a/ast/range.go b/ast/range.go
index 486d843..1e60fc9 100644
--- a/ast/range.go
+++ b/ast/range.go
@@ -11,11 +11,17 @@ type Range struct {
 
 // Start returns the start of the node
 func (r *Range) Start() token.Position {
+	if r.From == nil {
+		return r.Pos
+	}
 	return r.From.Start()
 }
 
 // End returns the last position of the node
 func (r *Range) End() token.Position {
+	if r.To == nil {
+		return token.Position{Offset: -1}
+	}
 	// Assuming token is either .. or ... the statement yields (2 + 0) or (2 +1)
 	return r.To.End()
 }
diff --git a/ast/rule.go b/ast/rule.go
index 285334c..e2008b8 100644
--- a/ast/rule.go
+++ b/ast/rule.go
@@ -12,9 +12,15 @@ type Rule struct {
 }
 
 func (r *Rule) Start() token.Position {
+	if r.Name == nil {
+		return r.Pos
+	}
 	return r.Name.Start()
 }
 func (r *Rule) End() token.Position {
+	if r.Value == nil {
+		return token.Position{Offset: -1}
+	}
 	return r.Value.End()
 }
 
diff --git a/ast/tag.go b/ast/tag.go
index 85aba74..96fe700 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -14,5 +14,13 @@ func (t *Tag) Start() token.Position {
 }
 
 func (t *Tag) End() token.Position {
-	return t.Item.End().To(1) // add )
+	switch {
+	case t.Item != nil:
+		return t.Item.End().To(1) // add )
+	case t.TagNumber != nil:
+		return t.TagNumber.End()
+	case t.Major != nil:
+		return t.Major.End()
+	}
+	return t.Pos.To(1)
 }
diff --git a/ast/typechoice.go b/ast/typechoice.go
index 061e9ee..c8ddca5 100644
--- a/ast/typechoice.go
+++ b/ast/typechoice.go
@@ -10,9 +10,15 @@ type TypeChoice struct {
 }
 
 func (tc *TypeChoice) Start() token.Position {
+	if tc.First == nil {
+		return tc.Pos
+	}
 	return tc.First.Start()
 }
 
 func (tc *TypeChoice) End() token.Position {
+	if tc.Second == nil {
+		return token.Position{Offset: -1}
+	}
 	return tc.Second.End()
 }
diff --git a/ast/unwrap.go b/ast/unwrap.go
index f9270df..cf1f0a1 100644
--- a/ast/unwrap.go
+++ b/ast/unwrap.go
@@ -13,5 +13,8 @@ func (u *Unwrap) Start() token.Position {
 }
 
 func (u *Unwrap) End() token.Position {
+	if u.Item == nil {
+		return token.Position{Offset: -1}
+	}
 	return u.Item.End()
 }
-- 
2.43.0


From fba2d94c5bef415c96d7b7e931da0ed44a388ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 12/43] fix: do not panic on a malformed .bits constraint

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index d449125..f905476 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -595,7 +595,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	p.next()
 	constraint, err := p.parseEntry(p.currToken.Precedence())
 	if err != nil {
-		b.Base = wrapBadNode(constraint)
+		b.Contstraint = wrapBadNode(constraint)
 		return b, err
 	}
 	b.Contstraint = constraint
@@ -650,6 +650,9 @@ func isSameLineTokens(tok1, tok2 token.Position) bool {
 }
 
 func wrapBadNode(node ast.Node) *ast.BadNode {
+	if node == nil {
+		return &ast.BadNode{}
+	}
 	return &ast.BadNode{
 		Pos:    node.Start(),
 		Base:   node,
-- 
2.43.0


From eaaa17c73ef28b8a64c3415b243e66e8beaf8fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 13/43] fix: do not return typed nil nodes for malformed
 integer literals

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index f905476..50bc410 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -292,7 +292,7 @@ func (p *Parser) parseUintType() (ast.Node, errors.Diagnostic) {
 		Token: p.currToken}, nil
 }
 
-func (p *Parser) parseUintLiteral() (*ast.UintLiteral, errors.Diagnostic) {
+func (p *Parser) parseUintLiteral() (ast.Node, errors.Diagnostic) {
 	if p.currToken.IsLiteral(p.currliteral) {
 		lit, err := strconv.ParseUint(p.currliteral, 0, 64)
 		if err != nil {
@@ -602,7 +602,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	return b, nil
 }
 
-func (p *Parser) parseIntegerLiteral() (*ast.IntegerLiteral, errors.Diagnostic) {
+func (p *Parser) parseIntegerLiteral() (ast.Node, errors.Diagnostic) {
 	if p.currToken.IsLiteral(p.currliteral) {
 		lit, err := strconv.ParseInt(p.currliteral, 0, 64)
 		if err != nil {
-- 
2.43.0


From b7b1bebfb887669fad491556b8bab78479f0905a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 14/43] fix: report ranges whose bounds are not numbers or
 names

---
 parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 50bc410..42124de 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -764,6 +764,8 @@ func (p *Parser) parseBound(left ast.Node) (bound ast.Node, err errors.Diagnosti
 		bound, err = p.parseFloatBound(val)
 	case *ast.Identifier:
 		bound, err = p.parseIdentBound(val)
+	default:
+		err = p.errorUnsupportedTypes(p.pos, p.currliteral, token.INT, token.FLOAT, token.IDENT)
 	}
 	return bound, err
 }
@@ -887,6 +889,8 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.INT, token.IDENT)
 	}
 
 	return b, nil
@@ -932,6 +936,8 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 			}
 			return nil
 		})
+	default:
+		return b, p.errorUnsupportedTypes(b.Pos, b.Token.String(), token.FLOAT, token.IDENT)
 	}
 
 	return b, nil
-- 
2.43.0


From 289a63bf0372d9f4cdeb13950b3440c4c194d4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 15/43] fix: keep types and literals that stand as group or
 array entries

---
 ast/array.go              | 2 ++
 ast/bad_node.go           | 2 ++
 ast/boolean.go            | 4 ++++
 ast/bytes.go              | 4 ++++
 ast/control_bits.go       | 2 ++
 ast/control_comparator.go | 2 ++
 ast/control_regexp.go     | 2 ++
 ast/control_size.go       | 2 ++
 ast/float.go              | 4 ++++
 ast/groupchoice.go        | 2 ++
 ast/integer.go            | 6 ++++++
 ast/map.go                | 2 ++
 ast/null.go               | 2 ++
 ast/tag.go                | 2 ++
 ast/text.go               | 4 ++++
 ast/typechoice.go         | 2 ++
 ast/uint.go               | 2 ++
 ast/uint_literal.go       | 2 ++
 ast/unwrap.go             | 2 ++
 19 files changed, 50 insertions(+)

diff --git a/ast/array.go b/ast/array.go
index 17d0cf6..e99a5f0 100644
--- a/ast/array.go
+++ b/ast/array.go
@@ -19,3 +19,5 @@ func (a *Array) End() token.Position {
 	}
 	return a.Rules[len(a.Rules)-1].End()
 }
+
+func (a *Array) groupEntry() {}
diff --git a/ast/bad_node.go b/ast/bad_node.go
index c952e75..64049af 100644
--- a/ast/bad_node.go
+++ b/ast/bad_node.go
@@ -29,3 +29,5 @@ func (b *BadNode) Start() token.Position {
 func (b *BadNode) End() token.Position {
 	return b.EndPos
 }
+
+func (b *BadNode) groupEntry() {}
diff --git a/ast/boolean.go b/ast/boolean.go
index 49b9f2d..d05638d 100644
--- a/ast/boolean.go
+++ b/ast/boolean.go
@@ -28,3 +28,7 @@ func (bl *BooleanLiteral) Start() token.Position {
 func (bl *BooleanLiteral) End() token.Position {
 	return bl.Range.End
 }
+
+func (b *BooleanType) groupEntry() {}
+
+func (bl *BooleanLiteral) groupEntry() {}
diff --git a/ast/bytes.go b/ast/bytes.go
index 38ac0cc..16a50ed 100644
--- a/ast/bytes.go
+++ b/ast/bytes.go
@@ -29,3 +29,7 @@ func (b *BstrType) Start() token.Position {
 func (b *BstrType) End() token.Position {
 	return b.Pos.To(5) // length of `bytes`
 }
+
+func (b *BstrType) groupEntry() {}
+
+func (b *BytesType) groupEntry() {}
diff --git a/ast/control_bits.go b/ast/control_bits.go
index 1cd262c..a777c0e 100644
--- a/ast/control_bits.go
+++ b/ast/control_bits.go
@@ -30,3 +30,5 @@ func (r *Bits) End() token.Position {
 	}
 	return r.Contstraint.End()
 }
+
+func (r *Bits) groupEntry() {}
diff --git a/ast/control_comparator.go b/ast/control_comparator.go
index a62a76a..b94d3a4 100644
--- a/ast/control_comparator.go
+++ b/ast/control_comparator.go
@@ -26,3 +26,5 @@ func (cc *ComparatorOpControl) End() token.Position {
 	}
 	return cc.Right.End()
 }
+
+func (cc *ComparatorOpControl) groupEntry() {}
diff --git a/ast/control_regexp.go b/ast/control_regexp.go
index 515d7fc..5ee4b0a 100644
--- a/ast/control_regexp.go
+++ b/ast/control_regexp.go
@@ -23,3 +23,5 @@ func (r *Regexp) End() token.Position {
 	}
 	return r.Regex.End()
 }
+
+func (r *Regexp) groupEntry() {}
diff --git a/ast/control_size.go b/ast/control_size.go
index 75b4054..8e4820a 100644
--- a/ast/control_size.go
+++ b/ast/control_size.go
@@ -32,3 +32,5 @@ func (sc *SizeOperatorControl) End() token.Position {
 	}
 	return sc.Size.End()
 }
+
+func (sc *SizeOperatorControl) groupEntry() {}
diff --git a/ast/float.go b/ast/float.go
index db4952c..5b3caf7 100644
--- a/ast/float.go
+++ b/ast/float.go
@@ -33,3 +33,7 @@ func (fl *FloatLiteral) Start() token.Position {
 func (fl *FloatLiteral) End() token.Position {
 	return fl.Range.End
 }
+
+func (ft *FloatType) groupEntry() {}
+
+func (fl *FloatLiteral) groupEntry() {}
diff --git a/ast/groupchoice.go b/ast/groupchoice.go
index db5d2f8..de39edf 100644
--- a/ast/groupchoice.go
+++ b/ast/groupchoice.go
@@ -21,3 +21,5 @@ func (gc *GroupChoice) End() token.Position {
 	}
 	return gc.Second.End()
 }
+
+func (gc *GroupChoice) groupEntry() {}
diff --git a/ast/integer.go b/ast/integer.go
index 3c1ac8b..8fabc02 100644
--- a/ast/integer.go
+++ b/ast/integer.go
@@ -47,3 +47,9 @@ func (il *IntegerLiteral) Start() token.Position {
 func (il *IntegerLiteral) End() token.Position {
 	return il.Pos.To(len(fmt.Sprintf("%d", il.Literal)))
 }
+
+func (it *IntegerType) groupEntry() {}
+
+func (nt *NegativeIntegerType) groupEntry() {}
+
+func (il *IntegerLiteral) groupEntry() {}
diff --git a/ast/map.go b/ast/map.go
index 8461b02..e88f2fe 100644
--- a/ast/map.go
+++ b/ast/map.go
@@ -18,3 +18,5 @@ func (m *Map) End() token.Position {
 	}
 	return m.Rules[len(m.Rules)-1].End()
 }
+
+func (m *Map) groupEntry() {}
diff --git a/ast/null.go b/ast/null.go
index 6768003..684d67d 100644
--- a/ast/null.go
+++ b/ast/null.go
@@ -15,3 +15,5 @@ func (nt *NullType) Start() token.Position {
 func (nt *NullType) End() token.Position {
 	return nt.Pos.To(4) // lenth of `null`
 }
+
+func (nt *NullType) groupEntry() {}
diff --git a/ast/tag.go b/ast/tag.go
index 96fe700..9f31017 100644
--- a/ast/tag.go
+++ b/ast/tag.go
@@ -24,3 +24,5 @@ func (t *Tag) End() token.Position {
 	}
 	return t.Pos.To(1)
 }
+
+func (t *Tag) groupEntry() {}
diff --git a/ast/text.go b/ast/text.go
index c182d6a..eee1aee 100644
--- a/ast/text.go
+++ b/ast/text.go
@@ -30,3 +30,7 @@ func (tt *TstrType) Start() token.Position {
 func (tt *TstrType) End() token.Position {
 	return tt.Pos.To(4)
 }
+
+func (tl *TextLiteral) groupEntry() {}
+
+func (tt *TstrType) groupEntry() {}
diff --git a/ast/typechoice.go b/ast/typechoice.go
index c8ddca5..4e2f1ab 100644
--- a/ast/typechoice.go
+++ b/ast/typechoice.go
@@ -22,3 +22,5 @@ func (tc *TypeChoice) End() token.Position {
 	}
 	return tc.Second.End()
 }
+
+func (tc *TypeChoice) groupEntry() {}
diff --git a/ast/uint.go b/ast/uint.go
index cce3793..34ecbe0 100644
--- a/ast/uint.go
+++ b/ast/uint.go
@@ -15,3 +15,5 @@ func (ut *UintType) Start() token.Position {
 func (ut *UintType) End() token.Position {
 	return ut.Range.End
 }
+
+func (ut *UintType) groupEntry() {}
diff --git a/ast/uint_literal.go b/ast/uint_literal.go
index 01995e5..4345071 100644
--- a/ast/uint_literal.go
+++ b/ast/uint_literal.go
@@ -20,3 +20,5 @@ func (ul *UintLiteral) Start() token.Position {
 func (ul *UintLiteral) End() token.Position {
 	return ul.Pos.To(len(fmt.Sprintf("%d", ul.Literal)))
 }
+
+func (ul *UintLiteral) groupEntry() {}
diff --git a/ast/unwrap.go b/ast/unwrap.go
index cf1f0a1..2fe7ad6 100644
--- a/ast/unwrap.go
+++ b/ast/unwrap.go
@@ -18,3 +18,5 @@ func (u *Unwrap) End() token.Position {
 	}
 	return u.Item.End()
 }
+
+func (u *Unwrap) groupEntry() {}
-- 
2.43.0


From 1286f90d65d43d54e63b6f6464e036b6246b0017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:07 +0000
Subject: [PATCH 16/43] fix: give .eq the precedence of a control operator

---
 token/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/token/token.go b/token/token.go
index 3404ab1..a3887e2 100644
--- a/token/token.go
+++ b/token/token.go
@@ -261,7 +261,7 @@ func Lookup(str string) Token {
 // Precedence returns the token's precedence used to built the ast in parsing
 func (t Token) Precedence() int {
 	switch t {
-	case EQ, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
+	case ASSIGN, TYPE_CHOICE_ASSIGN, GROUP_CHOICE_ASSIGN:
 		return 1
 	case GROUP_CHOICE:
 		return 2
-- 
2.43.0


From 0b9da7b2fb2fe5c80794b9d05c7dbcf26aa6fb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:08 +0000
Subject: [PATCH 17/43] fix: parse right operands with the precedence of their
 operator

---
 parser/parser.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 42124de..2090ee4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -374,7 +374,7 @@ func (p *Parser) parseTypeChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is type
+	sec, err := p.parseEntry(tc.Token.Precedence() - 1) // right associative, TODO: Check is type
 	if err != nil {
 		return sec, err
 	}
@@ -389,7 +389,7 @@ func (p *Parser) parseGroupChoice(left ast.Node) (ast.Node, errors.Diagnostic) {
 		First: left,
 	}
 	p.next()
-	sec, err := p.parseEntry(p.currToken.Precedence()) // TODO: Check is group
+	sec, err := p.parseEntry(gc.Token.Precedence() - 1) // right associative, TODO: Check is group
 	if err != nil {
 		return sec, err
 	}
@@ -550,7 +550,7 @@ func (p *Parser) parseSizeOperator(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(sop.Token.Precedence())
 	if err != nil {
 		return sop, err
 	}
@@ -577,7 +577,7 @@ func (p *Parser) parseRegexp(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return r, p.errorTokenExpected(p.pos, token.TEXT_LITERAL)
 	}
 	p.next()
-	regex, err := p.parseEntry(p.currToken.Precedence())
+	regex, err := p.parseEntry(r.Token.Precedence())
 	if err != nil {
 		return r, err
 	}
@@ -593,7 +593,7 @@ func (p *Parser) parseBits(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	constraint, err := p.parseEntry(p.currToken.Precedence())
+	constraint, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		b.Contstraint = wrapBadNode(constraint)
 		return b, err
@@ -745,7 +745,7 @@ func (p *Parser) parseComparatorOp(left ast.Node) (ast.Node, errors.Diagnostic)
 	}
 	p.next()
 
-	right, err := p.parseEntry(p.currToken.Precedence())
+	right, err := p.parseEntry(op.Token.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: left, Token: p.currToken}, err
 	}
@@ -826,7 +826,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -857,7 +857,7 @@ func (p *Parser) parseIntBound(left *ast.IntegerLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
@@ -904,7 +904,7 @@ func (p *Parser) parseFloatBound(left *ast.FloatLiteral) (*ast.Range, errors.Dia
 	}
 
 	p.next()
-	to, err := p.parseEntry(p.currToken.Precedence())
+	to, err := p.parseEntry(b.Token.Precedence())
 	if err != nil {
 		return b, err
 	}
-- 
2.43.0


From 927d94fa67ad39b96d6058ed26f5e4ed01502e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:09 +0000
Subject: [PATCH 18/43] fix: names defined by /= and //= can be referenced

---
 parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 2090ee4..78c5a91 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -164,6 +164,10 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 		if err != nil {
 			return rule, err
 		}
+		// extends the name or, when it is not known yet, defines it
+		if !p.environment.Exists(rule.Name.Name) {
+			_ = p.environment.Add(rule.Name.Name, entry)
+		}
 	default:
 		return nil, p.error(fmt.Sprintf("expected assigment operators =, /= or //= after identifer `%s`", rule.Name.Name), rule.Name.Pos, rule.Name.Pos)
 	}
-- 
2.43.0


From 83b549b47336dd3321fb9e5c9c8944213a05bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 19/43] fix: walk every node type the parser builds

---
 ast/astutils/walk.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ast/astutils/walk.go b/ast/astutils/walk.go
index 1768294..4512fd3 100644
--- a/ast/astutils/walk.go
+++ b/ast/astutils/walk.go
@@ -22,6 +22,22 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, rule)
 		}
 
+	case *ast.BadNode:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+
+	case *ast.Bits:
+		if n.Base != nil {
+			Walk(v, n.Base)
+		}
+		if n.Contstraint != nil {
+			Walk(v, n.Contstraint)
+		}
+
+	case *ast.BooleanLiteral:
+		// pass
+
 	case *ast.BooleanType:
 		// pass
 
@@ -39,6 +55,11 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.Comment:
 		// pass
 
+	case *ast.CommentGroup:
+		for _, comment := range n.List {
+			Walk(v, comment)
+		}
+
 	case *ast.ComparatorOpControl:
 		if n.Left != nil {
 			Walk(v, n.Left)
@@ -74,6 +95,11 @@ func Walk(v Visitor, node ast.Node) {
 			Walk(v, n.TrailingComment)
 		}
 
+	case *ast.Enumeration:
+		if n.Value != nil {
+			Walk(v, n.Value)
+		}
+
 	case *ast.FloatType:
 		// pass
 
@@ -176,6 +202,9 @@ func Walk(v Visitor, node ast.Node) {
 	case *ast.UintLiteral:
 		// pass
 
+	case *ast.UintType:
+		// pass
+
 	case *ast.Unwrap:
 		if n.Item != nil {
 			Walk(v, n.Item)
-- 
2.43.0


From 2680759b682bdee268d0fdb1f191095f441af5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:20 +0000
Subject: [PATCH 20/43] fix: generate quoted Go strings for text literals

---
 transforms/codegen/golang/gen_literals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_literals.go b/transforms/codegen/golang/gen_literals.go
index 1cd01b4..f2f1267 100644
--- a/transforms/codegen/golang/gen_literals.go
+++ b/transforms/codegen/golang/gen_literals.go
@@ -11,7 +11,7 @@ import (
 func (g *Generator) transpileTextLiteral(tl *ast.TextLiteral) *gast.BasicLit {
 	return &gast.BasicLit{
 		Kind:  token.STRING,
-		Value: tl.Literal,
+		Value: strconv.Quote(tl.Literal),
 	}
 }
 
-- 
2.43.0


From 2048280e2af9bd7db31f59b1297efc848f2869cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:21 +0000
Subject: [PATCH 21/43] fix: generate code for bstr, nint and float types

---
 transforms/codegen/golang/gen_base_types.go | 28 +++++++++++++++++++++
 transforms/codegen/golang/gen_grouped.go    |  6 +++++
 2 files changed, 34 insertions(+)

diff --git a/transforms/codegen/golang/gen_base_types.go b/transforms/codegen/golang/gen_base_types.go
index b64f11f..d013f2e 100644
--- a/transforms/codegen/golang/gen_base_types.go
+++ b/transforms/codegen/golang/gen_base_types.go
@@ -4,6 +4,7 @@ import (
 	gast "go/ast"
 
 	"github.com/HannesKimara/cddlc/ast"
+	"github.com/HannesKimara/cddlc/token"
 )
 
 func (g *Generator) transpileTstrType(tstr *ast.TstrType) *gast.Ident {
@@ -43,3 +44,30 @@ func (g *Generator) transpileBoolType(bt *ast.BooleanType) *gast.Ident {
 		Name: "bool",
 	}
 }
+
+func (g *Generator) transpileBstrType(bt *ast.BstrType) *gast.ArrayType {
+	return &gast.ArrayType{
+		Elt: &gast.Ident{
+			Name: "byte",
+		},
+	}
+}
+
+func (g *Generator) transpileNegativeIntegerType(nt *ast.NegativeIntegerType) *gast.Ident {
+	return &gast.Ident{
+		Name: "int",
+	}
+}
+
+func (g *Generator) transpileFloatType(ft *ast.FloatType) *gast.Ident {
+	switch ft.Token {
+	case token.FLOAT16, token.FLOAT32:
+		return &gast.Ident{
+			Name: "float32",
+		}
+	default:
+		return &gast.Ident{
+			Name: "float64",
+		}
+	}
+}
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 7357b25..17ff6fb 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -243,6 +243,12 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 		return newStructure(g.transpileTstrType(val)), nil
 	case *ast.BytesType:
 		return newStructure(g.transpileBytesType(val)), nil
+	case *ast.BstrType:
+		return newStructure(g.transpileBstrType(val)), nil
+	case *ast.NegativeIntegerType:
+		return newStructure(g.transpileNegativeIntegerType(val)), nil
+	case *ast.FloatType:
+		return newStructure(g.transpileFloatType(val)), nil
 	case *ast.Comment:
 		return newStructure(g.transpileComment(val)), nil
 	case *ast.NullType:
-- 
2.43.0


From a21b1fd8d55940885b8cda27fac6344d3403cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 22/43] fix: give generated methods the receiver their
 validator calls use

---
 transforms/codegen/golang/gen.go          | 3 +++
 transforms/codegen/golang/gen_grouped.go  | 3 +--
 transforms/codegen/golang/gen_operator.go | 6 +++---
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index 0693237..d49aa82 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -14,6 +14,9 @@ const (
 	VALIDATOR_PKG = "github.com/HannesKimara/cddlc/runtime/validators"
 )
 
+// receiverName names the receiver of the generated methods, validator calls refer to it
+const receiverName = "self"
+
 type structure struct {
 	node gast.Node
 	// spec gast.Decl
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 17ff6fb..8584085 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -6,7 +6,6 @@ import (
 	gast "go/ast"
 	"go/token"
 	"log"
-	"strings"
 
 	"github.com/HannesKimara/cddlc/ast"
 )
@@ -74,7 +73,7 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 }
 
 func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule) *gast.FuncDecl {
-	selfIdent := gast.NewIdent(strings.ToLower(rule.Name.Name))
+	selfIdent := gast.NewIdent(receiverName)
 
 	funcDecl := &gast.FuncDecl{
 		Doc: &gast.CommentGroup{
diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index 5b861d0..b6c448f 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -30,11 +30,11 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 
 	switch op.Type.(type) {
 	case *ast.UintType:
-		stct.addValidatorCall("validators", "CheckSize", "self", size.Literal) // test
+		stct.addValidatorCall("validators", "CheckSize", receiverName, size.Literal) // test
 	case *ast.BstrType, *ast.BytesType:
-		stct.addValidatorCall("validators", "CheckSize", "self", size.Literal)
+		stct.addValidatorCall("validators", "CheckSize", receiverName, size.Literal)
 	case *ast.TstrType:
-		stct.addValidatorCall("validators", "CheckSize", "self", size.Literal)
+		stct.addValidatorCall("validators", "CheckSize", receiverName, size.Literal)
 	default:
 		panic("fix later")
 	}
-- 
2.43.0


From 2bd16e6e6ee9381e51b2fc91cf77a78bf46e0fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 23/43] fix: do not generate a method on a variable

---
 transforms/codegen/golang/gen_grouped.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 8584085..401854c 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -61,8 +61,11 @@ func (g *Generator) Visit(node ast.Node) *Generator {
 
 		log.Println("Len("+val.Name.Name+"): ", len(stct.validators))
 
-		valDecl := g.bundleValidators(stct.validators, val)
-		g.file.Decls = append(g.file.Decls, valDecl)
+		// only types can have methods
+		if declToken == token.TYPE {
+			valDecl := g.bundleValidators(stct.validators, val)
+			g.file.Decls = append(g.file.Decls, valDecl)
+		}
 	case *ast.CDDL:
 		for _, rule := range val.Rules {
 			g.Visit(rule)
-- 
2.43.0


From 5a7d7221f3d6423a218e1d747a2d8ea699fe9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 24/43] fix: generate every validator call and not the last one
 repeated

---
 transforms/codegen/golang/gen_grouped.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 401854c..574a958 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -111,9 +111,9 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 	}
 
 	if len(validators) > 0 {
-		for _, validator := range validators {
+		for i := range validators {
 			ex := &gast.ExprStmt{
-				X: &validator,
+				X: &validators[i],
 			}
 			block.List = append(block.List, ex)
 		}
-- 
2.43.0


From 5de737b6525f5ece436e95ed91dc888ab5784878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 25/43] fix: write the imports of the generated file, each of
 them once

---
 transforms/codegen/golang/gen.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/transforms/codegen/golang/gen.go b/transforms/codegen/golang/gen.go
index d49aa82..55708c4 100644
--- a/transforms/codegen/golang/gen.go
+++ b/transforms/codegen/golang/gen.go
@@ -71,20 +71,26 @@ type Generator struct {
 
 // String flushes the generated tree to an output
 func (g *Generator) String(output io.Writer) (err error) {
-	g.file.Imports = append(g.file.Imports, g.imports...)
-	gast.SortImports(g.fset, g.file)
+	file := &gast.File{
+		Name:    g.file.Name,
+		Imports: g.imports,
+		Decls:   g.file.Decls,
+	}
 
-	if len(g.file.Imports) > 0 {
+	if len(g.imports) > 0 {
 		importDecl := &gast.GenDecl{Specs: []gast.Spec{}, Tok: token.IMPORT}
 
-		for _, spec := range g.file.Imports {
+		for _, spec := range g.imports {
 			importDecl.Specs = append(importDecl.Specs, spec)
 		}
+		if len(importDecl.Specs) > 1 {
+			importDecl.Lparen = 1 // print every import, in parentheses
+		}
 
-		g.file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
+		file.Decls = append([]gast.Decl{importDecl}, g.file.Decls...)
 	}
 
-	return format.Node(output, g.fset, g.file)
+	return format.Node(output, g.fset, file)
 }
 
 // Package returns the name of the generated golang package
@@ -93,6 +99,12 @@ func (g *Generator) Package() string {
 }
 
 func (g *Generator) addImport(value string, name string) {
+	for _, spec := range g.imports {
+		if spec.Path.Value == "\""+value+"\"" {
+			return
+		}
+	}
+
 	var ident *gast.Ident
 	if name != "" { // nullable ident to prevent space on generated output
 		ident = gast.NewIdent(name)
-- 
2.43.0


From 5784cde216fc971cf3fe0a730c09338eee3923c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 26/43] fix: generate a field for optional entries without a
 key

---
 transforms/codegen/golang/gen_grouped.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 574a958..2c8a4f6 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -148,11 +148,15 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 			if err != nil {
 				return nil, err
 			}
-			if cast, ok := stct.node.(*gast.Field); ok {
-				cast.Tag = &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\",omitempty\"`"}
+			tag := &gast.BasicLit{Kind: token.STRING, Value: "`cbor:\",omitempty\"`"}
+			switch cast := stct.node.(type) {
+			case *gast.Field:
+				cast.Tag = tag
 				field = cast
-			} else {
-				return nil, err
+			case gast.Expr:
+				field = &gast.Field{Type: cast, Tag: tag}
+			default:
+				return nil, fmt.Errorf("unexpected transpilation product for optional entry (%T)", stct.node)
 			}
 		case *ast.Identifier:
 			field = &gast.Field{
-- 
2.43.0


From 243e157b5bc9d534e85e4519a822b53f5685226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 27/43] fix: register the case conversions that options are
 checked against

---
 transforms/codegen/golang/gen_identifiers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transforms/codegen/golang/gen_identifiers.go b/transforms/codegen/golang/gen_identifiers.go
index 71eed8d..104ae11 100644
--- a/transforms/codegen/golang/gen_identifiers.go
+++ b/transforms/codegen/golang/gen_identifiers.go
@@ -37,7 +37,7 @@ func (g *Generator) transpileIdentifier(ident *ast.Identifier) *gast.Ident {
 }
 
 func init() {
-	converters := make(map[string]stringConverter)
+	converters = make(map[string]stringConverter)
 
 	converters["camelcase"] = strcase.ToCamel
 	converters["snakecase"] = strcase.ToSnake
-- 
2.43.0


From ad05278bea754d6a366665ba4a11ab4212af68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 28/43] fix: do not dereference a missing literal for other
 .size operands

---
 transforms/codegen/golang/gen_operator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index b6c448f..dfe99ce 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -2,6 +2,7 @@ package gogen
 
 import (
 	"errors"
+	"fmt"
 	gast "go/ast"
 	"log"
 
@@ -18,6 +19,8 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 	case *ast.Identifier:
 		// TODO: resolve and cast
 		panic("ident literal size not implemented")
+	default:
+		return nil, fmt.Errorf("size operand of type %T not implemented", val)
 	}
 
 	baseStct, err := g.transpileNode(op.Type)
-- 
2.43.0


From 24e99858a5872dd8812bea9b84ebf496cc033039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 29/43] fix: keep the size checks of nested and repeated
 entries

---
 transforms/codegen/golang/gen_grouped.go  | 15 +++++++++++----
 transforms/codegen/golang/gen_operator.go |  9 ++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index 2c8a4f6..e9a50af 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -133,6 +133,7 @@ func (g *Generator) bundleValidators(validators []gast.CallExpr, rule *ast.Rule)
 
 func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, error) {
 	fl := &gast.FieldList{}
+	stctRet := newStructure(fl)
 	for _, entry := range entries {
 		var field *gast.Field
 		switch val := entry.(type) {
@@ -142,6 +143,7 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 				panic(err)
 			}
 			field = stct.node.(*gast.Field)
+			stctRet.Embed(stct)
 
 		case *ast.Optional:
 			stct, err := g.transpileNode(val.Item)
@@ -158,21 +160,23 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 			default:
 				return nil, fmt.Errorf("unexpected transpilation product for optional entry (%T)", stct.node)
 			}
+			stctRet.Embed(stct)
 		case *ast.Identifier:
 			field = &gast.Field{
 				Type: g.transpileIdentifier(val),
 			}
 		case *ast.NMOccurrence:
+			stct := g.transpileNMOccurence(val)
 			field = &gast.Field{
-				Type: g.transpileNMOccurence(val),
+				Type: stct.node.(gast.Expr),
 			}
+			stctRet.Embed(stct)
 		default:
 			panic(fmt.Sprintf("What was that? %T: `%+v`", val, val))
 		}
 
 		fl.List = append(fl.List, field)
 	}
-	stctRet := newStructure(fl)
 	return stctRet, nil
 }
 
@@ -206,7 +210,10 @@ func (g *Generator) transpileArray(arr *ast.Array) (*structure, error) {
 	}
 
 	fl.List = append(fl.List, fl2.node.(*gast.FieldList).List...)
-	return newStructure(&gast.StructType{Fields: fl}), nil
+	ret := newStructure(&gast.StructType{Fields: fl})
+	ret.Embed(fl2)
+
+	return ret, nil
 }
 
 func (g *Generator) transpileEntry(entry *ast.Entry) (*structure, error) {
@@ -272,7 +279,7 @@ func (g *Generator) transpileNode(node ast.Node) (*structure, error) {
 	case *ast.FloatLiteral:
 		return newStructure(g.transpileFloatLiteral(val)), nil
 	case *ast.NMOccurrence:
-		return newStructure(g.transpileNMOccurence(val)), nil
+		return g.transpileNMOccurence(val), nil
 	case *ast.SizeOperatorControl:
 		return g.transformSizeOp(val)
 	default:
diff --git a/transforms/codegen/golang/gen_operator.go b/transforms/codegen/golang/gen_operator.go
index dfe99ce..ac1b5b6 100644
--- a/transforms/codegen/golang/gen_operator.go
+++ b/transforms/codegen/golang/gen_operator.go
@@ -48,14 +48,17 @@ func (g *Generator) transformSizeOp(op *ast.SizeOperatorControl) (*structure, er
 	return stct, nil
 }
 
-func (g *Generator) transpileNMOccurence(nm *ast.NMOccurrence) *gast.ArrayType {
+func (g *Generator) transpileNMOccurence(nm *ast.NMOccurrence) *structure {
 	stct, err := g.transpileNode(nm.Item)
 	if err != nil {
 		panic("fix later")
 	}
-	return &gast.ArrayType{
+	ret := newStructure(&gast.ArrayType{
 		Elt: stct.node.(gast.Expr),
-	}
+	})
+	ret.Embed(stct)
+
+	return ret
 }
 
 func (g *Generator) transpileComparatorOp(op ast.ComparatorOpControl) (*structure, error) {
-- 
2.43.0


From 7eb23d013643b536c6ba3aaa6db21f2e8ff3d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 30/43] fix: close the source file after reading it

---
 cmd/cddlc/commands.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index ec2dc4e..8f9788d 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -24,6 +24,7 @@ func readSource(filename string) (src []byte, err error) {
 	if err != nil {
 		return
 	}
+	defer f.Close()
 	src, err = ioutil.ReadAll(f)
 	if err != nil {
 		return
-- 
2.43.0


From cdf2e59395eeb65f5297a6dbead2f937dfe8395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 31/43] fix: close the configuration file after loading it

---
 config/config.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/config/config.go b/config/config.go
index 3c40856..9102893 100644
--- a/config/config.go
+++ b/config/config.go
@@ -98,6 +98,7 @@ func LoadConfig(path string) (*Config, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer fh.Close()
 	config := &Config{}
 	switch base {
 	case cDDLC_JSON:
-- 
2.43.0


From b4aaf30ce44b6ea2e5c9ca75890ceae097feca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:30 +0000
Subject: [PATCH 32/43] fix: close the configuration file written by init

---
 cmd/cddlc/commands/init.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 6b36cc6..3901240 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -13,7 +13,7 @@ import (
 
 const configFile string = "cddlc.json"
 
-func getFileHandle(name string) (io.Writer, error) {
+func getFileHandle(name string) (io.WriteCloser, error) {
 	root, err := os.Getwd()
 	if err != nil {
 		return nil, err
@@ -42,7 +42,8 @@ func InitCmd(cCtx *cli.Context) error {
 	enc.SetIndent("", "	")
 
 	if err := enc.Encode(conf); err != nil {
+		f.Close()
 		return err
 	}
-	return nil
+	return f.Close()
 }
-- 
2.43.0


From 79b2d446f8f82b222e023bc4d39b6090d4d762ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:31 +0000
Subject: [PATCH 33/43] fix: never append to a configuration created while init
 runs

---
 cmd/cddlc/commands/init.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/init.go b/cmd/cddlc/commands/init.go
index 3901240..3ac3a33 100644
--- a/cmd/cddlc/commands/init.go
+++ b/cmd/cddlc/commands/init.go
@@ -26,7 +26,7 @@ func getFileHandle(name string) (io.WriteCloser, error) {
 		// file exists
 		return nil, errors.New("existing configuration for project found in " + fp)
 	case os.IsNotExist(err):
-		return os.OpenFile(fp, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
+		return os.OpenFile(fp, os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0666)
 	default:
 		return nil, err
 	}
-- 
2.43.0


From 09730ebad48bc829e527c2c0a71b58bc03c46bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:32 +0000
Subject: [PATCH 34/43] fix: fail the parse command when the source does not
 parse

---
 cmd/cddlc/commands.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index 8f9788d..15d1298 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -93,6 +93,9 @@ func ParseCmd(cCtx *cli.Context) error {
 		return err
 	}
 	fmt.Println(string(b))
+	if len(errs) > 0 {
+		return errors.New("parser failed with errors above")
+	}
 	return nil
 }
 
-- 
2.43.0


From 14d755db8352b5dd3d761b9985ddc83f2fed969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 35/43] fix: report failed generation and keep the previous
 output then

---
 cmd/cddlc/commands/generate.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index 90c0eb9..e6badd2 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -116,13 +116,6 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return err
 	}
 
-	// check if output file can be opened/created before generating. Fail otherwise
-	out, err := os.OpenFile(outPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
-	if err != nil {
-		return err
-	}
-	defer out.Close()
-
 	lex := lexer.NewLexer(src)
 	p := parser.NewParser(lex)
 	cddl, errs := p.ParseFile()
@@ -138,12 +131,17 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 
 	gen.Visit(cddl)
 
+	// write the output file only once everything it will hold is known
+	out := &bytes.Buffer{}
 	err = addBuildHeader(out)
 	if err != nil {
 		return err
 	}
-	gen.String(out)
-	return nil
+	err = gen.String(out)
+	if err != nil {
+		return err
+	}
+	return ioutil.WriteFile(outPath, out.Bytes(), 0666)
 }
 
 func addBuildHeader(f io.Writer) error {
-- 
2.43.0


From fec6b74f066273807ff1698cb5d582d6cd172e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:34 +0000
Subject: [PATCH 36/43] fix: return an error for sources the generator does not
 support

---
 cmd/cddlc/commands/generate.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index e6badd2..d9180ef 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -10,6 +10,7 @@ import (
 	"path/filepath"
 	"strings"
 
+	"github.com/HannesKimara/cddlc/ast"
 	"github.com/HannesKimara/cddlc/config"
 	"github.com/HannesKimara/cddlc/lexer"
 	"github.com/HannesKimara/cddlc/parser"
@@ -129,7 +130,10 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 		return errors.New("parser failed with errors above")
 	}
 
-	gen.Visit(cddl)
+	err = visit(gen, cddl)
+	if err != nil {
+		return err
+	}
 
 	// write the output file only once everything it will hold is known
 	out := &bytes.Buffer{}
@@ -144,6 +148,18 @@ func generateFile(cCtx *cli.Context, pkgName, filepath, outPath string) error {
 	return ioutil.WriteFile(outPath, out.Bytes(), 0666)
 }
 
+// visit generates the code of a tree. The generator panics on nodes it does not support.
+func visit(gen *gogen.Generator, cddl *ast.CDDL) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("code generation failed: %v", r)
+		}
+	}()
+	gen.Visit(cddl)
+
+	return nil
+}
+
 func addBuildHeader(f io.Writer) error {
 	header := "/*\n  File generated using `" + filepath.Base(os.Args[0]) + " " + strings.Join(os.Args[1:], " ") + "`. DO NOT EDIT\n*/\n\n"
 
-- 
2.43.0


From 2ffd87138997bd2362833f592c1f23461184a7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 37/43] fix: print diagnostics that carry no line of the source

---
 cmd/cddlc/commands.go          | 4 +++-
 cmd/cddlc/commands/generate.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/cddlc/commands.go b/cmd/cddlc/commands.go
index 15d1298..f3d6c09 100644
--- a/cmd/cddlc/commands.go
+++ b/cmd/cddlc/commands.go
@@ -119,7 +119,9 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 
 	for _, err := range errs {
 		pos := err.Start()
-		if pos.Line <= lCount {
+		if pos.Line < 1 || pos.Line > lCount {
+			outs = append(outs, err.Error())
+		} else {
 			line := string(lines[pos.Line-1])
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
 			outs = append(outs,
diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index d9180ef..a1e0a1d 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -178,7 +178,9 @@ func errorStringer(src []byte, errs parser.ErrorList) []string {
 
 	for _, err := range errs {
 		pos := err.Start()
-		if pos.Line <= lCount {
+		if pos.Line < 1 || pos.Line > lCount {
+			outs = append(outs, err.Error())
+		} else {
 			line := string(lines[pos.Line-1])
 			lPrefix := fmt.Sprintf("%s%d | ", TAB, pos.Line)
 			outs = append(outs,
-- 
2.43.0


From 3eddfabed3f650d176a56315563bed55b44b8db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:36 +0000
Subject: [PATCH 38/43] fix: do not print addresses in messages and strings

---
 ast/cddl_root.go                         | 2 +-
 parser/parser.go                         | 2 +-
 transforms/codegen/golang/gen_grouped.go | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ast/cddl_root.go b/ast/cddl_root.go
index e9a807b..b2ba938 100644
--- a/ast/cddl_root.go
+++ b/ast/cddl_root.go
@@ -15,7 +15,7 @@ type CDDL struct {
 func (c *CDDL) String() string {
 	out := "CDDL ("
 	for _, rule := range c.Rules {
-		out += fmt.Sprintf("%+v,", rule)
+		out += fmt.Sprintf("%T at %s,", rule, rule.Start())
 	}
 	out += ")"
 	return out
diff --git a/parser/parser.go b/parser/parser.go
index 78c5a91..2a13ee3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -844,7 +844,7 @@ func (p *Parser) parseIdentBound(left *ast.Identifier) (*ast.Range, errors.Diagn
 			valRight := p.environment.Get(val.Name)
 			if !(reflect.TypeOf(valLeft) == reflect.TypeOf(valRight)) {
 				return p.error(
-					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %+v and %+v", b.Token, left.Name, val.Name, valLeft, valRight),
+					fmt.Sprintf("operator %s expected same type min, max values. The values of %s and %s resolve to %T and %T", b.Token, left.Name, val.Name, valLeft, valRight),
 					left.Pos, val.Pos)
 			}
 		}
diff --git a/transforms/codegen/golang/gen_grouped.go b/transforms/codegen/golang/gen_grouped.go
index e9a50af..8bfdad1 100644
--- a/transforms/codegen/golang/gen_grouped.go
+++ b/transforms/codegen/golang/gen_grouped.go
@@ -172,7 +172,7 @@ func (g *Generator) transpileGroupLike(entries []ast.GroupEntry) (*structure, er
 			}
 			stctRet.Embed(stct)
 		default:
-			panic(fmt.Sprintf("What was that? %T: `%+v`", val, val))
+			panic(fmt.Sprintf("What was that? %T at %s", val, val.Start()))
 		}
 
 		fl.List = append(fl.List, field)
-- 
2.43.0


From bb27780ba68df6b8c924c505b8a22e9aa1c7150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:50 +0000
Subject: [PATCH 39/43] fix: parse the item of an occurrence after its upper
 bound, which directly follows the operator

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2a13ee3..15dae10 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -797,7 +797,8 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		return nil, p.error(fmt.Sprintf("unexpected lower bound type for operator %s, should be uint", occ.Token), left.Start(), left.End())
 	}
 
-	if p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) {
+	// an upper limit follows the operator directly
+	if p.peekToken == token.INT && p.peekToken.IsLiteral(p.peekLiteral) && p.peekPos == p.pos.To(1) {
 		p.next()
 		rightN, err := p.parseUintType()
 		if err != nil {
@@ -807,10 +808,9 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 		if val, ok := rightN.(*ast.UintLiteral); ok {
 			right = val
 		}
-	} else {
-		// assume no upper limit. Advance
-		p.next()
 	}
+	// advance to the item
+	p.next()
 
 	occ.N = leftU
 	occ.M = right
-- 
2.43.0


From 63f09bd79c7a3c74402a9eb6b572a5df78e0004f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 40/43] fix: key separators and prefix operators bind tighter
 than the group choice

---
 parser/parser.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 15dae10..e3ec0e4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -143,7 +143,7 @@ func (p *Parser) parseRule() (_ ast.CDDLEntry, err errors.Diagnostic) {
 	switch tok {
 	case token.ASSIGN:
 		p.next()
-		entry, err = p.parseEntry(p.currToken.Precedence())
+		entry, err = p.parseEntry(token.LOWEST)
 		if err != nil {
 			return rule, err
 		}
@@ -354,7 +354,7 @@ func (p *Parser) parseColon(left ast.Node) (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	val, err := p.parseEntry(p.currToken.Precedence())
+	val, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
 	if err != nil {
 		return val, err
 	}
@@ -409,7 +409,7 @@ func (p *Parser) parseUnwrap() (ast.Node, errors.Diagnostic) {
 	}
 
 	p.next()
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -444,7 +444,7 @@ func (p *Parser) parseTag() (ast.Node, errors.Diagnostic) {
 	if p.peekToken == token.LPAREN {
 		p.next()
 		p.next()
-		item, err := p.parseEntry(p.currToken.Precedence())
+		item, err := p.parseEntry(token.LOWEST)
 		tagBase.Item = item
 		if err != nil {
 			return tagBase, err
@@ -464,7 +464,7 @@ func (p *Parser) parseEnumeration() (ast.Node, errors.Diagnostic) {
 
 	p.next()
 
-	value, err := p.parseEntry(p.currToken.Precedence())
+	value, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
 	if err != nil {
 		bn := &ast.BadNode{
 			Base: value,
@@ -508,7 +508,7 @@ func (p *Parser) parseOptional() (ast.Node, errors.Diagnostic) {
 	}
 	p.next()
 
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
 	if err != nil {
 		return item, err
 	}
@@ -631,7 +631,7 @@ func (p *Parser) parseGroup() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RPAREN {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -670,7 +670,7 @@ func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACE {
-		rule, err := p.parseEntry(p.currToken.Precedence())
+		rule, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return g, err
 		}
@@ -688,7 +688,7 @@ func (p *Parser) parseArray() (ast.Node, errors.Diagnostic) {
 	p.next()
 
 	for p.currToken != token.RBRACK {
-		rawEntry, err := p.parseEntry(p.currToken.Precedence())
+		rawEntry, err := p.parseEntry(token.LOWEST)
 		if err != nil {
 			return arr, err
 		}
@@ -814,7 +814,7 @@ func (p *Parser) parseOccurrence(left ast.Node) (ast.Node, errors.Diagnostic) {
 
 	occ.N = leftU
 	occ.M = right
-	item, err := p.parseEntry(p.currToken.Precedence())
+	item, err := p.parseEntry(token.GROUP_CHOICE.Precedence())
 	if err != nil {
 		return &ast.BadNode{Base: occ, Token: p.currToken}, err
 	}
-- 
2.43.0


From 99166753807813c80d3ec896b08ecb32f26b7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 41/43] fix: generate reports an empty build entry instead of
 panicking

---
 cmd/cddlc/commands/generate.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/cddlc/commands/generate.go b/cmd/cddlc/commands/generate.go
index a1e0a1d..8deadcc 100644
--- a/cmd/cddlc/commands/generate.go
+++ b/cmd/cddlc/commands/generate.go
@@ -61,6 +61,9 @@ func GenerateCmd(cCtx *cli.Context) error {
 	}
 
 	for _, build := range conf.Builds {
+		if build == nil {
+			return errors.New("empty build entry in configuration")
+		}
 		stat, err := os.Stat(build.SourceDir)
 		if err != nil {
 			return errors.New("failed to get stat info on source directory `" + build.SourceDir + "` with err: `" + err.Error() + " `")
-- 
2.43.0


From 5b2008ef9bceadd3aa071d96786f025c8f9e7135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:09 +0000
Subject: [PATCH 42/43] fix: Config.Valid reports an empty plugin entry instead
 of panicking

---
 config/config.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/config/config.go b/config/config.go
index 9102893..1137b11 100644
--- a/config/config.go
+++ b/config/config.go
@@ -67,6 +67,9 @@ type Config struct {
 
 func (c *Config) Valid() error {
 	for _, plugin := range c.Plugins {
+		if plugin == nil {
+			return errors.New("empty plugin entry in configuration")
+		}
 		err := plugin.Valid()
 		if err != nil {
 			return err
-- 
2.43.0


From 74553570e5e54c543551e1d5185424e9df550074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:12 +0000
Subject: [PATCH 43/43] fix: the node of a map carries its token

---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index e3ec0e4..55d726e 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -667,6 +667,7 @@ func wrapBadNode(node ast.Node) *ast.BadNode {
 func (p *Parser) parseMap() (ast.Node, errors.Diagnostic) {
 	g := &ast.Map{}
 	g.Pos = p.pos
+	g.Token = p.currToken
 	p.next()
 
 	for p.currToken != token.RBRACE {
-- 
2.43.0

