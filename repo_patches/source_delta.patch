From ab9a358e7ee9ff9239b23e84a8b5c062d0a2fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:21 +0000
Subject: [PATCH 01/28] fix: include the trailing member access in
 ExprPostfix.Children

---
 pkg/etx/expr.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index ed89063..f852e86 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -774,6 +774,10 @@ func (e *ExprPostfix) Children() (children []Node) {
 		children = append(children, e.Index)
 	}
 
+	if e.Post != nil {
+		children = append(children, e.Post)
+	}
+
 	return
 }
 
-- 
2.43.0


From 4ea76b454de603068eaccf266a4ccffd3f1c3474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 02/28] fix: deep-clone heredocs when cloning a Value

---
 pkg/etx/value.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 0e39ef0..d7eae7d 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -34,7 +34,7 @@ func (v *Value) Clone() *Value {
 		return nil
 	}
 
-	out := Value{
+	return &Value{
 		ASTNode: v.ASTNode.Clone(),
 		Null:    v.Null,
 		Bool:    v.Bool.Clone(),
@@ -44,13 +44,6 @@ func (v *Value) Clone() *Value {
 		List:    v.List.Clone(),
 		Map:     v.Map.Clone(),
 	}
-
-	if v.Heredoc != nil {
-		s := *v.Heredoc
-		out.Heredoc = &s
-	}
-
-	return &out
 }
 
 func (v *Value) Children() (children []Node) {
-- 
2.43.0


From 9f2ff0ea11eec6b2d9fe12a6173588b07307bc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:26 +0000
Subject: [PATCH 03/28] fix: clone the type of function-level declarations

---
 pkg/etx/func.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index 3f2bce4..c80d461 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -195,7 +195,7 @@ func (n *FuncDecl) Clone() *FuncDecl {
 		ASTNode:  n.ASTNode.Clone(),
 		DeclType: n.DeclType,
 		Label:    n.Label,
-		Type:     n.Type,
+		Type:     n.Type.Clone(),
 		Value:    n.Value.Clone(),
 	}
 }
-- 
2.43.0


From b5363a827074112031546a7dafb3e27b420478b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 04/28] fix: let graph walkers stop while delivering a vertex
 and leave the signal channel open

---
 pkg/dag/dag.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index 7e29c32..efd7beb 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -437,7 +437,6 @@ func (g *AcyclicGraph[K, T]) AncestorsWalker(id K) (chan K, chan bool, error) {
 	go func() {
 		g.walkAncestors(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -469,11 +468,17 @@ func (g *AcyclicGraph[K, T]) walkAncestors(id K, ids chan K, signal chan bool) {
 			}
 		}
 
+		// A pending stop request takes precedence over a waiting receiver.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
@@ -496,7 +501,6 @@ func (g *AcyclicGraph[K, T]) DescendantsWalker(id K) (chan K, chan bool, error)
 	go func() {
 		g.walkDescendants(id, ids, signal)
 		close(ids)
-		close(signal)
 	}()
 
 	return ids, signal, nil
@@ -528,11 +532,17 @@ func (g *AcyclicGraph[K, T]) walkDescendants(id K, ids chan K, signal chan bool)
 			}
 		}
 
+		// A pending stop request takes precedence over a waiting receiver.
 		select {
 		case <-signal:
 			return
 		default:
-			ids <- top
+		}
+
+		select {
+		case <-signal:
+			return
+		case ids <- top:
 		}
 	}
 }
-- 
2.43.0


From 307403e5890c4ec92f2bca2f8a584b5673fea4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:59 +0000
Subject: [PATCH 05/28] fix: keep all the digits of number literals

---
 pkg/etx/value.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index d7eae7d..6953a53 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -162,7 +162,7 @@ func (v *ValueNumber) Capture(values []string) error {
 		v.Source = "0o" + sm[1]
 	}
 
-	v.Value = big.NewFloat(0)
+	v.Value = new(big.Float).SetPrec(numberPrecision(v.Source))
 	if _, _, err := v.Value.Parse(v.Source, 0); err != nil {
 		return fmt.Errorf("failed to parse number value '%s': %w", v.Source, err)
 	}
@@ -170,6 +170,21 @@ func (v *ValueNumber) Capture(values []string) error {
 	return nil
 }
 
+// numberPrecision returns a mantissa size that can hold all the digits of a
+// number literal, and never less than that of a float64.
+func numberPrecision(source string) uint {
+	const (
+		float64Precision = 53
+		maxBitsPerDigit  = 4
+	)
+
+	if prec := uint(len(source)) * maxBitsPerDigit; prec > float64Precision {
+		return prec
+	}
+
+	return float64Precision
+}
+
 func (v *ValueNumber) Clone() *ValueNumber {
 	if v == nil {
 		return nil
-- 
2.43.0


From 87dc388a5bf899f20a5b81e378ede91e803e2735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 06/28] fix: accept a lone $ or % in strings and heredocs

---
 pkg/etx/lexer.go | 2 ++
 pkg/etx/value.go | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index c0021a3..56f72db 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -125,6 +125,7 @@ func lexRules() lexer.Rules {
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Char", Pattern: `[^$%"'\\]+`},
+			{Name: "Sigil", Pattern: `[$%]`},
 		},
 		lexerUnicode: {
 			{Name: "UnicodeLong", Pattern: `[0-9a-fA-F]{8}`, Action: lexer.Pop()},
@@ -137,6 +138,7 @@ func lexRules() lexer.Rules {
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Body", Pattern: `[^\n$%]+`},
+			{Name: "Sigil", Pattern: `[$%]`},
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 6953a53..853ab9b 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -301,9 +301,9 @@ func (v HeredocDelimiter) FormattedString() string {
 type HeredocFragment struct {
 	ASTNode
 
-	Expr      *Expr  `parser:"(  Expr @@ ExprEnd       " json:"expr,omitempty"`
-	Directive *Expr  `parser:" | Directive @@ ExprEnd  " json:"directive,omitempty"`
-	Text      string `parser:" | @(Body|EOL|NonExpr)+ )" json:"text,omitempty"`
+	Expr      *Expr  `parser:"(  Expr @@ ExprEnd             " json:"expr,omitempty"`
+	Directive *Expr  `parser:" | Directive @@ ExprEnd        " json:"directive,omitempty"`
+	Text      string `parser:" | @(Body|EOL|NonExpr|Sigil)+ )" json:"text,omitempty"`
 }
 
 func (f *HeredocFragment) Clone() *HeredocFragment {
@@ -392,7 +392,7 @@ type StringFragment struct {
 	Unicode   string `parser:" | Unicode@(UnicodeLong|UnicodeShort)" json:"unicode,omitempty"`
 	Expr      *Expr  `parser:" | Expr @@ ExprEnd"                    json:"expr,omitempty"`
 	Directive *Expr  `parser:" | Directive @@ ExprEnd"               json:"directive,omitempty"`
-	Text      string `parser:" | @(Char|Quote|NonExpr))"             json:"text,omitempty"`
+	Text      string `parser:" | @(Char|Quote|NonExpr|Sigil))"       json:"text,omitempty"`
 }
 
 func (f *StringFragment) Clone() *StringFragment {
-- 
2.43.0


From 81c345a119b1fb29c4cd614b319d540b27abac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 07/28] fix: only end a heredoc at a row starting with its
 whole delimiter

---
 pkg/etx/lexer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index 56f72db..9c51423 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -51,6 +51,7 @@ const (
 	lexerStringExpr = "StringExpr"
 	lexerUnicode    = "Unicode"
 	lexerHeredoc    = "Heredoc"
+	lexerHeredocRow = "HeredocRow"
 )
 
 func lexRules() lexer.Rules {
@@ -132,8 +133,17 @@ func lexRules() lexer.Rules {
 			{Name: "UnicodeShort", Pattern: `[0-9a-fA-F]{4}`, Action: lexer.Pop()},
 		},
 		lexerHeredoc: {
-			{Name: "HeredocEnd", Pattern: `^\1`, Action: lexer.Pop()},
+			// The delimiter only ends the heredoc as the first word of a row.
+			{Name: "HeredocEnd", Pattern: `^\1\b`, Action: lexer.Pop()},
 			{Name: "EOL", Pattern: `\n`},
+			{Name: "NonExpr", Pattern: `(\$\${|%%{)`, Action: lexer.Push(lexerHeredocRow)},
+			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
+			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
+			{Name: "Body", Pattern: `[^\n$%]+`, Action: lexer.Push(lexerHeredocRow)},
+			{Name: "Sigil", Pattern: `[$%]`, Action: lexer.Push(lexerHeredocRow)},
+		},
+		lexerHeredocRow: {
+			{Name: "EOL", Pattern: `\n`, Action: lexer.Pop()},
 			{Name: "NonExpr", Pattern: `(\$\${|%%{)`},
 			{Name: "Expr", Pattern: `\${`, Action: lexer.Push(lexerStringExpr)},
 			{Name: "Directive", Pattern: `%{`, Action: lexer.Push(lexerStringExpr)},
-- 
2.43.0


From a00d0cd4f460187fee9046affd69eb88049d0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 08/28] fix: accept braces inside string and heredoc
 interpolations

---
 pkg/etx/lexer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/etx/lexer.go b/pkg/etx/lexer.go
index 9c51423..4f1dcd3 100644
--- a/pkg/etx/lexer.go
+++ b/pkg/etx/lexer.go
@@ -49,6 +49,7 @@ const (
 	lexerRoot       = "Root"
 	lexerString     = "String"
 	lexerStringExpr = "StringExpr"
+	lexerExprBlock  = "ExprBlock"
 	lexerUnicode    = "Unicode"
 	lexerHeredoc    = "Heredoc"
 	lexerHeredocRow = "HeredocRow"
@@ -152,6 +153,13 @@ func lexRules() lexer.Rules {
 		},
 		lexerStringExpr: {
 			{Name: "ExprEnd", Pattern: `}`, Action: lexer.Pop()},
+			{Name: "BlockStart", Pattern: regexp.QuoteMeta(OpLBrace), Action: lexer.Push(lexerExprBlock)},
+
+			lexer.Include(lexerCore),
+		},
+		lexerExprBlock: {
+			{Name: "BlockStart", Pattern: regexp.QuoteMeta(OpLBrace), Action: lexer.Push(lexerExprBlock)},
+			{Name: "BlockEnd", Pattern: regexp.QuoteMeta(OpRBrace), Action: lexer.Pop()},
 
 			lexer.Include(lexerCore),
 		},
-- 
2.43.0


From 2112916070817763c9d449974122bf0744ce04a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:29 +0000
Subject: [PATCH 09/28] fix: accept a function type as the return type of a
 function

---
 pkg/etx/func.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index c80d461..e13c421 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -8,10 +8,10 @@ import (
 type Func struct {
 	ASTNode
 
-	Label      string           `parser:"'def' @Ident "                     json:"label"`
-	Parameters []*FuncParameter `parser:"'(' [ @@ (',' @@)* ] ')'"         json:"parameters,omitempty"`
-	Return     []*ParameterType `parser:"('(' [ @@ (',' @@)* ] ')' | @@)?" json:"return,omitempty"`
-	Body       []*FuncStatement `parser:"[ LF+ ] '{' [ LF+ ] @@ * '}' "    json:"body,omitempty"`
+	Label      string           `parser:"'def' @Ident "                                     json:"label"`
+	Parameters []*FuncParameter `parser:"'(' [ @@ (',' @@)* ] ')'"                          json:"parameters,omitempty"`
+	Return     []*ParameterType `parser:"('(' [ @@ (',' @@)* ] ')' (?! OpLambdaDef) | @@)?" json:"return,omitempty"`
+	Body       []*FuncStatement `parser:"[ LF+ ] '{' [ LF+ ] @@ * '}' "                     json:"body,omitempty"`
 }
 
 func (n *Func) Clone() *Func {
-- 
2.43.0


From 3525575fc14a39ac3e490407983c00fade1c1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:48 +0000
Subject: [PATCH 10/28] fix: parse key: value attributes and map items, as the
 formatter writes them

---
 pkg/etx/attribute.go | 4 ++--
 pkg/etx/value.go     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/etx/attribute.go b/pkg/etx/attribute.go
index 658b1ea..b3ea17d 100644
--- a/pkg/etx/attribute.go
+++ b/pkg/etx/attribute.go
@@ -8,8 +8,8 @@ import (
 type Attribute struct {
 	ASTNode
 
-	Key   string `parser:"@Ident"    json:"key"`
-	Value *Expr  `parser:"['=' @@ ]" json:"value,omitempty"`
+	Key   string `parser:"@Ident"            json:"key"`
+	Value *Expr  `parser:"[('=' | ':') @@ ]" json:"value,omitempty"`
 }
 
 func (n *Attribute) Clone() *Attribute {
diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 853ab9b..46275d1 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -578,10 +578,10 @@ func (v ValueMap) FormattedString() string {
 type MapItem struct {
 	ASTNode
 
-	EmptyLine string   `parser:"(   @LF+             " json:"empty_line,omitempty"`
-	Key       *MapKey  `parser:"  | ( @@ '='         " json:"key"`
-	Value     *Expr    `parser:"      @@ ','? LF? )  " json:"value"`
-	Comment   *Comment `parser:"  | @@              )" json:"comment,omitempty"`
+	EmptyLine string   `parser:"(   @LF+              " json:"empty_line,omitempty"`
+	Key       *MapKey  `parser:"  | ( @@ ('=' | ':')  " json:"key"`
+	Value     *Expr    `parser:"      @@ ','? LF? )   " json:"value"`
+	Comment   *Comment `parser:"  | @@               )" json:"comment,omitempty"`
 }
 
 func (v *MapItem) Clone() *MapItem {
-- 
2.43.0


From f057553eef631650dcbff6d206c5df586dcc7b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:36 +0000
Subject: [PATCH 11/28] fix: keep the parentheses of grouped expressions when
 formatting

---
 pkg/etx/expr.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index f852e86..c2b1a6b 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -53,6 +53,30 @@ func (e Expr) FormattedString() string {
 	}
 }
 
+// isPrimary returns whether the expression is a lone primary expression,
+// to which no operator, index or member access is applied.
+func (e *Expr) isPrimary() bool {
+	if e.Left == nil || e.Left.ConditionOp {
+		return false
+	}
+
+	or := e.Left.Condition
+	and := or.Left
+	bitOr := and.Left
+	bitXor := bitOr.Left
+	bitAnd := bitXor.Left
+	equality := bitAnd.Left
+	relational := equality.Left
+	shift := relational.Left
+	additive := shift.Left
+	multiplicative := additive.Left
+	unary := multiplicative.Left
+	ops := or.Op + and.Op + bitOr.Op + bitXor.Op + bitAnd.Op + equality.Op + relational.Op +
+		shift.Op + additive.Op + multiplicative.Op + unary.Op
+
+	return ops == "" && unary.Right.Index == nil && unary.Right.Post == nil
+}
+
 // /////////////////////////////////////
 
 type ExprIf struct {
@@ -849,7 +873,12 @@ func (e *ExprPrimary) Children() (children []Node) {
 
 func (e ExprPrimary) FormattedString() string {
 	if e.SubExpression != nil {
-		return e.SubExpression.FormattedString()
+		// Parentheses only matter around something they can group.
+		if e.SubExpression.isPrimary() {
+			return e.SubExpression.FormattedString()
+		}
+
+		return fmt.Sprintf("(%s)", e.SubExpression.FormattedString())
 	}
 
 	if e.Value != nil {
-- 
2.43.0


From 634957276edca16bb9d92e2df8ca5665555db974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:38 +0000
Subject: [PATCH 12/28] fix: format the else branch of an if expression with an
 empty body

---
 pkg/etx/expr.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index c2b1a6b..ccb3bad 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -116,8 +116,10 @@ func (e *ExprIf) Children() (children []Node) {
 
 func (e ExprIf) FormattedString() string {
 	switch {
-	case e.Left == nil:
+	case e.Left == nil && e.Right == nil:
 		return fmt.Sprintf("if %s { }", e.Condition.FormattedString())
+	case e.Left == nil:
+		return fmt.Sprintf("if %s { } else {\n%s\n}", e.Condition.FormattedString(), indent(e.Right.FormattedString(), indentationChar))
 	case e.Right == nil:
 		return fmt.Sprintf("if %s {\n%s\n}", e.Condition.FormattedString(), indent(e.Left.FormattedString(), indentationChar))
 	default:
-- 
2.43.0


From c231f279207b3e24f66720afe5e7faa84d7e2a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 13/28] fix: keep the dot of a member access apart from a
 number when formatting

---
 pkg/etx/expr.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index ccb3bad..9f5410a 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -816,12 +816,23 @@ func (e ExprPostfix) FormattedString() string {
 	}
 
 	if e.Post != nil {
-		mustFprintf(&sb, ".%s", e.Post.FormattedString())
+		sb.WriteString(e.Post.memberString())
 	}
 
 	return sb.String()
 }
 
+// memberString formats the expression as the member access of another one.
+func (e ExprPostfix) memberString() string {
+	s := e.FormattedString()
+	if s != "" && strings.ContainsRune("_0123456789", rune(s[0])) {
+		// Without a space, the dot would become part of the number.
+		return ". " + s
+	}
+
+	return "." + s
+}
+
 // /////////////////////////////////////
 
 type ExprPrimary struct {
@@ -904,8 +915,7 @@ func (e ExprPrimary) FormattedString() string {
 	}
 
 	if e.Post != nil {
-		sb.WriteString(".")
-		sb.WriteString(e.Post.FormattedString())
+		sb.WriteString(e.Post.memberString())
 	}
 
 	return sb.String()
-- 
2.43.0


From 17ab32d6204938390165104b4f16ec0a879a6793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 14/28] fix: do not double the backslash of parsed escape
 sequences when formatting

---
 pkg/etx/value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 46275d1..64777ef 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -424,6 +424,9 @@ func (f *StringFragment) Children() (children []Node) {
 
 func (f StringFragment) FormattedString() string {
 	switch {
+	case len(f.Escaped) > 1 && f.Escaped[0] == '\\':
+		// The parser keeps the backslash as part of the sequence.
+		return f.Escaped
 	case f.Escaped != "":
 		return fmt.Sprintf("\\%s", f.Escaped)
 	case f.Unicode != "":
-- 
2.43.0


From e289ae66430847f89949cb0abf171663745df9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:06 +0000
Subject: [PATCH 15/28] fix: format strings with a delimiter that their text
 does not contain

---
 pkg/etx/value.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 64777ef..82f1e2f 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -374,13 +374,25 @@ func (v *ValueString) Children() (children []Node) {
 func (v ValueString) FormattedString() string {
 	var sb strings.Builder
 
-	sb.WriteString(`"`)
+	// A string can hold either of the quotes unescaped, as long as it is
+	// delimited by the other one.
+	quote := `"`
+
+	for _, f := range v.Fragment {
+		if strings.Contains(f.Text, quote) {
+			quote = `'`
+
+			break
+		}
+	}
+
+	sb.WriteString(quote)
 
 	for _, f := range v.Fragment {
 		sb.WriteString(f.FormattedString())
 	}
 
-	sb.WriteString(`"`)
+	sb.WriteString(quote)
 
 	return sb.String()
 }
-- 
2.43.0


From e7e57aba08f17efd42fb1663e5af2fb89d756176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:08 +0000
Subject: [PATCH 16/28] fix: format maps that contain comments or empty lines

---
 pkg/etx/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 82f1e2f..9cbf85f 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -580,6 +580,12 @@ func (v ValueMap) FormattedString() string {
 	sb.WriteString("{\n")
 
 	for _, e := range v.Items {
+		if e.Key == nil {
+			sb.WriteString(indent(e.FormattedString(), indentationChar))
+
+			continue
+		}
+
 		sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
 		sb.WriteString(",\n")
 	}
-- 
2.43.0


From 7fe38c7c0e7611c1fcbf989feecc537961373c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:47 +0000
Subject: [PATCH 17/28] fix: format types that contain comments or empty lines

---
 pkg/etx/type.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/etx/type.go b/pkg/etx/type.go
index 0ee5399..b905b3e 100644
--- a/pkg/etx/type.go
+++ b/pkg/etx/type.go
@@ -97,8 +97,15 @@ func (n TypeEnum) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
-		fillLength := maxLabelLength - len(item.Label)
-		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimRight(item.Comment.FormattedString(), "\r\n"))
+		case item.EmptyLine != "":
+			sb.WriteString(strings.ReplaceAll(item.EmptyLine, "\r", ""))
+		default:
+			fillLength := maxLabelLength - len(item.Label)
+			mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Value.FormattedString())
+		}
 	}
 
 	return sb.String()
@@ -190,8 +197,15 @@ func (n TypeObject) FormattedString() string {
 	}
 
 	for _, item := range n.Items {
-		fillLength := maxLabelLength - len(item.Label)
-		mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
+		switch {
+		case item.Comment != nil:
+			mustFprintf(&sb, "\n%s", strings.TrimRight(item.Comment.FormattedString(), "\r\n"))
+		case item.EmptyLine != "":
+			sb.WriteString(strings.ReplaceAll(item.EmptyLine, "\r", ""))
+		default:
+			fillLength := maxLabelLength - len(item.Label)
+			mustFprintf(&sb, "\n%s:%s %s", item.Label, strings.Repeat(" ", fillLength), item.Type.FormattedString())
+		}
 	}
 
 	return sb.String()
-- 
2.43.0


From 29700a124db667d91802b88767e7ea51888e8f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 18/28] fix: format each block item on its own line

---
 pkg/etx/block.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pkg/etx/block.go b/pkg/etx/block.go
index da9c8ca..9f5cd08 100644
--- a/pkg/etx/block.go
+++ b/pkg/etx/block.go
@@ -47,14 +47,21 @@ func (n Block) FormattedString() string {
 		mustFprintf(&sb, ` "%s"`, item)
 	}
 
-	if len(n.Body) != 0 {
-		sb.WriteString(" {\n")
+	var body strings.Builder
 
-		for _, item := range n.Body {
-			sb.WriteString(indent(item.FormattedString(), indentationChar))
+	for _, item := range n.Body {
+		if item.EmptyLine != "" {
+			body.WriteString(strings.ReplaceAll(item.EmptyLine, "\r", ""))
+
+			continue
 		}
 
-		sb.WriteString("\n}")
+		body.WriteString(indent(strings.TrimRight(item.FormattedString(), "\r\n"), indentationChar))
+		body.WriteString("\n")
+	}
+
+	if body.Len() != 0 {
+		mustFprintf(&sb, " {\n%s}", body.String())
 	} else {
 		sb.WriteString(" {}")
 	}
-- 
2.43.0


From df7ceaced822bd2656940a20ccaf725567a436f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:38 +0000
Subject: [PATCH 19/28] fix: do not add empty lines to formatted function
 bodies

---
 pkg/etx/func.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/func.go b/pkg/etx/func.go
index e13c421..5550440 100644
--- a/pkg/etx/func.go
+++ b/pkg/etx/func.go
@@ -70,7 +70,13 @@ func (n Func) FormattedString() string {
 		sb.WriteString(" {\n")
 
 		for _, b := range n.Body {
-			sb.WriteString(indent(b.FormattedString(), indentationChar))
+			if b.EmptyLine != "" {
+				sb.WriteString(strings.ReplaceAll(b.EmptyLine, "\r", ""))
+
+				continue
+			}
+
+			sb.WriteString(indent(strings.TrimRight(b.FormattedString(), "\r\n"), indentationChar))
 			sb.WriteString("\n")
 		}
 
-- 
2.43.0


From 55226187a721f412e7feaf2caedbb04f42d0190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 20/28] fix: always separate formatted top-level items by one
 empty line

---
 pkg/etx/ast.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/ast.go b/pkg/etx/ast.go
index e6a94cd..64cb3aa 100644
--- a/pkg/etx/ast.go
+++ b/pkg/etx/ast.go
@@ -70,7 +70,14 @@ func (n AST) FormattedString() string {
 
 	items := make([]string, 0, len(n.Items))
 	for _, item := range n.Items {
-		items = append(items, item.FormattedString())
+		// Items are always separated by one empty line.
+		if text := strings.TrimRight(item.FormattedString(), "\r\n"); text != "" {
+			items = append(items, text)
+		}
+	}
+
+	if len(items) == 0 {
+		return ""
 	}
 
 	return strings.Join(items, "\n\n") + "\n"
-- 
2.43.0


From 4c6d3820968e32ff780a9116c53bdf4c8dd4811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 21/28] fix: format heredocs with their body on its own rows

---
 pkg/etx/value.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 9cbf85f..2b97735 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -249,8 +249,18 @@ func (v Heredoc) FormattedString() string {
 
 	mustFprintf(&sb, "<<%s", v.Delimiter.FormattedString())
 
+	var body strings.Builder
 	for _, fragment := range v.Fragments {
-		sb.WriteString(fragment.FormattedString())
+		body.WriteString(fragment.FormattedString())
+	}
+
+	// The first row starts on the line after the delimiter, and the last one
+	// ends on the line before it.
+	if s := body.String(); s != "" && s[0] != '\n' {
+		sb.WriteString("\n")
+		sb.WriteString(strings.TrimSuffix(s, "\n"))
+	} else {
+		sb.WriteString(s)
 	}
 
 	sb.WriteString("\n")
-- 
2.43.0


From 66bd6c90958b1f0f56f2a9a015036edd9b234714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:14 +0000
Subject: [PATCH 22/28] fix: do not indent the content of multiline literals
 when formatting

---
 pkg/etx/utils.go | 54 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/pkg/etx/utils.go b/pkg/etx/utils.go
index 4942cdc..d193661 100644
--- a/pkg/etx/utils.go
+++ b/pkg/etx/utils.go
@@ -4,13 +4,19 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"strings"
 	"testing"
+
+	"github.com/alecthomas/participle/v2/lexer"
 )
 
 const (
 	indentationChar = "\t"
 )
 
+// formatLexer finds the literals in formatted code.
+var formatLexer = lexer.MustStateful(lexRules())
+
 type Cloner[C any] interface {
 	Clone() C
 }
@@ -42,26 +48,62 @@ func cloneStrings(strings []string) []string {
 	return out
 }
 
-// indent inserts prefix at the beginning of each non-empty line of s.
+// indent inserts prefix at the beginning of each non-empty line of s, except
+// for the lines that continue a string, a heredoc or a multiline comment.
 func indent(s, prefix string) string {
-	return string(indentBytes([]byte(s), []byte(prefix)))
+	return string(indentBytes([]byte(s), []byte(prefix), literalLineBreaks(s)))
 }
 
-// indentBytes inserts prefix at the beginning of each non-empty line of b.
-func indentBytes(b, prefix []byte) []byte {
+// indentBytes inserts prefix at the beginning of each non-empty line of b,
+// ignoring the line breaks at the offsets in literals.
+func indentBytes(b, prefix []byte, literals map[int]bool) []byte {
 	var res []byte
 	bol := true
-	for _, c := range b {
+	for i, c := range b {
 		if bol && c != '\n' {
 			res = append(res, prefix...)
 		}
 		res = append(res, c)
-		bol = c == '\n'
+		bol = c == '\n' && !literals[i]
 	}
 
 	return res
 }
 
+// literalLineBreaks returns the offsets of the line breaks of s that are part
+// of a string, a heredoc or a multiline comment.
+func literalLineBreaks(s string) map[int]bool {
+	if !strings.Contains(s, "\n") {
+		return nil
+	}
+
+	lineBreak := formatLexer.Symbols()["LF"]
+
+	lex, err := formatLexer.LexString("", s)
+	if err != nil {
+		return nil
+	}
+
+	literals := make(map[int]bool)
+
+	for {
+		token, err := lex.Next()
+		if err != nil || token.EOF() {
+			return literals
+		}
+
+		if token.Type == lineBreak {
+			continue
+		}
+
+		for i, c := range []byte(token.Value) {
+			if c == '\n' {
+				literals[token.Pos.Offset+i] = true
+			}
+		}
+	}
+}
+
 func mustFprintf(w io.Writer, format string, a ...any) {
 	if _, err := fmt.Fprintf(w, format, a...); err != nil {
 		panic(err)
-- 
2.43.0


From 981b49d2dd5dad3c1d52d93473664a35ff30a58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:09 +0000
Subject: [PATCH 23/28] fix: keep the parentheses of grouped index and member
 access targets

---
 pkg/etx/expr.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 9f5410a..700f279 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -809,7 +809,13 @@ func (e *ExprPostfix) Children() (children []Node) {
 
 func (e ExprPostfix) FormattedString() string {
 	var sb strings.Builder
-	sb.WriteString(e.Value.FormattedString())
+
+	if e.Value.SubExpression != nil && (e.Index != nil || e.Post != nil) {
+		// A group that is the target of an index or a member access stays one.
+		mustFprintf(&sb, "(%s)", e.Value.SubExpression.FormattedString())
+	} else {
+		sb.WriteString(e.Value.FormattedString())
+	}
 
 	if e.Index != nil {
 		mustFprintf(&sb, "[%s]", e.Index.FormattedString())
-- 
2.43.0


From 456cd3c2a8634d31e447138cd67756c8219ab02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:51 +0000
Subject: [PATCH 24/28] fix: treat a nil vertex identifier as empty instead of
 panicking

---
 pkg/dag/dag.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pkg/dag/dag.go b/pkg/dag/dag.go
index efd7beb..2779d83 100644
--- a/pkg/dag/dag.go
+++ b/pkg/dag/dag.go
@@ -32,7 +32,7 @@ func NewAcyclicGraph[K comparable, T any]() *AcyclicGraph[K, T] {
 // 	- ErrVertexIDEmpty if id is empty.
 // 	- ErrVertexDuplicate if id is already part of the graph.
 func (g *AcyclicGraph[K, T]) AddVertex(id K, v T) error {
-	if reflect.ValueOf(id).IsZero() {
+	if isEmptyID(id) {
 		return ErrVertexIDEmpty
 	}
 
@@ -609,9 +609,17 @@ func (g *AcyclicGraph[K, T]) String() string {
 	return sb.String()
 }
 
+// isEmptyID tells whether the specified ID is empty. Besides zero values,
+// nil is an empty ID for graphs identified by an interface type.
+func isEmptyID[K comparable](id K) bool {
+	v := reflect.ValueOf(id)
+
+	return !v.IsValid() || v.IsZero()
+}
+
 // checkVertexID checks that the specified vertex ID is valid for this graph.
 func (g *AcyclicGraph[K, T]) checkVertexID(id K) error {
-	if reflect.ValueOf(id).IsZero() {
+	if isEmptyID(id) {
 		return ErrVertexIDEmpty
 	}
 
@@ -625,10 +633,10 @@ func (g *AcyclicGraph[K, T]) checkVertexID(id K) error {
 // checkVertexID checks that the specified vertex IDs is a valid edge
 // in this graph.
 func (g *AcyclicGraph[K, T]) checkEdgeIDs(sourceID, targetID K) error {
-	if reflect.ValueOf(sourceID).IsZero() {
+	if isEmptyID(sourceID) {
 		return ErrEdgeSourceIDEmpty
 	}
-	if reflect.ValueOf(targetID).IsZero() {
+	if isEmptyID(targetID) {
 		return ErrEdgeTargetIDEmpty
 	}
 	if sourceID == targetID {
-- 
2.43.0


From 0173a22cfa8ad6d092b813debc26eaa190e5ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:59 +0000
Subject: [PATCH 25/28] fix: keep the parentheses of groups used as members

---
 pkg/etx/expr.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/etx/expr.go b/pkg/etx/expr.go
index 700f279..59bca9c 100644
--- a/pkg/etx/expr.go
+++ b/pkg/etx/expr.go
@@ -808,10 +808,16 @@ func (e *ExprPostfix) Children() (children []Node) {
 }
 
 func (e ExprPostfix) FormattedString() string {
+	// A group that is the target of an index or a member access stays one.
+	return e.format(e.Index != nil || e.Post != nil)
+}
+
+// format formats the expression. With keepGroup, the parentheses around its
+// value are kept, whatever they group.
+func (e ExprPostfix) format(keepGroup bool) string {
 	var sb strings.Builder
 
-	if e.Value.SubExpression != nil && (e.Index != nil || e.Post != nil) {
-		// A group that is the target of an index or a member access stays one.
+	if e.Value.SubExpression != nil && keepGroup {
 		mustFprintf(&sb, "(%s)", e.Value.SubExpression.FormattedString())
 	} else {
 		sb.WriteString(e.Value.FormattedString())
@@ -830,7 +836,8 @@ func (e ExprPostfix) FormattedString() string {
 
 // memberString formats the expression as the member access of another one.
 func (e ExprPostfix) memberString() string {
-	s := e.FormattedString()
+	// What a group selects is not a member of the expression before it.
+	s := e.format(true)
 	if s != "" && strings.ContainsRune("_0123456789", rune(s[0])) {
 		// Without a space, the dot would become part of the number.
 		return ". " + s
-- 
2.43.0


From 8089ba6bbfb9ec48ed3955aa9c4ee7240c5094ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:21 +0000
Subject: [PATCH 26/28] verif: a parser that is built once, behind the build
 tag verif

---
 pkg/etx/verif.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)
 create mode 100644 pkg/etx/verif.go

diff --git a/pkg/etx/verif.go b/pkg/etx/verif.go
new file mode 100644
index 0000000..148be72
--- /dev/null
+++ b/pkg/etx/verif.go
@@ -0,0 +1,22 @@
+//go:build verif
+
+package etx
+
+import "fmt"
+
+// VerifParser is a hook for the monitors: it does what ParseString does with a
+// parser that is built once, where ParseString builds one for each call.
+func VerifParser() func(str string) (*AST, error) {
+	p := parser()
+
+	return func(str string) (*AST, error) {
+		ast := &AST{}
+		if err := p.ParseString("", str, ast); err != nil {
+			return nil, fmt.Errorf("parsing failed: %w", err)
+		}
+
+		ast.UpdateParentRefs()
+
+		return ast, nil
+	}
+}
-- 
2.43.0


From 1148266ad758f619ca4d99951c6c034db5eeb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:35 +0000
Subject: [PATCH 27/28] fix: indent comments and empty lines of lists and maps
 like their other items

A comment followed by an entry or the closing bracket on the same line left
an indentation in the middle of a line, and empty lines written with CRLF
were indented.
---
 pkg/etx/value.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index 2b97735..e1e9f25 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -500,7 +500,16 @@ func (v ValueList) FormattedString() string {
 	sb.WriteString("[\n")
 
 	for _, e := range v.Items {
-		sb.WriteString(indent(e.FormattedString(), indentationChar))
+		switch {
+		case e.EmptyLine != "":
+			sb.WriteString(strings.ReplaceAll(e.EmptyLine, "\r", ""))
+		case e.Comment != nil:
+			// What follows a comment starts on a line of its own.
+			sb.WriteString(indent(strings.TrimRight(e.Comment.FormattedString(), "\r\n"), indentationChar))
+			sb.WriteString("\n")
+		default:
+			sb.WriteString(indent(e.FormattedString(), indentationChar))
+		}
 	}
 
 	sb.WriteString("]")
@@ -590,14 +599,17 @@ func (v ValueMap) FormattedString() string {
 	sb.WriteString("{\n")
 
 	for _, e := range v.Items {
-		if e.Key == nil {
-			sb.WriteString(indent(e.FormattedString(), indentationChar))
-
-			continue
+		switch {
+		case e.EmptyLine != "":
+			sb.WriteString(strings.ReplaceAll(e.EmptyLine, "\r", ""))
+		case e.Comment != nil:
+			// What follows a comment starts on a line of its own.
+			sb.WriteString(indent(strings.TrimRight(e.Comment.FormattedString(), "\r\n"), indentationChar))
+			sb.WriteString("\n")
+		default:
+			sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
+			sb.WriteString(",\n")
 		}
-
-		sb.WriteString(indent(fmt.Sprintf("%s: %s", e.Key.FormattedString(), e.Value.FormattedString()), indentationChar))
-		sb.WriteString(",\n")
 	}
 
 	sb.WriteString("}")
-- 
2.43.0


From fce06f44ffc54c580e4e6e445abf6db9130de410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:28 +0000
Subject: [PATCH 28/28] fix: write numbers that have no source with all their
 digits

String writes ten digits: a number built by a program was formatted as
another number.
---
 pkg/etx/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/etx/value.go b/pkg/etx/value.go
index e1e9f25..bfe4db3 100644
--- a/pkg/etx/value.go
+++ b/pkg/etx/value.go
@@ -209,7 +209,7 @@ func (v *ValueNumber) Children() (children []Node) {
 
 func (v ValueNumber) FormattedString() string {
 	if v.Source == "" {
-		return v.Value.String()
+		return v.Value.Text('g', -1)
 	}
 
 	return v.Source
-- 
2.43.0

