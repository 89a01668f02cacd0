From fcfe1216301278af79719f67564a1ecdaef53007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:15 +0000
Subject: [PATCH 01/12] fix: ParseStmts dropped a trailing one-token statement

The end-of-input test looked at the lexer's offset after a token had been
consumed, so a last statement of exactly one token ("SELECT 1; garbage",
"USE") was taken for the end of the input and silently ignored.
---
 parser/parser_table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index a29fd45..170ee2b 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1551,7 +1551,7 @@ func (p *Parser) ParseStmts() ([]Expr, error) {
 		if err := p.lexer.consumeToken(); err != nil {
 			return nil, p.wrapError(err)
 		}
-		if p.lexer.isEOF() {
+		if p.current() == nil {
 			break
 		}
 		if p.matchTokenKind(";") {
-- 
2.43.0


From 92e779438d02fba99bbbeb35520d6412a2ffd1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:57 +0000
Subject: [PATCH 02/12] fix: unclosed quoted identifiers and comments were
 silently accepted

The lexer had moved past the opening quote (or to the end of the comment)
before it returned the error. Lookahead ignores lexer errors and relies on
meeting them again, so "SELECT 1 FROM t `abc" was read as if the quote were
not there and "SELECT 1 /* x" as complete. Stay on the offending character,
as the number and string cases do.
---
 parser/lexer.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 96df452..204e928 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -216,7 +216,11 @@ func (l *Lexer) consumeIdent(_ Pos) error {
 		}
 		if !l.peekOk(i) || (quoteType == BackTicks && l.peekN(i) != '`') ||
 			(quoteType == DoubleQuote && l.peekN(i) != '"') {
-			return fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			err := fmt.Errorf("unclosed quoted identifier: %s", l.slice(0, i))
+			// stay on the opening quote, so that the error is reported again
+			// when the caller that hit it was only looking ahead
+			l.skipN(-1)
+			return err
 		}
 	}
 	slice := l.slice(0, i)
@@ -252,8 +256,7 @@ func (l *Lexer) consumeSingleLineComment() {
 }
 
 func (l *Lexer) consumeMultiLineComment() error {
-	l.skipN(2)
-	i := 0
+	i := 2
 	for l.peekOk(i) {
 		if l.peekOk(i+1) && l.peekN(i) == '*' && l.peekN(i+1) == '/' {
 			l.skipN(i + 2)
@@ -261,7 +264,8 @@ func (l *Lexer) consumeMultiLineComment() error {
 		}
 		i++
 	}
-	l.skipN(i)
+	// stay on the comment's start, so that the error is reported again when
+	// the caller that hit it was only looking ahead
 	return errors.New("unclosed multi-line comment")
 }
 
-- 
2.43.0


From 3161e95813c1ebb3dd82c19a925572b2bbf8dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:12 +0000
Subject: [PATCH 03/12] fix: the command-line tool exited 0 when its output
 could not be written

Errors from writing to standard output and from encoding the tree were
ignored, so a full disk or a broken pipe looked like success.
---
 main.go | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/main.go b/main.go
index 986685d..dd7d579 100644
--- a/main.go
+++ b/main.go
@@ -73,11 +73,11 @@ func init() {
 func main() {
 	flag.Parse()
 	if options.version {
-		fmt.Println(getVersion())
+		printOut(getVersion() + "\n")
 		os.Exit(0)
 	}
 	if len(os.Args) < 2 || options.help {
-		fmt.Print(help)
+		printOut(help)
 		os.Exit(0)
 	}
 
@@ -91,7 +91,7 @@ func main() {
 		}
 	} else {
 		if strings.HasPrefix(os.Args[len(os.Args)-1], "-") {
-			fmt.Print(help)
+			printOut(help)
 			os.Exit(0)
 		}
 		inputBytes = []byte(os.Args[len(os.Args)-1])
@@ -103,18 +103,30 @@ func main() {
 		os.Exit(1)
 	}
 	if !options.format && !options.beautify { // print AST
-		bytes, _ := json.MarshalIndent(stmts, "", "  ") // nolint
-		fmt.Println(string(bytes))
+		bytes, err := json.MarshalIndent(stmts, "", "  ")
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "marshal statements error: %s\n", err.Error())
+			os.Exit(1)
+		}
+		printOut(string(bytes) + "\n")
 	} else { // format SQL
 		for _, stmt := range stmts {
 			if options.beautify {
 				formatter := clickhouse.NewFormatter()
 				formatter.WithBeautify()
 				formatter.WriteExpr(stmt)
-				fmt.Println(formatter.String())
+				printOut(formatter.String() + "\n")
 			} else {
-				fmt.Println(clickhouse.Format(stmt))
+				printOut(clickhouse.Format(stmt) + "\n")
 			}
 		}
 	}
 }
+
+// printOut writes to standard output and fails the program if it can't.
+func printOut(s string) {
+	if _, err := fmt.Print(s); err != nil {
+		fmt.Fprintf(os.Stderr, "write output error: %s\n", err.Error())
+		os.Exit(1)
+	}
+}
-- 
2.43.0


From 14f2ec189e70052b3a1f35548da3e3532748f125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 04/12] fix: panic on a CREATE USER or SYSTEM RELOAD clause at
 the end of the input

p.current() is nil at end of input; p.End() copes with that and is the same
everywhere else.
---
 parser/parse_system.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index f75f091..8626371 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -83,7 +83,7 @@ func (p *Parser) parseSystemReloadExpr(pos Pos) (*SystemReloadExpr, error) {
 		_ = p.lexer.consumeToken()
 	case p.tryConsumeKeywords(KeywordEmbedded):
 		typ = "EMBEDDED DICTIONARIES"
-		statementEnd = p.current().End
+		statementEnd = p.End()
 		if err := p.expectKeyword(KeywordDictionaries); err != nil {
 			return nil, err
 		}
@@ -570,14 +570,14 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			return nil, err
 		}
 		auth.NotIdentified = true
-		auth.AuthEnd = p.current().End
+		auth.AuthEnd = p.End()
 		return auth, nil
 	}
 
 	if err := p.expectKeyword(KeywordIdentified); err != nil {
 		return nil, err
 	}
-	auth.AuthEnd = p.current().End
+	auth.AuthEnd = p.End()
 
 	if p.tryConsumeKeywords(KeywordWith) {
 		if p.matchKeyword(KeywordLdap) {
@@ -594,7 +594,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 		} else if p.matchKeyword(KeywordKerberos) {
 			_ = p.lexer.consumeToken()
 			auth.IsKerberos = true
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 			if p.tryConsumeKeywords(KeywordRealm) {
 				realm, err := p.parseString(p.Pos())
 				if err != nil {
@@ -608,7 +608,7 @@ func (p *Parser) parseAuthenticationClause(pos Pos) (*AuthenticationClause, erro
 			authType := p.current().String
 			_ = p.lexer.consumeToken()
 			auth.AuthType = authType
-			auth.AuthEnd = p.current().End
+			auth.AuthEnd = p.End()
 
 			if p.tryConsumeKeywords(KeywordBy) {
 				value, err := p.parseString(p.Pos())
@@ -636,7 +636,7 @@ func (p *Parser) parseHostClause(pos Pos) (*HostClause, error) {
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
 		host.HostType = hostType
-		host.HostEnd = p.current().End
+		host.HostEnd = p.End()
 	case p.matchOneOfKeywords(KeywordName, KeywordRegexp, KeywordIp, KeywordLike):
 		hostType := p.current().String
 		_ = p.lexer.consumeToken()
@@ -666,7 +666,7 @@ func (p *Parser) parseDefaultRoleClause(pos Pos) (*DefaultRoleClause, error) {
 
 	if p.tryConsumeKeywords(KeywordNone) {
 		defaultRole.None = true
-		defaultRole.DefaultEnd = p.current().End
+		defaultRole.DefaultEnd = p.End()
 		return defaultRole, nil
 	}
 
@@ -699,10 +699,10 @@ func (p *Parser) parseGranteesClause(pos Pos) (*GranteesClause, error) {
 
 	if p.tryConsumeKeywords(KeywordAny) {
 		grantees.Any = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else if p.tryConsumeKeywords(KeywordNone) {
 		grantees.None = true
-		grantees.GranteesEnd = p.current().End
+		grantees.GranteesEnd = p.End()
 	} else {
 		// Parse list of grantees
 		granteeList := make([]*RoleName, 0)
@@ -824,7 +824,7 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		_ = p.lexer.consumeToken() // consume DATABASE
 		if p.tryConsumeKeywords(KeywordNone) {
 			createUser.DefaultDbNone = true
-			createUser.StatementEnd = p.current().End
+			createUser.StatementEnd = p.End()
 		} else {
 			db, err := p.parseIdent()
 			if err != nil {
-- 
2.43.0


From 3d15bf6bdf5870c9c75ff041f836f7d2b9ef0655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 05/12] fix: panic when a lookahead reaches the end of the
 input

peekToken returns a nil token there.
---
 parser/parse_system.go  | 4 ++++
 parser/parser_column.go | 2 +-
 parser/parser_table.go  | 2 +-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/parse_system.go b/parser/parse_system.go
index 8626371..1b20404 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -811,6 +811,10 @@ func (p *Parser) parseDefaultClause(createUser *CreateUser) (bool, error) {
 		return false, err
 	}
 
+	if nextToken == nil { // end of input
+		return false, nil
+	}
+
 	if nextToken.String == KeywordRole {
 		defaultRole, err := p.parseDefaultRoleClause(p.Pos())
 		if err != nil {
diff --git a/parser/parser_column.go b/parser/parser_column.go
index ad53333..fcc9eb1 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -1311,7 +1311,7 @@ func (p *Parser) parseColumnTypeArgs(ident *Ident) (ColumnType, error) { // noli
 				return p.parseComplexType(ident, p.Pos())
 			}
 		case p.matchTokenKind(TokenKindString):
-			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken.Kind == TokenKindSingleEQ {
+			if peekToken, err := p.lexer.peekToken(); err == nil && peekToken != nil && peekToken.Kind == TokenKindSingleEQ {
 				// enum values
 				return p.parseEnumType(ident, p.Pos())
 			}
diff --git a/parser/parser_table.go b/parser/parser_table.go
index 170ee2b..e515e4c 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -1033,7 +1033,7 @@ func (p *Parser) parseOrderExpr(pos Pos) (*OrderExpr, error) {
 	var alias *Ident
 	if p.matchKeyword(KeywordAs) {
 		// It should be a subquery instead of an order by alias if the `AS` is followed by `SELECT` keyword.
-		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken.ToString() == KeywordSelect {
+		if nextToken, err := p.lexer.peekToken(); err == nil && nextToken != nil && nextToken.ToString() == KeywordSelect {
 			return &OrderExpr{
 				OrderPos: pos,
 				Expr:     columnExpr,
-- 
2.43.0


From 79eb53d1b0be6e3c41fd751de80eb5acebf937b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:54 +0000
Subject: [PATCH 06/12] fix: a failed lookahead left the lexer without a
 current token

peekToken restored the lexer state only when the next token could be read.
Otherwise the parser went on with a nil current token and panicked, e.g. on
SELECT trim(LEADING '
---
 parser/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/parser/lexer.go b/parser/lexer.go
index 204e928..e2b21ee 100644
--- a/parser/lexer.go
+++ b/parser/lexer.go
@@ -339,12 +339,13 @@ func (l *Lexer) skipComments() error {
 
 func (l *Lexer) peekToken() (*Token, error) {
 	savedState := l.saveState()
-	if err := l.consumeToken(); err != nil {
-		return nil, err
-	}
+	err := l.consumeToken()
 	token := l.currentToken
 
 	l.restoreState(savedState)
+	if err != nil {
+		return nil, err
+	}
 	return token, nil
 }
 
-- 
2.43.0


From 5d754ae8264797a74388b6ccecd62b2b68ab6f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 07/12] fix: End() panicked on CHECK TABLE without a partition
 and on PARTITION ALL

The same call made the parser panic on ALTER TABLE ... MATERIALIZE INDEX ... IN
when no partition follows.
---
 parser/ast.go          | 8 +++++++-
 parser/parser_alter.go | 4 +++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index b6eb41f..d960a64 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2323,6 +2323,9 @@ func (p *PartitionClause) End() Pos {
 	if p.ID != nil {
 		return p.ID.LiteralEnd
 	}
+	if p.Expr == nil { // PARTITION ALL
+		return p.PartitionPos + Pos(len("PARTITION ALL"))
+	}
 	return p.Expr.End()
 }
 
@@ -6224,7 +6227,10 @@ func (c *CheckStmt) Pos() Pos {
 }
 
 func (c *CheckStmt) End() Pos {
-	return c.Partition.End()
+	if c.Partition != nil {
+		return c.Partition.End()
+	}
+	return c.Table.End()
 }
 
 func (c *CheckStmt) Accept(visitor ASTVisitor) error {
diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 9523f01..1ba87ef 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -823,7 +823,9 @@ func (p *Parser) parseAlterTableMaterialize(pos Pos) (AlterTableClause, error) {
 		if err != nil {
 			return nil, err
 		}
-		statementEnd = partition.End()
+		if partition != nil {
+			statementEnd = partition.End()
+		}
 	}
 	if kind == KeywordIndex {
 		return &AlterTableMaterializeIndex{
-- 
2.43.0


From 01d51b137dd5e31550b10cfeecc96aa92b460514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 08/12] fix: role and user settings without a value or without
 a name panicked

CREATE ROLE r SETTINGS x and ALTER ROLE r SETTINGS (with nothing after it)
failed in End().
---
 parser/ast.go          | 3 +++
 parser/parse_system.go | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/parser/ast.go b/parser/ast.go
index d960a64..5e36405 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -1655,6 +1655,9 @@ func (s *SettingPair) Pos() Pos {
 }
 
 func (s *SettingPair) End() Pos {
+	if s.Value == nil {
+		return s.Name.NameEnd
+	}
 	return s.Value.End()
 }
 
diff --git a/parser/parse_system.go b/parser/parse_system.go
index 1b20404..ac891ae 100644
--- a/parser/parse_system.go
+++ b/parser/parse_system.go
@@ -474,6 +474,13 @@ func (p *Parser) parseRoleSetting(_ Pos) (*RoleSetting, error) {
 		}
 
 	}
+	if len(pairs) == 0 {
+		return nil, &ParseError{
+			Pos:      p.Pos(),
+			Got:      p.current(),
+			Expected: []TokenKind{TokenKindIdent},
+		}
+	}
 	return &RoleSetting{
 		SettingPairs: pairs,
 	}, nil
-- 
2.43.0


From b42f510543421521e8a80782d934f345721ef27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:41 +0000
Subject: [PATCH 09/12] fix: a formatter switched to beautify mode within a
 line indented in mid-line

Compact writes did not record that the line had begun.
---
 parser/format.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/format.go b/parser/format.go
index 752c746..eec9603 100644
--- a/parser/format.go
+++ b/parser/format.go
@@ -71,6 +71,7 @@ func (f *Formatter) WriteByte(b byte) {
 		f.builder.WriteByte(b)
 	} else {
 		f.builder.WriteByte(b)
+		f.lineStart = b == newline
 	}
 }
 
-- 
2.43.0


From f1d12f259022073ceaae4c06ade866b06aafbac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 10/12] fix: walking and visiting a map literal handed out
 copies of its keys

An edit made through the callback's node was lost, and Find returned a node
that is not in the tree.
---
 parser/ast.go  | 6 +++---
 parser/walk.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/parser/ast.go b/parser/ast.go
index 5e36405..6211841 100644
--- a/parser/ast.go
+++ b/parser/ast.go
@@ -2905,11 +2905,11 @@ func (m *MapLiteral) End() Pos {
 func (m *MapLiteral) Accept(visitor ASTVisitor) error {
 	visitor.Enter(m)
 	defer visitor.Leave(m)
-	for _, kv := range m.KeyValues {
-		if err := kv.Key.Accept(visitor); err != nil {
+	for i := range m.KeyValues {
+		if err := m.KeyValues[i].Key.Accept(visitor); err != nil {
 			return err
 		}
-		if err := kv.Value.Accept(visitor); err != nil {
+		if err := m.KeyValues[i].Value.Accept(visitor); err != nil {
 			return err
 		}
 	}
diff --git a/parser/walk.go b/parser/walk.go
index e129a35..320271b 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -1382,11 +1382,11 @@ func Walk(node Expr, fn WalkFunc) bool {
 			return false
 		}
 	case *MapLiteral:
-		for _, kv := range n.KeyValues {
-			if !Walk(&kv.Key, fn) {
+		for i := range n.KeyValues {
+			if !Walk(&n.KeyValues[i].Key, fn) {
 				return false
 			}
-			if !Walk(kv.Value, fn) {
+			if !Walk(n.KeyValues[i].Value, fn) {
 				return false
 			}
 		}
-- 
2.43.0


From 817495f6dbf958a50a61bd99e474a11d27dd56a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 11/12] fix: the parser took a final unread token for the end
 of the input

lexer.isEOF() is already true while the last token still sits in p.current().
So ALTER TABLE t FREEZE needed a trailing semicolon, and INSERT INTO t VALUES
was accepted or rejected depending on what followed its semicolon.
---
 parser/parser_alter.go  |  2 +-
 parser/parser_column.go | 24 ++++++++++++------------
 parser/parser_table.go  | 19 ++++++++++---------
 3 files changed, 23 insertions(+), 22 deletions(-)

diff --git a/parser/parser_alter.go b/parser/parser_alter.go
index 1ba87ef..2d39492 100644
--- a/parser/parser_alter.go
+++ b/parser/parser_alter.go
@@ -25,7 +25,7 @@ func (p *Parser) parseAlterTable(pos Pos) (*AlterTable, error) {
 	}
 	alterTable.OnCluster = onCluster
 
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		var alter AlterTableClause
 		switch {
 		case p.matchKeyword(KeywordAdd):
diff --git a/parser/parser_column.go b/parser/parser_column.go
index fcc9eb1..bd76bd1 100644
--- a/parser/parser_column.go
+++ b/parser/parser_column.go
@@ -353,7 +353,7 @@ func (p *Parser) parseColumnExtractExpr(pos Pos) (*ExtractExpr, error) {
 	}
 
 	parameters := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		expr, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -832,7 +832,7 @@ func (p *Parser) parseColumnArgList(pos Pos) (*ColumnArgList, error) {
 	distinct := p.tryConsumeKeywords(KeywordDistinct)
 
 	var items []Expr
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		item, err := p.parseExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -976,7 +976,7 @@ func (p *Parser) parseKeywordArgFunctionParams(pos Pos, form keywordArgForm) (*P
 	// index runs across the list instead of resetting per item.
 	slot := 0
 	usedSeparator, usedComma := false, false
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		item, consumed, err := p.parseKeywordArgItem(form, slot, !(form.ClosedKeywordForm && usedComma))
 		if err != nil {
 			return nil, err
@@ -1077,7 +1077,7 @@ func (p *Parser) parseMapLiteral(pos Pos) (*MapLiteral, error) {
 	}
 
 	keyValues := make([]KeyValue, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRBrace) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRBrace) {
 		key, err := p.parseString(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1347,7 +1347,7 @@ func (p *Parser) parseColumnPropertyType(_ Pos) (Expr, error) {
 
 func (p *Parser) parseComplexType(name *Ident, pos Pos) (*ComplexType, error) {
 	subTypes := make([]ColumnType, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		subExpr, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1375,7 +1375,7 @@ func (p *Parser) parseEnumType(name *Ident, pos Pos) (*EnumType, error) {
 		ListPos: pos,
 		Values:  make([]EnumValue, 0),
 	}
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		enumValue, err := p.parseEnumValueExpr(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1404,7 +1404,7 @@ func (p *Parser) parseColumnTypeWithParams(name *Ident, pos Pos) (*TypeWithParam
 		return nil, err
 	}
 	params = append(params, param)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		size, err := p.parseLiteral(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1432,7 +1432,7 @@ func (p *Parser) parseJSONPath() (*JSONPath, error) {
 	}
 	idents = append(idents, ident)
 
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindDot) != nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindDot) != nil {
 		ident, err := p.parseAnyKeyword()
 		if err != nil {
 			return nil, err
@@ -1548,7 +1548,7 @@ func (p *Parser) parseJSONType(name *Ident, pos Pos) (*JSONType, error) {
 	}
 
 	options := make([]*JSONOption, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		option, err := p.parseJSONOption()
 		if err != nil {
 			return nil, err
@@ -1593,7 +1593,7 @@ func (p *Parser) parseNestedType(name *Ident, pos Pos) (*NestedType, error) {
 
 func (p *Parser) parseNestedTypeFields() ([]Expr, error) {
 	switch {
-	case p.lexer.isEOF() || p.matchTokenKind(TokenKindRParen):
+	case p.current() == nil || p.matchTokenKind(TokenKindRParen):
 		// Cases like `Tuple()`
 		return []Expr{}, nil
 	case p.matchTokenKind(TokenKindIdent):
@@ -1635,7 +1635,7 @@ func (p *Parser) parseNestedTypeFieldsWithNames(columnName *Ident) ([]Expr, erro
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseNestedTypeFieldWithName()
 		if err != nil {
 			return nil, err
@@ -1667,7 +1667,7 @@ func (p *Parser) parseNestedTypeFieldsWithoutNames(columnType *Ident) ([]Expr, e
 		return columns, nil
 	}
 
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		column, err := p.parseColumnType(p.Pos())
 		if err != nil {
 			return nil, err
diff --git a/parser/parser_table.go b/parser/parser_table.go
index e515e4c..577bbf4 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -228,7 +228,7 @@ func (p *Parser) parseCreateNamedCollection(pos Pos) (*CreateNamedCollection, er
 
 	// parse parameters
 	params := make([]*NamedCollectionParam, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		param, err := p.parseNamedCollectionParam(p.Pos())
 		if err != nil {
 			return nil, err
@@ -606,7 +606,7 @@ func (p *Parser) parseTableSchemaClause(pos Pos) (*TableSchemaClause, error) {
 
 func (p *Parser) parseTableColumns() ([]Expr, error) {
 	columns := make([]Expr, 0)
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		switch {
 		case p.matchKeyword(KeywordIndex):
 			indexPos := p.Pos()
@@ -817,7 +817,7 @@ func (p *Parser) parseTableArgList(pos Pos) (*TableArgListExpr, error) {
 	}
 
 	args := make([]Expr, 0)
-	for !p.lexer.isEOF() && !p.matchTokenKind(TokenKindRParen) {
+	for p.current() != nil && !p.matchTokenKind(TokenKindRParen) {
 		// Check if this is a named parameter (identifier followed by =)
 		var arg Expr
 		var err error
@@ -999,7 +999,7 @@ func (p *Parser) parseOrderByClause(pos Pos) (*OrderByClause, error) {
 		}
 		items = append(items, expr)
 
-		if p.lexer.isEOF() || p.tryConsumeTokenKind(TokenKindComma) == nil {
+		if p.current() == nil || p.tryConsumeTokenKind(TokenKindComma) == nil {
 			break
 		}
 	}
@@ -1196,7 +1196,7 @@ func (p *Parser) parseTTLClause(pos Pos, allowMultiValues bool) ([]*TTLExpr, err
 		return nil, err
 	}
 	items = append(items, expr)
-	for allowMultiValues && !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindComma) != nil {
+	for allowMultiValues && p.current() != nil && p.tryConsumeTokenKind(TokenKindComma) != nil {
 		expr, err = p.parseTTLExpr(pos)
 		if err != nil {
 			return nil, err
@@ -1433,7 +1433,7 @@ func (p *Parser) parseEngineExpr(pos Pos) (*EngineExpr, error) {
 		return nil, fmt.Errorf("unexpected token: %s", p.currentTokenKind())
 	}
 
-	for !p.lexer.isEOF() {
+	for p.current() != nil {
 		switch {
 		case p.matchKeyword(KeywordOrder):
 			orderBy, err := p.tryParseTableOrderByClause(p.Pos())
@@ -1818,7 +1818,7 @@ func (p *Parser) parseColumnNamesExpr(pos Pos) (*ColumnNamesExpr, error) {
 	}
 
 	var columnNames []NestedIdentifier
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindRParen) == nil {
 		name, err := p.ParseNestedIdentifier(p.Pos())
 		if err != nil {
 			return nil, err
@@ -1876,7 +1876,7 @@ func (p *Parser) parseAssignmentValues(pos Pos) (*AssignmentValues, error) {
 	var value Expr
 	var err error
 	values := make([]Expr, 0)
-	for !p.lexer.isEOF() && p.tryConsumeTokenKind(TokenKindRParen) == nil {
+	for p.current() != nil && p.tryConsumeTokenKind(TokenKindRParen) == nil {
 		switch {
 		case p.matchTokenKind(TokenKindLParen):
 			value, err = p.parseAssignmentValues(p.Pos())
@@ -1944,7 +1944,8 @@ func (p *Parser) parseInsertStmt(pos Pos) (*InsertStmt, error) {
 		// consume VALUES keyword
 		_ = p.lexer.consumeToken()
 		values := make([]*AssignmentValues, 0)
-		for !p.lexer.isEOF() {
+		// the rows may be left out when they are sent separately
+		for p.current() != nil && !p.matchTokenKind(";") {
 			value, err := p.parseAssignmentValues(p.Pos())
 			if err != nil {
 				return nil, err
-- 
2.43.0


From e3f80b5deb29bdb99faeb50df822ddc4caf1232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:51 +0000
Subject: [PATCH 12/12] fix: a dictionary source argument like TABLE f() made a
 function without a parameter list

Formatting, walking and visiting it panicked.
---
 parser/parser_table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parser/parser_table.go b/parser/parser_table.go
index 577bbf4..e6bdb3f 100644
--- a/parser/parser_table.go
+++ b/parser/parser_table.go
@@ -2385,12 +2385,19 @@ func (p *Parser) parseDictionaryArgExpr(pos Pos) (*DictionaryArgExpr, error) {
 		}
 		// Check if it's followed by optional parentheses
 		if p.matchTokenKind(TokenKindLParen) {
+			lParenPos := p.Pos()
 			_ = p.lexer.consumeToken() // consume (
+			rParenPos := p.Pos()
 			if err := p.expectTokenKind(TokenKindRParen); err != nil {
 				return nil, err
 			}
 			value = &FunctionExpr{
 				Name: ident,
+				Params: &ParamExprList{
+					LeftParenPos:  lParenPos,
+					RightParenPos: rParenPos,
+					Items:         &ColumnExprList{ListPos: rParenPos, ListEnd: rParenPos},
+				},
 			}
 		} else {
 			value = ident
-- 
2.43.0

