From 3941f65c68d3250fa76f91519f6fed1ffd46d987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:13 +0000
Subject: [PATCH 01/59] fix: do not skip the token that follows a column CHECK
 or REFERENCES constraint

---
 pkg/ddl/cockroachdb/parser.go | 5 +++++
 pkg/ddl/mysql/parser.go       | 4 ++++
 pkg/ddl/postgres/parser.go    | 5 +++++
 pkg/ddl/spanner/parser.go     | 4 ++++
 4 files changed, 18 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2723959..d12d499 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -581,9 +581,12 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken()
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the reference
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
@@ -604,6 +607,8 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the expression
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4b72a3c..59f4de4 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -571,6 +571,8 @@ LabelConstraints:
 
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the reference
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
@@ -591,6 +593,8 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the expression
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_COMMENT:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 7d3d3af..d470ecd 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -474,9 +474,12 @@ LabelConstraints:
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
 				constraint.OnAction = onAction
+				p.nextToken()
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the reference
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
 				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
@@ -496,6 +499,8 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the expression
 		case TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4e1177a..69f62ed 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -595,6 +595,8 @@ LabelConstraints:
 			}
 			constraint.RefColumns = idents
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the reference
 		case TOKEN_CHECK:
 			if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
@@ -609,6 +611,8 @@ LabelConstraints:
 			}
 			constraint.Expr = constraint.Expr.Append(idents...)
 			constraints = constraints.Append(constraint)
+
+			continue // current = the token following the expression
 		case TOKEN_OPTIONS, TOKEN_IDENT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelConstraints
 		default:
-- 
2.43.0


From 2453e099d16ac39bbee3968c57886ebf1e62f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:42 +0000
Subject: [PATCH 02/59] fix: accept ON DELETE / ON UPDATE of a table level
 FOREIGN KEY in postgres and cockroachdb

---
 pkg/ddl/cockroachdb/parser.go | 1 +
 pkg/ddl/postgres/parser.go    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index d12d499..a741bdf 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -699,6 +699,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = COMMA or CLOSE_PAREN
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index d470ecd..db31af2 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -591,6 +591,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				p.nextToken()                                     // current = ACTION
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
+			p.nextToken() // current = COMMA or CLOSE_PAREN
 		}
 		if constraintName == nil {
 			name := tableName.StringForDiff()
-- 
2.43.0


From aa48053a3e99cf605974a1367152d7474e738b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:05 +0000
Subject: [PATCH 03/59] fix: print and compare ON DELETE / ON UPDATE of mysql
 foreign keys

---
 pkg/ddl/mysql/ddl_table.go | 6 ++++++
 pkg/ddl/mysql/parser.go    | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index c0dfe95..128f3f8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -104,6 +104,9 @@ func (c *ForeignKeyConstraint) String() string {
 	str += " (" + stringz.JoinStringers(", ", c.Columns...) + ")"
 	str += " REFERENCES " + c.Ref.String()
 	str += " (" + stringz.JoinStringers(", ", c.RefColumns...) + ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
@@ -130,6 +133,9 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
+	if c.OnAction != "" {
+		str += " " + c.OnAction
+	}
 	return str
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 59f4de4..2bb8a2e 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -566,7 +566,7 @@ LabelConstraints:
 				if err != nil {
 					return nil, apperr.Errorf("parseOnAction: %w", err)
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction += " " + onAction
 			}
 
 			constraint.RefColumns = idents
-- 
2.43.0


From 9f2f2106e82e15f4125ab8e826529cb39932877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:15 +0000
Subject: [PATCH 04/59] fix: refuse an unterminated quote and keep doubled or
 escaped quotes inside one literal

---
 pkg/ddl/cockroachdb/lexar.go | 21 ++++++++++++++++-----
 pkg/ddl/mysql/lexar.go       | 25 ++++++++++++++++++++-----
 pkg/ddl/postgres/lexar.go    | 21 ++++++++++++++++-----
 pkg/ddl/spanner/lexar.go     | 25 ++++++++++++++++++++-----
 4 files changed, 72 insertions(+), 20 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index af40fb0..28cc461 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -324,8 +324,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		literal, terminated := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !terminated {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: literal}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -387,16 +391,23 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			// 終端のクォーテーションがない
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // 連続したクォーテーションは文字として扱う
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index be26985..6a9a83f 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -347,8 +347,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		literal, terminated := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !terminated {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: literal}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -411,16 +415,27 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			// 終端のクォーテーションがない
+			return l.input[position:], false
+		}
+		if l.ch == '\\' && quote != '`' {
+			l.readChar() // バックスラッシュの次の文字は終端にならない
+			continue
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // 連続したクォーテーションは文字として扱う
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 6a6be0d..1ec97d9 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'':
+		literal, terminated := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !terminated {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: literal}
 	case '|':
 		if l.peekChar() == '|' {
 			ch := l.ch
@@ -361,16 +365,23 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			// 終端のクォーテーションがない
+			return l.input[position:], false
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // 連続したクォーテーションは文字として扱う
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index fb7a2ad..47d6c7c 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -303,8 +303,12 @@ func (l *Lexer) NextToken() Token {
 
 	switch l.ch {
 	case '"', '\'', '`':
+		literal, terminated := l.readQuotedLiteral(l.ch)
 		tok.Type = TOKEN_IDENT
-		tok.Literal = Literal{Str: l.readQuotedLiteral(l.ch)}
+		if !terminated {
+			tok.Type = TOKEN_ILLEGAL
+		}
+		tok.Literal = Literal{Str: literal}
 	// MEMO: backup
 	// case '|':
 	// 	if l.peekChar() == '|' {
@@ -367,16 +371,27 @@ func (l *Lexer) NextToken() Token {
 }
 
 // readQuotedLiteral はクォーテーションで囲まれた文字列を読み込みます。
-func (l *Lexer) readQuotedLiteral(quote byte) string {
+func (l *Lexer) readQuotedLiteral(quote byte) (literal string, terminated bool) {
 	// position := l.position + 1 // クォーテーションの次の文字から開始
 	position := l.position // クォーテーションの文字から開始
 	for {
 		l.readChar()
-		if l.ch == quote || l.ch == 0 {
-			break
+		if l.position >= len(l.input) {
+			// 終端のクォーテーションがない
+			return l.input[position:], false
+		}
+		if l.ch == '\\' && quote != '`' {
+			l.readChar() // バックスラッシュの次の文字は終端にならない
+			continue
+		}
+		if l.ch == quote {
+			if l.peekChar() != quote {
+				break
+			}
+			l.readChar() // 連続したクォーテーションは文字として扱う
 		}
 	}
-	return l.input[position : l.position+1]
+	return l.input[position : l.position+1], true
 }
 
 // peekChar は次の文字を覗き見ますが、現在の位置は進めません。
-- 
2.43.0


From e5d86aa60c9d8e270fc3083f8640b76d6c35968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 05/59] fix: do not take a NUL byte for the end of the text

---
 pkg/ddl/cockroachdb/lexar.go | 7 ++++++-
 pkg/ddl/mysql/lexar.go       | 7 ++++++-
 pkg/ddl/postgres/lexar.go    | 7 ++++++-
 pkg/ddl/spanner/lexar.go     | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 28cc461..37e6ae5 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -374,6 +374,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// 入力の途中の NUL 文字は終端ではない
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -449,7 +454,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 6a9a83f..8d2b50b 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -398,6 +398,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// 入力の途中の NUL 文字は終端ではない
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -477,7 +482,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 1ec97d9..4d776a3 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -348,6 +348,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// 入力の途中の NUL 文字は終端ではない
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -423,7 +428,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 47d6c7c..1c7fdf9 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -354,6 +354,11 @@ func (l *Lexer) NextToken() Token {
 	case '/':
 		tok = newToken(TOKEN_SLASH, l.ch)
 	case 0:
+		if l.position < len(l.input) {
+			// 入力の途中の NUL 文字は終端ではない
+			tok = newToken(TOKEN_ILLEGAL, l.ch)
+			break
+		}
 		tok.Literal = Literal{}
 		tok.Type = TOKEN_EOF
 	default:
@@ -433,7 +438,7 @@ func (l *Lexer) skipWhitespace() (skipped bool) {
 }
 
 func (l *Lexer) skipComment() {
-	for l.ch != '\n' && l.ch != 0 {
+	for l.ch != '\n' && l.position < len(l.input) {
 		l.readChar()
 	}
 }
-- 
2.43.0


From b4fb8b68885e305951bf015ac85eac2a3893833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 06/59] fix: keep CHARACTER SET when a mysql column is modified

---
 pkg/ddl/mysql/diff_create_table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 2c4472b..9ec58af 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -261,6 +261,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 				Action: &ModifyColumn{
 					Name:          afterColumn.Name,
 					DataType:      afterColumn.DataType,
+					CharacterSet:  afterColumn.CharacterSet,
 					Collate:       afterColumn.Collate,
 					NotNull:       afterColumn.NotNull,
 					AutoIncrement: afterColumn.AutoIncrement,
-- 
2.43.0


From 7e2879671cbb82f1965e1e46be467f341f560339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 07/59] fix: accept a column default that begins with a type
 name

---
 pkg/ddl/cockroachdb/parser.go | 4 ++--
 pkg/ddl/postgres/parser.go    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index a741bdf..eb2ed4a 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -384,7 +384,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
@@ -432,7 +432,7 @@ LabelAs:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				as.Value.Idents = append(as.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				as.Value = as.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index db31af2..28eba78 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -357,7 +357,7 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value.Idents = append(def.Value.Idents, NewRawIdent(p.currentToken.Literal.Str))
+				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
 				p.nextToken()
 				continue
 			}
-- 
2.43.0


From 1764c5bc7902840c45ddb407d718195606af417b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 08/59] fix: accept OPTIONS after DEFAULT of a spanner column

---
 pkg/ddl/spanner/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 69f62ed..4a453b6 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -491,7 +491,7 @@ LabelDefault:
 			}
 			def.Value = def.Value.Append(ids...)
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
+		case TOKEN_NOT, TOKEN_OPTIONS, TOKEN_COMMA, TOKEN_CLOSE_PAREN:
 			break LabelDefault
 		default:
 			if isReservedValue(p.currentToken.Type) {
-- 
2.43.0


From fee3d28215ca4ac372961e9490c1c9ecde6a2877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 09/59] fix: give an unnamed table level CHECK of spanner its
 default name instead of crashing

---
 pkg/ddl/spanner/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4a453b6..40d5fb1 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -691,6 +691,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
 		return constraint, nil
-- 
2.43.0


From 3a560c7ca6f60f10d5fc4ccd0410eeb9e53deeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:39 +0000
Subject: [PATCH 10/59] fix: order the statements of a difference so that each
 one is executable

---
 pkg/ddl/cockroachdb/diff.go | 82 +++++++++++++++++--------------------
 pkg/ddl/mysql/diff.go       | 82 +++++++++++++++++--------------------
 pkg/ddl/postgres/diff.go    | 82 +++++++++++++++++--------------------
 pkg/ddl/spanner/diff.go     | 82 +++++++++++++++++--------------------
 4 files changed, 148 insertions(+), 180 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 5610efa..4cbbc25 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -20,38 +20,43 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
-			switch s := stmt.(type) {
-			case *CreateTableStmt:
-				result.Stmts = append(result.Stmts, &DropTableStmt{
-					Name: s.Name,
-				})
-			case *CreateIndexStmt:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
-					Name: s.Name,
-				})
-			default:
-				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
-			}
-		}
-		return result, nil
+		after = &DDL{}
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	// Indexes are dropped before the tables they belong to are changed or dropped,
+	// and created after the tables they belong to are created or changed.
+	// Tables are dropped after the foreign keys that reference them are dropped.
+	var dropTables, createIndexes []Stmt
+
+	// DROP INDEX index_name;
+	for _, stmt := range before.Stmts {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
-				Name: beforeStmt.Name,
-			})
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				// DROP TABLE table_name;
+				dropTables = append([]Stmt{&DropTableStmt{Name: beforeStmt.Name}}, dropTables...)
+			}
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, &DropIndexStmt{
-				Name: beforeStmt.Name,
-			})
+			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
+			switch {
+			case !ok:
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Name: beforeStmt.Name,
+				})
+			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
+					Name:    beforeStmt.Name,
+				})
+				// CREATE INDEX index_name ...
+				createIndexes = append(createIndexes, afterStmt)
+			}
 		default:
-			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			}
 		}
 	}
 
@@ -61,42 +66,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			// CREATE INDEX index_name ...
+			createIndexes = append(createIndexes, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
 	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
-	for _, beforeStmt := range before.Stmts {
-		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
-		case *CreateTableStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
+	for _, stmt := range before.Stmts {
+		if beforeStmt, ok := stmt.(*CreateTableStmt); ok {
+			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
 					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
-				continue
-			}
-		case *CreateIndexStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
-					result.Stmts = append(result.Stmts,
-						&DropIndexStmt{
-							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
-							Name:    beforeStmt.Name,
-						},
-						afterStmt,
-					)
-				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTables...)
+	result.Stmts = append(result.Stmts, createIndexes...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5df42d8..5788cb4 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -20,38 +20,43 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
-			switch s := stmt.(type) {
-			case *CreateTableStmt:
-				result.Stmts = append(result.Stmts, &DropTableStmt{
-					Name: s.Name,
-				})
-			case *CreateIndexStmt:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
-					Name: s.Name,
-				})
-			default:
-				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
-			}
-		}
-		return result, nil
+		after = &DDL{}
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	// Indexes are dropped before the tables they belong to are changed or dropped,
+	// and created after the tables they belong to are created or changed.
+	// Tables are dropped after the foreign keys that reference them are dropped.
+	var dropTables, createIndexes []Stmt
+
+	// DROP INDEX index_name;
+	for _, stmt := range before.Stmts {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
-				Name: beforeStmt.Name,
-			})
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				// DROP TABLE table_name;
+				dropTables = append([]Stmt{&DropTableStmt{Name: beforeStmt.Name}}, dropTables...)
+			}
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, &DropIndexStmt{
-				Name: beforeStmt.Name,
-			})
+			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
+			switch {
+			case !ok:
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Name: beforeStmt.Name,
+				})
+			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
+					Name:    beforeStmt.Name,
+				})
+				// CREATE INDEX index_name ...
+				createIndexes = append(createIndexes, afterStmt)
+			}
 		default:
-			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			}
 		}
 	}
 
@@ -61,42 +66,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			// CREATE INDEX index_name ...
+			createIndexes = append(createIndexes, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
 	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
-	for _, beforeStmt := range before.Stmts {
-		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
-		case *CreateTableStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
+	for _, stmt := range before.Stmts {
+		if beforeStmt, ok := stmt.(*CreateTableStmt); ok {
+			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
 					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
-				continue
-			}
-		case *CreateIndexStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
-					result.Stmts = append(result.Stmts,
-						&DropIndexStmt{
-							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
-							Name:    beforeStmt.Name,
-						},
-						afterStmt,
-					)
-				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTables...)
+	result.Stmts = append(result.Stmts, createIndexes...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 8db9540..f6c79e3 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -20,38 +20,43 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
-			switch s := stmt.(type) {
-			case *CreateTableStmt:
-				result.Stmts = append(result.Stmts, &DropTableStmt{
-					Name: s.Name,
-				})
-			case *CreateIndexStmt:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
-					Name: s.Name,
-				})
-			default:
-				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
-			}
-		}
-		return result, nil
+		after = &DDL{}
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	// Indexes are dropped before the tables they belong to are changed or dropped,
+	// and created after the tables they belong to are created or changed.
+	// Tables are dropped after the foreign keys that reference them are dropped.
+	var dropTables, createIndexes []Stmt
+
+	// DROP INDEX index_name;
+	for _, stmt := range before.Stmts {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
-				Name: beforeStmt.Name,
-			})
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				// DROP TABLE table_name;
+				dropTables = append([]Stmt{&DropTableStmt{Name: beforeStmt.Name}}, dropTables...)
+			}
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, &DropIndexStmt{
-				Name: beforeStmt.Name,
-			})
+			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
+			switch {
+			case !ok:
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Name: beforeStmt.Name,
+				})
+			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
+					Name:    beforeStmt.Name,
+				})
+				// CREATE INDEX index_name ...
+				createIndexes = append(createIndexes, afterStmt)
+			}
 		default:
-			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			}
 		}
 	}
 
@@ -61,42 +66,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			// CREATE INDEX index_name ...
+			createIndexes = append(createIndexes, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
 	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
-	for _, beforeStmt := range before.Stmts {
-		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
-		case *CreateTableStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
+	for _, stmt := range before.Stmts {
+		if beforeStmt, ok := stmt.(*CreateTableStmt); ok {
+			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
 					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
-				continue
-			}
-		case *CreateIndexStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
-					result.Stmts = append(result.Stmts,
-						&DropIndexStmt{
-							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
-							Name:    beforeStmt.Name,
-						},
-						afterStmt,
-					)
-				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTables...)
+	result.Stmts = append(result.Stmts, createIndexes...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index e960104..2c07227 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -20,38 +20,43 @@ func Diff(before, after *DDL) (*DDL, error) {
 		result.Stmts = append(result.Stmts, after.Stmts...)
 		return result, nil
 	case before != nil && after == nil:
-		for _, stmt := range before.Stmts {
-			switch s := stmt.(type) {
-			case *CreateTableStmt:
-				result.Stmts = append(result.Stmts, &DropTableStmt{
-					Name: s.Name,
-				})
-			case *CreateIndexStmt:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
-					Name: s.Name,
-				})
-			default:
-				return nil, apperr.Errorf("%s: %T: %w", s.GetNameForDiff(), s, ddl.ErrNotSupported)
-			}
-		}
-		return result, nil
+		after = &DDL{}
 	case (before == nil && after == nil) || reflect.DeepEqual(before, after) || before.String() == after.String():
 		return nil, ddl.ErrNoDifference
 	}
 
-	// DROP TABLE table_name;
-	for _, stmt := range onlyLeftStmt(before, after) {
+	// Indexes are dropped before the tables they belong to are changed or dropped,
+	// and created after the tables they belong to are created or changed.
+	// Tables are dropped after the foreign keys that reference them are dropped.
+	var dropTables, createIndexes []Stmt
+
+	// DROP INDEX index_name;
+	for _, stmt := range before.Stmts {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, &DropTableStmt{
-				Name: beforeStmt.Name,
-			})
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				// DROP TABLE table_name;
+				dropTables = append([]Stmt{&DropTableStmt{Name: beforeStmt.Name}}, dropTables...)
+			}
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, &DropIndexStmt{
-				Name: beforeStmt.Name,
-			})
+			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
+			switch {
+			case !ok:
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Name: beforeStmt.Name,
+				})
+			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
+				result.Stmts = append(result.Stmts, &DropIndexStmt{
+					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
+					Name:    beforeStmt.Name,
+				})
+				// CREATE INDEX index_name ...
+				createIndexes = append(createIndexes, afterStmt)
+			}
 		default:
-			return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+				return nil, apperr.Errorf("%s: %T: %w", beforeStmt.GetNameForDiff(), beforeStmt, ddl.ErrNotSupported)
+			}
 		}
 	}
 
@@ -61,42 +66,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 		case *CreateTableStmt:
 			result.Stmts = append(result.Stmts, afterStmt)
 		case *CreateIndexStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			// CREATE INDEX index_name ...
+			createIndexes = append(createIndexes, afterStmt)
 		default:
 			return nil, apperr.Errorf("%s: %T: %w", afterStmt.GetNameForDiff(), afterStmt, ddl.ErrNotSupported)
 		}
 	}
 
 	// ALTER TABLE table_name ...
-	// DROP INDEX index_name; CREATE INDEX index_name ...
-	for _, beforeStmt := range before.Stmts {
-		switch beforeStmt := beforeStmt.(type) { //nolint:gocritic
-		case *CreateTableStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateTableStmt) //nolint:forcetypeassert
+	for _, stmt := range before.Stmts {
+		if beforeStmt, ok := stmt.(*CreateTableStmt); ok {
+			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
 					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
-				continue
-			}
-		case *CreateIndexStmt:
-			if afterStmt := findStmtByTypeAndName(beforeStmt, after.Stmts); afterStmt != nil {
-				afterStmt := afterStmt.(*CreateIndexStmt) //nolint:forcetypeassert
-				if beforeStmt.StringForDiff() != afterStmt.StringForDiff() {
-					result.Stmts = append(result.Stmts,
-						&DropIndexStmt{
-							Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
-							Name:    beforeStmt.Name,
-						},
-						afterStmt,
-					)
-				}
 			}
 		}
 	}
 
+	result.Stmts = append(result.Stmts, dropTables...)
+	result.Stmts = append(result.Stmts, createIndexes...)
+
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
 	}
-- 
2.43.0


From cfb4f74cfd6b51e9bbe31c8adbe02ef6b338b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:29 +0000
Subject: [PATCH 11/59] fix: do not put the sort order of a column into the
 default name of a foreign key

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index eb2ed4a..e5d7cfb 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -704,7 +704,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 2bb8a2e..0a52aa2 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -685,7 +685,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 40d5fb1..f2698dc 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -668,7 +668,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		if constraintName == nil {
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
-				name += "_" + ident.StringForDiff()
+				name += "_" + ident.Ident.StringForDiff()
 			}
 			name += "_fkey"
 			constraintName = NewRawIdent(name)
-- 
2.43.0


From 26e599cfe6766da7c66824e90be14c7bddb729c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:27 +0000
Subject: [PATCH 12/59] fix: compare the ON actions of a foreign key without
 regard to keyword case

---
 pkg/ddl/cockroachdb/ddl_table.go   | 2 +-
 pkg/ddl/mysql/ddl_table.go         | 2 +-
 pkg/ddl/mysql/diff_create_table.go | 2 +-
 pkg/ddl/postgres/ddl_table.go      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index f41883f..1075a36 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -132,7 +132,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 128f3f8..e31aaae 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -134,7 +134,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 9ec58af..3049f67 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -252,7 +252,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 			beforeColumn.NotNull != afterColumn.NotNull ||
 			(!dropDefault && beforeColumn.Default.StringForDiff() != afterColumn.Default.StringForDiff()) ||
 			beforeColumn.AutoIncrement != afterColumn.AutoIncrement ||
-			beforeColumn.OnAction != afterColumn.OnAction ||
+			!strings.EqualFold(beforeColumn.OnAction, afterColumn.OnAction) ||
 			beforeColumn.Comment != afterColumn.Comment {
 			// ALTER TABLE table_name MODIFY column_name data_type NOT NULL;
 			ddls.Stmts = append(ddls.Stmts, &AlterTableStmt{
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 070ca7b..c81dfd2 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -120,7 +120,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 	}
 	str += ")"
 	if c.OnAction != "" {
-		str += " " + c.OnAction
+		str += " " + strings.ToUpper(c.OnAction)
 	}
 	return str
 }
-- 
2.43.0


From 2991fb5b7e71925a9910ec8e0f15992c20b4ecf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:06 +0000
Subject: [PATCH 13/59] fix: compare primary key and length of a spanner table
 without regard to an implied ASC and to letter case

---
 pkg/ddl/spanner/ddl.go       |  4 +++-
 pkg/ddl/spanner/ddl_table.go | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index cda8dbb..e2ceac7 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -1,6 +1,8 @@
 package spanner
 
 import (
+	"strings"
+
 	stringz "github.com/kunitsucom/util.go/strings"
 
 	"github.com/kunitsucom/ddlctl/pkg/ddl/internal"
@@ -141,7 +143,7 @@ func (s *DataType) StringForDiff() string {
 	if s.Expr != nil && len(s.Expr.Idents) > 0 {
 		str += "("
 		for _, ident := range s.Expr.Idents {
-			str += ident.StringForDiff()
+			str += strings.ToUpper(ident.StringForDiff()) // e.g. MAX
 		}
 		str += ")"
 	}
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index 48e3f39..e6daaea 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -302,7 +302,19 @@ func (o *Option) StringForDiff() string {
 	if o == nil || o.Value == nil {
 		return ""
 	}
-	return o.Name + " " + o.Value.StringForDiff()
+	value := &Expr{}
+	for _, ident := range o.Value.Idents {
+		if o.Name == "PRIMARY KEY" && ident.QuotationMark == "" {
+			switch strings.ToUpper(ident.Name) {
+			case "ASC": // MEMO: If not DESC, it is ASC by default.
+				continue
+			case "DESC":
+				ident = &Ident{Name: "DESC", Raw: "DESC"}
+			}
+		}
+		value = value.Append(ident)
+	}
+	return o.Name + " " + value.StringForDiff()
 }
 
 func (o *Option) GoString() string { return internal.GoString(*o) }
-- 
2.43.0


From 2ca71de0bbb6897fe0bc4a5c9f0ca059eb50b5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:44 +0000
Subject: [PATCH 14/59] fix: drop foreign keys, indexes and tables before the
 tables they depend on are altered

---
 pkg/ddl/cockroachdb/diff.go | 47 +++++++++++++++++++++++++++++--------
 pkg/ddl/mysql/diff.go       | 47 +++++++++++++++++++++++++++++--------
 pkg/ddl/postgres/diff.go    | 47 +++++++++++++++++++++++++++++--------
 pkg/ddl/spanner/diff.go     | 47 +++++++++++++++++++++++++++++--------
 4 files changed, 148 insertions(+), 40 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index 4cbbc25..b204181 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -25,10 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes are dropped before the tables they belong to are changed or dropped,
-	// and created after the tables they belong to are created or changed.
-	// Tables are dropped after the foreign keys that reference them are dropped.
-	var dropTables, createIndexes []Stmt
+	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
+	// and indexes are created after the tables they belong to are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -42,11 +41,11 @@ func Diff(before, after *DDL) (*DDL, error) {
 			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
 			switch {
 			case !ok:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Name: beforeStmt.Name,
 				})
 			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 					Name:    beforeStmt.Name,
 				})
@@ -64,7 +63,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTables = append(createTables, afterStmt)
 		case *CreateIndexStmt:
 			// CREATE INDEX index_name ...
 			createIndexes = append(createIndexes, afterStmt)
@@ -79,15 +78,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch s := stmt.(type) {
+						case *DropIndexStmt:
+							dropIndexes = append(dropIndexes, s)
+						case *CreateIndexStmt:
+							createIndexes = append(createIndexes, s)
+						default:
+							if isDropForeignKey(s, beforeStmt) {
+								dropForeignKeys = append(dropForeignKeys, s)
+							} else {
+								alterTables = append(alterTables, s)
+							}
+						}
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 			}
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTables...)
-	result.Stmts = append(result.Stmts, createIndexes...)
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+		result.Stmts = append(result.Stmts, stmts...)
+	}
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -96,6 +109,20 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// isDropForeignKey reports whether stmt drops a foreign key of table.
+func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	drop, ok := alter.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(drop.Name.Name, table.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index 5788cb4..cd62c8a 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -25,10 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes are dropped before the tables they belong to are changed or dropped,
-	// and created after the tables they belong to are created or changed.
-	// Tables are dropped after the foreign keys that reference them are dropped.
-	var dropTables, createIndexes []Stmt
+	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
+	// and indexes are created after the tables they belong to are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -42,11 +41,11 @@ func Diff(before, after *DDL) (*DDL, error) {
 			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
 			switch {
 			case !ok:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Name: beforeStmt.Name,
 				})
 			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 					Name:    beforeStmt.Name,
 				})
@@ -64,7 +63,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTables = append(createTables, afterStmt)
 		case *CreateIndexStmt:
 			// CREATE INDEX index_name ...
 			createIndexes = append(createIndexes, afterStmt)
@@ -79,15 +78,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch s := stmt.(type) {
+						case *DropIndexStmt:
+							dropIndexes = append(dropIndexes, s)
+						case *CreateIndexStmt:
+							createIndexes = append(createIndexes, s)
+						default:
+							if isDropForeignKey(s, beforeStmt) {
+								dropForeignKeys = append(dropForeignKeys, s)
+							} else {
+								alterTables = append(alterTables, s)
+							}
+						}
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 			}
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTables...)
-	result.Stmts = append(result.Stmts, createIndexes...)
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+		result.Stmts = append(result.Stmts, stmts...)
+	}
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -96,6 +109,20 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// isDropForeignKey reports whether stmt drops a foreign key of table.
+func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	drop, ok := alter.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(drop.Name.Name, table.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index f6c79e3..2f66d1a 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -25,10 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes are dropped before the tables they belong to are changed or dropped,
-	// and created after the tables they belong to are created or changed.
-	// Tables are dropped after the foreign keys that reference them are dropped.
-	var dropTables, createIndexes []Stmt
+	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
+	// and indexes are created after the tables they belong to are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -42,11 +41,11 @@ func Diff(before, after *DDL) (*DDL, error) {
 			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
 			switch {
 			case !ok:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Name: beforeStmt.Name,
 				})
 			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 					Name:    beforeStmt.Name,
 				})
@@ -64,7 +63,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTables = append(createTables, afterStmt)
 		case *CreateIndexStmt:
 			// CREATE INDEX index_name ...
 			createIndexes = append(createIndexes, afterStmt)
@@ -79,15 +78,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch s := stmt.(type) {
+						case *DropIndexStmt:
+							dropIndexes = append(dropIndexes, s)
+						case *CreateIndexStmt:
+							createIndexes = append(createIndexes, s)
+						default:
+							if isDropForeignKey(s, beforeStmt) {
+								dropForeignKeys = append(dropForeignKeys, s)
+							} else {
+								alterTables = append(alterTables, s)
+							}
+						}
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 			}
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTables...)
-	result.Stmts = append(result.Stmts, createIndexes...)
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+		result.Stmts = append(result.Stmts, stmts...)
+	}
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -96,6 +109,20 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// isDropForeignKey reports whether stmt drops a foreign key of table.
+func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	drop, ok := alter.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(drop.Name.Name, table.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index 2c07227..bd6d645 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -25,10 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes are dropped before the tables they belong to are changed or dropped,
-	// and created after the tables they belong to are created or changed.
-	// Tables are dropped after the foreign keys that reference them are dropped.
-	var dropTables, createIndexes []Stmt
+	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
+	// and indexes are created after the tables they belong to are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -42,11 +41,11 @@ func Diff(before, after *DDL) (*DDL, error) {
 			afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateIndexStmt)
 			switch {
 			case !ok:
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Name: beforeStmt.Name,
 				})
 			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
-				result.Stmts = append(result.Stmts, &DropIndexStmt{
+				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 					Name:    beforeStmt.Name,
 				})
@@ -64,7 +63,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 	for _, stmt := range onlyLeftStmt(after, before) {
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
-			result.Stmts = append(result.Stmts, afterStmt)
+			createTables = append(createTables, afterStmt)
 		case *CreateIndexStmt:
 			// CREATE INDEX index_name ...
 			createIndexes = append(createIndexes, afterStmt)
@@ -79,15 +78,29 @@ func Diff(before, after *DDL) (*DDL, error) {
 			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
-					result.Stmts = append(result.Stmts, alterStmt.Stmts...)
+					for _, stmt := range alterStmt.Stmts {
+						switch s := stmt.(type) {
+						case *DropIndexStmt:
+							dropIndexes = append(dropIndexes, s)
+						case *CreateIndexStmt:
+							createIndexes = append(createIndexes, s)
+						default:
+							if isDropForeignKey(s, beforeStmt) {
+								dropForeignKeys = append(dropForeignKeys, s)
+							} else {
+								alterTables = append(alterTables, s)
+							}
+						}
+					}
 				}
 				errorz.PanicOrIgnore(err, ddl.ErrNoDifference) // MEMO: If before and after table_name is match, DiffCreateTable does not return error except ddl.ErrNoDifference.
 			}
 		}
 	}
 
-	result.Stmts = append(result.Stmts, dropTables...)
-	result.Stmts = append(result.Stmts, createIndexes...)
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+		result.Stmts = append(result.Stmts, stmts...)
+	}
 
 	if len(result.Stmts) == 0 {
 		return nil, ddl.ErrNoDifference
@@ -96,6 +109,20 @@ func Diff(before, after *DDL) (*DDL, error) {
 	return result, nil
 }
 
+// isDropForeignKey reports whether stmt drops a foreign key of table.
+func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	drop, ok := alter.Action.(*DropConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = findConstraintByName(drop.Name.Name, table.Constraints).(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
-- 
2.43.0


From edb470d9608b27dd197d97c5ae31ae9427ac3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:10 +0000
Subject: [PATCH 15/59] fix: drop a changed constraint before a column it
 depends on is dropped or becomes nullable

---
 pkg/ddl/cockroachdb/diff_create_table.go | 40 ++++++++++++++++--------
 pkg/ddl/mysql/diff_create_table.go       | 40 ++++++++++++++++--------
 pkg/ddl/postgres/diff_create_table.go    | 40 ++++++++++++++++--------
 pkg/ddl/spanner/diff_create_table.go     | 40 ++++++++++++++++--------
 4 files changed, 108 insertions(+), 52 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index b3b9b0f..6795e86 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -75,7 +75,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
-		if afterConstraint == nil {
+		if afterConstraint == nil || dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
 			switch bc := beforeConstraint.(type) { //diff:ignore-line-postgres-cockroach
 			case *IndexConstraint: //diff:ignore-line-postgres-cockroach
 				// DROP INDEX index_name; //diff:ignore-line-postgres-cockroach
@@ -125,24 +125,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				default: //diff:ignore-line-postgres-cockroach
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
+					if !dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
+						result.Stmts = append(result.Stmts, &AlterTableStmt{
 							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
 							Action: &DropConstraint{
 								Name: beforeConstraint.GetName(),
 							},
+						})
+					}
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
-						},
-					)
+					})
 				} //diff:ignore-line-postgres-cockroach
 			}
 			continue
@@ -271,6 +270,21 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// dropsBeforeColumns reports whether a changed constraint has to be dropped before the columns are altered,
+// because a column it may depend on is dropped or becomes nullable.
+func dropsBeforeColumns(beforeConstraint, afterConstraint Constraint, before, after *CreateTableStmt) bool {
+	if _, ok := beforeConstraint.(*IndexConstraint); ok || beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
+		return false
+	}
+	for _, beforeColumn := range before.Columns {
+		afterColumn := findColumnByName(beforeColumn.Name.Name, after.Columns)
+		if afterColumn == nil || (beforeColumn.NotNull && !afterColumn.NotNull) {
+			return true
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 3049f67..0e123c3 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -75,7 +75,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
-		if afterConstraint == nil {
+		if afterConstraint == nil || dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
 			switch bc := beforeConstraint.(type) {
 			case *IndexConstraint:
 				// DROP INDEX index_name;
@@ -131,24 +131,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				default:
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-					result.Stmts = append(
-						result.Stmts,
-						&AlterTableStmt{
+					if !dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
+						result.Stmts = append(result.Stmts, &AlterTableStmt{
 							Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 							Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
 							Action: &DropConstraint{
 								Name: beforeConstraint.GetName(),
 							},
+						})
+					}
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
+						Comment: simplediff.Diff("", afterConstraint.String()).String(),
+						Name:    after.Name,
+						Action: &AddConstraint{
+							Constraint: afterConstraint,
+							NotValid:   config.UseAlterTableAddConstraintNotValid,
 						},
-						&AlterTableStmt{
-							Comment: simplediff.Diff("", afterConstraint.String()).String(),
-							Name:    after.Name,
-							Action: &AddConstraint{
-								Constraint: afterConstraint,
-								NotValid:   config.UseAlterTableAddConstraintNotValid,
-							},
-						},
-					)
+					})
 				}
 			}
 			continue
@@ -296,6 +295,21 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// dropsBeforeColumns reports whether a changed constraint has to be dropped before the columns are altered,
+// because a column it may depend on is dropped or becomes nullable.
+func dropsBeforeColumns(beforeConstraint, afterConstraint Constraint, before, after *CreateTableStmt) bool {
+	if _, ok := beforeConstraint.(*IndexConstraint); ok || beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
+		return false
+	}
+	for _, beforeColumn := range before.Columns {
+		afterColumn := findColumnByName(beforeColumn.Name.Name, after.Columns)
+		if afterColumn == nil || (beforeColumn.NotNull && !afterColumn.NotNull) {
+			return true
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/postgres/diff_create_table.go b/pkg/ddl/postgres/diff_create_table.go
index 37fbc47..7a85696 100644
--- a/pkg/ddl/postgres/diff_create_table.go
+++ b/pkg/ddl/postgres/diff_create_table.go
@@ -74,7 +74,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
-		if afterConstraint == nil {
+		if afterConstraint == nil || dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
 			// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 			result.Stmts = append(result.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
@@ -95,24 +95,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-				result.Stmts = append(
-					result.Stmts,
-					&AlterTableStmt{
+				if !dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
 						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
 						Action: &DropConstraint{
 							Name: beforeConstraint.GetName(),
 						},
+					})
+				}
+				result.Stmts = append(result.Stmts, &AlterTableStmt{
+					Comment: simplediff.Diff("", afterConstraint.String()).String(),
+					Name:    after.Name,
+					Action: &AddConstraint{
+						Constraint: afterConstraint,
+						NotValid:   config.UseAlterTableAddConstraintNotValid,
 					},
-					&AlterTableStmt{
-						Comment: simplediff.Diff("", afterConstraint.String()).String(),
-						Name:    after.Name,
-						Action: &AddConstraint{
-							Constraint: afterConstraint,
-							NotValid:   config.UseAlterTableAddConstraintNotValid,
-						},
-					},
-				)
+				})
 			}
 			continue
 		}
@@ -221,6 +220,21 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// dropsBeforeColumns reports whether a changed constraint has to be dropped before the columns are altered,
+// because a column it may depend on is dropped or becomes nullable.
+func dropsBeforeColumns(beforeConstraint, afterConstraint Constraint, before, after *CreateTableStmt) bool {
+	if beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
+		return false
+	}
+	for _, beforeColumn := range before.Columns {
+		afterColumn := findColumnByName(beforeColumn.Name.Name, after.Columns)
+		if afterColumn == nil || (beforeColumn.NotNull && !afterColumn.NotNull) {
+			return true
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
diff --git a/pkg/ddl/spanner/diff_create_table.go b/pkg/ddl/spanner/diff_create_table.go
index 383eb18..3e3bfd3 100644
--- a/pkg/ddl/spanner/diff_create_table.go
+++ b/pkg/ddl/spanner/diff_create_table.go
@@ -82,7 +82,7 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 
 	for _, beforeConstraint := range before.Constraints {
 		afterConstraint := findConstraintByName(beforeConstraint.GetName().Name, after.Constraints)
-		if afterConstraint == nil {
+		if afterConstraint == nil || dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
 			// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 			result.Stmts = append(result.Stmts, &AlterTableStmt{
 				Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
@@ -103,24 +103,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 			if beforeConstraint.StringForDiff() != afterConstraint.StringForDiff() {
 				// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 				// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
-				result.Stmts = append(
-					result.Stmts,
-					&AlterTableStmt{
+				if !dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
+					result.Stmts = append(result.Stmts, &AlterTableStmt{
 						Comment: simplediff.Diff(beforeConstraint.String(), "").String(),
 						Name:    after.Name, // ALTER TABLE RENAME TO で変更された後の可能性があるため after.Name を使用する
 						Action: &DropConstraint{
 							Name: beforeConstraint.GetName(),
 						},
+					})
+				}
+				result.Stmts = append(result.Stmts, &AlterTableStmt{
+					Comment: simplediff.Diff("", afterConstraint.String()).String(),
+					Name:    after.Name,
+					Action: &AddConstraint{
+						Constraint: afterConstraint,
+						NotValid:   config.UseAlterTableAddConstraintNotValid,
 					},
-					&AlterTableStmt{
-						Comment: simplediff.Diff("", afterConstraint.String()).String(),
-						Name:    after.Name,
-						Action: &AddConstraint{
-							Constraint: afterConstraint,
-							NotValid:   config.UseAlterTableAddConstraintNotValid,
-						},
-					},
-				)
+				})
 			}
 			continue
 		}
@@ -262,6 +261,21 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 	}
 }
 
+// dropsBeforeColumns reports whether a changed constraint has to be dropped before the columns are altered,
+// because a column it may depend on is dropped or becomes nullable.
+func dropsBeforeColumns(beforeConstraint, afterConstraint Constraint, before, after *CreateTableStmt) bool {
+	if beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
+		return false
+	}
+	for _, beforeColumn := range before.Columns {
+		afterColumn := findColumnByName(beforeColumn.Name.Name, after.Columns)
+		if afterColumn == nil || (beforeColumn.NotNull && !afterColumn.NotNull) {
+			return true
+		}
+	}
+	return false
+}
+
 func onlyLeftColumn(left, right []*Column) []*Column {
 	onlyLeftColumns := make([]*Column, 0)
 	for _, leftColumn := range left {
-- 
2.43.0


From ad8d55dc5b018753a008fba37a98a7366503e76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:29 +0000
Subject: [PATCH 16/59] fix: add foreign keys after every table they depend on
 is altered or created

---
 pkg/ddl/cockroachdb/diff.go | 29 +++++++++++++++++++++++------
 pkg/ddl/mysql/diff.go       | 29 +++++++++++++++++++++++------
 pkg/ddl/postgres/diff.go    | 29 +++++++++++++++++++++++------
 pkg/ddl/spanner/diff.go     | 29 +++++++++++++++++++++++------
 4 files changed, 92 insertions(+), 24 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff.go b/pkg/ddl/cockroachdb/diff.go
index b204181..19a9750 100644
--- a/pkg/ddl/cockroachdb/diff.go
+++ b/pkg/ddl/cockroachdb/diff.go
@@ -25,9 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
-	// and indexes are created after the tables they belong to are created or changed.
-	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
+	// Foreign keys and indexes are dropped before the tables they depend on are changed or dropped,
+	// and added after the tables they depend on are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -85,9 +85,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 						case *CreateIndexStmt:
 							createIndexes = append(createIndexes, s)
 						default:
-							if isDropForeignKey(s, beforeStmt) {
+							switch {
+							case isDropForeignKey(s, beforeStmt):
 								dropForeignKeys = append(dropForeignKeys, s)
-							} else {
+							case isAddForeignKey(s):
+								addForeignKeys = append(addForeignKeys, s)
+							default:
 								alterTables = append(alterTables, s)
 							}
 						}
@@ -98,7 +101,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes} {
 		result.Stmts = append(result.Stmts, stmts...)
 	}
 
@@ -123,6 +126,20 @@ func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
 	return ok
 }
 
+// isAddForeignKey reports whether stmt adds a foreign key.
+func isAddForeignKey(stmt Stmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	add, ok := alter.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = add.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/mysql/diff.go b/pkg/ddl/mysql/diff.go
index cd62c8a..165e48c 100644
--- a/pkg/ddl/mysql/diff.go
+++ b/pkg/ddl/mysql/diff.go
@@ -25,9 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
-	// and indexes are created after the tables they belong to are created or changed.
-	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
+	// Foreign keys and indexes are dropped before the tables they depend on are changed or dropped,
+	// and added after the tables they depend on are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -85,9 +85,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 						case *CreateIndexStmt:
 							createIndexes = append(createIndexes, s)
 						default:
-							if isDropForeignKey(s, beforeStmt) {
+							switch {
+							case isDropForeignKey(s, beforeStmt):
 								dropForeignKeys = append(dropForeignKeys, s)
-							} else {
+							case isAddForeignKey(s):
+								addForeignKeys = append(addForeignKeys, s)
+							default:
 								alterTables = append(alterTables, s)
 							}
 						}
@@ -98,7 +101,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes} {
 		result.Stmts = append(result.Stmts, stmts...)
 	}
 
@@ -123,6 +126,20 @@ func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
 	return ok
 }
 
+// isAddForeignKey reports whether stmt adds a foreign key.
+func isAddForeignKey(stmt Stmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	add, ok := alter.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = add.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/postgres/diff.go b/pkg/ddl/postgres/diff.go
index 2f66d1a..339f8e5 100644
--- a/pkg/ddl/postgres/diff.go
+++ b/pkg/ddl/postgres/diff.go
@@ -25,9 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
-	// and indexes are created after the tables they belong to are created or changed.
-	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
+	// Foreign keys and indexes are dropped before the tables they depend on are changed or dropped,
+	// and added after the tables they depend on are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -85,9 +85,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 						case *CreateIndexStmt:
 							createIndexes = append(createIndexes, s)
 						default:
-							if isDropForeignKey(s, beforeStmt) {
+							switch {
+							case isDropForeignKey(s, beforeStmt):
 								dropForeignKeys = append(dropForeignKeys, s)
-							} else {
+							case isAddForeignKey(s):
+								addForeignKeys = append(addForeignKeys, s)
+							default:
 								alterTables = append(alterTables, s)
 							}
 						}
@@ -98,7 +101,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes} {
 		result.Stmts = append(result.Stmts, stmts...)
 	}
 
@@ -123,6 +126,20 @@ func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
 	return ok
 }
 
+// isAddForeignKey reports whether stmt adds a foreign key.
+func isAddForeignKey(stmt Stmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	add, ok := alter.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = add.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index bd6d645..e6b6744 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -25,9 +25,9 @@ func Diff(before, after *DDL) (*DDL, error) {
 		return nil, ddl.ErrNoDifference
 	}
 
-	// Indexes and foreign keys are dropped before the tables they depend on are changed or dropped,
-	// and indexes are created after the tables they belong to are created or changed.
-	var dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes []Stmt
+	// Foreign keys and indexes are dropped before the tables they depend on are changed or dropped,
+	// and added after the tables they depend on are created or changed.
+	var dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes []Stmt
 
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
@@ -85,9 +85,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 						case *CreateIndexStmt:
 							createIndexes = append(createIndexes, s)
 						default:
-							if isDropForeignKey(s, beforeStmt) {
+							switch {
+							case isDropForeignKey(s, beforeStmt):
 								dropForeignKeys = append(dropForeignKeys, s)
-							} else {
+							case isAddForeignKey(s):
+								addForeignKeys = append(addForeignKeys, s)
+							default:
 								alterTables = append(alterTables, s)
 							}
 						}
@@ -98,7 +101,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 		}
 	}
 
-	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, createTables, alterTables, createIndexes} {
+	for _, stmts := range [][]Stmt{dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes} {
 		result.Stmts = append(result.Stmts, stmts...)
 	}
 
@@ -123,6 +126,20 @@ func isDropForeignKey(stmt Stmt, table *CreateTableStmt) bool {
 	return ok
 }
 
+// isAddForeignKey reports whether stmt adds a foreign key.
+func isAddForeignKey(stmt Stmt) bool {
+	alter, ok := stmt.(*AlterTableStmt)
+	if !ok {
+		return false
+	}
+	add, ok := alter.Action.(*AddConstraint)
+	if !ok {
+		return false
+	}
+	_, ok = add.Constraint.(*ForeignKeyConstraint)
+	return ok
+}
+
 func onlyLeftStmt(left, right *DDL) []Stmt {
 	result := make([]Stmt, 0)
 
-- 
2.43.0


From ab0a863ab95f255fb876848b94efb751abaa1dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:50 +0000
Subject: [PATCH 17/59] fix: drop and recreate the indexes and foreign keys
 that depend on a spanner table that is rebuilt

---
 pkg/ddl/spanner/diff.go | 66 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 11 deletions(-)

diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index e6b6744..07273df 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -29,11 +29,17 @@ func Diff(before, after *DDL) (*DDL, error) {
 	// and added after the tables they depend on are created or changed.
 	var dropForeignKeys, dropIndexes, dropTables, alterTables, createTables, addForeignKeys, createIndexes []Stmt
 
+	// A table whose options are changed is dropped and created again, and so are the indexes and foreign keys that depend on it.
+	rebuilds := findRebuilds(before, after)
+
 	// DROP INDEX index_name;
 	for _, stmt := range before.Stmts {
 		switch beforeStmt := stmt.(type) {
 		case *CreateTableStmt:
-			if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
+			if rebuild := rebuilds[beforeStmt.GetNameForDiff()]; rebuild != nil {
+				// DROP TABLE table_name;
+				dropTables = append([]Stmt{rebuild.Stmts[0]}, dropTables...)
+			} else if findStmtByTypeAndName(beforeStmt, after.Stmts) == nil {
 				// DROP TABLE table_name;
 				dropTables = append([]Stmt{&DropTableStmt{Name: beforeStmt.Name}}, dropTables...)
 			}
@@ -44,7 +50,7 @@ func Diff(before, after *DDL) (*DDL, error) {
 				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Name: beforeStmt.Name,
 				})
-			case beforeStmt.StringForDiff() != afterStmt.StringForDiff():
+			case beforeStmt.StringForDiff() != afterStmt.StringForDiff(), rebuilds[beforeStmt.TableName.StringForDiff()] != nil:
 				dropIndexes = append(dropIndexes, &DropIndexStmt{
 					Comment: simplediff.Diff(beforeStmt.StringForDiff(), afterStmt.StringForDiff()).String(),
 					Name:    beforeStmt.Name,
@@ -60,7 +66,12 @@ func Diff(before, after *DDL) (*DDL, error) {
 	}
 
 	// CREATE TABLE table_name
-	for _, stmt := range onlyLeftStmt(after, before) {
+	for _, stmt := range after.Stmts {
+		_, isTable := stmt.(*CreateTableStmt)
+		isRebuild := isTable && rebuilds[stmt.GetNameForDiff()] != nil
+		if !isRebuild && findStmtByTypeAndName(stmt, before.Stmts) != nil {
+			continue
+		}
 		switch afterStmt := stmt.(type) {
 		case *CreateTableStmt:
 			createTables = append(createTables, afterStmt)
@@ -74,8 +85,11 @@ func Diff(before, after *DDL) (*DDL, error) {
 
 	// ALTER TABLE table_name ...
 	for _, stmt := range before.Stmts {
-		if beforeStmt, ok := stmt.(*CreateTableStmt); ok {
+		if beforeStmt, ok := stmt.(*CreateTableStmt); ok && rebuilds[beforeStmt.GetNameForDiff()] == nil {
 			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
+				dropFKs, addFKs := rebuildForeignKeys(beforeStmt, afterStmt, rebuilds)
+				dropForeignKeys = append(dropForeignKeys, dropFKs...)
+				addForeignKeys = append(addForeignKeys, addFKs...)
 				alterStmt, err := DiffCreateTable(beforeStmt, afterStmt)
 				if err == nil {
 					for _, stmt := range alterStmt.Stmts {
@@ -140,16 +154,46 @@ func isAddForeignKey(stmt Stmt) bool {
 	return ok
 }
 
-func onlyLeftStmt(left, right *DDL) []Stmt {
-	result := make([]Stmt, 0)
-
-	for _, stmt := range left.Stmts {
-		if findStmtByTypeAndName(stmt, right.Stmts) == nil {
-			result = append(result, stmt)
+// findRebuilds returns the statements that drop and create again each table that is in both before and after but cannot be altered.
+func findRebuilds(before, after *DDL) map[string]*DDL {
+	rebuilds := make(map[string]*DDL)
+	for _, stmt := range before.Stmts {
+		if beforeStmt, ok := stmt.(*CreateTableStmt); ok {
+			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
+				if beforeStmt.Options.StringForDiff() != afterStmt.Options.StringForDiff() {
+					rebuild, err := DiffCreateTable(beforeStmt, afterStmt)
+					errorz.PanicOrIgnore(err, ddl.ErrNoDifference)
+					rebuilds[beforeStmt.GetNameForDiff()] = rebuild
+				}
+			}
 		}
 	}
+	return rebuilds
+}
 
-	return result
+// rebuildForeignKeys returns the statements that drop and add again the unchanged foreign keys that reference tables to be rebuilt.
+func rebuildForeignKeys(before, after *CreateTableStmt, rebuilds map[string]*DDL) (dropFKs, addFKs []Stmt) {
+	for _, constraint := range before.Constraints {
+		beforeFK, ok := constraint.(*ForeignKeyConstraint)
+		if !ok || rebuilds[beforeFK.Ref.StringForDiff()] == nil {
+			continue
+		}
+		afterFK := findConstraintByName(beforeFK.GetName().Name, after.Constraints)
+		if afterFK == nil || beforeFK.StringForDiff() != afterFK.StringForDiff() {
+			continue
+		}
+		dropFKs = append(dropFKs, &AlterTableStmt{
+			Comment: simplediff.Diff(beforeFK.String(), "").String(),
+			Name:    after.Name,
+			Action:  &DropConstraint{Name: beforeFK.GetName()},
+		})
+		addFKs = append(addFKs, &AlterTableStmt{
+			Comment: simplediff.Diff("", afterFK.String()).String(),
+			Name:    after.Name,
+			Action:  &AddConstraint{Constraint: afterFK},
+		})
+	}
+	return dropFKs, addFKs
 }
 
 func findStmtByTypeAndName(stmt Stmt, stmts []Stmt) Stmt { //nolint:ireturn
-- 
2.43.0


From 0d6a9858fe4b464e00e49277c00d3efe9a60e199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:45 +0000
Subject: [PATCH 18/59] fix: do not take a string literal and the word it
 contains for the same value

---
 pkg/ddl/cockroachdb/ddl.go | 3 +++
 pkg/ddl/postgres/ddl.go    | 3 +++
 pkg/ddl/spanner/ddl.go     | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index ac7d8cd..4ab55a0 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -76,6 +76,9 @@ func (i *Ident) StringForDiff() string {
 	if i == nil {
 		return ""
 	}
+	if i.QuotationMark == "'" { // NOTE: a string literal is not the word it contains
+		return i.Raw
+	}
 	return i.Name
 }
 
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 9b92e59..3896383 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -76,6 +76,9 @@ func (i *Ident) StringForDiff() string {
 	if i == nil {
 		return ""
 	}
+	if i.QuotationMark == "'" { // NOTE: a string literal is not the word it contains
+		return i.Raw
+	}
 	return i.Name
 }
 
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index e2ceac7..8f6a997 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -78,6 +78,9 @@ func (i *Ident) StringForDiff() string {
 	if i == nil {
 		return ""
 	}
+	if i.QuotationMark == "'" { // NOTE: a string literal is not the word it contains
+		return i.Raw
+	}
 	return i.Name
 }
 
-- 
2.43.0


From c84fa93b6edec573e787103774cfd1e478e01e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:10 +0000
Subject: [PATCH 19/59] fix: compare the access method of a postgres index

---
 pkg/ddl/postgres/ddl_index_create.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/postgres/ddl_index_create.go b/pkg/ddl/postgres/ddl_index_create.go
index 8790179..dc1dad7 100644
--- a/pkg/ddl/postgres/ddl_index_create.go
+++ b/pkg/ddl/postgres/ddl_index_create.go
@@ -60,7 +60,9 @@ func (s *CreateIndexStmt) StringForDiff() string {
 	}
 	str += "INDEX "
 	str += s.Name.StringForDiff() + " ON " + s.TableName.StringForDiff()
-	// TODO: add USING
+	if using := strings.ToLower(stringz.JoinStringers(" ", s.Using...)); using != "" && using != "btree" { // MEMO: btree is the default.
+		str += " USING " + using
+	}
 	str += " ("
 	for i, c := range s.Columns {
 		if i > 0 {
-- 
2.43.0


From 9649682e70b199661c15fc5cf7dda9e7f22b0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:19 +0000
Subject: [PATCH 20/59] fix: accept USING in a CREATE INDEX of cockroachdb

---
 pkg/ddl/cockroachdb/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index e5d7cfb..5584603 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -250,7 +250,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPreColumns = using
-		p.nextToken() // current = (
 	}
 
 	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
@@ -270,7 +269,6 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 			return nil, apperr.Errorf(errFmtPrefix+"parseExpr: %w", err)
 		}
 		createIndexStmt.UsingPostColumns = using
-		p.nextToken() // current = (
 	}
 
 	return createIndexStmt, nil
@@ -468,7 +466,7 @@ LabelAs:
 			}
 			using.With = &With{&Expr{with}}
 			continue
-		case TOKEN_NOT, TOKEN_COMMA, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL:
+		case TOKEN_NOT, TOKEN_COMMA, TOKEN_OPEN_PAREN, TOKEN_CLOSE_PAREN, TOKEN_VIRTUAL, TOKEN_SEMICOLON, TOKEN_EOF:
 			break LabelAs
 		default:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
-- 
2.43.0


From 020f0c276f3f7cb742642614b20b4b7aeb2e7546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 21/59] fix: refuse text after the columns of CREATE INDEX
 instead of skipping it

---
 pkg/ddl/cockroachdb/parser.go | 4 ++++
 pkg/ddl/mysql/parser.go       | 4 ++++
 pkg/ddl/postgres/parser.go    | 4 ++++
 pkg/ddl/spanner/parser.go     | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 5584603..b0b17ae 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -271,6 +271,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 		createIndexStmt.UsingPostColumns = using
 	}
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 0a52aa2..b7538da 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -326,6 +326,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 28eba78..8a3fb37 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -259,6 +259,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index f2698dc..37ffa6a 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -398,6 +398,10 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	createIndexStmt.Columns = idents
 
+	if err := p.checkCurrentToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+	}
+
 	return createIndexStmt, nil
 }
 
-- 
2.43.0


From 0d7f62c6cc3d12c51eb1ab69a163160389b3102b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 22/59] fix: do not skip the token that follows USING of a
 cockroachdb table index

---
 pkg/ddl/cockroachdb/parser.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index b0b17ae..af87ed4 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -749,7 +749,6 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 				return nil, apperr.Errorf("parseExpr: %w", err)
 			}
 			c.UsingPostColumns = using
-			p.nextToken() // current = (
 		}
 		return c, nil
 	default:
-- 
2.43.0


From c1ec8b45babdc743c1c85432758423b683e1bd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 23/59] fix: take the aliases of a data type for the same type
 when comparing

---
 pkg/ddl/cockroachdb/parser.go | 6 ++++++
 pkg/ddl/mysql/parser.go       | 7 ++++++-
 pkg/ddl/postgres/parser.go    | 6 ++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index af87ed4..0346ad2 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -796,6 +796,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_VARCHAR //diff:ignore-line-postgres-cockroach
+	case TOKEN_REAL: // REAL is an alias of FLOAT4 //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String() //diff:ignore-line-postgres-cockroach
+		dataType.Type = TOKEN_FLOAT4                    //diff:ignore-line-postgres-cockroach
+	case TOKEN_NUMERIC: // NUMERIC is an alias of DECIMAL //diff:ignore-line-postgres-cockroach
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DECIMAL //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index b7538da..30eff4d 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -776,7 +776,6 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		if p.isPeekToken(TOKEN_PRECISION) {
 			p.nextToken() // current = PRECISION
 			dataType.Name += " " + p.currentToken.Literal.String()
-			dataType.Type = TOKEN_DOUBLE_PRECISION
 		}
 	case TOKEN_CHARACTER:
 		dataType.Name = p.currentToken.Literal.String()
@@ -786,6 +785,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_VARCHAR
+	case TOKEN_REAL: // REAL is a synonym for DOUBLE
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DOUBLE
+	case TOKEN_NUMERIC: // NUMERIC is a synonym for DECIMAL
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_DECIMAL
 	case TOKEN_ENUM:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = TOKEN_ENUM
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 8a3fb37..eb8e5a0 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -681,6 +681,12 @@ func (p *Parser) parseDataType() (*DataType, error) {
 		p.nextToken() // current = VARYING
 		dataType.Name += " " + p.currentToken.Literal.String()
 		dataType.Type = TOKEN_CHARACTER_VARYING //diff:ignore-line-postgres-cockroach
+	case TOKEN_VARYING: // VARCHAR is an alias of CHARACTER VARYING
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_CHARACTER_VARYING //diff:ignore-line-postgres-cockroach
+	case TOKEN_DECIMAL: // DECIMAL is an alias of NUMERIC
+		dataType.Name = p.currentToken.Literal.String()
+		dataType.Type = TOKEN_NUMERIC //diff:ignore-line-postgres-cockroach
 	default:
 		dataType.Name = p.currentToken.Literal.String()
 		dataType.Type = p.currentToken.Type
-- 
2.43.0


From b534eff4ddb12059a4fe5ef3eca23e3a0e6a3a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:45 +0000
Subject: [PATCH 24/59] fix: keep an operator of several characters together

---
 pkg/ddl/cockroachdb/lexar.go  | 24 ++++++++++++++++++++++++
 pkg/ddl/cockroachdb/parser.go |  2 +-
 pkg/ddl/mysql/lexar.go        | 24 ++++++++++++++++++++++++
 pkg/ddl/postgres/lexar.go     | 24 ++++++++++++++++++++++++
 pkg/ddl/postgres/parser.go    |  2 +-
 pkg/ddl/spanner/lexar.go      | 24 ++++++++++++++++++++++++
 6 files changed, 98 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index 37e6ae5..cb07862 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // != <= ->> etc.
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
 
 	// VERB.
@@ -322,6 +323,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.peekOperator(); len(operator) > 1 && operator != "||" {
+		for range operator {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -427,6 +435,22 @@ func newToken(tokenType TokenType, ch byte) Token {
 	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
 }
 
+// peekOperator は現在の位置から始まる演算子を返します。現在の位置は進めません。
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	rest := l.input[l.position:]
+	size := 0
+	for size < len(rest) && strings.IndexByte("+-<>=~!@#%^&|?", rest[size]) >= 0 && !strings.HasPrefix(rest[size:], "--") {
+		size++
+	}
+	for size > 1 && (rest[size-1] == '+' || rest[size-1] == '-') {
+		size-- // 末尾の符号は演算子に含まない
+	}
+	return rest[:size]
+}
+
 func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 0346ad2..bc3bced 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -880,7 +880,7 @@ func isOperator(tokenType TokenType) bool {
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
 		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
 		TOKEN_TYPE_ANNOTATION, //diff:ignore-line-postgres-cockroach
-		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
+		TOKEN_STRING_CONCAT, TOKEN_TYPECAST, TOKEN_OPERATOR:
 		return true
 	default:
 		return false
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index 8d2b50b..ecabeb0 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // != <= ->> etc.
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // :::
 
 	// VERB.
@@ -345,6 +346,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.peekOperator(); len(operator) > 1 {
+		for range operator {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -455,6 +463,22 @@ func newToken(tokenType TokenType, ch byte) Token {
 	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
 }
 
+// peekOperator は現在の位置から始まる演算子を返します。現在の位置は進めません。
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	rest := l.input[l.position:]
+	size := 0
+	for size < len(rest) && strings.IndexByte("+-<>=~!@#%^&|?", rest[size]) >= 0 && !strings.HasPrefix(rest[size:], "--") {
+		size++
+	}
+	for size > 1 && (rest[size-1] == '+' || rest[size-1] == '-') {
+		size-- // 末尾の符号は演算子に含まない
+	}
+	return rest[:size]
+}
+
 func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index 4d776a3..a98e3ac 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH         TokenType = "SLASH"         // /
 	TOKEN_STRING_CONCAT TokenType = "STRING_CONCAT" //nolint:gosec // ||
 	TOKEN_TYPECAST      TokenType = "TYPECAST"      // ::
+	TOKEN_OPERATOR      TokenType = "OPERATOR"      // != <= ->> etc.
 
 	// VERB.
 	TOKEN_CREATE   TokenType = "CREATE"
@@ -301,6 +302,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.peekOperator(); len(operator) > 1 && operator != "||" {
+		for range operator {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -401,6 +409,22 @@ func newToken(tokenType TokenType, ch byte) Token {
 	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
 }
 
+// peekOperator は現在の位置から始まる演算子を返します。現在の位置は進めません。
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	rest := l.input[l.position:]
+	size := 0
+	for size < len(rest) && strings.IndexByte("+-<>=~!@#%^&|?", rest[size]) >= 0 && !strings.HasPrefix(rest[size:], "--") {
+		size++
+	}
+	for size > 1 && (rest[size-1] == '+' || rest[size-1] == '-') {
+		size-- // 末尾の符号は演算子に含まない
+	}
+	return rest[:size]
+}
+
 func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index eb8e5a0..0bd9501 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -756,7 +756,7 @@ func isOperator(tokenType TokenType) bool {
 	switch tokenType { //nolint:exhaustive
 	case TOKEN_EQUAL, TOKEN_GREATER, TOKEN_LESS,
 		TOKEN_PLUS, TOKEN_MINUS, TOKEN_ASTERISK, TOKEN_SLASH,
-		TOKEN_STRING_CONCAT, TOKEN_TYPECAST:
+		TOKEN_STRING_CONCAT, TOKEN_TYPECAST, TOKEN_OPERATOR:
 		return true
 	default:
 		return false
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 1c7fdf9..4a2220f 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -50,6 +50,7 @@ const (
 	TOKEN_SLASH           TokenType = "SLASH"           // /
 	TOKEN_STRING_CONCAT   TokenType = "STRING_CONCAT"   //nolint:gosec // ||
 	TOKEN_TYPECAST        TokenType = "TYPECAST"        // ::
+	TOKEN_OPERATOR        TokenType = "OPERATOR"        // != <= ->> etc.
 	TOKEN_TYPE_ANNOTATION TokenType = "TYPE_ANNOTATION" // ::: //diff:ignore-line-postgres-cockroach
 
 	// VERB.
@@ -301,6 +302,13 @@ func (l *Lexer) NextToken() Token {
 		return l.NextToken()
 	}
 
+	if operator := l.peekOperator(); len(operator) > 1 {
+		for range operator {
+			l.readChar()
+		}
+		return Token{Type: TOKEN_OPERATOR, Literal: Literal{Str: operator}}
+	}
+
 	switch l.ch {
 	case '"', '\'', '`':
 		literal, terminated := l.readQuotedLiteral(l.ch)
@@ -411,6 +419,22 @@ func newToken(tokenType TokenType, ch byte) Token {
 	return Token{Type: tokenType, Literal: Literal{Str: string(ch)}}
 }
 
+// peekOperator は現在の位置から始まる演算子を返します。現在の位置は進めません。
+func (l *Lexer) peekOperator() string {
+	if l.position >= len(l.input) {
+		return ""
+	}
+	rest := l.input[l.position:]
+	size := 0
+	for size < len(rest) && strings.IndexByte("+-<>=~!@#%^&|?", rest[size]) >= 0 && !strings.HasPrefix(rest[size:], "--") {
+		size++
+	}
+	for size > 1 && (rest[size-1] == '+' || rest[size-1] == '-') {
+		size-- // 末尾の符号は演算子に含まない
+	}
+	return rest[:size]
+}
+
 func (l *Lexer) readIdentifier() string {
 	position := l.position
 	for isLiteral(l.ch) {
-- 
2.43.0


From 54e030823d8f2aabb404825b7254194da223224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:02 +0000
Subject: [PATCH 25/59] fix: keep the prefix of a string literal together with
 it

---
 pkg/ddl/cockroachdb/lexar.go | 20 ++++++++++++++++++++
 pkg/ddl/mysql/lexar.go       | 20 ++++++++++++++++++++
 pkg/ddl/postgres/lexar.go    | 20 ++++++++++++++++++++
 pkg/ddl/spanner/lexar.go     | 20 ++++++++++++++++++++
 4 files changed, 80 insertions(+)

diff --git a/pkg/ddl/cockroachdb/lexar.go b/pkg/ddl/cockroachdb/lexar.go
index cb07862..a6cf7c2 100644
--- a/pkg/ddl/cockroachdb/lexar.go
+++ b/pkg/ddl/cockroachdb/lexar.go
@@ -393,6 +393,16 @@ func (l *Lexer) NextToken() Token {
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
+			if l.ch == '\'' && isStringPrefix(lit) {
+				// E'..' B'..' などは接頭辞とクォーテーションで1つのリテラル
+				quoted, terminated := l.readQuotedLiteral(l.ch)
+				l.readChar()
+				lit += quoted
+				tok.Type = TOKEN_IDENT
+				if !terminated {
+					tok.Type = TOKEN_ILLEGAL
+				}
+			}
 			tok.Literal = Literal{Str: lit}
 			return tok
 		}
@@ -461,6 +471,16 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isStringPrefix は str が文字列リテラルの接頭辞かどうかを返します。
+func isStringPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "E", "X":
+		return true
+	default:
+		return false
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/mysql/lexar.go b/pkg/ddl/mysql/lexar.go
index ecabeb0..3fbd1be 100644
--- a/pkg/ddl/mysql/lexar.go
+++ b/pkg/ddl/mysql/lexar.go
@@ -417,6 +417,16 @@ func (l *Lexer) NextToken() Token {
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
+			if l.ch == '\'' && isStringPrefix(lit) {
+				// E'..' B'..' などは接頭辞とクォーテーションで1つのリテラル
+				quoted, terminated := l.readQuotedLiteral(l.ch)
+				l.readChar()
+				lit += quoted
+				tok.Type = TOKEN_IDENT
+				if !terminated {
+					tok.Type = TOKEN_ILLEGAL
+				}
+			}
 			tok.Literal = Literal{Str: lit}
 			return tok
 		}
@@ -489,6 +499,16 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isStringPrefix は str が文字列リテラルの接頭辞かどうかを返します。
+func isStringPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "N", "X":
+		return true
+	default:
+		return strings.HasPrefix(str, "_") // 文字セット
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/postgres/lexar.go b/pkg/ddl/postgres/lexar.go
index a98e3ac..9625337 100644
--- a/pkg/ddl/postgres/lexar.go
+++ b/pkg/ddl/postgres/lexar.go
@@ -367,6 +367,16 @@ func (l *Lexer) NextToken() Token {
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
+			if l.ch == '\'' && isStringPrefix(lit) {
+				// E'..' B'..' などは接頭辞とクォーテーションで1つのリテラル
+				quoted, terminated := l.readQuotedLiteral(l.ch)
+				l.readChar()
+				lit += quoted
+				tok.Type = TOKEN_IDENT
+				if !terminated {
+					tok.Type = TOKEN_ILLEGAL
+				}
+			}
 			tok.Literal = Literal{Str: lit}
 			return tok
 		}
@@ -435,6 +445,16 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isStringPrefix は str が文字列リテラルの接頭辞かどうかを返します。
+func isStringPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "E", "N", "X":
+		return true
+	default:
+		return false
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
diff --git a/pkg/ddl/spanner/lexar.go b/pkg/ddl/spanner/lexar.go
index 4a2220f..ace39de 100644
--- a/pkg/ddl/spanner/lexar.go
+++ b/pkg/ddl/spanner/lexar.go
@@ -373,6 +373,16 @@ func (l *Lexer) NextToken() Token {
 		if isLiteral(l.ch) {
 			lit := l.readIdentifier()
 			tok.Type = lookupIdent(lit)
+			if l.ch == '\'' && isStringPrefix(lit) {
+				// E'..' B'..' などは接頭辞とクォーテーションで1つのリテラル
+				quoted, terminated := l.readQuotedLiteral(l.ch)
+				l.readChar()
+				lit += quoted
+				tok.Type = TOKEN_IDENT
+				if !terminated {
+					tok.Type = TOKEN_ILLEGAL
+				}
+			}
 			tok.Literal = Literal{Str: lit}
 			return tok
 		}
@@ -445,6 +455,16 @@ func (l *Lexer) readIdentifier() string {
 	return str
 }
 
+// isStringPrefix は str が文字列リテラルの接頭辞かどうかを返します。
+func isStringPrefix(str string) bool {
+	switch strings.ToUpper(str) {
+	case "B", "BR", "R", "RB":
+		return true
+	default:
+		return false
+	}
+}
+
 func isLiteral(ch byte) bool {
 	return 'A' <= ch && ch <= 'Z' ||
 		'a' <= ch && ch <= 'z' ||
-- 
2.43.0


From 8b3a59d7f5d50a04b0e68c482a1a8135bfa9a393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:06 +0000
Subject: [PATCH 26/59] fix: strip only the enclosing quotes of a literal when
 comparing

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/postgres/parser.go    | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index bc3bced..12a0429 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 30eff4d..b0a71ee 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 0bd9501..55c35bf 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -24,7 +24,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 37ffa6a..c4aa280 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -23,7 +23,7 @@ func NewRawIdent(raw string) *Ident {
 	for _, q := range quotationMarks {
 		if strings.HasPrefix(raw, q) && strings.HasSuffix(raw, q) {
 			return &Ident{
-				Name:          strings.Trim(raw, q),
+				Name:          strings.TrimSuffix(strings.TrimPrefix(raw, q), q),
 				QuotationMark: q,
 				Raw:           raw,
 			}
-- 
2.43.0


From ee5e49abf1a7cceb999df84a3a3777111a73a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 27/59] fix: accept a table level CHECK in postgres and
 cockroachdb, which is how it is printed

---
 pkg/ddl/cockroachdb/parser.go | 16 ++++++++++++++++
 pkg/ddl/postgres/parser.go    | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 12a0429..2c7d2d0 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -751,6 +751,22 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			c.UsingPostColumns = using
 		}
 		return c, nil
+	case TOKEN_CHECK:
+		constraint := &CheckConstraint{}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
+		constraint.Name = constraintName
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 55c35bf..21f82f2 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -633,6 +633,22 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		c.Name = constraintName
 		c.Columns = idents
 		return c, nil
+	case TOKEN_CHECK:
+		constraint := &CheckConstraint{}
+		if err := p.checkPeekToken(TOKEN_OPEN_PAREN); err != nil {
+			return nil, apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = (
+		idents, err := p.parseExpr()
+		if err != nil {
+			return nil, apperr.Errorf("parseExpr: %w", err)
+		}
+		if constraintName == nil {
+			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+		}
+		constraint.Name = constraintName
+		constraint.Expr = constraint.Expr.Append(idents...)
+		return constraint, nil
 	default:
 		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 	}
-- 
2.43.0


From db84dc15fd509ba4da12ffb1fac579ea2b24c06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:08 +0000
Subject: [PATCH 28/59] fix: give every unnamed CHECK a name of its own instead
 of replacing the previous one

---
 pkg/ddl/cockroachdb/ddl_table.go | 16 ++++++++++++++++
 pkg/ddl/cockroachdb/parser.go    |  8 ++++----
 pkg/ddl/mysql/ddl_table.go       | 16 ++++++++++++++++
 pkg/ddl/mysql/parser.go          |  8 ++++----
 pkg/ddl/postgres/ddl_table.go    | 16 ++++++++++++++++
 pkg/ddl/postgres/parser.go       |  8 ++++----
 pkg/ddl/spanner/ddl_table.go     | 16 ++++++++++++++++
 pkg/ddl/spanner/parser.go        |  8 ++++----
 8 files changed, 80 insertions(+), 16 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 1075a36..8f5042a 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -2,6 +2,7 @@ package cockroachdb
 
 import (
 	"sort" //diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,21 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName は既存の制約の名前と重複しない名前を返します。
+func (constraints Constraints) unusedName(name string) string {
+	unused := name
+	for i := 1; ; i++ {
+		used := false
+		for _, constraint := range constraints {
+			used = used || constraint.GetName().Name == unused
+		}
+		if !used {
+			return unused
+		}
+		unused = name + strconv.Itoa(i)
+	}
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 2c7d2d0..f31b377 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -173,7 +173,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -601,7 +601,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -624,7 +624,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -762,7 +762,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_check"))
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index e31aaae..0d82b5e 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -2,6 +2,7 @@ package mysql
 
 import (
 	"sort"
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -41,6 +42,21 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName は既存の制約の名前と重複しない名前を返します。
+func (constraints Constraints) unusedName(name string) string {
+	unused := name
+	for i := 1; ; i++ {
+		used := false
+		for _, constraint := range constraints {
+			used = used || constraint.GetName().Name == unused
+		}
+		if !used {
+			return unused
+		}
+		unused = name + strconv.Itoa(i)
+	}
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index b0a71ee..e54d2c1 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -172,7 +172,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -589,7 +589,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -612,7 +612,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -739,7 +739,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_chk"))
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index c81dfd2..57cb8d6 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -1,6 +1,7 @@
 package postgres
 
 import (
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -29,6 +30,21 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName は既存の制約の名前と重複しない名前を返します。
+func (constraints Constraints) unusedName(name string) string {
+	unused := name
+	for i := 1; ; i++ {
+		used := false
+		for _, constraint := range constraints {
+			used = used || constraint.GetName().Name == unused
+		}
+		if !used {
+			return unused
+		}
+		unused = name + strconv.Itoa(i)
+	}
+}
+
 // PrimaryKeyConstraint represents a PRIMARY KEY constraint.
 type PrimaryKeyConstraint struct {
 	Name    *Ident
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 21f82f2..953c5e8 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -173,7 +173,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -495,7 +495,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -518,7 +518,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -644,7 +644,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_check")
+			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_check"))
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index e6daaea..dca0f37 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -2,6 +2,7 @@ package spanner
 
 import (
 	//diff:ignore-line-postgres-cockroach
+	"strconv"
 	"strings"
 
 	stringz "github.com/kunitsucom/util.go/strings"
@@ -31,6 +32,21 @@ func (constraints Constraints) Append(constraint Constraint) Constraints {
 	return constraints
 }
 
+// unusedName は既存の制約の名前と重複しない名前を返します。
+func (constraints Constraints) unusedName(name string) string {
+	unused := name
+	for i := 1; ; i++ {
+		used := false
+		for _, constraint := range constraints {
+			used = used || constraint.GetName().Name == unused
+		}
+		if !used {
+			return unused
+		}
+		unused = name + strconv.Itoa(i)
+	}
+}
+
 // ForeignKeyConstraint represents a FOREIGN KEY constraint.
 type ForeignKeyConstraint struct {
 	Name       *Ident
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index c4aa280..1b2c428 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -172,7 +172,7 @@ LabelColumns:
 				}
 			}
 		case isConstraint(p.currentToken.Type):
-			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name)
+			constraint, err := p.parseTableConstraint(createTableStmt.Name.Name, createTableStmt.Constraints)
 			if err != nil {
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
@@ -607,7 +607,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = (
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -630,7 +630,7 @@ LabelConstraints:
 }
 
 //nolint:funlen,cyclop,gocognit
-func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //nolint:ireturn
+func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints) (Constraint, error) { //nolint:ireturn
 	var constraintName *Ident
 	if p.isCurrentToken(TOKEN_CONSTRAINT) {
 		p.nextToken() // current = constraint_name
@@ -696,7 +696,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident) (Constraint, error) { //
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_chk")
+			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_chk"))
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
-- 
2.43.0


From de07352fc6a7a765a6f997dfd862187b7e84f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 29/59] fix: compare keywords in expressions without regard to
 letter case

---
 pkg/ddl/cockroachdb/ddl.go       |  8 ++++++++
 pkg/ddl/cockroachdb/ddl_table.go |  6 +++---
 pkg/ddl/internal/util.go         | 12 ++++++++++++
 pkg/ddl/mysql/ddl.go             |  8 ++++++++
 pkg/ddl/mysql/ddl_table.go       |  4 ++--
 pkg/ddl/postgres/ddl.go          |  8 ++++++++
 pkg/ddl/postgres/ddl_table.go    |  4 ++--
 pkg/ddl/spanner/ddl.go           |  8 ++++++++
 pkg/ddl/spanner/ddl_table.go     |  6 +++---
 9 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl.go b/pkg/ddl/cockroachdb/ddl.go
index 4ab55a0..e2c5c30 100644
--- a/pkg/ddl/cockroachdb/ddl.go
+++ b/pkg/ddl/cockroachdb/ddl.go
@@ -82,6 +82,14 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff without regard to the letter case of keywords.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		return internal.ExprKeyword(i.StringForDiff())
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 8f5042a..1392a12 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -241,7 +241,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -364,7 +364,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
@@ -406,7 +406,7 @@ func (d *As) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 
 		if d.Type != "" {
diff --git a/pkg/ddl/internal/util.go b/pkg/ddl/internal/util.go
index 4f6d838..c005ef5 100644
--- a/pkg/ddl/internal/util.go
+++ b/pkg/ddl/internal/util.go
@@ -19,3 +19,15 @@ func GoString(v interface{}) string {
 	}
 	return fmt.Sprintf("&%s{%s}", typ, strings.Join(elems, ", "))
 }
+
+// ExprKeyword returns the upper case of the name if it is a keyword of expressions, otherwise the name as it is.
+func ExprKeyword(name string) string {
+	switch keyword := strings.ToUpper(name); keyword {
+	case "AND", "OR", "NOT", "IS", "IN", "BETWEEN", "LIKE", "ILIKE", "SIMILAR", "REGEXP", "ESCAPE", "DISTINCT", "FROM",
+		"ANY", "SOME", "ALL", "EXISTS", "CASE", "WHEN", "THEN", "ELSE", "END", "CAST", "AS", "INTERVAL", "AT", "COLLATE",
+		"CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP":
+		return keyword
+	default:
+		return name
+	}
+}
diff --git a/pkg/ddl/mysql/ddl.go b/pkg/ddl/mysql/ddl.go
index bb98943..e154625 100644
--- a/pkg/ddl/mysql/ddl.go
+++ b/pkg/ddl/mysql/ddl.go
@@ -79,6 +79,14 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff without regard to the letter case of keywords.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		return internal.ExprKeyword(i.StringForDiff())
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 0d82b5e..14101cf 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -229,7 +229,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -353,7 +353,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/postgres/ddl.go b/pkg/ddl/postgres/ddl.go
index 3896383..a78bac9 100644
--- a/pkg/ddl/postgres/ddl.go
+++ b/pkg/ddl/postgres/ddl.go
@@ -82,6 +82,14 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff without regard to the letter case of keywords.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		return internal.ExprKeyword(i.StringForDiff())
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 }
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 57cb8d6..7f5035a 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -210,7 +210,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -330,7 +330,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		return str
 	}
diff --git a/pkg/ddl/spanner/ddl.go b/pkg/ddl/spanner/ddl.go
index 8f6a997..2cf195f 100644
--- a/pkg/ddl/spanner/ddl.go
+++ b/pkg/ddl/spanner/ddl.go
@@ -84,6 +84,14 @@ func (i *Ident) StringForDiff() string {
 	return i.Name
 }
 
+// stringForDiffInExpr is StringForDiff without regard to the letter case of keywords.
+func (i *Ident) stringForDiffInExpr() string {
+	if i != nil && i.QuotationMark == "" {
+		return internal.ExprKeyword(i.StringForDiff())
+	}
+	return i.StringForDiff()
+}
+
 type ColumnIdent struct {
 	Ident *Ident
 	Order *Order //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/spanner/ddl_table.go b/pkg/ddl/spanner/ddl_table.go
index dca0f37..a0dcb93 100644
--- a/pkg/ddl/spanner/ddl_table.go
+++ b/pkg/ddl/spanner/ddl_table.go
@@ -136,7 +136,7 @@ func (c *CheckConstraint) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 	return str
 }
@@ -249,7 +249,7 @@ func (d *Expr) StringForDiff() string {
 		if i != 0 {
 			str += " "
 		}
-		str += v.StringForDiff()
+		str += v.stringForDiffInExpr()
 	}
 
 	return str
@@ -277,7 +277,7 @@ func (d *Default) StringForDiff() string {
 			if i != 0 {
 				str += " "
 			}
-			str += v.StringForDiff()
+			str += v.stringForDiffInExpr()
 		}
 		str += ")"
 		return str
-- 
2.43.0


From a7435261bcdcc4375652f8b0565cbbd16f4a2ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:23 +0000
Subject: [PATCH 30/59] fix: take BOOLEAN and TINYINT(1) of mysql for the same
 type when comparing

---
 pkg/ddl/mysql/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index e54d2c1..4a5da54 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -754,9 +754,9 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	dataType := &DataType{Type: TOKEN_ILLEGAL}
 
 	switch p.currentToken.Type { //nolint:exhaustive
-	case TOKEN_BOOLEAN:
+	case TOKEN_BOOLEAN: // BOOLEAN is a synonym for TINYINT(1)
 		dataType.Name = "TINYINT"
-		dataType.Type = TOKEN_BOOLEAN
+		dataType.Type = TOKEN_TINYINT
 		dataType.Expr = dataType.Expr.Append(NewRawIdent("1"))
 	case TOKEN_TIMESTAMP:
 		dataType.Name = p.currentToken.Literal.String()
-- 
2.43.0


From d7ebb5069c1b46c8fcdc5eab1741a8bc70e8cd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 31/59] fix: refuse a list of columns that is empty or lacks a
 name or a comma

---
 pkg/ddl/cockroachdb/parser.go | 51 ++++++++++++++++-----------------
 pkg/ddl/mysql/parser.go       | 53 +++++++++++++++++------------------
 pkg/ddl/postgres/parser.go    | 35 ++++++++++++-----------
 pkg/ddl/spanner/parser.go     | 51 ++++++++++++++++-----------------
 4 files changed, 96 insertions(+), 94 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index f31b377..28b9009 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -838,34 +838,35 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	for {
-		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
-			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
-			case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
-			} //diff:ignore-line-postgres-cockroach
-			idents = append(idents, ident)
-		case TOKEN_COMMA:
-			// do nothing
-		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
-			break LabelIdents
-		default:
-			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
 		}
-		p.nextToken()
-	}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
+		case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
+		case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		idents = append(idents, ident)
 
-	return idents, nil
+		p.nextToken() // current = COMMA or CLOSE_PAREN
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			p.nextToken() // current = the token following the list
+			return idents, nil
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+	}
 }
 
 func (p *Parser) parseIdents() ([]*Ident, error) {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4a5da54..3cddb5f 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -814,36 +814,35 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	for {
-		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive
-			case TOKEN_ASC:
-				ident.Order = &Order{Desc: false}
-				p.nextToken() // current = ASC
-			case TOKEN_DESC:
-				ident.Order = &Order{Desc: true}
-				p.nextToken() // current = DESC
-			default:
-				// do nothing
-			}
-			idents = append(idents, ident)
-		case TOKEN_COMMA:
-			// do nothing
-		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
-			break LabelIdents
-		default:
-			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
+		case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
+		case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		idents = append(idents, ident)
+
+		p.nextToken() // current = COMMA or CLOSE_PAREN
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			p.nextToken() // current = the token following the list
+			return idents, nil
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
 		}
-		p.nextToken()
 	}
-
-	return idents, nil
 }
 
 func (p *Parser) parseOnAction() (onAction string, err error) {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 953c5e8..d504dab 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -723,26 +723,27 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	for {
-		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			idents = append(idents, ident)
-		case TOKEN_COMMA:
-			// do nothing
-		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
-			break LabelIdents
-		default:
-			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
 		}
-		p.nextToken()
-	}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		idents = append(idents, ident)
 
-	return idents, nil
+		p.nextToken() // current = COMMA or CLOSE_PAREN
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			p.nextToken() // current = the token following the list
+			return idents, nil
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+	}
 }
 
 func (p *Parser) parseIdents() ([]*Ident, error) {
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 1b2c428..ec2bff1 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -730,34 +730,35 @@ func (p *Parser) parseDataType() (*DataType, error) {
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-LabelIdents:
+	if err := p.checkCurrentToken(TOKEN_OPEN_PAREN); err != nil {
+		return nil, apperr.Errorf("checkCurrentToken: %w", err)
+	}
+
 	for {
-		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
-		case TOKEN_IDENT:
-			ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
-			switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
-			case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
-			case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
-				ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
-				p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
-			} //diff:ignore-line-postgres-cockroach
-			idents = append(idents, ident)
-		case TOKEN_COMMA:
-			// do nothing
-		case TOKEN_CLOSE_PAREN:
-			p.nextToken()
-			break LabelIdents
-		default:
-			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+		p.nextToken() // current = column_name
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
+		ident := &ColumnIdent{Ident: NewRawIdent(p.currentToken.Literal.Str)}
+		switch p.peekToken.Type { //nolint:exhaustive //diff:ignore-line-postgres-cockroach
+		case TOKEN_ASC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: false} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                     // current = ASC //diff:ignore-line-postgres-cockroach
+		case TOKEN_DESC: //diff:ignore-line-postgres-cockroach
+			ident.Order = &Order{Desc: true} //diff:ignore-line-postgres-cockroach
+			p.nextToken()                    // current = DESC //diff:ignore-line-postgres-cockroach
+		} //diff:ignore-line-postgres-cockroach
+		idents = append(idents, ident)
+
+		p.nextToken() // current = COMMA or CLOSE_PAREN
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			p.nextToken() // current = the token following the list
+			return idents, nil
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
 		}
-		p.nextToken()
 	}
-
-	return idents, nil
 }
 
 func (p *Parser) parseIdents() ([]*Ident, error) {
-- 
2.43.0


From 479ce806c3e0f1bc2d761b525a75d7536ed8d6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 32/59] fix: refuse DEFAULT and AS without a value

---
 pkg/ddl/cockroachdb/parser.go | 8 ++++++++
 pkg/ddl/mysql/parser.go       | 4 ++++
 pkg/ddl/postgres/parser.go    | 4 ++++
 pkg/ddl/spanner/parser.go     | 4 ++++
 4 files changed, 20 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 28b9009..33e3874 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -399,6 +399,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
@@ -447,6 +451,10 @@ LabelAs:
 		p.nextToken()
 	}
 
+	if as.Value == nil || len(as.Value.Idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return as, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 3cddb5f..23960d9 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -475,6 +475,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index d504dab..b786454 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -374,6 +374,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index ec2bff1..650d5c6 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -524,6 +524,10 @@ LabelDefault:
 		p.nextToken()
 	}
 
+	if def.Value == nil || len(def.Value.Idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return def, nil
 }
 
-- 
2.43.0


From 5c96df48a1635cb4865f3f57f55d32af804c0603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:19 +0000
Subject: [PATCH 33/59] fix: refuse CREATE UNIQUE without INDEX and USING
 without a method

---
 pkg/ddl/cockroachdb/parser.go | 7 +++++++
 pkg/ddl/mysql/parser.go       | 6 ++++++
 pkg/ddl/postgres/parser.go    | 6 ++++++
 pkg/ddl/spanner/parser.go     | 6 ++++++
 4 files changed, 25 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 33e3874..6b40ed8 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -205,6 +205,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
@@ -487,6 +490,10 @@ LabelAs:
 		p.nextToken()
 	}
 
+	if using.Value == nil || len(using.Value.Idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return using, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 23960d9..0bd52b4 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -270,6 +270,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
@@ -311,6 +314,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	if p.isCurrentToken(TOKEN_USING) {
 		p.nextToken() // current = using_def
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+		}
 		createIndexStmt.Using = append(createIndexStmt.Using, NewIdent(p.currentToken.Literal.Str, "", p.currentToken.Literal.Str))
 		p.nextToken() // current = (
 	}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index b786454..3102973 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -203,6 +203,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
@@ -244,6 +247,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	if p.isCurrentToken(TOKEN_USING) {
 		p.nextToken() // current = using_def
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+		}
 		createIndexStmt.Using = append(createIndexStmt.Using, NewIdent(p.currentToken.Literal.Str, "", p.currentToken.Literal.Str))
 		p.nextToken() // current = (
 	}
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 650d5c6..ab7ed00 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -342,6 +342,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 	if p.isCurrentToken(TOKEN_UNIQUE) {
 		createIndexStmt.Unique = true
 		p.nextToken() // current = INDEX
+		if err := p.checkCurrentToken(TOKEN_INDEX); err != nil {
+			return nil, apperr.Errorf("checkCurrentToken: %w", err)
+		}
 	}
 
 	if p.isPeekToken(TOKEN_IF) {
@@ -383,6 +386,9 @@ func (p *Parser) parseCreateIndexStmt() (*CreateIndexStmt, error) {
 
 	if p.isCurrentToken(TOKEN_USING) {
 		p.nextToken() // current = using_def
+		if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+			return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+		}
 		createIndexStmt.Using = append(createIndexStmt.Using, NewIdent(p.currentToken.Literal.Str, "", p.currentToken.Literal.Str))
 		p.nextToken() // current = (
 	}
-- 
2.43.0


From 95c674aa7b49f300f4ba63e2f018d8fa8d8398ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:27 +0000
Subject: [PATCH 34/59] fix: refuse type arguments that are empty or not closed

---
 pkg/ddl/cockroachdb/parser.go | 10 +++++++---
 pkg/ddl/mysql/parser.go       | 10 +++++++---
 pkg/ddl/postgres/parser.go    | 10 +++++++---
 pkg/ddl/spanner/parser.go     | 10 +++++++---
 4 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 6b40ed8..b6bfa05 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -887,16 +887,16 @@ func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 func (p *Parser) parseIdents() ([]*Ident, error) {
 	idents := make([]*Ident, 0)
 
+	p.nextToken() // current = the token following (
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_IDENT:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_OPEN_PAREN, TOKEN_SEMICOLON, TOKEN_EOF, TOKEN_ILLEGAL:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
@@ -904,6 +904,10 @@ LabelIdents:
 		p.nextToken()
 	}
 
+	if len(idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return idents, nil
 }
 
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 0bd52b4..ee2677b 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -886,16 +886,16 @@ func (p *Parser) parseOnAction() (onAction string, err error) {
 func (p *Parser) parseIdents() ([]*Ident, error) {
 	idents := make([]*Ident, 0)
 
+	p.nextToken() // current = the token following (
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_IDENT:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_OPEN_PAREN, TOKEN_SEMICOLON, TOKEN_EOF, TOKEN_ILLEGAL:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
@@ -903,6 +903,10 @@ LabelIdents:
 		p.nextToken()
 	}
 
+	if len(idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return idents, nil
 }
 
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 3102973..c77cd96 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -759,16 +759,16 @@ func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 func (p *Parser) parseIdents() ([]*Ident, error) {
 	idents := make([]*Ident, 0)
 
+	p.nextToken() // current = the token following (
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_IDENT:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_OPEN_PAREN, TOKEN_SEMICOLON, TOKEN_EOF, TOKEN_ILLEGAL:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.Str))
@@ -776,6 +776,10 @@ LabelIdents:
 		p.nextToken()
 	}
 
+	if len(idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return idents, nil
 }
 
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index ab7ed00..71fb407 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -774,14 +774,14 @@ func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 func (p *Parser) parseIdents() ([]*Ident, error) {
 	idents := make([]*Ident, 0)
 
+	p.nextToken() // current = the token following (
+
 LabelIdents:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-		case TOKEN_OPEN_PAREN:
-			// do nothing
 		case TOKEN_CLOSE_PAREN:
 			break LabelIdents
-		case TOKEN_EOF, TOKEN_ILLEGAL:
+		case TOKEN_OPEN_PAREN, TOKEN_SEMICOLON, TOKEN_EOF, TOKEN_ILLEGAL:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			idents = append(idents, NewRawIdent(p.currentToken.Literal.String()))
@@ -789,6 +789,10 @@ LabelIdents:
 		p.nextToken()
 	}
 
+	if len(idents) == 0 {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
+	}
+
 	return idents, nil
 }
 
-- 
2.43.0


From 17275462726b4dfd3d562ea726802814bfca30cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:31 +0000
Subject: [PATCH 35/59] fix: refuse CHARACTER SET, COLLATE and COMMENT of mysql
 without a value

---
 pkg/ddl/mysql/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index ee2677b..91010b4 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -401,9 +401,15 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
 				}
 				p.nextToken() // current = charset_value
+				if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+				}
 				column.CharacterSet = NewRawIdent(p.currentToken.Literal.String())
 			case TOKEN_COLLATE:
 				p.nextToken() // current = collate_value
+				if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+					return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+				}
 				column.Collate = NewRawIdent(p.currentToken.Literal.String())
 			case TOKEN_AUTO_INCREMENT:
 				column.AutoIncrement = true
@@ -426,6 +432,9 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 
 		if p.isCurrentToken(TOKEN_COMMENT) {
 			p.nextToken() // current = comment_value
+			if err := p.checkCurrentToken(TOKEN_IDENT); err != nil {
+				return nil, nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+			}
 			column.Comment = p.currentToken.Literal.String()
 			p.nextToken() // current = COMMA or CLOSE_PAREN
 		}
-- 
2.43.0


From 320697a8eb7f061d79839fb4145803f90fb6c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:35 +0000
Subject: [PATCH 36/59] fix: refuse CHECK and DEFAULT with an empty expression

---
 pkg/ddl/cockroachdb/parser.go | 10 ++++++++++
 pkg/ddl/mysql/parser.go       | 10 ++++++++++
 pkg/ddl/postgres/parser.go    | 10 ++++++++++
 pkg/ddl/spanner/parser.go     | 10 ++++++++++
 4 files changed, 40 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index b6bfa05..494e01e 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -363,6 +363,10 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 func (p *Parser) parseColumnDefault() (*Default, error) {
 	def := &Default{}
 
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) && p.isPeekToken(TOKEN_CLOSE_PAREN) {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+	}
+
 LabelDefault:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
@@ -615,6 +619,9 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = (
+			if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+			}
 			constraint := &CheckConstraint{
 				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
@@ -772,6 +779,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("checkPeekToken: %w", err)
 		}
 		p.nextToken() // current = (
+		if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+		}
 		idents, err := p.parseExpr()
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 91010b4..4c720e8 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -449,6 +449,10 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 func (p *Parser) parseColumnDefault() (*Default, error) {
 	def := &Default{}
 
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) && p.isPeekToken(TOKEN_CLOSE_PAREN) {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+	}
+
 LabelDefault:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
@@ -607,6 +611,9 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = (
+			if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+			}
 			constraint := &CheckConstraint{
 				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
@@ -752,6 +759,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("checkPeekToken: %w", err)
 		}
 		p.nextToken() // current = (
+		if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+		}
 		idents, err := p.parseExpr()
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index c77cd96..f6d4684 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -341,6 +341,10 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 func (p *Parser) parseColumnDefault() (*Default, error) {
 	def := &Default{}
 
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) && p.isPeekToken(TOKEN_CLOSE_PAREN) {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+	}
+
 LabelDefault:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
@@ -504,6 +508,9 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = (
+			if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+			}
 			constraint := &CheckConstraint{
 				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
@@ -649,6 +656,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("checkPeekToken: %w", err)
 		}
 		p.nextToken() // current = (
+		if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+		}
 		idents, err := p.parseExpr()
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 71fb407..4b69e4c 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -489,6 +489,10 @@ func (p *Parser) parseColumn(tableName *Ident) (*Column, []Constraint, error) {
 func (p *Parser) parseColumnDefault() (*Default, error) {
 	def := &Default{}
 
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) && p.isPeekToken(TOKEN_CLOSE_PAREN) {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+	}
+
 LabelDefault:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
@@ -616,6 +620,9 @@ LabelConstraints:
 				return nil, apperr.Errorf("checkPeekToken: %w", err)
 			}
 			p.nextToken() // current = (
+			if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+			}
 			constraint := &CheckConstraint{
 				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
 			}
@@ -701,6 +708,9 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("checkPeekToken: %w", err)
 		}
 		p.nextToken() // current = (
+		if p.isPeekToken(TOKEN_CLOSE_PAREN) {
+			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+		}
 		idents, err := p.parseExpr()
 		if err != nil {
 			return nil, apperr.Errorf("parseExpr: %w", err)
-- 
2.43.0


From e9814f40a012d1eb0c50775f935cd67782d98a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:59 +0000
Subject: [PATCH 37/59] fix: refuse table elements that are not separated by a
 comma

---
 pkg/ddl/cockroachdb/parser.go | 30 ++++++++++++++----------------
 pkg/ddl/mysql/parser.go       | 21 +++++++++++----------
 pkg/ddl/postgres/parser.go    | 28 ++++++++++++++--------------
 pkg/ddl/spanner/parser.go     | 21 +++++++++++----------
 4 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 494e01e..b2bed81 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -87,8 +87,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
@@ -158,8 +156,7 @@ func (p *Parser) parseCreateTableStmt() (*CreateTableStmt, error) {
 
 	p.nextToken() // current = column_name
 
-LabelColumns:
-	for {
+	for !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
 		switch { //nolint:exhaustive
 		case p.isCurrentToken(TOKEN_IDENT):
 			column, constraints, err := p.parseColumn(createTableStmt.Name.Name)
@@ -178,22 +175,23 @@ LabelColumns:
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
 			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
-		case p.isCurrentToken(TOKEN_COMMA):
-			p.nextToken()
-			continue
-		case p.isCurrentToken(TOKEN_SEMICOLON):
-			break LabelColumns
-		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
-			switch p.peekToken.Type { //nolint:exhaustive
-			case TOKEN_SEMICOLON, TOKEN_EOF:
-				break LabelColumns
-			default:
-				return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
-			}
 		default:
 			return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
+
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			break
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+		}
+		p.nextToken() // current = column_name or CONSTRAINT or ... or CLOSE_PAREN (a trailing comma is tolerated)
+	}
+
+	if err := p.checkPeekToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkPeekToken: %w", err)
 	}
+	p.nextToken() // current = SEMICOLON or EOF
 
 	return createTableStmt, nil
 }
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 4c720e8..90374f0 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -86,8 +86,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
@@ -157,8 +155,7 @@ func (p *Parser) parseCreateTableStmt() (*CreateTableStmt, error) {
 
 	p.nextToken() // current = column_name
 
-LabelColumns:
-	for {
+	for !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
 		switch { //nolint:exhaustive
 		case p.isCurrentToken(TOKEN_IDENT):
 			column, constraints, err := p.parseColumn(createTableStmt.Name.Name)
@@ -177,17 +174,21 @@ LabelColumns:
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
 			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
-		case p.isCurrentToken(TOKEN_COMMA):
-			p.nextToken()
-			continue
-		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
-			p.nextToken()
-			break LabelColumns
 		default:
 			return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
+
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			break
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+		}
+		p.nextToken() // current = column_name or CONSTRAINT or ... or CLOSE_PAREN (a trailing comma is tolerated)
 	}
 
+	p.nextToken() // current = the token following the columns
+
 LabelTableOptions:
 	for {
 		opt := &Option{}
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index f6d4684..c905951 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -87,8 +87,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
@@ -158,8 +156,7 @@ func (p *Parser) parseCreateTableStmt() (*CreateTableStmt, error) {
 
 	p.nextToken() // current = column_name
 
-LabelColumns:
-	for {
+	for !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
 		switch { //nolint:exhaustive
 		case p.isCurrentToken(TOKEN_IDENT):
 			column, constraints, err := p.parseColumn(createTableStmt.Name.Name)
@@ -178,20 +175,23 @@ LabelColumns:
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
 			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
-		case p.isCurrentToken(TOKEN_COMMA):
-			p.nextToken()
-			continue
-		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
-			switch p.peekToken.Type { //nolint:exhaustive
-			case TOKEN_SEMICOLON, TOKEN_EOF:
-				break LabelColumns
-			default:
-				return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
-			}
 		default:
 			return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
+
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			break
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+		}
+		p.nextToken() // current = column_name or CONSTRAINT or ... or CLOSE_PAREN (a trailing comma is tolerated)
+	}
+
+	if err := p.checkPeekToken(TOKEN_SEMICOLON, TOKEN_EOF); err != nil {
+		return nil, apperr.Errorf(errFmtPrefix+"checkPeekToken: %w", err)
 	}
+	p.nextToken() // current = SEMICOLON or EOF
 
 	return createTableStmt, nil
 }
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 4b69e4c..a27bd95 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -86,8 +86,6 @@ LabelDDL:
 				return nil, apperr.Errorf("parseCreateStatement: %w", err)
 			}
 			d.Stmts = append(d.Stmts, stmt)
-		case TOKEN_CLOSE_PAREN:
-			// do nothing
 		case TOKEN_SEMICOLON:
 			// do nothing
 		case TOKEN_EOF:
@@ -157,8 +155,7 @@ func (p *Parser) parseCreateTableStmt() (*CreateTableStmt, error) {
 
 	p.nextToken() // current = column_name
 
-LabelColumns:
-	for {
+	for !p.isCurrentToken(TOKEN_CLOSE_PAREN) {
 		switch { //nolint:exhaustive
 		case p.isCurrentToken(TOKEN_IDENT):
 			column, constraints, err := p.parseColumn(createTableStmt.Name.Name)
@@ -177,17 +174,21 @@ LabelColumns:
 				return nil, apperr.Errorf(errFmtPrefix+"parseTableConstraint: %w", err)
 			}
 			createTableStmt.Constraints = createTableStmt.Constraints.Append(constraint)
-		case p.isCurrentToken(TOKEN_COMMA):
-			p.nextToken()
-			continue
-		case p.isCurrentToken(TOKEN_CLOSE_PAREN):
-			p.nextToken()
-			break LabelColumns
 		default:
 			return nil, apperr.Errorf(errFmtPrefix+"currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		}
+
+		if p.isCurrentToken(TOKEN_CLOSE_PAREN) {
+			break
+		}
+		if err := p.checkCurrentToken(TOKEN_COMMA); err != nil {
+			return nil, apperr.Errorf(errFmtPrefix+"checkCurrentToken: %w", err)
+		}
+		p.nextToken() // current = column_name or CONSTRAINT or ... or CLOSE_PAREN (a trailing comma is tolerated)
 	}
 
+	p.nextToken() // current = the token following the columns
+
 LabelTableOptions:
 	for {
 		switch p.currentToken.Type { //nolint:exhaustive
-- 
2.43.0


From 5308d35b818a26ca6b6eff40d7c15a5bc9b3cec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:03 +0000
Subject: [PATCH 38/59] fix: refuse ON DELETE NO without ACTION in a table
 constraint

---
 pkg/ddl/cockroachdb/parser.go | 7 +++++--
 pkg/ddl/postgres/parser.go    | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index b2bed81..6dc61f6 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -717,8 +717,11 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
 			p.nextToken() // current = COMMA or CLOSE_PAREN
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index c905951..94002de 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -608,8 +608,11 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			}
 			p.nextToken()                                     // current = CASCADE or NO
 			onAction += " " + p.currentToken.Literal.String() // current = CASCADE or NO
-			if p.isCurrentToken(TOKEN_NO) && p.isPeekToken(TOKEN_ACTION) {
-				p.nextToken()                                     // current = ACTION
+			if p.isCurrentToken(TOKEN_NO) {
+				p.nextToken() // current = ACTION
+				if err := p.checkCurrentToken(TOKEN_ACTION); err != nil {
+					return nil, apperr.Errorf("checkCurrentToken: %w", err)
+				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
 			p.nextToken() // current = COMMA or CLOSE_PAREN
-- 
2.43.0


From 2871eddd5406d1936f2771bf5c126bf67319d1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:42 +0000
Subject: [PATCH 39/59] fix: refuse an expression that is cut off by a
 semicolon

---
 pkg/ddl/cockroachdb/parser.go | 2 +-
 pkg/ddl/mysql/parser.go       | 2 +-
 pkg/ddl/postgres/parser.go    | 2 +-
 pkg/ddl/spanner/parser.go     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 6dc61f6..68b6e0b 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -531,7 +531,7 @@ LabelExpr:
 				p.nextToken()
 			}
 			idents = append(idents, NewRawIdent(value))
-		case TOKEN_EOF:
+		case TOKEN_SEMICOLON, TOKEN_EOF:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			if isReservedValue(p.currentToken.Type) {
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index 90374f0..bc1f654 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -534,7 +534,7 @@ LabelExpr:
 				p.nextToken()
 			}
 			idents = append(idents, NewRawIdent(value))
-		case TOKEN_EOF:
+		case TOKEN_SEMICOLON, TOKEN_EOF:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			if isReservedValue(p.currentToken.Type) {
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 94002de..4b7ce41 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -423,7 +423,7 @@ LabelExpr:
 				p.nextToken()
 			}
 			idents = append(idents, NewRawIdent(value))
-		case TOKEN_EOF:
+		case TOKEN_SEMICOLON, TOKEN_EOF:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			if isReservedValue(p.currentToken.Type) {
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index a27bd95..09eb369 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -574,7 +574,7 @@ LabelExpr:
 				p.nextToken()
 			}
 			idents = append(idents, NewRawIdent(value))
-		case TOKEN_EOF:
+		case TOKEN_SEMICOLON, TOKEN_EOF:
 			return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedCurrentToken)
 		default:
 			if isReservedValue(p.currentToken.Type) {
-- 
2.43.0


From e3691321c771a939a87b08c541c87141611552ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 40/59] fix: refuse AS with an empty expression

---
 pkg/ddl/cockroachdb/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 68b6e0b..9de2c96 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -415,6 +415,10 @@ LabelDefault:
 func (p *Parser) parseColumnAs() (*As, error) {
 	as := new(As)
 
+	if p.isCurrentToken(TOKEN_OPEN_PAREN) && p.isPeekToken(TOKEN_CLOSE_PAREN) {
+		return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
+	}
+
 LabelAs:
 	for {
 		switch typ := p.currentToken.Type; typ { //nolint:exhaustive
-- 
2.43.0


From e7e368090d95bcf60f144519137a02c06dbb411f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:04 +0000
Subject: [PATCH 41/59] fix: quote default constraint names made from names
 that cannot stand unquoted

---
 pkg/ddl/cockroachdb/parser.go | 30 +++++++++++++++++++++++-------
 pkg/ddl/mysql/parser.go       | 26 +++++++++++++++++++++-----
 pkg/ddl/postgres/parser.go    | 34 ++++++++++++++++++++++++++--------
 pkg/ddl/spanner/parser.go     | 24 ++++++++++++++++++++----
 4 files changed, 90 insertions(+), 24 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index 9de2c96..be4b945 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -5,6 +5,7 @@ package cockroachdb
 
 import (
 	"fmt"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -38,6 +39,19 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+//nolint:gochecknoglobals
+var unquotedName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
+
+// newDefaultName returns the identifier of a default name made from idents, quoted like them if it has to be.
+func newDefaultName(name string, idents ...*Ident) *Ident {
+	for _, ident := range idents {
+		if q := ident.QuotationMark; q != "" && !unquotedName.MatchString(name) {
+			return NewRawIdent(q + name + q)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -564,7 +578,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newDefaultName(tableName.StringForDiff()+"_pkey", tableName),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -573,7 +587,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, column.Name),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -613,7 +627,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{ //diff:ignore-line-postgres-cockroach
 				Unique:  true, //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, column.Name),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -625,7 +639,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
 			}
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
+				Name: newDefaultName(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())), tableName, column.Name),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -674,7 +688,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newDefaultName(tableName.StringForDiff()+"_pkey", tableName)
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -731,12 +745,14 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			p.nextToken() // current = COMMA or CLOSE_PAREN
 		}
 		if constraintName == nil {
+			quoted := []*Ident{tableName}
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
 				name += "_" + ident.Ident.StringForDiff()
+				quoted = append(quoted, ident.Ident)
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name, quoted...)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -792,7 +808,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_check"))
+			constraintName = newDefaultName(constraints.unusedName(tableName.StringForDiff()+"_check"), tableName)
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index bc1f654..f523fd7 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -4,6 +4,7 @@ package mysql
 
 import (
 	"fmt"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -37,6 +38,19 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+//nolint:gochecknoglobals
+var unquotedName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+
+// newDefaultName returns the identifier of a default name made from idents, quoted like them if it has to be.
+func newDefaultName(name string, idents ...*Ident) *Ident {
+	for _, ident := range idents {
+		if q := ident.QuotationMark; q != "" && !unquotedName.MatchString(name) {
+			return NewRawIdent(q + name + q)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -572,7 +586,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, column.Name),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -604,7 +618,7 @@ LabelConstraints:
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&IndexConstraint{
 				Unique:  true,
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, column.Name),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -616,7 +630,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
 			}
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
+				Name: newDefaultName(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())), tableName, column.Name),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -714,12 +728,14 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		}
 
 		if constraintName == nil {
+			quoted := []*Ident{tableName}
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
 				name += "_" + ident.Ident.StringForDiff()
+				quoted = append(quoted, ident.Ident)
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name, quoted...)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -769,7 +785,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		}
 		if constraintName == nil {
 			// TODO: handle CONSTRAINT name
-			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_chk"))
+			constraintName = newDefaultName(constraints.unusedName(tableName.StringForDiff()+"_chk"), tableName)
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 4b7ce41..f304926 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -5,6 +5,7 @@ package postgres
 
 import (
 	"fmt"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -38,6 +39,19 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+//nolint:gochecknoglobals
+var unquotedName = regexp.MustCompile(`^[a-z_][a-z0-9_]*$`)
+
+// newDefaultName returns the identifier of a default name made from idents, quoted like them if it has to be.
+func newDefaultName(name string, idents ...*Ident) *Ident {
+	for _, ident := range idents {
+		if q := ident.QuotationMark; q != "" && !unquotedName.MatchString(name) {
+			return NewRawIdent(q + name + q)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -452,7 +466,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = KEY
 			constraints = constraints.Append(&PrimaryKeyConstraint{
-				Name:    NewRawIdent(tableName.StringForDiff() + "_pkey"),
+				Name:    newDefaultName(tableName.StringForDiff()+"_pkey", tableName),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_REFERENCES:
@@ -461,7 +475,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, column.Name),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -500,7 +514,7 @@ LabelConstraints:
 			continue // current = the token following the reference
 		case TOKEN_UNIQUE:
 			constraints = constraints.Append(&UniqueConstraint{ //diff:ignore-line-postgres-cockroach
-				Name:    NewRawIdent(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_unique_%s", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, column.Name),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			})
 		case TOKEN_CHECK:
@@ -512,7 +526,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
 			}
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
+				Name: newDefaultName(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())), tableName, column.Name),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -561,7 +575,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(tableName.StringForDiff() + "_pkey")
+			constraintName = newDefaultName(tableName.StringForDiff()+"_pkey", tableName)
 		}
 		return &PrimaryKeyConstraint{
 			Name:    constraintName,
@@ -618,12 +632,14 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			p.nextToken() // current = COMMA or CLOSE_PAREN
 		}
 		if constraintName == nil {
+			quoted := []*Ident{tableName}
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
 				name += "_" + ident.StringForDiff()
+				quoted = append(quoted, ident.Ident)
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name, quoted...)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -644,11 +660,13 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil { //diff:ignore-line-postgres-cockroach
+			quoted := []*Ident{tableName}
 			name := tableName.StringForDiff() + "_unique" //diff:ignore-line-postgres-cockroach
 			for _, ident := range idents {                //diff:ignore-line-postgres-cockroach
 				name += "_" + ident.StringForDiff() //diff:ignore-line-postgres-cockroach
+				quoted = append(quoted, ident.Ident)
 			} //diff:ignore-line-postgres-cockroach
-			constraintName = NewRawIdent(name) //diff:ignore-line-postgres-cockroach
+			constraintName = newDefaultName(name, quoted...) //diff:ignore-line-postgres-cockroach
 		} //diff:ignore-line-postgres-cockroach
 		c.Name = constraintName
 		c.Columns = idents
@@ -667,7 +685,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_check"))
+			constraintName = newDefaultName(constraints.unusedName(tableName.StringForDiff()+"_check"), tableName)
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
diff --git a/pkg/ddl/spanner/parser.go b/pkg/ddl/spanner/parser.go
index 09eb369..a21f649 100644
--- a/pkg/ddl/spanner/parser.go
+++ b/pkg/ddl/spanner/parser.go
@@ -5,6 +5,7 @@ package spanner
 
 import (
 	"fmt"
+	"regexp"
 	"runtime"
 	"strings"
 
@@ -37,6 +38,19 @@ func NewRawIdent(raw string) *Ident {
 	}
 }
 
+//nolint:gochecknoglobals
+var unquotedName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+
+// newDefaultName returns the identifier of a default name made from idents, quoted like them if it has to be.
+func newDefaultName(name string, idents ...*Ident) *Ident {
+	for _, ident := range idents {
+		if q := ident.QuotationMark; q != "" && !unquotedName.MatchString(name) {
+			return NewRawIdent(q + name + q)
+		}
+	}
+	return NewRawIdent(name)
+}
+
 func NewIdent(name, quotationMark, raw string) *Ident {
 	return &Ident{
 		Name:          name,
@@ -603,7 +617,7 @@ LabelConstraints:
 			}
 			p.nextToken() // current = table_name
 			constraint := &ForeignKeyConstraint{
-				Name:    NewRawIdent(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff())),
+				Name:    newDefaultName(fmt.Sprintf("%s_%s_fkey", tableName.StringForDiff(), column.Name.StringForDiff()), tableName, column.Name),
 				Ref:     NewRawIdent(p.currentToken.Literal.Str),
 				Columns: []*ColumnIdent{{Ident: column.Name}},
 			}
@@ -625,7 +639,7 @@ LabelConstraints:
 				return nil, apperr.Errorf("currentToken=%#v, peekToken=%#v: %w", p.currentToken, p.peekToken, ddl.ErrUnexpectedPeekToken)
 			}
 			constraint := &CheckConstraint{
-				Name: NewRawIdent(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff()))),
+				Name: newDefaultName(constraints.unusedName(fmt.Sprintf("%s_%s_check", tableName.StringForDiff(), column.Name.StringForDiff())), tableName, column.Name),
 			}
 			idents, err := p.parseExpr()
 			if err != nil {
@@ -688,12 +702,14 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
 		if constraintName == nil {
+			quoted := []*Ident{tableName}
 			name := tableName.StringForDiff()
 			for _, ident := range idents {
 				name += "_" + ident.Ident.StringForDiff()
+				quoted = append(quoted, ident.Ident)
 			}
 			name += "_fkey"
-			constraintName = NewRawIdent(name)
+			constraintName = newDefaultName(name, quoted...)
 		}
 		return &ForeignKeyConstraint{
 			Name:       constraintName,
@@ -717,7 +733,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			return nil, apperr.Errorf("parseExpr: %w", err)
 		}
 		if constraintName == nil {
-			constraintName = NewRawIdent(constraints.unusedName(tableName.StringForDiff() + "_chk"))
+			constraintName = newDefaultName(constraints.unusedName(tableName.StringForDiff()+"_chk"), tableName)
 		}
 		constraint.Name = constraintName
 		constraint.Expr = constraint.Expr.Append(idents...)
-- 
2.43.0


From ff860aa0b6bedc25cb255258b0b820c9d3ac46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:51 +0000
Subject: [PATCH 42/59] fix: split and strip comments of the statements to
 apply only outside of quotes

---
 pkg/ddlctl/apply/ddlctl_apply.go      | 19 ++------
 pkg/internal/util/remove_comment.go   | 34 --------------
 pkg/internal/util/split_statements.go | 68 +++++++++++++++++++++++++++
 3 files changed, 72 insertions(+), 49 deletions(-)
 delete mode 100644 pkg/internal/util/remove_comment.go
 create mode 100644 pkg/internal/util/split_statements.go

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index d775fa0..06d69db 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -13,7 +13,6 @@ import (
 	sqlz "github.com/kunitsucom/util.go/database/sql"
 	errorz "github.com/kunitsucom/util.go/errors"
 	"github.com/kunitsucom/util.go/retry"
-	stringz "github.com/kunitsucom/util.go/strings"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/ddl"
@@ -118,7 +117,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
+			util.SplitStatements("--", ddlStr, true),
 			func(err error) bool {
 				return errorz.Contains(err, "already exists") || errorz.Contains(err, "Duplicate column name")
 			},
@@ -130,7 +129,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 		if err := splitExec(
 			ctx,
 			db,
-			ddlStr,
+			util.SplitStatements("--", ddlStr, false),
 			func(_ error) bool { return false }, // TODO: handle error
 			func(_ error) bool { return false }, // TODO: handle error
 		); err != nil {
@@ -152,12 +151,7 @@ func Apply(ctx context.Context, dialect, dsn, ddlStr string) error {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
 		}
-		commentTrimmedDDL := stringz.ReadLine(ddlStr, "\n", stringz.ReadLineFuncRemoveCommentLine("--"))
-		for _, q := range strings.Split(commentTrimmedDDL, ";\n") {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
+		for _, q := range util.SplitStatements("--", ddlStr, true) {
 			if _, err := conn.ExecContext(ctx, q); err != nil {
 				return apperr.Errorf("conn.ExecContext: q=%s: %w", q, err)
 			}
@@ -195,20 +189,15 @@ func splitExec(
 	db interface {
 		ExecContext(ctx context.Context, query string, args ...any) (sql.Result, error)
 	},
-	ddlStr string,
+	ddls []string,
 	notErrorNotLogFunc func(err error) bool,
 	errorNotLogFunc func(err error) bool,
 ) error {
-	ddls := strings.Split(util.RemoveCommentsAndEmptyLines("--", ddlStr), ";\n")
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
 		for _, q := range ddls {
-			if len(q) == 0 {
-				// skip empty query
-				continue
-			}
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
 				if notErrorNotLogFunc(err) {
diff --git a/pkg/internal/util/remove_comment.go b/pkg/internal/util/remove_comment.go
deleted file mode 100644
index bcfb28e..0000000
--- a/pkg/internal/util/remove_comment.go
+++ /dev/null
@@ -1,34 +0,0 @@
-package util
-
-import (
-	"bufio"
-	"strings"
-)
-
-func RemoveCommentsAndEmptyLines(prefix, input string) string {
-	var result strings.Builder
-	scanner := bufio.NewScanner(strings.NewReader(input))
-
-	for scanner.Scan() {
-		line := scanner.Text()
-		trimmedLine := strings.TrimSpace(line)
-
-		// Skip if the entire line is a comment
-		if strings.HasPrefix(trimmedLine, prefix) {
-			continue
-		}
-
-		// Process comments in the line
-		if idx := strings.Index(line, prefix); idx != -1 {
-			line = strings.TrimSpace(line[:idx])
-		}
-
-		// Add only if it is not an empty line
-		if line != "" {
-			result.WriteString(line)
-			result.WriteString("\n")
-		}
-	}
-
-	return result.String()
-}
diff --git a/pkg/internal/util/split_statements.go b/pkg/internal/util/split_statements.go
new file mode 100644
index 0000000..ce730ef
--- /dev/null
+++ b/pkg/internal/util/split_statements.go
@@ -0,0 +1,68 @@
+package util
+
+import "strings"
+
+// SplitStatements splits input into statements at ";" and removes comments that start with commentPrefix and empty lines.
+// What is inside of quotation marks is left as it is.
+func SplitStatements(commentPrefix, input string, backslashEscapes bool) []string {
+	var statements []string
+	var statement, line strings.Builder
+
+	endLine := func() {
+		if l := strings.TrimRight(line.String(), " \t\r"); strings.TrimSpace(l) != "" {
+			if statement.Len() > 0 {
+				statement.WriteString("\n")
+			}
+			statement.WriteString(l)
+		}
+		line.Reset()
+	}
+	endStatement := func() {
+		endLine()
+		if statement.Len() > 0 {
+			statements = append(statements, statement.String())
+		}
+		statement.Reset()
+	}
+
+	for i := 0; i < len(input); {
+		switch ch := input[i]; {
+		case ch == '\'' || ch == '"' || ch == '`':
+			end := quotedEnd(input, i, backslashEscapes)
+			line.WriteString(input[i:end])
+			i = end
+		case strings.HasPrefix(input[i:], commentPrefix):
+			if n := strings.Index(input[i:], "\n"); n >= 0 {
+				i += n
+			} else {
+				i = len(input)
+			}
+		case ch == '\n':
+			endLine()
+			i++
+		case ch == ';':
+			endStatement()
+			i++
+		default:
+			line.WriteByte(ch)
+			i++
+		}
+	}
+	endStatement()
+
+	return statements
+}
+
+// quotedEnd returns the position after the quotation that starts at start.
+func quotedEnd(input string, start int, backslashEscapes bool) int {
+	quote := input[start]
+	for i := start + 1; i < len(input); i++ {
+		switch {
+		case input[i] == '\\' && backslashEscapes && quote != '`':
+			i++
+		case input[i] == quote:
+			return i + 1
+		}
+	}
+	return len(input)
+}
-- 
2.43.0


From c3064addb67ce25246f13eb1c102f5dd5cbed8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:55 +0000
Subject: [PATCH 43/59] fix: apply retries only the statements that failed

---
 pkg/ddlctl/apply/ddlctl_apply.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/ddlctl/apply/ddlctl_apply.go b/pkg/ddlctl/apply/ddlctl_apply.go
index 06d69db..b3358ee 100644
--- a/pkg/ddlctl/apply/ddlctl_apply.go
+++ b/pkg/ddlctl/apply/ddlctl_apply.go
@@ -195,9 +195,12 @@ func splitExec(
 ) error {
 	const interval = 500 * time.Millisecond
 	retryer := retry.New(ctx, retry.NewConfig(interval, interval, retry.WithMaxRetries(len(ddls))))
+	pending := ddls
 	if err := retryer.Do(func(ctx context.Context) error {
 		var outerErr error
-		for _, q := range ddls {
+		var failed []string
+		defer func() { pending = failed }() // NOTE: Only DDLs that failed are retried
+		for _, q := range pending {
 			if _, err := db.ExecContext(ctx, q); err != nil {
 				// If the error is one of the following, do not error and not log. go to the next DDL;
 				if notErrorNotLogFunc(err) {
@@ -206,6 +209,7 @@ func splitExec(
 
 				err = apperr.Errorf("db.ExecContext: q=%s: %w", q, err)
 				outerErr = err
+				failed = append(failed, q)
 				// If the error is one of the following, error but not log. go to the next DDL;
 				if errorNotLogFunc(err) {
 					continue
-- 
2.43.0


From 49c695d0b96fe2a207f2aab97d005d5a6583b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:38 +0000
Subject: [PATCH 44/59] fix: generate reads only comment lines that start with
 the configured tag as annotations

---
 pkg/internal/lang/go/extract_source.go | 2 +-
 pkg/internal/lang/go/parse.go          | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index 92af228..b428b06 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -40,7 +40,7 @@ const (
 
 func DDLTagGoCommentLineRegex() *regexp.Regexp {
 	_DDLTagGoCommentLineRegexOnce.Do(func() {
-		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, config.DDLTagGo()))
+		_DDLTagGoCommentLineRegex = regexp.MustCompile(fmt.Sprintf(_DDLTagGoCommentLineRegexFormat, regexp.QuoteMeta(config.DDLTagGo())))
 	})
 	return _DDLTagGoCommentLineRegex
 }
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 71ff2a9..55394b4 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -117,6 +117,12 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		for _, comment := range comments {
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
+			// NOTE: Only comment lines that start with the DDLTagGo are annotations
+			if !DDLTagGoCommentLineRegex().MatchString(comment) {
+				createTableStmt.Comments = append(createTableStmt.Comments, comment)
+				continue
+			}
+
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
-- 
2.43.0


From 2bd187c0e6ccfe685c009756dcd4922ff25a0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:56 +0000
Subject: [PATCH 45/59] fix: generate reads fields without tag, embedded
 fields, several names in one field and quoted tags

---
 pkg/internal/lang/go/parse.go | 46 +++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 55394b4..0fe9737 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 	"unicode"
 
@@ -162,10 +163,14 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 
 		// columns
 		if r.StructType != nil {
-			for _, field := range r.StructType.Fields.List {
+			for _, field := range taggedFields(r.StructType) {
 				column := &generator.CreateTableColumn{}
 
-				tag := reflect.StructTag(strings.Trim(field.Tag.Value, "`"))
+				tagValue, err := strconv.Unquote(field.Tag.Value)
+				if err != nil {
+					return nil, apperr.Errorf("strconv.Unquote: tag=%s: %w", field.Tag.Value, err)
+				}
+				tag := reflect.StructTag(tagValue)
 
 				// column name
 				switch columnName := tag.Get(config.ColumnTagGo()); columnName {
@@ -238,6 +243,43 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 	return stmts, nil
 }
 
+// taggedFields returns the fields that have a tag, one for each name. The name of an embedded field is the name of its type.
+func taggedFields(structType *ast.StructType) []*ast.Field {
+	fields := make([]*ast.Field, 0)
+	for _, field := range structType.Fields.List {
+		if field.Tag == nil {
+			continue
+		}
+		names := field.Names
+		if len(names) == 0 {
+			names = []*ast.Ident{typeName(field.Type)}
+		}
+		for _, name := range names {
+			fields = append(fields, &ast.Field{Doc: field.Doc, Names: []*ast.Ident{name}, Type: field.Type, Tag: field.Tag, Comment: field.Comment})
+		}
+	}
+	return fields
+}
+
+func typeName(expr ast.Expr) *ast.Ident {
+	switch e := expr.(type) {
+	case *ast.Ident:
+		return e
+	case *ast.StarExpr:
+		return typeName(e.X)
+	case *ast.SelectorExpr:
+		return e.Sel
+	case *ast.IndexExpr:
+		return typeName(e.X)
+	case *ast.IndexListExpr:
+		return typeName(e.X)
+	case *ast.ParenExpr:
+		return typeName(e.X)
+	default:
+		return ast.NewIdent("")
+	}
+}
+
 func extractContainingCommentFromCommentGroup(commentGroup *ast.CommentGroup, sub string) *ast.Comment {
 	for _, commentLine := range commentGroup.List {
 		if strings.Contains(commentLine.Text, sub) {
-- 
2.43.0


From 1934920b763fcdd92e85816913df605339006903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:40 +0000
Subject: [PATCH 46/59] fix: generate reads the lines of block comments

---
 pkg/internal/lang/go/extract_source.go | 28 ++++++++++++++++++++++++--
 pkg/internal/lang/go/parse.go          | 10 +++------
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index b428b06..c55dbac 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -6,7 +6,9 @@ import (
 	"go/ast"
 	"go/token"
 	"regexp"
+	"strings"
 	"sync"
+	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
 
@@ -53,12 +55,12 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 	for commentedNode, commentGroups := range ast.NewCommentMap(fset, f, f.Comments) {
 		for _, commentGroup := range commentGroups {
 		CommentGroupLoop:
-			for _, commentLine := range commentGroup.List {
+			for _, commentLine := range commentLines(fset, commentGroup) {
 				logs.Trace.Printf("commentLine=%s: %s", filepathz.Short(fset.Position(commentGroup.Pos()).String()), commentLine.Text)
 				// NOTE: If the comment line matches the DDLTagGo, it is assumed to be a comment line for the struct.
 				if matches := DDLTagGoCommentLineRegex().FindStringSubmatch(commentLine.Text); len(matches) > _DDLTagGoCommentLineRegexContentIndex {
 					s := &ddlSource{
-						Position:     fset.Position(commentLine.Pos()),
+						Position:     commentLine.Position,
 						CommentGroup: commentGroup,
 					}
 					ast.Inspect(commentedNode, func(node ast.Node) bool {
@@ -88,3 +90,25 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 
 	return ddlSrc, nil
 }
+
+type commentLine struct {
+	Text     string
+	Position token.Position
+}
+
+// commentLines returns the lines of the comment group without comment marks.
+func commentLines(fset *token.FileSet, commentGroup *ast.CommentGroup) []commentLine {
+	lines := make([]commentLine, 0)
+	for _, comment := range commentGroup.List {
+		position := fset.Position(comment.Pos())
+		if strings.HasPrefix(comment.Text, "//") {
+			lines = append(lines, commentLine{Text: strings.TrimLeftFunc(strings.TrimPrefix(comment.Text, "//"), unicode.IsSpace), Position: position})
+			continue
+		}
+		for _, text := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(comment.Text, "/*"), "*/"), "\n") {
+			lines = append(lines, commentLine{Text: strings.TrimSpace(text), Position: position})
+			position.Line++
+		}
+	}
+	return lines
+}
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 0fe9737..ab6ce6f 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -13,10 +13,8 @@ import (
 	"sort"
 	"strconv"
 	"strings"
-	"unicode"
 
 	filepathz "github.com/kunitsucom/util.go/path/filepath"
-	slicez "github.com/kunitsucom/util.go/slices"
 
 	apperr "github.com/kunitsucom/ddlctl/pkg/apperr"
 	"github.com/kunitsucom/ddlctl/pkg/internal/config"
@@ -112,10 +110,8 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		createTableStmt.SourceLine = r.Position.Line
 
 		// CREATE TABLE (or INDEX) / CONSTRAINT / OPTIONS (from comments)
-		comments := slicez.Select(r.CommentGroup.List, func(_ int, comment *ast.Comment) string {
-			return strings.TrimLeftFunc(strings.TrimPrefix(strings.TrimPrefix(strings.TrimPrefix(comment.Text, "//"), "/*"), "*/"), unicode.IsSpace)
-		})
-		for _, comment := range comments {
+		for _, commentLine := range commentLines(fset, r.CommentGroup) {
+			comment := commentLine.Text
 			logs.Debug.Printf("[COMMENT DETECTED]: %s:%d: %s", createTableStmt.SourceFile, createTableStmt.SourceLine, comment)
 
 			// NOTE: Only comment lines that start with the DDLTagGo are annotations
@@ -127,7 +123,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 			// NOTE: CREATE INDEX may be written in CREATE TABLE annotation, so process it here
 			if /* CREATE INDEX */ matches := langutil.StmtRegexCreateIndex.Regex.FindStringSubmatch(comment); len(matches) > langutil.StmtRegexCreateIndex.Index {
 				commentMatchedCreateIndex := comment
-				source := fset.Position(extractContainingCommentFromCommentGroup(r.CommentGroup, commentMatchedCreateIndex).Pos())
+				source := commentLine.Position
 				createIndexStmt := &generator.CreateIndexStmt{
 					Comments:   []string{commentMatchedCreateIndex},
 					SourceFile: source.Filename,
-- 
2.43.0


From 851511bc16293c72dda84950bf0910e6d789abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:59 +0000
Subject: [PATCH 47/59] fix: generate declares a struct once when several
 comments annotate it, in a fixed order

---
 pkg/internal/lang/go/extract_source.go | 20 +++++++++++++++++++-
 pkg/internal/lang/go/parse.go          |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/pkg/internal/lang/go/extract_source.go b/pkg/internal/lang/go/extract_source.go
index c55dbac..28e89cd 100644
--- a/pkg/internal/lang/go/extract_source.go
+++ b/pkg/internal/lang/go/extract_source.go
@@ -6,6 +6,7 @@ import (
 	"go/ast"
 	"go/token"
 	"regexp"
+	"sort"
 	"strings"
 	"sync"
 	"unicode"
@@ -88,7 +89,24 @@ func extractDDLSourceFromDDLTagGo(_ context.Context, fset *token.FileSet, f *ast
 		return nil, apperr.Errorf("go-ddl-tag=%s: %w", config.DDLTagGo(), apperr.ErrDDLTagGoAnnotationNotFoundInSource)
 	}
 
-	return ddlSrc, nil
+	return mergeDDLSource(ddlSrc), nil
+}
+
+// mergeDDLSource sorts the sources by position and merges the sources of the same type into one.
+func mergeDDLSource(ddlSrc []*ddlSource) []*ddlSource {
+	sort.Slice(ddlSrc, func(i, j int) bool { return ddlSrc[i].CommentGroup.Pos() < ddlSrc[j].CommentGroup.Pos() })
+
+	merged := make([]*ddlSource, 0, len(ddlSrc))
+	sources := make(map[*ast.TypeSpec]*ddlSource)
+	for _, s := range ddlSrc {
+		if first, ok := sources[s.TypeSpec]; ok && s.TypeSpec != nil {
+			first.CommentGroup = &ast.CommentGroup{List: append(append([]*ast.Comment{}, first.CommentGroup.List...), s.CommentGroup.List...)}
+			continue
+		}
+		sources[s.TypeSpec] = s
+		merged = append(merged, s)
+	}
+	return merged
 }
 
 type commentLine struct {
diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index ab6ce6f..832015a 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -228,7 +228,7 @@ func parseFile(ctx context.Context, filename string) ([]generator.Stmt, error) {
 		}
 	}
 
-	sort.Slice(stmts, func(i, j int) bool {
+	sort.SliceStable(stmts, func(i, j int) bool {
 		return fmt.Sprintf("%s:%09d", stmts[i].GetSourceFile(), stmts[i].GetSourceLine()) < fmt.Sprintf("%s:%09d", stmts[j].GetSourceFile(), stmts[j].GetSourceLine())
 	})
 
-- 
2.43.0


From f46c0b69b50181d09519e2a77a90638f079bf05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:12 +0000
Subject: [PATCH 48/59] fix: generate and show refuse a wrong number of
 arguments, and generate leaves the destination alone when it fails

---
 pkg/apperr/errors.go                   |  1 +
 pkg/ddlctl/generate/ddlctl_generate.go | 19 +++++++++++++------
 pkg/ddlctl/show/ddlctl_show.go         |  4 ++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/pkg/apperr/errors.go b/pkg/apperr/errors.go
index ea6d128..0a59680 100644
--- a/pkg/apperr/errors.go
+++ b/pkg/apperr/errors.go
@@ -10,6 +10,7 @@ var (
 	ErrCanceled                           = errors.New("canceled")
 	ErrDialectIsEmpty                     = errors.New("dialect is empty")
 	ErrDDLTagGoAnnotationNotFoundInSource = errors.New("go-ddl-tag annotation not found in source")
+	ErrOneArgumentRequired                = errors.New("one argument required")
 	ErrTwoArgumentsRequired               = errors.New("two arguments required")
 	ErrBothArgumentsIsDSN                 = errors.New("both arguments is dsn")
 	ErrBothArgumentsAreNotDSNOrSQLFile    = errors.New("both arguments are not dsn or sql file")
diff --git a/pkg/ddlctl/generate/ddlctl_generate.go b/pkg/ddlctl/generate/ddlctl_generate.go
index ad272d5..b47fe9e 100644
--- a/pkg/ddlctl/generate/ddlctl_generate.go
+++ b/pkg/ddlctl/generate/ddlctl_generate.go
@@ -1,6 +1,7 @@
 package generate
 
 import (
+	"bytes"
 	"context"
 	"io"
 	"os"
@@ -22,6 +23,11 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	const sourceAndDestination = 2
+	if len(args) != sourceAndDestination {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrTwoArgumentsRequired)
+	}
+
 	dialect := config.Dialect()
 	language := config.Language()
 	src := args[0]
@@ -36,14 +42,15 @@ func Command(ctx context.Context, args []string) error {
 		dst = filepath.Join(dst, "ddlctl.gen.sql")
 	}
 
-	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
-	dstFile, err := os.OpenFile(dst, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, rw_r__r__)
-	if err != nil {
-		return apperr.Errorf("os.OpenFile: %w", err)
+	// NOTE: the destination is left as it is if the source cannot be generated
+	buf := new(bytes.Buffer)
+	if err := Generate(ctx, buf, src, dialect, language); err != nil {
+		return apperr.Errorf("fprint: %w", err)
 	}
 
-	if err := Generate(ctx, dstFile, src, dialect, language); err != nil {
-		return apperr.Errorf("fprint: %w", err)
+	const rw_r__r__ = 0o644 //nolint:revive,stylecheck
+	if err := os.WriteFile(dst, buf.Bytes(), rw_r__r__); err != nil {
+		return apperr.Errorf("os.WriteFile: %w", err)
 	}
 	return nil
 }
diff --git a/pkg/ddlctl/show/ddlctl_show.go b/pkg/ddlctl/show/ddlctl_show.go
index 3f5bfc1..f8727f6 100644
--- a/pkg/ddlctl/show/ddlctl_show.go
+++ b/pkg/ddlctl/show/ddlctl_show.go
@@ -26,6 +26,10 @@ func Command(ctx context.Context, args []string) error {
 		return apperr.Errorf("config.Load: %w", err)
 	}
 
+	if len(args) != 1 {
+		return apperr.Errorf("args=%v: %w", args, apperr.ErrOneArgumentRequired)
+	}
+
 	ddl, err := Show(ctx, config.Dialect(), args[0])
 	if err != nil {
 		return apperr.Errorf("diff: %w", err)
-- 
2.43.0


From 4179e1cef6923b22fcc1e1da83b5aa6e274e33ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:59 +0000
Subject: [PATCH 49/59] fix: the MySQL parser accepts commas between table
 options, as generate writes them

---
 pkg/ddl/mysql/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/mysql/parser.go b/pkg/ddl/mysql/parser.go
index f523fd7..2ac005e 100644
--- a/pkg/ddl/mysql/parser.go
+++ b/pkg/ddl/mysql/parser.go
@@ -273,6 +273,10 @@ LabelTableOptions:
 		}
 		createTableStmt.Options = append(createTableStmt.Options, opt)
 		p.nextToken()
+		// NOTE: the options may be separated by commas
+		if p.isCurrentToken(TOKEN_COMMA) && !p.isPeekToken(TOKEN_SEMICOLON, TOKEN_EOF) {
+			p.nextToken()
+		}
 	}
 
 	return createTableStmt, nil
-- 
2.43.0


From 6a54fe21f369b748ce1facffd491f6562915d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:44 +0000
Subject: [PATCH 50/59] fix: the PostgreSQL parser reads TIMESTAMP WITHOUT TIME
 ZONE and casts to it, as the database reports them

---
 pkg/ddl/postgres/parser.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index f304926..569f039 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -385,7 +385,15 @@ LabelDefault:
 				continue
 			}
 			if isDataType(p.currentToken.Type) {
-				def.Value = def.Value.Append(NewRawIdent(p.currentToken.Literal.Str))
+				name := p.currentToken.Literal.Str
+				if p.isCurrentToken(TOKEN_TIMESTAMP) && (p.isPeekToken(TOKEN_WITH) || strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT")) {
+					zone, err := p.parseTimeZone()
+					if err != nil {
+						return nil, apperr.Errorf("parseTimeZone: %w", err)
+					}
+					name += zone
+				}
+				def.Value = def.Value.Append(NewRawIdent(name))
 				p.nextToken()
 				continue
 			}
@@ -721,6 +729,13 @@ func (p *Parser) parseDataType() (*DataType, error) {
 			dataType.Type = TOKEN_TIMESTAMP_WITH_TIME_ZONE //diff:ignore-line-postgres-cockroach
 		} else {
 			dataType.Type = TOKEN_TIMESTAMP
+			if strings.EqualFold(p.peekToken.Literal.Str, "WITHOUT") { // TIMESTAMP is an alias of TIMESTAMP WITHOUT TIME ZONE
+				zone, err := p.parseTimeZone()
+				if err != nil {
+					return nil, apperr.Errorf("parseTimeZone: %w", err)
+				}
+				dataType.Name += zone
+			}
 		}
 	case TOKEN_DOUBLE:
 		dataType.Name = p.currentToken.Literal.String()
@@ -761,6 +776,20 @@ func (p *Parser) parseDataType() (*DataType, error) {
 	return dataType, nil
 }
 
+// parseTimeZone reads the rest of TIMESTAMP [WITH|WITHOUT] TIME ZONE.
+func (p *Parser) parseTimeZone() (string, error) {
+	p.nextToken() // current = WITH or WITHOUT
+	zone := " " + p.currentToken.Literal.String()
+	for _, tokenType := range []TokenType{TOKEN_TIME, TOKEN_ZONE} {
+		if err := p.checkPeekToken(tokenType); err != nil {
+			return "", apperr.Errorf("checkPeekToken: %w", err)
+		}
+		p.nextToken() // current = TIME or ZONE
+		zone += " " + p.currentToken.Literal.String()
+	}
+	return zone, nil
+}
+
 func (p *Parser) parseColumnIdents() ([]*ColumnIdent, error) {
 	idents := make([]*ColumnIdent, 0)
 
-- 
2.43.0


From 5e741afb759e3eeebaccb3d66d7450c63904e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:55 +0000
Subject: [PATCH 51/59] fix: show reports a PostgreSQL schema with its
 references, CHECK constraints and numeric precision, and without its views

---
 pkg/show/postgres/show_create_all_tables.go | 50 ++++++++++++++++-----
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/pkg/show/postgres/show_create_all_tables.go b/pkg/show/postgres/show_create_all_tables.go
index a531a92..e423f59 100644
--- a/pkg/show/postgres/show_create_all_tables.go
+++ b/pkg/show/postgres/show_create_all_tables.go
@@ -27,7 +27,8 @@ FROM
             c.table_schema,
             c.table_name,
             string_agg(
-                c.column_name || ' ' || c.data_type ||
+                quote_ident(c.column_name) || ' ' || c.data_type ||
+                (CASE WHEN c.data_type = 'numeric' AND c.numeric_precision IS NOT NULL THEN '(' || c.numeric_precision || ', ' || c.numeric_scale || ')' ELSE '' END) ||
                 (CASE WHEN c.character_maximum_length IS NOT NULL THEN '(' || c.character_maximum_length || ')' ELSE '' END) ||
                 (CASE WHEN c.is_nullable = 'NO' THEN ' NOT NULL' ELSE '' END) ||
                 (CASE WHEN c.column_default IS NOT NULL THEN ' DEFAULT ' || c.column_default ELSE '' END),
@@ -35,8 +36,10 @@ FROM
             ) AS column_defs
         FROM
             information_schema.columns c
+        JOIN
+            information_schema.tables t ON c.table_schema = t.table_schema AND c.table_name = t.table_name
         WHERE
-            c.table_schema = '%s'
+            c.table_schema = '%s' AND t.table_type = 'BASE TABLE'
         GROUP BY
             c.table_schema, c.table_name
     ) clmn
@@ -47,30 +50,53 @@ LEFT JOIN
             tc.table_schema,
             tc.table_name,
             string_agg(
-                'CONSTRAINT ' || tc.constraint_name || ' ' || tc.constraint_type || ' (' || kcu.column_names || ')' ||
-                (CASE WHEN rc.update_rule IS NOT NULL THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
-                (CASE WHEN rc.delete_rule IS NOT NULL THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
-                ',' || E'\n' || '  '
+                'CONSTRAINT ' || quote_ident(tc.constraint_name) || ' ' || tc.constraint_type ||
+                (CASE WHEN tc.constraint_type = 'CHECK' THEN ' ' || cc.check_clause ELSE ' (' || kcu.column_names || ')' END) ||
+                (CASE WHEN ref.column_names IS NOT NULL THEN ' REFERENCES ' || ref.table_schema || '.' || ref.table_name || ' (' || ref.column_names || ')' ELSE '' END) ||
+                (CASE WHEN rc.update_rule <> 'NO ACTION' THEN ' ON UPDATE ' || rc.update_rule ELSE '' END) ||
+                (CASE WHEN rc.delete_rule <> 'NO ACTION' THEN ' ON DELETE ' || rc.delete_rule ELSE '' END),
+                ',' || E'\n' || '  ' ORDER BY tc.constraint_name
             ) AS constraint_defs
         FROM
             information_schema.table_constraints tc
-        JOIN
+        LEFT JOIN
             (
                 -- CONSTRAINT COLUMN NAMES
                 SELECT
                     kcu.table_schema,
                     kcu.table_name,
                     kcu.constraint_name,
-                    string_agg(kcu.column_name, ', ' ORDER BY kcu.ordinal_position) AS column_names
+                    string_agg(quote_ident(kcu.column_name), ', ' ORDER BY kcu.ordinal_position) AS column_names
                 FROM
                     information_schema.key_column_usage kcu
                 GROUP BY
                     kcu.table_schema, kcu.table_name, kcu.constraint_name
             ) kcu ON tc.table_schema = kcu.table_schema AND tc.table_name = kcu.table_name AND tc.constraint_name = kcu.constraint_name
         LEFT JOIN
-            information_schema.referential_constraints rc ON tc.constraint_name = rc.constraint_name
+            information_schema.referential_constraints rc ON tc.constraint_schema = rc.constraint_schema AND tc.constraint_name = rc.constraint_name AND tc.constraint_type = 'FOREIGN KEY'
+        LEFT JOIN
+            (
+                -- REFERENCED TABLE AND COLUMN NAMES
+                SELECT
+                    kcu.constraint_schema,
+                    kcu.constraint_name,
+                    rkcu.table_schema,
+                    rkcu.table_name,
+                    string_agg(quote_ident(rkcu.column_name), ', ' ORDER BY kcu.ordinal_position) AS column_names
+                FROM
+                    information_schema.referential_constraints rc
+                JOIN
+                    information_schema.key_column_usage kcu ON rc.constraint_schema = kcu.constraint_schema AND rc.constraint_name = kcu.constraint_name
+                JOIN
+                    information_schema.key_column_usage rkcu ON rc.unique_constraint_schema = rkcu.constraint_schema AND rc.unique_constraint_name = rkcu.constraint_name AND kcu.position_in_unique_constraint = rkcu.ordinal_position
+                GROUP BY
+                    kcu.constraint_schema, kcu.constraint_name, rkcu.table_schema, rkcu.table_name
+            ) ref ON rc.constraint_schema = ref.constraint_schema AND rc.constraint_name = ref.constraint_name
+        LEFT JOIN
+            -- NOTE: the clause of a NOT NULL constraint has no parentheses
+            information_schema.check_constraints cc ON tc.constraint_schema = cc.constraint_schema AND tc.constraint_name = cc.constraint_name AND cc.check_clause LIKE '(%%'
         WHERE
-            tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE')
+            tc.constraint_type IN ('PRIMARY KEY', 'FOREIGN KEY', 'UNIQUE') OR (tc.constraint_type = 'CHECK' AND cc.check_clause IS NOT NULL)
         GROUP BY
             tc.table_schema, tc.table_name
     ) cnst ON clmn.table_schema = cnst.table_schema AND clmn.table_name = cnst.table_name
@@ -101,8 +127,10 @@ WHERE
     schemaname = '%s' AND indexname NOT IN (
         SELECT constraint_name
         FROM information_schema.table_constraints
-        WHERE table_schema = '%s'
+        WHERE constraint_type IN ('PRIMARY KEY', 'UNIQUE') AND table_schema = '%s'
     )
+ORDER BY
+    tablename, indexname
 ;
 `
 )
-- 
2.43.0


From f26f69a87926ba8df429c5e5147300c4b87e3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:12 +0000
Subject: [PATCH 52/59] fix: show reports a Spanner schema with the columns and
 ordering of each key and the interleaving of its tables

---
 pkg/show/spanner/show_create_all_tables.go | 44 +++++++++++++++++-----
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/pkg/show/spanner/show_create_all_tables.go b/pkg/show/spanner/show_create_all_tables.go
index f72f9ed..9477aaa 100644
--- a/pkg/show/spanner/show_create_all_tables.go
+++ b/pkg/show/spanner/show_create_all_tables.go
@@ -18,11 +18,13 @@ type sqlQueryerContext = interface {
 }
 
 const (
-	querySelectTableName = `SELECT TABLE_NAME FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '';`
+	querySelectTableName = `SELECT TABLE_NAME, PARENT_TABLE_NAME, ON_DELETE_ACTION FROM INFORMATION_SCHEMA.TABLES WHERE TABLE_SCHEMA = '' AND TABLE_TYPE = 'BASE TABLE';`
 )
 
 type informationSchemaTable struct {
-	TableName string `db:"TABLE_NAME"`
+	TableName       string  `db:"TABLE_NAME"`
+	ParentTableName *string `db:"PARENT_TABLE_NAME"`
+	OnDeleteAction  *string `db:"ON_DELETE_ACTION"`
 }
 
 const (
@@ -35,7 +37,7 @@ type informationSchemaTableOptionRowDeletionPolicy struct {
 }
 
 const (
-	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
+	queryShowCreateAllTables = `SELECT TABLE_NAME, COLUMN_NAME, COLUMN_DEFAULT, IS_NULLABLE, SPANNER_TYPE FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? ORDER BY TABLE_NAME, ORDINAL_POSITION;`
 )
 
 type informationSchemaColumn struct {
@@ -58,7 +60,7 @@ func (c *informationSchemaColumn) String() string {
 }
 
 const (
-	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_NAME = ?;`
+	queryShowTableColumnOptions = `SELECT COLUMN_NAME, OPTION_NAME, OPTION_VALUE FROM INFORMATION_SCHEMA.COLUMN_OPTIONS WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ?;`
 )
 
 type informationSchemaColumnOption struct {
@@ -84,9 +86,11 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
 WHERE
-    i.TABLE_NAME = ?
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ?
     AND i.INDEX_TYPE = "PRIMARY_KEY"
     AND ic.INDEX_TYPE = "PRIMARY_KEY"
 ORDER BY
@@ -95,6 +99,9 @@ ORDER BY
 `
 )
 
+// orderingDesc is the COLUMN_ORDERING of a descending key column.
+const orderingDesc = "DESC"
+
 type informationSchemaPrimaryKey struct {
 	// INDEXES https://cloud.google.com/spanner/docs/information-schema?hl=ja#indexes
 	// INDEX_COLUMNS https://cloud.google.com/spanner/docs/information-schema?hl=ja#index_columns
@@ -106,7 +113,7 @@ type informationSchemaPrimaryKey struct {
 }
 
 const (
-	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY";`
+	querySelectIndexes = `SELECT DISTINCT INDEX_NAME, IS_UNIQUE FROM INFORMATION_SCHEMA.INDEXES WHERE TABLE_SCHEMA = '' AND TABLE_NAME = ? AND INDEX_TYPE != "PRIMARY_KEY" AND SPANNER_IS_MANAGED = FALSE;`
 )
 
 type informationSchemaIndexName struct {
@@ -127,9 +134,13 @@ FROM
 INNER JOIN
     INFORMATION_SCHEMA.INDEX_COLUMNS AS ic
 ON
-    i.TABLE_NAME = ic.TABLE_NAME
+    i.TABLE_SCHEMA = ic.TABLE_SCHEMA
+    AND i.TABLE_NAME = ic.TABLE_NAME
+    AND i.INDEX_NAME = ic.INDEX_NAME
 WHERE
-    i.TABLE_NAME = ? 
+    i.TABLE_SCHEMA = ''
+    AND i.TABLE_NAME = ? 
+    AND i.INDEX_NAME = ? 
     AND i.INDEX_TYPE != "PRIMARY_KEY" 
     AND ic.INDEX_NAME != "PRIMARY_KEY" 
 ORDER BY
@@ -237,6 +248,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			primaryKeyColumnsLastIndex := len(primaryKeyColumns) - 1
 			for i, pk := range primaryKeyColumns {
 				d += pk.ColumnName
+				if pk.ColumnOrdering == orderingDesc {
+					d += " DESC"
+				}
 				if i != primaryKeyColumnsLastIndex {
 					d += ", "
 				}
@@ -244,6 +258,13 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			d += ")"
 		}
 
+		if tbl.ParentTableName != nil && *tbl.ParentTableName != "" {
+			d += fmt.Sprintf(",\nINTERLEAVE IN PARENT %s", *tbl.ParentTableName)
+			if tbl.OnDeleteAction != nil && *tbl.OnDeleteAction == "CASCADE" {
+				d += " ON DELETE CASCADE"
+			}
+		}
+
 		tableOptionRowDeletionPolicy := make([]*informationSchemaTableOptionRowDeletionPolicy, 0)
 		if err := dbz.QueryContext(ctx, &tableOptionRowDeletionPolicy, querySelectTableOptionRowDeletionPolicy, tbl.TableName); err != nil {
 			return "", apperr.Errorf("dbz.QueryContext: %w", err)
@@ -268,7 +289,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 
 		for _, indexName := range indexNames {
 			indexes := make([]*informationSchemaIndex, 0)
-			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName); err != nil {
+			if err := dbz.QueryContext(ctx, &indexes, queryShowIndexes, tbl.TableName, indexName.IndexName); err != nil {
 				return "", apperr.Errorf("dbz.QueryContext: %w", err)
 			}
 
@@ -281,6 +302,9 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 			indexesLastIndex := len(indexes) - 1
 			for i, idx := range indexes {
 				d += idx.ColumnName
+				if idx.ColumnOrdering == orderingDesc {
+					d += " DESC"
+				}
 				if i != indexesLastIndex {
 					d += ", "
 				}
-- 
2.43.0


From 59e119942e68afdd9676cbc7f4dd547e3e9d2587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:16 +0000
Subject: [PATCH 53/59] fix: show reports the tables of a MySQL database that
 has views

---
 pkg/show/mysql/show_create_all_tables.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/show/mysql/show_create_all_tables.go b/pkg/show/mysql/show_create_all_tables.go
index a78e141..6c1c942 100644
--- a/pkg/show/mysql/show_create_all_tables.go
+++ b/pkg/show/mysql/show_create_all_tables.go
@@ -52,7 +52,7 @@ func ShowCreateAllTables(ctx context.Context, db sqlQueryerContext, opts ...Show
 	}
 
 	tableNames := new([]*TableName)
-	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_SCHEMA = " + databaseQuoted
+	tableNamesQuery := "SELECT TABLE_NAME FROM information_schema.TABLES WHERE TABLE_TYPE = 'BASE TABLE' AND TABLE_SCHEMA = " + databaseQuoted
 	if err := dbz.QueryContext(ctx, tableNames, tableNamesQuery); err != nil {
 		return "", apperr.Errorf("dbz.QueryContext: q=%s: %w", tableNamesQuery, err)
 	}
-- 
2.43.0


From cc637d664adaae38dad93cce8fa79c8c574a3971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:38 +0000
Subject: [PATCH 54/59] fix: the PostgreSQL parser reads a default cast to
 DOUBLE PRECISION

---
 pkg/ddl/postgres/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 569f039..51ba938 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -393,6 +393,10 @@ LabelDefault:
 					}
 					name += zone
 				}
+				if p.isCurrentToken(TOKEN_DOUBLE) && p.isPeekToken(TOKEN_PRECISION) {
+					p.nextToken() // current = PRECISION
+					name += " " + p.currentToken.Literal.Str
+				}
 				def.Value = def.Value.Append(NewRawIdent(name))
 				p.nextToken()
 				continue
-- 
2.43.0


From 85ea507e0f983f33198af03ba6a991234d4d26e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:56 +0000
Subject: [PATCH 55/59] fix: generate reads a source directory that is given as
 a symbolic link

---
 pkg/internal/lang/go/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/internal/lang/go/parse.go b/pkg/internal/lang/go/parse.go
index 832015a..6e596e3 100644
--- a/pkg/internal/lang/go/parse.go
+++ b/pkg/internal/lang/go/parse.go
@@ -42,7 +42,8 @@ func Parse(ctx context.Context, src string) (*generator.DDL, error) {
 	ddl := generator.NewDDL(ctx)
 
 	if info.IsDir() {
-		if err := filepath.WalkDir(sourceAbs, walkDirFn(ctx, ddl)); err != nil {
+		// NOTE: filepath.WalkDir does not follow a root that is a symbolic link, the trailing separator makes it do so
+		if err := filepath.WalkDir(sourceAbs+string(filepath.Separator), walkDirFn(ctx, ddl)); err != nil {
 			return nil, apperr.Errorf("filepath.WalkDir: %w", err)
 		}
 
-- 
2.43.0


From ee600ea85d19643c2cb8b1858d735e7e758a34f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:16 +0000
Subject: [PATCH 56/59] fix: postgres and cockroachdb foreign keys accept both
 ON DELETE and ON UPDATE

---
 pkg/ddl/cockroachdb/parser.go | 20 +++++++++-----------
 pkg/ddl/postgres/parser.go    | 20 +++++++++-----------
 2 files changed, 18 insertions(+), 22 deletions(-)

diff --git a/pkg/ddl/cockroachdb/parser.go b/pkg/ddl/cockroachdb/parser.go
index be4b945..d6d32ed 100644
--- a/pkg/ddl/cockroachdb/parser.go
+++ b/pkg/ddl/cockroachdb/parser.go
@@ -596,9 +596,7 @@ LabelConstraints:
 			if err != nil {
 				return nil, apperr.Errorf("parseColumnIdents: %w", err)
 			}
-			// TODO: support ON DELETE, ON UPDATE
-			//nolint:nestif
-			if p.isCurrentToken(TOKEN_ON) {
+			for i := 0; i < 2 && p.isCurrentToken(TOKEN_ON); i++ { // ON DELETE and ON UPDATE
 				onAction := p.currentToken.Literal.String() // current = ON
 				p.nextToken()                               // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
@@ -617,7 +615,7 @@ LabelConstraints:
 					p.nextToken()                                     // current = ACTION
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction = strings.TrimSpace(constraint.OnAction + " " + onAction)
 				p.nextToken()
 			}
 			constraint.RefColumns = idents
@@ -721,11 +719,10 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if err != nil {
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
-		// TODO: support ON DELETE, ON UPDATE
-		var onAction string
-		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+		var onActions string
+		for i := 0; i < 2 && p.isCurrentToken(TOKEN_ON); i++ { // ON DELETE and ON UPDATE
+			onAction := p.currentToken.Literal.String() // current = ON
+			p.nextToken()                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
@@ -742,7 +739,8 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
-			p.nextToken() // current = COMMA or CLOSE_PAREN
+			onActions = strings.TrimSpace(onActions + " " + onAction)
+			p.nextToken() // current = ON, COMMA or CLOSE_PAREN
 		}
 		if constraintName == nil {
 			quoted := []*Ident{tableName}
@@ -759,7 +757,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			Columns:    idents,
 			Ref:        refName,
 			RefColumns: identsRef,
-			OnAction:   onAction,
+			OnAction:   onActions,
 		}, nil
 
 	case TOKEN_UNIQUE, TOKEN_INDEX: //diff:ignore-line-postgres-cockroach
diff --git a/pkg/ddl/postgres/parser.go b/pkg/ddl/postgres/parser.go
index 51ba938..9130964 100644
--- a/pkg/ddl/postgres/parser.go
+++ b/pkg/ddl/postgres/parser.go
@@ -496,9 +496,7 @@ LabelConstraints:
 			if err != nil {
 				return nil, apperr.Errorf("parseColumnIdents: %w", err)
 			}
-			// TODO: support ON DELETE, ON UPDATE
-			//nolint:nestif
-			if p.isCurrentToken(TOKEN_ON) {
+			for i := 0; i < 2 && p.isCurrentToken(TOKEN_ON); i++ { // ON DELETE and ON UPDATE
 				onAction := p.currentToken.Literal.String() // current = ON
 				p.nextToken()                               // current = DELETE or UPDATE
 				if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
@@ -517,7 +515,7 @@ LabelConstraints:
 					p.nextToken()                                     // current = ACTION
 					onAction += " " + p.currentToken.Literal.String() // current = ACTION
 				}
-				constraint.OnAction = onAction
+				constraint.OnAction = strings.TrimSpace(constraint.OnAction + " " + onAction)
 				p.nextToken()
 			}
 			constraint.RefColumns = idents
@@ -620,11 +618,10 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 		if err != nil {
 			return nil, apperr.Errorf("parseColumnIdents: %w", err)
 		}
-		// TODO: support ON DELETE, ON UPDATE
-		var onAction string
-		if p.isCurrentToken(TOKEN_ON) {
-			onAction = p.currentToken.Literal.String() // current = ON
-			p.nextToken()                              // current = DELETE or UPDATE
+		var onActions string
+		for i := 0; i < 2 && p.isCurrentToken(TOKEN_ON); i++ { // ON DELETE and ON UPDATE
+			onAction := p.currentToken.Literal.String() // current = ON
+			p.nextToken()                               // current = DELETE or UPDATE
 			if err := p.checkCurrentToken(TOKEN_DELETE, TOKEN_UPDATE); err != nil {
 				return nil, apperr.Errorf("checkCurrentToken: %w", err)
 			}
@@ -641,7 +638,8 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 				}
 				onAction += " " + p.currentToken.Literal.String() // current = ACTION
 			}
-			p.nextToken() // current = COMMA or CLOSE_PAREN
+			onActions = strings.TrimSpace(onActions + " " + onAction)
+			p.nextToken() // current = ON, COMMA or CLOSE_PAREN
 		}
 		if constraintName == nil {
 			quoted := []*Ident{tableName}
@@ -658,7 +656,7 @@ func (p *Parser) parseTableConstraint(tableName *Ident, constraints Constraints)
 			Columns:    idents,
 			Ref:        refName,
 			RefColumns: identsRef,
-			OnAction:   onAction,
+			OnAction:   onActions,
 		}, nil
 
 	case TOKEN_UNIQUE: //diff:ignore-line-postgres-cockroach
-- 
2.43.0


From 3cd2a75c1ad3f03e9b3a9b31b8011d7614f540e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:56 +0000
Subject: [PATCH 57/59] fix: the order of ON DELETE and ON UPDATE is not a
 difference

---
 pkg/ddl/cockroachdb/ddl_table.go |  4 +---
 pkg/ddl/internal/util.go         | 13 +++++++++++++
 pkg/ddl/mysql/ddl_table.go       |  4 +---
 pkg/ddl/postgres/ddl_table.go    |  4 +---
 4 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/pkg/ddl/cockroachdb/ddl_table.go b/pkg/ddl/cockroachdb/ddl_table.go
index 1392a12..df426c2 100644
--- a/pkg/ddl/cockroachdb/ddl_table.go
+++ b/pkg/ddl/cockroachdb/ddl_table.go
@@ -147,9 +147,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	if c.OnAction != "" {
-		str += " " + strings.ToUpper(c.OnAction)
-	}
+	str += internal.ReferentialActions(c.OnAction)
 	return str
 }
 
diff --git a/pkg/ddl/internal/util.go b/pkg/ddl/internal/util.go
index c005ef5..2783bf8 100644
--- a/pkg/ddl/internal/util.go
+++ b/pkg/ddl/internal/util.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 )
 
@@ -31,3 +32,15 @@ func ExprKeyword(name string) string {
 		return name
 	}
 }
+
+// ReferentialActions returns the actions of a foreign key in the order ON DELETE, ON UPDATE.
+func ReferentialActions(onAction string) string {
+	actions := make([]string, 0)
+	for _, action := range strings.Split(" "+strings.ToUpper(onAction), " ON ") {
+		if action != "" {
+			actions = append(actions, " ON "+action)
+		}
+	}
+	sort.Strings(actions)
+	return strings.Join(actions, "")
+}
diff --git a/pkg/ddl/mysql/ddl_table.go b/pkg/ddl/mysql/ddl_table.go
index 14101cf..30936d8 100644
--- a/pkg/ddl/mysql/ddl_table.go
+++ b/pkg/ddl/mysql/ddl_table.go
@@ -149,9 +149,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	if c.OnAction != "" {
-		str += " " + strings.ToUpper(c.OnAction)
-	}
+	str += internal.ReferentialActions(c.OnAction)
 	return str
 }
 
diff --git a/pkg/ddl/postgres/ddl_table.go b/pkg/ddl/postgres/ddl_table.go
index 7f5035a..98bd668 100644
--- a/pkg/ddl/postgres/ddl_table.go
+++ b/pkg/ddl/postgres/ddl_table.go
@@ -135,9 +135,7 @@ func (c *ForeignKeyConstraint) StringForDiff() string {
 		str += v.StringForDiff()
 	}
 	str += ")"
-	if c.OnAction != "" {
-		str += " " + strings.ToUpper(c.OnAction)
-	}
+	str += internal.ReferentialActions(c.OnAction)
 	return str
 }
 
-- 
2.43.0


From e45435436b6b8c404ffe3000273f6808e69cb0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:01 +0000
Subject: [PATCH 58/59] fix: DiffCreateTable drops a changed index before a
 column it depends on

---
 pkg/ddl/cockroachdb/diff_create_table.go | 27 ++++++++++++------------
 pkg/ddl/mysql/diff_create_table.go       | 27 ++++++++++++------------
 2 files changed, 26 insertions(+), 28 deletions(-)

diff --git a/pkg/ddl/cockroachdb/diff_create_table.go b/pkg/ddl/cockroachdb/diff_create_table.go
index 6795e86..8316fba 100644
--- a/pkg/ddl/cockroachdb/diff_create_table.go
+++ b/pkg/ddl/cockroachdb/diff_create_table.go
@@ -107,21 +107,20 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				case *IndexConstraint: //diff:ignore-line-postgres-cockroach
 					// DROP INDEX index_name;                               //diff:ignore-line-postgres-cockroach
 					// CREATE INDEX index_name ON table_name (column_name); //diff:ignore-line-postgres-cockroach
-					result.Stmts = append( //diff:ignore-line-postgres-cockroach
-						result.Stmts, //diff:ignore-line-postgres-cockroach
-						&DropIndexStmt{ //diff:ignore-line-postgres-cockroach
+					if !dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) { //diff:ignore-line-postgres-cockroach
+						result.Stmts = append(result.Stmts, &DropIndexStmt{ //diff:ignore-line-postgres-cockroach
 							Comment: simplediff.Diff(beforeConstraint.String(), afterConstraint.String()).String(), //diff:ignore-line-postgres-cockroach
 							Name:    beforeConstraint.GetName(),                                                    //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-						&CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
-							Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
-							Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
-							TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
-							UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
-							Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
-							UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
-						}, //diff:ignore-line-postgres-cockroach
-					) //diff:ignore-line-postgres-cockroach
+						}) //diff:ignore-line-postgres-cockroach
+					} //diff:ignore-line-postgres-cockroach
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{ //diff:ignore-line-postgres-cockroach
+						Unique:           ac.Unique,           //diff:ignore-line-postgres-cockroach
+						Name:             ac.GetName(),        //diff:ignore-line-postgres-cockroach
+						TableName:        after.Name,          //diff:ignore-line-postgres-cockroach
+						UsingPreColumns:  ac.UsingPreColumns,  //diff:ignore-line-postgres-cockroach
+						Columns:          ac.Columns,          //diff:ignore-line-postgres-cockroach
+						UsingPostColumns: ac.UsingPostColumns, //diff:ignore-line-postgres-cockroach
+					}) //diff:ignore-line-postgres-cockroach
 				default: //diff:ignore-line-postgres-cockroach
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
@@ -273,7 +272,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 // dropsBeforeColumns reports whether a changed constraint has to be dropped before the columns are altered,
 // because a column it may depend on is dropped or becomes nullable.
 func dropsBeforeColumns(beforeConstraint, afterConstraint Constraint, before, after *CreateTableStmt) bool {
-	if _, ok := beforeConstraint.(*IndexConstraint); ok || beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
+	if beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
 		return false
 	}
 	for _, beforeColumn := range before.Columns {
diff --git a/pkg/ddl/mysql/diff_create_table.go b/pkg/ddl/mysql/diff_create_table.go
index 0e123c3..6543d4e 100644
--- a/pkg/ddl/mysql/diff_create_table.go
+++ b/pkg/ddl/mysql/diff_create_table.go
@@ -110,24 +110,23 @@ func DiffCreateTable(before, after *CreateTableStmt, opts ...DiffCreateTableOpti
 				case *IndexConstraint:
 					// DROP INDEX index_name;
 					// CREATE INDEX index_name ON table_name (column_name);
-					result.Stmts = append(
-						result.Stmts,
-						&DropIndexStmt{
+					if !dropsBeforeColumns(beforeConstraint, afterConstraint, before, after) {
+						result.Stmts = append(result.Stmts, &DropIndexStmt{
 							Name: &ObjectName{
 								Schema: before.Name.Schema,
 								Name:   beforeConstraint.GetName(),
 							},
+						})
+					}
+					result.Stmts = append(result.Stmts, &CreateIndexStmt{
+						Unique: ac.Unique,
+						Name: &ObjectName{
+							Schema: after.Name.Schema,
+							Name:   ac.GetName(),
 						},
-						&CreateIndexStmt{
-							Unique: ac.Unique,
-							Name: &ObjectName{
-								Schema: after.Name.Schema,
-								Name:   ac.GetName(),
-							},
-							TableName: after.Name,
-							Columns:   ac.Columns,
-						},
-					)
+						TableName: after.Name,
+						Columns:   ac.Columns,
+					})
 				default:
 					// ALTER TABLE table_name DROP CONSTRAINT constraint_name;
 					// ALTER TABLE table_name ADD CONSTRAINT constraint_name constraint;
@@ -298,7 +297,7 @@ func (config *DiffCreateTableConfig) diffCreateTableColumn(ddls *DDL, before, af
 // dropsBeforeColumns reports whether a changed constraint has to be dropped before the columns are altered,
 // because a column it may depend on is dropped or becomes nullable.
 func dropsBeforeColumns(beforeConstraint, afterConstraint Constraint, before, after *CreateTableStmt) bool {
-	if _, ok := beforeConstraint.(*IndexConstraint); ok || beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
+	if beforeConstraint.StringForDiff() == afterConstraint.StringForDiff() {
 		return false
 	}
 	for _, beforeColumn := range before.Columns {
-- 
2.43.0


From 035e084b4c8cfc741034ac3a055bd71ba52616ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:23 +0000
Subject: [PATCH 59/59] fix: a spanner table that is rebuilt takes the tables
 interleaved in it along

---
 pkg/ddl/spanner/diff.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/pkg/ddl/spanner/diff.go b/pkg/ddl/spanner/diff.go
index 07273df..1e77779 100644
--- a/pkg/ddl/spanner/diff.go
+++ b/pkg/ddl/spanner/diff.go
@@ -168,9 +168,33 @@ func findRebuilds(before, after *DDL) map[string]*DDL {
 			}
 		}
 	}
+	// A table cannot be dropped while others are interleaved in it.
+	for found := true; found; {
+		found = false
+		for _, stmt := range before.Stmts {
+			beforeStmt, ok := stmt.(*CreateTableStmt)
+			if !ok || rebuilds[beforeStmt.GetNameForDiff()] != nil || rebuilds[interleaveParent(beforeStmt)] == nil {
+				continue
+			}
+			if afterStmt, ok := findStmtByTypeAndName(beforeStmt, after.Stmts).(*CreateTableStmt); ok {
+				rebuilds[beforeStmt.GetNameForDiff()] = &DDL{Stmts: []Stmt{&DropTableStmt{Name: beforeStmt.Name}, afterStmt}}
+				found = true
+			}
+		}
+	}
 	return rebuilds
 }
 
+// interleaveParent returns the name of the table in which table is interleaved.
+func interleaveParent(table *CreateTableStmt) string {
+	for _, option := range table.Options {
+		if option.Name == "INTERLEAVE IN PARENT" && option.Value != nil && len(option.Value.Idents) > 0 {
+			return NewObjectName(option.Value.Idents[0].Raw).StringForDiff()
+		}
+	}
+	return ""
+}
+
 // rebuildForeignKeys returns the statements that drop and add again the unchanged foreign keys that reference tables to be rebuilt.
 func rebuildForeignKeys(before, after *CreateTableStmt, rebuilds map[string]*DDL) (dropFKs, addFKs []Stmt) {
 	for _, constraint := range before.Constraints {
-- 
2.43.0

