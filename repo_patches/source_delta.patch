From 4b0b0d106658b8de51574d9b580ba5d5e4afec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 01/20] fix: a top-level empty statement is recorded once and
 never as a nil element

---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..9b9999b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -165,7 +165,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From 6fd3acca1dfb8b574bf735480cd3d8ab39759d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:29 +0000
Subject: [PATCH 02/20] fix: a malformed field or enum value ending in ';' is
 no longer taken for an empty statement

---
 parser/enum.go    | 42 ++++++++--------------------------
 parser/extend.go  | 42 ++++++++--------------------------
 parser/message.go | 58 +++++++++++++----------------------------------
 3 files changed, 36 insertions(+), 106 deletions(-)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..14c9ce7 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseEnumBodyStatementErr struct {
-	parseEnumFieldErr      error
-	parseEmptyStatementErr error
-}
-
-func (e *parseEnumBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseEnumFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // EnumValueOption is an option of a enumField.
 type EnumValueOption struct {
 	OptionName string
@@ -197,25 +182,18 @@ func (p *Parser) parseEnumBody() (
 			}
 			reserved.Comments = comments
 			stmt = reserved
-		default:
-			enumField, enumFieldErr := p.parseEnumField()
-			if enumFieldErr == nil {
-				enumField.Comments = comments
-				stmt = enumField
-				break
-			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
+		case scanner.TSEMICOLON:
+			if err := p.lex.ReadEmptyStatement(); err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
-
-			return nil, nil, scanner.Position{}, &parseEnumBodyStatementErr{
-				parseEnumFieldErr:      enumFieldErr,
-				parseEmptyStatementErr: emptyErr,
+			stmt = &EmptyStatement{}
+		default:
+			enumField, err := p.parseEnumField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			enumField.Comments = comments
+			stmt = enumField
 		}
 
 		p.MaybeScanInlineComment(stmt)
diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..07d5c07 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseExtendBodyStatementErr struct {
-	parseFieldErr          error
-	parseEmptyStatementErr error
-}
-
-func (e *parseExtendBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // Extend consists of a messageType and an extend body.
 type Extend struct {
 	MessageType string
@@ -158,25 +143,18 @@ func (p *Parser) parseExtendBody() (
 				}
 			}
 			return stmts, inlineLeftCurly, lastPos, nil
-		default:
-			field, fieldErr := p.ParseField()
-			if fieldErr == nil {
-				field.Comments = comments
-				stmt = field
-				break
-			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
+		case scanner.TSEMICOLON:
+			if err := p.lex.ReadEmptyStatement(); err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
-
-			return nil, nil, scanner.Position{}, &parseExtendBodyStatementErr{
-				parseFieldErr:          fieldErr,
-				parseEmptyStatementErr: emptyErr,
+			stmt = &EmptyStatement{}
+		default:
+			field, err := p.ParseField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			field.Comments = comments
+			stmt = field
 		}
 
 		p.MaybeScanInlineComment(stmt)
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..75a2d08 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -1,25 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseMessageBodyStatementErr struct {
-	parseFieldErr          error
-	parseEmptyStatementErr error
-}
-
-func (e *parseMessageBodyStatementErr) Error() string {
-	return fmt.Sprintf(
-		"%v:%v",
-		e.parseFieldErr,
-		e.parseEmptyStatementErr,
-	)
-}
-
 // Message consists of a message name and a message body.
 type Message struct {
 	MessageName string
@@ -216,39 +201,28 @@ func (p *Parser) parseMessageBody() (
 			}
 			extensions.Comments = comments
 			stmt = extensions
+		case scanner.TSEMICOLON:
+			if err := p.lex.ReadEmptyStatement(); err != nil {
+				return nil, nil, scanner.Position{}, err
+			}
+			stmt = &EmptyStatement{}
 		default:
-			var ferr error
-			isGroup := p.peekIsGroup()
-			if isGroup {
-				groupField, groupErr := p.ParseGroupField()
-				if groupErr == nil {
-					groupField.Comments = comments
-					stmt = groupField
-					break
-				}
-				ferr = groupErr
-				p.lex.UnNext()
-			} else {
-				field, fieldErr := p.ParseField()
-				if fieldErr == nil {
-					field.Comments = comments
-					stmt = field
-					break
+			if p.peekIsGroup() {
+				groupField, err := p.ParseGroupField()
+				if err != nil {
+					return nil, nil, scanner.Position{}, err
 				}
-				ferr = fieldErr
-				p.lex.UnNext()
-			}
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
+				groupField.Comments = comments
+				stmt = groupField
 				break
 			}
 
-			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
-				parseFieldErr:          ferr,
-				parseEmptyStatementErr: emptyErr,
+			field, err := p.ParseField()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
 			}
+			field.Comments = comments
+			stmt = field
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From 98c115e899b8ceb87a153bccc062ca8df3e0edd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 03/20] fix: reserved ranges followed by a field name are
 rejected instead of dropping the ranges

---
 parser/reserved.go | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..f6ab18c 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -1,21 +1,10 @@
 package parser
 
 import (
-	"fmt"
-
 	"github.com/yoheimuta/go-protoparser/v4/lexer/scanner"
 	"github.com/yoheimuta/go-protoparser/v4/parser/meta"
 )
 
-type parseReservedErr struct {
-	parseRangesErr     error
-	parseFieldNamesErr error
-}
-
-func (e *parseReservedErr) Error() string {
-	return fmt.Sprintf("%v:%v", e.parseRangesErr, e.parseFieldNamesErr)
-}
-
 // Range is a range of field numbers. End is an optional value.
 type Range struct {
 	Begin string
@@ -69,24 +58,18 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	}
 	startPos := p.lex.Pos
 
-	parse := func() ([]*Range, []string, error) {
-		ranges, err := p.parseRanges()
-		if err == nil {
-			return ranges, nil, nil
-		}
-
-		fieldNames, ferr := p.parseFieldNames()
-		if ferr == nil {
-			return nil, fieldNames, nil
-		}
+	p.lex.NextNumberLit()
+	beginsWithIntLit := p.lex.Token == scanner.TINTLIT
+	p.lex.UnNext()
 
-		return nil, nil, &parseReservedErr{
-			parseRangesErr:     err,
-			parseFieldNamesErr: ferr,
-		}
+	var ranges []*Range
+	var fieldNames []string
+	var err error
+	if beginsWithIntLit {
+		ranges, err = p.parseRanges()
+	} else {
+		fieldNames, err = p.parseFieldNames()
 	}
-
-	ranges, fieldNames, err := parse()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 2121df82e6c9683ca0846098e9f4dbba50a91b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 04/20] fix: an aggregate list constant must be closed by ']'

---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From 6473b3e5b2c043f3340d8970ea0439fbfa6789f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:38 +0000
Subject: [PATCH 05/20] fix: an unknown import modifier is rejected instead of
 skipped

---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..ab0f0dd 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected("weak, public or strLit")
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From 5a465288fade1dc0136ff80327618a0d4c14732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 06/20] fix: the repeated and reserved flags of a declaration
 must be booleans

---
 parser/declaration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..d1b3c81 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -127,7 +127,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -137,7 +137,7 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 				return nil, p.unexpected(":")
 			}
 			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			if p.lex.Text != "true" && p.lex.Text != "false" {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From 920158c19a523cbee10e0633b6655dac1bd7eea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 07/20] fix: the quotes around a syntax or edition value must
 match

---
 parser/edition.go | 2 +-
 parser/syntax.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/edition.go b/parser/edition.go
index 63921fc..a4dc817 100644
--- a/parser/edition.go
+++ b/parser/edition.go
@@ -70,7 +70,7 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 	edition := p.lex.Text
 
 	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	if p.lex.Token != scanner.TQUOTE || p.lex.Text != lq {
 		return nil, p.unexpected("quote")
 	}
 	tq := p.lex.Text
diff --git a/parser/syntax.go b/parser/syntax.go
index 7560adb..039c459 100644
--- a/parser/syntax.go
+++ b/parser/syntax.go
@@ -83,7 +83,7 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 	version := p.lex.Text
 
 	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	if p.lex.Token != scanner.TQUOTE || p.lex.Text != lq {
 		return nil, p.unexpected("quote")
 	}
 	tq := p.lex.Text
-- 
2.43.0


From cca3b213353f1574a2a7c4f01e28d7b76a49f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:11 +0000
Subject: [PATCH 08/20] fix: merging adjacent string literals keeps their
 contents

---
 lexer/constant.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..be1a0ca 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -48,15 +48,16 @@ func (lex *Lexer) ReadConstant(permissive bool) (string, scanner.Position, error
 
 // Merges a multiline string literal into a single string.
 func (lex *Lexer) mergeMultilineStrLit() string {
-	q := "'"
-	if strings.HasPrefix(lex.Text, "\"") {
-		q = "\""
-	}
+	q := lex.Text[:1]
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
-		b.WriteString(strippedString)
+		value := lex.Text[1 : len(lex.Text)-1]
+		if !strings.HasPrefix(lex.Text, q) {
+			// The literal was delimited by the other quote, so that q may appear unescaped in it.
+			value = strings.NewReplacer(`\\`, `\\`, `\`+q, `\`+q, q, `\`+q).Replace(value)
+		}
+		b.WriteString(value)
 		lex.NextLit()
 	}
 	lex.UnNext()
-- 
2.43.0


From 77b7c4aad7313f0b361cdb2aeda3c00859667150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:32 +0000
Subject: [PATCH 09/20] fix: comments around syntax and edition are attached to
 the statement they precede

---
 parser/proto.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 9b9999b..686d1b6 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -48,6 +48,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -57,9 +58,10 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if edition != nil {
 		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
+		comments = p.ParseComments()
 	}
 
-	protoBody, err := p.parseProtoBody()
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -86,12 +88,12 @@ func (p *Parser) parseBOM() {
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+//
+// comments are the already parsed ones placed at the beginning of the body.
+func (p *Parser) parseProtoBody(comments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
-	for {
-		comments := p.ParseComments()
-
+	for ; ; comments = p.ParseComments() {
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
 				for _, comment := range comments {
-- 
2.43.0


From 0cbad59e2d957d111949a0e4fb80533827913e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 10/20] fix: a oneof may end with an empty statement or be
 empty, as its grammar says

---
 parser/oneof.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/parser/oneof.go b/parser/oneof.go
index 8057282..a754992 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -118,6 +118,9 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 
 		p.lex.NextKeyword()
 		token := p.lex.Token
+		if token == scanner.TRIGHTCURLY {
+			break
+		}
 		p.lex.UnNext()
 		if token == scanner.TOPTION {
 			// See https://github.com/yoheimuta/go-protoparser/issues/57
@@ -137,13 +140,6 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 			p.MaybeScanInlineComment(oneofField)
 			oneofFields = append(oneofFields, oneofField)
 		}
-
-		p.lex.Next()
-		if p.lex.Token == scanner.TRIGHTCURLY {
-			break
-		} else {
-			p.lex.UnNext()
-		}
 	}
 
 	lastPos := p.lex.Pos
-- 
2.43.0


From fb928ad86ddc397a7d289dc4900e63bedbb72446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 11/20] fix: a service with an empty statement can be
 interpreted as unordered

---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From 00a44bc2b861c8440cf9a93ae2f4ecfefd2e019b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:10 +0000
Subject: [PATCH 12/20] fix: bodies including comments can be interpreted as
 unordered

---
 interpret/unordered/enum.go    | 7 +++++++
 interpret/unordered/extend.go  | 7 +++++++
 interpret/unordered/message.go | 7 +++++++
 interpret/unordered/proto.go   | 7 +++++++
 interpret/unordered/service.go | 7 +++++++
 5 files changed, 35 insertions(+)

diff --git a/interpret/unordered/enum.go b/interpret/unordered/enum.go
index e8287cd..aa6e0bb 100644
--- a/interpret/unordered/enum.go
+++ b/interpret/unordered/enum.go
@@ -13,6 +13,9 @@ type EnumBody struct {
 	EnumFields      []*parser.EnumField
 	Reserveds       []*parser.Reserved
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones in the body that belong to no other element.
+	// See WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Enum consists of a name and an enum body.
@@ -58,6 +61,7 @@ func interpretEnumBody(src []parser.Visitee) (
 	var enumFields []*parser.EnumField
 	var reserveds []*parser.Reserved
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -68,6 +72,8 @@ func interpretEnumBody(src []parser.Visitee) (
 			reserveds = append(reserveds, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid EnumBody type %T of %v", t, t)
 		}
@@ -77,5 +83,6 @@ func interpretEnumBody(src []parser.Visitee) (
 		EnumFields:      enumFields,
 		Reserveds:       reserveds,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/extend.go b/interpret/unordered/extend.go
index 44253cf..e903191 100644
--- a/interpret/unordered/extend.go
+++ b/interpret/unordered/extend.go
@@ -11,6 +11,9 @@ import (
 type ExtendBody struct {
 	Fields          []*parser.Field
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones in the body that belong to no other element.
+	// See WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Extend consists of a messageType and a extend body.
@@ -54,12 +57,15 @@ func interpretExtendBody(src []parser.Visitee) (
 ) {
 	var fields []*parser.Field
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Field:
 			fields = append(fields, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ExtendBody type %T of %v", t, t)
 		}
@@ -67,5 +73,6 @@ func interpretExtendBody(src []parser.Visitee) (
 	return &ExtendBody{
 		Fields:          fields,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/message.go b/interpret/unordered/message.go
index 12fb674..0bc1fd0 100644
--- a/interpret/unordered/message.go
+++ b/interpret/unordered/message.go
@@ -20,6 +20,9 @@ type MessageBody struct {
 	Extends         []*parser.Extend
 	EmptyStatements []*parser.EmptyStatement
 	Extensions      []*parser.Extensions
+	// Comments are the ones in the body that belong to no other element.
+	// See WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Message consists of a message name and a message body.
@@ -72,6 +75,7 @@ func interpretMessageBody(src []parser.Visitee) (
 	var extends []*parser.Extend
 	var emptyStatements []*parser.EmptyStatement
 	var extensions []*parser.Extensions
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Field:
@@ -104,6 +108,8 @@ func interpretMessageBody(src []parser.Visitee) (
 			emptyStatements = append(emptyStatements, t)
 		case *parser.Extensions:
 			extensions = append(extensions, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid MessageBody type %T of %v", t, t)
 		}
@@ -120,5 +126,6 @@ func interpretMessageBody(src []parser.Visitee) (
 		Extends:         extends,
 		EmptyStatements: emptyStatements,
 		Extensions:      extensions,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..908bfc6 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -16,6 +16,9 @@ type ProtoBody struct {
 	Enums           []*Enum
 	Services        []*Service
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones in the body that belong to no other element.
+	// See WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Proto represents a protocol buffer definition.
@@ -52,6 +55,7 @@ func interpretProtoBody(src []parser.Visitee) (
 	var enums []*Enum
 	var services []*Service
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Import:
@@ -86,6 +90,8 @@ func interpretProtoBody(src []parser.Visitee) (
 			services = append(services, service)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ProtoBody type %T of %v", t, t)
 		}
@@ -99,5 +105,6 @@ func interpretProtoBody(src []parser.Visitee) (
 		Enums:           enums,
 		Services:        services,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index 7a29024..5e2948c 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -12,6 +12,9 @@ type ServiceBody struct {
 	Options         []*parser.Option
 	RPCs            []*parser.RPC
 	EmptyStatements []*parser.EmptyStatement
+	// Comments are the ones in the body that belong to no other element.
+	// See WithBodyIncludingComments.
+	Comments []*parser.Comment
 }
 
 // Service consists of RPCs.
@@ -56,6 +59,7 @@ func interpretServiceBody(src []parser.Visitee) (
 	var options []*parser.Option
 	var rpcs []*parser.RPC
 	var emptyStatements []*parser.EmptyStatement
+	var comments []*parser.Comment
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
@@ -64,6 +68,8 @@ func interpretServiceBody(src []parser.Visitee) (
 			rpcs = append(rpcs, t)
 		case *parser.EmptyStatement:
 			emptyStatements = append(emptyStatements, t)
+		case *parser.Comment:
+			comments = append(comments, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
@@ -72,5 +78,6 @@ func interpretServiceBody(src []parser.Visitee) (
 		Options:         options,
 		RPCs:            rpcs,
 		EmptyStatements: emptyStatements,
+		Comments:        comments,
 	}, nil
 }
-- 
2.43.0


From 058458cdb174eb495c8de58d60eb03ac9a8ee81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 13/20] fix: the unordered interpretation keeps the edition and
 the file meta

---
 interpret/unordered/proto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 908bfc6..4cc9083 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -24,7 +24,9 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
+	Meta      *parser.ProtoMeta
 }
 
 // InterpretProto interprets *parser.Proto to *Proto.
@@ -39,7 +41,9 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
+		Meta:      src.Meta,
 	}, nil
 }
 
-- 
2.43.0


From 3bc524fea91ce052cc1b7b5f989c7364e7aa1ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 14/20] fix: visitors also reach rpc options and the inline and
 embedded comments they missed

---
 parser/extensions.go | 3 +++
 parser/oneof.go      | 3 +++
 parser/service.go    | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..5cfb430 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -40,6 +40,9 @@ func (e *Extensions) Accept(v Visitor) {
 	if e.InlineComment != nil {
 		e.InlineComment.Accept(v)
 	}
+	if e.InlineCommentBehindLeftSquare != nil {
+		e.InlineCommentBehindLeftSquare.Accept(v)
+	}
 }
 
 // ParseExtensions parses the extensions.
diff --git a/parser/oneof.go b/parser/oneof.go
index a754992..1eaa6e9 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -79,6 +79,9 @@ func (o *Oneof) Accept(v Visitor) {
 	if o.InlineComment != nil {
 		o.InlineComment.Accept(v)
 	}
+	if o.InlineCommentBehindLeftCurly != nil {
+		o.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // ParseOneof parses the oneof.
diff --git a/parser/service.go b/parser/service.go
index 62b021d..dbb29de 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -53,12 +53,21 @@ func (r *RPC) Accept(v Visitor) {
 		return
 	}
 
+	for _, option := range r.Options {
+		option.Accept(v)
+	}
 	for _, comment := range r.Comments {
 		comment.Accept(v)
 	}
 	if r.InlineComment != nil {
 		r.InlineComment.Accept(v)
 	}
+	if r.InlineCommentBehindLeftCurly != nil {
+		r.InlineCommentBehindLeftCurly.Accept(v)
+	}
+	for _, comment := range r.EmbeddedComments {
+		comment.Accept(v)
+	}
 }
 
 // Service consists of RPCs.
-- 
2.43.0


From 49c2bdb3a9e2512db26b4447c57761b6e3260929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 15/20] fix: comments in an otherwise empty message or extend
 body are kept

---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index 07d5c07..707f01e 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -94,23 +94,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index 75a2d08..e6ddfc4 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -96,23 +96,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From 515305e588e94c19b925e564dfa9efc9f07c8665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 16/20] fix: comments before an empty statement are kept when
 bodies include comments

---
 parser/enum.go    | 5 +++++
 parser/extend.go  | 5 +++++
 parser/message.go | 5 +++++
 parser/proto.go   | 5 +++++
 parser/service.go | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/parser/enum.go b/parser/enum.go
index 14c9ce7..f18be8d 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -186,6 +186,11 @@ func (p *Parser) parseEnumBody() (
 			if err := p.lex.ReadEmptyStatement(); err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		default:
 			enumField, err := p.parseEnumField()
diff --git a/parser/extend.go b/parser/extend.go
index 707f01e..56f0573 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -130,6 +130,11 @@ func (p *Parser) parseExtendBody() (
 			if err := p.lex.ReadEmptyStatement(); err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		default:
 			field, err := p.ParseField()
diff --git a/parser/message.go b/parser/message.go
index e6ddfc4..866a828 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -188,6 +188,11 @@ func (p *Parser) parseMessageBody() (
 			if err := p.lex.ReadEmptyStatement(); err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		default:
 			if p.peekIsGroup() {
diff --git a/parser/proto.go b/parser/proto.go
index 686d1b6..85eb7b1 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -167,6 +167,11 @@ func (p *Parser) parseProtoBody(comments []*Comment) ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					protoBody = append(protoBody, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		}
 
diff --git a/parser/service.go b/parser/service.go
index dbb29de..a14e286 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -210,6 +210,11 @@ func (p *Parser) parseServiceBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		}
 
-- 
2.43.0


From 8381fa0ef1b8cca4b5b261a6fa64a89d77a37472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:31 +0000
Subject: [PATCH 17/20] fix: scanning a long run of whitespace or comments no
 longer grows the stack

---
 lexer/scanner/scanner.go | 92 ++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 45 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..c8f414d 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -141,51 +141,53 @@ func (s *Scanner) GetScannedComments() []Text {
 }
 
 func (s *Scanner) scan() (Token, string, Position, error) {
-	ch := s.peek()
-
-	startPos := *s.pos
-
-	switch {
-	case unicode.IsSpace(ch):
-		s.read()
-		return s.scan()
-	case s.isEOF():
-		return TEOF, "", startPos, nil
-	case isLetter(ch), ch == '_':
-		ident := s.scanIdent()
-		if s.Mode&ScanBoolLit != 0 && isBoolLit(ident) {
-			return TBOOLLIT, ident, startPos, nil
-		}
-		if s.Mode&ScanNumberLit != 0 && isFloatLitKeyword(ident) {
-			return TFLOATLIT, ident, startPos, nil
-		}
-		if s.Mode&ScanKeyword != 0 && asKeywordToken(ident) != TILLEGAL {
-			return asKeywordToken(ident), ident, startPos, nil
-		}
-		return TIDENT, ident, startPos, nil
-	case ch == '/':
-		lit, err := s.scanComment()
-		if err != nil {
-			return TILLEGAL, "", startPos, err
-		}
-		s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
-		if s.Mode&ScanComment != 0 {
-			return TCOMMENT, lit, startPos, nil
-		}
-		return s.scan()
-	case isQuote(ch) && s.Mode&ScanStrLit != 0:
-		lit, err := s.scanStrLit()
-		if err != nil {
-			return TILLEGAL, "", startPos, err
-		}
-		return TSTRLIT, lit, startPos, nil
-	case (isDecimalDigit(ch) || ch == '.') && s.Mode&ScanNumberLit != 0:
-		tok, lit, err := s.scanNumberLit()
-		if err != nil {
-			return TILLEGAL, "", startPos, err
+	for {
+		ch := s.peek()
+
+		startPos := *s.pos
+
+		switch {
+		case unicode.IsSpace(ch):
+			s.read()
+			continue
+		case s.isEOF():
+			return TEOF, "", startPos, nil
+		case isLetter(ch), ch == '_':
+			ident := s.scanIdent()
+			if s.Mode&ScanBoolLit != 0 && isBoolLit(ident) {
+				return TBOOLLIT, ident, startPos, nil
+			}
+			if s.Mode&ScanNumberLit != 0 && isFloatLitKeyword(ident) {
+				return TFLOATLIT, ident, startPos, nil
+			}
+			if s.Mode&ScanKeyword != 0 && asKeywordToken(ident) != TILLEGAL {
+				return asKeywordToken(ident), ident, startPos, nil
+			}
+			return TIDENT, ident, startPos, nil
+		case ch == '/':
+			lit, err := s.scanComment()
+			if err != nil {
+				return TILLEGAL, "", startPos, err
+			}
+			s.comments = append(s.comments, Text{Literal: lit, Pos: startPos})
+			if s.Mode&ScanComment != 0 {
+				return TCOMMENT, lit, startPos, nil
+			}
+			continue
+		case isQuote(ch) && s.Mode&ScanStrLit != 0:
+			lit, err := s.scanStrLit()
+			if err != nil {
+				return TILLEGAL, "", startPos, err
+			}
+			return TSTRLIT, lit, startPos, nil
+		case (isDecimalDigit(ch) || ch == '.') && s.Mode&ScanNumberLit != 0:
+			tok, lit, err := s.scanNumberLit()
+			if err != nil {
+				return TILLEGAL, "", startPos, err
+			}
+			return tok, lit, startPos, nil
+		default:
+			return asMiscToken(ch), string(s.read()), startPos, nil
 		}
-		return tok, lit, startPos, nil
-	default:
-		return asMiscToken(ch), string(s.read()), startPos, nil
 	}
 }
-- 
2.43.0


From adcb9ff7d6ae90f02d9fd95c22c80f8e10dc136e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:34 +0000
Subject: [PATCH 18/20] fix: a NUL character is no longer silently dropped from
 the source

---
 lexer/scanner/scanner.go | 3 ++-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index c8f414d..cf0cd13 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,8 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+// eof is no valid rune, so that it differs from every rune in a source.
+const eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..fcdb9e2 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, 0, '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From f693d00b3349e2f9adbca33d6127007880f0c8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:38 +0000
Subject: [PATCH 19/20] fix: a failing reader is no longer taken for the end of
 the source

---
 lexer/scanner/scanner.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index cf0cd13..9959440 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -20,6 +20,8 @@ type Scanner struct {
 	r              *bufio.Reader
 	lastReadBuffer []rune
 	lastScanRaw    []rune
+	// readErr is the first error other than io.EOF that r returned.
+	readErr error
 
 	// pos is a current source position.
 	pos *Position
@@ -69,8 +71,14 @@ func (s *Scanner) read() (r rune) {
 		ch, s.lastReadBuffer = s.lastReadBuffer[len(s.lastReadBuffer)-1], s.lastReadBuffer[:len(s.lastReadBuffer)-1]
 		return ch
 	}
+	if s.readErr != nil {
+		return eof
+	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		if err != io.EOF {
+			s.readErr = err
+		}
 		return eof
 	}
 	return ch
@@ -152,6 +160,9 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 			s.read()
 			continue
 		case s.isEOF():
+			if s.readErr != nil {
+				return TILLEGAL, "", startPos, s.readErr
+			}
 			return TEOF, "", startPos, nil
 		case isLetter(ch), ch == '_':
 			ident := s.scanIdent()
-- 
2.43.0


From 6c1cd9484ccdcf82f554781a5d842e8dab5436d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 20/20] fix: a second comment after a declaration is kept
 instead of replacing the first

---
 parser/extensions.go | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 5cfb430..a44b613 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -106,24 +106,13 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 
 		p.lex.Next()
 		token := p.lex.Token
-		inlineComment1 := p.parseInlineComment()
+		if token != scanner.TCOMMA && token != scanner.TRIGHTSQUARE {
+			return nil, nil, p.unexpected(", or ]")
+		}
+		p.MaybeScanInlineComment(declaration)
 		if token == scanner.TRIGHTSQUARE {
-			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		if token != scanner.TCOMMA {
-			return nil, nil, p.unexpected(", or ]")
-		}
-		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
 }
-
-// assignInlineComments assigns inline comments to a declaration, ensuring proper order.
-func (p *Parser) assignInlineComments(declaration *Declaration, comments ...*Comment) {
-	for _, comment := range comments {
-		if comment != nil {
-			declaration.SetInlineComment(comment)
-		}
-	}
-}
-- 
2.43.0

