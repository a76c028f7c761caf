From b909a3e0cd4c3b4db52d7255bdd78c016184b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 01/15] fix: do not panic on an if directive with an empty
 condition

prepareIfArgs computed Args[1:0] when the only argument was "()" or "( )".
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index b7af673..bee45fa 100644
--- a/util.go
+++ b/util.go
@@ -77,7 +77,7 @@ func prepareIfArgs(d *Directive) *Directive {
 		if len(d.Args[0]) == 0 {
 			b++
 		}
-		if len(d.Args[e]) == 0 {
+		if e >= b && len(d.Args[e]) == 0 {
 			e--
 		}
 		d.Args = d.Args[b : e+1]
-- 
2.43.0


From d28c666d524d3b354288ed7257a58bc6a27b65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:58 +0000
Subject: [PATCH 02/15] fix: give every block its own context path

append on a context with spare capacity let a later sibling block overwrite
the context saved for a file included from an earlier block.
---
 analyze.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/analyze.go b/analyze.go
index 9f28476..a195fc9 100644
--- a/analyze.go
+++ b/analyze.go
@@ -136,7 +136,8 @@ func enterBlockCtx(stmt *Directive, ctx blockCtx) blockCtx {
 		return blockCtx{"http", "location"}
 	}
 	// no other block contexts can be nested like location so just append it
-	return append(ctx, stmt.Directive)
+	// full slice expression: sibling blocks must not share the backing array
+	return append(ctx[:len(ctx):len(ctx)], stmt.Directive)
 }
 
 //nolint:gocyclo,funlen,gocognit
-- 
2.43.0


From d2ff0603e8fba0e8ba83945bc60da850670dcd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:00 +0000
Subject: [PATCH 03/15] fix: report a negative include index instead of
 panicking in Combined

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index bee45fa..d3e2b53 100644
--- a/util.go
+++ b/util.go
@@ -151,7 +151,7 @@ func performIncludes(old *Payload, fromfile string, block Directives) chan inclu
 				continue
 			}
 			for _, idx := range dir.Includes {
-				if idx >= len(old.Config) {
+				if idx < 0 || idx >= len(old.Config) {
 					c <- included{
 						err: &ParseError{
 							What:      fmt.Sprintf("include config with index: %d", idx),
-- 
2.43.0


From 0ce1f2e3f6ac95aac1179ece2cb8e9a2c2e453a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 04/15] fix: quote arguments that start with "#" when building

An argument such as "#404" was written bare and read back as a comment that
swallowed the rest of the line.
---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 0544817..f6f6f49 100644
--- a/build.go
+++ b/build.go
@@ -260,7 +260,7 @@ func needsQuote(s string) bool {
 	char, off := utf8.DecodeRuneInString(chars)
 
 	// arguments can't start with variable expansion syntax
-	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'", char) || strings.HasPrefix(chars, "${") {
+	if unicode.IsSpace(char) || strings.ContainsRune("{};\"'#", char) || strings.HasPrefix(chars, "${") {
 		return true
 	}
 
-- 
2.43.0


From 3b8b753cf0cac87c531ea76c8def0b270d8c2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:28 +0000
Subject: [PATCH 05/15] fix: reject ";" and "{" at the start of a file

They were returned as the name of a directive; for "{" the matching "}" then
silently ended the parse of the file.
---
 lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index 4b69cbe..e0fb7f1 100644
--- a/lex.go
+++ b/lex.go
@@ -138,7 +138,7 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 	lexState := skipSpace
 	newToken := false
-	dupSpecialChar := false
+	dupSpecialChar := true // nothing to terminate yet
 	readNext := true
 	esc := false
 	depth := 0
-- 
2.43.0


From f148e6f78731dcf28b8cf1cdb17e4ae027305dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:30 +0000
Subject: [PATCH 06/15] fix: report lexer errors found inside a skipped block

A missing "}" inside an ignored or invalid block was dropped, so a truncated
file parsed with status ok.
---
 parse.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index 58302d3..d98e632 100644
--- a/parse.go
+++ b/parse.go
@@ -242,7 +242,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if consume {
 			// if we find a block inside this context, consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -310,7 +312,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					p.handleError(parsing, mapErr)
 					// consume invalid block
 					if t.Value == "{" && !t.IsQuoted {
-						_, _ = p.parse(parsing, tokens, nil, true)
+						if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+							return nil, err
+						}
 					}
 					continue
 				}
@@ -324,7 +328,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 		if contains(p.options.IgnoreDirectives, stmt.Directive) {
 			// if this directive was a block consume it too
 			if t.Value == "{" && !t.IsQuoted {
-				_, _ = p.parse(parsing, tokens, nil, true)
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
+				}
 			}
 			continue
 		}
@@ -337,7 +343,9 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			// if it was a block but shouldn"t have been then consume
 			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
 				if t.Value != "}" && !t.IsQuoted {
-					_, _ = p.parse(parsing, tokens, nil, true)
+					if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+						return nil, err
+					}
 				} else {
 					break
 				}
-- 
2.43.0


From 92ca184d66476d76fad9f54392d5c5ba90399d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:32 +0000
Subject: [PATCH 07/15] fix: do not let an unterminated directive swallow its
 parent's "}"

The closing brace was taken as the terminator of an unknown or ignored
directive, so the statements after the block were nested inside it and the
file parsed with status ok.
---
 analyze.go | 12 ++++++++++++
 parse.go   |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/analyze.go b/analyze.go
index a195fc9..47163ca 100644
--- a/analyze.go
+++ b/analyze.go
@@ -173,6 +173,18 @@ func analyze(fname string, stmt *Directive, term string, ctx blockCtx, options *
 		}
 	}
 
+	// no directive may be ended by the closing brace of its parent block; when
+	// the arguments are checked below, the masks give a more specific error
+	if term == "}" && (!knownContext || !knownDirective || options.SkipDirectiveArgsCheck) {
+		return &ParseError{
+			What:      fmt.Sprintf(`directive "%s" is not terminated by ";"`, stmt.Directive),
+			File:      &fname,
+			Line:      &stmt.Line,
+			Statement: stmt.String(),
+			BlockCtx:  ctx.getLastBlock(),
+		}
+	}
+
 	// if we don't know where this directive is allowed and how
 	// many arguments it can take then don't bother analyzing it
 	if !knownContext || !knownDirective {
diff --git a/parse.go b/parse.go
index d98e632..50bb718 100644
--- a/parse.go
+++ b/parse.go
@@ -332,6 +332,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 					return nil, err
 				}
 			}
+			// it may also be the last, unterminated statement of this block
+			if t.Value == "}" {
+				break
+			}
 			continue
 		}
 
-- 
2.43.0


From 928e1f249a7b16eccdaed1a18312c7bdd63f078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:29 +0000
Subject: [PATCH 08/15] fix: skip the block of a rejected directive

Its contents were checked as if they belonged to the enclosing block and
its closing brace ended that block, so the rest of the file was dropped.
---
 parse.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/parse.go b/parse.go
index 50bb718..3991b73 100644
--- a/parse.go
+++ b/parse.go
@@ -344,16 +344,17 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 
 		if perr, ok := err.(*ParseError); ok && !p.options.StopParsingOnError {
 			p.handleError(parsing, perr)
-			// if it was a block but shouldn"t have been then consume
-			if strings.HasSuffix(perr.What, ` is not terminated by ";"`) {
-				if t.Value != "}" && !t.IsQuoted {
-					if _, err := p.parse(parsing, tokens, nil, true); err != nil {
-						return nil, err
-					}
-				} else {
-					break
+			// if it was a block then consume it, its contents and its closing
+			// brace do not belong to the current context
+			if t.Value == "{" && !t.IsQuoted {
+				if _, err := p.parse(parsing, tokens, nil, true); err != nil {
+					return nil, err
 				}
 			}
+			// it may also be the last, unterminated statement of this block
+			if t.Value == "}" && !t.IsQuoted {
+				break
+			}
 			// keep on parsin'
 			continue
 		} else if err != nil {
-- 
2.43.0


From 27eeef008d5471ae5af536d3bba20e76023e28eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 09/15] fix: an unterminated map parameter does not swallow the
 closing brace

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 3991b73..b3562dc 100644
--- a/parse.go
+++ b/parse.go
@@ -316,6 +316,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 							return nil, err
 						}
 					}
+					// it may also be the last, unterminated statement of this block
+					if t.Value == "}" && !t.IsQuoted {
+						break
+					}
 					continue
 				}
 				stmt.IsMapBlockParameter = true
-- 
2.43.0


From 4495204e32a7dc3997efd3c8d1825fb7eeae4712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 10/15] fix: call an external lexer only for a complete
 directive name

---
 lex.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lex.go b/lex.go
index e0fb7f1..e149f64 100644
--- a/lex.go
+++ b/lex.go
@@ -185,7 +185,10 @@ func tokenize(reader io.Reader, tokenCh chan NgxToken, options LexOptions) {
 
 		if token.Len() > 0 {
 			tokenStr := token.String()
-			if nextTokenIsDirective {
+			// only a complete word is a directive name, not the start of a longer one
+			wordEnds := (lexState == inWord && (isSpace(la) || la == "{" || la == "}" || la == ";")) ||
+				(lexState == inQuote && la == quote)
+			if nextTokenIsDirective && wordEnds {
 				if ext, ok := options.extLexers[tokenStr]; ok {
 					// saving lex state before emitting tokenStr to know if we encountered start quote
 					lastLexState := lexState
-- 
2.43.0


From 3b1b769367a6653f6d064cad5680c2c0897d22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:04 +0000
Subject: [PATCH 11/15] fix: look up external builders by the unquoted
 directive name

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index f6f6f49..ca8f407 100644
--- a/build.go
+++ b/build.go
@@ -174,7 +174,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 		_, _ = sb.WriteString(margin(options, depth))
 
 		if options.extBuilders != nil {
-			if ext, ok := options.extBuilders[directive]; ok {
+			if ext, ok := options.extBuilders[stmt.Directive]; ok {
 				_, _ = sb.WriteString(ext.Build(stmt))
 				continue
 			}
-- 
2.43.0


From 6b6b7b82c5a93f59290152190638c7267523cc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:31 +0000
Subject: [PATCH 12/15] fix: do not let // inside a block comment hide
 directive definitions

---
 internal/generator/generator_util.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/internal/generator/generator_util.go b/internal/generator/generator_util.go
index 615265b..c788e27 100644
--- a/internal/generator/generator_util.go
+++ b/internal/generator/generator_util.go
@@ -46,9 +46,9 @@ var (
 	// this regex extracts {directive_name} and {bitmask1|bitmask2|...}.
 	singleDirectiveExtracter = regexp.MustCompile(`ngx_string\("(.*?)"\).*?,(.*?),`)
 
-	singleLineCommentExtracter = regexp.MustCompile(`//.*`)
-
-	multiLineCommentExtracter = regexp.MustCompile(`/\*[\s\S]*?\*/`)
+	// whichever comment starts first wins: a // inside /* */ is part of that
+	// comment, and so is a /* behind //
+	commentExtracter = regexp.MustCompile(`//.*|/\*[\s\S]*?\*/`)
 )
 
 // Template of support file. A support file contains a map from
@@ -109,8 +109,7 @@ func masksFromFile(path string) (directive2Masks map[string][]Mask, err error) {
 	strContent := string(byteContent)
 
 	// Remove comments
-	strContent = singleLineCommentExtracter.ReplaceAllString(strContent, "")
-	strContent = multiLineCommentExtracter.ReplaceAllString(strContent, "")
+	strContent = commentExtracter.ReplaceAllString(strContent, "")
 	strContent = strings.ReplaceAll(strContent, "\r\n", "")
 	strContent = strings.ReplaceAll(strContent, "\n", "")
 
-- 
2.43.0


From 9a8d5c256aa5a7ceb552a54389883697467ae5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:45 +0000
Subject: [PATCH 13/15] fix: report an external lexer's error among a
 directive's arguments

The error token of a Lua block that does not start with { became an empty
argument and the file parsed with status ok.
---
 parse.go | 42 ++++++++++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/parse.go b/parse.go
index b3562dc..0f64aea 100644
--- a/parse.go
+++ b/parse.go
@@ -208,6 +208,23 @@ func (p *parser) openFile(path string) (io.ReadCloser, error) {
 	return open(path)
 }
 
+// tokenError returns the error of a token found while parsing a config.
+func tokenError(parsing *Config, t NgxToken, ctx blockCtx) *ParseError {
+	var perr *ParseError
+	if errors.As(t.Error, &perr) {
+		perr.File = &parsing.File
+		perr.BlockCtx = ctx.getLastBlock()
+		return perr
+	}
+	return &ParseError{
+		What:        t.Error.Error(),
+		File:        &parsing.File,
+		Line:        &t.Line,
+		originalErr: t.Error,
+		BlockCtx:    ctx.getLastBlock(),
+	}
+}
+
 // parse Recursively parses directives from an nginx config context.
 //
 //nolint:gocyclo,funlen,gocognit,maintidx,nonamedreturns
@@ -216,22 +233,11 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 	// parse recursively by pulling from a flat stream of tokens
 	for t := range tokens {
 		if t.Error != nil {
-			var perr *ParseError
-			if errors.As(t.Error, &perr) {
-				perr.File = &parsing.File
-				perr.BlockCtx = ctx.getLastBlock()
-				return nil, perr
-			}
-			return nil, &ParseError{
-				What:        t.Error.Error(),
-				File:        &parsing.File,
-				Line:        &t.Line,
-				originalErr: t.Error,
-				BlockCtx:    ctx.getLastBlock(),
-			}
+			return nil, tokenError(parsing, t, ctx)
 		}
 
 		var commentsInArgs []string
+		var argErr error
 
 		// we are parsing a block, so break if it's closing
 		if t.Value == "}" && !t.IsQuoted {
@@ -284,7 +290,11 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 				BlockCtx:    ctx.getLastBlock(),
 			}
 		}
-		for t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+		for t.Error != nil || t.IsQuoted || (t.Value != "{" && t.Value != ";" && t.Value != "}") {
+			// an external lexer can fail after the directive's name
+			if t.Error != nil && argErr == nil {
+				argErr = tokenError(parsing, t, ctx)
+			}
 			if !strings.HasPrefix(t.Value, "#") || t.IsQuoted {
 				stmt.Args = append(stmt.Args, t.Value)
 			} else if p.options.ParseComments {
@@ -302,6 +312,10 @@ func (p *parser) parse(parsing *Config, tokens <-chan NgxToken, ctx blockCtx, co
 			}
 		}
 
+		if argErr != nil {
+			return nil, argErr
+		}
+
 		// if inside "map-like" block - add contents to payload, but do not parse further
 		if len(ctx) > 0 {
 			if _, ok := mapBodies[ctx[len(ctx)-1]]; ok {
-- 
2.43.0


From 7c32a4d1d0b566aabc258ce7ad8c6e18aa000d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:26 +0000
Subject: [PATCH 14/15] fix: write map parameters named if without parentheses

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index ca8f407..8767b4d 100644
--- a/build.go
+++ b/build.go
@@ -187,7 +187,7 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			_, _ = sb.WriteString(directive)
 
 			// special handling for if statements
-			if directive == "if" {
+			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
 					if i > 0 {
-- 
2.43.0


From 085c5cbb77932171d7179c1b3be12ce8da6aaee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:26 +0000
Subject: [PATCH 15/15] fix: keep a blank between the parenthesis of an if
 condition and a quote

---
 build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 8767b4d..2ea348c 100644
--- a/build.go
+++ b/build.go
@@ -190,7 +190,8 @@ func buildBlock(sb io.StringWriter, parent *Directive, block Directives, depth i
 			if directive == "if" && !stmt.IsMapBlockParameter {
 				_, _ = sb.WriteString(" (")
 				for i, arg := range stmt.Args {
-					if i > 0 {
+					// a quote is only read as such at the start of a word
+					if i > 0 || needsQuote(arg) {
 						_, _ = sb.WriteString(" ")
 					}
 					_, _ = sb.WriteString(Enquote(arg))
-- 
2.43.0

