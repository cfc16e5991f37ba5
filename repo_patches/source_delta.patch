From 5e5e7d83c9ac80c5a311dc1a6cc74b17dd225849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:12 +0000
Subject: [PATCH 01/72] fix: escape the DEL character in source code instead of
 dropping the rest of the file

---
 src/parser/TextLexer.g | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 604d049..a4f52c4 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -217,6 +217,7 @@ CONTROL_CHAR :
     (
         '\000'..'\010' |
         '\013'..'\014' |
-        '\016'..'\037'
+        '\016'..'\037' |
+        '\177'
     )
 ;
-- 
2.43.0


From 5572e69d35e8b485e6bce171ec0d6414635c873d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 02/72] fix: report the full size of unparsed source that
 contains null bytes

---
 src/libsrcml/srcml_unit.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index d4b764d..f9b140a 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -780,10 +780,13 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
     if (status != SRCML_STATUS_OK)
         return status;
 
+    // source may contain null bytes (e.g., UTF-16), so use the size of the buffer
+    const size_t size = (size_t) xmlBufferLength(buffer);
+
     (*src_buffer) = (char *) xmlBufferDetach(buffer);
     if (!(*src_buffer))
         return SRCML_STATUS_ERROR;
-    *src_size = strlen(*src_buffer);
+    *src_size = size;
 
     xmlBufferFree(buffer);
 
-- 
2.43.0


From 5c3e29772662b86a17797c32cf270f2b6662d6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 03/72] fix: do not access the last token of an empty token
 buffer when pausing

---
 src/parser/StreamMLParser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index d569eab..35a4c05 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -838,6 +838,11 @@ private:
 
     /** abstract method for pausing the output of tokens */
     void pauseStream() final {
+
+        // nothing to pause, e.g., no element was started
+        if (output().empty())
+            return;
+
         pausetoken = *CurrentToken();
         paused = true;
     }
-- 
2.43.0


From a5c2b6baaf348ec230787ab3af96f76ed9d4b506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:41 +0000
Subject: [PATCH 04/72] fix: prevent an infinite loop in the parser when a
 paused statement makes no progress

---
 src/parser/StreamMLParser.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 35a4c05..ca3f743 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -671,9 +671,20 @@ private:
         if (tb.empty())
             consume();
 
-        while (paused)
+        // to prevent infinite loops, consume is called if no progress is made
+        while (paused) {
+            const auto curline = LT(1)->getLine();
+            const auto curcolumn = LT(1)->getColumn();
+            const auto cursize = tb.size();
+            const auto curmodes = srcMLParser::size();
+
             fillTokenBuffer();
 
+            if (paused && tb.size() == cursize && srcMLParser::size() == curmodes
+                && LT(1)->getLine() == curline && LT(1)->getColumn() == curcolumn)
+                consume();
+        }
+
         // to calculate end position, need to buffer until end token in reached
         // to prevent infinite loops, consume is called if no progress is made on the
         // current token, e.g., double max const();
-- 
2.43.0


From 425593340401785a703da5f52647178e6bd9d758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 05/72] fix: do not truncate source when a multibyte character
 or a BOM is split between reads

---
 src/parser/UTF8CharBuffer.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index c45cf68..8ecac2b 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -276,19 +276,25 @@ ssize_t UTF8CharBuffer::readChars() {
         // use the provided callback
         // the entire input buffer may not be available because of incomplete multi-byte sequences
         // from a previous read
-        ssize_t insize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + inbytesleft, raw.size() - inbytesleft) : 0;
-        if (insize == -1) {
-            fprintf(stderr, "Error reading: %s", strerror(errno));
-            return 0;
-        }
+        // the first read needs enough data to detect a BOM, and a read may return only part of that
+        size_t rawsize = inbytesleft;
+        ssize_t readsize = 0;
+        do {
+            readsize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + rawsize, raw.size() - rawsize) : 0;
+            if (readsize == -1) {
+                fprintf(stderr, "Error reading: %s", strerror(errno));
+                return 0;
+            }
+            rawsize += readsize;
+        } while (firstRead && readsize > 0 && rawsize < 4);
 
         // EOF
-        if (insize == 0) {
+        if (rawsize == inbytesleft) {
             return 0;
         }
 
         // new size is the number of bytes read in, plus any incomplete multibyte sequences from previous
-        raw.resize(insize + inbytesleft);
+        raw.resize(rawsize);
     }
 
     // hash only the read data, not the inbytesleft (from previous call)
@@ -391,7 +397,8 @@ ssize_t UTF8CharBuffer::readChars() {
 
         // convert from raw characters to cooked, encoded in UTF-8 characters
         size_t binsize = iconv(ic, &linbuf, &inbytesleft, &loutbuf, &outbytesleft);
-        if (binsize == (size_t) -1) {
+        // an incomplete multibyte sequence at the end of the input is completed by the next read
+        if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
             return 0;
         }
@@ -406,6 +413,12 @@ ssize_t UTF8CharBuffer::readChars() {
             std::move(linbuf, linbuf + inbytesleft, raw.begin());
     }
 
+    // no characters yet, e.g., only a BOM, or only part of a multibyte sequence, so need more input
+    if (pos >= (trivial ? raw.size() : cooked.size())) {
+        insize = 0;
+        return readChars();
+    }
+
     return trivial ? raw.size() : cooked.size();
 }
 
-- 
2.43.0


From af6157b4f4a663dcea8307b603c954f5ff4b2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 06/72] fix: do not call a missing close callback after parsing
 from user I/O

---
 src/parser/UTF8CharBuffer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 8ecac2b..7c3ae06 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -496,7 +496,8 @@ const std::string& UTF8CharBuffer::getEncoding() const {
  * place in buffer if requested.
  */
 UTF8CharBuffer::~UTF8CharBuffer() {
-    if(sio.context) {
+    // the close callback is optional
+    if(sio.context && sio.close_callback) {
         sio.close_callback(sio.context);
     }
 
-- 
2.43.0


From a4148fff394f9a3799a5c4b467a24c31700d3d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:49 +0000
Subject: [PATCH 07/72] fix: detect the UTF-32LE BOM instead of treating it as
 a UTF-16LE BOM

---
 src/parser/UTF8CharBuffer.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 7c3ae06..83150d8 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -332,23 +332,12 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
-        // auto-detect UTF-16 based on BOM
-        // both UTF-16LE and UTF-16BE are determined automatically from BOM
-        // and processed as UTF-16
-        if ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF) {
-
-            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
-            if (encoding.empty()) {
-                encoding = "UTF-16";
-            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
-                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
-            }
-        }
-
         // auto-detect UTF-32 based on BOM
         // both UTF-32LE and UTF-32BE are determined automatically from BOM
         // and processed as UTF-32
-        if (data.i == 0xFFFE0000 || data.i == 0xFEFF0000) {
+        // must be before UTF-16 since the UTF-32LE BOM starts with the UTF-16LE BOM
+        const bool isUTF32 = raw.size() >= 4 && (data.i == 0xFFFE0000 || data.i == 0x0000FEFF);
+        if (isUTF32) {
 
             // no encoding specified (by user) then UTF-32, otherwise check if it is compatible with UTF-32
             if (encoding.empty()) {
@@ -358,6 +347,19 @@ ssize_t UTF8CharBuffer::readChars() {
             }
         }
 
+        // auto-detect UTF-16 based on BOM
+        // both UTF-16LE and UTF-16BE are determined automatically from BOM
+        // and processed as UTF-16
+        if (!isUTF32 && ((data.i & 0x0000FFFF) == 0x0000FFFE || (data.i & 0x0000FFFF) == 0x0000FEFF)) {
+
+            // no encoding specified (by user) then UTF-16, otherwise check if it is compatible with UTF-16
+            if (encoding.empty()) {
+                encoding = "UTF-16";
+            } else if (encoding != "UTF-16" && !compatibleEncodings(encoding.c_str(), "UTF-16")) {
+                fprintf(stderr, "Warning: the encoding %s was specified, but the source code has a UTF-16 BOM\n", encoding.c_str());
+            }
+        }
+
         // if no encoding found or specified, assume ISO-8859-1
         if (encoding.empty())
             encoding = "ISO-8859-1";
-- 
2.43.0


From eed2b53f85b33f253dd9e71cf85f8d8d6d7f60c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:06 +0000
Subject: [PATCH 08/72] fix: skip all of a UTF-8 BOM, and nothing else, when
 another encoding is specified

---
 src/parser/UTF8CharBuffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 83150d8..e5d4cb7 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -388,8 +388,10 @@ ssize_t UTF8CharBuffer::readChars() {
         // raw input characters
         // after call to iconv(), linbuf will point to start of any
         // incomplete multibyte sequences that were not cooked
-        char* linbuf = raw.data();
-        inbytesleft = raw.size();
+        // any UTF-8 BOM is skipped here, as its size once cooked depends on the encoding
+        char* linbuf = raw.data() + pos;
+        inbytesleft = raw.size() - pos;
+        pos = 0;
 
         // cooked (encoded in UTF-8) input characters
         // full output buffer is available since all previous characters have been processed
-- 
2.43.0


From 45f427c7b1f8d0cfa440a17c73149c7a21ee936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 09/72] fix: do not use a destroyed string as the value of the
 tabs attribute

---
 src/parser/srcMLOutput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index bb97f32..00756bc 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -335,6 +335,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
             tabattribute += ":";
         tabattribute += "tabs";
     }
+    const std::string tabvalue = std::to_string(tabsize);
 
     // setup for storing options in output
     std::array<std::pair<int, const char*>, 4> sep = {{
@@ -369,7 +370,7 @@ void srcMLOutput::startUnit(const char* language, const char* revision,
         { UNIT_ATTRIBUTE_VERSION, version },
 
         // position tab setting
-        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? std::to_string(tabsize).c_str() : 0 },
+        { tabattribute.c_str(), isoption(options, SRCML_OPTION_POSITION) ? tabvalue.c_str() : 0 },
 
         // timestamp attribute
         { UNIT_ATTRIBUTE_TIMESTAMP, timestamp },
-- 
2.43.0


From b090b3e5c2d8c48dfad35a3a111bb1ec92bf8a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 10/72] fix: use the position option and prefix of the current
 output, not of the first output of the thread

---
 src/parser/srcMLOutput.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index 00756bc..f737413 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -502,9 +502,10 @@ void srcMLOutput::addPosition(const antlr::RefToken& token) {
     if (stoken->endline < stoken->getLine() || (stoken->endline == stoken->getLine() && stoken->endcolumn < stoken->getColumn()))
             return;
 
-    thread_local const std::string& prefix = namespaces[POS].prefix;
-    thread_local const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
-    thread_local const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
+    // prefix may be different for each output
+    const std::string& prefix = namespaces[POS].prefix;
+    const std::string startAttribute = " " + prefix + (!prefix.empty() ? ":" : "") + "start=\"";
+    const std::string endAttribute   = " " + prefix + (!prefix.empty() ? ":" : "") + "end=\"";
 
     // highly optimized as this is output for every start tag
 
@@ -536,7 +537,7 @@ void srcMLOutput::processToken(const antlr::RefToken& token, const char* name, c
     if (name[0] == 0)
         return;
 
-    thread_local bool isposition = isoption(options, SRCML_OPTION_POSITION);
+    const bool isposition = isoption(options, SRCML_OPTION_POSITION);
 
     if (isstart(token) || isempty(token)) {
 
-- 
2.43.0


From 8d1f0d9c25086f0ea727a67ad7b0fdb4c9804bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:52 +0000
Subject: [PATCH 11/72] fix: do not output control characters in a raw-string
 delimiter unescaped

---
 src/parser/CommentTextLexer.g | 2 +-
 src/parser/TextLexer.g        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 36ed6ba..2a95332 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -253,5 +253,5 @@ protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
     (options { greedy = true; } : { delimiter.size() < delimiter1.size() }? { delimiter += LA(1); } 
-        ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+        ~('\000'..'\010' | '\013'..'\037' | '(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
 ;
diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index a4f52c4..4cb044e 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -97,7 +97,7 @@ RAW_STRING_START :
 protected
 RSTRING_DELIMITER:
     { delimiter = ""; }
-    (options { greedy = true; } : { delimiter += LA(1); } ~('(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
+    (options { greedy = true; } : { delimiter += LA(1); } ~('\000'..'\010' | '\013'..'\037' | '(' | ')' | '\\' | '\n' | ' ' | '\t' ))*
 ;
 
 CHAR_START :
-- 
2.43.0


From 6aa16e82056a3f16bbf72d821b06359088a44477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:27 +0000
Subject: [PATCH 12/72] fix: return & in attributes as written instead of as
 the text &#38;

---
 src/libsrcml/sax2_srcsax_handler.cpp | 12 +++++++++++-
 src/libsrcml/srcml_transform.cpp     |  1 +
 src/libsrcml/srcsax_controller.cpp   |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e2ca856..e9ce12a 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -153,6 +153,7 @@ static int reparse_root(void* ctx) {
     xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(state->rootstarttag.c_str(), (int) state->rootstarttag.size());
     auto save_private = context->_private;
     context->_private = state;
+    context->replaceEntities = 1;
     auto save_sax = context->sax;
     context->sax = &roottagsax;
 
@@ -304,7 +305,16 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
                 state->rootnsstr += (const char*) namespaces[i];
             }
             state->rootnsstr += "=\"";
-            state->rootnsstr += (const char*) namespaces[i + 1];
+            for (const char* p = (const char*) namespaces[i + 1]; *p; ++p) {
+                if (*p == '&')
+                    state->rootnsstr += "&amp;";
+                else if (*p == '<')
+                    state->rootnsstr += "&lt;";
+                else if (*p == '"')
+                    state->rootnsstr += "&quot;";
+                else
+                    state->rootnsstr += *p;
+            }
             state->rootnsstr += "\" ";
         }
     }
diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index c416342..b56b9a9 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -738,6 +738,7 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
             xmlParserCtxtPtr context = xmlCreateMemoryParserCtxt(starttag.c_str(), (int) starttag.size());
             auto save_private = context->_private;
             context->_private = nunit;
+            context->replaceEntities = 1;
             auto save_sax = context->sax;
             context->sax = &roottagsax;
 
diff --git a/src/libsrcml/srcsax_controller.cpp b/src/libsrcml/srcsax_controller.cpp
index 332c5b0..328af88 100644
--- a/src/libsrcml/srcsax_controller.cpp
+++ b/src/libsrcml/srcsax_controller.cpp
@@ -158,7 +158,7 @@ xmlParserCtxtPtr srcsax_create_parser_context(xmlParserInputBufferPtr buffer_inp
     if (ctxt == 0)
         return 0;
 
-    xmlCtxtUseOptions(ctxt, XML_PARSE_COMPACT | XML_PARSE_HUGE | XML_PARSE_NODICT);
+    xmlCtxtUseOptions(ctxt, XML_PARSE_COMPACT | XML_PARSE_HUGE | XML_PARSE_NODICT | XML_PARSE_NOENT);
 
     xmlParserInputPtr input = xmlNewIOInputStream(ctxt, buffer_input, enc);
     if (input == 0) {
-- 
2.43.0


From 0e8abc1f150203b4bc186620432ad9f88b1a8152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 13/72] fix: use the archive's tab size for positions inside
 comments and strings

---
 src/libsrcml/srcml_translator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2977be6..ab23464 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -133,6 +133,7 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // pure block comment lexer
         CommentTextLexer textlexer(lexer.getInputState());
         textlexer.setSelector(&selector);
+        textlexer.setTabsize((int)tabsize);
 
         // switching between lexers
         selector.addInputStream(&lexer, "main");
-- 
2.43.0


From 7dae756ff5cf493df330e67cd6bc51152b8e1d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 14/72] fix: end positions are those of the element, not of
 lookahead or a following directive

---
 src/parser/StreamMLParser.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index ca3f743..76ae9bf 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -321,12 +321,20 @@ private:
         srcMLParser::consume();
 
         // record for end position of start elements
-        lastline = LT(1)->getLine();
-        lastcolumn = LT(1)->getColumn() - 1;
+        // note: any lookahead is not part of the element
+        if (srcMLParser::inputState->guessing == 0) {
+            lastline = LT(1)->getLine();
+            lastcolumn = LT(1)->getColumn() - 1;
+        }
 
-        // consume any skipped tokens
+        // consume any skipped tokens, e.g., preprocessor directives,
+        // which are not part of the element that ends before them
+        const auto endline = lastline;
+        const auto endcolumn = lastcolumn;
         while (consumeSkippedToken())
             ;
+        lastline = endline;
+        lastcolumn = endcolumn;
     }
 
     /**
-- 
2.43.0


From f771f6b56a5f299fb96bdf27d7547b09cd1ebd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 15/72] fix: the encoding found on the first read is known for
 every kind of input

---
 src/parser/UTF8CharBuffer.cpp | 10 +++++++++-
 src/parser/UTF8CharBuffer.hpp |  2 +-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index e5d4cb7..37c094e 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -488,7 +488,15 @@ int UTF8CharBuffer::getChar() {
  *
  * @returns the used source encoding.
  */
-const std::string& UTF8CharBuffer::getEncoding() const {
+const std::string& UTF8CharBuffer::getEncoding() {
+
+    // without a specified encoding, it is only known after the first read
+    if (encoding.empty() && firstRead)
+        insize = readChars();
+
+    // no data to determine the encoding from
+    if (encoding.empty())
+        encoding = "ISO-8859-1";
 
     return encoding;
 }
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index 665efa4..c71eaa3 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -120,7 +120,7 @@ public:
     int getChar();
 
     // Get the used encoding
-    const std::string& getEncoding() const;
+    const std::string& getEncoding();
 
     int getLOC() { if (lastchar == '\n') return loc; else return loc + 1; }
 
-- 
2.43.0


From dcac98fe81219883a4c3ac982a437fe784dda4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 16/72] fix: a unit that is parsed again gets the hash of the
 new source

---
 src/libsrcml/srcml_unit.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index f9b140a..9b17c43 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -513,7 +513,9 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         iconv_close(ic);
     }
 
-    bool output_hash = !unit->hash && unit->archive->options & SRCML_OPTION_HASH;
+    // any hash from a previous parse is not for this source
+    unit->hash = boost::none;
+    bool output_hash = unit->archive->options & SRCML_OPTION_HASH;
 
     UTF8CharBuffer* input = 0;
     try {
-- 
2.43.0


From a391c24ab64d298d929f59599fb6e4c06d3e4e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:42 +0000
Subject: [PATCH 17/72] fix: srcml_unit_parse_filename closes the file that it
 opens

---
 src/libsrcml/srcml_unit.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 9b17c43..106e6b7 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -566,10 +566,15 @@ int srcml_unit_parse_filename(struct srcml_unit* unit, const char* src_filename)
         return SRCML_STATUS_IO_ERROR;
     }
 
-    return srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
+    int status = srcml_unit_parse_internal(unit, src_filename, [src_fd](const char* encoding, bool output_hash, boost::optional<std::string>& hash)-> UTF8CharBuffer* {
 
         return new UTF8CharBuffer(src_fd, encoding, output_hash, hash);
     });
+
+    // the file was opened here, so must be closed here
+    CLOSE(src_fd);
+
+    return status;
 }
 
 /**
-- 
2.43.0


From 4031546f22296be43a2d03e6e25034409254cee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:10 +0000
Subject: [PATCH 18/72] fix: source that cannot be read or converted completely
 is an error

---
 src/libsrcml/srcml_translator.cpp | 10 +++++++++-
 src/libsrcml/srcml_translator.hpp |  2 +-
 src/libsrcml/srcml_unit.cpp       |  9 +++++++--
 src/parser/UTF8CharBuffer.cpp     |  7 ++++++-
 src/parser/UTF8CharBuffer.hpp     |  6 ++++++
 5 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index ab23464..d786a1f 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -110,11 +110,15 @@ void srcml_translator::close() {
  * translate
  *
  * Translate a single unit and output.  No xml declaration is added.
+ *
+ * @returns if all of the input was translated.
  */
-void srcml_translator::translate(UTF8CharBuffer* parser_input) {
+bool srcml_translator::translate(UTF8CharBuffer* parser_input) {
 
     first = false;
 
+    bool complete = false;
+
     const int lang = getLanguage();
     if (lang == Language::LANGUAGE_C || lang == Language::LANGUAGE_CXX || lang == Language::LANGUAGE_CSHARP ||
       lang & Language::LANGUAGE_OBJECTIVE_C)
@@ -149,6 +153,8 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
         // parse and form srcML output with unit attributes
         out.consume(getLanguageString(), revision, url, filename, version, timestamp, hash, encoding);
 
+        complete = parser_input->isComplete();
+
     } catch (const std::exception& e) {
         fprintf(stderr, "SRCML Exception: %s\n", e.what());
     }
@@ -158,6 +164,8 @@ void srcml_translator::translate(UTF8CharBuffer* parser_input) {
     catch (...) {
         fprintf(stderr, "srcML translator error\n");
     }
+
+    return complete;
 }
 
 void srcml_translator::prepareOutput() {
diff --git a/src/libsrcml/srcml_translator.hpp b/src/libsrcml/srcml_translator.hpp
index df01d55..25e3b2f 100644
--- a/src/libsrcml/srcml_translator.hpp
+++ b/src/libsrcml/srcml_translator.hpp
@@ -76,7 +76,7 @@ public:
 
     void close();
 
-    void translate(UTF8CharBuffer* parser_input);
+    bool translate(UTF8CharBuffer* parser_input);
 
     bool add_unit(const srcml_unit* unit);
     bool add_start_unit(const srcml_unit* unit);
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 106e6b7..3caddb8 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -535,14 +535,19 @@ static int srcml_unit_parse_internal(struct srcml_unit* unit, const char* filena
         return status;
 
     // parse the input
-    unit->unit_translator->translate(input);
+    bool complete = unit->unit_translator->translate(input);
 
     // namespaces were updated during translation, may now include
     // namespaces that were optional
     unit->namespaces = unit->unit_translator->out.getNamespaces();
 
     // create the unit end tag
-    return srcml_write_end_unit(unit);
+    status = srcml_write_end_unit(unit);
+    if (status != SRCML_STATUS_OK)
+        return status;
+
+    // source that could not be read, or is not in the encoding
+    return complete ? SRCML_STATUS_OK : SRCML_STATUS_IO_ERROR;
 }
 
 /**
diff --git a/src/parser/UTF8CharBuffer.cpp b/src/parser/UTF8CharBuffer.cpp
index 37c094e..31c7f10 100644
--- a/src/parser/UTF8CharBuffer.cpp
+++ b/src/parser/UTF8CharBuffer.cpp
@@ -283,13 +283,16 @@ ssize_t UTF8CharBuffer::readChars() {
             readsize = sio.read_callback ? (int) sio.read_callback(sio.context, raw.data() + rawsize, raw.size() - rawsize) : 0;
             if (readsize == -1) {
                 fprintf(stderr, "Error reading: %s", strerror(errno));
+                error = true;
                 return 0;
             }
             rawsize += readsize;
         } while (firstRead && readsize > 0 && rawsize < 4);
 
-        // EOF
+        // EOF, which is not expected inside of a multibyte sequence
         if (rawsize == inbytesleft) {
+            if (inbytesleft)
+                error = true;
             return 0;
         }
 
@@ -369,6 +372,7 @@ ssize_t UTF8CharBuffer::readChars() {
         if (ic == (iconv_t) -1) {
             if (errno == EINVAL) {
                 fprintf(stderr, "srcml: Conversion from encoding '%s' not supported\n\n", encoding.c_str());
+                error = true;
                 return 0;
             }
         }
@@ -404,6 +408,7 @@ ssize_t UTF8CharBuffer::readChars() {
         // an incomplete multibyte sequence at the end of the input is completed by the next read
         if (binsize == (size_t) -1 && errno != EINVAL) {
             fprintf(stderr, "%s\n", strerror(errno));
+            error = true;
             return 0;
         }
 
diff --git a/src/parser/UTF8CharBuffer.hpp b/src/parser/UTF8CharBuffer.hpp
index c71eaa3..33d7c05 100644
--- a/src/parser/UTF8CharBuffer.hpp
+++ b/src/parser/UTF8CharBuffer.hpp
@@ -122,6 +122,9 @@ public:
     // Get the used encoding
     const std::string& getEncoding();
 
+    // Whether all of the input was read and converted
+    bool isComplete() const { return !error; }
+
     int getLOC() { if (lastchar == '\n') return loc; else return loc + 1; }
 
     ~UTF8CharBuffer();
@@ -184,5 +187,8 @@ private:
 
     /** first time reading data */
     bool firstRead = true;
+
+    /** some of the input could not be read or converted */
+    bool error = false;
 };
 #endif
-- 
2.43.0


From 0dce140f911ff181a1796e00062afaa3c3cdc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 19/72] fix: a unit that is parsed again has the source and
 lines of code of the new source

---
 src/libsrcml/srcml_unit.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 3caddb8..3b249ac 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -1022,9 +1022,8 @@ int srcml_write_end_unit(struct srcml_unit* unit) {
     free(srcml);
 
     // record the loc
-    if (!unit->src) {
-        unit->src = extract_src(unit->srcml);
-    }
+    // note: any previous source, e.g., of an earlier parse, is not the source of this srcml
+    unit->src = extract_src(unit->srcml);
 
     unit->loc = (int) std::count(unit->src->begin(), unit->src->end(), '\n');
     if (!unit->src->empty() && unit->src->back() != '\n')
-- 
2.43.0


From c4dc2cc075d92b5df910f89699280e61bbc68968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:14 +0000
Subject: [PATCH 20/72] fix: an unexpected token inside an index no longer
 causes an endless loop

---
 src/parser/srcMLParser.g | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index f89e6dc..2f168bc 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -4982,6 +4982,14 @@ linq_descending[] { SingleElement element(this); ENTRY_DEBUG } :
         DESCENDING
 ;
 
+// complete expression, and whether it consumed anything
+complete_expression_progress[bool& progress] { antlr::RefToken start = LT(1); ENTRY_DEBUG } :
+
+        complete_expression
+
+        set_bool[progress, LT(1) != start]
+;
+
 // variables array index
 variable_identifier_array_grammar_sub[bool& iscomplex] { CompleteElement element(this); ENTRY_DEBUG } :
         {
@@ -5003,15 +5011,15 @@ variable_identifier_array_grammar_sub[bool& iscomplex] { CompleteElement element
 ;
 
 // contents of array index
-variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; ENTRY_DEBUG } :
+variable_identifier_array_grammar_sub_contents{ bool found_expr = false; bool is_expr = false; bool progress = true; ENTRY_DEBUG } :
         { !inLanguage(LANGUAGE_CSHARP) && !inLanguage(LANGUAGE_OBJECTIVE_C) }? complete_expression |
 
         { inLanguage(LANGUAGE_CSHARP) || inLanguage(LANGUAGE_OBJECTIVE_C) }?
-            (options { greedy = true; } : { LA(1) != RBRACKET }?
+            (options { greedy = true; } : { LA(1) != RBRACKET && progress }?
                 ({ /* stop warning */ LA(1) == COMMA }? { if (!found_expr) { empty_element(SEXPRESSION, true); }
 
 
-                 } COMMA { found_expr = false; } | complete_expression { found_expr = true; })
+                 } COMMA { found_expr = false; } | complete_expression_progress[progress] { found_expr = true; })
 
                 set_bool[is_expr, true]
 
-- 
2.43.0


From 49926f907761b2ee4eee7b22764620830a117d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 21/72] fix: an expression in a directive does not consume the
 end of the directive or file

---
 src/parser/srcMLParser.g | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 2f168bc..50b98f2 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -9626,10 +9626,14 @@ cpp_expression[CALL_TYPE type = NOCALL] { ENTRY_DEBUG } :
 exception
 catch[...] {
 
+    // the end of the directive is not part of the expression
+    if (!cpp_check_end()) {
+
         startNewMode(MODE_LOCAL);
         startElement(SNAME);
         consume();
         endMode();
+    }
 
 }
 
-- 
2.43.0


From dcd1842afb2f3ac89f53811195addd68021c9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:46 +0000
Subject: [PATCH 22/72] fix: malformed XML when an unterminated expression
 statement is followed by a ~ expression

A paused stream was resumed by turning the paused start tag and the last end
tag into NOPs when both were of the same type, also when the end tag belonged
to a later element.
---
 src/parser/StreamMLParser.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 76ae9bf..2f87e8e 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -886,6 +886,20 @@ private:
         if (pausetoken->getType() != output().back()->getType())
             return;
 
+        // only replace when the last token ends the element that was paused
+        int depth = 0;
+        auto token = output().rbegin();
+        for (; token != output().rend(); ++token) {
+
+            if ((*token)->getType() == pausetoken->getType())
+                depth += isend(*token) ? 1 : isstart(*token) ? -1 : 0;
+
+            if (depth <= 0 || *token == pausetoken)
+                break;
+        }
+        if (token == output().rend() || *token != pausetoken || depth != 0)
+            return;
+
         pausetoken->setType(SNOP);
         output().back()->setType(SNOP);
 
-- 
2.43.0


From 6bf354907ddaaf0a4a325cba72c5771b63dbd137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 23/72] fix: setting the options of an archive keeps its
 private options

The options for archive, hash, and namespace declarations were cleared, and parsing
into a unit of the archive crashed since there was no namespace to find.
---
 src/libsrcml/srcml_archive.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 1e01848..fbe3aa6 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -284,14 +284,16 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
     if (archive == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // only the public options are replaced, e.g., the archive and hash options have their own functions
+    const OPTION_TYPE publicoptions = (1<<7) - 1;
+    archive->options &= ~(publicoptions | SRCML_OPTION_CPP_DECLARED);
+
     // if the user specified cpp, then mark that it was declared
     if (options & SRCML_OPTION_CPP) {
         archive->options |= SRCML_OPTION_CPP_DECLARED;
     }
 
-    int modoption = options % (1<<7);
-
-    archive->options = modoption;
+    archive->options |= options & publicoptions;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 7d3de1a16c2b0d2c3eb5180b28b3a98db1e505a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:05 +0000
Subject: [PATCH 24/72] fix: an end of element with no open element no longer
 ends the unit

---
 src/libsrcml/srcml_translator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index d786a1f..5868f9d 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -357,7 +357,8 @@ bool srcml_translator::add_start_element(const char* prefix, const char* name, c
  */
 bool srcml_translator::add_end_element() {
 
-    if (!is_outputting_unit)
+    // note: with no open element, the end would be for the unit itself
+    if (!is_outputting_unit || output_unit_depth <= 0)
         return false;
 
     --output_unit_depth;
-- 
2.43.0


From fe7a4ee2c23b228a5618f1a2a1d24cc48aadb99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:13 +0000
Subject: [PATCH 25/72] fix: the text given to srcml_write_string is not
 modified

---
 src/libsrcml/srcml_translator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 5868f9d..ee9b801 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -425,17 +425,17 @@ bool srcml_translator::add_string(const char *content) {
     if (!is_outputting_unit || content == 0)
         return false;
 
-    char* text = (char *)content;
-    for (char * pos = text; *pos; ++pos) {
+    // note: the content is owned by the caller, and is not changed
+    const char* text = content;
+    for (const char* pos = text; *pos; ++pos) {
 
         if (*pos != '"')
             continue;
 
-        *pos = 0;
-        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST text) == -1)
+        std::string before(text, pos);
+        if (xmlTextWriterWriteString(out.getWriter(), BAD_CAST before.c_str()) == -1)
             return false;
 
-        *pos = '\"';
         if (xmlTextWriterWriteRaw(out.getWriter(), BAD_CAST "\"") == -1)
             return false;
 
-- 
2.43.0


From f0c5b83829574fefae88578ca312fa2703824520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:22 +0000
Subject: [PATCH 26/72] fix: attributes and namespaces directly in a started
 unit are rejected

---
 src/libsrcml/srcml_translator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index ee9b801..5b5c4d7 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -378,7 +378,8 @@ bool srcml_translator::add_end_element() {
  */
 bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
 
-    if (!is_outputting_unit || uri == 0)
+    // note: the start tag of the unit itself is complete
+    if (!is_outputting_unit || output_unit_depth <= 0 || uri == 0)
         return false;
 
     std::string name = "xmlns";
@@ -404,7 +405,8 @@ bool srcml_translator::add_namespace(const char* prefix, const char *uri) {
  */
 bool srcml_translator::add_attribute(const char* prefix, const char* name, const char* uri, const char* content) {
 
-    if (!is_outputting_unit || name == 0)
+    // note: the start tag of the unit itself is complete
+    if (!is_outputting_unit || output_unit_depth <= 0 || name == 0)
         return false;
 
     return xmlTextWriterWriteAttributeNS(out.getWriter(), BAD_CAST prefix, BAD_CAST name, BAD_CAST uri, BAD_CAST content) != -1;
-- 
2.43.0


From 05de73758629f6ef3d55966bf8460a2f5f5cc3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:36 +0000
Subject: [PATCH 27/72] fix: a unit read with its own namespace prefixes is
 written with them declared

---
 src/libsrcml/sax2_srcsax_handler.cpp  |  8 ++++----
 src/libsrcml/sax2_srcsax_handler.hpp  |  4 +++-
 src/libsrcml/srcml_reader_handler.hpp | 14 +++++++++-----
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index e9ce12a..db7959e 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -448,12 +448,12 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
     if (state == nullptr)
         return;
 
-    // collect cpp prefix
+    // collect the namespaces declared on this unit
+    state->unit_namespaces.clear();
     for (int i = 0; i < nb_namespaces; ++i) {
 
-        if (std::string((const char*) namespaces[i * 2 + 1]) == SRCML_CPP_NS_URI) {
-            state->cpp_prefix = namespaces[i * 2] ? "" : (const char*) namespaces[i * 2];
-        }
+        state->unit_namespaces.emplace_back(namespaces[i * 2] ? (const char*) namespaces[i * 2] : "",
+                                            namespaces[i * 2 + 1] ? (const char*) namespaces[i * 2 + 1] : "");
     }
 
     update_ctx(ctx);
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index c515197..7357a74 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -29,6 +29,7 @@
 #include <libxml/parser.h>
 
 #include <string>
+#include <utility>
 #include <vector>
 
 /**
@@ -93,7 +94,8 @@ struct sax2_srcsax_handler {
 
     int loc = 0;
 
-    boost::optional<std::string> cpp_prefix;
+    // namespaces (prefix, URI) declared on the current unit
+    std::vector<std::pair<std::string, std::string>> unit_namespaces;
 
     bool rootcalled = false;
 };
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 721c8b1..7918f73 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -458,8 +458,12 @@ public :
             unit->src = std::move(state->unitsrc);
             unit->loc = state->loc;
 
-            // update provisional cpp prefix
-            if (state->cpp_prefix) {
+            // record the namespaces declared on the unit, so that they are declared wherever the unit is written
+            for (const auto& declared : state->unit_namespaces) {
+
+                // the srcML namespace is always declared
+                if (is_srcml_namespace(declared.second, SRCML_SRC_NS_URI))
+                    continue;
 
                 // namespaces probably aren't create yet
                 if (!unit->namespaces) {
@@ -468,11 +472,11 @@ public :
 
                 // set the found prefix, plus mark it as used
                 auto&& view = unit->namespaces->get<nstags::uri>();
-                auto it = view.find(SRCML_CPP_NS_URI);
+                auto it = view.find(declared.second);
                 if (it != view.end()) {
-                    view.modify(it, [](Namespace& thisns){ thisns.flags |= NS_USED; });
+                    view.modify(it, [&declared](Namespace& thisns){ thisns.prefix = declared.first; thisns.flags |= NS_USED; });
                 } else {
-                    unit->namespaces->push_back({ state->cpp_prefix->c_str(), SRCML_CPP_NS_URI, NS_USED | NS_STANDARD });
+                    unit->namespaces->push_back({ declared.first, declared.second, NS_USED | NS_STANDARD });
                 }
             }
 
-- 
2.43.0


From a735c5916e34ffae3801ad3b586d5c1210ae4911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:12 +0000
Subject: [PATCH 28/72] fix: no namespace prefix past the last namespace

---
 src/libsrcml/srcml_archive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index fbe3aa6..970999c 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -694,7 +694,7 @@ const char* srcml_archive_get_namespace_prefix(const struct srcml_archive* archi
     if (archive == nullptr)
         return nullptr;
 
-    if (pos > archive->namespaces.size())
+    if (pos >= archive->namespaces.size())
         return nullptr;
 
     return archive->namespaces[pos].prefix.c_str();
-- 
2.43.0


From 33815248620b3de23814ef0edcf3d389041648a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:19 +0000
Subject: [PATCH 29/72] fix: functions of an archive accept a null archive, and
 require a target and data

---
 src/libsrcml/srcml_archive.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 970999c..9c9ed36 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -107,6 +107,9 @@ const char* srcml_archive_error_string(const struct srcml_archive* archive) {
  */
 void srcml_archive_free(struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return;
+
     if (archive->translator) {
         delete archive->translator;
         archive->translator = nullptr;
@@ -126,9 +129,6 @@ void srcml_archive_free(struct srcml_archive* archive) {
         archive->reader = nullptr;
     }
 
-    if (archive == nullptr)
-        return;
-
     delete archive;
 }
 
@@ -302,6 +302,10 @@ int srcml_archive_set_options(struct srcml_archive* archive, size_t options) {
  * @param archive a srcml_archive
  */
 int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
+
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_ARCHIVE) == 0;
 }
 
@@ -310,6 +314,9 @@ int srcml_archive_is_solitary_unit(const struct srcml_archive* archive) {
  */
 int srcml_archive_has_hash(const struct srcml_archive* archive) {
 
+    if (archive == nullptr)
+        return 0;
+
     return (archive->options & SRCML_OPTION_HASH) != 0;
 }
 
@@ -506,7 +513,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
  */
 int srcml_archive_set_processing_instruction(struct srcml_archive* archive, const char* target, const char* data) {
 
-    if (archive == nullptr)
+    if (archive == nullptr || target == nullptr || data == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
     archive->processing_instruction = std::pair<std::string,std::string>(target, data);
@@ -765,7 +772,7 @@ const char* srcml_archive_get_uri_from_prefix(const struct srcml_archive* archiv
  */
 const char* srcml_archive_get_processing_instruction_target(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
+    return archive && archive->processing_instruction ? archive->processing_instruction->first.c_str() : 0;
 }
 
 /**
@@ -776,7 +783,7 @@ const char* srcml_archive_get_processing_instruction_target(const struct srcml_a
  */
 const char* srcml_archive_get_processing_instruction_data(const struct srcml_archive* archive) {
 
-    return archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
+    return archive && archive->processing_instruction ?  archive->processing_instruction->second.c_str() : 0;
 }
 
 /**
-- 
2.43.0


From 44bcf9e2a82ae6c717b2fbc2e38f6eba04b5934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 30/72] fix: opening an archive for writing reports that the
 file cannot be opened

---
 src/libsrcml/srcml_archive.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 9c9ed36..05f92ef 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -926,8 +926,11 @@ int srcml_archive_write_open_filename(struct srcml_archive* archive, const char*
     if (archive == nullptr || srcml_filename == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
-    archive->type = SRCML_ARCHIVE_WRITE;
     archive->output_buffer = xmlOutputBufferCreateFilename(srcml_filename, 0, 0);
+    if (archive->output_buffer == nullptr)
+        return SRCML_STATUS_IO_ERROR;
+
+    archive->type = SRCML_ARCHIVE_WRITE;
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 931331c7ccc8835b7255c42662bc078c34b66dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:24 +0000
Subject: [PATCH 31/72] fix: source that could not be written out is reported

---
 src/libsrcml/srcml_unit.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 3b249ac..3a50f9e 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -711,8 +711,9 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
     }
 
     // if EOL is not auto, then need to convert for
+    int written = 0;
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
+        written = xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
     } else {
 
         // convert to the given eol
@@ -737,9 +738,16 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
             }
         }
 
-        xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());
+        written = xmlOutputBufferWrite(output_handler.get(), (int) neol.size(), neol.c_str());
     }
 
+    // the source is output only if all of it was written, and the output could be closed
+    if (written < 0 || xmlOutputBufferFlush(output_handler.get()) < 0)
+        return SRCML_STATUS_IO_ERROR;
+
+    if (xmlOutputBufferClose(output_handler.release()) < 0)
+        return SRCML_STATUS_IO_ERROR;
+
     return SRCML_STATUS_OK;
 }
 
@@ -789,8 +797,11 @@ int srcml_unit_unparse_memory(struct srcml_unit* unit, char** src_buffer, size_t
         buffer = xmlBufferCreate();
         return xmlOutputBufferCreateBuffer(buffer, handler);
     });
-    if (status != SRCML_STATUS_OK)
+    if (status != SRCML_STATUS_OK) {
+        if (buffer)
+            xmlBufferFree(buffer);
         return status;
+    }
 
     // source may contain null bytes (e.g., UTF-16), so use the size of the buffer
     const size_t size = (size_t) xmlBufferLength(buffer);
-- 
2.43.0


From 1c8ef0728680150375677fa89ab44eafcb8ea097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:43 +0000
Subject: [PATCH 32/72] fix: a short file name is not read before its start

---
 src/libsrcml/libsrcml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 945d745..2c92735 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -217,7 +217,7 @@ int srcml(const char* input_filename, const char* output_filename) {
         size_t len = strlen(input_filename);
         if (!((len > 4 && tolower(input_filename[len - 1]) == 'l' && tolower(input_filename[len - 2]) == 'm'
             && ((tolower(input_filename[len - 3]) == 'x' && input_filename[len - 4] == '.')
-             || (tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
+             || (len > 6 && tolower(input_filename[len - 3]) == 'c' && tolower(input_filename[len - 4]) == 'r' && tolower(input_filename[len - 5]) == 's' && tolower(input_filename[len - 6]) == '.')))
            || (global_archive.language && strcmp(global_archive.language->c_str(), "xml") == 0))) {
 
             if (global_archive.language) {
-- 
2.43.0


From 9c67385cd7961b9ff0817efca31044cd0e21b5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 33/72] fix: srcml() reports a document without a unit

---
 src/libsrcml/libsrcml.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index 2c92735..c983fab 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -241,8 +241,10 @@ int srcml(const char* input_filename, const char* output_filename) {
             return status;
 
         std::unique_ptr<srcml_unit> unit(srcml_archive_read_unit(archive.get()));
-        if (!unit)
-            return status;
+        if (!unit) {
+            global_archive.error_string = "Unable to read srcML unit";
+            return SRCML_STATUS_IO_ERROR;
+        }
 
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
         if (status != SRCML_STATUS_OK)
-- 
2.43.0


From e0f6e258ef662d0e03538daeafc33303b0c896f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 34/72] fix: srcml() writes source with the line ending that
 was set

---
 src/libsrcml/libsrcml.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libsrcml/libsrcml.cpp b/src/libsrcml/libsrcml.cpp
index c983fab..ac3dab0 100644
--- a/src/libsrcml/libsrcml.cpp
+++ b/src/libsrcml/libsrcml.cpp
@@ -246,6 +246,11 @@ int srcml(const char* input_filename, const char* output_filename) {
             return SRCML_STATUS_IO_ERROR;
         }
 
+        // line ending possibly set by convenience functions
+        status = srcml_unit_set_eol(unit.get(), srcml_unit_get_eol(&global_unit));
+        if (status != SRCML_STATUS_OK)
+            return status;
+
         status = srcml_unit_unparse_filename(unit.get(), output_filename);
         if (status != SRCML_STATUS_OK)
             return status;
-- 
2.43.0


From f4c6e4ee864d2cd321873fa5b274786e28d3dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 35/72] fix: a document without an XML declaration is in UTF-8
 wherever it is written

---
 src/libsrcml/srcml_archive.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 05f92ef..77cce1f 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -980,7 +980,7 @@ int srcml_archive_write_open_FILE(struct srcml_archive* archive, FILE* srcml_fil
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFile(srcml_file, 0);
 
     return SRCML_STATUS_OK;
 }
@@ -1002,7 +1002,7 @@ int srcml_archive_write_open_fd(struct srcml_archive* archive, int srcml_fd) {
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateFd(srcml_fd, 0);
 
     return SRCML_STATUS_OK;
 }
@@ -1027,7 +1027,7 @@ int srcml_archive_write_open_io(struct srcml_archive* archive, void * context, i
 
     archive->type = SRCML_ARCHIVE_WRITE;
 
-    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, xmlFindCharEncodingHandler(archive->encoding ? archive->encoding->c_str() : 0));
+    archive->output_buffer = xmlOutputBufferCreateIO(write_callback, close_callback, context, 0);
 
     return SRCML_STATUS_OK;
 }
-- 
2.43.0


From 1e5ee239e9954304ac3c4d4c06bc368d76dcfa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:19 +0000
Subject: [PATCH 36/72] fix: a closed archive can be closed again and reopened

---
 src/libsrcml/srcml_archive.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index 77cce1f..bca9acb 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -1353,12 +1353,18 @@ void srcml_archive_close(struct srcml_archive* archive) {
 
     if (archive->translator) {
         archive->translator->close();
+
+        // the output buffer is part of the translator
+        delete archive->translator;
+        archive->translator = nullptr;
+        archive->output_buffer = nullptr;
     }
 
-    if (archive->rawwrites && archive->output_buffer) {
+    if (archive->output_buffer) {
         xmlOutputBufferClose(archive->output_buffer);
         archive->output_buffer = nullptr;
     }
+    archive->rawwrites = false;
 
     // Give the user the completed buffer if opened using srcml_archive_write_open_memory()
     if (archive->buffer && archive->size) {
@@ -1368,5 +1374,18 @@ void srcml_archive_close(struct srcml_archive* archive) {
         (*archive->buffer) = (char *) xmlBufferDetach(archive->xbuffer);
     }
 
+    // the archive no longer refers to the user's buffer, and can be reopened
+    archive->buffer = nullptr;
+    archive->size = nullptr;
+    if (archive->xbuffer) {
+        xmlBufferFree(archive->xbuffer);
+        archive->xbuffer = nullptr;
+    }
+
+    if (archive->reader) {
+        delete archive->reader;
+        archive->reader = nullptr;
+    }
+
     archive->type = SRCML_ARCHIVE_INVALID;
 }
-- 
2.43.0


From 07c25f3ab6c1d99feedbf682a56f6d300356ee1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:23 +0000
Subject: [PATCH 37/72] fix: results of a transformation accept a null result,
 and reject a negative index

---
 src/libsrcml/srcml_transform.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/libsrcml/srcml_transform.cpp b/src/libsrcml/srcml_transform.cpp
index b56b9a9..d54f729 100644
--- a/src/libsrcml/srcml_transform.cpp
+++ b/src/libsrcml/srcml_transform.cpp
@@ -770,6 +770,9 @@ int srcml_unit_apply_transforms(struct srcml_archive* archive, struct srcml_unit
  */
 int srcml_transform_free(struct srcml_transform_result* result) {
 
+    if (result == nullptr)
+        return SRCML_STATUS_INVALID_ARGUMENT;
+
     for (auto unit : result->units) {
         srcml_unit_free(unit);
     }
@@ -785,7 +788,7 @@ int srcml_transform_free(struct srcml_transform_result* result) {
  */
 LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result) {
 
-    return result->type;
+    return result ? result->type : SRCML_RESULT_NONE;
 }
 
 /**
@@ -795,7 +798,7 @@ LIBSRCML_DECL int srcml_transform_get_type(struct srcml_transform_result* result
 int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
        return 0;
 
     return (int) result->units.size();
@@ -809,10 +812,10 @@ int srcml_transform_get_unit_size(struct srcml_transform_result* result) {
 struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* result, int index) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_UNITS)
+    if (result == nullptr || result->type != SRCML_RESULT_UNITS)
         return 0;
 
-    if (index >= (int) result->units.size())
+    if (index < 0 || index >= (int) result->units.size())
         return 0;
 
     return result->units[index];
@@ -825,7 +828,7 @@ struct srcml_unit* srcml_transform_get_unit(struct srcml_transform_result* resul
 const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_STRING)
+    if (result == nullptr || result->type != SRCML_RESULT_STRING)
         return 0;
 
     if (!result->stringValue)
@@ -841,7 +844,7 @@ const char* srcml_transform_get_string(struct srcml_transform_result* result) {
 double srcml_transform_get_number(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_NUMBER)
+    if (result == nullptr || result->type != SRCML_RESULT_NUMBER)
         return 0;
 
     if (!result->numberValue)
@@ -857,7 +860,7 @@ double srcml_transform_get_number(struct srcml_transform_result* result) {
 int srcml_transform_get_bool(struct srcml_transform_result* result) {
 
     // make sure correct result type
-    if (result->type != SRCML_RESULT_BOOLEAN)
+    if (result == nullptr || result->type != SRCML_RESULT_BOOLEAN)
         return -1;
 
     if (!result->boolValue)
-- 
2.43.0


From b615f14b1c8f50bb9bb65b83c8c75734e5932513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 38/72] fix: reading an archive no longer depends on other
 archives that are read at the same time

---
 src/libsrcml/sax2_srcsax_handler.cpp | 20 +++++++-------------
 src/libsrcml/sax2_srcsax_handler.hpp |  6 ++++++
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index db7959e..03ced8a 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -48,12 +48,6 @@
     #define SRCSAX_DEBUG_END_CHARS(ch,len)
 #endif
 
-// libxml2 places elements into a dictionary
-// once initialized, can compare pointers instead of strings
-static const xmlChar* UNIT_ENTRY = nullptr;
-static const xmlChar* MACRO_LIST_ENTRY = nullptr;
-static const xmlChar* ESCAPE_ENTRY = nullptr;
-
 /**
  * factory
  *
@@ -192,9 +186,9 @@ void start_document(void* ctx) {
     SRCSAX_DEBUG_START("");
 
     // save for dictionary lookup of common elements
-    UNIT_ENTRY       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
-    MACRO_LIST_ENTRY = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
-    ESCAPE_ENTRY     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
+    state->unit_entry       = xmlDictLookup(ctxt->dict, (const xmlChar*) "unit", (int) strlen("unit"));
+    state->macro_list_entry = xmlDictLookup(ctxt->dict, (const xmlChar*) "macro-list", (int) strlen("macro-list"));
+    state->escape_entry     = xmlDictLookup(ctxt->dict, (const xmlChar*) "escape", (int) strlen("escape"));
 
     // save the encoding from the input
     state->context->encoding = "UTF-8";
@@ -383,7 +377,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
 
     // if macros are found, then must return, process first
     // but stay in first_start_element, since this can be between root unit and nested unit
-    if (localname == MACRO_LIST_ENTRY) {
+    if (localname == state->macro_list_entry) {
 
         state->context->handler->meta_tag(state->context, (const char*) localname, (const char*) prefix, (const char*) URI,
                                           nb_namespaces, namespaces, nb_attributes, attributes);
@@ -391,7 +385,7 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
     }
 
     // archive when the first element after the root is <unit>
-    state->context->is_archive = (localname == UNIT_ENTRY);
+    state->context->is_archive = (localname == state->unit_entry);
 
     // turn off first_start_element() handling
     ctxt->sax->startElementNs = &start_element;
@@ -649,7 +643,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == ESCAPE_ENTRY) {
+        if (localname == state->escape_entry) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -707,7 +701,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
     SRCSAX_DEBUG_END(localname);
 
     // plain end element
-    if (localname != UNIT_ENTRY) {
+    if (localname != state->unit_entry) {
         return;
     }
 
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 7357a74..37915cd 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -98,6 +98,12 @@ struct sax2_srcsax_handler {
     std::vector<std::pair<std::string, std::string>> unit_namespaces;
 
     bool rootcalled = false;
+
+    // libxml2 places elements into a dictionary of the parser context
+    // once initialized, can compare pointers instead of strings
+    const xmlChar* unit_entry = nullptr;
+    const xmlChar* macro_list_entry = nullptr;
+    const xmlChar* escape_entry = nullptr;
 };
 
 /**
-- 
2.43.0


From 93c9e2a6332b198015b8bd290438a7f0c7d1dcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 39/72] fix: reading an archive no longer depends on how the
 reader thread is scheduled

---
 src/libsrcml/srcSAXController.cpp     |  2 +-
 src/libsrcml/srcml_reader_handler.hpp | 89 ++++++++++-----------------
 src/libsrcml/srcml_sax2_reader.cpp    |  6 +-
 3 files changed, 36 insertions(+), 61 deletions(-)

diff --git a/src/libsrcml/srcSAXController.cpp b/src/libsrcml/srcSAXController.cpp
index 990b85f..a8229da 100644
--- a/src/libsrcml/srcSAXController.cpp
+++ b/src/libsrcml/srcSAXController.cpp
@@ -83,7 +83,7 @@ void srcSAXController::parse(srcSAXHandler * handler) {
     if (status != 0) {
 
         xmlErrorPtr ep = xmlCtxtGetLastError(context->libxml2_context);
-        SAXError error = { std::string(ep->message), ep->code };
+        SAXError error = { ep && ep->message ? std::string(ep->message) : std::string(), ep ? ep->code : status };
 
         throw error;
     }
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 7918f73..c888b5d 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -106,8 +106,8 @@ private :
     /** terminate */
     bool terminate = false;
 
-    /** indicate if we need to wait on the root */
-    bool wait_root = true;
+    /** the parser runs while true, otherwise it is paused or finished, and the caller runs */
+    bool parsing = true;
 
     /** skip internal unit elements */
     bool skip = false;
@@ -154,49 +154,54 @@ public :
 
         std::unique_lock<std::mutex> lock(mutex);
 
-        if (is_done)
-            return;
-
-        if (wait_root)
-            cond.wait(lock);
+        cond.wait(lock, [this] { return !parsing; });
     }
 
     /**
-     * resume
+     * resume_and_wait
      *
-     * Resume SAX2 execution.
+     * Atomic resume SAX2 execution then wait.
      */
-    void resume() {
+    void resume_and_wait() {
 
         std::unique_lock<std::mutex> lock(mutex);
 
+        if (is_done)
+            return;
+
+        parsing = true;
         cond.notify_one();
+        cond.wait(lock, [this] { return !parsing; });
     }
 
     /**
-     * resume_and_wait
+     * pause
      *
-     * Atomic resume SAX2 execution then wait.
+     * Pause SAX2 execution until resumed, or stopped.
      */
-    void resume_and_wait() {
+    void pause() {
 
         std::unique_lock<std::mutex> lock(mutex);
-        cond.notify_one();
-        if (is_done)
+
+        if (terminate)
             return;
 
-        cond.wait(lock);
+        parsing = false;
+        cond.notify_one();
+        cond.wait(lock, [this] { return parsing; });
     }
 
     /**
      * done
      *
-     * Mark is done
+     * Mark is done. Parsing is finished.
      */
     void done() {
 
-        is_done = true;
+        std::unique_lock<std::mutex> lock(mutex);
 
+        is_done = true;
+        parsing = false;
         cond.notify_one();
     }
 
@@ -208,13 +213,11 @@ public :
      */
     void stop() {
 
-        {
-            std::unique_lock<std::mutex> lock(mutex);
-
-            terminate = true;
-        }
+        std::unique_lock<std::mutex> lock(mutex);
 
-        resume();
+        terminate = true;
+        parsing = true;
+        cond.notify_one();
     }
 
 #pragma GCC diagnostic push
@@ -348,16 +351,8 @@ public :
         // pause
         if (!read_root) {
 
-            {
-                std::unique_lock<std::mutex> lock(mutex);
-
-                if (terminate)
-                    stop_parser();
-                wait_root = false;
-                cond.notify_one();
-                cond.wait(lock);
-                read_root = true;
-            }
+            pause();
+            read_root = true;
 
             if (terminate) {
 
@@ -376,13 +371,7 @@ public :
 
         if (collect_unit_header) {
 
-            // pause
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate)
-                stop_parser();
-
-            cond.notify_one();
-            cond.wait(lock);
+            pause();
         }
 
         state->loc = 0;
@@ -403,8 +392,7 @@ public :
      * @param prefix prefix for the tag
      * @param URI uri for tag
      *
-     * Overidden endRoot to indicate done with parsing and
-        free any waiting process.
+     * Overidden endRoot to stop the parser if terminated.
      */
     virtual void endRoot(const char* localname, const char* prefix, const char* URI) {
 
@@ -412,14 +400,7 @@ public :
         fprintf(stderr, "HERE: %s %s %d '%s'\n", __FILE__, __FUNCTION__, __LINE__, (const char *)localname);
 #endif
 
-        {
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate)
-                stop_parser();
-            is_done = true;
-            cond.notify_one();
-        }
-
+        // the caller continues once the entire document is parsed
         if (terminate)
             stop_parser();
 
@@ -480,11 +461,7 @@ public :
                 }
             }
 
-            // pause
-            std::unique_lock<std::mutex> lock(mutex);
-            if (terminate) stop_parser();
-            cond.notify_one();
-            cond.wait(lock);
+            pause();
         }
 
         if (terminate)
diff --git a/src/libsrcml/srcml_sax2_reader.cpp b/src/libsrcml/srcml_sax2_reader.cpp
index 567126d..51182cb 100644
--- a/src/libsrcml/srcml_sax2_reader.cpp
+++ b/src/libsrcml/srcml_sax2_reader.cpp
@@ -45,13 +45,11 @@ static void* start_routine(thread_args* args) {
         if (!(error.error_code == XML_ERR_EXTRA_CONTENT || error.error_code == XML_ERR_DOCUMENT_END)) {
 
             fprintf(stderr, "Error Parsing: %s\n", error.message.c_str());
-
-            args->handler->done();
         }
-
-        // might have to release a lock here or set is_done
     }
 
+    args->handler->done();
+
     return 0;
 }
 
-- 
2.43.0


From 7326d2b57e6108661ed3ece62ed8c1f947cc6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 40/72] fix: srcML of a unit that is read is complete for long
 text, comments, CDATA, any order of attributes, and content in between

---
 src/libsrcml/sax2_srcsax_handler.cpp | 150 ++++++++++++++++++++-------
 src/libsrcml/sax2_srcsax_handler.hpp |   3 +
 src/libsrcml/srcml_unit.cpp          |  31 +++---
 src/libsrcml/unit_utilities.cpp      |  38 +++++++
 src/libsrcml/unit_utilities.hpp      |   5 +
 5 files changed, 170 insertions(+), 57 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 03ced8a..2b893a1 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -22,6 +22,7 @@
 
 #include <sax2_srcsax_handler.hpp>
 #include <srcmlns.hpp>
+#include <unit_utilities.hpp>
 #include <string>
 #include <algorithm>
 #include <cstring>
@@ -97,6 +98,27 @@ static void update_ctx(void* ctx) {
     state->prevbase = ctxt->input->base;
 }
 
+// start of the tag being parsed. Comments, whitespace, etc. before it may have been skipped
+static const xmlChar* start_of_tag(xmlParserCtxtPtr ctxt) {
+
+    auto p = ctxt->input->cur;
+    while (p > ctxt->input->base && *p != '<')
+        --p;
+
+    return p;
+}
+
+// collect the end of the start tag, which is only passed once its content is reached
+static void end_start_tag(sax2_srcsax_handler* state) {
+
+    if (!state->start_tag_open)
+        return;
+
+    state->unitsrcml.append(1, '>');
+    state->base += 1;
+    state->start_tag_open = false;
+}
+
 // unit and root delayed-start processing
 static int reparse_root(void* ctx) {
 
@@ -262,6 +284,8 @@ void start_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     state->mode = ROOT;
 
+    state->base = start_of_tag(ctxt);
+
     // save the root start tag because we are going to parse it again to generate proper start_root() and start_unit()
     // calls after we know whether this is an archive or not
     state->rootstarttag.reserve(ctxt->input->cur - state->base + 2);
@@ -460,27 +484,50 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     if (true || state->collect_unit_body) {
 
-        // find end of unit tag name, e.g., end of "<unit" or "<src:unit"
-        int pos = (int) (1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0) + 1);
-
-        if (pos >= 0) {
-            // merge the namespaces from the root into this one
-            state->unitsrcml.reserve(ctxt->input->cur - state->base + 1 + (state->context->is_archive ? state->rootnsstr.size() : 0));
-            state->unitsrcml.assign((const char*) state->base, pos);
-            state->insert_begin = (int) state->unitsrcml.size();
-            if (state->context->is_archive) {
-                state->unitsrcml.append(state->rootnsstr);
-                state->insert_end = (int) state->unitsrcml.size();
-            }
+        state->base = start_of_tag(ctxt);
+
+        std::string& s = state->unitsrcml;
 
-            state->unitsrcml.append((const char*) state->base + pos, ctxt->input->cur - state->base + 1 - pos);
+        // start tag, including the last character, i.e., '>' or the '/' of an empty tag
+        s.assign((const char*) state->base, ctxt->input->cur - state->base + 1);
 
-            if (!state->context->is_archive) {
-                std::string& s = state->unitsrcml;
-                auto pos = s.find("xmlns");
-                auto firstquote = s.find("\"", pos + 1);
-                auto secondquote = s.find("\"", firstquote + 1);
-                state->insert_end = (int) secondquote + 2;
+        // find end of unit tag name, e.g., end of "<unit" or "<src:unit"
+        auto pos = 1 + strlen((const char*) localname) + (prefix ? strlen((const char*) prefix) + 1 : 0);
+
+        if (state->context->is_archive) {
+
+            // merge the namespaces from the root into this one, after the tag name
+            if (s[pos] == '>' || s[pos] == '/')
+                s.insert(pos, 1, ' ');
+            ++pos;
+            s.insert(pos, state->rootnsstr);
+
+            state->insert_begin = (int) pos;
+            state->insert_end = (int) (pos + state->rootnsstr.size());
+
+        } else {
+
+            // first namespace declaration, moved in front of the other attributes
+            state->insert_begin = state->insert_end = (int) pos;
+            std::string::size_type begin;
+            std::string name;
+            auto end = pos;
+            for (auto previous = pos; next_attribute(s, end, begin, name); previous = end) {
+
+                if (name != "xmlns" && name.compare(0, 6, "xmlns:") != 0)
+                    continue;
+
+                if (previous != pos) {
+                    std::string declaration(s, begin, end - begin);
+                    s.erase(previous, end - previous);
+                    begin = pos + 1;
+                    end = begin + declaration.size();
+                    s.insert(begin, declaration + ' ');
+                }
+
+                state->insert_begin = (int) begin;
+                state->insert_end = (int) end + (s[end] == '>' || s[end] == '/' ? 0 : 1);
+                break;
             }
         }
 
@@ -554,6 +601,11 @@ void end_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
     if (true || state->collect_unit_body)
         ctxt->sax->ignorableWhitespace = ctxt->sax->characters = &characters_root;
 
+    // skip over anything else between units
+    ctxt->sax->comment = &comment;
+    ctxt->sax->cdataBlock = &cdata_block;
+    ctxt->sax->processingInstruction = &processing_instruction;
+
     SRCSAX_DEBUG_END(localname);
 }
 
@@ -609,7 +661,7 @@ void end_root(void* ctx, const xmlChar* localname, const xmlChar* prefix, const
  */
 void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix */, const xmlChar* /* URI */,
                     int /* nb_namespaces */, const xmlChar** /* namespaces */,
-                    int /* nb_attributes */, int /* nb_defaulted */, const xmlChar** attributes) {
+                    int nb_attributes, int /* nb_defaulted */, const xmlChar** attributes) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -625,10 +677,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
     if (state->collect_unit_body) {
 
         // end previous start element
-        if (state->base[0] == '>') {
-            state->unitsrcml.append(1, '>');
-            state->base += 1;
-        }
+        end_start_tag(state);
 
         auto srcmllen = ctxt->input->cur - state->base;
         if (srcmllen < 0) {
@@ -643,7 +692,7 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
         // Special element <escape char="0x0c"/> used to embed non-XML characters
         // extract the value of the char attribute and add to the src (text)
-        if (localname == state->escape_entry) {
+        if (localname == state->escape_entry && nb_attributes > 0) {
 
             std::string svalue((const char *)attributes[0 * 5 + 3], attributes[0 * 5 + 4] - attributes[0 * 5 + 3]);
 
@@ -651,6 +700,8 @@ void start_element(void* ctx, const xmlChar* localname, const xmlChar* /* prefix
 
             state->unitsrc.append(1, value);
         }
+
+        state->start_tag_open = true;
     }
     state->base = ctxt->input->cur;
 
@@ -696,6 +747,7 @@ void end_element(void* ctx, const xmlChar* localname, const xmlChar* prefix, con
         SRCML_DEBUG("UNIT", state->unitsrcml.c_str(), state->unitsrcml.size());
     }
 
+    state->start_tag_open = false;
     state->base = ctxt->input->cur;
 
     SRCSAX_DEBUG_END(localname);
@@ -787,14 +839,9 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
     update_ctx(ctx);
 
     // end previous start element
-    if (state->base[0] == '>') {
-        state->unitsrcml.append(1, '>');
-        state->base += 1;
-    }
+    end_start_tag(state);
 
-    // libxml2 handles things in the background differently for whitespace and escaped characters
-    // using a different buffer. For POS (Plain Old Strings), it uses the original buffer
-    if (state->base == ctxt->input->cur) {
+    if (ch == ctxt->input->cur) {
 
         // plain old strings
         state->unitsrcml.append((const char*) ch, len);
@@ -802,11 +849,17 @@ void characters_unit(void* ctx, const xmlChar* ch, int len) {
         // libxml2 passes ctxt->input->cur as ch, so then must increment to len
         state->base = ctxt->input->cur + len;
 
-    } else {
+    } else if (state->base >= ctxt->input->base && state->base < ctxt->input->cur && *state->base == '&') {
 
-        // whitespace and escaped characters
+        // character and entity references are collected as they are in the document
         state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
         state->base = ctxt->input->cur;
+
+    } else {
+
+        // text, which may no longer be in the input buffer
+        state->unitsrcml.append((const char*) ch, len);
+        state->base = ctxt->input->cur;
     }
 
     SRCML_DEBUG("UNIT", state->unitsrcml.c_str(), state->unitsrcml.size());
@@ -839,6 +892,8 @@ void comment(void* ctx, const xmlChar* value) {
 
     if (state->collect_unit_body) {
 
+        end_start_tag(state);
+
         // take the value but note it could be part of inter-unit
         state->unitsrcml.append("<!--");
         state->unitsrcml.append((const char*) value);
@@ -875,15 +930,21 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
     // append CDATA
     if (state->collect_unit_body) {
 
-        // xml can get raw
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        end_start_tag(state);
+
+        // take the value as the section may no longer be in the input buffer
+        state->unitsrcml.append("<![CDATA[");
+        state->unitsrcml.append((const char*) value, len);
+        state->unitsrcml.append("]]>");
 
         // CDATA is character data
         state->unitsrc.append((const char*) value, len);
 
-        state->base = ctxt->input->cur;
+        state->loc += (int) std::count((const char*) value, (const char*) value + len, '\n');
     }
 
+    state->base = ctxt->input->cur;
+
     SRCSAX_DEBUG_END("");
 }
 
@@ -896,7 +957,7 @@ void cdata_block(void* ctx, const xmlChar* value, int len) {
  * Called when a processing instruction has been parsed.
  * Immediately calls supplied handlers function.
  */
-void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlChar* /* data */) {
+void processing_instruction(void* ctx, const xmlChar* target, const xmlChar* data) {
 
     auto ctxt = (xmlParserCtxtPtr) ctx;
     if (ctxt == nullptr)
@@ -911,10 +972,19 @@ void processing_instruction(void* ctx, const xmlChar* /* target */, const xmlCha
 
     if (state->collect_unit_body) {
 
-        state->unitsrcml.append((const char*) state->base, ctxt->input->cur - state->base);
+        end_start_tag(state);
 
-        state->base = ctxt->input->cur;
+        // take the value as the instruction may no longer be in the input buffer
+        state->unitsrcml.append("<?");
+        state->unitsrcml.append((const char*) target);
+        if (data) {
+            state->unitsrcml.append(1, ' ');
+            state->unitsrcml.append((const char*) data);
+        }
+        state->unitsrcml.append("?>");
     }
 
+    state->base = ctxt->input->cur;
+
     SRCSAX_DEBUG_END("");
 }
diff --git a/src/libsrcml/sax2_srcsax_handler.hpp b/src/libsrcml/sax2_srcsax_handler.hpp
index 37915cd..6bacd85 100644
--- a/src/libsrcml/sax2_srcsax_handler.hpp
+++ b/src/libsrcml/sax2_srcsax_handler.hpp
@@ -99,6 +99,9 @@ struct sax2_srcsax_handler {
 
     bool rootcalled = false;
 
+    // start tag of the current element still needs its ending '>' collected
+    bool start_tag_open = false;
+
     // libxml2 places elements into a dictionary of the parser context
     // once initialized, can compare pointers instead of strings
     const xmlChar* unit_entry = nullptr;
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index 3a50f9e..cedd996 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -28,6 +28,7 @@
 #include <cstring>
 #include <fcntl.h>
 #include <srcml_macros.hpp>
+#include <unit_utilities.hpp>
 
 /******************************************************************************
  *                                                                            *
@@ -381,23 +382,19 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     // construct the fragment from the full srcML, excluding the inserted root tag stuff (including namespaces)
     if (!unit->srcml_fragment) {
 
-        // find end of unit tag, e.g., end of "<unit ...>" or "<src:unit ...>"
-        std::string prefix = "";
-        auto pos = unit->srcml.find(">");
-
-        int insert_attr_begin = 0;
-        int insert_attr_end = 0;
-
-        if (pos != std::string::npos) {
-            // find url attribute
-            std::string s(unit->srcml, 0, pos);
-            auto pos2 = s.find(" url=");
-            if (pos2 != std::string::npos) {
-                insert_attr_begin = (int) pos2;
-                pos2 += 6;
-                auto pos3 = s.find("\"", pos2);
-                pos3 += 1;
-                insert_attr_end = (int) pos3;
+        // find the url attribute of the unit tag
+        std::string::size_type insert_attr_begin = 0;
+        std::string::size_type insert_attr_end = 0;
+        std::string::size_type begin;
+        std::string name;
+        auto pos = unit->srcml.find_first_of(" \t\r\n/>");
+        while (pos != std::string::npos && next_attribute(unit->srcml, pos, begin, name)) {
+
+            if (name == "url") {
+                // include the space before, which for the first attribute is already excluded
+                insert_attr_begin = begin > (std::string::size_type) unit->insert_end ? begin - 1 : begin;
+                insert_attr_end = pos;
+                break;
             }
         }
 
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index a3ca02e..29207fe 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -206,3 +206,41 @@ std::string attribute_revision(const std::string& attribute, int revision) {
 
     return attribute.substr(pos + 1);
 }
+
+/**
+ * next_attribute
+ * @param tag text of a start tag
+ * @param pos position past the tag name, or past the previous attribute, moved past the attribute found
+ * @param begin position of the attribute found
+ * @param name qualified name of the attribute found
+ *
+ * Find the next attribute (including namespace declarations) of a well-formed start tag.
+ *
+ * @returns if an attribute was found
+ */
+bool next_attribute(const std::string& tag, std::string::size_type& pos, std::string::size_type& begin, std::string& name) {
+
+    const char* const whitespace = " \t\r\n";
+
+    begin = tag.find_first_not_of(whitespace, pos);
+    if (begin == std::string::npos || tag[begin] == '>' || tag[begin] == '/')
+        return false;
+
+    auto equals = tag.find('=', begin);
+    if (equals == std::string::npos)
+        return false;
+
+    name.assign(tag, begin, tag.find_last_not_of(whitespace, equals - 1) + 1 - begin);
+
+    auto quote = tag.find_first_of("\"'", equals);
+    if (quote == std::string::npos)
+        return false;
+
+    auto endquote = tag.find(tag[quote], quote + 1);
+    if (endquote == std::string::npos)
+        return false;
+
+    pos = endquote + 1;
+
+    return true;
+}
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index 31a6b6b..df145bc 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -26,6 +26,7 @@
 #include <srcml_types.hpp>
 #include <srcml.h>
 #include <libxml/parser.h>
+#include <string>
 
 // Update unit attributes with xml parsed attributes
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
@@ -33,6 +34,10 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
 // Extract source code from srcml
 std::string extract_src(const std::string& srcml, boost::optional<int> revision = boost::none);
 std::string extract_revision(const char* srcml, int size, int revision, bool text_only = false);
+
+// Find the next attribute in a start tag, and advance past it
+bool next_attribute(const std::string& tag, std::string::size_type& pos, std::string::size_type& begin, std::string& name);
+
 std::string attribute_revision(const std::string& attribute, int revision);
 
 #endif
-- 
2.43.0


From b2bbf61a4536e1ce1876ef8b93d3c477356c853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:02 +0000
Subject: [PATCH 41/72] fix: lines of code of a solitary unit include those
 before the first element

---
 src/libsrcml/sax2_srcsax_handler.cpp  | 4 ++--
 src/libsrcml/srcml_reader_handler.hpp | 2 --
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 2b893a1..91e7d5b 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -427,8 +427,6 @@ void first_start_element(void* ctx, const xmlChar* localname, const xmlChar* pre
         // restart unit count due to call of start_unit() in start_root() when we assumed a solo unit
         state->unit_count = 0;
 
-        state->loc = 0;
-
         // unit starts for real, discarding previous start_unit() in start_root()
         start_unit(ctx, localname, prefix, URI, nb_namespaces, namespaces, nb_attributes, 0, attributes);
 
@@ -482,6 +480,8 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
 
     state->unit_count += 1;
 
+    state->loc = 0;
+
     if (true || state->collect_unit_body) {
 
         state->base = start_of_tag(ctxt);
diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index c888b5d..3af3462 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -374,8 +374,6 @@ public :
             pause();
         }
 
-        state->loc = 0;
-
         state->collect_unit_body = collect_unit_body;
 
         if (terminate)
-- 
2.43.0


From ea5750ef42e5559d1702c713643f4583961c3d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:54 +0000
Subject: [PATCH 42/72] fix: units written to another archive declare the
 namespaces of the root of their own archive, each prefix once

---
 src/libsrcml/srcml_archive.cpp    |  2 +-
 src/libsrcml/srcml_translator.cpp |  9 ++++++
 src/parser/srcMLOutput.cpp        | 51 +++++++++++++++++++------------
 src/parser/srcMLOutput.hpp        |  4 +++
 4 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index bca9acb..e62db99 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -481,7 +481,7 @@ int srcml_archive_register_namespace(struct srcml_archive* archive, const char*
     auto it = view.find(uri);
     if (it != view.end()) {
         // change prefix of existing namespace
-        view.modify(it, [prefix](Namespace& ns) { ns.prefix = prefix; });
+        view.modify(it, [prefix](Namespace& ns) { ns.prefix = prefix; ns.flags |= NS_REGISTERED; });
     } else {
         // add new namespace
         archive->namespaces.push_back({ prefix, uri, NS_REGISTERED });
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 5b5c4d7..2116993 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -219,6 +219,15 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
         mergedns += *unit->namespaces;
     }
 
+    // namespaces used because of the options of, or declared in, the archive of the unit
+    for (const auto& ns : mergedns) {
+        if ((ns.uri == SRCML_CPP_NS_URI && (unit->archive->options & SRCML_OPTION_CPP_DECLARED)) ||
+            (ns.uri == SRCML_POSITION_NS_URI && (unit->archive->options & SRCML_OPTION_POSITION)) ||
+            (ns.uri == SRCML_ERROR_NS_URI && (unit->archive->options & SRCML_OPTION_DEBUG)) ||
+            (ns.uri == SRCML_OPENMP_NS_URI && (ns.flags & NS_REGISTERED)))
+            ns.flags |= NS_USED;
+    }
+
     // if a srcdiff revision, remove the srcdiff namespace
     if (unit->archive->revision_number) {
         auto&& view = mergedns.get<nstags::uri>();
diff --git a/src/parser/srcMLOutput.cpp b/src/parser/srcMLOutput.cpp
index f737413..5e9c048 100644
--- a/src/parser/srcMLOutput.cpp
+++ b/src/parser/srcMLOutput.cpp
@@ -258,34 +258,45 @@ void srcMLOutput::outputNamespaces(xmlTextWriterPtr xout, const OPTION_TYPE& opt
     if (isoption(options, SRCML_OPTION_DEBUG))
         view.find(SRCML_ERROR_NS_URI)->flags |= NS_USED;
 
-    for (const auto& ns : namespaces) {
+    const bool is_root = depth == 0 || !isoption(options, SRCML_OPTION_ARCHIVE);
+    const bool is_unit = depth == 1 || !isoption(options, SRCML_OPTION_ARCHIVE);
 
-        // output standard namespaces for outer unit or non-archive unit
-        if (depth == 0 || !isoption(options, SRCML_OPTION_ARCHIVE)) {
+    // is a namespace one of the root of its archive
+    const auto is_root_namespace = [](const Namespace& ns) {
 
-            // must be required, or on the root and used
-            if ((ns.flags & NS_STANDARD) && ((ns.flags & NS_REQUIRED) || ((ns.flags & NS_ROOT) && (ns.flags & NS_USED)))) {
-                srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
+        // must be required, or on the root and used, or user registered
+        return (ns.flags & NS_STANDARD) ? (ns.flags & NS_REQUIRED) || ((ns.flags & NS_ROOT) && (ns.flags & NS_USED))
+                                        : (ns.flags & NS_REGISTERED) != 0;
+    };
 
-            // must be user registered
-            if (ns.flags & NS_REGISTERED && !(ns.flags & NS_STANDARD)) {
-                srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
+    std::map<std::string, std::string> declared;
+    for (const auto& ns : namespaces) {
+
+        // output root namespaces for outer unit or non-archive unit. On an inner unit they are only
+        // needed when the root that was output does not declare them, e.g., unit is from another archive
+        if (is_root_namespace(ns)) {
+
+            const auto on_root = root_namespaces.find(ns.prefix);
+            if (is_root || on_root == root_namespaces.end() || on_root->second != ns.uri)
+                declared.insert({ ns.prefix, ns.uri });
         }
 
         // output standard namespaces for inner unit or non-archive unit
-        if (depth == 1 || !isoption(options, SRCML_OPTION_ARCHIVE)) {
+        // must be required, must not be on the root, and must be used
+        else if (is_unit && (ns.flags & NS_STANDARD) && !(ns.flags & NS_ROOT) && !(ns.flags & NS_REQUIRED) && (ns.flags & NS_USED))
+            declared[ns.prefix] = ns.uri;
+    }
 
-            // must be required, must not be on the root, and must be used
-            if ((ns.flags & NS_STANDARD) && !(ns.flags & NS_ROOT) && !(ns.flags & NS_REQUIRED) && (ns.flags & NS_USED)) {
-                srcMLTextWriterWriteNamespace(xout, ns);
-                continue;
-            }
-        }
+    // output in order, with each prefix declared only once
+    for (const auto& ns : namespaces) {
+
+        const auto it = declared.find(ns.prefix);
+        if (it != declared.end() && it->second == ns.uri)
+            srcMLTextWriterWriteNamespace(xout, ns);
     }
+
+    if (depth == 0)
+        root_namespaces = std::move(declared);
 }
 
 /**
diff --git a/src/parser/srcMLOutput.hpp b/src/parser/srcMLOutput.hpp
index 2e12837..4531317 100644
--- a/src/parser/srcMLOutput.hpp
+++ b/src/parser/srcMLOutput.hpp
@@ -34,6 +34,7 @@
 #include "TokenStream.hpp"
 #include "srcMLException.hpp"
 #include <string>
+#include <map>
 #include <unordered_map>
 #include "srcmlns.hpp"
 #include <libxml/xmlwriter.h>
@@ -170,6 +171,9 @@ public:
     /* namespaces declared and used */
     Namespaces namespaces;
 
+    /* namespaces declared on the root, prefix to uri */
+    std::map<std::string, std::string> root_namespaces;
+
     /** an array of name-value attribute pairs */
     const std::vector<std::string> unit_attributes;
 
-- 
2.43.0


From 091955e27914fa0bb186ca56442ddd401861b05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:31 +0000
Subject: [PATCH 43/72] fix: srcDiff revisions: source, text after the last
 tag, any prefix, comments and attributes with markup characters

---
 src/libsrcml/srcml_translator.cpp |   6 +-
 src/libsrcml/srcml_types.hpp      |   1 -
 src/libsrcml/srcml_unit.cpp       |  28 ++++----
 src/libsrcml/unit_utilities.cpp   | 116 ++++++++++++++++++------------
 src/libsrcml/unit_utilities.hpp   |   7 +-
 5 files changed, 96 insertions(+), 62 deletions(-)

diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 2116993..5c793b4 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -256,9 +256,11 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
     // write out the contents, excluding the start and end unit tags
     int size = unit->content_end - unit->content_begin - 1;
 
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
+    std::string diffprefix;
+    auto diffrevision = srcdiff_revision(unit, diffprefix);
+    if (diffrevision && size > 0) {
 
-        std::string s = extract_revision(unit->srcml.c_str() + unit->content_begin, size, (int) *unit->archive->revision_number);
+        std::string s = extract_revision(unit->srcml.c_str() + unit->content_begin, size, *diffrevision, diffprefix);
 
         xmlTextWriterWriteRawLen(out.getWriter(), BAD_CAST s.c_str(), (int) s.size());
 
diff --git a/src/libsrcml/srcml_types.hpp b/src/libsrcml/srcml_types.hpp
index 2b4ecd9..5592ad5 100644
--- a/src/libsrcml/srcml_types.hpp
+++ b/src/libsrcml/srcml_types.hpp
@@ -221,7 +221,6 @@ struct srcml_unit {
     /** srcml from read and after parsing */
     std::string srcml;
     boost::optional<std::string> srcml_revision;
-    int currevision = -1;
     boost::optional<std::string> srcml_fragment;
     boost::optional<std::string> srcml_fragment_revision;
     boost::optional<std::string> srcml_raw;
diff --git a/src/libsrcml/srcml_unit.cpp b/src/libsrcml/srcml_unit.cpp
index cedd996..5c80748 100644
--- a/src/libsrcml/srcml_unit.cpp
+++ b/src/libsrcml/srcml_unit.cpp
@@ -347,9 +347,9 @@ const char* srcml_unit_get_srcml(struct srcml_unit* unit) {
     if (!unit->read_body && (unit->archive->type == SRCML_ARCHIVE_READ || unit->archive->type == SRCML_ARCHIVE_RW))
         unit->archive->reader->read_body(unit);
 
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_revision = extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), (int) *unit->archive->revision_number);
+    std::string prefix;
+    if (auto revision = srcdiff_revision(unit, prefix)) {
+        unit->srcml_revision = extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), *revision, prefix);
         return unit->srcml_revision->c_str();
     }
 
@@ -410,9 +410,9 @@ const char* srcml_unit_get_srcml_outer(struct srcml_unit* unit) {
     }
 
     // if srcdiff versioned, then use that
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_fragment_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_fragment_revision = extract_revision(unit->srcml_fragment->c_str(), (int) unit->srcml_fragment->size(), (int) *unit->archive->revision_number);
+    std::string prefix;
+    if (auto revision = srcdiff_revision(unit, prefix)) {
+        unit->srcml_fragment_revision = extract_revision(unit->srcml_fragment->c_str(), (int) unit->srcml_fragment->size(), *revision, prefix);
         return unit->srcml_fragment_revision->c_str();
     }
 
@@ -447,9 +447,9 @@ const char* srcml_unit_get_srcml_inner(struct srcml_unit* unit) {
         return "";
 
     // if srcdiff versioned, then use that
-    if (unit->archive->revision_number && issrcdiff(unit->archive->namespaces)) {
-        if (!unit->srcml_raw_revision || unit->currevision != (int) *unit->archive->revision_number)
-            unit->srcml_raw_revision = extract_revision(unit->srcml.c_str() + start, rawsize, (int) *unit->archive->revision_number);
+    std::string prefix;
+    if (auto revision = srcdiff_revision(unit, prefix)) {
+        unit->srcml_raw_revision = extract_revision(unit->srcml.c_str() + start, rawsize, *revision, prefix);
         return unit->srcml_raw_revision->c_str();
     }
 
@@ -707,17 +707,21 @@ static int srcml_unit_unparse_internal(struct srcml_unit* unit, std::function<xm
         unit->src = extract_src(unit->srcml);
     }
 
+    // if srcdiff versioned, then use the source of that
+    std::string prefix;
+    auto revision = srcdiff_revision(unit, prefix);
+    const std::string src = revision ? extract_src(extract_revision(unit->srcml.c_str(), (int) unit->srcml.size(), *revision, prefix)) : *unit->src;
+
     // if EOL is not auto, then need to convert for
     int written = 0;
     if (unit->eol == SOURCE_OUTPUT_EOL_AUTO) {
-        written = xmlOutputBufferWrite(output_handler.get(), (int) unit->src->size(), unit->src->c_str());
+        written = xmlOutputBufferWrite(output_handler.get(), (int) src.size(), src.c_str());
     } else {
 
         // convert to the given eol
         std::string neol(0, ' ');
-        neol.reserve(unit->src->size());
+        neol.reserve(src.size());
 
-        const std::string& src = *unit->src;
         for (size_t i = 0; i < src.size(); ++i) {
             if (src[i] != '\n') {
                 neol += src[i];
diff --git a/src/libsrcml/unit_utilities.cpp b/src/libsrcml/unit_utilities.cpp
index 29207fe..50d843e 100644
--- a/src/libsrcml/unit_utilities.cpp
+++ b/src/libsrcml/unit_utilities.cpp
@@ -70,51 +70,89 @@ void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar*
 
 enum { INSERT, DELETE, COMMON};
 
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only) {
+// srcDiff revision in effect for a unit, and the prefix of the srcDiff elements in it
+boost::optional<int> srcdiff_revision(const srcml_unit* unit, std::string& prefix) {
 
-    const char* DIFF_PREFIX = "diff:";
+    if (!unit->archive->revision_number)
+        return boost::none;
 
-    std::stack<int> mode;
-    mode.push(COMMON);
-
-    std::string news;
-    const char* p = srcml;
-    const char* lp = p;
-    while ((p = (const char*) memchr(p, '<', size - (p - srcml)))) {
+    for (const Namespaces* namespaces : { unit->namespaces ? &*unit->namespaces : nullptr, (const Namespaces*) &unit->archive->namespaces }) {
 
-        bool inmode = mode.top() == COMMON || (revision == 0 && mode.top() == DELETE) || (revision == 1 && mode.top() == INSERT);
+        if (!namespaces)
+            continue;
 
-        // output previous non-tag text
-        if (inmode)
-            news.append(lp, p - lp);
+        auto& view = namespaces->get<nstags::uri>();
+        auto it = view.find(SRCML_DIFF_NS_URI);
+        if (it != view.end()) {
+            prefix = it->prefix;
+            return (int) *unit->archive->revision_number;
+        }
+    }
 
-        auto sp = p;
+    return boost::none;
+}
 
-        // skip to end of tag
-        p = (const char*) memchr(p, '>', size - (p - srcml));
-        ++p;
+std::string extract_revision(const char* srcml, int size, int revision, const std::string& prefix) {
 
-        if (strncmp(sp + 1, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
+    std::stack<int> mode;
+    mode.push(COMMON);
 
-            const char* tstart = sp + 1 + strlen(DIFF_PREFIX);
+    const std::string s(srcml, size);
+    const auto past = [&s](const char* mark, std::string::size_type pos) {
+        pos = s.find(mark, pos);
+        return pos == std::string::npos ? s.size() : pos + strlen(mark);
+    };
 
-            if (strncmp(tstart, "delete", 6) == 0) {
-                mode.push(DELETE);
-            } else if (strncmp(tstart, "insert", 6) == 0) {
-                mode.push(INSERT);
-            } else {
-                mode.push(COMMON);
+    std::string news;
+    std::string::size_type p = 0;
+    while (p < s.size()) {
+
+        bool inmode = mode.top() == COMMON || (revision == SRCDIFF_REVISION_ORIGINAL && mode.top() == DELETE) || (revision == SRCDIFF_REVISION_MODIFIED && mode.top() == INSERT);
+
+        // find the end of text, comment, CDATA, processing instruction, or tag
+        const auto begin = p;
+        bool is_tag = false;
+        if (s[p] != '<') {
+            p = std::min(s.find('<', p), s.size());
+        } else if (s.compare(p, 4, "<!--") == 0) {
+            p = past("-->", p + 4);
+        } else if (s.compare(p, 9, "<![CDATA[") == 0) {
+            p = past("]]>", p + 9);
+        } else if (s.compare(p, 2, "<?") == 0) {
+            p = past("?>", p + 2);
+        } else {
+            is_tag = true;
+            char quote = 0;
+            for (++p; p < s.size() && (quote || s[p] != '>'); ++p) {
+                if (quote ? s[p] == quote : s[p] == '"' || s[p] == '\'')
+                    quote = quote ? 0 : s[p];
             }
+            p = std::min(p + 1, s.size());
         }
-        else if (*(sp + 1) == '/' && strncmp(sp + 2, DIFF_PREFIX, strlen(DIFF_PREFIX)) == 0) {
-            mode.pop();
-        }
-        else {
-            if (inmode && !text_only)
-                news.append(sp, p - sp);
+
+        // srcDiff elements only change the mode
+        if (is_tag) {
+
+            const bool is_end = s.compare(begin, 2, "</") == 0;
+            const auto name_begin = begin + (is_end ? 2 : 1);
+            const std::string name = s.substr(name_begin, s.find_first_of(" \t\r\n/>", name_begin) - name_begin);
+            const auto colon = name.find(':');
+
+            if (prefix == (colon == std::string::npos ? "" : name.substr(0, colon))) {
+
+                const std::string localname = colon == std::string::npos ? name : name.substr(colon + 1);
+                if (is_end) {
+                    if (mode.size() > 1)
+                        mode.pop();
+                } else if (s.compare(p - 2, 2, "/>") != 0) {
+                    mode.push(localname == "delete" ? DELETE : localname == "insert" ? INSERT : COMMON);
+                }
+                continue;
+            }
         }
 
-        lp = p;
+        if (inmode)
+            news.append(s, begin, p - begin);
     }
 
     return news;
@@ -122,16 +160,12 @@ std::string extract_revision(const char* srcml, int size, int revision, bool tex
 
 struct extract_context {
     std::string s;
-    boost::optional<int> revision;
-    std::stack<int> mode;
 };
 
 // Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision) {
+std::string extract_src(const std::string& srcml) {
 
     extract_context scontext;
-    scontext.revision = revision;
-    scontext.mode.push(COMMON);
 
     // parse the srcml collecting the (now needed) src
     xmlSAXHandler charactersax;
@@ -168,14 +202,6 @@ std::string extract_src(const std::string& srcml, boost::optional<int> revision)
 
             scontext->s.append(1, value);
 
-        } else if (scontext->revision && strcmp((const char*) URI, SRCML_DIFF_NS_URI) == 0) {
-
-            if (std::string((const char*) localname) == "INSERT")
-                scontext->mode.push(INSERT);
-            else if (std::string((const char*) localname) == "DELETE")
-                scontext->mode.push(DELETE);
-            else
-                scontext->mode.push(COMMON);
         }
     };
 
diff --git a/src/libsrcml/unit_utilities.hpp b/src/libsrcml/unit_utilities.hpp
index df145bc..273777f 100644
--- a/src/libsrcml/unit_utilities.hpp
+++ b/src/libsrcml/unit_utilities.hpp
@@ -32,8 +32,11 @@
 void unit_update_attributes(srcml_unit* unit, int num_attributes, const xmlChar** attributes);
 
 // Extract source code from srcml
-std::string extract_src(const std::string& srcml, boost::optional<int> revision = boost::none);
-std::string extract_revision(const char* srcml, int size, int revision, bool text_only = false);
+std::string extract_src(const std::string& srcml);
+// srcDiff revision in effect for a unit, and the prefix of the srcDiff elements in it
+boost::optional<int> srcdiff_revision(const srcml_unit* unit, std::string& prefix);
+
+std::string extract_revision(const char* srcml, int size, int revision, const std::string& prefix);
 
 // Find the next attribute in a start tag, and advance past it
 bool next_attribute(const std::string& tag, std::string::size_type& pos, std::string::size_type& begin, std::string& name);
-- 
2.43.0


From 3bc86136d9eec0b9261a3e71691a6320ef297d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 44/72] fix: adjacent string literals, and doxygen comments
 that start with a slash, are marked up as such

---
 src/parser/CommentTextLexer.g |  3 ++-
 src/parser/TextLexer.g        | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index 2a95332..f56a323 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -173,7 +173,8 @@ COMMENT_TEXT {
 
     '\042' /* '\"' */
         { dquote_count = 1; }
-        (options { greedy = true; } : { prevLA != '\\' }? '\042' { ++dquote_count; })*
+        // only a verbatim string has doubled quotes, otherwise the quote starts an adjacent string
+        (options { greedy = true; } : { noescape }? '\042' { ++dquote_count; })*
     {
         if ((noescape && (dquote_count % 2 == 1)) ||
             (!noescape && (prevLA != '\\') && (mode == STRING_END))) {
diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index 4cb044e..fb1de19 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -154,11 +154,18 @@ LINE_COMMENT_START options { testLiterals = true; } { int mode = 0; } : '/'
                 $setType(JAVADOC_COMMENT_START);
                 mode = JAVADOC_COMMENT_END;
             } ('/' { $setType(WHOLE_COMMENT); mode = 0; })? |
-            { inLanguage(LANGUAGE_CXX) || inLanguage(LANGUAGE_C) || inLanguage(LANGUAGE_CSHARP) }? ('*' | '!')
-            {
-                $setType(DOXYGEN_COMMENT_START);
-                mode = DOXYGEN_COMMENT_END;
-            } ('/' { $setType(WHOLE_COMMENT); mode = 0; })?
+            { inLanguage(LANGUAGE_CXX) || inLanguage(LANGUAGE_C) || inLanguage(LANGUAGE_CSHARP) }?
+            ('*'
+                {
+                    $setType(DOXYGEN_COMMENT_START);
+                    mode = DOXYGEN_COMMENT_END;
+                } ('/' { $setType(WHOLE_COMMENT); mode = 0; })? |
+            '!'
+                {
+                    $setType(DOXYGEN_COMMENT_START);
+                    mode = DOXYGEN_COMMENT_END;
+                }
+            )
         )? |
 
     // /= is an operator
-- 
2.43.0


From a47e8af9bab05e78d2cf7b100c8189b42d9f7481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:34 +0000
Subject: [PATCH 45/72] fix: preprocessor directives are confined to their
 lines: quotes and empty comments at the end of a line, continued lines, block
 comments

---
 src/parser/CommentTextLexer.g |  8 ++++++--
 src/parser/OperatorLexer.g    |  8 ++++++--
 src/parser/StreamMLParser.hpp | 16 ++++++++++++++++
 src/parser/TextLexer.g        | 34 ++++++++++++++++++++++++++--------
 src/parser/srcMLParser.g      |  6 ++++--
 5 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index f56a323..ba809ac 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -156,8 +156,11 @@ COMMENT_TEXT {
         if (isoption(options, SRCML_OPTION_LINE))
           setLine(getLine() + (1 << 16));
 
+        // the line goes on after a backslash
+        const bool continued = text.size() > 1 && text[text.size() - 2] == '\\';
+
         // end at EOL when for line comment, or the end of a string or char on a preprocessor line
-        if (mode == LINE_COMMENT_END || mode == LINE_DOXYGEN_COMMENT_END || (((mode == STRING_END || mode == RAW_STRING_END) || mode == CHAR_END) && (onpreprocline /* || rawstring */))) {
+        if (mode == LINE_COMMENT_END || mode == LINE_DOXYGEN_COMMENT_END || (((mode == STRING_END || mode == RAW_STRING_END) || mode == CHAR_END) && (onpreprocline /* || rawstring */) && !continued)) {
           $setType(mode);
           selector->pop();
         }
@@ -239,9 +242,10 @@ COMMENT_TEXT {
             About to read a newline, or the EOF.  Line comments need
             to end before the newline is consumed. Strings and characters on a preprocessor line also need to end, even if unterminated
         */
+        const bool continues = LA(1) == '\n' && text.back() == '\\';
         if (_ttype == COMMENT_TEXT &&
             ((LA(1) == '\n' && mode != RAW_STRING_END) || LA(1) == EOF_CHAR) &&
-            ((((mode == STRING_END || mode == RAW_STRING_END) || mode == CHAR_END) && (onpreprocline || mode == RAW_STRING_END))
+            ((((mode == STRING_END || mode == RAW_STRING_END) || mode == CHAR_END) && (onpreprocline || mode == RAW_STRING_END) && !continues)
              || mode == LINE_COMMENT_END || mode == LINE_DOXYGEN_COMMENT_END)) {
 
             $setType(mode);
diff --git a/src/parser/OperatorLexer.g b/src/parser/OperatorLexer.g
index 4cfa118..8bb660a 100644
--- a/src/parser/OperatorLexer.g
+++ b/src/parser/OperatorLexer.g
@@ -104,6 +104,10 @@ tokens {
 
 OPERATORS options { testLiterals = true; } {
     int start = LA(1);
+
+    // a line that is continued does not end
+    const bool continuedpreprocline = onpreprocline;
+    const bool continuedstartline = startline;
 } : (
     '#'
     {
@@ -177,7 +181,7 @@ OPERATORS options { testLiterals = true; } {
 
     '.' ({ inLanguage(LANGUAGE_C_FAMILY) }? '*' | '.' ('.')? | { $setType(CONSTANTS); } CONSTANTS )? |
 
-    '\\' ( EOL { $setType(EOL_BACKSLASH); } )*
+    '\\' ( EOL { $setType(EOL_BACKSLASH); onpreprocline = continuedpreprocline; } )?
     )
-    { startline = false; lastpos = getColumn(); prev = start; }
+    { startline = _ttype == EOL_BACKSLASH && continuedstartline; lastpos = getColumn(); prev = start; }
 ;
diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 2f87e8e..35f61bd 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -377,6 +377,14 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
+                // an empty comment has no text and no end
+                if (srcMLParser::LA(1) == srcMLParser::EOL) {
+                    slastcolumn = LT(1)->getColumn() - 1;
+                    slastline = LT(1)->getLine();
+                    pushESkipToken(srcMLParser::SLINE_DOXYGEN_COMMENT);
+                    break;
+                }
+
                 open_comments.push(srcMLParser::SLINE_DOXYGEN_COMMENT);
 
                 break;
@@ -474,6 +482,14 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
+                // an empty comment has no text and no end
+                if (srcMLParser::LA(1) == srcMLParser::EOL) {
+                    slastcolumn = LT(1)->getColumn() - 1;
+                    slastline = LT(1)->getLine();
+                    pushESkipToken(srcMLParser::SLINECOMMENT);
+                    break;
+                }
+
                 open_comments.push(srcMLParser::SLINECOMMENT);
 
                 break;
diff --git a/src/parser/TextLexer.g b/src/parser/TextLexer.g
index fb1de19..6492859 100644
--- a/src/parser/TextLexer.g
+++ b/src/parser/TextLexer.g
@@ -70,7 +70,9 @@ STRING_START :
     // note that the "abc does not end at the end of this line,
     // but the #define must end, so EOL is not a valid string character
     '"' {
-        changetotextlexer(STRING_END); 
+        // nothing of the string is left on the preprocessor line
+        if (!onpreprocline || LA(1) != '\n')
+            changetotextlexer(STRING_END); 
 
         atstring = false;
     }
@@ -88,7 +90,9 @@ RAW_STRING_START :
     // but the #define must end, so EOL is not a valid string character
     '"' RSTRING_DELIMITER ('(')?
     {
-        changetotextlexer(RAW_STRING_END, delimiter); 
+        // nothing of the string is left on the preprocessor line
+        if (!onpreprocline || LA(1) != '\n')
+            changetotextlexer(RAW_STRING_END, delimiter); 
 
         atstring = false;
     }
@@ -104,7 +108,13 @@ CHAR_START :
     { startline = false; }
 
     // character literal or single quoted string
-    '\'' { $setType(CHAR_START); changetotextlexer(CHAR_END); }
+    '\'' {
+        $setType(CHAR_START);
+
+        // nothing of the character is left on the preprocessor line
+        if (!onpreprocline || LA(1) != '\n')
+            changetotextlexer(CHAR_END);
+    }
 ;
 
 CONSTANTS :
@@ -174,12 +184,21 @@ LINE_COMMENT_START options { testLiterals = true; } { int mode = 0; } : '/'
     {
         if (mode != 0) {
 
-            changetotextlexer(mode);
+            // an empty line comment has no text, and the EOL is not part of it
+            if ((mode != LINE_COMMENT_END && mode != LINE_DOXYGEN_COMMENT_END) || LA(1) != '\n')
+                changetotextlexer(mode);
+
+            // when we return from a line comment, we may have eaten the EOL, so we will turn back on startline
+            // a block comment does not end a line, and does not start one
+            if (mode == LINE_COMMENT_END || mode == LINE_DOXYGEN_COMMENT_END) {
+                startline = true;
 
-            // when we return, we may have eaten the EOL, so we will turn back on startline
-            startline = true;
+                onpreprocline = false;
+            }
+        } else if (_ttype != WHOLE_COMMENT) {
 
-            onpreprocline = false;
+            // operator
+            startline = false;
         }
     }
 ;
@@ -220,7 +239,6 @@ EOL : '\n' {
   issued in an escape character.
 */
 CONTROL_CHAR :
-    { startline = true; }
     (
         '\000'..'\010' |
         '\013'..'\014' |
diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 50b98f2..5a89faf 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -7993,7 +7993,8 @@ string_literal[bool markup = true] { LightweightElement element(this); ENTRY_DEB
             if (markup)
                 startElement(SSTRING);
         }
-        (STRING_START (STRING_END | RAW_STRING_END))
+        // unterminated at the end of a preprocessor line
+        (STRING_START ({ LA(1) == STRING_END || LA(1) == RAW_STRING_END }? (STRING_END | RAW_STRING_END))?)
 ;
 
 // Only start and end of character are put directly through the parser.
@@ -8003,7 +8004,8 @@ char_literal[bool markup = true] { LightweightElement element(this); ENTRY_DEBUG
             if (markup)
                 startElement(SCHAR);
         }
-        (CHAR_START CHAR_END)
+        // unterminated at the end of a preprocessor line
+        (CHAR_START ({ LA(1) == CHAR_END }? CHAR_END)?)
 ;
 
 // literals
-- 
2.43.0


From 92f3955d6b7b31293dc1dbc2f3c564d819122a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:29 +0000
Subject: [PATCH 46/72] fix: a call without closing parenthesis in a directive
 ends with the directive, and the file of #line without a number is in the
 directive

---
 src/parser/srcMLParser.g | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 5a89faf..71e0dfb 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -6737,7 +6737,9 @@ macro_call_contents[] {
 
     int parencount = 0;
     bool start = true;
-    while (LA(1) != 1 /* EOF? */ && !(parencount == 0 && LA(1) == RPAREN)) {
+    while (LA(1) != 1 /* EOF? */ && !(parencount == 0 && LA(1) == RPAREN)
+           // a call in a directive ends with the directive
+           && !(inTransparentMode(MODE_PARSE_EOL) && cpp_check_end())) {
 
         if (LA(1) == LPAREN)
             ++parencount;
@@ -9216,7 +9218,7 @@ preprocessor[] { ENTRY_DEBUG
         }
             (options { generateAmbigWarnings = false; } : cpp_linenumber
 
-            (cpp_filename)* | { inLanguage(LANGUAGE_CSHARP) }? cpp_symbol_optional) |
+            (cpp_filename)* | (cpp_filename)+ | { inLanguage(LANGUAGE_CSHARP) }? cpp_symbol_optional) |
 
         PRAGMA
         {
@@ -9757,7 +9759,7 @@ cpp_filename[] { SingleElement element(this); ENTRY_DEBUG } :
 
 // linenumber in cpp
 cpp_linenumber[] { SingleElement element(this); bool first = true; ENTRY_DEBUG } :
-        (options { greedy = true; } : { if (first) { startElement(SCPP_NUMBER); first = false; } } literal[false])*
+        (options { greedy = true; } : { if (first) { startElement(SCPP_NUMBER); first = false; } } literal[false])+
 ;
 
 // literal in cpp
-- 
2.43.0


From 03b4dfb0ad258d8c787e68c12343f01547eead51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:46 +0000
Subject: [PATCH 47/72] fix: comments and quotes that end in a control
 character do not run over the end of a directive

---
 src/parser/CommentTextLexer.g |  6 ++++--
 src/parser/StreamMLParser.hpp | 26 ++++++++++----------------
 2 files changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/parser/CommentTextLexer.g b/src/parser/CommentTextLexer.g
index ba809ac..7093ed8 100644
--- a/src/parser/CommentTextLexer.g
+++ b/src/parser/CommentTextLexer.g
@@ -243,12 +243,14 @@ COMMENT_TEXT {
             to end before the newline is consumed. Strings and characters on a preprocessor line also need to end, even if unterminated
         */
         const bool continues = LA(1) == '\n' && text.back() == '\\';
-        if (_ttype == COMMENT_TEXT &&
+        if ((_ttype == COMMENT_TEXT || (_ttype == CONTROL_CHAR && LA(1) == '\n')) &&
             ((LA(1) == '\n' && mode != RAW_STRING_END) || LA(1) == EOF_CHAR) &&
             ((((mode == STRING_END || mode == RAW_STRING_END) || mode == CHAR_END) && (onpreprocline || mode == RAW_STRING_END) && !continues)
              || mode == LINE_COMMENT_END || mode == LINE_DOXYGEN_COMMENT_END)) {
 
-            $setType(mode);
+            // a control character is a single token, and is not the end
+            if (_ttype == COMMENT_TEXT)
+                $setType(mode);
             selector->pop();
         }
    } )+
diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 35f61bd..6fa6b5d 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -346,6 +346,16 @@ private:
      */
     bool consumeSkippedToken() {
 
+        // a line comment without text before the EOL has no end
+        if (srcMLParser::LA(1) == srcMLParser::EOL && !open_comments.empty() &&
+            (open_comments.top() == srcMLParser::SLINECOMMENT || open_comments.top() == srcMLParser::SLINE_DOXYGEN_COMMENT)) {
+
+            slastcolumn = LT(1)->getColumn() - 1;
+            slastline = LT(1)->getLine();
+            pushESkipToken(open_comments.top());
+            open_comments.pop();
+        }
+
         if (isSkipToken(srcMLParser::LA(1))) {
 
             switch (srcMLParser::LA(1)) {
@@ -377,14 +387,6 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                // an empty comment has no text and no end
-                if (srcMLParser::LA(1) == srcMLParser::EOL) {
-                    slastcolumn = LT(1)->getColumn() - 1;
-                    slastline = LT(1)->getLine();
-                    pushESkipToken(srcMLParser::SLINE_DOXYGEN_COMMENT);
-                    break;
-                }
-
                 open_comments.push(srcMLParser::SLINE_DOXYGEN_COMMENT);
 
                 break;
@@ -482,14 +484,6 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                // an empty comment has no text and no end
-                if (srcMLParser::LA(1) == srcMLParser::EOL) {
-                    slastcolumn = LT(1)->getColumn() - 1;
-                    slastline = LT(1)->getLine();
-                    pushESkipToken(srcMLParser::SLINECOMMENT);
-                    break;
-                }
-
                 open_comments.push(srcMLParser::SLINECOMMENT);
 
                 break;
-- 
2.43.0


From c6466dd1ec029c38cc76de7480b8f7147a95d20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:10 +0000
Subject: [PATCH 48/72] fix: arguments of an OpenMP clause end with the
 directive

---
 src/parser/srcMLParser.g | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/srcMLParser.g b/src/parser/srcMLParser.g
index 71e0dfb..b1b890b 100644
--- a/src/parser/srcMLParser.g
+++ b/src/parser/srcMLParser.g
@@ -9821,5 +9821,5 @@ omp_argument[] { CompleteElement element(this); ENTRY_DEBUG} :
         startElement(SOMP_EXPRESSION);
     }
 
-    (~(RPAREN | COMMA))*
+    (~(RPAREN | COMMA | EOL | LINE_COMMENT_START | LINE_DOXYGEN_COMMENT_START))*
 ;
-- 
2.43.0


From 722855f1cf79077c4d3be2bb78a4c6f92ae815c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:55 +0000
Subject: [PATCH 49/72] fix: comments seen while looking ahead are not recorded
 as open

---
 src/parser/StreamMLParser.hpp | 46 ++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 6fa6b5d..0847ef7 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -337,6 +337,30 @@ private:
         lastcolumn = endcolumn;
     }
 
+    /**
+     * openComment
+     * @param token type of the comment
+     *
+     * Record that a comment is open.
+     * During guessing the comment is seen, but not output.
+     */
+    void openComment(int token) {
+
+        if (srcMLParser::inputState->guessing == 0)
+            open_comments.push(token);
+    }
+
+    /**
+     * closeComment
+     *
+     * Record that the open comment was closed.
+     */
+    void closeComment() {
+
+        if (srcMLParser::inputState->guessing == 0 && !open_comments.empty())
+            open_comments.pop();
+    }
+
     /**
      * consumeSkippedTokens
      *
@@ -353,7 +377,7 @@ private:
             slastcolumn = LT(1)->getColumn() - 1;
             slastline = LT(1)->getLine();
             pushESkipToken(open_comments.top());
-            open_comments.pop();
+            closeComment();
         }
 
         if (isSkipToken(srcMLParser::LA(1))) {
@@ -377,7 +401,7 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SCOMMENT);
+                openComment(srcMLParser::SCOMMENT);
 
                 break;
 
@@ -387,13 +411,13 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SLINE_DOXYGEN_COMMENT);
+                openComment(srcMLParser::SLINE_DOXYGEN_COMMENT);
 
                 break;
 
             case srcMLParser::LINE_DOXYGEN_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 if (srcMLParser::LT(1)->getText().back() != '\n') {
                     pushSkipToken();
@@ -417,7 +441,7 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SDOXYGEN_COMMENT);
+                openComment(srcMLParser::SDOXYGEN_COMMENT);
 
                 break;
 
@@ -434,7 +458,7 @@ private:
 
             case srcMLParser::BLOCK_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 pushSkipToken();
                 srcMLParser::consume();
@@ -446,7 +470,7 @@ private:
 
             case srcMLParser::DOXYGEN_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 pushSkipToken();
                 srcMLParser::consume();
@@ -458,7 +482,7 @@ private:
 
             case srcMLParser::JAVADOC_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 pushSkipToken();
                 srcMLParser::consume();
@@ -474,7 +498,7 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SJAVADOC_COMMENT);
+                openComment(srcMLParser::SJAVADOC_COMMENT);
 
                 break;
 
@@ -484,13 +508,13 @@ private:
                 pushSkipToken();
                 srcMLParser::consume();
 
-                open_comments.push(srcMLParser::SLINECOMMENT);
+                openComment(srcMLParser::SLINECOMMENT);
 
                 break;
 
             case srcMLParser::LINE_COMMENT_END:
 
-                open_comments.pop();
+                closeComment();
 
                 if (srcMLParser::LT(1)->getText().back() != '\n') {
                     pushSkipToken();
-- 
2.43.0


From 64216b359adb49ea1a3f06b2473604baf44efa24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:33 +0000
Subject: [PATCH 50/72] fix: positions of comments seen while looking ahead are
 not recorded

---
 src/parser/StreamMLParser.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 0847ef7..7d95d4b 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -220,6 +220,10 @@ private:
 
     inline void pushSSkipToken(int token) {
 
+        // the same comment is output after guessing
+        if (srcMLParser::inputState->guessing)
+            return;
+
         // push a new start token
         auto ntoken = antlr::RefToken(StartTokenFactory(token));
         ntoken->setLine(LT(1)->getLine());
@@ -294,6 +298,10 @@ private:
 
     inline void pushESkipToken(int token) {
 
+        // the same comment is output after guessing
+        if (srcMLParser::inputState->guessing)
+            return;
+
         // push a new end token
         pushSkipToken(antlr::RefToken(EndTokenFactory(token)));
 
-- 
2.43.0


From 586176a8872f70e57b7a59e08864ffcf85391851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:22 +0000
Subject: [PATCH 51/72] fix: disabling the cpp option also takes back its
 declaration

---
 src/libsrcml/srcml_archive.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libsrcml/srcml_archive.cpp b/src/libsrcml/srcml_archive.cpp
index e62db99..88c794e 100644
--- a/src/libsrcml/srcml_archive.cpp
+++ b/src/libsrcml/srcml_archive.cpp
@@ -414,6 +414,11 @@ int srcml_archive_disable_option(struct srcml_archive* archive, size_t option) {
     if (archive == nullptr)
         return SRCML_STATUS_INVALID_ARGUMENT;
 
+    // without cpp, it is also no longer declared
+    if (option & SRCML_OPTION_CPP) {
+        archive->options &= ~SRCML_OPTION_CPP_DECLARED;
+    }
+
     int modoption = option % (1<<7);
 
     archive->options &= ~modoption;
-- 
2.43.0


From d555c8446e020f8e73c1463b55a9af2b4b62f6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:52 +0000
Subject: [PATCH 52/72] fix: an empty input name has no last character

---
 src/client/srcml_input_src.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/srcml_input_src.cpp b/src/client/srcml_input_src.cpp
index 5f6ff3e..4c8f204 100644
--- a/src/client/srcml_input_src.cpp
+++ b/src/client/srcml_input_src.cpp
@@ -74,7 +74,7 @@ srcml_input_src::srcml_input_src(const std::string& other) : arch(0), state(INDE
         isdirectory = exists && S_ISDIR(s.st_mode);
     }
 
-    isdirectoryform = resource.back() == '/';
+    isdirectoryform = !resource.empty() && resource.back() == '/';
 
     if (!isdirectory && protocol != "text") {
 
-- 
2.43.0


From 70b9ae735ca55032d292d68ee7148ba4682d4455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:52 +0000
Subject: [PATCH 53/72] fix: a file with http: and https: in its name is still
 a file

---
 src/client/src_prefix.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/client/src_prefix.cpp b/src/client/src_prefix.cpp
index f3dcea7..bd56f42 100644
--- a/src/client/src_prefix.cpp
+++ b/src/client/src_prefix.cpp
@@ -40,10 +40,8 @@ std::string src_prefix_add_uri(const std::string& input_file) {
         if (input_file.compare("/dev/stdin") == 0 || input_file.compare("-") == 0)
             return src_prefix_add_uri("stdin", "-");
 
-        // Check for local file
-        if (input_file.find("http:") == std::string::npos || input_file.find("https:") == std::string::npos) {
-            return src_prefix_add_uri("file", input_file);
-        }
+        // local file
+        return src_prefix_add_uri("file", input_file);
     }
 
     return input_file;
-- 
2.43.0


From ec66ba3078215e1f79b3da551f05588bc28488e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:38 +0000
Subject: [PATCH 54/72] fix: text with :// in it is used as a whole

---
 src/client/src_input_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index 59d970f..a37a763 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -56,7 +56,7 @@ int src_input_text(ParseQueue& queue,
     const srcml_request_t& srcml_request,
     const srcml_input_src& input) {
 
-    std::string raw_text = src_prefix_resource(input.resource);
+    const std::string& raw_text = input.resource;
     const char* ptext = raw_text.c_str();
 
     // process text, which may have more than one input due to use of ASCII NUL ('\0')
-- 
2.43.0


From 094b4c647eea01458736163b6aabbfdcee8a03f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:38 +0000
Subject: [PATCH 55/72] fix: text that ends with a backslash is not read past
 its end

---
 src/client/src_input_text.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index a37a763..a0c0c14 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -204,6 +204,11 @@ int src_input_text(ParseQueue& queue,
                     epos += offset - 1;
                     break;
                 }
+                // a backslash at the end of the text is only a backslash
+                case '\0':
+                    prequest->buffer.push_back('\\');
+                    --epos;
+                    break;
                 default:
                     prequest->buffer.push_back('\\');
                     prequest->buffer.push_back(*(epos));
-- 
2.43.0


From 8800be05d01f57554f49c0769bedf4bf314f445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:38 +0000
Subject: [PATCH 56/72] fix: an escaped backslash in text is a backslash

---
 src/client/src_input_text.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client/src_input_text.cpp b/src/client/src_input_text.cpp
index a0c0c14..3249c15 100644
--- a/src/client/src_input_text.cpp
+++ b/src/client/src_input_text.cpp
@@ -99,6 +99,9 @@ int src_input_text(ParseQueue& queue,
                 // append the special character
                 ++epos;
                 switch (*epos) {
+                case '\\':
+                    prequest->buffer.push_back('\\');
+                    break;
                 case 'n':
                     prequest->buffer.push_back('\n');
                     break;
-- 
2.43.0


From 0c275461f729179d1e056ab977a228c51bdcacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:38 +0000
Subject: [PATCH 57/72] fix: the last line of a list of files may be one
 character long

---
 src/client/src_input_filelist.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/client/src_input_filelist.cpp b/src/client/src_input_filelist.cpp
index fb56b82..6fce005 100644
--- a/src/client/src_input_filelist.cpp
+++ b/src/client/src_input_filelist.cpp
@@ -80,17 +80,21 @@ int src_input_filelist(ParseQueue& queue,
            vbuffer.insert(vbuffer.end(), buffer, buffer + size);
     }
 
-    char* line = &vbuffer[0];
-    while (line < &vbuffer[vbuffer.size() - 1]) {
+    const char* line = vbuffer.data();
+    const char* const lineend = line + vbuffer.size();
+    while (line < lineend) {
 
         // find the line
-        char* startline = line;
-        while (*line != '\n' && line != &vbuffer[vbuffer.size() - 1])
+        const char* startline = line;
+        while (line < lineend && *line != '\n')
             ++line;
-        ++line;
 
         std::string sline(startline, line - startline);
 
+        // past the newline
+        if (line < lineend)
+            ++line;
+
         // trim from both ends
         const std::string WHITESPACE = " \n\r\t\f\v";
         auto start = sline.find_first_not_of(WHITESPACE);
-- 
2.43.0


From 91f562c5318e85fda6fd50881b38fc8b476f0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:59 +0000
Subject: [PATCH 58/72] fix: a directory named .. or whose name starts with a
 dot can be an input

---
 src/client/src_input_filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/src_input_filesystem.cpp b/src/client/src_input_filesystem.cpp
index af4c44a..8d53a5b 100644
--- a/src/client/src_input_filesystem.cpp
+++ b/src/client/src_input_filesystem.cpp
@@ -76,8 +76,8 @@ int src_input_filesystem(ParseQueue& queue,
 
         std::string filename = archive_entry_pathname(entry);
 
-        // do not descend into . directories
-        if (filename[filename.find_last_of("/") + 1] == '.') {
+        // do not descend into . directories, except for the one given
+        if (!first && filename[filename.find_last_of("/") + 1] == '.') {
             continue;
         }
 
-- 
2.43.0


From d6cb2ff9a006bd80c851efcf91b641a8c1bb7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:06 +0000
Subject: [PATCH 59/72] fix: the namespaces of a later document are not
 registered while units are written

---
 src/client/ParseQueue.hpp        | 8 ++++++++
 src/client/srcml_input_srcml.cpp | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/client/ParseQueue.hpp b/src/client/ParseQueue.hpp
index 1807baf..344df96 100644
--- a/src/client/ParseQueue.hpp
+++ b/src/client/ParseQueue.hpp
@@ -57,6 +57,14 @@ public:
         pool.push(srcml_consume, pvalue, wqueue);
     }
 
+    // nothing has been scheduled so far
+    inline bool unused() {
+
+        std::unique_lock<std::mutex> l(e);
+
+        return counter == 0;
+    }
+
     inline void wait() {
 
         pool.stop(true);
diff --git a/src/client/srcml_input_srcml.cpp b/src/client/srcml_input_srcml.cpp
index 357e5d9..69252a2 100644
--- a/src/client/srcml_input_srcml.cpp
+++ b/src/client/srcml_input_srcml.cpp
@@ -65,7 +65,9 @@ int srcml_input_srcml(ParseQueue& queue,
         if (!srcml_archive_is_solitary_unit(srcml_input_archive.get()) && srcml_input.unit == 0)
             srcml_archive_disable_solitary_unit(srcml_output_archive);
 
-        size_t nsSize = srcml_archive_get_namespace_size(srcml_input_archive.get());
+        // units that are already scheduled may be written at the same time, so only the
+        // namespaces of a first document are those of the archive. Units of other documents declare their own
+        size_t nsSize = queue.unused() ? srcml_archive_get_namespace_size(srcml_input_archive.get()) : 0;
         for (size_t i = 0; i < nsSize; ++i) {
 
             // ignore srcDiff URL, since it will not be on the output
-- 
2.43.0


From d615a130fc926aa531978ce4b832651d0931cf90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:43 +0000
Subject: [PATCH 60/72] fix: source extracted to the current directory is not
 put into the root directory

---
 src/client/src_output_filesystem.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 4e4e393..242bba0 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -30,8 +30,11 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
 
     // construct the relative directory
     std::string prefix;
-    if (output_dir != "." && output_dir != "./")
+    if (output_dir != "." && output_dir != "./") {
         prefix = output_dir;
+        if (prefix.empty() || prefix.back() != '/')
+            prefix += '/';
+    }
 
     // create output directory structure as needed
     mkDir dir;
@@ -48,16 +51,15 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
 
         // separate pathname from filename
         std::string path = prefix;
-        path += '/';
         auto pos = filename.rfind('/');
         path += pos != std::string::npos ? filename.substr(0, pos) : "";
 
         std::string fullfilename = prefix;
-        fullfilename += "/";
         fullfilename += filename;
 
-        // use libarchive to create the file path
-        dir.mkdir(path);
+        // use libarchive to create the file path, if not the current directory
+        if (!path.empty())
+            dir.mkdir(path);
 
         // unparse directory to filename
         log << ++count << fullfilename;
-- 
2.43.0


From e049c7bdaf00f7b2b9244683486bccca23302868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:43 +0000
Subject: [PATCH 61/72] fix: a unit without language or name can be extracted
 to a source archive

---
 src/client/src_output_libarchive.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 2fa7248..e1d8a2a 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -45,8 +45,9 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         if (newfilename.empty()) {
             newfilename = "srcml_unit_";
             newfilename += std::to_string(unitcounter);
-            if (language_to_std_extension(srcml_unit_get_language(unit.get())) != "")
-                newfilename += language_to_std_extension(srcml_unit_get_language(unit.get()));
+            const char* language = srcml_unit_get_language(unit.get());
+            if (language)
+                newfilename += language_to_std_extension(language);
             SRCMLstatus(WARNING_MSG, "A srcML unit without a filename saved as " + newfilename);
         }
 
-- 
2.43.0


From b76d6d4a49560b8248a5a35bf0cc0dfb0c67ac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:43 +0000
Subject: [PATCH 62/72] fix: source that cannot be extracted to a source
 archive is reported, and its buffer is freed as it was allocated

---
 src/client/src_output_libarchive.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index e1d8a2a..8ff307f 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -57,10 +57,13 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
             break;
 
         // Convert from srcML back to source in a buffer
-        char* buffer;
-        size_t buffer_size;
-        srcml_unit_unparse_memory(unit.get(), &buffer, &buffer_size);
-        std::unique_ptr<char> pbuffer(buffer);
+        char* buffer = nullptr;
+        size_t buffer_size = 0;
+        if (srcml_unit_unparse_memory(unit.get(), &buffer, &buffer_size) != SRCML_STATUS_OK) {
+            SRCMLstatus(WARNING_MSG, "Unable to save " + newfilename + " to source archive");
+            continue;
+        }
+        std::unique_ptr<char, decltype(&srcml_memory_free)> pbuffer(buffer, srcml_memory_free);
 
         // setup the entry
         archive_entry_set_pathname(entry.get(), newfilename.c_str());
-- 
2.43.0


From 9dfb77cc46780af87fc11cc907d2ba07295fdf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 63/72] fix: separators of units go where the source goes, and
 a following step sees the end of the source

---
 src/client/create_src.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 4160409..bda081c 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -138,7 +138,7 @@ void create_src(const srcml_request_t& srcml_request,
 
             // null separator before every unit (except the first)
             if (count) {
-                if (write(1, "", 1) == -1) {
+                if (write(*destination.fd, "", 1) == -1) {
                     SRCMLstatus(ERROR_MSG, "Unable to write to stdout");
                     break;
                 }
@@ -154,6 +154,9 @@ void create_src(const srcml_request_t& srcml_request,
             ++count;
         }
 
+        // any following step waits for the end of the source
+        close(*destination.fd);
+
     } else if (input_sources.size() == 1 && destination.compressions.empty() && destination.archives.empty()) {
 
         auto arch(srcml_read_open_internal(input_sources[0], srcml_request.revision));
-- 
2.43.0


From a31acc2980403283420cb31f43f470d3759468ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 64/72] fix: a compressed source archive is an archive

---
 src/client/srcml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/client/srcml.cpp b/src/client/srcml.cpp
index 7267ca5..269289e 100644
--- a/src/client/srcml.cpp
+++ b/src/client/srcml.cpp
@@ -217,6 +217,10 @@ namespace {
     */
     bool request_output_compression(const srcml_request_t& request) {
 
+        // a source archive is compressed as it is created
+        if (request_create_src(request) && !request.output_filename.archives.empty())
+            return false;
+
         return request.output_filename.compressions.size() >= 1;
     }
 
-- 
2.43.0


From 7e3a9836df7da6156eeed34ea2009218fae90eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 65/72] fix: the requested line endings are used for source in
 directories and archives

---
 src/client/create_src.cpp            | 4 ++--
 src/client/src_output_filesystem.cpp | 6 +++++-
 src/client/src_output_filesystem.hpp | 3 ++-
 src/client/src_output_libarchive.cpp | 6 +++++-
 src/client/src_output_libarchive.hpp | 3 ++-
 5 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index bda081c..7e75d2f 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -99,7 +99,7 @@ void create_src(const srcml_request_t& srcml_request,
         for (const auto& input_source : input_sources) {
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
-            src_output_filesystem(arch.get(), destination, log);
+            src_output_filesystem(arch.get(), destination, srcml_request.eol, log);
         }
 
     } else if (input_sources.size() == 1 && contains<int>(destination) &&
@@ -225,7 +225,7 @@ void create_src(const srcml_request_t& srcml_request,
             auto arch(srcml_read_open_internal(input_source, srcml_request.revision));
 
             // extract this srcml archive to the source archive
-            src_output_libarchive(arch.get(), ar.get());
+            src_output_libarchive(arch.get(), srcml_request.eol, ar.get());
         }
     }
 }
diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 242bba0..31cfb72 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -26,7 +26,7 @@
 #include <srcml_utilities.hpp>
 #include <mkDir.hpp>
 
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log) {
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, const boost::optional<int>& eol, TraceLog& log) {
 
     // construct the relative directory
     std::string prefix;
@@ -64,6 +64,10 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
         // unparse directory to filename
         log << ++count << fullfilename;
 
+        // if requested eol, then use that
+        if (eol)
+            srcml_unit_set_eol(unit.get(), *eol);
+
         srcml_unit_unparse_filename(unit.get(), fullfilename.c_str());
     }
 }
diff --git a/src/client/src_output_filesystem.hpp b/src/client/src_output_filesystem.hpp
index e3f44c6..fee2393 100644
--- a/src/client/src_output_filesystem.hpp
+++ b/src/client/src_output_filesystem.hpp
@@ -24,9 +24,10 @@
 #define SRC_OUTPUT_FILESYSTEM_HPP
 
 #include <srcml.h>
+#include <boost/optional.hpp>
 #include <string>
 #include <TraceLog.hpp>
 
-void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, TraceLog& log);
+void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, const boost::optional<int>& eol, TraceLog& log);
 
 #endif
diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 8ff307f..8acac0d 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -32,7 +32,7 @@
 #include <libarchive_utilities.hpp>
 #include <srcml_utilities.hpp>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
+void src_output_libarchive(srcml_archive* srcml_arch, const boost::optional<int>& eol, archive* src_archive) {
 
     ssize_t arch_status = ARCHIVE_OK;
     int unitcounter = 0;
@@ -56,6 +56,10 @@ void src_output_libarchive(srcml_archive* srcml_arch, archive* src_archive) {
         if (!entry)
             break;
 
+        // if requested eol, then use that
+        if (eol)
+            srcml_unit_set_eol(unit.get(), *eol);
+
         // Convert from srcML back to source in a buffer
         char* buffer = nullptr;
         size_t buffer_size = 0;
diff --git a/src/client/src_output_libarchive.hpp b/src/client/src_output_libarchive.hpp
index e9c1397..0bfc3f9 100644
--- a/src/client/src_output_libarchive.hpp
+++ b/src/client/src_output_libarchive.hpp
@@ -25,7 +25,8 @@
 
 #include <archive.h>
 #include <srcml.h>
+#include <boost/optional.hpp>
 
-void src_output_libarchive(srcml_archive* srcml_arch, archive* ar);
+void src_output_libarchive(srcml_archive* srcml_arch, const boost::optional<int>& eol, archive* ar);
 
 #endif
-- 
2.43.0


From 071b01a662bcfe28a10d48b05df8ec62ae70caaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:06 +0000
Subject: [PATCH 66/72] fix: source that cannot be written is reported

---
 src/client/create_src.cpp            | 5 ++++-
 src/client/src_output_filesystem.cpp | 4 +++-
 src/client/src_output_libarchive.cpp | 4 +++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client/create_src.cpp b/src/client/create_src.cpp
index 7e75d2f..5381fc9 100644
--- a/src/client/create_src.cpp
+++ b/src/client/create_src.cpp
@@ -145,7 +145,10 @@ void create_src(const srcml_request_t& srcml_request,
             }
 
             // unparse directly to the destintation
-            srcml_unit_unparse_fd(unit.get(), destination);
+            if (srcml_unit_unparse_fd(unit.get(), destination) != SRCML_STATUS_OK) {
+                SRCMLstatus(ERROR_MSG, "Unable to write to stdout");
+                break;
+            }
 
             // get out if only one unit
             if (srcml_request.unit)
diff --git a/src/client/src_output_filesystem.cpp b/src/client/src_output_filesystem.cpp
index 31cfb72..d4ba24c 100644
--- a/src/client/src_output_filesystem.cpp
+++ b/src/client/src_output_filesystem.cpp
@@ -25,6 +25,7 @@
 #include <iostream>
 #include <srcml_utilities.hpp>
 #include <mkDir.hpp>
+#include <SRCMLStatus.hpp>
 
 void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_dir, const boost::optional<int>& eol, TraceLog& log) {
 
@@ -68,6 +69,7 @@ void src_output_filesystem(srcml_archive* srcml_arch, const std::string& output_
         if (eol)
             srcml_unit_set_eol(unit.get(), *eol);
 
-        srcml_unit_unparse_filename(unit.get(), fullfilename.c_str());
+        if (srcml_unit_unparse_filename(unit.get(), fullfilename.c_str()) != SRCML_STATUS_OK)
+            SRCMLstatus(ERROR_MSG, "srcml: unable to open output file " + fullfilename);
     }
 }
diff --git a/src/client/src_output_libarchive.cpp b/src/client/src_output_libarchive.cpp
index 8acac0d..c2efec2 100644
--- a/src/client/src_output_libarchive.cpp
+++ b/src/client/src_output_libarchive.cpp
@@ -80,8 +80,10 @@ void src_output_libarchive(srcml_archive* srcml_arch, const boost::optional<int>
         archive_entry_set_ctime(entry.get(), now, 0);
         archive_entry_set_mtime(entry.get(), now, 0);
 
-        if ((arch_status = archive_write_header(src_archive, entry.get())) != ARCHIVE_OK)
+        if ((arch_status = archive_write_header(src_archive, entry.get())) != ARCHIVE_OK) {
+            SRCMLstatus(WARNING_MSG, "Unable to save " + newfilename + " to source archive");
             break;
+        }
 
         // write the data into the archive
         arch_status = archive_write_data(src_archive, pbuffer.get(), (size_t) buffer_size);
-- 
2.43.0


From 48b410a2cc7080b15e0576c0bdeb24e5b3da1fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:41 +0000
Subject: [PATCH 67/72] fix: a comment that the end of the source ends has a
 position, and what precedes it ends before it

---
 src/parser/StreamMLParser.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/StreamMLParser.hpp b/src/parser/StreamMLParser.hpp
index 7d95d4b..a1d8c34 100644
--- a/src/parser/StreamMLParser.hpp
+++ b/src/parser/StreamMLParser.hpp
@@ -378,9 +378,9 @@ private:
      */
     bool consumeSkippedToken() {
 
-        // a line comment without text before the EOL has no end
-        if (srcMLParser::LA(1) == srcMLParser::EOL && !open_comments.empty() &&
-            (open_comments.top() == srcMLParser::SLINECOMMENT || open_comments.top() == srcMLParser::SLINE_DOXYGEN_COMMENT)) {
+        // a line comment without text before the EOL has no end, nor has a comment without text before the end of the source
+        if (!open_comments.empty() && (srcMLParser::LA(1) == antlr::Token::EOF_TYPE || (srcMLParser::LA(1) == srcMLParser::EOL &&
+            (open_comments.top() == srcMLParser::SLINECOMMENT || open_comments.top() == srcMLParser::SLINE_DOXYGEN_COMMENT)))) {
 
             slastcolumn = LT(1)->getColumn() - 1;
             slastline = LT(1)->getLine();
-- 
2.43.0


From 3af24ccf6e63b0f1aebeff6d42a1f80db1c67526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:37 +0000
Subject: [PATCH 68/72] fix: a namespace that a unit redeclares is declared
 only once in the srcML of the unit

---
 src/libsrcml/sax2_srcsax_handler.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libsrcml/sax2_srcsax_handler.cpp b/src/libsrcml/sax2_srcsax_handler.cpp
index 91e7d5b..0b99687 100644
--- a/src/libsrcml/sax2_srcsax_handler.cpp
+++ b/src/libsrcml/sax2_srcsax_handler.cpp
@@ -500,10 +500,25 @@ void start_unit(void* ctx, const xmlChar* localname, const xmlChar* prefix, cons
             if (s[pos] == '>' || s[pos] == '/')
                 s.insert(pos, 1, ' ');
             ++pos;
-            s.insert(pos, state->rootnsstr);
+
+            // except those that the unit redeclares
+            std::string rootns;
+            for (std::string::size_type begin = 0; begin < state->rootnsstr.size(); ) {
+
+                auto equals = state->rootnsstr.find('=', begin);
+                auto end = state->rootnsstr.find('"', equals + 2) + 2;
+                auto declared = state->rootnsstr.substr(begin, equals - begin);
+                bool redeclared = false;
+                for (const auto& ns : state->unit_namespaces)
+                    redeclared = redeclared || declared == (ns.first.empty() ? "xmlns" : "xmlns:" + ns.first);
+                if (!redeclared)
+                    rootns.append(state->rootnsstr, begin, end - begin);
+                begin = end;
+            }
+            s.insert(pos, rootns);
 
             state->insert_begin = (int) pos;
-            state->insert_end = (int) (pos + state->rootnsstr.size());
+            state->insert_end = (int) (pos + rootns.size());
 
         } else {
 
-- 
2.43.0


From 83a5f446522137830069af27836f0442e805e525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:34 +0000
Subject: [PATCH 69/72] fix: a unit that redeclares namespaces of its archive
 keeps them when it is written

---
 src/libsrcml/srcml_reader_handler.hpp |  6 ++---
 src/libsrcml/srcml_translator.cpp     | 35 ++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/libsrcml/srcml_reader_handler.hpp b/src/libsrcml/srcml_reader_handler.hpp
index 3af3462..0950903 100644
--- a/src/libsrcml/srcml_reader_handler.hpp
+++ b/src/libsrcml/srcml_reader_handler.hpp
@@ -438,11 +438,9 @@ public :
             unit->loc = state->loc;
 
             // record the namespaces declared on the unit, so that they are declared wherever the unit is written
-            for (const auto& declared : state->unit_namespaces) {
+            for (auto& declared : state->unit_namespaces) {
 
-                // the srcML namespace is always declared
-                if (is_srcml_namespace(declared.second, SRCML_SRC_NS_URI))
-                    continue;
+                srcml_uri_normalize(declared.second);
 
                 // namespaces probably aren't create yet
                 if (!unit->namespaces) {
diff --git a/src/libsrcml/srcml_translator.cpp b/src/libsrcml/srcml_translator.cpp
index 5c793b4..910e77c 100644
--- a/src/libsrcml/srcml_translator.cpp
+++ b/src/libsrcml/srcml_translator.cpp
@@ -214,9 +214,42 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
 
     // if the unit has namespaces, then use those
     Namespaces mergedns = unit->archive->namespaces;
+    auto attributes = unit->attributes;
 
     if (unit->namespaces) {
         mergedns += *unit->namespaces;
+
+        // prefixes declared on the unit hide those of its archive
+        for (const auto& ns : *unit->namespaces) {
+
+            if (!(ns.flags & NS_USED))
+                continue;
+
+            auto&& uriview = mergedns.get<nstags::uri>();
+            uriview.modify(uriview.find(ns.uri), [&ns](Namespace& thisns){ thisns.prefix = ns.prefix; });
+
+            // the archive may have declared the same namespace with another prefix
+            auto&& archiveview = unit->archive->namespaces.get<nstags::uri>();
+            auto ait = archiveview.find(ns.uri);
+            if (ait != archiveview.end() && (ait->flags & NS_REGISTERED) && ait->prefix != ns.prefix) {
+
+                bool hidden = false;
+                for (const auto& other : *unit->namespaces)
+                    hidden = hidden || ((other.flags & NS_USED) && other.prefix == ait->prefix);
+                if (!hidden) {
+                    attributes.push_back(ait->prefix.empty() ? "xmlns" : "xmlns:" + ait->prefix);
+                    attributes.push_back(ait->uri);
+                }
+            }
+
+            auto&& prefixview = mergedns.get<nstags::prefix>();
+            for (auto it = prefixview.find(ns.prefix); it != prefixview.end() && it->prefix == ns.prefix; ) {
+                if (it->uri != ns.uri)
+                    it = prefixview.erase(it);
+                else
+                    ++it;
+            }
+        }
     }
 
     // namespaces used because of the options of, or declared in, the archive of the unit
@@ -250,7 +283,7 @@ bool srcml_translator::add_unit(const srcml_unit* unit) {
             !unit->timestamp ? 0 : (nrevision ? attribute_revision(*unit->timestamp, (int) *nrevision).c_str() : unit->timestamp->c_str()),
             !unit->hash      ? 0 : (nrevision ? attribute_revision(*unit->hash, (int) *nrevision).c_str() : unit->hash->c_str()),
             !unit->encoding  ? 0 : (nrevision ? attribute_revision(*unit->encoding, (int) *nrevision).c_str() : unit->encoding->c_str()),
-            unit->attributes,
+            attributes,
             false);
 
     // write out the contents, excluding the start and end unit tags
-- 
2.43.0


From ca201cecfcc57581e8b3ff695cd417547f02db68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:26 +0000
Subject: [PATCH 70/72] fix: a format without a header and footer does not look
 before its beginning

---
 src/client/srcml_pretty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/client/srcml_pretty.cpp b/src/client/srcml_pretty.cpp
index 83cee8a..b878cc2 100644
--- a/src/client/srcml_pretty.cpp
+++ b/src/client/srcml_pretty.cpp
@@ -75,11 +75,11 @@ pretty_template_t split_template_sections(const std::string& pretty_input) {
     pretty_template_t output_template;
 
     // For %{ %} cases - we'll just pretend we didn't see them.
-    if ((footer_pos != 0) && input_template[footer_pos - 1] == '%') {
+    if (footer_pos != 0 && footer_pos != std::string::npos && input_template[footer_pos - 1] == '%') {
         input_template.erase(footer_pos - 1, 1);
         footer_pos = std::string::npos;
     }
-    if ((header_pos != 0) && input_template[header_pos - 1] == '%') {
+    if (header_pos != 0 && header_pos != std::string::npos && input_template[header_pos - 1] == '%') {
         input_template.erase(header_pos - 1, 1);
         header_pos = std::string::npos;
     }
-- 
2.43.0


From 556b41ad70ec691ed8470da4b472f610e6e763b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:26 +0000
Subject: [PATCH 71/72] fix: the metadata of a single unit is shown

---
 src/client/srcml_pretty.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/client/srcml_pretty.cpp b/src/client/srcml_pretty.cpp
index b878cc2..2ba2b80 100644
--- a/src/client/srcml_pretty.cpp
+++ b/src/client/srcml_pretty.cpp
@@ -234,14 +234,12 @@ void display_template(srcml_archive* srcml_arch, pretty_template_t& output_templ
     std::unique_ptr<srcml_unit> unit;
 
     if (unit_num > 0 && !(xml)) {
-        while (unit_count != unit_num) {
+        while (unit_count != unit_num - 1) {
             srcml_archive_skip_unit(srcml_arch);
             ++unit_count;
         }
     }
-    else {
-        unit.reset(srcml_archive_read_unit(srcml_arch));
-    }
+    unit.reset(srcml_archive_read_unit(srcml_arch));
 
     if (output_template.body) {
         while (unit) {
@@ -296,13 +294,14 @@ void display_template(srcml_archive* srcml_arch, pretty_template_t& output_templ
                 pretty_print(*output_template.body, body_params);
 
             body_params.clear();
-            unit.reset(srcml_archive_read_unit(srcml_arch));
 
             // When you want to print only the information from a specific unit
-            if (unit_num > 0 && unit_num == unit_count && !(xml)) {
+            if (unit_num > 0 && !(xml)) {
                 break;
             }
 
+            unit.reset(srcml_archive_read_unit(srcml_arch));
+
             if (unit)
                 ++unit_count;
         }
-- 
2.43.0


From e9a38b6049e5922e0655730fcce052dfff9a71f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:13 +0000
Subject: [PATCH 72/72] fix: a literal % and the source encoding of a unit can
 be used in a format

---
 src/client/srcml_pretty.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client/srcml_pretty.cpp b/src/client/srcml_pretty.cpp
index 2ba2b80..1554478 100644
--- a/src/client/srcml_pretty.cpp
+++ b/src/client/srcml_pretty.cpp
@@ -132,7 +132,8 @@ boost::optional<size_t> parse_templates(std::string& template_string, std::vecto
         }
 
         // For %% case - just ignore it
-        if (((found + 1) < template_string.length()) && (template_string[found + 1] == '%' || template_string[found + 1] == 's')) {
+        if (((found + 1) < template_string.length()) && template_string[found + 1] == '%') {
+            ++found;
             continue;
         }
 
@@ -164,6 +165,9 @@ boost::optional<size_t> parse_templates(std::string& template_string, std::vecto
             template_string.erase(found, 2);
             section_args.push_back(template_arg);
             template_string.insert(found, replace_arg);
+
+            // past what was inserted
+            found += replace_arg.length() - 1;
         }
     }
 
-- 
2.43.0

