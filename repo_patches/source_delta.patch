From 36e25af676edba95b44afdc6bcdb8ba2ad5775ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:49 +0000
Subject: [PATCH 01/13] fix: a soft line break after an empty text node raised
 IndexError

An entity such as &#1; is decoded to the empty string; a newline after it
indexed the last character of that empty literal.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0aa50d3..0759ac1 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -738,7 +738,7 @@ class InlineParser(object):
         # assume we're at a \n
         self.pos += 1
         lastc = block.last_child
-        if lastc and lastc.t == 'text' and lastc.literal[-1] == ' ':
+        if lastc and lastc.t == 'text' and lastc.literal[-1:] == ' ':
             linebreak = len(lastc.literal) >= 2 and lastc.literal[-2] == ' '
             lastc.literal = re.sub(reFinalSpace, '', lastc.literal)
             if linebreak:
-- 
2.43.0


From 7824096f434bba9e01ede237ed837f4f830f56e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:22 +0000
Subject: [PATCH 02/13] fix: link titles took exponential time to reject

A backslash could be read both as the start of an escape and as an
ordinary character, so a title of n escapes without a closing quote was
tried in 2^n ways. A backslash now always takes the next character with it.
---
 commonmark/inlines.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0759ac1..0056e41 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -51,11 +51,11 @@ rePunctuation = re.compile(
 )
 
 reLinkTitle = re.compile(
-    '^(?:"(' + ESCAPED_CHAR + '|[^"\\x00])*"' +
+    '^(?:"(\\\\[^\\x00]|[^"\\\\\\x00])*"' +
     '|' +
-    '\'(' + ESCAPED_CHAR + '|[^\'\\x00])*\'' +
+    '\'(\\\\[^\\x00]|[^\'\\\\\\x00])*\'' +
     '|' +
-    '\\((' + ESCAPED_CHAR + '|[^()\\x00])*\\))')
+    '\\((\\\\[^\\x00]|[^()\\\\\\x00])*\\))')
 reLinkDestinationBraces = re.compile(r'^(?:<(?:[^<>\n\\\x00]|\\.)*>)')
 
 reEscapable = re.compile('^' + common.ESCAPABLE)
-- 
2.43.0


From df156c20447000bd4d034de01a696a0059a7393d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 03/13] fix: raw HTML tags took exponential time to reject

White space between the parts of a tag was \s, which overlaps with unquoted
attribute values in non-ASCII white space. It is now the white space of the
specification.
---
 commonmark/common.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/commonmark/common.py b/commonmark/common.py
index 05b52a1..43e5cd9 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -21,6 +21,7 @@ else:
 
 ENTITY = '&(?:#x[a-f0-9]{1,6}|#[0-9]{1,7}|[a-z][a-z0-9]{1,31});'
 
+WHITESPACE = '[ \\t\\n\\x0b\\x0c\\r]'
 TAGNAME = '[A-Za-z][A-Za-z0-9-]*'
 ATTRIBUTENAME = '[a-zA-Z_:][a-zA-Z0-9:._-]*'
 UNQUOTEDVALUE = "[^\"'=<>`\\x00-\\x20]+"
@@ -28,10 +29,12 @@ SINGLEQUOTEDVALUE = "'[^']*'"
 DOUBLEQUOTEDVALUE = '"[^"]*"'
 ATTRIBUTEVALUE = "(?:" + UNQUOTEDVALUE + "|" + SINGLEQUOTEDVALUE + \
     "|" + DOUBLEQUOTEDVALUE + ")"
-ATTRIBUTEVALUESPEC = "(?:" + "\\s*=" + "\\s*" + ATTRIBUTEVALUE + ")"
-ATTRIBUTE = "(?:" + "\\s+" + ATTRIBUTENAME + ATTRIBUTEVALUESPEC + "?)"
-OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + "\\s*/?>"
-CLOSETAG = "</" + TAGNAME + "\\s*[>]"
+ATTRIBUTEVALUESPEC = "(?:" + WHITESPACE + "*=" + WHITESPACE + "*" + \
+    ATTRIBUTEVALUE + ")"
+ATTRIBUTE = "(?:" + WHITESPACE + "+" + ATTRIBUTENAME + \
+    ATTRIBUTEVALUESPEC + "?)"
+OPENTAG = "<" + TAGNAME + ATTRIBUTE + "*" + WHITESPACE + "*/?>"
+CLOSETAG = "</" + TAGNAME + WHITESPACE + "*[>]"
 HTMLCOMMENT = '<!---->|<!--(?:-?[^>-])(?:-?[^-])*-->'
 PROCESSINGINSTRUCTION = "[<][?].*?[?][>]"
 DECLARATION = "<![A-Z]+" + "\\s+[^>]*>"
-- 
2.43.0


From 84199cca3b10ecb72f576340094f54c1c90667b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 04/13] fix: discard the rejected title of a link reference
 definition

The title was compared with the empty string instead of being set to it, so
text on the line after a definition became its title as well.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0056e41..0dcc296 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -800,7 +800,7 @@ class InlineParser(object):
                 # the potential title we found is not at the line end,
                 # but it could still be a legal link reference if we
                 # discard the title
-                title == ''
+                title = ''
                 # rewind before spaces
                 self.pos = beforetitle
                 # and instead check if the link URL is at the line end
-- 
2.43.0


From e8b78f0757c3539ec18e581e05352aaac64dd9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 05/13] fix: an inline link that does not close swallowed its
 text

The position was not reset when the closing parenthesis was missing, and a
following link label made "(dest " disappear from the output.
---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index 0dcc296..c2764bb 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -624,7 +624,7 @@ class InlineParser(object):
                 if self.spnl() and self.peek() == ')':
                     self.pos += 1
                     matched = True
-            else:
+            if not matched:
                 self.pos = savepos
 
         if not matched:
-- 
2.43.0


From 72c7c6ed53a86d6e61c4dedf95ba2ccfc0c7e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 06/13] fix: a lone surrogate in a link destination raised
 UnicodeEncodeError

---
 commonmark/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/commonmark/common.py b/commonmark/common.py
index 43e5cd9..58155d1 100644
--- a/commonmark/common.py
+++ b/commonmark/common.py
@@ -71,6 +71,10 @@ def unescape_string(s):
 def normalize_uri(uri):
     try:
         return quote(uri.encode('utf-8'), safe=str(';/@:+?=&()%#*,'))
+    except UnicodeEncodeError:
+        # lone surrogates; Python 2 encodes these without complaint
+        return quote(uri.encode('utf-8', 'surrogatepass'),
+                     safe=str(';/@:+?=&()%#*,'))
     except UnicodeDecodeError:
         # Python 2 also throws a UnicodeDecodeError, complaining about
         # the width of the "safe" string. Removing this parameter
-- 
2.43.0


From 39ac743a9df8492cbf365ff5904609ebbcf27f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 07/13] fix: rendering some headings as reStructuredText raised
 an error

The length of the underline was that of the literal of the first child; an
empty heading has no child, and emphasis has no literal.
---
 commonmark/render/rst.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/commonmark/render/rst.py b/commonmark/render/rst.py
index 45adca3..8c2cf61 100644
--- a/commonmark/render/rst.py
+++ b/commonmark/render/rst.py
@@ -150,12 +150,13 @@ class ReStructuredTextRenderer(Renderer):
             # Default to the last level if we're in too deep
             heading_char = heading_chars[-1]
 
-        heading_length = len(node.first_child.literal)
-        banner = heading_char * heading_length
-
         if entering:
             self.cr()
         else:
+            # as long as the line the heading is on
+            heading_length = len(self.buf) - (self.buf.rfind('\n') + 1)
+            banner = heading_char * heading_length
+
             self.cr()
             self.out(banner)
             self.cr()
-- 
2.43.0


From dab53db564af9fcc3f4aff742d599244c04fea07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 08/13] fix: a final carriage return is not followed by another
 line

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index aeec21d..380b58e 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -891,7 +891,7 @@ class Parser(object):
         self.current_line = ''
         lines = re.split(reLineEnding, my_input)
         length = len(lines)
-        if len(my_input) > 0 and my_input[-1] == '\n':
+        if len(my_input) > 0 and my_input[-1] in ('\n', '\r'):
             # ignore last blank line created by final newline
             length -= 1
         for i in range(length):
-- 
2.43.0


From e863f8866662c7b91f2808adb81e1c3d323cf922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 09/13] fix: only ASCII digits form an ordered list marker

---
 commonmark/blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 380b58e..9087880 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -41,7 +41,7 @@ reThematicBreak = re.compile(
 reMaybeSpecial = re.compile(r'^[#`~*+_=<>0-9-]')
 reNonSpace = re.compile(r'[^ \t\f\v\r\n]')
 reBulletListMarker = re.compile(r'^[*+-]')
-reOrderedListMarker = re.compile(r'^(\d{1,9})([.)])')
+reOrderedListMarker = re.compile(r'^([0-9]{1,9})([.)])')
 reATXHeadingMarker = re.compile(r'^#{1,6}(?:[ \t]+|$)')
 reCodeFence = re.compile(r'^`{3,}(?!.*`)|^~{3,}')
 reClosingCodeFence = re.compile(r'^(?:`{3,}|~{3,})(?= *$)')
-- 
2.43.0


From 231a4f9636c0ecacded1ad86f5dc5281178802ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 10/13] fix: escape raw HTML inside an image description

The description is the value of the alt attribute, which a raw tag with
double quotes would have closed.
---
 commonmark/render/html.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index b4ea345..0dde639 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -184,7 +184,10 @@ class HtmlRenderer(Renderer):
             self.cr()
 
     def html_inline(self, node, entering):
-        if self.options.get('safe'):
+        if self.disable_tags > 0:
+            # inside the alt attribute of an image
+            self.out(node.literal)
+        elif self.options.get('safe'):
             self.lit('<!-- raw HTML omitted -->')
         else:
             self.lit(node.literal)
-- 
2.43.0


From 856099763a7aea02e802b3bb78b72eab39ad5738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 11/13] fix: HtmlRenderer changed the options it was given

Including the default argument, which all renderers without options share.
---
 commonmark/render/html.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/commonmark/render/html.py b/commonmark/render/html.py
index 0dde639..b16189e 100644
--- a/commonmark/render/html.py
+++ b/commonmark/render/html.py
@@ -20,6 +20,7 @@ def potentially_unsafe(url):
 
 class HtmlRenderer(Renderer):
     def __init__(self, options={}):
+        options = dict(options)
         #  by default, soft breaks are rendered as newlines in HTML
         options['softbreak'] = options.get('softbreak') or '\n'
         # set to "<br />" to make them hard breaks
-- 
2.43.0


From a37f0136b772a36b5955cd62f04ebcd6e321e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 12/13] fix: end column of fenced code and HTML blocks

A block closed on its own last line got the length of the line before.
---
 commonmark/blocks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/commonmark/blocks.py b/commonmark/blocks.py
index 9087880..903218a 100644
--- a/commonmark/blocks.py
+++ b/commonmark/blocks.py
@@ -326,6 +326,7 @@ class CodeBlock(Block):
                 re.search(reClosingCodeFence, ln[parser.next_nonspace:])
             if match and len(match.group()) >= container.fence_length:
                 # closing fence - we're at end of line, so we can return
+                parser.last_line_length = len(ln)
                 parser.finalize(container, parser.line_number)
                 return 2
             else:
@@ -839,6 +840,7 @@ class Parser(object):
                    re.search(
                        reHtmlBlockClose[container.html_block_type],
                        self.current_line[self.offset:]):
+                    self.last_line_length = len(ln)
                     self.finalize(container, self.line_number)
             elif self.offset < len(ln) and not self.blank:
                 # create a paragraph container for one line
-- 
2.43.0


From 24cd062f0188cf7e81b9da8ec0a9e725204a8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:42:57 +0000
Subject: [PATCH 13/13] fix: a rejected empty title prevented a link reference
 definition

---
 commonmark/inlines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/commonmark/inlines.py b/commonmark/inlines.py
index c2764bb..7d648a0 100644
--- a/commonmark/inlines.py
+++ b/commonmark/inlines.py
@@ -794,7 +794,7 @@ class InlineParser(object):
         # make sure we're at line end:
         at_line_end = True
         if self.match(reSpaceAtEndOfLine) is None:
-            if title == '':
+            if self.pos == beforetitle:
                 at_line_end = False
             else:
                 # the potential title we found is not at the line end,
-- 
2.43.0

