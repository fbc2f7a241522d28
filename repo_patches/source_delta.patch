From e6ecac5cc28847c87e65daec5750c55064d14c38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 01/57] fix: report tokens that cannot start a paragraph as
 parser errors

A malformed definition such as ':name value' or '<< image:' reached the
paragraph processor without any text line, which failed with IndexError
instead of the 'Cannot parse token.' error.
---
 mau/parsers/document_processors/paragraph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..7f56697 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -23,6 +23,11 @@ def paragraph_processor(parser: DocumentParser):
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
     line_tokens: list[Token] = []
+
+    # A paragraph contains at least one line. If there
+    # is none the next token is not part of a paragraph.
+    parser.tm.peek_token(TokenType.TEXT)
+
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From b92d29e35f9f124bf56b8606d3653f5bdba3d71b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 02/57] fix: report a control statement without a condition as
 a parser error

'@if' followed by nothing failed with AttributeError.
---
 mau/parsers/document_processors/control.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mau/parsers/document_processors/control.py b/mau/parsers/document_processors/control.py
index c2a8c63..f355fc1 100644
--- a/mau/parsers/document_processors/control.py
+++ b/mau/parsers/document_processors/control.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from mau.parsers.document_parser import DocumentParser
 
 
+from mau.parsers.base_parser import create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import (
     process_condition_with_variables,
@@ -38,6 +39,13 @@ def control_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(prefix_token.context, condition_token.context)
 
+    # The condition is mandatory.
+    if condition_node is None:
+        raise create_parser_exception(
+            f"Control operator '{operator}' requires a condition.",
+            context,
+        )
+
     control = Control(
         operator,
         condition_node.variable,
-- 
2.43.0


From d987d79b1fcfb80cfeb2d1ad455dfda7978cd057 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:05 +0000
Subject: [PATCH 03/57] fix: accept headers and list items whose text is empty

A list item without text, or a header or list item whose text becomes empty
once variables and conditions are replaced, failed with IndexError while the
context of the node was computed.
---
 mau/parsers/document_processors/header.py | 11 +++++++----
 mau/parsers/document_processors/list.py   | 13 +++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..1d62320 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -63,10 +63,13 @@ def header_processor(parser: DocumentParser):
     # Extract the header id if specified.
     node.name = arguments.named_args.pop("name", None)
 
-    # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
+    # Find the context of the text. The text might be
+    # empty, for example because of a variable.
+    text_context = text_token.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
 
     # Find the context of the whole node.
     node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..562a55d 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -14,6 +14,15 @@ from mau.text_buffer import Context
 from mau.token import Token, TokenType
 
 
+def _item_context(header: Token, text: Token, content: list[Node]) -> Context:
+    # The context of a list item goes from the header
+    # to the end of the content. The content might be
+    # empty, for example because of a variable.
+    end_context = content[-1].info.context if content else text.context
+
+    return Context.merge_contexts(header.context, end_context)
+
+
 def _process_list_nodes(parser: DocumentParser, parent: Node):
     # This parses all items of a list
 
@@ -30,7 +39,7 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    context = _item_context(header, text, content)
 
     nodes: list[Node] = []
     nodes.append(
@@ -71,7 +80,7 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            context = _item_context(header, text, content)
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From 34b53b6ce7e567e620ae567c6ae6269cb5cb894c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 04/57] fix: report any unreadable included file as a parser
 error

Directories, files without permissions, invalid paths, and files that are not
UTF-8 escaped as raw Python exceptions; only missing files were reported.
---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..0203ca2 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -220,7 +220,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -293,7 +293,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From ce8d6291191d28b551658d2744946479772468e0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:14 +0000
Subject: [PATCH 05/57] fix: report a blockgroup include without a group as a
 parser error

'<< blockgroup' failed with KeyError.
---
 mau/parsers/document_processors/include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 0203ca2..9c83728 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -351,7 +351,13 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a group.",
+            context,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From bfac19c1a4efed5d24dc07a791c7e4c8848958f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 06/57] fix: report an invalid list start as a parser error

'[start=abc]' on a list failed with ValueError.
---
 mau/parsers/document_processors/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 562a55d..2981cd4 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -171,7 +171,14 @@ def list_processor(parser: DocumentParser):
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"The start of the list must be an integer or 'auto', not '{start}'.",
+                context=nodes[0].info.context,
+            ) from exc
+
         parser.latest_ordered_list_index = len(nodes) + start
 
     # Find the final context.
-- 
2.43.0


From d89afdbc654c5a7ddc2c6584b18ec0bc8bb3849c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:40 +0000
Subject: [PATCH 07/57] fix: support source marker delimiters and prefixes of
 any length

Markers were split assuming a one character delimiter and highlight prefix, so
longer ones left pieces behind and an empty delimiter failed with ValueError.
---
 .../block_engines/source.py                    | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..1a42f1c 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -14,6 +14,7 @@ from mau.nodes.source import (
     SourceMarkerNode,
     SourceNode,
 )
+from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
 from mau.token import Token
 
@@ -67,6 +68,13 @@ def parse_source_engine(
     # Get the delimiter for markers
     marker_delimiter = arguments.named_args.pop("marker_delimiter", ":")
 
+    # The delimiter is needed to find markers.
+    if not marker_delimiter:
+        raise create_parser_exception(
+            "The marker delimiter of a source block cannot be empty.",
+            context=content.context,
+        )
+
     # Get the highlight prefix
     highlight_prefix = arguments.named_args.pop("highlight_marker", "@")
 
@@ -113,7 +121,7 @@ def parse_source_engine(
             continue
 
         # Split without the final delimiter
-        splits = line_content[:-1].split(marker_delimiter)
+        splits = line_content.removesuffix(marker_delimiter).split(marker_delimiter)
 
         if len(splits) < 2:
             # It's a trap! There are no separators left.
@@ -132,7 +140,9 @@ def parse_source_engine(
         line_content = marker_delimiter.join(splits[:-1])
 
         if marker.startswith(highlight_prefix):
-            highlight_style = marker[1:] or highlight_default_style
+            highlight_style = (
+                marker.removeprefix(highlight_prefix) or highlight_default_style
+            )
 
             # Replace the highlight style
             # if it is an alias.
@@ -145,8 +155,8 @@ def parse_source_engine(
         # If there is a marker, change the line
         # context to remove the marker.
         if marker:
-            # Take into account the two colons.
-            marker_length = len(marker) + 2
+            # Take into account the two delimiters.
+            marker_length = len(marker) + 2 * len(marker_delimiter)
 
             # Calculate the line length.
             line_length = len(line_content)
-- 
2.43.0


From 7e92a54da6465cfb28d8d9693ec5a0b5d0a6636b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 08/57] fix: continue a sentence after an inline condition
 without output

A false [if:...] macro without a false case returned no nodes, which ended the
sentence: inside a style the closing marker was never found and the style was
dropped.
---
 mau/parsers/text_parser.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..d450860 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -163,14 +163,12 @@ class TextParser(BaseParser):
         # EOF and EOL always act as stoppers.
         stop_tokens = stop_tokens.union({EOF, EOL})
 
-        # Try to parse some text.
-        nodes = self._parse_text(stop_tokens)
-
-        # Continue parsing text until it
-        # stops returning nodes.
-        while nodes:
-            content.extend(nodes)
-            nodes = self._parse_text(stop_tokens)
+        # Continue parsing text until we meet one
+        # of the stop tokens. Elements might be
+        # processed without creating any node, for
+        # example when a condition is false.
+        while self.tm.peek_token() not in stop_tokens:
+            content.extend(self._parse_text(stop_tokens))
 
         # Group consecutive WordNode nodes into a single TextNode.
         # This scans the nodes we found and tries to collect consecutive
-- 
2.43.0


From ce247353add32b47b4e6ea256de94b12ba3cf253 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:51 +0000
Subject: [PATCH 09/57] fix: ifeval accepts variables that are not strings

Values loaded from YAML files can be numbers, and a namespace is not a value:
both failed with AttributeError, while {variable} converts the former and
reports the latter.
---
 mau/parsers/text_parser.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index d450860..f69d7b6 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -902,19 +902,16 @@ class TextParser(BaseParser):
                     context=context,
                 )
 
-            # Find the value of the variable.
-            variable_value = self.environment.get(
-                result.value,
-            )
-
+            # Find the value of the variable. As it happens
+            # for variables in the text, it has to be a string.
             # If the variable wasn't defined yell at the user.
-            if variable_value is None:
+            try:
+                result.value = str(self.environment[result.value])
+            except KeyError as exc:
                 raise create_parser_exception(
                     f"Variable '{result.value}' has not been defined.",
                     context=context,
-                )
-
-            result.value = variable_value
+                ) from exc
 
         nodes = []
         if result is not None:
-- 
2.43.0


From eef84fc80113757c8c553648d7c8d917595ffbf9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:09 +0000
Subject: [PATCH 10/57] fix: keep source lines that end with two consecutive
 delimiters

A line such as 'std::' has no marker between the delimiters, but it lost the
last two characters without gaining a marker.
---
 mau/parsers/document_processors/block_engines/source.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 1a42f1c..1fb4129 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -123,8 +123,9 @@ def parse_source_engine(
         # Split without the final delimiter
         splits = line_content.removesuffix(marker_delimiter).split(marker_delimiter)
 
-        if len(splits) < 2:
-            # It's a trap! There are no separators left.
+        if len(splits) < 2 or not splits[-1]:
+            # It's a trap! There are no separators left
+            # or there is nothing between them.
             # Just add the line as it is.
             create_source_line(
                 code,
-- 
2.43.0


From bb960bcdb2cdfe5e939f09cbb1f8746b38b4084f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 11/57] fix: honour quotes and escapes in every macro argument

Quotes protected closing brackets only in the first argument, and escaped
quotes inside it lost their backslash, so '[link](URL, "text (x)")' and
'[class]("say \"hi\"", c)' could not be parsed.
---
 mau/parsers/text_parser.py | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index f69d7b6..b14aa8f 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -77,10 +77,20 @@ class TextParser(BaseParser):
             self.tm.peek_token_is(TokenType.LITERAL, ")")
             or self.tm.peek_token_is(TokenType.EOF)
         ):
+            # Double quotes surround an argument only at the
+            # beginning of the latter, which is the beginning
+            # of the text, or after a comma or an equal sign.
+            previous = "".join(token.value for token in all_args)
+            argument_start = (
+                not previous
+                or previous.endswith("=")
+                or previous.rstrip(" ").endswith(",")
+            )
+
             # If we find double quotes we need to blindly
             # collect everything until we meet the closing
             # double quotes or EOL.
-            if self.tm.peek_token_is(TokenType.LITERAL, '"'):
+            if argument_start and self.tm.peek_token_is(TokenType.LITERAL, '"'):
                 # Consume the double quotes.
                 opening_quotes = self.tm.get_token(TokenType.LITERAL, '"')
 
@@ -91,6 +101,7 @@ class TextParser(BaseParser):
                         Token.generate(TokenType.LITERAL, '"'),
                         EOF,
                     ],
+                    preserve_escaped_stop_tokens=True,
                 )
 
                 # As we stopped, the next token should be
@@ -106,16 +117,19 @@ class TextParser(BaseParser):
                     TokenType.TEXT, value=f'"{text_token.value}"', context=context
                 )
             else:
-                # No double quotes, we can proceed,
-                # until we find the closing round bracket
-                # or a comma, which is the arguments separator.
-                token = self.tm.collect_join(
-                    stop_tokens=[
-                        Token.generate(TokenType.LITERAL, ","),
-                        Token.generate(TokenType.LITERAL, ")"),
-                        EOF,
-                    ],
-                )
+                # No double quotes, just get the next token.
+                token = self.tm.get_token()
+
+                # Escapes are processed by the arguments parser,
+                # but the closing round bracket is special only
+                # here, so an escaped one loses the escape.
+                if token == Token.generate(TokenType.LITERAL, "\\"):
+                    next_token = self.tm.get_token()
+
+                    if next_token.value == ")":
+                        token = next_token
+                    else:
+                        token = Token.from_token_list([token, next_token])
 
             # We can add the arguments we found to the
             # global list.
-- 
2.43.0


From 83d2e1a7a8c24b7112951eaccf01340fe3cc9226 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 12/57] fix: apply conditions to footnote and group blocks

A block that is a footnote body or a member of a group ignored the condition in
front of it, which was then applied to the node that followed.
---
 mau/parsers/document_processors/block.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..d05c339 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -86,6 +86,14 @@ def block_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
+    # Check the stored control
+    if control := parser.control_buffer.pop():
+        # If control is False, we need to stop
+        # processing here and return without
+        # saving any node.
+        if not control.process(parser.environment):
+            return True
+
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
@@ -104,14 +112,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From 251a2b4a3cb8cc66b16d3cfb98431eafee52b148 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 13/57] fix: detect include loops that go through a block

The content of a block was parsed without the list of files that cannot be
included, so a file including itself inside a block recursed until the stack
was exhausted. The include calls made in blocks were not reported either.
---
 mau/parsers/document_processors/block_engines/default.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..bc68528 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,8 +34,13 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        forbidden_includes=parser.forbidden_includes,
     )
 
+    # Files included inside the block
+    # are included by this document.
+    parser.output.include_calls.extend(content_parser.output.include_calls)
+
     if update:
         # The footnote mentions and definitions
         # found in this block are part of the
-- 
2.43.0


From 461dac9c09fd1a9ff86b593fc970284cff0bfbf1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:13 +0000
Subject: [PATCH 14/57] fix: allow a file to be included more than once

Included files were recorded in a list shared by the whole document, so
including the same file twice was reported as a loop.
---
 mau/parsers/document_processors/include.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 9c83728..3556272 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -183,15 +183,19 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if context.source not in parser.forbidden_includes:
-        parser.forbidden_includes.append(context.source)
+    # The list is a copy, as it contains the files that
+    # are being included. Files included previously
+    # are not part of a loop.
+    forbidden_includes = list(parser.forbidden_includes)
+    if context.source not in forbidden_includes:
+        forbidden_includes.append(context.source)
 
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in parser.forbidden_includes:
+    if uri in forbidden_includes:
         raise create_parser_exception(
-            f"To avoid recursion, you cannot include the following files: {parser.forbidden_includes}.",
+            f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
         )
 
@@ -213,8 +217,7 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if uri not in parser.forbidden_includes:
-        parser.forbidden_includes.append(uri)
+    forbidden_includes.append(uri)
 
     # Open the given URI and read the text.
     try:
@@ -251,7 +254,7 @@ def _parse_mau(
         start_line=0,
         start_column=0,
         source_filename=source_filename,
-        forbidden_includes=parser.forbidden_includes,
+        forbidden_includes=forbidden_includes,
     )
 
     # Add the include call to the parser output.
-- 
2.43.0


From ce95491d35f4c29dd8e1b5443b17a3ca3a7fdd4c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 15/57] fix: report duplicate footnotes at their position

The context of a footnote block is not set when the error is created, so the
message always pointed at the beginning of an unnamed source.
---
 mau/parsers/document_processors/block.py  | 2 +-
 mau/parsers/managers/footnotes_manager.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index d05c339..e9489bf 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -97,7 +97,7 @@ def block_processor(parser: DocumentParser):
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
-        parser.footnotes_manager.add_body(footnote_name, node)
+        parser.footnotes_manager.add_body(footnote_name, node, context)
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..8b1bad9 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -7,6 +7,7 @@ from mau.nodes.macro import (
     MacroFootnoteNode,
 )
 from mau.parsers.base_parser import create_parser_exception
+from mau.text_buffer import Context
 
 
 def default_footnote_unique_id(
@@ -54,13 +55,13 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
-    def add_body(self, name: str, data: BlockNode):
+    def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
         the list of contents."""
         if name in self.bodies:
             raise create_parser_exception(
                 text=f"Footnote '{name}' has been already defined.",
-                context=data.info.context,
+                context=context or data.info.context,
             )
 
         self.bodies[name] = data
-- 
2.43.0


From aae28cdbe8d04d9abdd6c38844a6c2877fbf817f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 16/57] fix: never derive an output file equal to the input
 file

Without -o the output name replaced every '.mau' in the path of the input, so
an input file without that extension was overwritten, directories with '.mau'
in their name were changed, and extensions with a dot were given two.
---
 mau/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..ab1b7e9 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -284,9 +284,9 @@ def main():
         sys.exit(1)
 
     # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
-    )
+    input_file_stem = args.input_file.removesuffix(".mau")
+    output_extension = visitor_class.extension.removeprefix(".")
+    output_file = args.output_file or f"{input_file_stem}.{output_extension}"
 
     # Write the rendered text to
     # the selected output file.
-- 
2.43.0


From 15b102066a526d61f1a7f2b8dbdbabca0a4e5cf4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:43 +0000
Subject: [PATCH 17/57] fix: accept equal signs in the value of command line
 variables

'-v key=a=b' and '-e key=dir=x/file.yaml' were split at every equal sign.
---
 mau/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index f4ddacd..861c010 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -99,7 +99,7 @@ def load_environment_files(
 
         try:
             # Assume the filename is in the form "key=path".
-            key, value = filename.split("=")
+            key, value = filename.split("=", 1)
 
             # Create a Path from the file path.
             filepath = Path(value)
@@ -146,7 +146,7 @@ def load_environment_variables(
         # ENVIRONMENT_VARIABLES_NAMESPACE.KEY
 
         # Parse the environment variable syntax.
-        key, value = variable.split("=")
+        key, value = variable.split("=", 1)
 
         # Store the value.
         flat_environment_variables[key] = value
-- 
2.43.0


From a75d8a59303b28e22a798086864bde73d3093a26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 18/57] fix: add the arguments of an alias in the order of its
 definition

They were added in the order of a set of strings, which changes at every run.
---
 mau/parsers/arguments_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..fc7dce4 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -235,9 +235,9 @@ class ArgumentsParser(BaseParser):
 
             # These are the keys added by the alias
             # that are not already in the processed arguments.
-            missing_keys = set(replacement_args.keys()) - set(
-                self.named_argument_nodes.keys()
-            )
+            missing_keys = [
+                key for key in replacement_args if key not in self.named_argument_nodes
+            ]
 
             for key in missing_keys:
                 context = self.alias.info.context
-- 
2.43.0


From 34907a67c4881ef216b66d9a1381caafc6e87c4d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:51 +0000
Subject: [PATCH 19/57] fix: do not look for prefixes inside tags and subtypes

The value of a tag such as '#*x' was searched again for the prefix of subtypes
and aliases, so a single argument could become a tag, a subtype, and an alias.
---
 mau/parsers/arguments_parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index fc7dce4..f39b121 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -183,13 +183,17 @@ class ArgumentsParser(BaseParser):
         # Isolate all tags.
         self.tag_nodes = self._isolate_by_prefix("#", self.unnamed_argument_nodes)
 
+        # A node has only one prefix, the value
+        # that follows might start with any character.
+        nodes = [i for i in self.unnamed_argument_nodes if i not in self.tag_nodes]
+
         # Isolate all subtypes.
-        subtypes = self._isolate_by_prefix(
-            "*", self.unnamed_argument_nodes, unique=True
-        )
+        subtypes = self._isolate_by_prefix("*", nodes, unique=True)
+
+        nodes = [i for i in nodes if i not in subtypes]
 
         # Isolate all aliases.
-        aliases = self._isolate_by_prefix("@", self.unnamed_argument_nodes, unique=True)
+        aliases = self._isolate_by_prefix("@", nodes, unique=True)
 
         # Extract the subtype if present.
         self.subtype = next(iter(subtypes), None)
-- 
2.43.0


From f1e5e7558e699c2a371df3e1c9ffbb38b9beb52c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 20/57] fix: create a Jinja visitor without an environment

The environment is optional but it was accessed even when it was None.
---
 mau/visitors/jinja_visitor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..93fd7dd 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -348,7 +348,9 @@ class JinjaVisitor(BaseVisitor):
         super().__init__(message_handler, environment)
 
         # Load the template prefixes from the configuration.
-        self.template_prefixes = environment.get("mau.visitor.templates.prefixes", [])
+        self.template_prefixes = self.environment.get(
+            "mau.visitor.templates.prefixes", []
+        )
 
         # Load default templates.
         # A custom implementation of this visitor might
@@ -369,7 +371,7 @@ class JinjaVisitor(BaseVisitor):
 
         # Load custom templates provided as a dictionary.
         templates_env.update(
-            environment.get(
+            self.environment.get(
                 "mau.visitor.templates.custom",
                 Environment(),
             )
-- 
2.43.0


From e2c2c49cd25d477dd99f2fbac6ff69f63404a073 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 21/57] fix: nest variables whose name is also a namespace

Defining both 'a' and 'a.b' made the environment impossible to convert into a
nested dictionary: it failed with TypeError as soon as a template or an include
needed it.
---
 mau/environment/helpers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index d06c48f..98f0d67 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -58,11 +58,17 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
         # If the key still has hierarchical
         # parts, call the function recursively.
         if rest:
+            # The key might host a value that is not
+            # a dictionary, e.g. when both `a` and `a.b`
+            # are defined. The latest definition wins.
+            if not isinstance(output.get(key), dict):
+                output[key] = {}
+
             _split(
                 rest[0],
                 value,
                 separator,
-                output.setdefault(key, {}),
+                output[key],
             )
         else:
             output[key] = value
-- 
2.43.0


From 9269522f4e1318e74d96a86cd3543f8a34889ae7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 22/57] fix: clone environments without losing variables

An environment was copied through its nested version, where a name cannot be
both a variable and a namespace, so included files could miss variables.
---
 mau/environment/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..d64e222 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -25,7 +25,7 @@ class Environment:
 
     @classmethod
     def from_environment(cls, other: Environment, namespace: str | None = None):
-        return cls().from_dict(other.asdict(), namespace)
+        return cls().from_dict(other.asflatdict(), namespace)
 
     def update(self, other: Environment, namespace: str | None = None, overwrite=True):
         # Create an environment, to get all
-- 
2.43.0


From ab71d9f556019b6b409f1daffd24915bfabdb469 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 23/57] fix: do not count nested lists as items when numbering
 lists

With start=auto a list continued from a number that was too high when the
previous list contained nested lists.
---
 mau/parsers/document_processors/list.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 2981cd4..a8d2389 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -166,10 +166,13 @@ def list_processor(parser: DocumentParser):
     # only through the arguments manager.
     arguments = parser.arguments_buffer.pop_or_default()
 
+    # Nested lists are not items of this list.
+    items = [n for n in nodes if isinstance(n, ListItemNode)]
+
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(nodes)
+        parser.latest_ordered_list_index += len(items)
     else:
         try:
             start = int(start)
@@ -179,7 +182,7 @@ def list_processor(parser: DocumentParser):
                 context=nodes[0].info.context,
             ) from exc
 
-        parser.latest_ordered_list_index = len(nodes) + start
+        parser.latest_ordered_list_index = len(items) + start
 
     # Find the final context.
     context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
-- 
2.43.0


From 3b93b375a286ea7dc5f14ed445dad922e369a9de Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 24/57] fix: converting an environment into a dictionary must
 not change it

An empty dictionary stored in the environment was reused as a namespace by the
nested version, so reading the environment added values to it.
---
 mau/environment/helpers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index 98f0d67..60d4ce5 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -71,7 +71,9 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
                 output[key],
             )
         else:
-            output[key] = value
+            # Empty dictionaries are values. They are copied as
+            # nested keys must not end up in the original.
+            output[key] = dict(value) if isinstance(value, MutableMapping) else value
 
     result: dict = {}
 
-- 
2.43.0


From 9cd334e67ecc4fd486f00eb8c00e9354157c3ffa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:43 +0000
Subject: [PATCH 25/57] fix: number lists with start=auto ignoring unordered
 lists

Bullet lists changed the number a list with start=auto continues from, and the
first list of a document started from 0 instead of 1 when it used start=auto.
---
 mau/parsers/document_parser.py          | 6 +++---
 mau/parsers/document_processors/list.py | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 91882f0..90171d9 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -109,10 +109,10 @@ class DocumentParser(BaseParser):
         self.label_buffer: LabelBuffer = LabelBuffer()
         self.control_buffer: ControlBuffer = ControlBuffer()
 
-        # The last index in the latest ordered list,
-        # used to calculate the beginning value of them
+        # The first index after the latest ordered list,
+        # used as the beginning value of the
         # next one when start=auto
-        self.latest_ordered_list_index = 0
+        self.latest_ordered_list_index = 1
 
         # This is a list of files that cannot
         # be included by this file. This is a
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index a8d2389..5aed85d 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -172,7 +172,6 @@ def list_processor(parser: DocumentParser):
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(items)
     else:
         try:
             start = int(start)
@@ -182,6 +181,8 @@ def list_processor(parser: DocumentParser):
                 context=nodes[0].info.context,
             ) from exc
 
+    # Only ordered lists have numbers to continue from.
+    if ordered:
         parser.latest_ordered_list_index = len(items) + start
 
     # Find the final context.
-- 
2.43.0


From c5d78db5089842af6dabf214e638537d4e663d8a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 26/57] fix: connect references across blocks that are not
 isolated

With isolate=false headers and footnotes are part of the outer document, but a
link or a mention inside the block could not reach what was defined outside,
and a named header inside the block could not be linked from outside.
---
 mau/parsers/document_parser.py                | 41 +++++++++++--------
 .../block_engines/default.py                  |  2 +
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 90171d9..7aaa13c 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -74,6 +74,7 @@ class DocumentParser(BaseParser):
         environment: Environment | None = None,
         parent_node=None,
         forbidden_includes: list[str] | None = None,
+        isolated: bool = True,
     ):
         super().__init__(tokens, message_handler, environment, parent_node)
 
@@ -122,6 +123,11 @@ class DocumentParser(BaseParser):
         # order of calls.
         self.forbidden_includes = forbidden_includes or []
 
+        # When this is False the headers and the footnotes
+        # of this document are part of another one, which
+        # is in charge of connecting them.
+        self.isolated = isolated
+
         # This is the final output of the parser
         self.output = DocumentParserOutput()
 
@@ -231,23 +237,24 @@ class DocumentParser(BaseParser):
     def finalise(self):
         super().finalise()
 
-        # This processes all footnotes stored in
-        # the manager merging mentions and data
-        # and updating the nodes that contain
-        # a list of footnotes.
-        self.footnotes_manager.process()
-
-        # Process ToC nodes.
-        # This operation needs to be done before
-        # we process header links, as it creates
-        # the internal IDs for headers that are
-        # used by the header links.
-        self.toc_manager.process()
-
-        # This processes all links stored in
-        # the manager linking them to the
-        # correct headers.
-        self.header_links_manager.process()
+        if self.isolated:
+            # This processes all footnotes stored in
+            # the manager merging mentions and data
+            # and updating the nodes that contain
+            # a list of footnotes.
+            self.footnotes_manager.process()
+
+            # Process ToC nodes.
+            # This operation needs to be done before
+            # we process header links, as it creates
+            # the internal IDs for headers that are
+            # used by the header links.
+            self.toc_manager.process()
+
+            # This processes all links stored in
+            # the manager linking them to the
+            # correct headers.
+            self.header_links_manager.process()
 
         # Process block groups.
         self.blockgroup_manager.process()
diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index bc68528..9c8bf0a 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -35,6 +35,7 @@ def parse_block_content(
         start_column=start_column,
         source_filename=source_filename,
         forbidden_includes=parser.forbidden_includes,
+        isolated=not update,
     )
 
     # Files included inside the block
@@ -51,6 +52,7 @@ def parse_block_content(
         # found in this block are part of the
         # main document. Import them.
         parser.toc_manager.update(content_parser.toc_manager)
+        parser.header_links_manager.update(content_parser.header_links_manager)
 
     return content_parser.nodes
 
-- 
2.43.0


From 02f85427619fd499aa3c8db63e508177771c98f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:37 +0000
Subject: [PATCH 27/57] fix: report footnotes defined again in a block that is
 not isolated

The second definition silently replaced the first one.
---
 mau/parsers/document_processors/block_engines/default.py | 4 +++-
 mau/parsers/managers/footnotes_manager.py                | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 9c8bf0a..c1366f5 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -46,7 +46,9 @@ def parse_block_content(
         # The footnote mentions and definitions
         # found in this block are part of the
         # main document. Import them.
-        parser.footnotes_manager.update(content_parser.footnotes_manager)
+        parser.footnotes_manager.update(
+            content_parser.footnotes_manager, content.context
+        )
 
         # The internal links and headers
         # found in this block are part of the
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 8b1bad9..39af3e5 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -71,12 +71,15 @@ class FootnotesManager:
         the list of managed nodes."""
         self.footnotes_list_nodes.append(data)
 
-    def update(self, other: FootnotesManager):
+    def update(self, other: FootnotesManager, context: Context | None = None):
         """Update footnotes, data, and footnotes nodes
         with those contained in another
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
-        self.bodies.update(other.bodies)
+
+        for name, body in other.bodies.items():
+            self.add_body(name, body, context)
+
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From 9571c67071b1cc47174a15da83656f69c3a5fe37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:42 +0000
Subject: [PATCH 28/57] fix: visit headers that link to themselves or to each
 other

The visit of a header link visits the linked header, which never ended when the
text of that header contained a link leading back to it.
---
 mau/visitors/base_visitor.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 7233456..09c4d24 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -387,13 +387,25 @@ class BaseVisitor:
     def _visit_macro_header(self, node: Node, **kwargs) -> dict:
         result = self._visit_default(node, **kwargs)
 
+        # The linked header might contain a link that leads
+        # back to it, so a header that is already being
+        # visited because of a link is not visited again.
+        linked_headers = kwargs.pop("linked_headers", ())
+        header = None
+        if node.header not in linked_headers:
+            header = node.header
+
         result.update(
             {
                 "target_name": node.target_name,
-                "header": self.visit_data(node.header, **kwargs),
+                "header": self.visit_data(
+                    header, **kwargs, linked_headers=(*linked_headers, header)
+                ),
             }
         )
 
+        kwargs["linked_headers"] = linked_headers
+
         self._add_visit_content(result, node, **kwargs)
 
         return result
-- 
2.43.0


From b5e4138e8a6d2eae09c90c37f79ba6c0380baf47 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 29/57] fix: connect footnotes and header links mentioned in
 the text of other macros

---
 mau/parsers/text_parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b14aa8f..d522d14 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -60,6 +60,13 @@ class TextParser(BaseParser):
         # in this piece of text.
         self.header_links: list[Node] = []
 
+    def _collect_references(self, parser: "TextParser"):
+        # Collect the footnote macros and the header links
+        # found in the text of a macro, so that they are
+        # managed like those found in this piece of text.
+        self.footnote_macros.extend(parser.footnote_macros)
+        self.header_links.extend(parser.header_links)
+
     def _collect_macro_args(self) -> Token:
         # A helper that reads macro arguments.
         # We already consumed the opening
@@ -522,6 +529,7 @@ class TextParser(BaseParser):
                 source_filename=source_filename,
             )
             nodes = parser.nodes
+            self._collect_references(parser)
         else:
             nodes = [
                 TextNode(
@@ -588,6 +596,7 @@ class TextParser(BaseParser):
                 source_filename=source_filename,
             )
             node.content = parser.nodes
+            self._collect_references(parser)
 
         self.header_links.append(node)
 
@@ -635,6 +644,7 @@ class TextParser(BaseParser):
                 source_filename=source_filename,
             )
             nodes = parser.nodes
+            self._collect_references(parser)
         else:
             nodes = [
                 TextNode(
@@ -687,6 +697,7 @@ class TextParser(BaseParser):
             start_column=start_column,
             source_filename=source_filename,
         )
+        self._collect_references(parser)
 
         node = MacroClassNode(
             classes,
@@ -937,5 +948,6 @@ class TextParser(BaseParser):
                 result.info.context.source,
             )
             nodes = parser.nodes
+            self._collect_references(parser)
 
         return nodes
-- 
2.43.0


From e062252787e74abc0822f793def2d55917ddee53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 30/57] fix: keep the spaces of named arguments between quotes

---
 mau/parsers/arguments_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index f39b121..9538383 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -78,12 +78,15 @@ class ArgumentsParser(BaseParser):
 
             # Get everything before the next double quotes.
             token = self.tm.collect_join([Token.generate(TokenType.LITERAL, '"')])
+            value = token.value
 
             # Read and discard the closing quotes
             self.tm.get_token(TokenType.LITERAL, '"')
         else:
             # Get everything before the comma or EOF.
+            # Spaces around a value without quotes are ignored.
             token = self.tm.collect_join([Token.generate(TokenType.LITERAL, ",")])
+            value = token.value.strip()
 
         # The comma is not there after the last argument,
         # so this is in a context manager as it might fail.
@@ -96,7 +99,7 @@ class ArgumentsParser(BaseParser):
 
         # Save the node.
         node = ValueNode(
-            token.value.strip(),
+            value,
             info=NodeInfo(context=token.context),
             parent=self.parent_node,
         )
-- 
2.43.0


From 6afc5788f31fc004684ed9a49d2b67ba32362525 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 31/57] fix: do not take the next line as the value of a
 variable

---
 mau/parsers/document_processors/variable_definition.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 513638f..bce1433 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -37,9 +37,14 @@ def variable_definition_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(opening_colon.context, closing_colon.context)
 
-    # Get the optional variable value.
+    # Get the optional variable value. A text that
+    # begins on another line is not the value.
     value: str = ""
-    if parser.tm.peek_token().type == TokenType.TEXT:
+    next_token = parser.tm.peek_token()
+    if (
+        next_token.type == TokenType.TEXT
+        and next_token.context.start_line == closing_colon.context.start_line
+    ):
         value_token = parser.tm.get_token()
         value = value_token.value
         context = Context.merge_contexts(context, value_token.context)
-- 
2.43.0


From dea7056ecf5e5c8848ea5e5df24d150b14ca7067 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 32/57] fix: do not take the next line as the arguments of an
 inclusion

---
 mau/parsers/document_processors/include.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 3556272..6f2a3a6 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -82,11 +82,20 @@ def include_processor(parser: DocumentParser):
             )
 
         # Get the colon.
-        parser.tm.get_token(TokenType.LITERAL, ":")
+        colon = parser.tm.get_token(TokenType.LITERAL, ":")
 
         # Get the inline arguments.
         arguments_token = parser.tm.get_token(TokenType.TEXT)
 
+        # A text that begins on another line is not
+        # part of the inclusion.
+        if arguments_token.context.start_line != colon.context.start_line:
+            raise create_parser_exception(
+                "Syntax error. Inline arguments are missing after the colon.",
+                context,
+                help_text=INCLUDE_HELP,
+            )
+
         arguments = process_arguments_with_variables(
             arguments_token, parser.message_handler, parser.environment
         ).arguments
-- 
2.43.0


From 88b03a2f04d40835c2042f47d86ad2e38d0188d5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 33/57] fix: connect the references contained in the text of
 footnotes

---
 mau/parsers/managers/footnotes_manager.py |  6 +++++-
 mau/visitors/base_visitor.py              | 10 ++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 39af3e5..47a1ca8 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -102,7 +102,11 @@ class FootnotesManager:
                 public_id=str(number),
             )
 
-            footnote.content = [node.deepcopy(parent=footnote) for node in body.content]
+            # The content is moved and not copied, as the
+            # references it contains are connected later.
+            footnote.content = body.content
+            for node in footnote.content:
+                node.parent = footnote
 
             # Create the internal ID.
             footnote.internal_id = self.footnote_unique_id_function(footnote)
diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 09c4d24..9bdebbb 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -421,6 +421,16 @@ class BaseVisitor:
             }
         )
 
+        # The content might mention the footnote itself,
+        # so a footnote that is already being visited
+        # is visited again without its content.
+        active_footnotes = kwargs.pop("active_footnotes", ())
+        if node in active_footnotes:
+            result["content"] = []
+            return result
+
+        kwargs["active_footnotes"] = (*active_footnotes, node)
+
         self._add_visit_content(result, node, **kwargs)
 
         return result
-- 
2.43.0


From 4225c1b68e1f56bf3d5209959c85b1444e63b664 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 34/57] fix: connect the header links shown in tables of
 contents

---
 mau/parsers/document_parser.py      | 15 ++++++++++-----
 mau/parsers/managers/toc_manager.py | 19 +++++++++++--------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 7aaa13c..6de625a 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -244,18 +244,23 @@ class DocumentParser(BaseParser):
             # a list of footnotes.
             self.footnotes_manager.process()
 
-            # Process ToC nodes.
+            # Create the internal IDs of headers.
             # This operation needs to be done before
-            # we process header links, as it creates
-            # the internal IDs for headers that are
-            # used by the header links.
-            self.toc_manager.process()
+            # we process header links, as those add
+            # text to the headers that contain them.
+            self.toc_manager.create_internal_ids()
 
             # This processes all links stored in
             # the manager linking them to the
             # correct headers.
             self.header_links_manager.process()
 
+            # Process ToC nodes.
+            # This operation needs to be done after
+            # we process header links, as headers
+            # are copied into the ToC nodes.
+            self.toc_manager.process()
+
         # Process block groups.
         self.blockgroup_manager.process()
 
diff --git a/mau/parsers/managers/toc_manager.py b/mau/parsers/managers/toc_manager.py
index 8652f2b..0f3427d 100644
--- a/mau/parsers/managers/toc_manager.py
+++ b/mau/parsers/managers/toc_manager.py
@@ -144,14 +144,9 @@ class TocManager:
         self.headers.extend(other.headers)
         self.toc_nodes.extend(other.toc_nodes)
 
-    def process(self):
-        if not self.headers:
-            return
-
-        self.nested_headers = []
-
-        # Check that all headers have a
-        # unique internal ID. If not, create it.
+    def create_internal_ids(self):
+        """Check that all headers have a
+        unique internal ID. If not, create it."""
         for header in self.headers:
             if header.internal_id is not None:
                 continue
@@ -160,6 +155,14 @@ class TocManager:
             internal_id = self.header_internal_id_function(header)
             header.internal_id = internal_id
 
+    def process(self):
+        if not self.headers:
+            return
+
+        self.nested_headers = []
+
+        self.create_internal_ids()
+
         # Header parent (the document)
         header_parent = self.headers[0].parent
 
-- 
2.43.0


From b4eadac98bcae5621ac0041aeabd79cf5a1f3b16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:44 +0000
Subject: [PATCH 35/57] fix: excluded nodes have no effect on the rest of the
 document

---
 mau/parsers/document_parser.py                | 14 ++++++
 mau/parsers/document_processors/block.py      | 14 +++---
 mau/parsers/document_processors/header.py     | 14 +++---
 .../document_processors/horizontal_rule.py    | 14 +++---
 mau/parsers/document_processors/include.py    | 14 +++---
 mau/parsers/document_processors/list.py       | 49 ++++++++++++++-----
 mau/parsers/document_processors/paragraph.py  | 14 +++---
 7 files changed, 81 insertions(+), 52 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 6de625a..1cad301 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -209,6 +209,20 @@ class DocumentParser(BaseParser):
 
         return text_parser.nodes
 
+    def _is_excluded(self) -> bool:
+        # Check if the stored control excludes the next node.
+        # In that case, what has been attached to
+        # the node has to be excluded as well.
+        control = self.control_buffer.pop()
+
+        if control is None or control.process(self.environment):
+            return False
+
+        self.arguments_buffer.pop()
+        self.label_buffer.pop()
+
+        return True
+
     def pop_labels(self, node: Node):
         # Extract labels from the buffer and
         # store them in the given node.
diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index e9489bf..29c7450 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -50,6 +50,12 @@ def block_processor(parser: DocumentParser):
         opening_delimiter.context, closing_delimiter.context
     )
 
+    # Check the stored control. If it is False, we need
+    # to stop processing here, before the content has any
+    # effect, and return without saving any node.
+    if parser._is_excluded():
+        return True
+
     # Get the stored arguments.
     # Paragraphs can receive arguments
     # only through the arguments manager.
@@ -86,14 +92,6 @@ def block_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index 1d62320..782236d 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -30,6 +30,12 @@ def header_processor(parser: DocumentParser):
     # Get the text of the header.
     text_token = parser.tm.get_token(TokenType.TEXT)
 
+    # Check the stored control. If it is False, we need
+    # to stop processing here, before the content has any
+    # effect, and return without saving any node.
+    if parser._is_excluded():
+        return True
+
     # Calculate the level of the header.
     level = len(header.value)
 
@@ -81,14 +87,6 @@ def header_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     # If there is an id store the header node
     # to be matched with potential header links.
     if node.name:
diff --git a/mau/parsers/document_processors/horizontal_rule.py b/mau/parsers/document_processors/horizontal_rule.py
index d6b98fa..cd13cf1 100644
--- a/mau/parsers/document_processors/horizontal_rule.py
+++ b/mau/parsers/document_processors/horizontal_rule.py
@@ -18,6 +18,12 @@ def horizontal_rule_processor(parser: DocumentParser):
     # Get the horizontal rule token.
     rule = parser.tm.get_token(TokenType.HORIZONTAL_RULE)
 
+    # Check the stored control. If it is False, we need
+    # to stop processing here, before the content has any
+    # effect, and return without saving any node.
+    if parser._is_excluded():
+        return True
+
     # Get the stored arguments.
     # Horizontal rules can receive arguments
     # only through the arguments manager.
@@ -37,14 +43,6 @@ def horizontal_rule_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 6f2a3a6..acc0871 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -102,6 +102,12 @@ def include_processor(parser: DocumentParser):
 
     arguments = arguments or NodeArguments()
 
+    # Check the stored control. If it is False, we need
+    # to stop processing here, before the content has any
+    # effect, and return without saving any node.
+    if parser._is_excluded():
+        return True
+
     node: IncludeImageNode | IncludeNode
 
     match content_type.value:
@@ -128,14 +134,6 @@ def include_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 5aed85d..d30bceb 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -23,6 +23,34 @@ def _item_context(header: Token, text: Token, content: list[Node]) -> Context:
     return Context.merge_contexts(header.context, end_context)
 
 
+def _wrong_syntax(parser: DocumentParser):
+    # The error for a list that is followed by something
+    # that is not an item.
+    return create_parser_exception(
+        "Wrong syntax encountered while processing the list.",
+        context=parser.tm.peek_token().context,
+    )
+
+
+def _skip_list(parser: DocumentParser):
+    # This discards all items of a list. An item on a level
+    # that is not as deep as the first one begins a new list.
+    level = len(parser.tm.peek_token(TokenType.LIST).value)
+
+    while parser.tm.peek_token() not in [
+        Token.generate(TokenType.EOF),
+        Token.generate(TokenType.EOL),
+    ]:
+        if not parser.tm.peek_token_is(TokenType.LIST):
+            raise _wrong_syntax(parser)
+
+        if len(parser.tm.peek_token().value) < level:
+            break
+
+        parser.tm.get_token(TokenType.LIST)
+        parser.tm.get_token(TokenType.TEXT)
+
+
 def _process_list_nodes(parser: DocumentParser, parent: Node):
     # This parses all items of a list
 
@@ -57,10 +85,7 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             # The next token is not the EOL or EOF,
             # so we expect a new list item, but the
             # token is not LIST.
-            raise create_parser_exception(
-                "Wrong syntax encountered while processing the list.",
-                context=parser.tm.peek_token().context,
-            )
+            raise _wrong_syntax(parser)
 
         if len(parser.tm.peek_token().value) == level:
             # The new item is on the same level
@@ -153,6 +178,14 @@ def list_processor(parser: DocumentParser):
     header = parser.tm.peek_token(TokenType.LIST)
     ordered = header.value[0] == "#"
 
+    # Check the stored control. If it is False, we need
+    # to stop processing here, before the content has any
+    # effect, and return without saving any node.
+    if parser._is_excluded():
+        _skip_list(parser)
+
+        return True
+
     node = ListNode(
         ordered=ordered,
         main_node=True,
@@ -197,14 +230,6 @@ def list_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index 7f56697..f70b235 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -31,6 +31,12 @@ def paragraph_processor(parser: DocumentParser):
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
+    # Check the stored control. If it is False, we need
+    # to stop processing here, before the content has any
+    # effect, and return without saving any node.
+    if parser._is_excluded():
+        return True
+
     node = ParagraphNode()
 
     for line_token in line_tokens:
@@ -71,14 +77,6 @@ def paragraph_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From ddedc08675177ad555c02f894dcd62ff4472fd81 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 36/57] fix: end a list at a line made of spaces

---
 mau/parsers/document_processors/list.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index d30bceb..e0df5d6 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -37,10 +37,8 @@ def _skip_list(parser: DocumentParser):
     # that is not as deep as the first one begins a new list.
     level = len(parser.tm.peek_token(TokenType.LIST).value)
 
-    while parser.tm.peek_token() not in [
-        Token.generate(TokenType.EOF),
-        Token.generate(TokenType.EOL),
-    ]:
+    # Lines of spaces are empty lines as well.
+    while parser.tm.peek_token().type not in [TokenType.EOF, TokenType.EOL]:
         if not parser.tm.peek_token_is(TokenType.LIST):
             raise _wrong_syntax(parser)
 
@@ -76,10 +74,8 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
         )
     )
 
-    while parser.tm.peek_token() not in [
-        Token.generate(TokenType.EOF),
-        Token.generate(TokenType.EOL),
-    ]:
+    # Lines of spaces are empty lines as well.
+    while parser.tm.peek_token().type not in [TokenType.EOF, TokenType.EOL]:
         if not parser.tm.peek_token_is(TokenType.LIST):
             # Something fishy happened in the source text.
             # The next token is not the EOL or EOF,
-- 
2.43.0


From 026c33579b3eab67767f71f4a912b0c29a0b26cd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 37/57] fix: report control macros without a condition

---
 mau/parsers/text_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index d522d14..9b9bd04 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -891,6 +891,13 @@ class TextParser(BaseParser):
         # At the moment we support only one condition.
         condition_node = condition_parser.condition_node
 
+        # The condition is mandatory.
+        if condition_node is None:
+            raise create_parser_exception(
+                f"Control macro '{operator}' requires a condition.",
+                context=context,
+            )
+
         control = Control(
             operator,
             condition_node.variable,
-- 
2.43.0


From 8b0e42fcbab8b03a418c59c04d20fea5cbecbc06 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:26 +0000
Subject: [PATCH 38/57] fix: empty namespaces must not hide the variables of
 the environment

---
 mau/environment/environment.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index d64e222..0da1e83 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -35,10 +35,11 @@ class Environment:
 
         if overwrite:
             self._variables.update(new_env._variables)
-            return
+        else:
+            new_env._variables.update(self._variables)
+            self._variables = new_env._variables
 
-        new_env._variables.update(self._variables)
-        self._variables = new_env._variables
+        self._remove_placeholders()
 
     def dupdate(self, other: dict, namespace: str | None = None):
         # If there is a namespace store the
@@ -48,6 +49,20 @@ class Environment:
 
         self._variables.update(flatten_nested_dict(other))
 
+        self._remove_placeholders()
+
+    def _remove_placeholders(self):
+        # A dictionary (always empty) is a namespace without
+        # variables. It adds nothing to a namespace
+        # that has some, and must not hide them.
+        empty = [k for k, v in self._variables.items() if isinstance(v, dict)]
+
+        for key in empty:
+            prefix = f"{key}."
+
+            if any(k.startswith(prefix) for k in self._variables):
+                del self._variables[key]
+
     def asdict(self) -> dict[str, str | dict]:
         return nest_flattened_dict(self._variables)
 
-- 
2.43.0


From 2bce3fc484efd857101cf2b8cbd89d5f5e05f2c2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 39/57] fix: views and source data must not change the
 environment

---
 mau/environment/environment.py | 2 +-
 mau/environment/helpers.py     | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 0da1e83..35f8c72 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -67,7 +67,7 @@ class Environment:
         return nest_flattened_dict(self._variables)
 
     def asflatdict(self) -> dict[str, str]:
-        return self._variables
+        return dict(self._variables)
 
     def __setitem__(self, key, value):
         # If the value is a dictionary, we need to include
diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index 60d4ce5..0008bca 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -29,6 +29,10 @@ def flatten_nested_dict(
             # Update the dictionary with the result of the recursive call.
             # The parent key here is the current hierarchical key.
             flat.update(flatten_nested_dict(value, key, separator=separator))
+        elif isinstance(value, MutableMapping):
+            # Empty dictionaries are copied as the original
+            # might be changed later.
+            flat[key] = {}
         else:
             flat[key] = value
 
-- 
2.43.0


From ea88420f8d0ce85dff445a6ac8d4bd1a78aee372 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:00 +0000
Subject: [PATCH 40/57] fix: views and source data must not change the
 environment

---
 mau/environment/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 35f8c72..ac3b8e9 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -67,7 +67,7 @@ class Environment:
         return nest_flattened_dict(self._variables)
 
     def asflatdict(self) -> dict[str, str]:
-        return dict(self._variables)
+        return flatten_nested_dict(self._variables)
 
     def __setitem__(self, key, value):
         # If the value is a dictionary, we need to include
-- 
2.43.0


From 9b74d58b8673616a471971e0a5f207137729012c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:00 +0000
Subject: [PATCH 41/57] fix: a footnote shown inside itself has an empty
 content in all visitors

---
 mau/visitors/base_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 9bdebbb..01ae605 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -426,7 +426,7 @@ class BaseVisitor:
         # is visited again without its content.
         active_footnotes = kwargs.pop("active_footnotes", ())
         if node in active_footnotes:
-            result["content"] = []
+            result["content"] = self.visitlist(node, [], **kwargs)
             return result
 
         kwargs["active_footnotes"] = (*active_footnotes, node)
-- 
2.43.0


From 3c57a4aadd1caa0d7d70a6ef2d54e14b7b75a8c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 42/57] fix: keep the output file when the result cannot be
 encoded

---
 mau/cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/cli.py b/mau/cli.py
index ab1b7e9..b3b3106 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -35,6 +35,10 @@ def write_output(output, output_file, postprocess=None):
 
         return
 
+    # Text that cannot be encoded is an error. This needs to
+    # happen before the existing output file is overwritten.
+    output.encode("utf-8")
+
     # We need to write on an actual file
     with open(output_file, "w", encoding="utf-8") as out:
         out.write(output)
-- 
2.43.0


From 89d4df51e47c7f57fe03c693e6fe76c9ce356e50 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:06 +0000
Subject: [PATCH 43/57] fix: keep the line of raw and source blocks that
 contain a single blank line

---
 mau/parsers/document_processors/block_engines/raw.py    | 2 +-
 mau/parsers/document_processors/block_engines/source.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/raw.py b/mau/parsers/document_processors/block_engines/raw.py
index 9c06d76..d29b24f 100644
--- a/mau/parsers/document_processors/block_engines/raw.py
+++ b/mau/parsers/document_processors/block_engines/raw.py
@@ -19,7 +19,7 @@ def parse_raw_engine(
     # so we just pass it untouched in the form of
     # a RawNode per line.
 
-    if not content:
+    if content is None:
         return RawNode()
 
     # A list of content lines (raw).
diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 1fb4129..62ba17a 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -62,7 +62,7 @@ def parse_source_engine(
     # Since Mau uses Pygments, the attribute language
     # is one of the languages supported by that tool.
 
-    if not content:
+    if content is None:
         return SourceNode()
 
     # Get the delimiter for markers
-- 
2.43.0


From 1aeeb3c67f6e6237d0fcf662c76288e39df22400 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 44/57] fix: detect include loops that go through different
 paths of a file

---
 mau/parsers/document_processors/include.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index acc0871..a2f1967 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -6,6 +6,7 @@ if TYPE_CHECKING:
     from mau.parsers.document_parser import DocumentParser
 
 
+import os
 from dataclasses import dataclass, field
 
 from mau.environment.environment import Environment
@@ -169,6 +170,15 @@ def _parse_image(
     return content
 
 
+def _file_path(uri: str | None) -> str | None:
+    # The canonical path of a file, to compare files
+    # that are mentioned with different paths.
+    try:
+        return os.path.realpath(uri) if uri else uri
+    except (OSError, ValueError):
+        return uri
+
+
 def _parse_mau(
     parser: DocumentParser, arguments: NodeArguments, context: Context
 ) -> IncludeMauNode:
@@ -200,7 +210,8 @@ def _parse_mau(
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in forbidden_includes:
+    # The same file can be mentioned with different paths.
+    if _file_path(uri) in [_file_path(i) for i in forbidden_includes]:
         raise create_parser_exception(
             f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
-- 
2.43.0


From ba65d491de20d0a5e84ed01ec104fd984c1a0c04 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:32 +0000
Subject: [PATCH 45/57] fix: accept generic macros whose name begins with if

---
 mau/parsers/text_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 9b9bd04..bebcb24 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -338,7 +338,11 @@ class TextParser(BaseParser):
         # need to have the nodes and not just the text
         # values of all the arguments.
 
-        if macro_name_token.value.startswith("if"):
+        # Control macros have an operator and a condition.
+        # The name of a generic macro can begin like an operator.
+        operator, separator, _ = macro_name_token.value.partition(":")
+
+        if operator in ["if", "ifeval"] or (separator and operator.startswith("if")):
             return self._parse_macro_control(
                 macro_name_token, arguments_parser, context=context
             )
-- 
2.43.0


From 454e8d4decf8f398f90bdc238a75e372b7f6a43e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 46/57] fix: give each group node its own items when the same
 group is shown more than once

---
 mau/parsers/managers/blockgroup_manager.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mau/parsers/managers/blockgroup_manager.py b/mau/parsers/managers/blockgroup_manager.py
index 8c45440..be1f766 100644
--- a/mau/parsers/managers/blockgroup_manager.py
+++ b/mau/parsers/managers/blockgroup_manager.py
@@ -64,13 +64,15 @@ class BlockGroupManager:
                     group_node.info.context,
                 )
 
-            # Add all blocks that mention this
-            # group to the group node.
-            group_node.items.update(self.items[group_name])
-
             # Add each block that mention this
             # group to the group node and add
             # the group as the parent node.
+            # The same group might be shown by several
+            # group nodes, so each one has its own items.
             for position, block_item in self.items[group_name].items():
-                block_item.parent = group_node
-                group_node.items[position] = block_item
+                block = block_item.block
+
+                group_node.items[position] = BlockGroupItemNode(
+                    group_name, position, block, parent=group_node
+                )
+                block.parent = group_node.items[position]
-- 
2.43.0


From 9c63fd9897d3442e515a897d5afff17a2e7fa4fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:09 +0000
Subject: [PATCH 47/57] fix: do not share arguments and positions between a
 node and its copies

---
 mau/nodes/node.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/nodes/node.py b/mau/nodes/node.py
index 6c3e4a3..e5ff62f 100644
--- a/mau/nodes/node.py
+++ b/mau/nodes/node.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping, Sequence
-from copy import copy
+from copy import deepcopy
 from typing import TYPE_CHECKING
 
 from mau.text_buffer import Context
@@ -74,8 +74,11 @@ class Node:
 
         # Shallow copies.
         new_node.parent = parent
-        new_node.arguments = copy(self.arguments)
-        new_node.info = copy(self.info)
+
+        # These contain lists and dictionaries that
+        # must not be shared with the original node.
+        new_node.arguments = deepcopy(self.arguments)
+        new_node.info = deepcopy(self.info)
 
         return new_node
 
-- 
2.43.0


From b93508049cc6bbd46850038d6362cc93de6d2a6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:17 +0000
Subject: [PATCH 48/57] fix: end the position of headers and list items at the
 end of their text

---
 mau/parsers/document_processors/header.py | 16 ++++++----------
 mau/parsers/document_processors/list.py   | 15 +++++++--------
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index 782236d..214abff 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -69,16 +69,12 @@ def header_processor(parser: DocumentParser):
     # Extract the header id if specified.
     node.name = arguments.named_args.pop("name", None)
 
-    # Find the context of the text. The text might be
-    # empty, for example because of a variable.
-    text_context = text_token.context
-    if text_nodes:
-        text_context = Context.merge_contexts(
-            text_nodes[0].info.context, text_nodes[-1].info.context
-        )
-
-    # Find the context of the whole node.
-    node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
+    # Find the context of the whole node. The last text node
+    # might be before the end of the text, for example
+    # because it is an argument of a macro.
+    node.info = NodeInfo(
+        context=Context.merge_contexts(header.context, text_token.context)
+    )
 
     # Add the remaining arguments to the header.
     node.arguments = NodeArguments(**arguments.asdict())
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index e0df5d6..275ba02 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -14,13 +14,12 @@ from mau.text_buffer import Context
 from mau.token import Token, TokenType
 
 
-def _item_context(header: Token, text: Token, content: list[Node]) -> Context:
+def _item_context(header: Token, text: Token) -> Context:
     # The context of a list item goes from the header
-    # to the end of the content. The content might be
-    # empty, for example because of a variable.
-    end_context = content[-1].info.context if content else text.context
-
-    return Context.merge_contexts(header.context, end_context)
+    # to the end of the text. The last text node might be
+    # before that, for example because it is an argument
+    # of a macro.
+    return Context.merge_contexts(header.context, text.context)
 
 
 def _wrong_syntax(parser: DocumentParser):
@@ -65,7 +64,7 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     level = len(header.value)
 
     # Find the final context.
-    context = _item_context(header, text, content)
+    context = _item_context(header, text)
 
     nodes: list[Node] = []
     nodes.append(
@@ -101,7 +100,7 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             level = len(header.value)
 
             # Find the final context.
-            context = _item_context(header, text, content)
+            context = _item_context(header, text)
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From a85b1b0da2da2e079f4840d5e9f603117f62efbc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:55 +0000
Subject: [PATCH 49/57] fix: ignore spaces after the type of an inclusion

---
 mau/lexers/document_lexer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/lexers/document_lexer.py b/mau/lexers/document_lexer.py
index f3503ad..96a68b6 100644
--- a/mau/lexers/document_lexer.py
+++ b/mau/lexers/document_lexer.py
@@ -288,7 +288,8 @@ class DocumentLexer(BaseLexer):
             tokens.append(separator_token)
 
         # The arguments are optional, the value can be None.
-        if arguments:
+        # Without the separator, trailing spaces are ignored.
+        if arguments and (separator or arguments.strip(" ")):
             tokens.append(arguments_token)
 
         # Move to the next line.
-- 
2.43.0


From 3afbe0c0969ac9edd45e49015034f486c07dbc78 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:35 +0000
Subject: [PATCH 50/57] fix: place the text before a backslash at the end of a
 line

---
 mau/parsers/text_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index bebcb24..6457549 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -278,6 +278,11 @@ class TextParser(BaseParser):
         # Drop the backslash.
         backslash = self.tm.get_token(TokenType.LITERAL, "\\")
 
+        # A backslash at the end of the text
+        # has nothing to escape.
+        if self.tm.peek_token() in {EOF, EOL}:
+            return []
+
         # Get the text.
         text = self.tm.get_token()
 
-- 
2.43.0


From aa353c9adc26a9e6005c7b482d16d61c41c1ddcc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:56 +0000
Subject: [PATCH 51/57] fix: give an empty environment for an empty namespace

---
 mau/environment/environment.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index ac3b8e9..ab92bb9 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -83,7 +83,14 @@ class Environment:
             # If the key is present in the flat
             # index we can just return the
             # corresponding value.
-            return self._variables[key]
+            value = self._variables[key]
+
+            # An empty dictionary is a namespace
+            # without variables.
+            if isinstance(value, dict):
+                return self.__class__()
+
+            return value
         except KeyError:
             # The key is not there, let's
             # check if it works as a namespace.
-- 
2.43.0


From 547159ff22665cd2e32cf28e6be2120aab0c96c0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 52/57] fix: place the error of a wrong condition of a macro at
 the condition

---
 mau/parsers/text_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 6457549..eba59ed 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -870,8 +870,8 @@ class TextParser(BaseParser):
 
         # We need to find the context of the condition.
         # It is the macro name token context shifted
-        # by the legth of the operator plus the colon.
-        shift = len(f"@{operator}:")
+        # by the length of the operator plus the colon.
+        shift = len(f"{operator}:")
         condition_context = macro_name_token.context.clone()
         condition_context.start_column += shift
 
-- 
2.43.0


From df16fcfc4f55eae91d035691771cb0b3c7306640 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:52 +0000
Subject: [PATCH 53/57] fix: place errors in the value of a variable at the
 value

---
 mau/parsers/document_processors/variable_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index bce1433..b069379 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -64,7 +64,7 @@ def variable_definition_processor(parser: DocumentParser):
         # replace them.
 
         # Unpack the text initial position.
-        start_line, start_column = context.start_position
+        start_line, start_column = next_token.context.start_position
 
         # Get the text source.
         source_filename = context.source
-- 
2.43.0


From c434b952dfd9923b2e29155e31f60c3566f51059 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:16 +0000
Subject: [PATCH 54/57] fix: read template files as UTF-8

---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 93fd7dd..fa72025 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -279,7 +279,7 @@ def _load_templates_from_path(
         # If we found a file with the proper
         # extension, read the content,
         # preprocess and store it.
-        result[obj.name] = preprocess(obj.read_text())
+        result[obj.name] = preprocess(obj.read_text(encoding="utf-8"))
 
     return result
 
-- 
2.43.0


From 888293a5e774366316980872ab213de0f85124f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:52 +0000
Subject: [PATCH 55/57] fix: place the error of a wrong condition of ifeval at
 the condition

---
 mau/parsers/text_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index eba59ed..c47bfc9 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -865,13 +865,14 @@ class TextParser(BaseParser):
         # Remember if we need to evaluate the result.
         evaluate = operator == "ifeval"
 
-        # Both ifeval and if are checking the same logic.
-        operator = "if"
-
         # We need to find the context of the condition.
         # It is the macro name token context shifted
         # by the length of the operator plus the colon.
         shift = len(f"{operator}:")
+
+        # Both ifeval and if are checking the same logic.
+        operator = "if"
+
         condition_context = macro_name_token.context.clone()
         condition_context.start_column += shift
 
-- 
2.43.0


From 2f08fc58bcae0b04de48ac0e4808ac011ed8e084 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:35 +0000
Subject: [PATCH 56/57] fix: parse unclosed style markers only once (lines with
 many of them took exponential time)

---
 mau/parsers/text_parser.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index c47bfc9..d3e11f9 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -28,6 +28,7 @@ from mau.parsers.arguments_parser import (
 from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import ConditionParser
+from mau.parsers.managers.tokens_manager import TokenError
 from mau.text_buffer import Context
 from mau.token import EOF, EOL, Token, TokenType
 
@@ -60,6 +61,10 @@ class TextParser(BaseParser):
         # in this piece of text.
         self.header_links: list[Node] = []
 
+        # The position of the style markers
+        # that are known to be unclosed.
+        self._unclosed_styles: set[int] = set()
+
     def _collect_references(self, parser: "TextParser"):
         # Collect the footnote macros and the header links
         # found in the text of a macro, so that they are
@@ -451,6 +456,12 @@ class TextParser(BaseParser):
     def _parse_style(self) -> list[Node]:
         # Parse text surrounded by style markers.
 
+        # If this marker is known to be unclosed
+        # there is no need to parse the text again.
+        index = self.tm.index
+        if index in self._unclosed_styles:
+            raise TokenError
+
         # Get the style marker
         opening_marker = self.tm.get_token(
             TokenType.LITERAL,
@@ -463,7 +474,13 @@ class TextParser(BaseParser):
         )
 
         # Get the closing marker
-        closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
+        try:
+            closing_marker = self.tm.get_token(
+                TokenType.LITERAL, opening_marker.value
+            )
+        except TokenError:
+            self._unclosed_styles.add(index)
+            raise
 
         # Find the final context.
         context = Context.merge_contexts(opening_marker.context, closing_marker.context)
-- 
2.43.0


From e1ba1fc6b537c516724235d7817fb6929b057b0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:14 +0000
Subject: [PATCH 57/57] fix: accept values with colons in the conditions of
 macros

---
 mau/parsers/text_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index d3e11f9..159a4f2 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -865,7 +865,7 @@ class TextParser(BaseParser):
 
         # Split the name into operator:condition
         try:
-            operator, condition = name.split(":")
+            operator, condition = name.split(":", 1)
         except ValueError as exc:
             raise create_parser_exception(
                 f"Macro name '{name}' must be in the form 'operator:condition'.",
-- 
2.43.0

