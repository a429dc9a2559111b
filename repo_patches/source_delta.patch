From e28af5af0376524f08e7f942f6fafff3942e25a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:27 +0000
Subject: [PATCH 01/46] fix: report tokens that cannot start a paragraph
 instead of crashing

---
 mau/parsers/document_processors/paragraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d9a767f..d4c5a89 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -23,6 +23,10 @@ def paragraph_processor(parser: DocumentParser):
     # we continue to collect. If the token is EOF we
     # reached the end and we have to stop anyway.
     line_tokens: list[Token] = []
+
+    # A paragraph contains at least one line of text.
+    parser.tm.peek_token(TokenType.TEXT)
+
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
-- 
2.43.0


From c6bf0e700035d6eaaa8a1d90253037b5227e4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 02/46] fix: do not swallow the line after a flag, an empty
 variable or an empty include

---
 mau/parsers/document_processors/include.py             | 10 +++++++++-
 mau/parsers/document_processors/variable_definition.py |  7 ++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index d839165..e19c088 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -82,7 +82,15 @@ def include_processor(parser: DocumentParser):
             )
 
         # Get the colon.
-        parser.tm.get_token(TokenType.LITERAL, ":")
+        colon = parser.tm.get_token(TokenType.LITERAL, ":")
+
+        # The text of the following line is not an argument.
+        if parser.tm.peek_token().context.start_line != colon.context.start_line:
+            raise create_parser_exception(
+                "Syntax error. Missing inline arguments after the colon.",
+                context,
+                help_text=INCLUDE_HELP,
+            )
 
         # Get the inline arguments.
         arguments_token = parser.tm.get_token(TokenType.TEXT)
diff --git a/mau/parsers/document_processors/variable_definition.py b/mau/parsers/document_processors/variable_definition.py
index 513638f..87ddeb4 100644
--- a/mau/parsers/document_processors/variable_definition.py
+++ b/mau/parsers/document_processors/variable_definition.py
@@ -39,7 +39,12 @@ def variable_definition_processor(parser: DocumentParser):
 
     # Get the optional variable value.
     value: str = ""
-    if parser.tm.peek_token().type == TokenType.TEXT:
+    next_token = parser.tm.peek_token()
+    if (
+        next_token.type == TokenType.TEXT
+        # The text of the following line is not a value.
+        and next_token.context.start_line == closing_colon.context.start_line
+    ):
         value_token = parser.tm.get_token()
         value = value_token.value
         context = Context.merge_contexts(context, value_token.context)
-- 
2.43.0


From 2c928230a582cb88d5b533946f17abdde6119b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 03/46] fix: accept headers and list items whose text produces
 no nodes

---
 mau/parsers/document_processors/header.py | 10 +++++++---
 mau/parsers/document_processors/list.py   | 10 ++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index bada72f..5c4c48e 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -64,9 +64,13 @@ def header_processor(parser: DocumentParser):
     node.name = arguments.named_args.pop("name", None)
 
     # Find the context of the text.
-    text_context = Context.merge_contexts(
-        text_nodes[0].info.context, text_nodes[-1].info.context
-    )
+    # The text might produce no nodes at all,
+    # for example when it is a false [if] macro.
+    text_context = text_token.context
+    if text_nodes:
+        text_context = Context.merge_contexts(
+            text_nodes[0].info.context, text_nodes[-1].info.context
+        )
 
     # Find the context of the whole node.
     node.info = NodeInfo(context=Context.merge_contexts(header.context, text_context))
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 29f25b1..d3c57cb 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -29,8 +29,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
     # Compute the level of the item
     level = len(header.value)
 
-    # Find the final context.
-    context = Context.merge_contexts(header.context, content[-1].info.context)
+    # Find the final context. The item might have no content.
+    last_context = content[-1].info.context if content else text.context
+    context = Context.merge_contexts(header.context, last_context)
 
     nodes: list[Node] = []
     nodes.append(
@@ -70,8 +71,9 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
             # Compute the level of the item
             level = len(header.value)
 
-            # Find the final context.
-            context = Context.merge_contexts(header.context, content[-1].info.context)
+            # Find the final context. The item might have no content.
+            last_context = content[-1].info.context if content else text.context
+            context = Context.merge_contexts(header.context, last_context)
 
             nodes.append(
                 ListItemNode(
-- 
2.43.0


From 7c9fa1f971d46aa6d14db45f1d7838133dc232d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 04/46] fix: report a control statement without condition
 instead of crashing

---
 mau/parsers/document_processors/control.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mau/parsers/document_processors/control.py b/mau/parsers/document_processors/control.py
index c2a8c63..173ffc7 100644
--- a/mau/parsers/document_processors/control.py
+++ b/mau/parsers/document_processors/control.py
@@ -7,6 +7,7 @@ if TYPE_CHECKING:
 
 
 from mau.parsers.buffers.control_buffer import Control
+from mau.parsers.base_parser import create_parser_exception
 from mau.parsers.condition_parser import (
     process_condition_with_variables,
 )
@@ -38,6 +39,10 @@ def control_processor(parser: DocumentParser):
     # Find the final context.
     context = Context.merge_contexts(prefix_token.context, condition_token.context)
 
+    # There might be no condition at all.
+    if condition_node is None:
+        raise create_parser_exception("Missing control condition.", context)
+
     control = Control(
         operator,
         condition_node.variable,
-- 
2.43.0


From 062887b588a4949fa74c67095f6faa2774f73a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 05/46] fix: report a list start that is not a number instead
 of crashing

---
 mau/parsers/document_processors/list.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index d3c57cb..b09a1b8 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -164,7 +164,14 @@ def list_processor(parser: DocumentParser):
         start = parser.latest_ordered_list_index
         parser.latest_ordered_list_index += len(nodes)
     else:
-        start = int(start)
+        try:
+            start = int(start)
+        except ValueError as exc:
+            raise create_parser_exception(
+                f"Wrong list start '{start}'. It must be a number or 'auto'.",
+                context=nodes[0].info.context,
+            ) from exc
+
         parser.latest_ordered_list_index = len(nodes) + start
 
     # Find the final context.
-- 
2.43.0


From 133c14e79327fbe1f516f80abbc69c7eea4c1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:48 +0000
Subject: [PATCH 06/46] fix: report a blockgroup include without group name
 instead of crashing

---
 mau/parsers/document_processors/include.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index e19c088..4060b9a 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -359,7 +359,13 @@ def _parse_blockgroup(
 ):
     arguments.set_names(["group"])
 
-    group_name = arguments.named_args.pop("group")
+    group_name = arguments.named_args.pop("group", None)
+
+    if not group_name:
+        raise create_parser_exception(
+            "Syntax error. You need to specify a group name.",
+            context,
+        )
 
     blockgroup_node = BlockGroupNode(group_name)
 
-- 
2.43.0


From 445d633129577118a255c8423ae165c663820866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 07/46] fix: end lists at blank lines made of spaces

---
 mau/parsers/document_processors/list.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index b09a1b8..484f8e8 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -11,7 +11,7 @@ from mau.nodes.node import Node, NodeInfo
 from mau.nodes.node_arguments import NodeArguments
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
-from mau.token import Token, TokenType
+from mau.token import TokenType
 
 
 def _process_list_nodes(parser: DocumentParser, parent: Node):
@@ -40,10 +40,8 @@ def _process_list_nodes(parser: DocumentParser, parent: Node):
         )
     )
 
-    while parser.tm.peek_token() not in [
-        Token.generate(TokenType.EOF),
-        Token.generate(TokenType.EOL),
-    ]:
+    # An EOL might contain spaces, so we check only the type.
+    while parser.tm.peek_token().type not in [TokenType.EOF, TokenType.EOL]:
         if not parser.tm.peek_token_is(TokenType.LIST):
             # Something fishy happened in the source text.
             # The next token is not the EOL or EOF,
-- 
2.43.0


From c02c8d62a8b598542b5d82fa1b010a38b4d5969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:06 +0000
Subject: [PATCH 08/46] fix: continue the sentence after a conditional macro
 that produces no nodes

---
 mau/parsers/text_parser.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index b9b3ac2..c207e32 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -163,14 +163,10 @@ class TextParser(BaseParser):
         # EOF and EOL always act as stoppers.
         stop_tokens = stop_tokens.union({EOF, EOL})
 
-        # Try to parse some text.
-        nodes = self._parse_text(stop_tokens)
-
-        # Continue parsing text until it
-        # stops returning nodes.
-        while nodes:
-            content.extend(nodes)
-            nodes = self._parse_text(stop_tokens)
+        # Continue parsing text until we meet a stop token.
+        # Note that some elements might return no nodes.
+        while self.tm.peek_token() not in stop_tokens:
+            content.extend(self._parse_text(stop_tokens))
 
         # Group consecutive WordNode nodes into a single TextNode.
         # This scans the nodes we found and tries to collect consecutive
-- 
2.43.0


From 38f258b1a2c61db7d5add67f290ab6e535ab615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 09/46] fix: nodes excluded by a control have no effect at all

---
 mau/parsers/document_parser.py                  | 17 +++++++++++++++++
 mau/parsers/document_processors/block.py        | 12 ++++--------
 mau/parsers/document_processors/header.py       | 12 ++++--------
 .../document_processors/horizontal_rule.py      | 12 ++++--------
 mau/parsers/document_processors/include.py      | 16 +++++++---------
 mau/parsers/document_processors/list.py         | 17 +++++++++--------
 mau/parsers/document_processors/paragraph.py    | 12 ++++--------
 7 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 91882f0..8fae3b8 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -221,6 +221,23 @@ class DocumentParser(BaseParser):
         # Assign the labels to the node.
         node.labels = labels
 
+    def exclude_node(self) -> bool:
+        # Check the stored control. If it is false
+        # the node that is being processed has to be
+        # excluded, along with its arguments and labels.
+        # Processors have to call this before they process
+        # the content of the node, as an excluded node
+        # must not have any effect.
+        control = self.control_buffer.pop()
+
+        if control is None or control.process(self.environment):
+            return False
+
+        self.arguments_buffer.pop()
+        self.label_buffer.pop()
+
+        return True
+
     def _process_eol(self) -> bool:
         # This simply ignores the end of line.
 
diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index 969636b..e6cf16c 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -45,6 +45,10 @@ def block_processor(parser: DocumentParser):
     # Get the closing delimiter.
     closing_delimiter = parser.tm.get_token(TokenType.BLOCK)
 
+    # Stop here if the node is excluded by the stored control.
+    if parser.exclude_node():
+        return True
+
     # Find the final context.
     context = Context.merge_contexts(
         opening_delimiter.context, closing_delimiter.context
@@ -104,14 +108,6 @@ def block_processor(parser: DocumentParser):
 
         return True
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/header.py b/mau/parsers/document_processors/header.py
index 5c4c48e..b327885 100644
--- a/mau/parsers/document_processors/header.py
+++ b/mau/parsers/document_processors/header.py
@@ -30,6 +30,10 @@ def header_processor(parser: DocumentParser):
     # Get the text of the header.
     text_token = parser.tm.get_token(TokenType.TEXT)
 
+    # Stop here if the node is excluded by the stored control.
+    if parser.exclude_node():
+        return True
+
     # Calculate the level of the header.
     level = len(header.value)
 
@@ -82,14 +86,6 @@ def header_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     # If there is an id store the header node
     # to be matched with potential header links.
     if node.name:
diff --git a/mau/parsers/document_processors/horizontal_rule.py b/mau/parsers/document_processors/horizontal_rule.py
index d6b98fa..3fe7e9a 100644
--- a/mau/parsers/document_processors/horizontal_rule.py
+++ b/mau/parsers/document_processors/horizontal_rule.py
@@ -18,6 +18,10 @@ def horizontal_rule_processor(parser: DocumentParser):
     # Get the horizontal rule token.
     rule = parser.tm.get_token(TokenType.HORIZONTAL_RULE)
 
+    # Stop here if the node is excluded by the stored control.
+    if parser.exclude_node():
+        return True
+
     # Get the stored arguments.
     # Horizontal rules can receive arguments
     # only through the arguments manager.
@@ -37,14 +41,6 @@ def horizontal_rule_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 4060b9a..71558c0 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -30,7 +30,7 @@ from mau.parsers.arguments_parser import (
 )
 from mau.parsers.base_parser import create_parser_exception
 from mau.text_buffer import Context
-from mau.token import TokenType
+from mau.token import Token, TokenType
 
 
 @dataclass
@@ -68,6 +68,7 @@ def include_processor(parser: DocumentParser):
     context = Context.merge_contexts(prefix.context, content_type.context)
 
     arguments: NodeArguments | None = parser.arguments_buffer.pop()
+    arguments_token: Token | None = None
 
     if parser.tm.peek_token_is(TokenType.LITERAL, ":"):
         # In this case arguments are inline
@@ -95,6 +96,11 @@ def include_processor(parser: DocumentParser):
         # Get the inline arguments.
         arguments_token = parser.tm.get_token(TokenType.TEXT)
 
+    # Stop here if the node is excluded by the stored control.
+    if parser.exclude_node():
+        return True
+
+    if arguments_token:
         arguments = process_arguments_with_variables(
             arguments_token, parser.message_handler, parser.environment
         ).arguments
@@ -127,14 +133,6 @@ def include_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 484f8e8..7edfe10 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -144,6 +144,15 @@ def list_processor(parser: DocumentParser):
     header = parser.tm.peek_token(TokenType.LIST)
     ordered = header.value[0] == "#"
 
+    # Stop here if the node is excluded by the stored control,
+    # skipping all items.
+    if parser.exclude_node():
+        while parser.tm.peek_token().type not in [TokenType.EOF, TokenType.EOL]:
+            parser.tm.get_token(TokenType.LIST)
+            parser.tm.get_token(TokenType.TEXT)
+
+        return True
+
     node = ListNode(
         ordered=ordered,
         main_node=True,
@@ -184,14 +193,6 @@ def list_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
diff --git a/mau/parsers/document_processors/paragraph.py b/mau/parsers/document_processors/paragraph.py
index d4c5a89..00b11d9 100644
--- a/mau/parsers/document_processors/paragraph.py
+++ b/mau/parsers/document_processors/paragraph.py
@@ -30,6 +30,10 @@ def paragraph_processor(parser: DocumentParser):
     while parser.tm.peek_token().type == TokenType.TEXT:
         line_tokens.append(parser.tm.get_token(TokenType.TEXT))
 
+    # Stop here if the node is excluded by the stored control.
+    if parser.exclude_node():
+        return True
+
     node = ParagraphNode()
 
     for line_token in line_tokens:
@@ -70,14 +74,6 @@ def paragraph_processor(parser: DocumentParser):
     # store them in the node data.
     parser.pop_labels(node)
 
-    # Check the stored control
-    if control := parser.control_buffer.pop():
-        # If control is False, we need to stop
-        # processing here and return without
-        # saving any node.
-        if not control.process(parser.environment):
-            return True
-
     parser._save(node)
 
     return True
-- 
2.43.0


From 71cd128ec161a67ff4de128164f9f31d9c376ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 10/46] fix: start=auto continues the numbering of the latest
 ordered list

---
 mau/parsers/document_parser.py          | 6 +++---
 mau/parsers/document_processors/list.py | 7 +++++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 8fae3b8..acc6a9b 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -109,10 +109,10 @@ class DocumentParser(BaseParser):
         self.label_buffer: LabelBuffer = LabelBuffer()
         self.control_buffer: ControlBuffer = ControlBuffer()
 
-        # The last index in the latest ordered list,
-        # used to calculate the beginning value of them
+        # The index that follows the last one in the latest
+        # ordered list, used as the beginning value of the
         # next one when start=auto
-        self.latest_ordered_list_index = 0
+        self.latest_ordered_list_index = 1
 
         # This is a list of files that cannot
         # be included by this file. This is a
diff --git a/mau/parsers/document_processors/list.py b/mau/parsers/document_processors/list.py
index 7edfe10..f11d60e 100644
--- a/mau/parsers/document_processors/list.py
+++ b/mau/parsers/document_processors/list.py
@@ -169,7 +169,6 @@ def list_processor(parser: DocumentParser):
     # Check if the list has a forced start.
     if (start := arguments.named_args.get("start", 1)) == "auto":
         start = parser.latest_ordered_list_index
-        parser.latest_ordered_list_index += len(nodes)
     else:
         try:
             start = int(start)
@@ -179,7 +178,11 @@ def list_processor(parser: DocumentParser):
                 context=nodes[0].info.context,
             ) from exc
 
-        parser.latest_ordered_list_index = len(nodes) + start
+    # Only the items of an ordered list are numbered,
+    # nested lists are not.
+    if ordered:
+        items = [i for i in nodes if isinstance(i, ListItemNode)]
+        parser.latest_ordered_list_index = start + len(items)
 
     # Find the final context.
     context = Context.merge_contexts(nodes[0].info.context, nodes[-1].info.context)
-- 
2.43.0


From 621c88451d5e95b8bc4cb571fc24d8f1e9591db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 11/46] fix: allow a file to be included more than once when
 there is no loop

---
 mau/parsers/document_processors/include.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 71558c0..9a797e8 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -189,15 +189,19 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if context.source not in parser.forbidden_includes:
-        parser.forbidden_includes.append(context.source)
+    # This works on a copy as the restrictions
+    # apply only to the included file. The rest of this
+    # file can include the same file again.
+    forbidden_includes = list(parser.forbidden_includes)
+    if context.source not in forbidden_includes:
+        forbidden_includes.append(context.source)
 
     # Make sure we are not trying to include a file that
     # included this file. It's called infinite recursion,
     # sweetheart.
-    if uri in parser.forbidden_includes:
+    if uri in forbidden_includes:
         raise create_parser_exception(
-            f"To avoid recursion, you cannot include the following files: {parser.forbidden_includes}.",
+            f"To avoid recursion, you cannot include the following files: {forbidden_includes}.",
             context,
         )
 
@@ -219,8 +223,8 @@ def _parse_mau(
     # We check if the element is already there to
     # prevent double inclusion but still preserve
     # the order.
-    if uri not in parser.forbidden_includes:
-        parser.forbidden_includes.append(uri)
+    if uri not in forbidden_includes:
+        forbidden_includes.append(uri)
 
     # Open the given URI and read the text.
     try:
@@ -257,7 +261,7 @@ def _parse_mau(
         start_line=0,
         start_column=0,
         source_filename=source_filename,
-        forbidden_includes=parser.forbidden_includes,
+        forbidden_includes=forbidden_includes,
     )
 
     # Add the include call to the parser output.
-- 
2.43.0


From 399b5de6d881c343dccc9e930214c7fca4894803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 12/46] fix: detect include loops that go through a block and
 record its include calls

---
 mau/parsers/document_processors/block_engines/default.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 3822423..746b44c 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -34,8 +34,15 @@ def parse_block_content(
         start_line=start_line,
         start_column=start_column,
         source_filename=source_filename,
+        # The block belongs to the same file,
+        # so the same inclusions are forbidden.
+        forbidden_includes=parser.forbidden_includes,
     )
 
+    # Inherit all the calls made by the parser
+    # that processed the content of the block.
+    parser.output.include_calls.extend(content_parser.output.include_calls)
+
     if update:
         # The footnote mentions and definitions
         # found in this block are part of the
-- 
2.43.0


From 068c42c697e41746830a3cbd5bda88df947502e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 13/46] fix: merge links, headers, and mentions of non-isolated
 blocks into the main document

---
 mau/parsers/document_parser.py                | 41 +++++++++++--------
 .../block_engines/default.py                  |  4 ++
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index acc6a9b..322495d 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -74,6 +74,7 @@ class DocumentParser(BaseParser):
         environment: Environment | None = None,
         parent_node=None,
         forbidden_includes: list[str] | None = None,
+        isolated: bool = True,
     ):
         super().__init__(tokens, message_handler, environment, parent_node)
 
@@ -122,6 +123,11 @@ class DocumentParser(BaseParser):
         # order of calls.
         self.forbidden_includes = forbidden_includes or []
 
+        # This is False when the footnotes, headers, and links
+        # found by this parser are imported by another one,
+        # that will eventually process them.
+        self.isolated = isolated
+
         # This is the final output of the parser
         self.output = DocumentParserOutput()
 
@@ -248,23 +254,24 @@ class DocumentParser(BaseParser):
     def finalise(self):
         super().finalise()
 
-        # This processes all footnotes stored in
-        # the manager merging mentions and data
-        # and updating the nodes that contain
-        # a list of footnotes.
-        self.footnotes_manager.process()
-
-        # Process ToC nodes.
-        # This operation needs to be done before
-        # we process header links, as it creates
-        # the internal IDs for headers that are
-        # used by the header links.
-        self.toc_manager.process()
-
-        # This processes all links stored in
-        # the manager linking them to the
-        # correct headers.
-        self.header_links_manager.process()
+        if self.isolated:
+            # This processes all footnotes stored in
+            # the manager merging mentions and data
+            # and updating the nodes that contain
+            # a list of footnotes.
+            self.footnotes_manager.process()
+
+            # Process ToC nodes.
+            # This operation needs to be done before
+            # we process header links, as it creates
+            # the internal IDs for headers that are
+            # used by the header links.
+            self.toc_manager.process()
+
+            # This processes all links stored in
+            # the manager linking them to the
+            # correct headers.
+            self.header_links_manager.process()
 
         # Process block groups.
         self.blockgroup_manager.process()
diff --git a/mau/parsers/document_processors/block_engines/default.py b/mau/parsers/document_processors/block_engines/default.py
index 746b44c..e906afc 100644
--- a/mau/parsers/document_processors/block_engines/default.py
+++ b/mau/parsers/document_processors/block_engines/default.py
@@ -37,6 +37,9 @@ def parse_block_content(
         # The block belongs to the same file,
         # so the same inclusions are forbidden.
         forbidden_includes=parser.forbidden_includes,
+        # What is found in a non-isolated block has
+        # to be processed by the main document.
+        isolated=not update,
     )
 
     # Inherit all the calls made by the parser
@@ -53,6 +56,7 @@ def parse_block_content(
         # found in this block are part of the
         # main document. Import them.
         parser.toc_manager.update(content_parser.toc_manager)
+        parser.header_links_manager.update(content_parser.header_links_manager)
 
     return content_parser.nodes
 
-- 
2.43.0


From ebbc140cd4099665e1f09f8b4147e2103d4ef509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 14/46] fix: detect duplicate footnotes defined in non-isolated
 blocks

---
 mau/parsers/managers/footnotes_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 2e072ab..3457265 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -75,7 +75,8 @@ class FootnotesManager:
         with those contained in another
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
-        self.bodies.update(other.bodies)
+        for name, body in other.bodies.items():
+            self.add_body(name, body)
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From 7848ec8effc183493ffd805201ba4a6520d0620b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 15/46] fix: link footnotes and headers mentioned in the text
 of other macros

---
 mau/parsers/text_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index c207e32..cb052e5 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -126,6 +126,12 @@ class TextParser(BaseParser):
         # a single piece of text.
         return Token.from_token_list(all_args)
 
+    def _inherit_macros(self, parser: "TextParser"):
+        # Inherit the footnotes and the header links found
+        # by a parser that processed the text of a macro.
+        self.footnote_macros.extend(parser.footnote_macros)
+        self.header_links.extend(parser.header_links)
+
     def _process_functions(self):
         # This is a recursive parser, so the list
         # of processing functions is pretty small.
@@ -506,6 +512,7 @@ class TextParser(BaseParser):
                 source_filename=source_filename,
             )
             nodes = parser.nodes
+            self._inherit_macros(parser)
         else:
             nodes = [
                 TextNode(
@@ -572,6 +579,7 @@ class TextParser(BaseParser):
                 source_filename=source_filename,
             )
             node.content = parser.nodes
+            self._inherit_macros(parser)
 
         self.header_links.append(node)
 
@@ -619,6 +627,7 @@ class TextParser(BaseParser):
                 source_filename=source_filename,
             )
             nodes = parser.nodes
+            self._inherit_macros(parser)
         else:
             nodes = [
                 TextNode(
@@ -671,6 +680,7 @@ class TextParser(BaseParser):
             start_column=start_column,
             source_filename=source_filename,
         )
+        self._inherit_macros(parser)
 
         node = MacroClassNode(
             classes,
@@ -924,5 +934,6 @@ class TextParser(BaseParser):
                 result.info.context.source,
             )
             nodes = parser.nodes
+            self._inherit_macros(parser)
 
         return nodes
-- 
2.43.0


From d23d8693de0c92a0c053b9219e6ed16f11559cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 16/46] fix: support quotes after the first macro argument and
 escaped quotes

---
 mau/parsers/text_parser.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index cb052e5..e6d8c5a 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -77,10 +77,21 @@ class TextParser(BaseParser):
             self.tm.peek_token_is(TokenType.LITERAL, ")")
             or self.tm.peek_token_is(TokenType.EOF)
         ):
+            # This is what we collected so far.
+            previous = "".join([i.value for i in all_args])
+
+            # Double quotes surround a value only at its beginning.
+            value_start = (
+                previous == ""
+                or previous.endswith("=")
+                or previous.rstrip(" ").endswith(",")
+            )
+
             # If we find double quotes we need to blindly
             # collect everything until we meet the closing
-            # double quotes or EOL.
-            if self.tm.peek_token_is(TokenType.LITERAL, '"'):
+            # double quotes or EOL. Escaped double quotes
+            # are left to the arguments parser.
+            if value_start and self.tm.peek_token_is(TokenType.LITERAL, '"'):
                 # Consume the double quotes.
                 opening_quotes = self.tm.get_token(TokenType.LITERAL, '"')
 
@@ -91,6 +102,7 @@ class TextParser(BaseParser):
                         Token.generate(TokenType.LITERAL, '"'),
                         EOF,
                     ],
+                    preserve_escaped_stop_tokens=True,
                 )
 
                 # As we stopped, the next token should be
@@ -106,16 +118,18 @@ class TextParser(BaseParser):
                     TokenType.TEXT, value=f'"{text_token.value}"', context=context
                 )
             else:
-                # No double quotes, we can proceed,
-                # until we find the closing round bracket
-                # or a comma, which is the arguments separator.
-                token = self.tm.collect_join(
-                    stop_tokens=[
-                        Token.generate(TokenType.LITERAL, ","),
-                        Token.generate(TokenType.LITERAL, ")"),
-                        EOF,
-                    ],
-                )
+                # No double quotes, we can proceed
+                # with a single token.
+                token = self.tm.get_token()
+
+                # A backslash escapes the closing round
+                # bracket. In front of anything else it is
+                # left to the arguments parser.
+                if token == Token.generate(TokenType.LITERAL, "\\"):
+                    if not self.tm.peek_token_is(TokenType.LITERAL, ")"):
+                        all_args.append(token)
+
+                    token = self.tm.get_token()
 
             # We can add the arguments we found to the
             # global list.
-- 
2.43.0


From 2333f737d8ef7eb9b4befc4f9a8a796efd255386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 17/46] fix: do not interpret the text of a tag or subtype as
 another prefix

---
 mau/parsers/arguments_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index 6b19374..a489c56 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -183,13 +183,18 @@ class ArgumentsParser(BaseParser):
         # Isolate all tags.
         self.tag_nodes = self._isolate_by_prefix("#", self.unnamed_argument_nodes)
 
+        # A node is isolated once, so that the text that
+        # follows the first prefix is never interpreted again.
+        remaining_nodes = [
+            i for i in self.unnamed_argument_nodes if i not in self.tag_nodes
+        ]
+
         # Isolate all subtypes.
-        subtypes = self._isolate_by_prefix(
-            "*", self.unnamed_argument_nodes, unique=True
-        )
+        subtypes = self._isolate_by_prefix("*", remaining_nodes, unique=True)
+        remaining_nodes = [i for i in remaining_nodes if i not in subtypes]
 
         # Isolate all aliases.
-        aliases = self._isolate_by_prefix("@", self.unnamed_argument_nodes, unique=True)
+        aliases = self._isolate_by_prefix("@", remaining_nodes, unique=True)
 
         # Extract the subtype if present.
         self.subtype = next(iter(subtypes), None)
-- 
2.43.0


From 720010d397353e2cd549c2150522f0272d4f38fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:42 +0000
Subject: [PATCH 18/46] fix: keep the order of the arguments added by an alias

---
 mau/parsers/arguments_parser.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index a489c56..f6ba67c 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -240,9 +240,12 @@ class ArgumentsParser(BaseParser):
 
             # These are the keys added by the alias
             # that are not already in the processed arguments.
-            missing_keys = set(replacement_args.keys()) - set(
-                self.named_argument_nodes.keys()
-            )
+            # Keep the order in which the alias defines them.
+            missing_keys = [
+                key
+                for key in replacement_args.keys()
+                if key not in self.named_argument_nodes
+            ]
 
             for key in missing_keys:
                 context = self.alias.info.context
-- 
2.43.0


From 2b3700f908c4c45f2c2a8255fb43fa9882d25f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 19/46] fix: keep the text of source lines that have no marker
 between the delimiters

---
 .../block_engines/source.py                    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9369a95..788b5ff 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -102,7 +102,8 @@ def parse_source_engine(
         marker: str | None = None
         highlight_style: str | None = None
 
-        if not line_content.endswith(marker_delimiter):
+        # Without a delimiter there can't be any marker.
+        if not marker_delimiter or not line_content.endswith(marker_delimiter):
             create_source_line(
                 code,
                 line_number,
@@ -113,10 +114,11 @@ def parse_source_engine(
             continue
 
         # Split without the final delimiter
-        splits = line_content[:-1].split(marker_delimiter)
+        splits = line_content.removesuffix(marker_delimiter).split(marker_delimiter)
 
-        if len(splits) < 2:
-            # It's a trap! There are no separators left.
+        if len(splits) < 2 or not splits[-1]:
+            # It's a trap! There are no separators left,
+            # or there is nothing between the delimiters.
             # Just add the line as it is.
             create_source_line(
                 code,
@@ -132,7 +134,9 @@ def parse_source_engine(
         line_content = marker_delimiter.join(splits[:-1])
 
         if marker.startswith(highlight_prefix):
-            highlight_style = marker[1:] or highlight_default_style
+            highlight_style = (
+                marker.removeprefix(highlight_prefix) or highlight_default_style
+            )
 
             # Replace the highlight style
             # if it is an alias.
@@ -145,8 +149,8 @@ def parse_source_engine(
         # If there is a marker, change the line
         # context to remove the marker.
         if marker:
-            # Take into account the two colons.
-            marker_length = len(marker) + 2
+            # Take into account the two delimiters.
+            marker_length = len(marker) + 2 * len(marker_delimiter)
 
             # Calculate the line length.
             line_length = len(line_content)
-- 
2.43.0


From cfbfde83e07ba2729fc45332e80672c82523f83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 20/46] fix: accept variables that are not text in ifeval
 macros

---
 mau/parsers/text_parser.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index e6d8c5a..7a36f92 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -924,19 +924,16 @@ class TextParser(BaseParser):
                     context=context,
                 )
 
-            # Find the value of the variable.
-            variable_value = self.environment.get(
-                result.value,
-            )
-
+            # Find the value of the variable. As it happens when
+            # variables are replaced, the value has to be text.
             # If the variable wasn't defined yell at the user.
-            if variable_value is None:
+            try:
+                result.value = str(self.environment[result.value])
+            except KeyError as exc:
                 raise create_parser_exception(
                     f"Variable '{result.value}' has not been defined.",
                     context=context,
-                )
-
-            result.value = variable_value
+                ) from exc
 
         nodes = []
         if result is not None:
-- 
2.43.0


From 5b98b9d2cd496425fef7da02059eb1e1d49cf68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:37 +0000
Subject: [PATCH 21/46] fix: report included files that exist but cannot be
 read as text

---
 mau/parsers/document_processors/include.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/include.py b/mau/parsers/document_processors/include.py
index 9a797e8..207ac19 100644
--- a/mau/parsers/document_processors/include.py
+++ b/mau/parsers/document_processors/include.py
@@ -230,7 +230,7 @@ def _parse_mau(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             text = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
@@ -303,7 +303,7 @@ def _parse_raw(
     try:
         with open(uri, "r", encoding="utf-8") as f:
             content = f.read()
-    except FileNotFoundError as exc:
+    except (OSError, ValueError) as exc:
         raise create_parser_exception(
             f"File '{uri}' cannot be read.",
             context,
-- 
2.43.0


From 63961e3c9f49b3510385d424b8d81541a64c6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 22/46] fix: clone environments that contain both a variable
 and its namespace

---
 mau/environment/environment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 9583e64..68b48ee 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -25,7 +25,9 @@ class Environment:
 
     @classmethod
     def from_environment(cls, other: Environment, namespace: str | None = None):
-        return cls().from_dict(other.asdict(), namespace)
+        # Use the flat dictionary, as a key like `a` and a
+        # key like `a.b` can't coexist in the nested one.
+        return cls.from_dict(other.asflatdict(), namespace)
 
     def update(self, other: Environment, namespace: str | None = None, overwrite=True):
         # Create an environment, to get all
-- 
2.43.0


From 74f09c5be9776108c796c09050b71541009a23ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:55 +0000
Subject: [PATCH 23/46] fix: accept environment variables whose value contains
 the equal sign

---
 mau/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/__init__.py b/mau/__init__.py
index f4ddacd..64222d4 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -146,7 +146,8 @@ def load_environment_variables(
         # ENVIRONMENT_VARIABLES_NAMESPACE.KEY
 
         # Parse the environment variable syntax.
-        key, value = variable.split("=")
+        # The value can contain the equal sign.
+        key, value = variable.split("=", 1)
 
         # Store the value.
         flat_environment_variables[key] = value
-- 
2.43.0


From bad67aec97def2368a03e2a925682629122cc2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:13 +0000
Subject: [PATCH 24/46] fix: never overwrite the input file with the default
 output file

---
 mau/cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mau/cli.py b/mau/cli.py
index 01ec5f4..605b576 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -283,9 +283,12 @@ def main():
     except MauException:
         sys.exit(1)
 
-    # Find out the name of the output file
-    output_file = args.output_file or args.input_file.replace(
-        ".mau", f".{visitor_class.extension}"
+    # Find out the name of the output file. By default it is
+    # the input file name with the extension of the visitor,
+    # which is always different from the input file name.
+    extension = visitor_class.extension.removeprefix(".")
+    output_file = (
+        args.output_file or f"{args.input_file.removesuffix('.mau')}.{extension}"
     )
 
     # Write the rendered text to
-- 
2.43.0


From 75f886791f66289c4d460a33939ba30df247f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 25/46] fix: accept an empty configuration file

---
 mau/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mau/cli.py b/mau/cli.py
index 605b576..5e8c29c 100644
--- a/mau/cli.py
+++ b/mau/cli.py
@@ -190,7 +190,8 @@ def main():
     config = {}
     if args.config_file:
         with open(args.config_file, "r", encoding="utf-8") as config_file:
-            config = yaml.safe_load(config_file)
+            # An empty file contains no configuration.
+            config = yaml.safe_load(config_file) or {}
 
     # Build the initial environment.
     environment = Environment.from_dict(config, BASE_NAMESPACE)
-- 
2.43.0


From 43dba556b1541507a79a92960987d9708619791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 26/46] fix: allow the Jinja visitor to be created without
 environment

---
 mau/visitors/jinja_visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 8630bab..7cc0c4b 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -348,7 +348,7 @@ class JinjaVisitor(BaseVisitor):
         super().__init__(message_handler, environment)
 
         # Load the template prefixes from the configuration.
-        self.template_prefixes = environment.get("mau.visitor.templates.prefixes", [])
+        self.template_prefixes = self.environment.get("mau.visitor.templates.prefixes", [])
 
         # Load default templates.
         # A custom implementation of this visitor might
@@ -369,7 +369,7 @@ class JinjaVisitor(BaseVisitor):
 
         # Load custom templates provided as a dictionary.
         templates_env.update(
-            environment.get(
+            self.environment.get(
                 "mau.visitor.templates.custom",
                 Environment(),
             )
-- 
2.43.0


From d20f109e5bad4163bf41f81b8358c866fddb8e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 27/46] fix: report a control macro without condition instead
 of crashing

---
 mau/parsers/text_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 7a36f92..21a78d4 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -888,6 +888,13 @@ class TextParser(BaseParser):
         # At the moment we support only one condition.
         condition_node = condition_parser.condition_node
 
+        # The condition might be empty.
+        if condition_node is None:
+            raise create_parser_exception(
+                f"Macro name '{name}' must be in the form 'operator:condition'.",
+                context=condition_context,
+            )
+
         control = Control(
             operator,
             condition_node.variable,
-- 
2.43.0


From a1608da0d8d12da05e96d77e4345d828ef1a854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:10 +0000
Subject: [PATCH 28/46] fix: avoid exponential time with unclosed style markers

---
 mau/parsers/text_parser.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 21a78d4..7add088 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -28,6 +28,7 @@ from mau.parsers.arguments_parser import (
 from mau.parsers.base_parser import BaseParser, create_parser_exception
 from mau.parsers.buffers.control_buffer import Control
 from mau.parsers.condition_parser import ConditionParser
+from mau.parsers.managers.tokens_manager import TokenError
 from mau.text_buffer import Context
 from mau.token import EOF, EOL, Token, TokenType
 
@@ -60,6 +61,11 @@ class TextParser(BaseParser):
         # in this piece of text.
         self.header_links: list[Node] = []
 
+        # The positions of the style markers that are known
+        # not to be closed. There is no need to look for the
+        # closing marker of each of them more than once.
+        self.unclosed_styles: set[int] = set()
+
     def _collect_macro_args(self) -> Token:
         # A helper that reads macro arguments.
         # We already consumed the opening
@@ -445,13 +451,23 @@ class TextParser(BaseParser):
             value_check_function=lambda x: x in MAP_STYLES,
         )
 
+        # The result depends only on the position of the marker,
+        # so stop here if this has been already tried.
+        index = self.tm.index
+        if index in self.unclosed_styles:
+            raise TokenError
+
         # Get everything before the next marker
         content = self._parse_sentence(
             stop_tokens={Token.generate(TokenType.LITERAL, opening_marker.value)}
         )
 
         # Get the closing marker
-        closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
+        try:
+            closing_marker = self.tm.get_token(TokenType.LITERAL, opening_marker.value)
+        except TokenError:
+            self.unclosed_styles.add(index)
+            raise
 
         # Find the final context.
         context = Context.merge_contexts(opening_marker.context, closing_marker.context)
-- 
2.43.0


From 8f3024bcd3c752f9db88c78cb2ceca6d130c4658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 29/46] fix: connect header links contained in the headers
 copied by tables of contents and other links

---
 mau/parsers/document_parser.py               | 15 ++++++++++-----
 mau/parsers/managers/header_links_manager.py | 14 +++++++++-----
 mau/parsers/managers/toc_manager.py          | 15 ++++++++++-----
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/mau/parsers/document_parser.py b/mau/parsers/document_parser.py
index 322495d..fd111b3 100644
--- a/mau/parsers/document_parser.py
+++ b/mau/parsers/document_parser.py
@@ -261,18 +261,23 @@ class DocumentParser(BaseParser):
             # a list of footnotes.
             self.footnotes_manager.process()
 
-            # Process ToC nodes.
+            # Create the internal IDs for headers.
             # This operation needs to be done before
-            # we process header links, as it creates
-            # the internal IDs for headers that are
-            # used by the header links.
-            self.toc_manager.process()
+            # we process header links, as those IDs
+            # are used by the header links and do not
+            # depend on them.
+            self.toc_manager.create_internal_ids()
 
             # This processes all links stored in
             # the manager linking them to the
             # correct headers.
             self.header_links_manager.process()
 
+            # Process ToC nodes. ToC nodes contain a copy
+            # of the headers, so links contained in
+            # headers have to be already connected.
+            self.toc_manager.process()
+
         # Process block groups.
         self.blockgroup_manager.process()
 
diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index ebd94b4..607e05a 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -53,13 +53,17 @@ class HeaderLinksManager:
         for macro in self.macros:
             try:
                 macro.header = self.headers[macro.target_name]
-
-                if not macro.content:
-                    macro.content = [
-                        node.deepcopy(parent=macro) for node in macro.header.content
-                    ]
             except KeyError as exc:
                 raise create_parser_exception(
                     f"Cannot find header with id {macro.target_name}",
                     context=macro.info.context,
                 ) from exc
+
+        # The content of headers might contain links as well,
+        # so copy it only when all macros have been connected.
+
+        for macro in self.macros:
+            if not macro.content:
+                macro.content = [
+                    node.deepcopy(parent=macro) for node in macro.header.content
+                ]
diff --git a/mau/parsers/managers/toc_manager.py b/mau/parsers/managers/toc_manager.py
index 8652f2b..c4fbe3d 100644
--- a/mau/parsers/managers/toc_manager.py
+++ b/mau/parsers/managers/toc_manager.py
@@ -144,11 +144,8 @@ class TocManager:
         self.headers.extend(other.headers)
         self.toc_nodes.extend(other.toc_nodes)
 
-    def process(self):
-        if not self.headers:
-            return
-
-        self.nested_headers = []
+    def create_internal_ids(self):
+        """Give an internal ID to all headers."""
 
         # Check that all headers have a
         # unique internal ID. If not, create it.
@@ -160,6 +157,14 @@ class TocManager:
             internal_id = self.header_internal_id_function(header)
             header.internal_id = internal_id
 
+    def process(self):
+        if not self.headers:
+            return
+
+        self.nested_headers = []
+
+        self.create_internal_ids()
+
         # Header parent (the document)
         header_parent = self.headers[0].parent
 
-- 
2.43.0


From de4a2b227b0d64c9286c4808fbb061d56f49dede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 30/46] fix: report the position of a footnote defined twice

---
 mau/parsers/document_processors/block.py  |  2 +-
 mau/parsers/managers/footnotes_manager.py | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/document_processors/block.py b/mau/parsers/document_processors/block.py
index e6cf16c..b838f87 100644
--- a/mau/parsers/document_processors/block.py
+++ b/mau/parsers/document_processors/block.py
@@ -93,7 +93,7 @@ def block_processor(parser: DocumentParser):
     footnote_name = arguments.named_args.get("footnote")
 
     if footnote_name:
-        parser.footnotes_manager.add_body(footnote_name, node)
+        parser.footnotes_manager.add_body(footnote_name, node, context)
 
         return True
 
diff --git a/mau/parsers/managers/footnotes_manager.py b/mau/parsers/managers/footnotes_manager.py
index 3457265..7b41aeb 100644
--- a/mau/parsers/managers/footnotes_manager.py
+++ b/mau/parsers/managers/footnotes_manager.py
@@ -7,6 +7,7 @@ from mau.nodes.macro import (
     MacroFootnoteNode,
 )
 from mau.parsers.base_parser import create_parser_exception
+from mau.text_buffer import Context
 
 
 def default_footnote_unique_id(
@@ -42,6 +43,9 @@ class FootnotesManager:
         # created through blocks.
         self.bodies: dict[str, BlockNode] = {}
 
+        # The position of the definition of each footnote.
+        self.body_contexts: dict[str, Context] = {}
+
         # The list of footnote lists created through includes.
         self.footnotes_list_nodes: list[FootnotesNode] = []
 
@@ -54,16 +58,19 @@ class FootnotesManager:
         of managed footnote macros."""
         self.footnote_macros.extend(footnote_macros)
 
-    def add_body(self, name: str, data: BlockNode):
+    def add_body(self, name: str, data: BlockNode, context: Context | None = None):
         """Add the content of a footnote to
         the list of contents."""
+        context = context or data.info.context
+
         if name in self.bodies:
             raise create_parser_exception(
                 text=f"Footnote '{name}' has been already defined.",
-                context=data.info.context,
+                context=context,
             )
 
         self.bodies[name] = data
+        self.body_contexts[name] = context
 
     def add_footnotes_list(self, data: FootnotesNode):
         """Add a footnotes list node to
@@ -76,7 +83,7 @@ class FootnotesManager:
         Footnotes Manager."""
         self.footnote_macros.extend(other.footnote_macros)
         for name, body in other.bodies.items():
-            self.add_body(name, body)
+            self.add_body(name, body, other.body_contexts.get(name))
         self.footnotes_list_nodes.extend(other.footnotes_list_nodes)
 
     def process(self):
-- 
2.43.0


From 438cc67b317f7c389d8fd4f3635880ac006ea03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:51 +0000
Subject: [PATCH 31/46] fix: report the correct position of a wrong condition
 in a macro

---
 mau/parsers/text_parser.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 7add088..020da81 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -869,13 +869,14 @@ class TextParser(BaseParser):
         # Remember if we need to evaluate the result.
         evaluate = operator == "ifeval"
 
-        # Both ifeval and if are checking the same logic.
-        operator = "if"
-
         # We need to find the context of the condition.
         # It is the macro name token context shifted
         # by the legth of the operator plus the colon.
-        shift = len(f"@{operator}:")
+        shift = len(f"{operator}:")
+
+        # Both ifeval and if are checking the same logic.
+        operator = "if"
+
         condition_context = macro_name_token.context.clone()
         condition_context.start_column += shift
 
-- 
2.43.0


From a73dd21177c0d0d8a70de2ec3b6a9b441e8d200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:35 +0000
Subject: [PATCH 32/46] fix: keep the line of raw and source blocks with a
 single empty line

---
 mau/parsers/document_processors/block_engines/raw.py    | 2 +-
 mau/parsers/document_processors/block_engines/source.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/document_processors/block_engines/raw.py b/mau/parsers/document_processors/block_engines/raw.py
index 9c06d76..d29b24f 100644
--- a/mau/parsers/document_processors/block_engines/raw.py
+++ b/mau/parsers/document_processors/block_engines/raw.py
@@ -19,7 +19,7 @@ def parse_raw_engine(
     # so we just pass it untouched in the form of
     # a RawNode per line.
 
-    if not content:
+    if content is None:
         return RawNode()
 
     # A list of content lines (raw).
diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 788b5ff..9e99d1f 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -61,7 +61,7 @@ def parse_source_engine(
     # Since Mau uses Pygments, the attribute language
     # is one of the languages supported by that tool.
 
-    if not content:
+    if content is None:
         return SourceNode()
 
     # Get the delimiter for markers
-- 
2.43.0


From 873a046f3c8b90e62ba6373363762357031e49ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:09 +0000
Subject: [PATCH 33/46] fix: avoid endless recursion visiting headers that
 contain links to themselves

---
 mau/visitors/base_visitor.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 7233456..944d420 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -1,4 +1,5 @@
 from collections.abc import Mapping, Sequence
+from copy import copy
 from typing import Type
 
 from mau.environment.environment import Environment
@@ -387,10 +388,22 @@ class BaseVisitor:
     def _visit_macro_header(self, node: Node, **kwargs) -> dict:
         result = self._visit_default(node, **kwargs)
 
+        # The content of a header might contain links to
+        # the header itself, directly or through the links
+        # in other headers. Visit it only once.
+        header = node.header
+        linked_headers = kwargs.get("linked_headers", ())
+        if header in linked_headers:
+            header = copy(header)
+            header.content = []
+            header.labels = {}
+        elif header is not None:
+            kwargs["linked_headers"] = (*linked_headers, header)
+
         result.update(
             {
                 "target_name": node.target_name,
-                "header": self.visit_data(node.header, **kwargs),
+                "header": self.visit_data(header, **kwargs),
             }
         )
 
-- 
2.43.0


From 89839c6c851b4236fbcde984eef96d539f4edfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:25 +0000
Subject: [PATCH 34/46] fix: give links contained in the default content of
 other links their own content

---
 mau/parsers/managers/header_links_manager.py | 46 +++++++++++++++++---
 1 file changed, 39 insertions(+), 7 deletions(-)

diff --git a/mau/parsers/managers/header_links_manager.py b/mau/parsers/managers/header_links_manager.py
index 607e05a..200b85e 100644
--- a/mau/parsers/managers/header_links_manager.py
+++ b/mau/parsers/managers/header_links_manager.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from mau.nodes.header import HeaderNode
 from mau.nodes.macro import MacroHeaderNode
+from mau.nodes.node import Node
 from mau.parsers.base_parser import create_parser_exception
 
 
@@ -59,11 +60,42 @@ class HeaderLinksManager:
                     context=macro.info.context,
                 ) from exc
 
-        # The content of headers might contain links as well,
-        # so copy it only when all macros have been connected.
+        # The content of headers might contain links as well, so
+        # find the default content of all macros before changing them.
 
-        for macro in self.macros:
-            if not macro.content:
-                macro.content = [
-                    node.deepcopy(parent=macro) for node in macro.header.content
-                ]
+        default_contents = [
+            (macro, self._default_content(macro, [macro.header]))
+            for macro in self.macros
+            if not macro.content
+        ]
+
+        for macro, content in default_contents:
+            macro.content = content
+
+    def _default_content(
+        self, macro: MacroHeaderNode, headers: list[HeaderNode]
+    ) -> list[Node]:
+        # The default content of a macro is a copy of the content
+        # of its header. The links contained there receive their
+        # own default content, unless that is already being copied.
+
+        content = [node.deepcopy(parent=macro) for node in macro.header.content]
+
+        for link in self._find_links(content):
+            if not link.content and link.header not in headers:
+                link.content = self._default_content(link, [*headers, link.header])
+
+        return content
+
+    def _find_links(self, nodes: list[Node]) -> list[MacroHeaderNode]:
+        # Find the header macros at any depth in the given nodes.
+
+        links = []
+
+        for node in nodes:
+            if isinstance(node, MacroHeaderNode):
+                links.append(node)
+
+            links.extend(self._find_links(getattr(node, "content", [])))
+
+        return links
-- 
2.43.0


From 5a932507f1c402daf0cb0e4ad67b5002b4be1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:35 +0000
Subject: [PATCH 35/46] fix: report the correct position of named arguments
 that follow spaces

---
 mau/parsers/arguments_parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/arguments_parser.py b/mau/parsers/arguments_parser.py
index f6ba67c..76ebc1e 100644
--- a/mau/parsers/arguments_parser.py
+++ b/mau/parsers/arguments_parser.py
@@ -94,10 +94,18 @@ class ArgumentsParser(BaseParser):
         with self.tm:
             self.tm.get_token(TokenType.WHITESPACE)
 
+        # Remove the spaces around the value,
+        # the context has to follow it.
+        value = token.value.strip()
+        context = token.context.clone()
+        if value:
+            context.start_column += token.value.index(value)
+            context.end_column -= len(token.value) - len(token.value.rstrip())
+
         # Save the node.
         node = ValueNode(
-            token.value.strip(),
-            info=NodeInfo(context=token.context),
+            value,
+            info=NodeInfo(context=context),
             parent=self.parent_node,
         )
 
-- 
2.43.0


From 4e944c629c59ebf05100216411561211adc70135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:05 +0000
Subject: [PATCH 36/46] fix: keep the position of a backslash at the end of the
 text inside the line

---
 mau/parsers/text_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 020da81..41d6fa9 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -284,8 +284,12 @@ class TextParser(BaseParser):
         # Get the text.
         text = self.tm.get_token()
 
-        # Merge the two contexts.
-        context = Context.merge_contexts(backslash.context, text.context)
+        # Merge the two contexts. At the end of the
+        # text there is nothing to merge, and the end
+        # might be on the next line.
+        context = backslash.context
+        if text.type is not TokenType.EOF:
+            context = Context.merge_contexts(backslash.context, text.context)
 
         # Create a word node with the next token.
         node = WordNode(
-- 
2.43.0


From e29d6ee7bb46e9caff18b0a752c2fbe1acb4be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 37/46] fix: do not share empty dictionaries between
 environments

---
 mau/environment/helpers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index d06c48f..3b25aff 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -29,6 +29,10 @@ def flatten_nested_dict(
             # Update the dictionary with the result of the recursive call.
             # The parent key here is the current hierarchical key.
             flat.update(flatten_nested_dict(value, key, separator=separator))
+        elif isinstance(value, MutableMapping):
+            # Do not share the empty dictionary,
+            # as the owner might add values to it.
+            flat[key] = {}
         else:
             flat[key] = value
 
@@ -64,6 +68,10 @@ def nest_flattened_dict(flat: dict, separator: str = ".") -> dict:
                 separator,
                 output.setdefault(key, {}),
             )
+        elif isinstance(value, MutableMapping) and len(value) == 0:
+            # Do not share the empty dictionary, as other
+            # values might be added to the nested one.
+            output.setdefault(key, {})
         else:
             output[key] = value
 
-- 
2.43.0


From 11e720982224efcc16571d531e2b4642fa3ae45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 38/46] fix: accept an empty dictionary of custom templates

---
 mau/visitors/jinja_visitor.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 7cc0c4b..9d2f239 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -368,11 +368,9 @@ class JinjaVisitor(BaseVisitor):
         templates_env.update(templates_from_filesystem)
 
         # Load custom templates provided as a dictionary.
+        # An empty dictionary contains no templates.
         templates_env.update(
-            self.environment.get(
-                "mau.visitor.templates.custom",
-                Environment(),
-            )
+            self.environment.get("mau.visitor.templates.custom") or Environment()
         )
 
         # Here, the environment as a flat dict
-- 
2.43.0


From 8ea328acccebe15fb3e45923f90e7b3ecba5d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 39/46] fix: read the names stored under an empty dictionary of
 the environment

---
 mau/environment/environment.py | 73 +++++++++++++++++++---------------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/mau/environment/environment.py b/mau/environment/environment.py
index 68b48ee..8af2998 100644
--- a/mau/environment/environment.py
+++ b/mau/environment/environment.py
@@ -70,36 +70,45 @@ class Environment:
             # If the key is present in the flat
             # index we can just return the
             # corresponding value.
-            return self._variables[key]
+            value = self._variables[key]
+
+            # An empty dictionary doesn't hide
+            # the keys that are stored under it.
+            if value != {}:
+                return value
+
+            default = value
         except KeyError:
-            # The key is not there, let's
-            # check if it works as a namespace.
-
-            # Add the dot to transform the
-            # key into a namespace prefix.
-            prefix = f"{key}."
-
-            # Find all the flat keys that
-            # start with that prefix.
-            keys = [k for k in self._variables if k.startswith(prefix)]
-
-            # If we found matching keys,
-            # we need to return the corresponding
-            # items as an Environment.
-            #
-            # For each matching key, we create
-            # the key without prefix and store
-            # the value under it. Then, we
-            # promote to an Environment.
-            if len(keys) != 0:
-                return self.__class__.from_dict(
-                    {
-                        k.removeprefix(prefix): v
-                        for k, v in self._variables.items()
-                        if k.startswith(prefix)
-                    }
-                )
-
-            # If we can't find matching keys
-            # we should return the default value.
-            return default
+            # The key is not there.
+            pass
+
+        # Let's check if the key works as a namespace.
+
+        # Add the dot to transform the
+        # key into a namespace prefix.
+        prefix = f"{key}."
+
+        # Find all the flat keys that
+        # start with that prefix.
+        keys = [k for k in self._variables if k.startswith(prefix)]
+
+        # If we found matching keys,
+        # we need to return the corresponding
+        # items as an Environment.
+        #
+        # For each matching key, we create
+        # the key without prefix and store
+        # the value under it. Then, we
+        # promote to an Environment.
+        if len(keys) != 0:
+            return self.__class__.from_dict(
+                {
+                    k.removeprefix(prefix): v
+                    for k, v in self._variables.items()
+                    if k.startswith(prefix)
+                }
+            )
+
+        # If we can't find matching keys
+        # we should return the default value.
+        return default
-- 
2.43.0


From 295a9c468baeec61196cade69e0e3a8b459356e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:30 +0000
Subject: [PATCH 40/46] fix: environment files given later replace the values
 of the previous ones

---
 mau/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mau/__init__.py b/mau/__init__.py
index 64222d4..7a06ce7 100644
--- a/mau/__init__.py
+++ b/mau/__init__.py
@@ -115,6 +115,10 @@ def load_environment_files(
             # Assume this is YAML.
             with filepath.open("r", encoding="utf-8") as f:
                 content = yaml.safe_load(f)
+
+                # A key used more than once takes
+                # the position of the latest file.
+                flat_environment_files.pop(key, None)
                 flat_environment_files[key] = content
         except Exception as exc:
             raise ConfigurationError(f"Error processing {filename}") from exc
-- 
2.43.0


From ed49e431dd858225740bb29dfa7649347e740f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:40 +0000
Subject: [PATCH 41/46] fix: a visitor message crashed with KeyError when the
 data of the node has no context

---
 mau/visitors/base_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/base_visitor.py b/mau/visitors/base_visitor.py
index 944d420..c8fe2f1 100644
--- a/mau/visitors/base_visitor.py
+++ b/mau/visitors/base_visitor.py
@@ -23,7 +23,7 @@ def create_visitor_message(
     additional_info: dict[str, str] | None = None,
 ):
     context = None
-    if data:
+    if data and "_context" in data:
         context = adjust_context_dict(data["_context"])
     elif node:
         context = adjust_context(node.info.context)
-- 
2.43.0


From ade13defab34b727d5b3e115650fa9baba6cfdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:34 +0000
Subject: [PATCH 42/46] fix: the text of a macro had no parent

---
 mau/parsers/text_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mau/parsers/text_parser.py b/mau/parsers/text_parser.py
index 41d6fa9..1063198 100644
--- a/mau/parsers/text_parser.py
+++ b/mau/parsers/text_parser.py
@@ -152,6 +152,11 @@ class TextParser(BaseParser):
         self.footnote_macros.extend(parser.footnote_macros)
         self.header_links.extend(parser.header_links)
 
+    def _adopt_content(self, node: MacroLinkNode | MacroClassNode | MacroHeaderNode):
+        # The text of a macro is made of children of the macro.
+        for child in node.content:
+            child.parent = node
+
     def _process_functions(self):
         # This is a recursive parser, so the list
         # of processing functions is pretty small.
@@ -561,6 +566,7 @@ class TextParser(BaseParser):
             parent=self.parent_node,
             info=NodeInfo(context=context),
         )
+        self._adopt_content(node)
 
         return [node]
 
@@ -614,6 +620,7 @@ class TextParser(BaseParser):
             )
             node.content = parser.nodes
             self._inherit_macros(parser)
+            self._adopt_content(node)
 
         self.header_links.append(node)
 
@@ -676,6 +683,7 @@ class TextParser(BaseParser):
             parent=self.parent_node,
             info=NodeInfo(context=context),
         )
+        self._adopt_content(node)
 
         return [node]
 
@@ -722,6 +730,7 @@ class TextParser(BaseParser):
             parent=self.parent_node,
             info=NodeInfo(context=context),
         )
+        self._adopt_content(node)
 
         return [node]
 
-- 
2.43.0


From f88c578750a141e0e207ba4ea429c625553665d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:36 +0000
Subject: [PATCH 43/46] fix: the marker of a source line had no parent

---
 mau/parsers/document_processors/block_engines/source.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mau/parsers/document_processors/block_engines/source.py b/mau/parsers/document_processors/block_engines/source.py
index 9e99d1f..dcdcdc9 100644
--- a/mau/parsers/document_processors/block_engines/source.py
+++ b/mau/parsers/document_processors/block_engines/source.py
@@ -37,6 +37,7 @@ def create_source_line(
     )
 
     if marker_node:
+        marker_node.parent = source_line_node
         source_line_node.marker = marker_node
 
     code.append(source_line_node)
-- 
2.43.0


From e024f86fd4e3006477456f7610a52869349cc88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 44/46] fix: the nodes of copied paragraphs, lists and
 inclusions had other parents than the original ones

---
 mau/nodes/include.py   |  4 ++--
 mau/nodes/list.py      | 13 +++++++++++--
 mau/nodes/paragraph.py |  5 +++--
 3 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/mau/nodes/include.py b/mau/nodes/include.py
index b43d1a6..3c000db 100644
--- a/mau/nodes/include.py
+++ b/mau/nodes/include.py
@@ -171,7 +171,7 @@ class IncludeMauNode(Node, NodeContentMixin, NodeLabelsMixin):
         new_node.uri = self.uri
 
         # Recursive deep copies.
-        self._deepcopy_content(new_node)
+        new_node.content = [child.deepcopy(parent=child.parent) for child in self.content]
         self._deepcopy_labels(new_node)
 
         return new_node
@@ -299,7 +299,7 @@ class TocItemNode(Node):
 
         # Shallow copies.
         new_node.header = self.header
-        new_node.entries = [child.deepcopy(parent=new_node) for child in self.entries]
+        new_node.entries = [child.deepcopy(parent=parent) for child in self.entries]
 
         return new_node
 
diff --git a/mau/nodes/list.py b/mau/nodes/list.py
index 19d63c3..d1ed4d9 100644
--- a/mau/nodes/list.py
+++ b/mau/nodes/list.py
@@ -61,6 +61,11 @@ class ListItemNode(WrapperNode):
 
         # Shallow copies.
         new_node.level = self.level
+
+        # The text of an item is made of
+        # children of the main list.
+        new_node.content = [child.deepcopy(parent=parent) for child in self.content]
+
         return new_node
 
 
@@ -97,8 +102,12 @@ class ListNode(Node, NodeContentMixin, NodeLabelsMixin):
         new_node.main_node = self.main_node
         new_node.start = self.start
 
-        # Recursive deep copies.
-        self._deepcopy_content(new_node)
+        # Recursive deep copies. Whatever is in a list,
+        # at any level, is a child of the main list.
+        content_parent = new_node if self.main_node else parent
+        new_node.content = [
+            child.deepcopy(parent=content_parent) for child in self.content
+        ]
         self._deepcopy_labels(new_node)
 
         return new_node
diff --git a/mau/nodes/paragraph.py b/mau/nodes/paragraph.py
index d0549ee..069d000 100644
--- a/mau/nodes/paragraph.py
+++ b/mau/nodes/paragraph.py
@@ -32,8 +32,9 @@ class ParagraphLineNode(Node, NodeContentMixin, NodeLabelsMixin):
         # Create a new node and perform base deepcopy.
         new_node = super().deepcopy(parent)
 
-        # Recursive deep copies.
-        self._deepcopy_content(new_node)
+        # Recursive deep copies. The text of a line
+        # is made of children of the paragraph.
+        new_node.content = [child.deepcopy(parent=parent) for child in self.content]
         self._deepcopy_labels(new_node)
         return new_node
 
-- 
2.43.0


From 14e22c1d3f124d42b5d990225996ae2f49585459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 45/46] fix: an empty key in a nested dictionary was lost when
 flattening

---
 mau/environment/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/environment/helpers.py b/mau/environment/helpers.py
index 3b25aff..cb4270b 100644
--- a/mau/environment/helpers.py
+++ b/mau/environment/helpers.py
@@ -21,7 +21,7 @@ def flatten_nested_dict(
     # Process all keys at this level.
     for key, value in nested.items():
         # Prefix the key with the parent key if present.
-        key = f"{parent_key}{separator}{key}" if parent_key else key
+        key = f"{parent_key}{separator}{key}" if parent_key is not None else key
 
         # If the value is another non-empty dictionary, call the function
         # recursively, otherwise just store it as it is.
-- 
2.43.0


From b06f578d2a223b65c85eb954fdc73c1d5889b0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:48 +0000
Subject: [PATCH 46/46] fix: templates in folders were read with the encoding
 of the locale

---
 mau/visitors/jinja_visitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mau/visitors/jinja_visitor.py b/mau/visitors/jinja_visitor.py
index 9d2f239..3ba844b 100644
--- a/mau/visitors/jinja_visitor.py
+++ b/mau/visitors/jinja_visitor.py
@@ -279,7 +279,7 @@ def _load_templates_from_path(
         # If we found a file with the proper
         # extension, read the content,
         # preprocess and store it.
-        result[obj.name] = preprocess(obj.read_text())
+        result[obj.name] = preprocess(obj.read_text(encoding="utf-8"))
 
     return result
 
-- 
2.43.0

