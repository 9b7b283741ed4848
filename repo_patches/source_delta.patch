From 1b41a3b3f7ff52db96144f406a186901e5e6ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:40 +0000
Subject: [PATCH 001/169] fix: number \part headings instead of failing with
 KeyError

---
 latex2json/structure/builder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 14439a9..27db411 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -122,6 +122,7 @@ class TokenBuilder:
     def reset_numbering(self):
         """Reset section numbering state"""
         self.section_numbers = {1: 0, 2: 0, 3: 0}
+        self.part_number = 0
         self.math_env_number = 0  # resets when section changes
         # equation, table, figure are simple sequential counters
         self.equation_number = 0
@@ -141,6 +142,12 @@ class TokenBuilder:
 
         level = token.get("level", 1)
 
+        # parts are numbered on their own and do not reset section counters
+        if level < 1:
+            self.part_number += 1
+            token["numbering"] = str(self.part_number)
+            return
+
         # Reset lower level counters if needed
         if reset_lower_levels:
             for l in range(level + 1, max(self.section_numbers.keys()) + 1):
-- 
2.43.0


From cbc6220e54f078bcc59e940326a900144a2a6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 002/169] fix: unnumbered sections do not restart theorem
 numbering

---
 latex2json/structure/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 27db411..45ddcb9 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -405,7 +405,7 @@ class TokenBuilder:
                     token, reset_lower_levels=True, in_appendix=in_appendix
                 )
                 # Reset math environment counter when section changes
-                if token.get("level") == 1:
+                if token.get("level") == 1 and token.get("numbered", True):
                     self.math_env_number = 0
 
                 self._manage_stack(token, section_stack, root)
-- 
2.43.0


From 274491ffc7bd70bfe753d476c2bec5ae6e9cf726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 003/169] fix: unique appendix letters and theorem numbers
 (appendix beyond 26 sections, theorem prefix)

---
 latex2json/structure/builder.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 45ddcb9..cd0797f 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -133,6 +133,17 @@ class TokenBuilder:
     def clear(self):
         self.reset_numbering()
 
+    def _format_section_number(self, in_appendix=False) -> str:
+        """Current top level section number. Letters in appendix i.e. 1->A, 27->AA"""
+        number = self.section_numbers[1]
+        if not in_appendix or number < 1:
+            return str(number)
+        letters = ""
+        while number > 0:
+            number, remainder = divmod(number - 1, 26)
+            letters = chr(65 + remainder) + letters
+        return letters
+
     def _update_section_numbering(
         self, token, reset_lower_levels=False, in_appendix=False
     ):
@@ -158,11 +169,7 @@ class TokenBuilder:
 
         # Build section number string
         # First number is a letter if in appendix i.e. 1->A, 2->B, etc.
-        first_num = (
-            chr(64 + self.section_numbers[1])
-            if in_appendix
-            else str(self.section_numbers[1])
-        )
+        first_num = self._format_section_number(in_appendix)
         number_parts = [first_num] + [
             str(self.section_numbers[l]) for l in range(2, level + 1)
         ]
@@ -184,10 +191,10 @@ class TokenBuilder:
         self.figure_env_number += 1
         token["numbering"] = str(self.figure_env_number)
 
-    def _update_math_env_numbering(self, token):
+    def _update_math_env_numbering(self, token, in_appendix=False):
         self.math_env_number += 1
         # Use current section number + sequential counter
-        section_prefix = str(self.section_numbers[1])
+        section_prefix = self._format_section_number(in_appendix)
         token["numbering"] = f"{section_prefix}.{self.math_env_number}"
 
     def _convert_inline_equations_to_text(self, tokens):
@@ -326,14 +333,14 @@ class TokenBuilder:
         token["content"] = []
         stack.append(token)
 
-    def _check_update_numbering(self, token: Dict[str, any]):
+    def _check_update_numbering(self, token: Dict[str, any], in_appendix=False):
         if token.get("numbered"):
             if token["type"] == "equation":
                 self._update_equation_numbering(token)
             elif token["type"] == "algorithm":
                 self._update_algorithm_numbering(token)
             elif token["type"] == "math_env":
-                self._update_math_env_numbering(token)
+                self._update_math_env_numbering(token, in_appendix)
             elif token["type"] == "table":
                 self._update_table_env_numbering(token)
             elif token["type"] == "figure":
@@ -362,6 +369,7 @@ class TokenBuilder:
                 in_appendix = True
                 # reset section numbers since appendix
                 self.section_numbers = {1: 0, 2: 0, 3: 0}
+                self.math_env_number = 0
                 section_stack.clear()
                 paragraph_stack.clear()
 
@@ -376,7 +384,7 @@ class TokenBuilder:
                 continue
 
             # Handle token numbering
-            self._check_update_numbering(token)
+            self._check_update_numbering(token, in_appendix)
 
             # Handle list depth
             if token["type"] == "list":
-- 
2.43.0


From 3a3572815897aa909d25513b5fe6e68f1b355fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 004/169] fix: unknown command with an unclosed argument no
 longer raises TypeError

---
 latex2json/parser/tex_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 38e2e41..10fc1d2 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -230,8 +230,13 @@ class LatexParser:
                 inner_content, inner_end_pos = extract_nested_content(
                     content[end_pos - 1 :]
                 )
-                end_pos += inner_end_pos - 1
-                total_content += inner_content + "}"
+                if inner_content is None:
+                    # unclosed brace: keep the command on its own
+                    total_content = command
+                    end_pos -= 1
+                else:
+                    end_pos += inner_end_pos - 1
+                    total_content += inner_content + "}"
 
             expanded = self._expand_command(total_content)
 
-- 
2.43.0


From 981cf1eca4fed83fbb8669c086c876f6a179405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 005/169] fix: unclosed groups and diagrams no longer loop
 forever

---
 latex2json/parser/tex_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 10fc1d2..cfa1278 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -428,6 +428,9 @@ class LatexParser:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
+                if end_pos <= 0:
+                    # handler could not consume anything e.g. unclosed block
+                    continue
                 if token:
                     self._process_token(
                         token,
-- 
2.43.0


From 3fba959db9994f6ffce76c8a726069f0a689aba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:33 +0000
Subject: [PATCH 006/169] fix: escape user supplied names when building usage
 patterns

---
 latex2json/parser/handlers/command_processor.py  | 10 +++++-----
 latex2json/parser/handlers/if_else_statements.py |  2 +-
 latex2json/parser/handlers/new_definition.py     |  4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 0fe83da..f59d79d 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -254,7 +254,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + command_name + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -328,7 +328,7 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"(?:true|false)"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
@@ -349,14 +349,14 @@ class CommandProcessor:
             return "", start_pos + end_pos
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": handler,
         }
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
@@ -364,7 +364,7 @@ class CommandProcessor:
     def process_newcounter(self, var_name: str):
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\the" + var_name + r"\b"),
+            "pattern": re.compile(r"\\the" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands["newcounter:" + var_name] = command
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d8aa73..93ace23 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -200,7 +200,7 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + var_name + r"(?:true|false)?")
+        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?")
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 7166b80..f63837f 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -341,14 +341,14 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "num_args": 0,
                 "defaults": [],
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         else:
             token = {
                 "type": "let",
                 "name": name,
                 "content": content,
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         return token, match.end()
 
-- 
2.43.0


From b6e6f07e250577eaf1e4b60206c80a365e0a1aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 007/169] fix: \hyperref without its optional argument no
 longer raises AttributeError

---
 latex2json/parser/handlers/content_command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ef0cc6d..617c7b5 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -181,7 +181,7 @@ class ContentCommandHandler(TokenHandler):
             return {
                 "type": "ref",
                 "title": content,
-                "content": [match.group(1).strip()],
+                "content": [match.group(1).strip()] if match.group(1) else [],
             }
 
         # URLs
-- 
2.43.0


From 6c87cd58e40d24c8062395290b3ccc3b20ae259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 008/169] fix: legacy style or colour with an unclosed brace no
 longer raises AttributeError

---
 latex2json/parser/handlers/legacy_formatting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 0826ab0..c5a5d2c 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -115,6 +115,9 @@ class LegacyFormattingHandler(TokenHandler):
                 if matched_str.startswith("\\color"):
                     # our regex is \color{
                     text, end_pos = extract_nested_content("{" + content[next_pos:])
+                    if text is None:
+                        # unclosed brace: drop the command, keep what follows
+                        return "", next_pos
                     modern_command = "textcolor"
 
                     if match.group(1):
@@ -129,6 +132,9 @@ class LegacyFormattingHandler(TokenHandler):
                     # simple \tt{text}
                     next_pos -= 1  # remove the opening brace
                     text, end_pos = extract_nested_content(content[next_pos:])
+                    if text is None:
+                        # unclosed brace: drop the command, keep what follows
+                        return "", next_pos + 1
                     content_to_format = text.strip()
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
-- 
2.43.0


From 8199dda48bc0892fd7f2bc02d75a72d2e0ab014c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:34 +0000
Subject: [PATCH 009/169] fix: \subfloat with an unclosed caption no longer
 raises AttributeError

---
 latex2json/parser/handlers/text_formatting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 7607fbe..8a499d7 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -261,6 +261,8 @@ class TextFormattingHandler(TokenHandler):
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
         start_pos = match.end() - 1
         caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
+        if caption is None:
+            return None, match.end()
         caption = caption.strip()
 
         total_pos = start_pos + end_pos
-- 
2.43.0


From 999ff967895d8d51489f529b1cbcf3778eaccde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 010/169] fix: tabular without a column specification is an
 empty table, not a KeyError

---
 latex2json/parser/handlers/tabular.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f920e8e..df3b269 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -320,6 +320,7 @@ class TabularHandler(BaseEnvironmentHandler):
         token = {
             "type": "tabular",
             "environment": env_type,  # Store the specific environment type
+            "content": [],
         }
 
         # Extract column spec using nested content extraction
-- 
2.43.0


From 18e47015489ae42c6c0f3fb44086c7b5969c4662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 011/169] fix: \ifthenelse with missing branches no longer
 raises ValueError

---
 latex2json/parser/handlers/if_else_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 93ace23..f271744 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -172,7 +172,7 @@ def try_handle_ifthenelse(
             content[start_pos:], "{", "}", max_blocks=3
         )
         if len(blocks) != 3:
-            raise ValueError("Invalid \\ifthenelse structure")
+            return None, 0
         return {
             "type": "conditional-ifthenelse",
             "condition": blocks[0],
-- 
2.43.0


From 90e7d8f65ea2197cade99df088296c579c995ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 012/169] fix: style command followed by nothing but blank
 lines no longer raises IndexError

---
 latex2json/parser/handlers/text_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 8a499d7..b48ad2e 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -127,7 +127,7 @@ class TextFormattingHandler(TokenHandler):
             else:
                 # get first character that is not space
                 index = find_first_nonspace(next_content)
-                content_to_format = next_content[index]
+                content_to_format = next_content[index : index + 1]
                 if content_to_format == "\\":
                     # if command, no content
                     content_to_format = ""
-- 
2.43.0


From 6d0ee0576d4beef5ec4b6302303ecae5a468e184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 013/169] fix: fractions and boxes holding an unknown command
 no longer raise KeyError

---
 latex2json/utils/tex_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5a57707..020b696 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -367,8 +367,12 @@ def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
             return flatten_all_to_string(token)
         elif isinstance(token, dict) and isinstance(token.get("content"), list):
             return flatten_all_to_string(token["content"])
+        elif isinstance(token, dict):
+            content = token.get("content") or ""
+            # unknown commands keep their name next to their arguments
+            return token.get("command", "") + content
         else:
-            return token["content"]
+            return ""
 
     return " ".join(flatten_token(token) for token in tokens)
 
-- 
2.43.0


From a714f55ecea85f72ab6e93cca6385a5c9f98cb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:22 +0000
Subject: [PATCH 014/169] fix: saved box used inside an equation no longer
 raises AttributeError

---
 latex2json/parser/handlers/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 9d723df..bb9b122 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -92,7 +92,7 @@ class EquationHandler(TokenHandler):
                 x, end_pos = self.box_handler.handle(equation[backslash_pos:])
                 if end_pos > 0:
                     content = ""
-                    if x and isinstance(x.get("content", ""), str):
+                    if isinstance(x, dict) and isinstance(x.get("content", ""), str):
                         content = x.get("content").strip().strip("$")
                     equation = (
                         equation[:backslash_pos]
-- 
2.43.0


From c98e6a9fd0b2c186aa1f2b8fdeabf9321c6f2d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:26 +0000
Subject: [PATCH 015/169] fix: tokens without output inside theorems and
 equation placeholders no longer raise ValidationError

---
 latex2json/structure/tokens/base.py     | 8 ++++++--
 latex2json/structure/tokens/equation.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 6064cd3..e0e858b 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -90,11 +90,15 @@ class MathEnvToken(BaseToken):
         proof = None
         if "content" in data:
             for item in data["content"]:
-                content.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    content.append(token)
         if "title" in data:
             title = []
             for item in data["title"]:
-                title.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    title.append(token)
         if "proof" in data:
             proof = create_token(data["proof"])
 
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index 8a76244..8481935 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -35,7 +35,9 @@ class EquationToken(BaseToken):
             for k, v in data["placeholders"].items():
                 out = []
                 for item in v:
-                    out.append(create_token(item))
+                    token = create_token(item)
+                    if token is not None:
+                        out.append(token)
                 placeholder_dict[k] = out
 
         return cls(
-- 
2.43.0


From ecc99b444b1a2c601c109a11b2cf131ceb38d5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 016/169] fix: author, email or thanks with an unclosed brace
 no longer raises TypeError

---
 latex2json/parser/handlers/author.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 377c7f0..106c046 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -70,7 +70,12 @@ class AuthorHandler(TokenHandler):
             match = pattern.match(content)
             if match:
                 start_pos = match.end() - 1
+                if name == "curraddr":
+                    return None, match.end()
                 content, end_pos = extract_nested_content(content[start_pos:])
+                if content is None:
+                    # unclosed brace: drop the command, keep what follows
+                    return None, match.end()
                 total_pos = start_pos + end_pos
 
                 if name == "thanks":
-- 
2.43.0


From dc806db141cb365af9da304efe66041500ca6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 017/169] fix: \ensuremath or \hphantom with an unclosed brace
 no longer raises TypeError

---
 latex2json/parser/handlers/formatting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 808ae6b..c5ee80b 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -415,6 +415,8 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        return None, match.end()
                     return {
                         "type": "equation",
                         "content": extracted_content,
@@ -463,6 +465,8 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        return None, match.end()
                     # Check if it's hphantom or vphantom
                     if match.group(0).startswith("\\hphantom"):
                         # Horizontal phantom - create spaces matching content width
-- 
2.43.0


From 55b59f770a745c8d83d254813fc26b38e908e9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 018/169] fix: empty or unclosed algorithm no longer raises
 ValidationError

---
 latex2json/structure/tokens/code_and_algo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/code_and_algo.py b/latex2json/structure/tokens/code_and_algo.py
index 44eebdd..ce667d0 100644
--- a/latex2json/structure/tokens/code_and_algo.py
+++ b/latex2json/structure/tokens/code_and_algo.py
@@ -1,5 +1,5 @@
 from enum import Enum
-from typing import List, Optional
+from typing import List, Optional, Union
 
 from pydantic import Field
 
@@ -21,7 +21,7 @@ class AlgorithmToken(EnvironmentToken):
     """Represents algorithm environment"""
 
     type: TokenType = TokenType.ALGORITHM
-    content: List[BaseToken] = Field(default_factory=list)
+    content: Union[str, List[BaseToken]] = Field(default_factory=list)
     numbering: Optional[str] = None
 
 
-- 
2.43.0


From 64f87602cd12ff3b5caf6615ebd8400bdbf957bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 019/169] fix: text or an unknown command before the first list
 item no longer raises ValidationError

---
 latex2json/structure/tokens/table_figure_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/table_figure_list.py b/latex2json/structure/tokens/table_figure_list.py
index 04cb863..1ac3e47 100644
--- a/latex2json/structure/tokens/table_figure_list.py
+++ b/latex2json/structure/tokens/table_figure_list.py
@@ -47,5 +47,6 @@ class ListToken(EnvironmentToken):
     """Represents itemize/enumerate/description environments"""
 
     type: TokenType = TokenType.LIST
-    content: List[ItemToken] = Field(default_factory=list)
+    # items, and whatever precedes the first item
+    content: List[BaseToken] = Field(default_factory=list)
     depth: int = 1
-- 
2.43.0


From dad532bb59afe65776fabcef4d6d08099b5c451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 020/169] fix: labels that follow a footnote are not attached
 to the footnote

---
 latex2json/parser/tex_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index cfa1278..155d241 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -379,10 +379,12 @@ class LatexParser:
                         tokens.extend(input_tokens)
                 return
             elif token["type"] in ["footnote", "caption"]:
-                # prev_env = self.current_env
+                prev_env = self.current_env
                 self.current_env = token
                 token["content"] = self.parse(token["content"])
-                # self.current_env = prev_env
+                if token["type"] == "footnote":
+                    # a label after a footnote belongs to what contains the footnote
+                    self.current_env = prev_env
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-- 
2.43.0


From 9732695240d83677da4965ee1710e50ee5b7606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 021/169] fix: footnotes, links and titled references inside
 formulas no longer raise ValidationError

---
 latex2json/parser/tex_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 155d241..a0c1aa2 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -385,6 +385,12 @@ class LatexParser:
                 if token["type"] == "footnote":
                     # a label after a footnote belongs to what contains the footnote
                     self.current_env = prev_env
+            elif token["type"] == "equation":
+                # commands lifted out of the formula e.g. \\footnote, \\cite, \\href
+                for key, items in token.get("placeholders", {}).items():
+                    processed = []
+                    self._process_token(items, processed)
+                    token["placeholders"][key] = processed
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-- 
2.43.0


From 2841273a1343ca2868e64aead0a01a865017a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 022/169] fix: citation aliases do not leak into other parsers
 and documents

---
 latex2json/parser/handlers/content_command.py | 4 +++-
 latex2json/parser/handlers/equation.py        | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 617c7b5..b631b09 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -85,7 +85,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 class ContentCommandHandler(TokenHandler):
-    citealias = {}  # key, alias/title
+    def __init__(self, process_content_fn: Optional[Callable] = None):
+        super().__init__(process_content_fn)
+        self.citealias = {}  # key, alias/title
 
     def clear(self):
         self.citealias = {}
diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index bb9b122..7fe9ec5 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -64,6 +64,7 @@ class EquationHandler(TokenHandler):
 
     def clear(self):
         self.box_handler.clear()
+        self.content_command.clear()
 
     def can_handle(self, content: str) -> bool:
         """Check if content contains an equation pattern."""
-- 
2.43.0


From e63f8c4f16fcb12d1a14a3af485e7dad2bdebcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 023/169] fix: tokens inside titles and equation placeholders
 keep all their fields in the JSON output

---
 latex2json/structure/tokens/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index e0e858b..2a08172 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -43,6 +43,12 @@ class BaseToken(BaseModel):
         else:
             result["content"] = self.serialize_value(self.content, **kwargs)
 
+        # Other fields that hold tokens e.g. titles, placeholders
+        for name in result:
+            value = getattr(self, name, None)
+            if name != "content" and isinstance(value, (list, dict)):
+                result[name] = self.serialize_value(value, **kwargs)
+
         # Remove None values if exclude_none is True
         if exclude_none:
             result = {k: v for k, v in result.items() if v is not None}
-- 
2.43.0


From 21e9e5bac776977fec4f7c74589b1c0cda0ebb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 024/169] fix: saved boxes do not leak into other parsers, and
 each use is a separate token

---
 latex2json/parser/packages/boxes.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 6dd435a..717fcea 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,5 @@
-from typing import Dict, List, Tuple, Optional
+import copy
+from typing import Callable, Dict, List, Tuple, Optional
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
@@ -66,8 +67,10 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 
 
 class BoxHandler(TokenHandler):
-    saved_boxes = {}
-    numbered_boxes = {}  # Add storage for numbered boxes
+    def __init__(self, process_content_fn: Optional[Callable] = None):
+        super().__init__(process_content_fn)
+        self.saved_boxes = {}
+        self.numbered_boxes = {}  # Add storage for numbered boxes
 
     def can_handle(self, content: str) -> bool:
         return bool(
@@ -171,7 +174,8 @@ class BoxHandler(TokenHandler):
         elif command == "usebox":
             # Return the saved box content if it exists
             if box_name in self.saved_boxes and self.saved_boxes[box_name] is not None:
-                return self.saved_boxes[box_name], match.end()
+                # a copy, each use becomes a token of its own
+                return copy.deepcopy(self.saved_boxes[box_name]), match.end()
 
         return None, match.end()
 
-- 
2.43.0


From 87a77a94a311373c3c574975bba56d399949eb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 025/169] fix: white space before a brace group or an inline
 command is not lost

---
 latex2json/parser/tex_parser.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index a0c1aa2..9075020 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -350,7 +350,11 @@ class LatexParser:
         return {"type": "bibliography", "content": non_duplicate_tokens}
 
     def _process_token(
-        self, token: str | Dict | List[Dict], tokens: List[Dict], is_env_type=False
+        self,
+        token: str | Dict | List[Dict],
+        tokens: List[Dict],
+        is_env_type=False,
+        add_space=False,
     ) -> None:
         if isinstance(token, str):
             token = {"type": "text", "content": token}
@@ -424,9 +428,11 @@ class LatexParser:
                 if "title" in token and isinstance(token["title"], str):
                     token["title"] = self.parse(token["title"])
 
-        self.add_token(token, tokens)
+        self.add_token(token, tokens, add_space)
 
-    def _check_handlers(self, content: str, tokens: List[Dict]) -> Tuple[bool, int]:
+    def _check_handlers(
+        self, content: str, tokens: List[Dict], add_space: bool = False
+    ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
         Returns:
@@ -444,6 +450,7 @@ class LatexParser:
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
+                        add_space=add_space,
                     )
                 return True, end_pos
         return False, 0
@@ -527,10 +534,12 @@ class LatexParser:
                 inner_content, end_pos = extract_nested_content(content[current_pos:])
                 if inner_content is not None:
                     # Parse the content within the braces
+                    add_space = current_pos > 0 and content[current_pos - 1].isspace()
                     nested_tokens = self.parse(inner_content)
                     if nested_tokens:
                         for token in nested_tokens:
-                            self.add_token(token, tokens)
+                            self.add_token(token, tokens, add_space)
+                            add_space = False
                     current_pos += end_pos
                     continue
 
@@ -609,7 +618,10 @@ class LatexParser:
                     continue
 
             # try each handler
-            matched, end_pos = self._check_handlers(content[current_pos:], tokens)
+            add_space = current_pos > 0 and content[current_pos - 1].isspace()
+            matched, end_pos = self._check_handlers(
+                content[current_pos:], tokens, add_space
+            )
             current_pos += end_pos
             if matched:
                 continue
-- 
2.43.0


From 3dc2df57d83bb8db9ba58f0135e8d0144a683378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:59 +0000
Subject: [PATCH 026/169] fix: the tilde accent is put on the letter that
 follows it

---
 latex2json/parser/patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 7c47f7d..6ecd05a 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -22,7 +22,7 @@ command_or_dim = rf"(?:[-+]?\s*{command_with_opt_brace_pattern}|{number_points_s
 # match $ or % or { or } only if not preceded by \
 # Update DELIM_PATTERN to also match double backslashes and opening braces {
 DELIM_PATTERN = re.compile(
-    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\\^|\\(?![$%&_#{}^~\\]))"
+    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\[\^~]|\\(?![$%&_#{}^~\\]))"
 )
 
 DOCUMENTCLASS_PATTERN = re.compile(
-- 
2.43.0


From 1c424b160c7cda7f9f45044effdbe09c99cfc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 027/169] fix: a literal brace in a table cell does not swallow
 the following cells

---
 latex2json/parser/handlers/tabular.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index df3b269..57406e9 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -7,6 +7,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
+    is_escaped as is_escaped_char,
 )
 
 
@@ -62,7 +63,10 @@ def split_latex_content(
             # If odd number of backslashes, the delimiter is escaped
             is_escaped = (backslash_count % 2) == 1
 
-        if content[i] == "{":
+        if content[i] in "{}" and is_escaped_char(i, content):
+            # a literal brace, not a group
+            current_part.append(content[i])
+        elif content[i] == "{":
             nesting_level += 1
             current_part.append(content[i])
         elif content[i] == "}":
-- 
2.43.0


From 7798dfe83b752cdcc395ca21a376d3974f8f9e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:18 +0000
Subject: [PATCH 028/169] fix: a table whose first cell starts with a brace
 group keeps that cell

---
 latex2json/parser/handlers/tabular.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 57406e9..dca3b8a 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -328,8 +328,12 @@ class TabularHandler(BaseEnvironmentHandler):
         }
 
         # Extract column spec using nested content extraction
+        # only tabular*, tabularx and tabulary have a width before the column spec
+        has_width = env_type == "tabular*" or env_type.startswith(
+            ("tabularx", "tabulary")
+        )
         blocks, end_pos = extract_nested_content_sequence_blocks(
-            inner_content, max_blocks=2
+            inner_content, max_blocks=2 if has_width else 1
         )
 
         if blocks:
-- 
2.43.0


From 26d32e574e5f853ae03f885a8fc2562b5e7d5852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 029/169] fix: a brace group is parsed with the options of the
 text around it

---
 latex2json/parser/tex_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 9075020..241635d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -535,7 +535,11 @@ class LatexParser:
                 if inner_content is not None:
                     # Parse the content within the braces
                     add_space = current_pos > 0 and content[current_pos - 1].isspace()
-                    nested_tokens = self.parse(inner_content)
+                    nested_tokens = self.parse(
+                        inner_content,
+                        line_break_delimiter,
+                        handle_unknown_commands,
+                    )
                     if nested_tokens:
                         for token in nested_tokens:
                             self.add_token(token, tokens, add_space)
-- 
2.43.0


From 70af6ee784c47ebfd2842a2c69eea8a6f9545ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 030/169] fix: a grave accent is not taken for an opening quote

---
 latex2json/parser/tex_preprocessor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5fbc3f3..2e52c92 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -21,6 +21,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    is_escaped,
     strip_latex_comments,
     normalize_whitespace_and_lines,
 )
@@ -235,7 +236,8 @@ class LatexPreprocessor:
             # check quotes
             for quote_type, pattern in QUOTE_PATTERNS.items():
                 match = pattern.match(content[current_pos:])
-                if match:
+                # \` is a grave accent, not an opening quote
+                if match and not is_escaped(current_pos, content):
                     quote_content = match.group(1)
                     if quote_type == "double_quotes":
                         quote_content = '"' + quote_content + '"'
-- 
2.43.0


From 6a594087dd43e27db8d5ee98209b6995b3b7d058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 031/169] fix: definitions and commands inside code blocks are
 not executed by the preprocessor

---
 latex2json/parser/tex_preprocessor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 2e52c92..8712b55 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -209,6 +209,17 @@ class LatexPreprocessor:
                     break
                 continue
 
+            # code blocks are kept as they are
+            verbatim_end = 0
+            for pattern in VERBATIM_PATTERNS.values():
+                match = pattern.match(content[current_pos:])
+                if match:
+                    verbatim_end = match.end()
+                    break
+            if verbatim_end > 0:
+                current_pos += verbatim_end
+                continue
+
             # Process addto by simply treating the content inside as {...}
             match = ADD_TO_PATTERN.match(content[current_pos:])
             if match:
-- 
2.43.0


From bf54044ad0967548869a52f0314da5c74b563f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 032/169] fix: percent signs inside code blocks and urls are
 not comments

---
 latex2json/utils/tex_utils.py | 53 ++++++++++++++++++++++-------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 020b696..d68ae65 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -322,12 +322,24 @@ def is_escaped(pos: int, text: str) -> bool:
     return count_preceding_backslashes(text, pos) % 2 == 1
 
 
+# code blocks and urls, where % is an ordinary character
+COMMENT_OR_LITERAL_PATTERN = re.compile(
+    r"(?P<literal>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
+    r"|\\verb\*?(?P<delim>[^a-zA-Z*\s])[^\n]*?(?P=delim)"
+    r"|\\(?:url|href)\s*\{[^{}\n]*\})"
+    r"|\\."
+    r"|(?P<comment>%[^\n]*)",
+    re.DOTALL,
+)
+
+
 def strip_latex_comments(text: str) -> str:
     r"""
     Remove all LaTeX comments while preserving escaped \% characters.
 
     A % starts a comment if it is preceded by an even number (including zero)
     of consecutive backslashes. An odd number indicates that the % is escaped.
+    Code blocks (verbatim, lstlisting, \verb) and urls are left untouched.
 
     Args:
         text: Input LaTeX text
@@ -335,25 +347,28 @@ def strip_latex_comments(text: str) -> str:
     Returns:
         Text with all comments removed.
     """
-    lines = []
-    for line in text.splitlines():
-        result = []
-        i = 0
-        while i < len(line):
-            if line[i] == "%":
-                # Use helper to decide if this % is escaped.
-                if not is_escaped(i, line):
-                    break  # Unescaped % starts a comment
-                else:
-                    # Escaped percent: include literal %
-                    result.append("%")
-                    i += 1
-                    continue
-            else:
-                result.append(line[i])
-                i += 1
-        lines.append("".join(result).rstrip())
-    return "\n".join(lines)
+    text = "\n".join(text.splitlines())
+
+    out = []
+    normal = []
+
+    def flush():
+        # no trailing whitespace on the lines outside of code blocks
+        out.append(re.sub(r"[^\S\n]+(?=\n)", "", "".join(normal)))
+        normal.clear()
+
+    pos = 0
+    for match in COMMENT_OR_LITERAL_PATTERN.finditer(text):
+        normal.append(text[pos : match.start()])
+        pos = match.end()
+        if match.group("literal"):
+            flush()
+            out.append(match.group(0))
+        elif not match.group("comment"):
+            normal.append(match.group(0))
+    normal.append(text[pos:])
+    flush()
+    return re.sub(r"[^\S\n]+\Z", "", "".join(out))
 
 
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
-- 
2.43.0


From 6784984a3707957729bcc69950ff5ceaf3ff7680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:08 +0000
Subject: [PATCH 033/169] fix: detect the encoding from the whole file, valid
 utf-8 is read as utf-8

---
 latex2json/utils/encoding.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 045f973..69e2b7e 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -15,12 +15,18 @@ def detect_encoding(path: str) -> str:
 
     # Read the file in binary mode
     with open(path, "rb") as file:
-        # Read a sample of the file for faster detection
-        # For larger files, reading the first few KB is usually sufficient
-        raw_data = file.read(10000)  # Read first 10KB
+        # Read all of it: the first non-ASCII character can be anywhere
+        raw_data = file.read()
         if len(raw_data) == 0:  # Empty file
             return "utf-8"
 
+    # Valid utf-8 is utf-8, no need to guess
+    try:
+        raw_data.decode("utf-8")
+        return "utf-8-sig" if raw_data.startswith(b"\xef\xbb\xbf") else "utf-8"
+    except UnicodeDecodeError:
+        pass
+
     # Detect encoding
     result = chardet.detect(raw_data)
     encoding = result.get("encoding", "utf-8")
-- 
2.43.0


From 54989c85191ff080b07161a9af2a889db46edc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:14 +0000
Subject: [PATCH 034/169] fix: bibliography files are read with the same
 encoding detection as tex files

---
 latex2json/parser/bib/bib_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index e8c7323..cf83b65 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -9,6 +9,7 @@ from latex2json.parser.bib.bibtex_parser import (
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
+from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
     normalize_whitespace_and_lines,
@@ -67,8 +68,7 @@ class BibParser:
         #     self.logger.warning(f"BibParser: Already parsed {file_path}")
         #     return None
         # self._parsed_files.add(file_path)
-        with open(file_path, "r") as f:
-            return f.read()
+        return read_file(file_path)
 
     def parse_file(self, file_path: str) -> List[BibTexEntry]:
         """Parse a bibliography file and return list of entries.
-- 
2.43.0


From bdda5c1715bc999a61798d59a4e67a59c5e097a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:19 +0000
Subject: [PATCH 035/169] fix: the .bbl fallback does not depend on directory
 order and works without a directory

---
 latex2json/parser/bib/bib_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index cf83b65..c819c3b 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -98,7 +98,7 @@ class BibParser:
 
         # Case 3: Try main.bbl first, then any .bbl file in the same directory
         if not bib_content:
-            directory = os.path.dirname(file_path)
+            directory = os.path.dirname(file_path) or "."
             main_bbl = os.path.join(directory, "main.bbl")
 
             if os.path.exists(main_bbl):
@@ -106,7 +106,9 @@ class BibParser:
                 bib_content = self._open_file(main_bbl)
             else:
                 # Look for any .bbl file
-                bbl_files = [f for f in os.listdir(directory) if f.endswith(".bbl")]
+                bbl_files = sorted(
+                    f for f in os.listdir(directory) if f.endswith(".bbl")
+                )
                 if bbl_files:
                     first_bbl = os.path.join(directory, bbl_files[0])
                     self.logger.info(f"Bib fallback -> Found {bbl_files[0]}")
-- 
2.43.0


From ece7432cf7be0ffe44c2ad62b3329db26a6f3320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 036/169] fix: the choice of the main tex file does not depend
 on directory order

---
 latex2json/tex_file_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d8ef713..df77ba0 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -45,8 +45,9 @@ class TexFileExtractor:
         Raises:
             FileNotFoundError: If no main TeX file is found
         """
-        for root, _, files in os.walk(folder_path):
-            for file in files:
+        for root, dirs, files in os.walk(folder_path):
+            dirs.sort()  # do not depend on the directory order of the file system
+            for file in sorted(files):
                 if file.endswith(".tex"):
                     full_path = os.path.join(root, file)
                     try:
-- 
2.43.0


From ddfbfc77ae93ebfcaa8d12580a34f3f790560142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 037/169] fix: guess the encoding from a sample with non-ASCII
 bytes

---
 latex2json/utils/encoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 69e2b7e..36acaf7 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -25,7 +25,9 @@ def detect_encoding(path: str) -> str:
         raw_data.decode("utf-8")
         return "utf-8-sig" if raw_data.startswith(b"\xef\xbb\xbf") else "utf-8"
     except UnicodeDecodeError:
-        pass
+        # A sample around the first non-ASCII byte is enough, and fast
+        first = next(i for i, byte in enumerate(raw_data) if byte > 127)
+        raw_data = raw_data[max(0, first - 100) : first + 10000]
 
     # Detect encoding
     result = chardet.detect(raw_data)
-- 
2.43.0


From 8d2a0e72faf97b55d554c8644174f325fb02e7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 038/169] fix: bibtex fields with bare values, quotes inside
 braces or unbalanced braces

---
 latex2json/parser/bib/bibtex_parser.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 40e896f..0888c84 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -44,7 +44,9 @@ class BibTexEntry:
 
 
 BibTexPattern = re.compile(r"@(\w+)\s*\{")
-BibTexFieldPattern = re.compile(r"(\w+)\s*=\s*")
+BibTexFieldPattern = re.compile(r"([\w-]+)\s*=\s*")
+# a quote inside braces does not end a quoted value e.g. "G{\"o}del"
+BibTexQuotedPattern = re.compile(r'\s*"((?:[^"{}]|\{(?:[^{}]|\{[^{}]*\})*\})*)"')
 
 
 class BibTexParser:
@@ -137,15 +139,23 @@ class BibTexParser:
                     ):
                         field_start += 1
                     value, value_end = extract_nested_content(fields_text[field_start:])
-                    if value is not None:
-                        fields[field_name] = value.strip()
-                        pos = field_start + value_end
+                    if value is None:  # unbalanced braces
+                        break
+                    fields[field_name] = value.strip()
+                    pos = field_start + value_end
                 else:
                     # Handle quoted values
-                    quote_match = re.match(r'\s*"([^"]*)"', fields_text[field_start:])
+                    quote_match = re.match(
+                        BibTexQuotedPattern, fields_text[field_start:]
+                    )
+                    # Handle bare values e.g. year = 2020, month = jan
+                    bare_match = re.match(r"\s*([^\s,{}\"]+)", fields_text[field_start:])
                     if quote_match:
                         fields[field_name] = quote_match.group(1)
                         pos = field_start + quote_match.end()
+                    elif bare_match:
+                        fields[field_name] = bare_match.group(1)
+                        pos = field_start + bare_match.end()
                     else:
                         pos = field_start + 1
 
-- 
2.43.0


From 196fe9d09449bb2344c758990c5c99cc01acc524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:21 +0000
Subject: [PATCH 039/169] fix: percent signs in values of a .bib file are not
 comments

---
 latex2json/parser/bib/bib_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index c819c3b..12ec547 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -1,6 +1,7 @@
 from logging import Logger
 import logging
 import os
+import re
 from typing import List
 
 from latex2json.parser.bib.bibtex_parser import (
@@ -23,6 +24,13 @@ def preprocess(content: str) -> str:
     return content.strip()
 
 
+def preprocess_bibtex(content: str) -> str:
+    """Percent signs are not comments inside BibTeX values e.g. urls, only remove comment lines"""
+    content = re.sub(r"^[ \t]*%.*\n?", "", content, flags=re.MULTILINE)
+    content = normalize_whitespace_and_lines(content)
+    return content.strip()
+
+
 class BibParser:
 
     # _parsed_files = set()
@@ -42,6 +50,7 @@ class BibParser:
     def parse(self, content: str) -> List[BibTexEntry]:
         """Parse both BibTeX, bibitem, and bibdiv entries from the content"""
 
+        raw_content = content
         content = preprocess(content)
 
         entries = []
@@ -52,6 +61,8 @@ class BibParser:
             entries.extend(self.bibdiv_parser.parse(content))
         # Use the can_handle method for BibTeX
         elif self.bibtex_parser.can_handle(content):
+            if self.bibtex_parser.is_bibtex(content):
+                content = preprocess_bibtex(raw_content)
             entries.extend(self.bibtex_parser.parse(content))
         # Use the can_handle method for BibItem (now includes bibliography environment check)
         elif self.bibitem_parser.can_handle(content):
-- 
2.43.0


From e4cc7b9c6ecf7e55f5f2e833dad394db54f20c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 040/169] fix: text inside a bibtex entry is not taken for
 another entry

---
 latex2json/parser/bib/bibtex_parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 0888c84..77a744f 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -101,7 +101,10 @@ class BibTexParser:
         pos = 0
 
         # Find each entry starting with @
+        entry_end = 0
         for match in re.finditer(BibTexPattern, content):
+            if match.start() < entry_end:
+                continue  # text of the previous entry e.g. an address in a note
             entry_type = match.group(1).lower()
             start_pos = match.end() - 1  # Position of the opening brace
 
@@ -109,6 +112,7 @@ class BibTexParser:
             entry_content, next_pos = extract_nested_content(content[start_pos:])
             if entry_content is None:
                 continue
+            entry_end = start_pos + next_pos
 
             # Split into citation key and fields
             key_end = entry_content.find(",")
-- 
2.43.0


From 305ffd429d992e15cd7f94bdaf22d16fe4b4b4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 041/169] fix: authors of compiled bibliographies written by
 newer biber versions are kept

---
 latex2json/parser/bib/compiled_bibtex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 68ecbdd..8a5470a 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -63,7 +63,9 @@ def parse_compiled_bibtex_entry(entry_text):
 
         if author_blocks:
             # find the hash stuff
-            for hash_match in re.finditer(r"\{hash=\w+\}\{", author_blocks):
+            for hash_match in re.finditer(
+                r"\{[^{}]*\bhash=\w+\}\{", author_blocks
+            ):
                 hash_pos = hash_match.end() - 1
                 auth_block, _ = extract_nested_content(
                     author_blocks[hash_pos:], "{", "}"
-- 
2.43.0


From 497a4bddfedbf8e8601d74667e1846b4ee2e76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 042/169] fix: archive members with two dots inside a name are
 not skipped

---
 latex2json/tex_file_extractor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index df77ba0..23f375d 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -92,7 +92,7 @@ class TexFileExtractor:
                         # Prevent path traversal and absolute paths
                         if (
                             os.path.isabs(member)
-                            or ".." in member
+                            or ".." in member.split("/")
                             or not os.path.abspath(member_path).startswith(
                                 os.path.abspath(temp_dir)
                             )
@@ -122,7 +122,7 @@ class TexFileExtractor:
                             # Prevent path traversal and absolute paths
                             if (
                                 os.path.isabs(member.name)
-                                or ".." in member.name
+                                or ".." in member.name.split("/")
                                 or not os.path.abspath(member_path).startswith(
                                     os.path.abspath(temp_dir)
                                 )
-- 
2.43.0


From bb640ba3b5f0c4c4ec1bb7476678ec667b178e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 043/169] fix: links in a tar archive do not let files be read
 or written outside of the temporary folder

---
 latex2json/tex_file_extractor.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 23f375d..62255e1 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -132,10 +132,20 @@ class TexFileExtractor:
                                 )
                                 continue
                             safe_members.append(member)
-                        # Extract only safe members (use filter='data' in Python 3.12+ for better security)
-                        # For broader compatibility, we extract member by member after checks
+                        # Extract only safe members. The data filter refuses links that
+                        # point outside of temp_dir, and anything written through them.
+                        # Without it (old Python versions) links are not extracted at all.
+                        has_filter = hasattr(tarfile, "data_filter")
                         for member in safe_members:
-                            tar.extract(member, temp_dir)
+                            try:
+                                if has_filter:
+                                    tar.extract(member, temp_dir, filter="data")
+                                elif member.isfile() or member.isdir():
+                                    tar.extract(member, temp_dir)
+                            except getattr(tarfile, "FilterError", ()) as e:
+                                print(
+                                    f"[WARNING] Skipping potentially unsafe path in tar.gz: {e}"
+                                )
 
                     main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                         temp_dir
-- 
2.43.0


From 3aa07c159af5c9f85d024b30a0e7e9bb3cb2deaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:16 +0000
Subject: [PATCH 044/169] fix: the temporary folder of an archive is removed
 when processing fails

---
 latex2json/tex_file_extractor.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 62255e1..a32a535 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -213,11 +213,14 @@ class TexFileExtractor:
 
             # Yield the relative path of main_tex from temp_dir and temp_dir itself
             yield main_tex, temp_dir
-
-        finally:
-            # Clean up temporary directory
-            if cleanup:
-                shutil.rmtree(temp_dir)
+        except BaseException:
+            # Nobody receives the temporary directory when processing fails
+            shutil.rmtree(temp_dir, ignore_errors=True)
+            raise
+
+        # Clean up temporary directory
+        if cleanup:
+            shutil.rmtree(temp_dir, ignore_errors=True)
 
     @classmethod
     def from_folder(cls, folder_path):
-- 
2.43.0


From 230001a286cc8cb5ad8fe3c35d2dbf294337ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:42 +0000
Subject: [PATCH 045/169] fix: the temporary folder is also removed when the
 extracted file cannot be processed

---
 latex2json/tex_file_extractor.py | 14 ++++++++------
 latex2json/tex_reader.py         |  7 ++++++-
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index a32a535..7e7e9b3 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -211,16 +211,18 @@ class TexFileExtractor:
                     f"Unsupported file type or error processing file: {compressed_path}"
                 )
 
-            # Yield the relative path of main_tex from temp_dir and temp_dir itself
-            yield main_tex, temp_dir
         except BaseException:
-            # Nobody receives the temporary directory when processing fails
+            # Nobody receives the temporary directory when extraction fails
             shutil.rmtree(temp_dir, ignore_errors=True)
             raise
 
-        # Clean up temporary directory
-        if cleanup:
-            shutil.rmtree(temp_dir, ignore_errors=True)
+        try:
+            # Yield the relative path of main_tex from temp_dir and temp_dir itself
+            yield main_tex, temp_dir
+        finally:
+            # Clean up temporary directory
+            if cleanup:
+                shutil.rmtree(temp_dir, ignore_errors=True)
 
     @classmethod
     def from_folder(cls, folder_path):
diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index cc98317..6316e27 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -203,7 +203,12 @@ class TexReader:
                     f"Found main TeX file in archive: {main_tex}, {compressed_path}"
                 )
                 file_path = os.path.join(temp_dir, main_tex)
-                output = self.process_file(file_path)
+                try:
+                    output = self.process_file(file_path)
+                except BaseException:
+                    # Nobody receives the temporary directory when processing fails
+                    shutil.rmtree(temp_dir, ignore_errors=True)
+                    raise
                 output.temp_dir = temp_dir
                 return output
         except Exception as e:
-- 
2.43.0


From 78f7aa932f3bbd5805b2c466d77455d457fb6a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:46 +0000
Subject: [PATCH 046/169] fix: cleanup() after an automatic cleanup no longer
 raises FileNotFoundError

---
 latex2json/tex_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index 6316e27..0cccb52 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -28,7 +28,9 @@ class ProcessingResult:
     def cleanup(self):
         """Clean up temporary resources."""
         if self.temp_dir:
-            shutil.rmtree(self.temp_dir)
+            # it is gone already after process_compressed(..., cleanup=True)
+            if os.path.exists(self.temp_dir):
+                shutil.rmtree(self.temp_dir)
             self.temp_dir = None
 
 
-- 
2.43.0


From 5cf65c721d01a743a5f20fc7e2a7f74cff8ce4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 047/169] fix: a file that includes itself is not read over and
 over again

---
 latex2json/parser/tex_parser.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 241635d..cba997f 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -55,6 +55,7 @@ class LatexParser:
             None  # Current environment token (used for associating nested labels)
         )
         self.current_file_dir = None
+        self._open_files = []  # files being parsed, the outermost first
         self.current_str = ""
 
         # color definitions via \definecolor
@@ -694,10 +695,19 @@ class LatexParser:
         Returns:
             List[Dict[str, str]]: List of parsed tokens
         """
+        file_abspath = os.path.abspath(str(file_path).strip())
+        if file_abspath.endswith(extension):
+            file_id = file_abspath[: -len(extension)]
+        else:
+            file_id = file_abspath
+        if file_id in self._open_files:
+            self.logger.error(f"File includes itself: {file_path}")
+            return []
+        self._open_files.append(file_id)
+
         try:
             self.logger.info(f"Parsing file: {file_path}, ext: {extension}")
 
-            file_abspath = os.path.abspath(file_path)
             if not self.current_file_dir:
                 self.current_file_dir = os.path.dirname(file_abspath)
 
@@ -717,6 +727,8 @@ class LatexParser:
             )
             self.logger.warning(f"Continuing from failed parse at {file_path}")
             return []
+        finally:
+            self._open_files.pop()
 
 
 def should_preprocess_file(file_path: str) -> bool:
-- 
2.43.0


From 7b654a1d19be216f3dd7c0818e7c2b7e9fcf8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 048/169] fix: a parser used for a second file does not look
 for its inputs next to the first file

---
 latex2json/parser/tex_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index cba997f..abe51cc 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -704,6 +704,7 @@ class LatexParser:
             self.logger.error(f"File includes itself: {file_path}")
             return []
         self._open_files.append(file_id)
+        prev_file_dir = self.current_file_dir
 
         try:
             self.logger.info(f"Parsing file: {file_path}, ext: {extension}")
@@ -729,6 +730,7 @@ class LatexParser:
             return []
         finally:
             self._open_files.pop()
+            self.current_file_dir = prev_file_dir
 
 
 def should_preprocess_file(file_path: str) -> bool:
-- 
2.43.0


From 82fe2b669e2eb51af0620353ae925aa4b17fb388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:34 +0000
Subject: [PATCH 049/169] fix: macros that expand forever and very deep nesting
 no longer hang or raise RecursionError

---
 .../parser/handlers/command_processor.py      | 10 ++---
 latex2json/parser/tex_parser.py               | 40 +++++++++++++++++++
 latex2json/parser/tex_preprocessor.py         |  5 +++
 latex2json/utils/expansion_guard.py           | 22 ++++++++++
 4 files changed, 72 insertions(+), 5 deletions(-)
 create mode 100644 latex2json/utils/expansion_guard.py

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index f59d79d..5a39d8d 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -396,7 +396,7 @@ class CommandProcessor:
         text: str,
         command_entries: Dict[str, CommandEntry],
         math_mode: bool = False,
-        max_depth: int = 1000,
+        max_depth: int = 200,
     ) -> tuple[str, int]:
         """Recursively expand defined commands in the text until no further expansions are possible."""
         match_count = 0
@@ -425,12 +425,12 @@ class CommandProcessor:
         }
 
         prev_text = None
+        max_length = 100_000 + 20 * len(text)
         while prev_text != text:
             depth += 1
-            if depth > max_depth:
-                raise RecursionError(
-                    f"Maximum recursion depth ({max_depth}) exceeded. Possible infinite loop in LaTeX commands."
-                )
+            if depth > max_depth or len(text) > max_length:
+                # infinite loop in LaTeX commands, leave the rest unexpanded
+                break
             prev_text = text
             text = substitute_patterns(text, command2pattern, sub_fn)
 
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index abe51cc..0e063f7 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -28,6 +28,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
+from latex2json.utils.expansion_guard import ExpansionGuard
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     read_tex_file_content,
@@ -42,6 +43,9 @@ from latex2json.parser.packages import get_all_custom_handlers
 
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
+# deeper nesting would exceed the recursion limit
+MAX_PARSE_DEPTH = 150
+
 
 class LatexParser:
     def __init__(self, logger: logging.Logger = None):
@@ -56,6 +60,8 @@ class LatexParser:
         )
         self.current_file_dir = None
         self._open_files = []  # files being parsed, the outermost first
+        self._parse_depth = 0  # nesting of parse() calls
+        self._expansions_left = 0
         self.current_str = ""
 
         # color definitions via \definecolor
@@ -513,6 +519,33 @@ class LatexParser:
         if not isinstance(content, str):
             return content
 
+        if self._parse_depth == 0:
+            # far more than any document needs, see ExpansionGuard
+            self._expansions_left = 10000 + 2 * len(content)
+        elif self._parse_depth > MAX_PARSE_DEPTH:
+            self.logger.warning("Content is nested too deeply, kept as it is")
+            return [{"type": "text", "content": content}]
+
+        self._parse_depth += 1
+        try:
+            return self._parse(
+                content,
+                line_break_delimiter,
+                handle_unknown_commands,
+                handle_legacy_formatting,
+                preprocess,
+            )
+        finally:
+            self._parse_depth -= 1
+
+    def _parse(
+        self,
+        content: str,
+        line_break_delimiter: str,
+        handle_unknown_commands: bool,
+        handle_legacy_formatting: bool,
+        preprocess: bool,
+    ) -> List[Dict]:
         content = strip_latex_comments(content)
 
         if preprocess:
@@ -520,6 +553,7 @@ class LatexParser:
 
         tokens = []
         current_pos = 0
+        guard = ExpansionGuard(content)
 
         while current_pos < len(content):
             # Skip whitespace
@@ -581,6 +615,12 @@ class LatexParser:
             if self.command_manager.can_handle(content[current_pos:]):
                 text, end_pos = self.command_manager.handle(content[current_pos:])
                 if end_pos > 0:
+                    self._expansions_left -= 1
+                    if self._expansions_left < 0 or guard.is_runaway(
+                        content, current_pos + end_pos
+                    ):
+                        self.logger.warning("Macro expands forever, skipping...")
+                        text = ""
                     # replace the matched user command with the expanded text
                     content = (
                         content[:current_pos] + text + content[current_pos + end_pos :]
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 8712b55..490ad0e 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -27,6 +27,7 @@ from latex2json.utils.tex_utils import (
 )
 from latex2json.parser.sty_parser import LatexStyParser
 from latex2json.parser.handlers.command_manager import CommandManager
+from latex2json.utils.expansion_guard import ExpansionGuard
 
 
 ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\cmd{...}
@@ -190,6 +191,7 @@ class LatexPreprocessor:
         """
         current_pos = 0
         tokens = []  # Store all definition tokens
+        guard = ExpansionGuard(content)
 
         math_blocks = {}
 
@@ -309,6 +311,9 @@ class LatexPreprocessor:
                     content[current_pos:]
                 )
                 if end_pos > 0:
+                    if guard.is_runaway(content, current_pos + end_pos):
+                        self.logger.warning("Macro expands forever, skipping...")
+                        expanded_text = ""
                     content = (
                         content[:current_pos]
                         + expanded_text
diff --git a/latex2json/utils/expansion_guard.py b/latex2json/utils/expansion_guard.py
new file mode 100644
index 0000000..e305eca
--- /dev/null
+++ b/latex2json/utils/expansion_guard.py
@@ -0,0 +1,22 @@
+class ExpansionGuard:
+    """Detects macros that expand forever, e.g. \\def\\x{a\\x}
+
+    The text that follows a macro only gets shorter as a document is read. It stays
+    the same, or grows, as long as the result of an expansion is itself expanded.
+    """
+
+    MAX_NESTED = 5000
+
+    def __init__(self, content: str):
+        self.max_length = 1_000_000 + 20 * len(content)
+        self.shortest_rest = None
+        self.nested = 0
+
+    def is_runaway(self, content: str, end_pos: int) -> bool:
+        """Check the macro that ends at end_pos, before it is replaced"""
+        rest = len(content) - end_pos
+        if self.shortest_rest is None or rest < self.shortest_rest:
+            self.shortest_rest = rest
+            self.nested = 0
+        self.nested += 1
+        return self.nested > self.MAX_NESTED or len(content) > self.max_length
-- 
2.43.0


From d098511294a06fb2dba5c3ff1525797cb397d99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:04 +0000
Subject: [PATCH 050/169] fix: \\let copies one token and does not swallow the
 text after it

---
 latex2json/parser/handlers/new_definition.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index f63837f..1950f45 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -24,8 +24,15 @@ LET_COMMAND_PREFIX = r"\\(?:future)?let\s*\\"
 DEF_COMMAND_PATTERN = re.compile(
     r"%s([^\s{#]+)(((?:#\d+|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
 )
+# \let copies a single token, what follows that token is not part of it
 LET_COMMAND_PATTERN = re.compile(
-    r"%s([^\s{\\]+)\s*(=.*|\\[^\s{]+)" % (LET_COMMAND_PREFIX), re.DOTALL
+    r"%s([^\s{\\=]+)\s*(=\s*(?:\\(?:[a-zA-Z@]+|.)|\w+|\S)|\\(?:[a-zA-Z@]+|[^\s{]))"
+    % (LET_COMMAND_PREFIX),
+    re.DOTALL,
+)
+# ...its name can have any character in \csname name\endcsname
+LET_CSNAME_COMMAND_PATTERN = re.compile(
+    r"%s([^\s{\\]+)\s*(\\[^\s{\\]+)" % (LET_COMMAND_PREFIX), re.DOTALL
 )
 
 EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
@@ -329,7 +336,7 @@ class NewDefinitionHandler(TokenHandler):
         content = match.group(2).strip()
         # Remove optional equals sign if present
         if content.startswith("="):
-            content = content[1:]
+            content = content[1:].strip()
         elif name.endswith("="):
             name = name[:-1]
 
@@ -484,6 +491,8 @@ class NewDefinitionHandler(TokenHandler):
                 if content[start_pos] == "\\":
                     start_pos += 1
                 search_text = search_prefix + content[start_pos:]
+                if len(inner_csnames) == 2:
+                    full_pattern = LET_CSNAME_COMMAND_PATTERN
                 full_match = full_pattern.match(search_text)
                 if full_match:
                     token, end_pos = handler(search_text, full_match)
-- 
2.43.0


From c6987a1263e2487c960634ce1a2a6237952a4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:22 +0000
Subject: [PATCH 051/169] fix: a command that is redefined after \\let uses the
 new definition

---
 latex2json/parser/handlers/command_processor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 5a39d8d..5a462d4 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -132,6 +132,11 @@ class CommandProcessor:
                 if not cmd.get("math_mode_only", False):
                     yield cmd
 
+    def _set_command(self, command_name: str, command: CommandEntry):
+        self.commands[command_name] = command
+        # the latest definition counts, not an earlier \\let
+        self.let_commands.pop(command_name, None)
+
     def process_let(self, command_name: str, definition: str, usage_pattern: str):
         # for let, we evaluate the definition right way
         definition = self.expand_commands(definition, True)[0]
@@ -245,7 +250,7 @@ class CommandProcessor:
                 "definition": definition,
                 "math_mode_only": math_mode_only,
             }
-            self.commands[command_name] = command
+            self._set_command(command_name, command)
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
             raise e
@@ -278,7 +283,7 @@ class CommandProcessor:
                 "pattern": re.compile(usage_pattern, re.DOTALL),
                 "handler": handler,
             }
-            self.commands[command_name] = command
+            self._set_command(command_name, command)
         except Exception as e:
             print(f"Error processing paired delimiter {command_name}: {e}")
             raise e
@@ -321,7 +326,7 @@ class CommandProcessor:
                 "handler": handler,
                 "definition": definition,
             }
-            self.commands[command_name] = command
+            self._set_command(command_name, command)
         except Exception as e:
             print(f"Error processing newdef {command_name}: {e}")
             raise e
-- 
2.43.0


From 664c62eb0bb90742e5e642daf5ee07b5f2b4320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:56 +0000
Subject: [PATCH 052/169] fix: \let of a command with arguments copies its
 arguments

---
 .../parser/handlers/command_processor.py      | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 5a462d4..63be491 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -31,6 +31,7 @@ class CommandEntry(TypedDict):
     pattern: Pattern[str]
     handler: Callable[[re.Match[str], str, Optional[bool]], Tuple[str, int]]
     definition: Optional[str]
+    num_args: Optional[int]
     math_mode_only: Optional[bool] = False
 
 
@@ -138,6 +139,27 @@ class CommandProcessor:
         self.let_commands.pop(command_name, None)
 
     def process_let(self, command_name: str, definition: str, usage_pattern: str):
+        # \let of a user command copies it, with its arguments
+        original = definition.strip()
+        entry = self._all_commands.get(original[1:])
+        prefix = re.escape(original)
+        if (
+            entry
+            and entry.get("num_args", 0) > 0
+            and entry["pattern"].pattern.startswith(prefix)
+        ):
+            copied_pattern = (
+                r"\\" + re.escape(command_name) + entry["pattern"].pattern[len(prefix) :]
+            )
+            # the name may also be written as \csname name\endcsname
+            _, sep, csname_pattern = usage_pattern.partition("|")
+            copied_pattern += sep + csname_pattern
+            self.let_commands[command_name] = {
+                **entry,
+                "pattern": re.compile(copied_pattern, re.DOTALL),
+            }
+            return
+
         # for let, we evaluate the definition right way
         definition = self.expand_commands(definition, True)[0]
 
@@ -248,6 +270,7 @@ class CommandProcessor:
                 "pattern": re.compile(usage_pattern, re.DOTALL),
                 "handler": handler,
                 "definition": definition,
+                "num_args": num_args,
                 "math_mode_only": math_mode_only,
             }
             self._set_command(command_name, command)
@@ -325,6 +348,7 @@ class CommandProcessor:
                 "pattern": re.compile(usage_pattern, re.DOTALL),
                 "handler": handler,
                 "definition": definition,
+                "num_args": num_args,
             }
             self._set_command(command_name, command)
         except Exception as e:
-- 
2.43.0


From 13478d72907fc73b9c400c67bf68a5d5f2c0cc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 053/169] fix: \providecommand does not change a command that
 is defined already

---
 latex2json/parser/handlers/command_manager.py | 4 ++++
 latex2json/parser/handlers/new_definition.py  | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 9c9636d..c2f987a 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -75,6 +75,10 @@ class CommandManager(TokenHandler):
         if not self._should_handle_command_type(token["type"]):
             return
 
+        # \providecommand does not change a command that exists
+        if token.get("is_provide", False) and self.processor.has_command(cmd_name):
+            return
+
         # Consolidate command registration logic from sty_parser/tex_parser/tex_preprocessor
         ignore_sty = token.get("is_sty", False) and self.ignore_sty_commands
         math_mode_only = token.get("math_mode_only", False)
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 1950f45..4fc273d 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -399,6 +399,8 @@ class NewDefinitionHandler(TokenHandler):
             "defaults": defaults,
             "usage_pattern": pattern,
         }
+        if match.group(0).startswith("\\providecommand"):
+            token["is_provide"] = True
 
         return token, start_pos + end_pos - 1
 
-- 
2.43.0


From 97f281983b7cc0829290c917835c1869f38ab2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 054/169] fix: redefined commands in formulas and with other
 arguments use the definition in force where they are used

---
 latex2json/parser/handlers/command_manager.py   |  6 ++++++
 latex2json/parser/handlers/command_processor.py |  4 ++++
 latex2json/parser/tex_preprocessor.py           | 10 ++++++++++
 3 files changed, 20 insertions(+)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index c2f987a..8793538 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -166,6 +166,12 @@ class CommandManager(TokenHandler):
             or self.keyval_handler.can_handle(content)
         )
 
+    def has_command(self, cmd_name: str) -> bool:
+        return self.processor.has_command(cmd_name)
+
+    def forget_command(self, cmd_name: str) -> None:
+        self.processor.forget_command(cmd_name)
+
     @property
     def commands(self):
         """Access to registered commands"""
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 63be491..ea8f433 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -115,6 +115,10 @@ class CommandProcessor:
     def has_command(self, command_name: str) -> bool:
         return command_name in self._all_commands
 
+    def forget_command(self, command_name: str):
+        self.commands.pop(command_name, None)
+        self.let_commands.pop(command_name, None)
+
     def get_command_iter(self, math_mode=False):
         """
         Returns an iterator over commands, filtered by math_mode if specified.
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 490ad0e..4ec1872 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -276,9 +276,19 @@ class LatexPreprocessor:
                 if token.get("num_args", 0) > 0 or check_string_has_hash_number(
                     token.get("content", "")
                 ):
+                    # an earlier definition without arguments no longer applies
+                    self.command_manager.forget_command(token.get("name", ""))
                     current_pos += end_pos
                     continue
+                is_redefinition = self.command_manager.has_command(
+                    token.get("name", "")
+                )
                 self._process_new_definition_token(token)
+                if is_redefinition:
+                    # The parser starts with the first definition (for math blocks),
+                    # so leave this one where it is: it only counts from here on
+                    current_pos += end_pos
+                    continue
                 tokens.append(token)
                 if end_pos > 0:
                     content = content[:current_pos] + content[current_pos + end_pos :]
-- 
2.43.0


From e619c9dcdede33324399e142041a04b0262c8877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:08 +0000
Subject: [PATCH 055/169] fix: a command with arguments redefined without
 arguments

---
 latex2json/parser/tex_preprocessor.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 4ec1872..6d0c4b6 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -192,6 +192,7 @@ class LatexPreprocessor:
         current_pos = 0
         tokens = []  # Store all definition tokens
         guard = ExpansionGuard(content)
+        left_in_content = set()  # names of definitions that only the parser handles
 
         math_blocks = {}
 
@@ -278,10 +279,13 @@ class LatexPreprocessor:
                 ):
                     # an earlier definition without arguments no longer applies
                     self.command_manager.forget_command(token.get("name", ""))
+                    left_in_content.add(token.get("name", ""))
                     current_pos += end_pos
                     continue
-                is_redefinition = self.command_manager.has_command(
-                    token.get("name", "")
+                cmd_name = token.get("name", "")
+                is_redefinition = (
+                    self.command_manager.has_command(cmd_name)
+                    or cmd_name in left_in_content
                 )
                 self._process_new_definition_token(token)
                 if is_redefinition:
-- 
2.43.0


From 1f6cef2325ef5356f38a647e901534ed4c644f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 056/169] fix: headings with an optional short title keep their
 title and level

---
 latex2json/parser/handlers/content_command.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index b631b09..8942ea5 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -23,10 +23,10 @@ RAW_PATTERNS = OrderedDict(
     [
         # 1. Commands that need nested brace handling (simplified patterns)
         ("abstract", r"\\abstract\s*{"),
-        ("section", r"\\(?:(?:sub)*section\*?)\s*{"),
-        ("part", r"\\part\*?\s*{"),
-        ("chapter", r"\\chapter\*?\s*{"),
-        ("paragraph", r"\\(?:(?:sub)*paragraph\*?)\s*{"),
+        ("section", r"\\((?:sub)*section\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("part", r"\\(part\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("chapter", r"\\(chapter\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("paragraph", r"\\((?:sub)*paragraph\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
@@ -142,15 +142,15 @@ class ContentCommandHandler(TokenHandler):
         content = content.strip()
 
         if matched_type == "paragraph":
-            level = match.group(0).count("sub") + PARAGRAPH_LEVELS["paragraph"]
+            level = match.group(1).count("sub") + PARAGRAPH_LEVELS["paragraph"]
             return {
                 "type": "paragraph",
                 "title": content,
                 "level": level,
             }
         elif matched_type in ["section", "chapter", "part"]:
-            level = match.group(0).count("sub") + SECTION_LEVELS[matched_type]
-            numbered = (matched_type + "*") not in match.group(0)
+            level = match.group(1).count("sub") + SECTION_LEVELS[matched_type]
+            numbered = not match.group(1).endswith("*")
             return {
                 "type": "section",
                 "title": content,
-- 
2.43.0


From 2fcee3f86b761dd345136ae5699dcdaebe037b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 057/169] fix: headings below subsubsection no longer raise
 KeyError

---
 latex2json/structure/builder.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index cd0797f..d9fe856 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -161,17 +161,18 @@ class TokenBuilder:
 
         # Reset lower level counters if needed
         if reset_lower_levels:
-            for l in range(level + 1, max(self.section_numbers.keys()) + 1):
-                self.section_numbers[l] = 0
+            for l in self.section_numbers:
+                if l > level:
+                    self.section_numbers[l] = 0
 
         # Increment current level counter
-        self.section_numbers[level] += 1
+        self.section_numbers[level] = self.section_numbers.get(level, 0) + 1
 
         # Build section number string
         # First number is a letter if in appendix i.e. 1->A, 2->B, etc.
         first_num = self._format_section_number(in_appendix)
         number_parts = [first_num] + [
-            str(self.section_numbers[l]) for l in range(2, level + 1)
+            str(self.section_numbers.get(l, 0)) for l in range(2, level + 1)
         ]
         token["numbering"] = ".".join(number_parts)
 
-- 
2.43.0


From 6e4fe0200aa97e50bcf1260e95a9b7d415c6b564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:51 +0000
Subject: [PATCH 058/169] fix: inline formulas in \( \) may span lines

---
 latex2json/parser/handlers/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 7fe9ec5..71d0740 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -33,7 +33,7 @@ RAW_PATTERNS = OrderedDict(
         ("equation_display_$$", re.compile(r"\$\$([\s\S]*?)\$\$", re.DOTALL)),
         ("equation_inline_$", re.compile(r"\$([^$]*)\$")),
         ("equation_display_brackets", re.compile(r"\\\[(.*?)\\\]", re.DOTALL)),
-        ("equation_inline_brackets", re.compile(r"\\\((.*?)\\\)")),
+        ("equation_inline_brackets", re.compile(r"\\\((.*?)\\\)", re.DOTALL)),
     ]
 )
 
-- 
2.43.0


From 389a6c4e6f021a8d051dd4d9900e613ba2af1c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 059/169] fix: a \documentclass shown in a code block does not
 discard the text before it

---
 latex2json/parser/tex_preprocessor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 6d0c4b6..90461eb 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -140,8 +140,13 @@ class LatexPreprocessor:
         Returns:
             int: end position of the match
         """
-        match = DOCUMENTCLASS_PATTERN.search(content)
-        if match:
+        code_spans = [
+            m.span() for p in VERBATIM_PATTERNS.values() for m in p.finditer(content)
+        ]
+        for match in DOCUMENTCLASS_PATTERN.finditer(content):
+            # one that is shown in a code block is not the class of this document
+            if any(start <= match.start() < end for start, end in code_spans):
+                continue
             cls_name = match.group(1).strip()
             tokens = self._parse_packages([cls_name], file_dir, ".cls")
             return match.end(), tokens
-- 
2.43.0


From 2d2c3388e6014088574358715ef07ad2c9e5df54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 060/169] fix: starred citations, and \captionof with a short
 caption, are recognised

---
 latex2json/parser/handlers/content_command.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 8942ea5..dfa83d1 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -29,7 +29,10 @@ RAW_PATTERNS = OrderedDict(
         ("paragraph", r"\\((?:sub)*paragraph\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
+        (
+            "captionof",
+            r"\\captionof\*?\s*{([^}]*?)}\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+        ),
         # input
         ("input_file", r"\\(?:input|include)\s*{"),
         # REFs
@@ -57,7 +60,7 @@ RAW_PATTERNS = OrderedDict(
         # Citations
         (
             "citation",
-            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\s*%s%s\s*{"
+            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\*?\s*%s%s\s*{"
             % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
         ),
         # ("citetext", r"\\citetext\s*{"), # remove citetext since it is just like regular latex -> handled by text_formatting
-- 
2.43.0


From 98b826d229bee2b380c87620fb0a8183954ea502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:12 +0000
Subject: [PATCH 061/169] fix: \tabularnewline, \\* and \multirow with a
 position option are understood

---
 latex2json/parser/handlers/tabular.py | 6 +++++-
 latex2json/parser/patterns.py         | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index dca3b8a..7ed7034 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -21,7 +21,10 @@ TABULAR_PATTERN = re.compile(
 )
 
 MULTICOLUMN_PATTERN = re.compile(r"\\multicolumn\s*{(\d+)}\s*{", re.DOTALL)
-MULTIROW_PATTERN = re.compile(r"\\multirow\s*{(\d+)}\s*{", re.DOTALL)
+MULTIROW_PATTERN = re.compile(
+    r"\\multirow\s*(?:\[[^\]]*\]\s*)?{(\d+)}\s*{", re.DOTALL
+)
+TABULARNEWLINE_PATTERN = re.compile(r"\\tabularnewline(?![a-zA-Z])")
 
 
 MAKECELL_SHORTSTACK_PATTERN = re.compile(
@@ -342,6 +345,7 @@ class TabularHandler(BaseEnvironmentHandler):
 
             # Get the table content after the column spec
             inner_content = inner_content[end_pos:]
+            inner_content = TABULARNEWLINE_PATTERN.sub(r"\\\\", inner_content)
 
             # First extract table structures
             inner_content, table_structures = extract_table_structures(inner_content)
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 6ecd05a..758021d 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -48,7 +48,7 @@ RAW_PATTERNS = OrderedDict(
         # Line break with optional spacing specification
         (
             "break_spacing",
-            r"\\\\(?:\s*\[([^]]*)\])?",
+            r"\\\\\*?(?:\s*\[([^]]*)\])?",
         ),  # Added \s* to handle optional whitespace
         (
             "line_continuation",
-- 
2.43.0


From 6facff57fddd4e6043bd3dd0e767b75464234083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 062/169] fix: \begin and \end shown in a code block do not
 count as environment borders

---
 latex2json/utils/tex_utils.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index d68ae65..afeaebd 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -159,6 +159,13 @@ def extract_nested_content_pattern(
     return -1, -1, ""
 
 
+CODE_BLOCK_PATTERN = re.compile(
+    r"\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
+    r"|\\verb\*?(?P<delim>[^a-zA-Z*\s])[^\n]*?(?P=delim)",
+    re.DOTALL,
+)
+
+
 def find_matching_env_block(
     text: str, env_name: str, start_pos: int = 0
 ) -> Tuple[int, int, str]:
@@ -175,13 +182,20 @@ def find_matching_env_block(
 
     # Adjust for start_pos by slicing the text and adjusting returned positions
     text_slice = text[start_pos:]
+    searched = text_slice
+    if env_name not in ("verbatim", "lstlisting"):
+        # a \begin or \end shown in a code block does not count
+        searched = CODE_BLOCK_PATTERN.sub(lambda m: " " * len(m.group(0)), text_slice)
     start, end, content = extract_nested_content_pattern(
-        text_slice, begin_pattern, end_pattern
+        searched, begin_pattern, end_pattern
     )
 
     if start == -1:
         return -1, -1, ""
 
+    content_start = re.match(begin_pattern, searched[start:]).end() + start
+    content = text_slice[content_start : content_start + len(content)]
+
     return start + start_pos, end + start_pos, content.strip()
 
 
-- 
2.43.0


From 1ba785c2233f5f4cb08cab7d8f2b59b74f95c50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:07 +0000
Subject: [PATCH 063/169] fix: serializing nested tables, titles and theorem
 titles no longer doubles the work per level

---
 latex2json/structure/tokens/base.py     | 14 ++++----------
 latex2json/structure/tokens/document.py | 10 ----------
 latex2json/structure/tokens/tabular.py  | 12 ++++++------
 3 files changed, 10 insertions(+), 26 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 2a08172..74dfac2 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -36,12 +36,7 @@ class BaseToken(BaseModel):
         result = super().model_dump(**kwargs)
 
         # Handle content field recursively
-        if isinstance(self.content, list):
-            result["content"] = [
-                self.serialize_value(token, **kwargs) for token in self.content
-            ]
-        else:
-            result["content"] = self.serialize_value(self.content, **kwargs)
+        result["content"] = self._dump_content(**kwargs)
 
         # Other fields that hold tokens e.g. titles, placeholders
         for name in result:
@@ -55,6 +50,9 @@ class BaseToken(BaseModel):
 
         return result
 
+    def _dump_content(self, **kwargs) -> Any:
+        return self.serialize_value(self.content, **kwargs)
+
 
 TokenCreator = Callable[[Dict[str, Any]], BaseToken]
 
@@ -77,10 +75,6 @@ class MathEnvToken(BaseToken):
     def model_dump(self, **kwargs):
         result = super().model_dump(**kwargs)
 
-        if self.title:
-            result["title"] = [
-                self.serialize_value(token, **kwargs) for token in self.title
-            ]
         if self.proof:
             result["proof"] = self.serialize_value(self.proof, **kwargs)
 
diff --git a/latex2json/structure/tokens/document.py b/latex2json/structure/tokens/document.py
index c45dd1f..d7db03d 100644
--- a/latex2json/structure/tokens/document.py
+++ b/latex2json/structure/tokens/document.py
@@ -19,16 +19,6 @@ class SectionToken(BaseToken):
     numbering: Optional[str] = None  # e.g. 3.1.2
     content: Optional[List[BaseToken]] = []
 
-    def model_dump(self, **kwargs):
-        result = super().model_dump(**kwargs)
-
-        if self.title:
-            result["title"] = [
-                self.serialize_value(token, **kwargs) for token in self.title
-            ]
-
-        return result
-
 
 class ParagraphToken(SectionToken):
     type: TokenType = TokenType.PARAGRAPH
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 5bc60e5..594f76e 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -35,6 +35,11 @@ class TabularToken(BaseToken):
         if "labels" in result and result["labels"] is None:
             del result["labels"]
 
+        if result.get("styles") is None:
+            del result["styles"]
+        return result
+
+    def _dump_content(self, **kwargs) -> Any:
         kwargs_base = kwargs.copy()
         kwargs_base["exclude_none"] = True
 
@@ -53,12 +58,7 @@ class TabularToken(BaseToken):
             return cell
 
         # Process each cell in the tabular content
-        result["content"] = [
-            [process_cell(cell) for cell in row] for row in self.content
-        ]
-        if result.get("styles") is None:
-            del result["styles"]
-        return result
+        return [[process_cell(cell) for cell in row] for row in self.content]
 
     @classmethod
     def process(
-- 
2.43.0


From f7ee35da4507f72975a9bc8b6806681eeb5cd976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:11 +0000
Subject: [PATCH 064/169] fix: macros that double with every level no longer
 hang the expansion of formulas

---
 latex2json/parser/handlers/command_processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index ea8f433..aa97bbd 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -438,6 +438,9 @@ class CommandProcessor:
         def sub_fn(text, match, cmd_name):
             nonlocal match_count
             match_count += 1
+            if match_count > max_matches or len(text) > max_length:
+                # macros that double with each level, leave the rest unexpanded
+                return match.group(0), match.end()
             if cmd_name not in command_entries:
                 return match.group(0), match.end()
             handler = command_entries[cmd_name]["handler"]
@@ -459,6 +462,7 @@ class CommandProcessor:
 
         prev_text = None
         max_length = 100_000 + 20 * len(text)
+        max_matches = 10_000 + 2 * len(text)
         while prev_text != text:
             depth += 1
             if depth > max_depth or len(text) > max_length:
-- 
2.43.0


From 75292a2f8013f501bb714d4a8ab88a838227e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:16 +0000
Subject: [PATCH 065/169] fix: deeply nested tables no longer exceed the
 recursion limit of the builder

---
 latex2json/parser/tex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 0e063f7..9553668 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -44,7 +44,7 @@ from latex2json.parser.packages import get_all_custom_handlers
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
 # deeper nesting would exceed the recursion limit
-MAX_PARSE_DEPTH = 150
+MAX_PARSE_DEPTH = 100
 
 
 class LatexParser:
-- 
2.43.0


From 1ca9d50c3ea4a61fb21371db715557e00a88b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:00 +0000
Subject: [PATCH 066/169] fix: unpaired \\foo \\foo \\endfoo in a formula no
 longer hangs

---
 latex2json/parser/handlers/environment.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fcd0320..e95d943 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -124,8 +124,13 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
     while match:
         env_name = match.group(1)
         start_pos, end_pos, inner_content = extract_nested_content_pattern(
-            content, r"\\" + env_name, r"\\end" + env_name
+            content,
+            r"\\%s(?![a-zA-Z@])" % env_name,
+            r"\\end%s(?![a-zA-Z@])" % env_name,
         )
+        if end_pos < 0:
+            # not a pair, e.g. \foo \foo \endfoo
+            break
         inner_content = convert_any_env_pairs_to_begin_end(inner_content)
         inner_content = r"\begin{%s}%s\end{%s}" % (env_name, inner_content, env_name)
         content = content[:start_pos] + inner_content + content[end_pos:]
-- 
2.43.0


From 3f61265f69e3339771fc34b0f7039903823c7b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 067/169] fix: an empty appendix environment inside a table no
 longer fails

---
 latex2json/parser/tex_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 9553668..d36a891 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -431,6 +431,8 @@ class LatexParser:
                     self.current_env = token
                     token["content"] = self.parse(token["content"])
                     self.current_env = prev_env
+                elif token["type"] == "appendix":
+                    token["content"] = []
 
                 if "title" in token and isinstance(token["title"], str):
                     token["title"] = self.parse(token["title"])
-- 
2.43.0


From faa4fd14f399ea8dc674e731eed46c3f51a70b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 068/169] fix: a table cell that holds nothing but a label no
 longer fails

---
 latex2json/structure/tokens/tabular.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 594f76e..de8ef07 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -88,7 +88,9 @@ class TabularToken(BaseToken):
                         )
                         row_cells.append(c)
                 elif isinstance(cell, list):
-                    row_cells.append(cls._process_nested_list(cell, create_token))
+                    row_cells.append(
+                        cls._process_nested_list(cell, create_token) or None
+                    )
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
@@ -102,7 +104,9 @@ class TabularToken(BaseToken):
         processed_list = []
         for item in nested_list:
             if isinstance(item, dict) and "type" in item:
-                processed_list.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    processed_list.append(token)
             elif isinstance(item, list):
                 processed_list.append(cls._process_nested_list(item, create_token))
             else:
-- 
2.43.0


From 68aca43edd080698596387d0d064807da25f5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 069/169] fix: serializing deeply nested content no longer
 exceeds the depth limit of pydantic

---
 latex2json/structure/tokens/base.py    | 35 +++++++++++++-------------
 latex2json/structure/tokens/tabular.py |  8 +++---
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 74dfac2..d14e501 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -32,17 +32,24 @@ class BaseToken(BaseModel):
         # Get exclude_none from kwargs or default to False
         exclude_none = kwargs.get("exclude_none", False)
 
-        # Get the basic model dump but exclude content as we'll handle it specially
-        result = super().model_dump(**kwargs)
-
-        # Handle content field recursively
-        result["content"] = self._dump_content(**kwargs)
-
-        # Other fields that hold tokens e.g. titles, placeholders
-        for name in result:
-            value = getattr(self, name, None)
-            if name != "content" and isinstance(value, (list, dict)):
+        # Fields that may hold tokens e.g. content, titles, placeholders are handled
+        # recursively, the basic model dump of them is limited in depth
+        fields = {name: getattr(self, name) for name in type(self).model_fields}
+        nested = {
+            name
+            for name, value in fields.items()
+            if isinstance(value, (list, dict, BaseToken))
+        }
+        basic = super().model_dump(**{**kwargs, "exclude": nested})
+
+        result = {}
+        for name, value in fields.items():
+            if name == "content":
+                result[name] = self._dump_content(**kwargs)
+            elif name in nested:
                 result[name] = self.serialize_value(value, **kwargs)
+            elif name in basic:
+                result[name] = basic[name]
 
         # Remove None values if exclude_none is True
         if exclude_none:
@@ -72,14 +79,6 @@ class MathEnvToken(BaseToken):
     title: Optional[List[BaseToken]] = None
     proof: Optional["MathEnvToken"] = None
 
-    def model_dump(self, **kwargs):
-        result = super().model_dump(**kwargs)
-
-        if self.proof:
-            result["proof"] = self.serialize_value(self.proof, **kwargs)
-
-        return result
-
     @classmethod
     def process(
         cls, data: Dict[str, Any], create_token: TokenCreator
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index de8ef07..4b688de 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -45,9 +45,11 @@ class TabularToken(BaseToken):
 
         def process_cell(cell: CellType):
             if isinstance(cell, TableCell):
-                cell_dict = cell.model_dump(**kwargs)
-                cell_dict["content"] = process_cell(cell.content)
-                return cell_dict
+                return {
+                    "content": process_cell(cell.content),
+                    "rowspan": cell.rowspan,
+                    "colspan": cell.colspan,
+                }
             elif isinstance(cell, BaseToken):
                 out = cell.model_dump(**kwargs_base)
                 if "styles" in out and out["styles"] is None:
-- 
2.43.0


From 72bd7683323c46766e4bbd709a80713c49404df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:27 +0000
Subject: [PATCH 070/169] fix: an unclosed \\if at the very end of the content
 no longer hangs

---
 latex2json/parser/handlers/if_else_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index f271744..0078409 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -153,6 +153,9 @@ def extract_else_elseif_fi(
 
         pos += next_match.end()
 
+    if nesting_level > 0:
+        raise ValueError("Unclosed conditional block")
+
     return (
         "".join(if_content).strip(),
         "".join(else_content).strip(),
-- 
2.43.0


From 329249c784af0b245ea75a4ea160d2197426eb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 071/169] fix: many \\def without any brace after them no
 longer take cubic time

---
 latex2json/parser/handlers/new_definition.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 4fc273d..749ba9e 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -461,6 +461,9 @@ class NewDefinitionHandler(TokenHandler):
             # remove last backslash
             prefix = prefix[:-1]
             start_pos = match.end() - 1
+            if full_pattern is DEF_COMMAND_PATTERN and "{" not in content:
+                # no definition, the pattern would try hard to find one
+                return None, 0
 
             expand_after_pattern = re.compile(r"\s*" + EXPAND_PATTERN.pattern)
 
-- 
2.43.0


From 5594c0a09cc0195bbfc8b273e0ca9147b20f52b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:38 +0000
Subject: [PATCH 072/169] fix: copying deeply nested formulas no longer exceeds
 the recursion limit of the builder

---
 latex2json/structure/builder.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index d9fe856..d9e70e7 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -6,7 +6,6 @@ from latex2json.structure.tokens.equation import DisplayType
 from latex2json.structure.tokens.types import TokenType
 
 
-import copy
 
 
 MATH_OPEN_DELIMITER = "<math>"
@@ -102,6 +101,15 @@ def is_proof_env(token: Dict) -> bool:
     )
 
 
+def copy_tokens(value):
+    """Deep copy of tokens. Needs less of the stack than copy.deepcopy"""
+    if isinstance(value, dict):
+        return {k: copy_tokens(v) for k, v in value.items()}
+    if isinstance(value, list):
+        return [copy_tokens(v) for v in value]
+    return value
+
+
 class TokenBuilder:
     """Handles the building and organization of document tokens including numbering and hierarchy.
 
@@ -315,7 +323,7 @@ class TokenBuilder:
                 merged_tokens = self._concat_text_with_same_styles(merged_tokens)
             return merged_tokens
 
-        return recursive_process(copy.deepcopy(in_tokens))
+        return recursive_process(copy_tokens(in_tokens))
 
     def _manage_stack(self, token, stack, organized, parent_stack=None):
         """Helper function to manage stack operations for sections and paragraphs"""
-- 
2.43.0


From 4b07b97b7c15898e0b10049fa21634b1fc5f40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 073/169] fix: special characters in the name of a \\csname
 definition no longer fail

---
 latex2json/parser/handlers/new_definition.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 749ba9e..f8abf71 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -507,10 +507,13 @@ class NewDefinitionHandler(TokenHandler):
                         usage_suffix = USAGE_SUFFIX
                         if add_usage_suffix:
                             _, _, usage_suffix = token["usage_pattern"].partition(
-                                "\\" + first_inner.replace(" ", "")
+                                "\\" + re.escape(first_inner.replace(" ", ""))
                             )
                         inner_csname_regex = (
-                            r"\\csname" + first_inner + r"\\endcsname" + usage_suffix
+                            r"\\csname"
+                            + re.escape(first_inner)
+                            + r"\\endcsname"
+                            + usage_suffix
                         )
                         token["usage_pattern"] = (
                             token["usage_pattern"] + "|" + inner_csname_regex
-- 
2.43.0


From 7bf49eddef2103235d59e20bd1ca5df3f8c50289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 074/169] fix: arguments of \\def macros may have braces nested
 deeper than two levels

---
 latex2json/parser/handlers/new_definition.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index f8abf71..2976ed2 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -121,6 +121,13 @@ PATTERNS = {
 
 USAGE_SUFFIX = r"(?![a-zA-Z@])"
 
+# text with balanced braces, nested up to 8 times
+BALANCED_BRACES_PATTERN_STR = r"(?:[^{}\\]|\\.)*"
+for _ in range(8):
+    BALANCED_BRACES_PATTERN_STR = (
+        r"(?:[^{}\\]|\\.|\{%s\})*" % BALANCED_BRACES_PATTERN_STR
+    )
+
 
 def extract_and_concat_nested_csname(content: str) -> Tuple[str, int]:
     match = START_CSNAME_PATTERN.match(content)
@@ -586,7 +593,9 @@ class NewDefinitionHandler(TokenHandler):
             # Add the args pattern to capture delimiters and args e.g. {xxx} or x
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
             # Update regex to handle escaped braces and normal braces
-            args_part_pattern = r"\s*(?:\{((?:[^{}]|\\\{|\\\}|{[^{}]*})*)\}|([^\}]+?))"
+            args_part_pattern = r"\s*(?:\{(%s)\}|([^\}]+?))" % (
+                BALANCED_BRACES_PATTERN_STR
+            )
 
             current_pos = 0
             for param in re.finditer(r"#(\d+)", args):
-- 
2.43.0


From 54a7508028d9b4b30bbdc96bbd9c1d3da1703bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 075/169] fix: an unclosed brace is not taken as the argument
 of a \def macro

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 2976ed2..0a2c990 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -593,7 +593,7 @@ class NewDefinitionHandler(TokenHandler):
             # Add the args pattern to capture delimiters and args e.g. {xxx} or x
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
             # Update regex to handle escaped braces and normal braces
-            args_part_pattern = r"\s*(?:\{(%s)\}|([^\}]+?))" % (
+            args_part_pattern = r"\s*(?:\{(%s)\}|([^{}][^}]*?))" % (
                 BALANCED_BRACES_PATTERN_STR
             )
 
-- 
2.43.0


From 386948f8651bd920a18ef2ac3470c9331116ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:32 +0000
Subject: [PATCH 076/169] fix: searching a long formula for citations and
 references no longer takes quadratic time

---
 latex2json/parser/handlers/content_command.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index dfa83d1..6a39d4b 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -286,16 +286,16 @@ class ContentCommandHandler(TokenHandler):
     def search(self, content: str):
         pos = 0
         while pos < len(content):
-            search = re.search(GENERIC_COMMAND_PATTERN, content[pos:])
+            search = GENERIC_COMMAND_PATTERN.search(content, pos)
             if not search:
                 return None
 
-            current_pos = pos + search.start()
+            current_pos = search.start()
             for pattern_name, pattern in PATTERNS.items():
-                if pattern.match(content[current_pos:]):
+                if pattern.match(content, current_pos):
                     return current_pos
 
-            pos += search.end()
+            pos = search.end()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 465f9df47e2e4e91fe6a3c293994a7f22a589e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 077/169] fix: \\text outside formulas no longer leaves an
 empty list of styles on its token

---
 latex2json/parser/handlers/text_formatting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index b48ad2e..e87b8f6 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -152,7 +152,8 @@ class TextFormattingHandler(TokenHandler):
                     # Prepend parent styles before child styles
                     new_token_styles = token["styles"] + new_token_styles
                 # remove duplicates
-                new_token["styles"] = list(OrderedDict.fromkeys(new_token_styles))
+                if new_token_styles:
+                    new_token["styles"] = list(OrderedDict.fromkeys(new_token_styles))
                 return new_token, total_pos
             else:
                 token["content"] = inner_content
-- 
2.43.0


From 54429b01df821c9394892a6287d4bd279f7ffa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 078/169] fix: a comment line inside a paragraph no longer
 becomes a paragraph break

---
 latex2json/parser/tex_parser.py       | 2 +-
 latex2json/parser/tex_preprocessor.py | 2 +-
 latex2json/utils/tex_utils.py         | 8 +++++++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index d36a891..25db3e6 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -548,7 +548,7 @@ class LatexParser:
         handle_legacy_formatting: bool,
         preprocess: bool,
     ) -> List[Dict]:
-        content = strip_latex_comments(content)
+        content = strip_latex_comments(content, keep_lines=False)
 
         if preprocess:
             content = self.preprocess(content)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 90461eb..700462c 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -90,7 +90,7 @@ class LatexPreprocessor:
             tuple: (processed_content, list of definition tokens)
         """
         # 1. Strip comments
-        content = strip_latex_comments(content)
+        content = strip_latex_comments(content, keep_lines=False)
 
         # 2. Check for documentclass (only once at the start)
         end_pos, out_tokens = self._check_documentclass(content, file_dir)
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index afeaebd..2679ea1 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -342,12 +342,13 @@ COMMENT_OR_LITERAL_PATTERN = re.compile(
     r"|\\verb\*?(?P<delim>[^a-zA-Z*\s])[^\n]*?(?P=delim)"
     r"|\\(?:url|href)\s*\{[^{}\n]*\})"
     r"|\\."
+    r"|(?P<line>(?<![^\n])[^\S\n]*%[^\n]*(?:\n|\Z))"
     r"|(?P<comment>%[^\n]*)",
     re.DOTALL,
 )
 
 
-def strip_latex_comments(text: str) -> str:
+def strip_latex_comments(text: str, keep_lines: bool = True) -> str:
     r"""
     Remove all LaTeX comments while preserving escaped \% characters.
 
@@ -357,6 +358,8 @@ def strip_latex_comments(text: str) -> str:
 
     Args:
         text: Input LaTeX text
+        keep_lines: Leave an empty line for a line with nothing but a comment
+            (in LaTeX, such a line is gone and no paragraph break)
 
     Returns:
         Text with all comments removed.
@@ -378,6 +381,9 @@ def strip_latex_comments(text: str) -> str:
         if match.group("literal"):
             flush()
             out.append(match.group(0))
+        elif match.group("line"):
+            if keep_lines and match.group(0).endswith("\n"):
+                normal.append("\n")
         elif not match.group("comment"):
             normal.append(match.group(0))
     normal.append(text[pos:])
-- 
2.43.0


From e8dd6f6c6365befed758ff883e9edea9fdceb982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:03 +0000
Subject: [PATCH 079/169] fix: the content of a comment environment no longer
 disturbs the text after it

---
 latex2json/utils/tex_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 2679ea1..aa45ed1 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -341,6 +341,7 @@ COMMENT_OR_LITERAL_PATTERN = re.compile(
     r"(?P<literal>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
     r"|\\verb\*?(?P<delim>[^a-zA-Z*\s])[^\n]*?(?P=delim)"
     r"|\\(?:url|href)\s*\{[^{}\n]*\})"
+    r"|(?P<block>\\begin\s*\{comment\}.*?\\end\s*\{comment\})"
     r"|\\."
     r"|(?P<line>(?<![^\n])[^\S\n]*%[^\n]*(?:\n|\Z))"
     r"|(?P<comment>%[^\n]*)",
@@ -384,7 +385,7 @@ def strip_latex_comments(text: str, keep_lines: bool = True) -> str:
         elif match.group("line"):
             if keep_lines and match.group(0).endswith("\n"):
                 normal.append("\n")
-        elif not match.group("comment"):
+        elif not match.group("comment") and not match.group("block"):
             normal.append(match.group(0))
     normal.append(text[pos:])
     flush()
-- 
2.43.0


From 2c165844d072396ae549cf4cb25e969d26fd5814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:29 +0000
Subject: [PATCH 080/169] fix: delimited arguments of \\def macros may have
 brace groups in them

---
 latex2json/parser/handlers/new_definition.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 0a2c990..17501b2 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -597,6 +597,12 @@ class NewDefinitionHandler(TokenHandler):
                 BALANCED_BRACES_PATTERN_STR
             )
 
+            # an argument up to a delimiter can have brace groups anywhere in it
+            delimited_part_pattern = r"\s*(?:\{(%s)\}|((?:[^{}\\]|\\.|\{%s\})*?))" % (
+                BALANCED_BRACES_PATTERN_STR,
+                BALANCED_BRACES_PATTERN_STR,
+            )
+
             current_pos = 0
             for param in re.finditer(r"#(\d+)", args):
                 # Add everything before the parameter as escaped text
@@ -604,7 +610,10 @@ class NewDefinitionHandler(TokenHandler):
                 if before_param:
                     parts.append(re.escape(before_param))
 
-                parts.append(args_part_pattern)
+                is_delimited = args[param.end() : param.end() + 1] not in ("", "#")
+                parts.append(
+                    delimited_part_pattern if is_delimited else args_part_pattern
+                )
 
                 current_pos = param.end()
                 param_count += 1
-- 
2.43.0


From 8bdfeb72a26590a3921b0fb90f18fdf0a1bcea53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 081/169] fix: \\enditemx no longer counts as the end of \\item

---
 latex2json/parser/handlers/environment.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index e95d943..18fd85b 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -17,11 +17,11 @@ ENV_NAME_BRACE_PATTERN = r"\{([^}]*?)\}"
 
 # e.g. \list \endlist, \xxx \endxxx etc
 # make sure to tweak the '1' in end\1 to match the relevant regex group if combining with other patterns
-ENV_PAIR_PATTERN = r"\\((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1"
+ENV_PAIR_PATTERN = r"\\((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1(?![a-zA-Z@])"
 
 # Check for both \begin{xxx} and \xxx \endxxx e.g. \list \endlist, etc
 ENVIRONMENT_PATTERN = re.compile(
-    r"\\begin\s*%s|%s" % (ENV_NAME_BRACE_PATTERN, ENV_PAIR_PATTERN[:-1] + "2"),
+    r"\\begin\s*%s|%s" % (ENV_NAME_BRACE_PATTERN, ENV_PAIR_PATTERN.replace(r"\1", r"\2")),
     re.DOTALL,
 )
 
@@ -282,7 +282,9 @@ class BaseEnvironmentHandler(TokenHandler):
                 )
 
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\" + env_name, r"\\end" + env_name
+                    content,
+                    r"\\" + env_name + r"(?![a-zA-Z@])",
+                    r"\\end" + env_name + r"(?![a-zA-Z@])",
                 )
                 if env_name == "@float":
                     # e.g. \@float{table} -> \begin{@float}{table} -> \begin{table}
-- 
2.43.0


From e458984717ddf6238dd8067040cf0a4de31f490f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:34 +0000
Subject: [PATCH 082/169] fix: keep a percent sign of a url in preprocessed
 documents

---
 latex2json/parser/tex_preprocessor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 700462c..2e5878e 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -47,6 +47,9 @@ ALL_VERBATIM_PATTERNS.append(
 
 DELIM_PATTERN_WITH_QUOTES = re.compile(DELIM_PATTERN.pattern + r"|`")
 
+# url with a %, which is no comment
+URL_WITH_PERCENT_PATTERN = re.compile(r"\\(?:url|href)\s*\{[^{}\n]*%[^{}\n]*\}")
+
 QUOTE_PATTERNS = {
     "double_quotes": re.compile(
         r"``(.*?)''", re.DOTALL
@@ -219,7 +222,7 @@ class LatexPreprocessor:
 
             # code blocks are kept as they are
             verbatim_end = 0
-            for pattern in VERBATIM_PATTERNS.values():
+            for pattern in (*VERBATIM_PATTERNS.values(), URL_WITH_PERCENT_PATTERN):
                 match = pattern.match(content[current_pos:])
                 if match:
                     verbatim_end = match.end()
-- 
2.43.0


From d0729a2f6e4c13f9037a5624acc5934bea8505e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:39 +0000
Subject: [PATCH 083/169] fix: BibTeX comments are no bibliography entries

---
 latex2json/parser/bib/bibtex_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 77a744f..d019ca0 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -106,6 +106,8 @@ class BibTexParser:
             if match.start() < entry_end:
                 continue  # text of the previous entry e.g. an address in a note
             entry_type = match.group(1).lower()
+            if entry_type in ("comment", "preamble", "string"):
+                continue  # not an entry
             start_pos = match.end() - 1  # Position of the opening brace
 
             # Get everything inside the braces
-- 
2.43.0


From 33a55add47d8ae7a7ceb00faa08676ea4fcebcfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:08 +0000
Subject: [PATCH 084/169] fix: keep the argument of an unknown command in a
 table cell

---
 latex2json/parser/tex_parser.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 25db3e6..e5304e6 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -706,6 +706,17 @@ class LatexParser:
                                 f"*****(Again) Unknown command token: {token}*****"
                             )
                     continue
+            else:
+                # keep its argument as it is, it is only handled later
+                match = UNKNOWN_COMMAND_PATTERN.match(content[current_pos:])
+                if match and match.group(0).endswith("{"):
+                    start_pos = current_pos + match.end() - 1
+                    inner_content, end_pos = extract_nested_content(content[start_pos:])
+                    if inner_content is not None:
+                        end_pos += start_pos
+                        self.add_token(content[current_pos:end_pos], tokens)
+                        current_pos = end_pos
+                        continue
 
             self.add_token(content[current_pos], tokens)
             current_pos += 1
-- 
2.43.0


From d3b23d5fdb6c80607988f054570802feb49f15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 085/169] fix: spanning cells of nested tables and text next to
 \\multirow or \\makecell are kept

---
 latex2json/parser/handlers/tabular.py | 74 +++++++++++++++++++--------
 1 file changed, 52 insertions(+), 22 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 7ed7034..150b8cc 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -32,6 +32,24 @@ MAKECELL_SHORTSTACK_PATTERN = re.compile(
 )
 
 
+def search_structure(pattern: re.Pattern, content: str, pos: int = 0):
+    """Find the next multicolumn, multirow or makecell, except those of nested tables"""
+    while True:
+        match = pattern.search(content, pos)
+        if not match:
+            return None
+        table = TABULAR_PATTERN.search(content, pos)
+        if not table or table.start() > match.start():
+            return match
+        pos = table.end()
+        if table.group(1):
+            env_type = table.group(0).split("{")[1].rstrip("}")
+            _, end_pos, _ = find_matching_env_block(
+                content[table.start() :], env_type
+            )
+            pos = max(pos, table.start() + end_pos)
+
+
 def split_latex_content(
     content: str, delimiter: str, is_row_split: bool = False
 ) -> List[str]:
@@ -117,13 +135,31 @@ def split_cells(row: str) -> List[str]:
     out_cells = []
     for cell in cells:
         if cell:
-            match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
-            if match:
-                cell, end_pos = extract_nested_content(cell[match.end() - 1 :])
+            match = search_structure(MAKECELL_SHORTSTACK_PATTERN, cell)
+            while match:
+                start_pos = match.end() - 1
+                inner, end_pos = extract_nested_content(cell[start_pos:])
+                if inner is None:
+                    break
+                # only the command is replaced, not what is next to it
+                cell = cell[: match.start()] + inner + cell[start_pos + end_pos :]
+                match = search_structure(
+                    MAKECELL_SHORTSTACK_PATTERN, cell, match.start()
+                )
         out_cells.append(cell)
     return out_cells
 
 
+def replace_structure(content: str, match: re.Match) -> str:
+    """Replace a multicolumn or multirow command with what it holds"""
+    start_pos = match.end() - 1
+    blocks, end_pos = extract_nested_content_sequence_blocks(
+        content[start_pos:], max_blocks=2
+    )
+    inner = blocks[-1].strip() if blocks else ""
+    return (content[: match.start()] + inner + content[start_pos + end_pos :]).strip()
+
+
 def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
     """
     Parse LaTeX table into structured format with rows and cells containing content and span information
@@ -152,24 +188,16 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
                 rowspan = 1
 
                 # Handle multicolumn first
-                mcol_match = MULTICOLUMN_PATTERN.search(content)
+                mcol_match = search_structure(MULTICOLUMN_PATTERN, content)
                 if mcol_match:
                     colspan = int(mcol_match.group(1))
-                    start_pos = mcol_match.end() - 1
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
-                    )
-                    content = blocks[-1].strip() if blocks else ""
+                    content = replace_structure(content, mcol_match)
 
                 # Then handle multirow within the content
-                mrow_match = MULTIROW_PATTERN.search(content)
+                mrow_match = search_structure(MULTIROW_PATTERN, content)
                 if mrow_match:
                     rowspan = int(mrow_match.group(1))
-                    start_pos = mrow_match.end() - 1
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
-                    )
-                    content = blocks[-1].strip() if blocks else ""
+                    content = replace_structure(content, mrow_match)
 
                 # Create cell structure
                 parsed_content = cell_parser_fn(content) if cell_parser_fn else content
@@ -215,11 +243,11 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
     for pattern, block_count in patterns.items():
         pos = 0
         while True:
-            match = pattern.search(current_content[pos:])
+            match = search_structure(pattern, current_content, pos)
             if not match:
                 break
 
-            start_pos = pos + match.end() - 1
+            start_pos = match.end() - 1
             blocks, end_pos = extract_nested_content_sequence_blocks(
                 current_content[start_pos:], max_blocks=block_count
             )
@@ -232,9 +260,11 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
             ref_key = f"`|TABLE_STRUCT_{ref_counter}|`"
             ref_counter += 1
 
-            original_content = current_content[
-                pos + match.start() : start_pos + end_pos
-            ]
+            original_content = current_content[match.start() : start_pos + end_pos]
+            for inner_key, structure in reference_map.items():
+                original_content = original_content.replace(
+                    inner_key, structure["content"]
+                )
             reference_map[ref_key] = {
                 "type": "table_structure",
                 "content": original_content,
@@ -242,12 +272,12 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
 
             # Replace content with reference
             current_content = (
-                current_content[: pos + match.start()]
+                current_content[: match.start()]
                 + ref_key
                 + current_content[start_pos + end_pos :]
             )
 
-            pos += match.start() + len(ref_key)
+            pos = match.start() + len(ref_key)
 
     return current_content, reference_map
 
-- 
2.43.0


From 84d8af7ad2011a27f36edf42097d5d168ad8813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:53 +0000
Subject: [PATCH 086/169] fix: spanning cells and \\makecell inside other
 commands of a cell are kept

---
 latex2json/parser/handlers/tabular.py | 93 +++++++++++++++++++++++----
 1 file changed, 82 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 150b8cc..4ddf22c 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -27,6 +27,8 @@ MULTIROW_PATTERN = re.compile(
 TABULARNEWLINE_PATTERN = re.compile(r"\\tabularnewline(?![a-zA-Z])")
 
 
+STRUCTURE_KEY_PATTERN = re.compile(r"(`\|TABLE_STRUCT_\d+\|`)")
+
 MAKECELL_SHORTSTACK_PATTERN = re.compile(
     r"\\(?:makecell|shortstack)(?:\s*\[[^\]]*\])?\s*{", re.DOTALL
 )
@@ -129,23 +131,27 @@ def split_rows(latex_table: str) -> List[str]:
     return split_latex_content(latex_table, r"\\", is_row_split=True)
 
 
+def unwrap_makecells(cell: str) -> str:
+    """Replace the makecell and shortstack commands with what they hold"""
+    match = search_structure(MAKECELL_SHORTSTACK_PATTERN, cell)
+    while match:
+        start_pos = match.end() - 1
+        inner, end_pos = extract_nested_content(cell[start_pos:])
+        if inner is None:
+            break
+        # only the command is replaced, not what is next to it
+        cell = cell[: match.start()] + inner + cell[start_pos + end_pos :]
+        match = search_structure(MAKECELL_SHORTSTACK_PATTERN, cell, match.start())
+    return cell
+
+
 def split_cells(row: str) -> List[str]:
     """Split row into cells while respecting nested structures."""
     cells = split_latex_content(row, "&", is_row_split=False)
     out_cells = []
     for cell in cells:
         if cell:
-            match = search_structure(MAKECELL_SHORTSTACK_PATTERN, cell)
-            while match:
-                start_pos = match.end() - 1
-                inner, end_pos = extract_nested_content(cell[start_pos:])
-                if inner is None:
-                    break
-                # only the command is replaced, not what is next to it
-                cell = cell[: match.start()] + inner + cell[start_pos + end_pos :]
-                match = search_structure(
-                    MAKECELL_SHORTSTACK_PATTERN, cell, match.start()
-                )
+            cell = unwrap_makecells(cell)
         out_cells.append(cell)
     return out_cells
 
@@ -313,6 +319,67 @@ class TabularHandler(BaseEnvironmentHandler):
             content = self.cell_parser_fn(content)
         return self._clean_cell(content)
 
+    def _restore_structures(self, value, structures: Dict[str, Dict], spans: List):
+        """Put back the structures inside a token, e.g. \\textbf{\\multirow{2}{*}{x}}
+
+        The commands that make the cell span rows or columns are added to spans
+        """
+        if isinstance(value, str):
+            for ref_key, structure in structures.items():
+                value = value.replace(ref_key, structure["content"])
+            return value
+        if isinstance(value, dict):
+            return {
+                k: self._restore_structures(v, structures, spans)
+                for k, v in value.items()
+            }
+        if not isinstance(value, list):
+            return value
+
+        out = []
+        for token in value:
+            content = token.get("content") if isinstance(token, dict) else None
+            if not isinstance(content, str) or token.get("type") != "text":
+                out.append(self._restore_structures(token, structures, spans))
+                continue
+            for part in STRUCTURE_KEY_PATTERN.split(content):
+                structure = structures.get(part)
+                if not structure:
+                    if part:
+                        out.append({**token, "content": part})
+                    continue
+                source = structure["content"]
+                for pattern in (MULTICOLUMN_PATTERN, MULTIROW_PATTERN):
+                    match = search_structure(pattern, source)
+                    if match:
+                        spans.append(match.group(0)[:-1])
+                        source = replace_structure(source, match)
+                source = unwrap_makecells(source)
+                for inner in self.cell_parser_fn(source) if self.cell_parser_fn else []:
+                    styles = token.get("styles", []) + inner.get("styles", [])
+                    if styles:
+                        inner = {**inner, "styles": list(dict.fromkeys(styles))}
+                    out.append(inner)
+        return out
+
+    def _restore_structures_in_tokens(
+        self, tokens: List[Dict] | str, structures: Dict[str, Dict]
+    ):
+        if isinstance(tokens, str) or not structures:
+            return tokens
+        out = []
+        for token in tokens:
+            if token["type"] == "text" and "styles" not in token:
+                out.append(token)
+                continue
+            spans = []
+            restored = self._restore_structures([token], structures, spans)
+            opening = "".join(span + "{*}{" for span in spans)
+            out.append({"type": "text", "content": opening})
+            out.extend(restored)
+            out.append({"type": "text", "content": "}" * len(spans)})
+        return out
+
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
@@ -387,6 +454,10 @@ class TabularHandler(BaseEnvironmentHandler):
                 else inner_content
             )
 
+            processed_content = self._restore_structures_in_tokens(
+                processed_content, table_structures
+            )
+
             # then flatten it out to text form and pass it to parse_tabular
             flattened_content, reference_map = flatten_tokens(processed_content)
 
-- 
2.43.0


From 16bc1ccb6d86efa94f62a20fbfb4963cb665a034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:41 +0000
Subject: [PATCH 087/169] fix: what directly follows a line break is kept in
 preprocessed documents

---
 latex2json/parser/tex_preprocessor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 2e5878e..ce41efb 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -239,6 +239,11 @@ class LatexPreprocessor:
                 )
                 continue
 
+            # a line break is one command, what follows does not start at its second \\
+            if content.startswith("\\\\", current_pos):
+                current_pos += 2
+                continue
+
             # check math mode to ignore expansion of math mode commands
             if self.equation_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.equation_handler.handle(content[current_pos:])
-- 
2.43.0


From eaddfadf3a54f080b545a4911c3dee03c816abf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 088/169] fix: a switch does not match the longer name of
 another one

---
 latex2json/parser/handlers/if_else_statements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 0078409..aff7176 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -203,7 +203,9 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?")
+        pattern = re.compile(
+            r"\\if" + re.escape(var_name) + r"(?:true|false)?(?![a-zA-Z@])"
+        )
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
-- 
2.43.0


From 24f5061a5e8ea78dec93170434948f874a03b2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 089/169] fix: \\iff, \\newif and conditionals without \\fi do
 not disturb the conditional around them

---
 .../parser/handlers/if_else_statements.py     | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index aff7176..ab87019 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -36,12 +36,20 @@ ifx_pattern = re.compile(
 )
 
 
-IF_PATTERN = re.compile(r"\\(?:@)?if%s" % (default_if_pattern))
-ELSE_PATTERN = re.compile(r"\\else\b")
+# \\if... that is no conditional, or takes its branches as arguments, has no \\fi
+no_fi_pattern = (
+    r"(?:if(?:f|thenelse|bool|toggle|def|undef|csdef|csundef|defempty|defvoid"
+    r"|strequal|strempty|blank|numcomp|dimcomp)|IfFileExists"
+    r"|@if(?:undefined|star|nextchar|classloaded|packageloaded))(?![a-zA-Z@])"
+)
+NO_FI_PATTERN = re.compile(r"\\" + no_fi_pattern)
+
+IF_PATTERN = re.compile(r"\\(?!%s)(?:@)?if%s" % (no_fi_pattern, default_if_pattern))
+ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z@])")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
 )  # Matches both \elsif and \elseif
-FI_PATTERN = re.compile(r"\\fi\b")
+FI_PATTERN = re.compile(r"\\fi(?![a-zA-Z@])")
 
 value_pattern = r"\\value\s*{\s*([a-zA-Z@]+)\s*}"
 numbered_command_pattern = r"\\([a-zA-Z@]+)(\d+)"
@@ -80,6 +88,21 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
 )
 
 
+def search_nested_if(content: str, start_delimiter: re.Pattern) -> Optional[re.Match]:
+    """Find the next conditional that is closed by a \\fi"""
+    pos = 0
+    while True:
+        match = start_delimiter.search(content, pos)
+        if not match:
+            return None
+        start = match.start()
+        if not NO_FI_PATTERN.match(content, start) and not content[
+            max(0, start - 20) : start
+        ].rstrip().endswith("\\newif"):
+            return match
+        pos = start + 1
+
+
 def extract_else_elseif_fi(
     content: str,
     start_delimiter: re.Pattern = IF_PATTERN,
@@ -97,7 +120,7 @@ def extract_else_elseif_fi(
 
     while pos < content_length and nesting_level > 0:
         # Find all possible next matches
-        start_match = start_delimiter.search(content[pos:])
+        start_match = search_nested_if(content[pos:], start_delimiter)
         end_match = end_delimiter.search(content[pos:])
         else_match = else_delimiter.search(content[pos:])
         elsif_match = elsif_delimiter.search(content[pos:])
-- 
2.43.0


From cf7a0cba5229cd60bd66056ec668f2eabdc271a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:51 +0000
Subject: [PATCH 090/169] fix: \\ifbool and \\notbool keep the content of their
 branch

---
 latex2json/parser/packages/etoolbox.py | 5 +++++
 latex2json/parser/tex_parser.py        | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/latex2json/parser/packages/etoolbox.py b/latex2json/parser/packages/etoolbox.py
index 623ac22..d055f2d 100644
--- a/latex2json/parser/packages/etoolbox.py
+++ b/latex2json/parser/packages/etoolbox.py
@@ -67,6 +67,11 @@ class EtoolboxHandler(TokenHandler):
             "true_code": true_code,
             "false_code": false_code,
             "is_not": is_not,
+            "branch": (
+                "true_code"
+                if self.bool_definitions.get(bool_name, True)
+                else "false_code"
+            ),
         }
 
         return token, start_pos + end_pos
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index e5304e6..cbe3cfc 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -389,6 +389,10 @@ class LatexParser:
                     if input_tokens:
                         tokens.extend(input_tokens)
                 return
+            elif token["type"] == "bool_conditional":
+                # like for other conditionals, only one branch is processed
+                tokens.extend(self.parse(token[token["branch"]]))
+                return
             elif token["type"] in ["footnote", "caption"]:
                 prev_env = self.current_env
                 self.current_env = token
-- 
2.43.0


From cca37426236ef20b1580b07f40ae99aeca4c3c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 091/169] fix: \\IfFileExists is a conditional with its
 branches as arguments

---
 latex2json/parser/handlers/if_else_statements.py | 2 ++
 latex2json/parser/sty_parser.py                  | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index ab87019..797392e 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -320,6 +320,8 @@ class IfElseBlockHandler(TokenHandler):
                     return self._handle_atif(content, match, name)
                 elif name == "@ifstar":
                     return self._handle_ifstar(content, match)
+                elif name == "iffileexists":
+                    return self._handle_iffileexists(content, match)
                 # elif name == "equal":
                 #     start_pos = match.end() - 1
                 #     blocks, end_pos = extract_nested_content_sequence_blocks(
diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index f9672e1..e13fe4c 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -119,10 +119,8 @@ class LatexStyParser:
                 block = ""
                 if token:
                     typing = token.get("type", "")
-                    if "@" not in typing:
-                        block = token.get("if_content", "")
                     # Handle iffileexists condition
-                    elif typing == "conditional-iffileexists":
+                    if typing == "conditional-iffileexists":
                         block = token.get("else_content", "")
 
                         file_path = token.get("condition", "").strip()
@@ -133,6 +131,8 @@ class LatexStyParser:
                                 )
                             if os.path.exists(file_path):
                                 block = token.get("if_content", "")
+                    elif "@" not in typing:
+                        block = token.get("if_content", "")
                 return block, current_pos + end_pos
         return None, current_pos
 
-- 
2.43.0


From 9ab90f5f5ab5b6f07d77b6792b48402ad6ad8b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:59 +0000
Subject: [PATCH 092/169] fix: a font declaration does not match the longer
 name of another

---
 latex2json/parser/handlers/legacy_formatting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index c5a5d2c..a54cbd0 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -214,7 +214,10 @@ class LegacyFormattingHandler(TokenHandler):
 
                     # if exact match detected, we remove it because it acts like a off switch
                     # e.g. \em some italic text ... \em no longer italic
-                    if command and re.match(r"\\" + command, content[total_pos:]):
+                    if command and re.match(
+                        r"\\" + re.escape(command) + r"(?![a-zA-Z])",
+                        content[total_pos:],
+                    ):
                         total_pos += len(command) + 1
 
                     return formatted_text, total_pos
-- 
2.43.0


From 0364d292d785d9178ef541968ba7d54173bcdc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:04 +0000
Subject: [PATCH 093/169] fix: a subparagraph belongs to its paragraph inside
 of a section too

---
 latex2json/structure/builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index d9e70e7..f0be35d 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -333,9 +333,9 @@ class TokenBuilder:
 
         # Determine where to add the token
         target = (
-            parent_stack[-1]["content"]
-            if parent_stack
-            else (stack[-1]["content"] if stack else organized)
+            stack[-1]["content"]
+            if stack
+            else (parent_stack[-1]["content"] if parent_stack else organized)
         )
         target.append(token)
 
-- 
2.43.0


From 572984e7f8340806b29f685c896fda71d7b7ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:42 +0000
Subject: [PATCH 094/169] fix: special characters and rows in a branch of
 \ifbool inside of a table

---
 latex2json/parser/tex_parser.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index cbe3cfc..40b15ec 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -40,9 +40,15 @@ from latex2json.parser.patterns import (
     DELIM_PATTERN,
 )
 from latex2json.parser.packages import get_all_custom_handlers
+from latex2json.parser.packages.etoolbox import (
+    EtoolboxHandler,
+    PATTERNS as ETOOLBOX_PATTERNS,
+)
 
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
+BOOL_CONDITIONAL_PATTERN = ETOOLBOX_PATTERNS["ifnotbool"]
+
 # deeper nesting would exceed the recursion limit
 MAX_PARSE_DEPTH = 100
 
@@ -111,6 +117,10 @@ class LatexParser:
             # self.legacy_formatting_handler,
         ]
 
+        self.etoolbox_handler = next(
+            h for h in self.handlers if isinstance(h, EtoolboxHandler)
+        )
+
         # Add preprocessor
         self.preprocessor = LatexPreprocessor(logger=self.logger)
 
@@ -389,10 +399,6 @@ class LatexParser:
                     if input_tokens:
                         tokens.extend(input_tokens)
                 return
-            elif token["type"] == "bool_conditional":
-                # like for other conditionals, only one branch is processed
-                tokens.extend(self.parse(token[token["branch"]]))
-                return
             elif token["type"] in ["footnote", "caption"]:
                 prev_env = self.current_env
                 self.current_env = token
@@ -653,6 +659,13 @@ class LatexParser:
                     )
                     continue
 
+            # check for \\ifbool, where one branch is kept as for other conditionals
+            if BOOL_CONDITIONAL_PATTERN.match(content[current_pos:]):
+                token, end_pos = self.etoolbox_handler.handle(content[current_pos:])
+                block = token[token["branch"]] if token else ""
+                content = content[:current_pos] + block + content[current_pos + end_pos :]
+                continue
+
             # check if legacy formatting
             if handle_legacy_formatting and self.legacy_formatting_handler.can_handle(
                 content[current_pos:]
-- 
2.43.0


From 538d38ff826466af3962ec699d5d4cfc121072c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:25 +0000
Subject: [PATCH 095/169] fix: a digit after a macro parameter is not part of
 its number

---
 latex2json/parser/handlers/new_definition.py | 6 +++---
 latex2json/utils/tex_utils.py                | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 17501b2..1b06497 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -22,7 +22,7 @@ DEF_COMMAND_PREFIX = r"(?:\\long)?\\(?:e|g|x)?def\s*\\"
 LET_COMMAND_PREFIX = r"\\(?:future)?let\s*\\"
 
 DEF_COMMAND_PATTERN = re.compile(
-    r"%s([^\s{#]+)(((?:#\d+|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
+    r"%s([^\s{#]+)(((?:#\d|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
 )
 # \let copies a single token, what follows that token is not part of it
 LET_COMMAND_PATTERN = re.compile(
@@ -575,7 +575,7 @@ class NewDefinitionHandler(TokenHandler):
         parts = []
         param_count = 0
 
-        arg_start = re.search(r"#(\d+)", pattern)
+        arg_start = re.search(r"#(\d)", pattern)
         if arg_start:
             start_pos = arg_start.start()
             # first, we split the pattern into pre_arg and args
@@ -604,7 +604,7 @@ class NewDefinitionHandler(TokenHandler):
             )
 
             current_pos = 0
-            for param in re.finditer(r"#(\d+)", args):
+            for param in re.finditer(r"#(\d)", args):
                 # Add everything before the parameter as escaped text
                 before_param = args[current_pos : param.start()]
                 if before_param:
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index aa45ed1..1b27233 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -511,9 +511,9 @@ def extract_args(content: str, req_args=0, opt_args=0):
     return {"req": req, "opt": opt}, end_pos
 
 
-NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)(\d+)")
+NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)(\d)")
 
-HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)(\d+)")
+HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)(\d)")
 
 
 def check_string_has_hash_number(text: str) -> bool:
-- 
2.43.0


From 31ffc80f9869f8eed3a97f505469346e99f02616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:41 +0000
Subject: [PATCH 096/169] fix: commands in the author of a previous entry
 survive \\bysame

---
 latex2json/parser/bib/bibitem_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 8beaff1..eefd98c 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -44,7 +44,7 @@ class BibItemParser:
                     # Extract author part from previous entry (up to first comma)
                     author_part = previous_content.split(",")[0]
                     if author_part:
-                        item = bysame_pattern.sub(author_part, item)
+                        item = bysame_pattern.sub(lambda _: author_part, item)
 
                 entry = BibTexEntry(
                     citation_key=match.group(2).strip(),
-- 
2.43.0


From d9b09a390b902798a1a443cdc3b74182a2c0f5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 097/169] fix: \\providecommand and \\let see definitions with
 arguments in preprocessing

---
 latex2json/parser/tex_preprocessor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index ce41efb..cafb46f 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -296,6 +296,16 @@ class LatexPreprocessor:
                     current_pos += end_pos
                     continue
                 cmd_name = token.get("name", "")
+                is_let = token.get("type", "") == "let"
+                if (token.get("is_provide", False) and cmd_name in left_in_content) or (
+                    is_let and token["content"].strip()[1:] in left_in_content
+                ):
+                    # it depends on a definition that only the parser handles
+                    if is_let:
+                        self.command_manager.forget_command(cmd_name)
+                    left_in_content.add(cmd_name)
+                    current_pos += end_pos
+                    continue
                 is_redefinition = (
                     self.command_manager.has_command(cmd_name)
                     or cmd_name in left_in_content
-- 
2.43.0


From c02dcfdf52bc8b9568bfa5ec89b1fc2f4b4f3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 098/169] fix: \\xdef expands its definition at once, like
 \\edef

---
 latex2json/parser/handlers/new_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 1b06497..49f9891 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -544,7 +544,9 @@ class NewDefinitionHandler(TokenHandler):
         if definition is None:
             return None, start_pos
 
-        is_edef = r"\edef" in content[: match.start(1) or match.start(2)]
+        is_edef = bool(
+            re.search(r"\\[ex]def", content[: match.start(1) or match.start(2)])
+        )
 
         # Get command name (will be clean now, without parameters)
         cmd_name = match.group(1) or match.group(2)
-- 
2.43.0


From b4a6db0440d8c4bbaf13c7985999ad0bac7cde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:06 +0000
Subject: [PATCH 099/169] fix: \\let copies the definition of a command without
 arguments as it stands

---
 latex2json/parser/handlers/command_processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index aa97bbd..c152a54 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -149,7 +149,7 @@ class CommandProcessor:
         prefix = re.escape(original)
         if (
             entry
-            and entry.get("num_args", 0) > 0
+            and entry.get("num_args") is not None
             and entry["pattern"].pattern.startswith(prefix)
         ):
             copied_pattern = (
-- 
2.43.0


From 7e7818364b39634103cc167a2cb7628147d8e19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 100/169] fix: \\let and \\edef of redefined commands in
 preprocessing

---
 latex2json/parser/handlers/command_manager.py |  4 +++
 latex2json/parser/tex_preprocessor.py         | 34 +++++++++++++++----
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 8793538..878f0f6 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -166,6 +166,10 @@ class CommandManager(TokenHandler):
             or self.keyval_handler.can_handle(content)
         )
 
+    def get_definition(self, cmd_name: str) -> str:
+        """Get what a command stands for, as far as it is known"""
+        return self.processor.get_commands().get(cmd_name, {}).get("definition", "")
+
     def has_command(self, cmd_name: str) -> bool:
         return self.processor.has_command(cmd_name)
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index cafb46f..adf771e 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -32,6 +32,8 @@ from latex2json.utils.expansion_guard import ExpansionGuard
 
 ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\cmd{...}
 
+COMMAND_NAME_PATTERN = re.compile(r"\\([a-zA-Z@]+)")
+
 ALL_VERBATIM_PATTERNS = list(VERBATIM_PATTERNS.values())
 ALL_VERBATIM_PATTERNS.append(
     re.compile(r"\\begin\s*\{algorithm\}(.*?)\\end\s*\{algorithm\}", re.DOTALL)
@@ -296,13 +298,15 @@ class LatexPreprocessor:
                     current_pos += end_pos
                     continue
                 cmd_name = token.get("name", "")
-                is_let = token.get("type", "") == "let"
-                if (token.get("is_provide", False) and cmd_name in left_in_content) or (
-                    is_let and token["content"].strip()[1:] in left_in_content
-                ):
-                    # it depends on a definition that only the parser handles
-                    if is_let:
-                        self.command_manager.forget_command(cmd_name)
+                if token.get("is_provide", False) and cmd_name in left_in_content:
+                    # has no effect
+                    current_pos += end_pos
+                    continue
+                if (
+                    token.get("type", "") == "let" or token.get("is_edef", False)
+                ) and self._depends_on(token["content"], left_in_content):
+                    # it copies a definition that only the parser handles
+                    self.command_manager.forget_command(cmd_name)
                     left_in_content.add(cmd_name)
                     current_pos += end_pos
                     continue
@@ -312,6 +316,7 @@ class LatexPreprocessor:
                 )
                 self._process_new_definition_token(token)
                 if is_redefinition:
+                    left_in_content.add(cmd_name)
                     # The parser starts with the first definition (for math blocks),
                     # so leave this one where it is: it only counts from here on
                     current_pos += end_pos
@@ -380,6 +385,21 @@ class LatexPreprocessor:
 
         return content, tokens
 
+    def _depends_on(self, content: str, names: set) -> bool:
+        """Check if commands in the content, or in their definitions, are among names"""
+        seen = set()
+        pending = COMMAND_NAME_PATTERN.findall(content) if names else []
+        while pending:
+            name = pending.pop()
+            if name in names:
+                return True
+            if name not in seen:
+                seen.add(name)
+                pending += COMMAND_NAME_PATTERN.findall(
+                    self.command_manager.get_definition(name)
+                )
+        return False
+
     def _extract_verbatim_blocks(self, content: str) -> tuple[str, dict]:
         """
         Extracts verbatim environments from the content and replaces them with placeholders.
-- 
2.43.0


From 59e394d1f877ebfac7e5af4f0b1cfe05c7ab5b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:00 +0000
Subject: [PATCH 101/169] fix: \\let replaces an earlier definition

---
 latex2json/parser/handlers/command_processor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index c152a54..8805060 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -158,10 +158,10 @@ class CommandProcessor:
             # the name may also be written as \csname name\endcsname
             _, sep, csname_pattern = usage_pattern.partition("|")
             copied_pattern += sep + csname_pattern
-            self.let_commands[command_name] = {
-                **entry,
-                "pattern": re.compile(copied_pattern, re.DOTALL),
-            }
+            self._set_command(
+                command_name,
+                {**entry, "pattern": re.compile(copied_pattern, re.DOTALL)},
+            )
             return
 
         # for let, we evaluate the definition right way
@@ -179,6 +179,8 @@ class CommandProcessor:
                 "definition": definition,
             }
             self.let_commands[command_name] = command
+            # an earlier definition no longer applies
+            self.commands.pop(command_name, None)
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
             raise e
-- 
2.43.0


From 61e8e06f4fa02817fbe706b7ec5fa04ff6824422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:35 +0000
Subject: [PATCH 102/169] fix: commands whose name starts with that of a layout
 command

---
 latex2json/parser/handlers/content_command.py |  2 +-
 latex2json/parser/handlers/formatting.py      | 23 ++++++++++---------
 latex2json/parser/handlers/text_formatting.py |  2 +-
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 6a39d4b..f4decd4 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -48,7 +48,7 @@ RAW_PATTERNS = OrderedDict(
             % OPTIONAL_BRACE_PATTERN,
         ),
         # footnotes
-        ("footnotemark", r"\\footnotemark%s" % OPTIONAL_BRACE_PATTERN),
+        ("footnotemark", r"\\footnotemark(?![a-zA-Z])%s" % OPTIONAL_BRACE_PATTERN),
         ("footnotetext", r"\\footnotetext%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # URLs
         ("url", r"\\(?:url|path)\s*{"),
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index c5ee80b..118f616 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -81,7 +81,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "pagebreak",
-            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?:\[\d+\])?",
+            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
         ),
         (
             "vskip",
@@ -120,13 +120,14 @@ RAW_PATTERNS = OrderedDict(
             "margins",
             r"\\(?:rightmargin|leftmargin)\b|"
             + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)"
-            + r"\s*(\=?\s*(?:%s))?" % (number_points_suffix),
+            + r"(?![a-zA-Z])\s*(\=?\s*(?:%s))?" % (number_points_suffix),
         ),
         ("indent", r"\\indent\b"),
         (
             "lineskip",
             r"\\lineskip\s*%s" % (number_points_suffix)
-            + r"|(%s)?\\baselineskip(?:\s*%s)?" % (number_regex, number_points_suffix),
+            + r"|(%s)?\\baselineskip(?![a-zA-Z])(?:\s*%s)?"
+            % (number_regex, number_points_suffix),
         ),
         # width
         (
@@ -137,7 +138,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "spacing",
             r"\\(?:"
-            r"quad|qquad|xspace|space|,|;|:|\!|"  # \quad, \qquad, \, \; \:
+            r"(?:quad|qquad|xspace|space)(?![a-zA-Z])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
             r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
             r"hskip\s*%s" % (number_points_suffix)  # \hskip 10pt
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
@@ -203,14 +204,14 @@ RAW_PATTERNS = OrderedDict(
             r"centerline\b|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
             r"topsep\b|parsep\b|partopsep\b|"
-            r"labelsep\s*\{?([^\}]*)\}?|"
-            + r"(?:midrule|toprule|bottomrule)%s|"
+            r"labelsep(?![a-zA-Z])\s*\{?([^\}]*)\}?|"
+            + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
-            r"hdashline(?:\[[\d,\s]*\])?|"  # optional [length,space]
+            r"hdashline(?![a-zA-Z])(?:\[[\d,\s]*\])?|"  # optional [length,space]
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
-            r"addlinespace(?:\[([^\]]*)\])?|"  # optional [length]
+            r"addlinespace(?![a-zA-Z])(?:\[([^\]]*)\])?|"  # optional [length]
             r"rule\s*{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
             r"hrule\b|"
             r"morecmidrules\b|"  # no args
@@ -224,10 +225,10 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "rulewidth",
-            r"\\(?:arrayrulewidth|heavyrulewidth|overfullrule)(?:\s*=?\s*%s(?:\w+)?)?"
+            r"\\(?:arrayrulewidth|heavyrulewidth|overfullrule)(?![a-zA-Z])(?:\s*=?\s*%s(?:\w+)?)?"
             % number_regex,
         ),
-        ("paper", r"\\(?:paperwidth|paperheight)(?:\s*=\s*%s(?:\w+)?)?" % number_regex),
+        ("paper", r"\\(?:paperwidth|paperheight)(?![a-zA-Z])(?:\s*=\s*%s(?:\w+)?)?" % number_regex),
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
@@ -260,7 +261,7 @@ RAW_PATTERNS = OrderedDict(
         ("@empty", r"\\@empty(?![a-zA-Z@])"),
         (
             "advance",
-            r"\\(?:advance|divide|multiply)(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
+            r"\\(?:advance|divide|multiply)(?![a-zA-Z])(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
         ),
         ("typeout", r"\\typeout\s*{"),
         # other...
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index e87b8f6..cefe6c7 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -65,7 +65,7 @@ PATTERNS = {
     "frac": re.compile(r"\\(?:frac|nicefrac|textfrac)\s*\{", re.DOTALL),
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
-    "columns": re.compile(r"\\(?:onecolumn\b|twocolumn\s*\[?)"),
+    "columns": re.compile(r"\\(?:onecolumn\b|twocolumn(?![a-zA-Z])\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat\s*\["),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
-- 
2.43.0


From 0e98170cda6b61ccf8d0f3ed7f462cdba98e6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 103/169] fix: commands whose name starts with \expandafter or
 \noexpand

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 49f9891..b9fd00c 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -35,7 +35,7 @@ LET_CSNAME_COMMAND_PATTERN = re.compile(
     r"%s([^\s{\\]+)\s*(\\[^\s{\\]+)" % (LET_COMMAND_PREFIX), re.DOTALL
 )
 
-EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
+EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?![a-zA-Z])")
 START_CSNAME_PATTERN = re.compile(r"\\csname(?![a-zA-Z])")
 END_CSNAME_PATTERN = re.compile(r"\\endcsname(?![a-zA-Z])")
 
-- 
2.43.0


From b01d56f518a6468c9abdec0a8553d091fe7a5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:16 +0000
Subject: [PATCH 104/169] fix: \\setlength with a space before its arguments in
 preprocessing

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index b9fd00c..e0cb808 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -304,7 +304,7 @@ class NewDefinitionHandler(TokenHandler):
     ) -> Tuple[Optional[Dict], int]:
         r"""Handle \newlength definitions"""
         s = match.group(0)
-        s = s[match.end(1) : -1]
+        s = s[match.end(1) : -1].strip()
         var_name = self._parse_varname_from_brace_or_backslash(s)
         start_pos = match.end(0) - 1
         len_def, end_pos = extract_nested_content(content[start_pos:])
-- 
2.43.0


From 75838ac8ae54ddfb3a7fb4613f03de30f1a07b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 105/169] fix: the parent counter of \\newcounter is not text

---
 latex2json/parser/handlers/new_definition.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index e0cb808..d8cfc9a 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -98,7 +98,10 @@ PATTERNS = {
         re.DOTALL,
     ),
     "newcounter": re.compile(
-        r"\\(?:(?:re)?newcounter|stepcounter)\s*" + BRACE_CONTENT_PATTERN, re.DOTALL
+        r"\\(?:(?:re)?newcounter|stepcounter)\s*"
+        + BRACE_CONTENT_PATTERN
+        + r"(?:\s*\[[^\]]*\])?",
+        re.DOTALL,
     ),
     "newother": re.compile(r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\([^\s{[]+)"),
     "newcolumntype": re.compile(
-- 
2.43.0


From 0e8f55ad341fbc30fe27c291c48d4fc1ac141573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 106/169] fix: \\- is no text

---
 latex2json/parser/handlers/formatting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 118f616..dc046c1 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -257,6 +257,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         ("newmdenv", re.compile(r"\\newmdenv\s*(?:\[(.*?)\])?\s*\{(.*?)\}", re.DOTALL)),
         ("pz@", r"(?:%s)?\\[pz]@(?![a-zA-Z@])" % number_regex),
+        ("discretionary", r"\\-"),  # \- allows a hyphen at the end of a line
         ("slash", r"\\/"),  # \/ (in latex, this is like an empty space)
         ("@empty", r"\\@empty(?![a-zA-Z@])"),
         (
-- 
2.43.0


From 3adaad180cddde61ceffd298f774063f28f2b9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:28 +0000
Subject: [PATCH 107/169] fix: the value given to a length is not text

---
 latex2json/parser/handlers/formatting.py | 30 ++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index dc046c1..05b687a 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -28,6 +28,17 @@ COLOR_CELLS_PATTERN = re.compile(
 
 number_regex = NUMBER_PATTERN
 
+# a length, as after the name of a length command
+LENGTH_VALUE = (
+    r"(?:%s\s*(?:true\s*)?(?:pt|pc|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc|mu)(?![a-zA-Z])"
+    r"|[-+]?\s*(?:\d*\.?\d+\s*)?\\[a-zA-Z@]+)" % number_regex
+)
+# ...and how much it may stretch and shrink
+STRETCH = (
+    r"(?:\s*\b(?:plus|minus)\s*(?:%s\s*(?:pt|pc|mm|cm|in|em|ex|fil+)(?![a-zA-Z])"
+    r"|[-+]?(?:\d*\.?\d+)?\\[a-zA-Z@]+))*" % number_regex
+)
+
 declare_pattern_N_blocks = {
     "DeclareFontFamily": 3,
     "DeclareFontShape": 6,
@@ -85,7 +96,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "vskip",
-            r"\\vskip\s*(?:" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)",
+            r"\\vskip\s*(?:" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)" + STRETCH,
         ),
         (
             "penalty",
@@ -115,12 +126,22 @@ RAW_PATTERNS = OrderedDict(
             "value",
             r"\\value\s*\{([^}]+)\}",
         ),
+        (
+            "length_assignment",
+            r"\\(?:baselineskip|topsep|parsep|partopsep|itemsep|labelsep|labelwidth|tabcolsep|arraycolsep|columnsep"
+            r"|(?:above|below)(?:display|caption)(?:short)?skip|hsize|vsize|textwidth|textheight|columnwidth|linewidth"
+            r"|parskip|parindent|leftmargin|rightmargin|topmargin|(?:odd|even)sidemargin|headsep|headheight|footskip|footnotesep"
+            r"|emergencystretch|lineskip|hoffset|voffset|paperwidth|paperheight|arrayrulewidth|fboxsep|fboxrule"
+            r"|topskip|mathindent|hangindent|textfloatsep|floatsep|intextsep)(?![a-zA-Z])\s*=\s*"
+            + LENGTH_VALUE
+            + STRETCH,
+        ),
         # New margin and size commands allowing any characters after the number
         (
             "margins",
             r"\\(?:rightmargin|leftmargin)\b|"
             + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)"
-            + r"(?![a-zA-Z])\s*(\=?\s*(?:%s))?" % (number_points_suffix),
+            + r"(?![a-zA-Z])\s*(\=?\s*(?:%s)%s)?" % (number_points_suffix, STRETCH),
         ),
         ("indent", r"\\indent\b"),
         (
@@ -140,7 +161,8 @@ RAW_PATTERNS = OrderedDict(
             r"\\(?:"
             r"(?:quad|qquad|xspace|space)(?![a-zA-Z])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
             r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
-            r"hskip\s*%s" % (number_points_suffix)  # \hskip 10pt
+            r"hskip\s*(?:%s|%s)%s"
+            % (number_points_suffix, LENGTH_VALUE, STRETCH)  # \hskip 10pt plus 1fil
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
             r")",
         ),
@@ -149,7 +171,7 @@ RAW_PATTERNS = OrderedDict(
             r"\\mathtoolsset\s*%s" % (BRACE_CONTENT_PATTERN),
         ),
         # \kern, which is technically spacing but more like a length between characters. so ignore
-        ("kern", r"\\kern\s*%s" % (number_points_suffix)),
+        ("kern", r"\\kern\s*(?:%s|%s)" % (number_points_suffix, LENGTH_VALUE)),
         # tcb
         ("tcb", r"\\(?:tcbset|tcbuselibrary)\s*{"),
         # options
-- 
2.43.0


From c7ba9d1b4750b5972f7528306c76e07b5b0c7bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:31 +0000
Subject: [PATCH 108/169] fix: optional arguments of page breaks and rules are
 not text

---
 latex2json/parser/handlers/formatting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 05b687a..0f0878d 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -88,11 +88,11 @@ RAW_PATTERNS = OrderedDict(
         ("printcontents", r"\\printcontents\s*{"),
         (
             "page",
-            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
+            r"\\enlargethispage\*?\s*\{[^}]*\}|\\(?:allowdisplaybreaks|nopagebreak)\s*\[\d\]|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
         ),
         (
             "pagebreak",
-            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
+            r"\\pagebreak\s*\[\d\]|\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
         ),
         (
             "vskip",
@@ -234,7 +234,7 @@ RAW_PATTERNS = OrderedDict(
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
             r"addlinespace(?![a-zA-Z])(?:\[([^\]]*)\])?|"  # optional [length]
-            r"rule\s*{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
+            r"rule\s*(?:\[[^\]]*\]\s*)?{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
             r"hrule\b|"
             r"morecmidrules\b|"  # no args
             r"fboxsep\s*{([^}]+)}|"  # {length}
-- 
2.43.0


From aad4cb41e6a84ad6443417bedb33dc2027944f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 109/169] fix: the value given to a display or caption skip is
 not text

---
 latex2json/parser/handlers/formatting.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 0f0878d..5d2bf20 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -94,6 +94,16 @@ RAW_PATTERNS = OrderedDict(
             "pagebreak",
             r"\\pagebreak\s*\[\d\]|\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
         ),
+        (
+            "length_assignment",
+            r"\\(?:baselineskip|topsep|parsep|partopsep|itemsep|labelsep|labelwidth|tabcolsep|arraycolsep|columnsep"
+            r"|(?:above|below)(?:display|caption)(?:short)?skip|hsize|vsize|textwidth|textheight|columnwidth|linewidth"
+            r"|parskip|parindent|leftmargin|rightmargin|topmargin|(?:odd|even)sidemargin|headsep|headheight|footskip|footnotesep"
+            r"|emergencystretch|lineskip|hoffset|voffset|paperwidth|paperheight|arrayrulewidth|fboxsep|fboxrule"
+            r"|topskip|mathindent|hangindent|textfloatsep|floatsep|intextsep)(?![a-zA-Z])\s*=\s*"
+            + LENGTH_VALUE
+            + STRETCH,
+        ),
         (
             "vskip",
             r"\\vskip\s*(?:" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)" + STRETCH,
@@ -126,16 +136,6 @@ RAW_PATTERNS = OrderedDict(
             "value",
             r"\\value\s*\{([^}]+)\}",
         ),
-        (
-            "length_assignment",
-            r"\\(?:baselineskip|topsep|parsep|partopsep|itemsep|labelsep|labelwidth|tabcolsep|arraycolsep|columnsep"
-            r"|(?:above|below)(?:display|caption)(?:short)?skip|hsize|vsize|textwidth|textheight|columnwidth|linewidth"
-            r"|parskip|parindent|leftmargin|rightmargin|topmargin|(?:odd|even)sidemargin|headsep|headheight|footskip|footnotesep"
-            r"|emergencystretch|lineskip|hoffset|voffset|paperwidth|paperheight|arrayrulewidth|fboxsep|fboxrule"
-            r"|topskip|mathindent|hangindent|textfloatsep|floatsep|intextsep)(?![a-zA-Z])\s*=\s*"
-            + LENGTH_VALUE
-            + STRETCH,
-        ),
         # New margin and size commands allowing any characters after the number
         (
             "margins",
-- 
2.43.0


From 01ad1c28c26e68e7e81ea3a710be2a31e4b89649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:02 +0000
Subject: [PATCH 110/169] fix: the value given to a declared length or counter
 is not text

---
 latex2json/parser/handlers/command_manager.py |  4 +++-
 .../parser/handlers/command_processor.py      |  9 +++++---
 latex2json/parser/handlers/formatting.py      | 13 ++---------
 latex2json/parser/patterns.py                 | 22 +++++++++++++++++++
 4 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 878f0f6..5c49e22 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -126,7 +126,9 @@ class CommandManager(TokenHandler):
             self.processor.process_paired_delimiter(
                 cmd_name, token["left_delim"], token["right_delim"]
             )
-        elif token["type"] in ["newother", "newfam", "font"]:
+        elif token["type"] == "newother":
+            self.processor.process_newlength(cmd_name)
+        elif token["type"] in ["newfam", "font"]:
             self.processor.process_newX(cmd_name)
         elif token["type"] == "keyval_definition":
             self.keyval_handler.process_keyval_definition(
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 8805060..35649c1 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -5,6 +5,7 @@ from typing import List, Dict, Optional, TypedDict, Callable, Pattern, Tuple
 from latex2json.latex_maps.latex_unicode_converter import LatexUnicodeConverter
 
 # from latex2json.parser.patterns import command_or_dim
+from latex2json.parser.patterns import ASSIGNED_VALUE
 from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
 from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
@@ -369,7 +370,7 @@ class CommandProcessor:
         self.commands["newif:" + var_name] = command
 
     def process_newlength(self, var_name: str):
-        self.process_newX(var_name, "newlength")
+        self.process_newX(var_name, "newlength", suffix="(?:%s)?" % ASSIGNED_VALUE)
 
     def process_newtoks(self, var_name: str):
         def handler(
@@ -389,9 +390,11 @@ class CommandProcessor:
         }
         self.commands["newtoks:" + var_name] = command
 
-    def process_newX(self, var_name: str, type: str = "newX"):
+    def process_newX(self, var_name: str, type: str = "newX", suffix: str = ""):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
+            "pattern": re.compile(
+                r"\\" + re.escape(var_name) + r"\b" + suffix
+            ),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 5d2bf20..4062962 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -4,6 +4,8 @@ from collections import OrderedDict
 from typing import Callable, Dict, List, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import (
+    LENGTH_VALUE,
+    STRETCH,
     NUMBER_PATTERN,
     OPTIONAL_BRACE_PATTERN,
     BRACE_CONTENT_PATTERN,
@@ -28,17 +30,6 @@ COLOR_CELLS_PATTERN = re.compile(
 
 number_regex = NUMBER_PATTERN
 
-# a length, as after the name of a length command
-LENGTH_VALUE = (
-    r"(?:%s\s*(?:true\s*)?(?:pt|pc|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc|mu)(?![a-zA-Z])"
-    r"|[-+]?\s*(?:\d*\.?\d+\s*)?\\[a-zA-Z@]+)" % number_regex
-)
-# ...and how much it may stretch and shrink
-STRETCH = (
-    r"(?:\s*\b(?:plus|minus)\s*(?:%s\s*(?:pt|pc|mm|cm|in|em|ex|fil+)(?![a-zA-Z])"
-    r"|[-+]?(?:\d*\.?\d+)?\\[a-zA-Z@]+))*" % number_regex
-)
-
 declare_pattern_N_blocks = {
     "DeclareFontFamily": 3,
     "DeclareFontShape": 6,
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 758021d..394909c 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -18,6 +18,28 @@ number_points_suffix = (
     NUMBER_PATTERN + r"\s*(?:pt|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc)?(?=[^a-zA-Z]|$)"
 )
 command_or_dim = rf"(?:[-+]?\s*{command_with_opt_brace_pattern}|{number_points_suffix}|{NUMBER_PATTERN}\s*[-+]?\s*{command_with_opt_brace_pattern}|{NUMBER_PATTERN})"
+# a length, as after the name of a length command
+LENGTH_NUMBER = (
+    r"%s\s*(?:true\s*)?(?:pt|pc|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc|mu)(?![a-zA-Z])"
+    % NUMBER_PATTERN
+)
+LENGTH_VALUE = (
+    r"(?:%s|[-+]?\s*(?:\d*\.?\d+\s*)?\\[a-zA-Z@]+)" % LENGTH_NUMBER
+)
+# ...and how much it may stretch and shrink
+STRETCH = (
+    r"(?:\s*\b(?:plus|minus)\s*(?:%s\s*(?:pt|pc|mm|cm|in|em|ex|fil+)(?![a-zA-Z])"
+    r"|[-+]?(?:\d*\.?\d+)?\\[a-zA-Z@]+))*" % NUMBER_PATTERN
+)
+# what a length or counter may be set to, right after its name
+ASSIGNED_VALUE = r"(?:\s*=\s*(?:%s|%s)%s|\s*(?:%s)%s|\s*%s(?![\w.]))" % (
+    LENGTH_VALUE,
+    NUMBER_PATTERN,
+    STRETCH,
+    LENGTH_NUMBER,
+    STRETCH,
+    NUMBER_PATTERN,
+)
 # Add these compiled patterns at module level
 # match $ or % or { or } only if not preceded by \
 # Update DELIM_PATTERN to also match double backslashes and opening braces {
-- 
2.43.0


From a830f85466a88ef9695372baca96eba2be49e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:48 +0000
Subject: [PATCH 111/169] fix: white space that belongs to a control space is
 not stripped

---
 latex2json/parser/handlers/legacy_formatting.py | 3 +++
 latex2json/utils/tex_utils.py                   | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index a54cbd0..b1533ec 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -136,6 +136,9 @@ class LegacyFormattingHandler(TokenHandler):
                         # unclosed brace: drop the command, keep what follows
                         return "", next_pos + 1
                     content_to_format = text.strip()
+                    if content_to_format.endswith("\\"):
+                        # the space of a control space stays
+                        content_to_format += " "
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
                     return formatted_text, total_pos
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 1b27233..34479e3 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -349,6 +349,11 @@ COMMENT_OR_LITERAL_PATTERN = re.compile(
 )
 
 
+# the space of a control space (a backslash before it) belongs to the command
+TRAILING_SPACE_PATTERN = re.compile(r"(?<!(?<!\\)\\)[^\S\n]+(?=\n)")
+TRAILING_SPACE_AT_END_PATTERN = re.compile(r"(?<!(?<!\\)\\)[^\S\n]+\Z")
+
+
 def strip_latex_comments(text: str, keep_lines: bool = True) -> str:
     r"""
     Remove all LaTeX comments while preserving escaped \% characters.
@@ -372,7 +377,7 @@ def strip_latex_comments(text: str, keep_lines: bool = True) -> str:
 
     def flush():
         # no trailing whitespace on the lines outside of code blocks
-        out.append(re.sub(r"[^\S\n]+(?=\n)", "", "".join(normal)))
+        out.append(TRAILING_SPACE_PATTERN.sub("", "".join(normal)))
         normal.clear()
 
     pos = 0
@@ -389,7 +394,7 @@ def strip_latex_comments(text: str, keep_lines: bool = True) -> str:
             normal.append(match.group(0))
     normal.append(text[pos:])
     flush()
-    return re.sub(r"[^\S\n]+\Z", "", "".join(out))
+    return TRAILING_SPACE_AT_END_PATTERN.sub("", "".join(out))
 
 
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
-- 
2.43.0


From 58cfb10a27ef7734bfe8323b2214c59cc803c97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:02 +0000
Subject: [PATCH 112/169] fix: accents over \\i, \\j, other letter commands,
 accents and nothing

---
 latex2json/parser/handlers/diacritics.py | 78 +++++++++++++++++++++++-
 1 file changed, 75 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/diacritics.py b/latex2json/parser/handlers/diacritics.py
index 26e3fe3..e73867b 100644
--- a/latex2json/parser/handlers/diacritics.py
+++ b/latex2json/parser/handlers/diacritics.py
@@ -2,6 +2,7 @@ from typing import Dict, Optional, Tuple
 import unicodedata
 import re
 
+from latex2json.latex_maps.latex_unicode_converter import LatexUnicodeConverter
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content, substitute_patterns
 
@@ -40,6 +41,31 @@ ACCENT_MAP = {
 }
 
 
+# the accents on their own, e.g. \\^{}
+SPACING_ACCENTS = {
+    "'": "\N{ACUTE ACCENT}",
+    "`": "`",
+    '"': "\N{DIAERESIS}",
+    "^": "^",
+    "~": "~",
+    "=": "\N{MACRON}",
+    "c": "\N{CEDILLA}",
+    "H": "\N{DOUBLE ACUTE ACCENT}",
+    "k": "\N{OGONEK}",
+    ".": "\N{DOT ABOVE}",
+    "r": "\N{RING ABOVE}",
+    "u": "\N{BREVE}",
+    "v": "\N{CARON}",
+}
+
+MAX_STACKED_ACCENTS = 5
+
+# letters without their dot, which carry accents
+DOTLESS = {"\\i": "i", "\\j": "j", "\\imath": "i", "\\jmath": "j"}
+
+CHAR_COMMAND_PATTERN = re.compile(r"(\\[a-zA-Z]+)(?:\{\}|\s+)?")
+
+
 def generate_accent_patterns():
     """
     Generate regex patterns for LaTeX accent commands and special characters.
@@ -97,7 +123,7 @@ def convert_tex_diacritics(text: str) -> str:
 
 
 def parse_diacritic_match(
-    text: str, match: re.Match, accent_name: str
+    text: str, match: re.Match, accent_name: str, depth: int = 0
 ) -> Tuple[str, int]:
     """Parse a diacritic match and return the converted text and the end position"""
     matched_str = match.group(0)
@@ -107,15 +133,59 @@ def parse_diacritic_match(
     last_char = matched_str[-1]
     if last_char == "{":
         out, nested_end_pos = extract_nested_content(text[end_pos - 1 :])
-        if out:
+        if out is not None:
             out = out.strip()
-            last_char = out
+            if not out:
+                # an accent on its own
+                return SPACING_ACCENTS.get(accent_name, ""), (
+                    end_pos + nested_end_pos - 1
+                )
+            last_char, base_end_pos = parse_accent_base(out, depth)
+            if last_char is None:
+                # not a character: drop the accent, keep the braces
+                return "", end_pos - 1
+            last_char += out[base_end_pos:]
             end_pos += nested_end_pos - 1
+    elif last_char == "\\":
+        last_char, base_end_pos = parse_accent_base(text[end_pos - 1 :], depth)
+        if last_char is None:
+            # not a character: drop the accent, keep the command
+            return "", end_pos - 1
+        end_pos += base_end_pos - 1
 
     converted = apply_accent(last_char, accent_name)
     return converted, end_pos
 
 
+def parse_accent_base(text: str, depth: int = 0) -> Tuple[Optional[str], int]:
+    r"""
+    Parse what an accent stands over: a character, a command for a character
+    (e.g. \i, \ae) or another accent with its base.
+    Returns the characters (None if there are none) and the end position.
+    """
+    if not text.startswith("\\"):
+        return text[:1], len(text[:1])
+
+    for accent_name, pattern in ACCENT_PATTERNS.items():
+        match = pattern.match(text)
+        if match:
+            if depth >= MAX_STACKED_ACCENTS:
+                return None, 0
+            converted, end_pos = parse_diacritic_match(
+                text, match, accent_name, depth + 1
+            )
+            return converted or None, end_pos
+
+    match = CHAR_COMMAND_PATTERN.match(text)
+    if not match:
+        return None, 0
+    command = match.group(1)
+    char = DOTLESS.get(command) or LatexUnicodeConverter().convert(command)
+    if char.startswith("\\"):
+        return None, 0
+    return char, match.end()
+
+
 class DiacriticsHandler(TokenHandler):
     def can_handle(self, content: str) -> bool:
         """Check if the content contains any diacritic commands"""
@@ -129,6 +199,8 @@ class DiacriticsHandler(TokenHandler):
             match = pattern.match(content)
             if match:
                 converted, end_pos = parse_diacritic_match(content, match, accent_name)
+                if not converted:
+                    return None, end_pos
                 return {"type": "text", "content": converted}, end_pos
 
         return None, 0
-- 
2.43.0


From 9c612ebfc33b83b54c38811ce183f02695847c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 113/169] fix: the space after a command for a letter only ends
 its name

---
 latex2json/parser/handlers/diacritics.py |  2 +-
 latex2json/parser/tex_parser.py          | 21 ++++++++++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/diacritics.py b/latex2json/parser/handlers/diacritics.py
index e73867b..6aca674 100644
--- a/latex2json/parser/handlers/diacritics.py
+++ b/latex2json/parser/handlers/diacritics.py
@@ -63,7 +63,7 @@ MAX_STACKED_ACCENTS = 5
 # letters without their dot, which carry accents
 DOTLESS = {"\\i": "i", "\\j": "j", "\\imath": "i", "\\jmath": "j"}
 
-CHAR_COMMAND_PATTERN = re.compile(r"(\\[a-zA-Z]+)(?:\{\}|\s+)?")
+CHAR_COMMAND_PATTERN = re.compile(r"(\\[a-zA-Z]+)(?:\{\})?")
 
 
 def generate_accent_patterns():
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 40b15ec..9b2e9b8 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -53,6 +53,21 @@ BOOL_CONDITIONAL_PATTERN = ETOOLBOX_PATTERNS["ifnotbool"]
 MAX_PARSE_DEPTH = 100
 
 
+# commands for letters, the space behind them only ends their name
+LETTER_COMMAND_END_PATTERN = re.compile(
+    r"\\(?:aa|AA|ae|AE|oe|OE|o|O|l|L|ss|SS|i|j|dh|DH|dj|DJ|ng|NG|th|TH|(?:text)?backslash)$"
+)
+
+
+def join_letter_command(content: str, pos: int) -> str:
+    """Remove the white space at pos if it only ends the name of a letter command"""
+    if content[pos : pos + 1].isspace() and LETTER_COMMAND_END_PATTERN.search(
+        content[max(0, pos - 14) : pos]
+    ):
+        return content[:pos] + content[pos:].lstrip(" \t")
+    return content
+
+
 class LatexParser:
     def __init__(self, logger: logging.Logger = None):
         # for logging
@@ -688,6 +703,7 @@ class LatexParser:
             )
             current_pos += end_pos
             if matched:
+                content = join_letter_command(content, current_pos)
                 continue
 
             # check remaining patterns
@@ -703,7 +719,10 @@ class LatexParser:
                 token, end_pos = self._check_unknown_command(content[current_pos:])
                 current_pos += end_pos
                 if token:
-                    self.add_token(token, tokens)
+                    self.add_token(
+                        token, tokens, add_space and token["type"] == "text"
+                    )
+                    content = join_letter_command(content, current_pos)
                     if token["type"] == "command":
                         cmd_name = token["command"]
                         if cmd_name not in self._unknown_commands:
-- 
2.43.0


From ecc6d1311659005e23baaf4de3115d2041016fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:58 +0000
Subject: [PATCH 114/169] fix: \\textbackslash is a backslash and no line break

---
 latex2json/parser/handlers/equation.py   |  2 +-
 latex2json/parser/handlers/formatting.py |  6 ++++--
 latex2json/parser/patterns.py            |  3 +++
 latex2json/parser/tex_parser.py          | 11 +++++++++++
 latex2json/parser/tex_preprocessor.py    |  7 +++++++
 5 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 71d0740..2d60cad 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -76,7 +76,7 @@ class EquationHandler(TokenHandler):
         while backslash_pos >= 0:
             incr = 1
             x, end_pos = self.formatter.handle(
-                equation[backslash_pos:], exclude_patterns=["spacing"]
+                equation[backslash_pos:], exclude_patterns=["spacing", "backslash"]
             )
             if end_pos > 0:
                 content = ""
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 4062962..f6396e0 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -4,6 +4,7 @@ from collections import OrderedDict
 from typing import Callable, Dict, List, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import (
+    TEXT_BACKSLASH_PATTERN,
     LENGTH_VALUE,
     STRETCH,
     NUMBER_PATTERN,
@@ -248,7 +249,8 @@ RAW_PATTERNS = OrderedDict(
             r"\\c@page\b|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
-        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)\b"),
+        ("backslash", TEXT_BACKSLASH_PATTERN),
+        ("arraybackslash", r"\\arraybackslash\b"),
         ("geometry", r"\\geometry\s*\{"),
         ("ensuremath", r"\\ensuremath\s*{"),
         ("stackmath", r"\\stackMath\b"),
@@ -394,7 +396,7 @@ class FormattingHandler(TokenHandler):
                 elif pattern_name == "indent":
                     return {"type": "text", "content": "\t"}, match.end()
                 elif pattern_name == "backslash":
-                    return {"type": "text", "content": r"\\"}, match.end()
+                    return {"type": "text", "content": "\\"}, match.end()
                 elif pattern_name == "spacing":
                     if match.group(0) == r"\!":
                         return None, match.end()
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 394909c..25a35f2 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -5,6 +5,9 @@ from collections import OrderedDict
 BRACE_CONTENT_PATTERN = r"\{([^}]+)\}"
 OPTIONAL_BRACE_PATTERN = r"(?:\[[^\]]*\])?"
 
+# a printed backslash
+TEXT_BACKSLASH_PATTERN = re.compile(r"\\(?:text)?backslash(?![a-zA-Z])(?:\{\})?")
+
 NUMBER_PATTERN = r"[-+]?\d*\.?\d+"
 
 # Command pattern matches:
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 9b2e9b8..ba2397b 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -36,6 +36,7 @@ from latex2json.utils.tex_utils import (
 )
 from latex2json.parser.tex_preprocessor import LatexPreprocessor
 from latex2json.parser.patterns import (
+    TEXT_BACKSLASH_PATTERN,
     PATTERNS,
     DELIM_PATTERN,
 )
@@ -696,6 +697,16 @@ class LatexParser:
                     )
                     continue
 
+            # a printed backslash would not survive the second pass
+            if not handle_unknown_commands:
+                match = TEXT_BACKSLASH_PATTERN.match(content, current_pos)
+                if match:
+                    add_space = current_pos > 0 and content[current_pos - 1].isspace()
+                    self.add_token("\\textbackslash{}", tokens, add_space)
+                    current_pos = match.end()
+                    content = join_letter_command(content, current_pos)
+                    continue
+
             # try each handler
             add_space = current_pos > 0 and content[current_pos - 1].isspace()
             matched, end_pos = self._check_handlers(
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index adf771e..b9f7a47 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -6,6 +6,7 @@ from typing import Dict
 from latex2json.parser.handlers.formatting import FormattingHandler
 from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
 from latex2json.parser.patterns import (
+    TEXT_BACKSLASH_PATTERN,
     USEPACKAGE_PATTERN,
     WHITELISTED_COMMANDS,
     DELIM_PATTERN,
@@ -335,6 +336,12 @@ class LatexPreprocessor:
                 content = content[:current_pos] + content[current_pos + end_pos :]
                 continue
 
+            # a printed backslash is left to the parser
+            match = TEXT_BACKSLASH_PATTERN.match(content, current_pos)
+            if match:
+                current_pos = match.end()
+                continue
+
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
             if self.formatting_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.formatting_handler.handle(content[current_pos:])
-- 
2.43.0


From 704d8c9b9ffc1a5cbef407d0ce1ba66266cb8582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:41 +0000
Subject: [PATCH 115/169] fix: a literal brace before a command or at the end
 keeps its meaning

---
 latex2json/parser/tex_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index ba2397b..87723ed 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -30,6 +30,7 @@ from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.utils.expansion_guard import ExpansionGuard
 from latex2json.utils.tex_utils import (
+    is_escaped,
     extract_nested_content,
     read_tex_file_content,
     strip_latex_comments,
@@ -624,7 +625,7 @@ class LatexParser:
                 text = content[current_pos : current_pos + next_pos]
                 if text:
                     # skip delimited braces for next pass
-                    if text.endswith("{"):
+                    if text.endswith("{") and not is_escaped(len(text) - 1, text):
                         text = text[:-1]
                         next_pos -= 1
                     if handle_unknown_commands:
-- 
2.43.0


From 5076d08cba07c37faa346836dcb4c418575e78e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:45 +0000
Subject: [PATCH 116/169] fix: braces that end the name of a command in a table
 cell

---
 latex2json/parser/tex_parser.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 87723ed..a665dd4 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -60,6 +60,8 @@ LETTER_COMMAND_END_PATTERN = re.compile(
     r"\\(?:aa|AA|ae|AE|oe|OE|o|O|l|L|ss|SS|i|j|dh|DH|dj|DJ|ng|NG|th|TH|(?:text)?backslash)$"
 )
 
+COMMAND_AT_END_PATTERN = re.compile(r"(?<!\\)(?:\\\\)*\\[a-zA-Z@]+\s*$")
+
 
 def join_letter_command(content: str, pos: int) -> str:
     """Remove the white space at pos if it only ends the name of a letter command"""
@@ -605,6 +607,18 @@ class LatexParser:
                         handle_unknown_commands,
                     )
                     if nested_tokens:
+                        # on the first pass of a table, commands are left for the
+                        # second pass, where the braces must end the name of the last
+                        keep_braces = (
+                            not handle_unknown_commands
+                            and nested_tokens[-1].get("type") == "text"
+                            and "styles" not in nested_tokens[-1]
+                            and COMMAND_AT_END_PATTERN.search(
+                                nested_tokens[-1]["content"]
+                            )
+                        )
+                        if keep_braces:
+                            nested_tokens = ["{", *nested_tokens, "}"]
                         for token in nested_tokens:
                             self.add_token(token, tokens, add_space)
                             add_space = False
-- 
2.43.0


From df6d4cf66458736e000bdd3623cde250b376ca39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:15 +0000
Subject: [PATCH 117/169] fix: white space between two commands in a table cell

---
 latex2json/parser/tex_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index a665dd4..a966ac6 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -776,7 +776,9 @@ class LatexParser:
                     inner_content, end_pos = extract_nested_content(content[start_pos:])
                     if inner_content is not None:
                         end_pos += start_pos
-                        self.add_token(content[current_pos:end_pos], tokens)
+                        self.add_token(
+                            content[current_pos:end_pos], tokens, add_space
+                        )
                         current_pos = end_pos
                         continue
 
-- 
2.43.0


From 4afcacdf5b9f7ecb56ba1c1f3e58ee73e7e2509c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:34 +0000
Subject: [PATCH 118/169] fix: \\address and \\email with an optional argument

---
 latex2json/parser/handlers/author.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 106c046..eaaaa7f 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -12,11 +12,11 @@ compile_as = re.DOTALL | re.IGNORECASE
 PATTERNS = {
     "author": re.compile(r"\\author(?:\s*\[(.*?)\])?\s*{", compile_as),
     # "correspondingauthor": re.compile(r"\\correspondingauthor\s*{", compile_as),
-    "email": re.compile(r"\\email\s*{", compile_as),
+    "email": re.compile(r"\\email(?:\s*\[(.*?)\])?\s*{", compile_as),
     "affiliation": re.compile(
         r"\\(?:affil|affiliation)(?:\s*\[(.*?)\])?\s*{", compile_as
     ),
-    "address": re.compile(r"\\address\s*{", compile_as),
+    "address": re.compile(r"\\address(?:\s*\[(.*?)\])?\s*{", compile_as),
     "curraddr": re.compile(r"\\curraddr(?:\{\}|\b)"),
     # \thanks usually found inside author block
     "thanks": re.compile(r"\\thanks\s*{", compile_as),
-- 
2.43.0


From f85f0ccbb69fc5ff6752fd58f4819414153b7ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:56 +0000
Subject: [PATCH 119/169] fix: environments declared by \\newtheorem* carry no
 number

---
 latex2json/parser/handlers/command_manager.py |  2 ++
 latex2json/parser/handlers/environment.py     | 12 ++++++++++--
 latex2json/parser/tex_parser.py               |  4 +++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 5c49e22..6733f8c 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -47,6 +47,8 @@ class CommandManager(TokenHandler):
         # First try the definition handler
         if self.definition_handler.can_handle(content):
             token, end_pos = self.definition_handler.handle(content)
+            if token and content.startswith("\\newtheorem*"):
+                token["numbered"] = False
             if register and token:
                 self.register_command(token)
             return token, end_pos
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 18fd85b..72591a5 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -191,9 +191,15 @@ class BaseEnvironmentHandler(TokenHandler):
         self.logger = logger or logging.getLogger(__name__)
         self._newtheorems: Dict[str, str] = {}
         self._floatnames: Dict[str, str] = {}
+        # environments declared by \\newtheorem*
+        self._unnumbered_theorems = set()
 
-    def process_newtheorem(self, var_name: str, title: str):
+    def process_newtheorem(self, var_name: str, title: str, numbered: bool = True):
         self._newtheorems[var_name] = title
+        if numbered:
+            self._unnumbered_theorems.discard(var_name)
+        else:
+            self._unnumbered_theorems.add(var_name)
 
     def process_floatname(self, var_name: str, title: str):
         self._floatnames[var_name] = title
@@ -201,6 +207,7 @@ class BaseEnvironmentHandler(TokenHandler):
     def clear(self):
         self._newtheorems = {}
         self._floatnames = {}
+        self._unnumbered_theorems = set()
 
     def can_handle(self, content: str) -> bool:
         return (
@@ -212,6 +219,7 @@ class BaseEnvironmentHandler(TokenHandler):
 
         contains_asterisk = "*" in env_name
         env_name = env_name.replace("*", "")
+        unnumbered = contains_asterisk or env_name in self._unnumbered_theorems
 
         env_name = self._newtheorems.get(env_name, env_name)
         token = {
@@ -223,7 +231,7 @@ class BaseEnvironmentHandler(TokenHandler):
         token["type"] = env_type
 
         # ignore numbering of subfigures/tables?
-        if env_type == "math_env" and not contains_asterisk:
+        if env_type == "math_env" and not unnumbered:
             if env_name.lower() in NUMBERED_MATH_ENVIRONMENTS:
                 token["numbered"] = True
         elif env_type in ["table", "figure", "algorithm"] and not env_name.startswith(
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index a966ac6..c30ce76 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -312,7 +312,9 @@ class LatexParser:
                 self.env_handler.process_floatname(cmd_name, token["title"])
                 return
             elif typing == "newtheorem":
-                self.env_handler.process_newtheorem(cmd_name, token["title"])
+                self.env_handler.process_newtheorem(
+                    cmd_name, token["title"], token.get("numbered", True)
+                )
 
             # Special handling for if blocks
             if typing == "newif":
-- 
2.43.0


From d83e7cc53660838e6d676261da486eac6d9b74b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:47 +0000
Subject: [PATCH 120/169] fix: white space between the arguments of
 \\newtheorem

---
 latex2json/parser/handlers/new_definition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index d8cfc9a..8d0471b 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -78,7 +78,8 @@ PATTERNS = {
     "@namedef": re.compile(r"\\@namedef\s*{([^}]*)}"),
     # Matches newtheorem with all its optional arguments
     "newtheorem": re.compile(
-        r"\\newtheorem\*?{([^}]*)}(?:\[([^]]*)\])?{([^}]*)}(?:\[([^]]*)\])?", re.DOTALL
+        r"\\newtheorem\*?\s*{([^}]*)}(?:\s*\[([^]]*)\])?\s*{([^}]*)}(?:\s*\[([^]]*)\])?",
+        re.DOTALL,
     ),
     "newtheoremstyle": re.compile(r"\\newtheoremstyle\*?{", re.DOTALL),
     "crefname": re.compile(r"\\[cC]refname{([^}]*)}{([^}]*)}(?:{([^}]*)})?", re.DOTALL),
-- 
2.43.0


From 5ebf5ff01061967bf1075b2a1ab1ecb1db175d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:27 +0000
Subject: [PATCH 121/169] fix: white space between the arguments of a user
 environment

---
 latex2json/parser/handlers/environment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 72591a5..afe1f32 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -453,7 +453,8 @@ class EnvironmentProcessor:
             # Handle optional arguments [arg]
             num_req_args = env_info["num_args"] - len(env_info["optional_args"])
             for opt_arg in env_info["optional_args"]:
-                if content.startswith("["):
+                if content.lstrip().startswith("["):
+                    content = content.lstrip()
                     arg, end_pos = extract_nested_content(content, "[", "]")
                     content = content[end_pos:]
                     args.append(arg)
@@ -462,7 +463,8 @@ class EnvironmentProcessor:
 
             # Handle required arguments {arg}
             for _ in range(num_req_args):
-                if content.startswith("{"):
+                if content.lstrip().startswith("{"):
+                    content = content.lstrip()
                     arg, end_pos = extract_nested_content(content, "{", "}")
                     content = content[end_pos:]
                     args.append(arg)
-- 
2.43.0


From 70a3189fb2a154efed084f3ff2b60ba7bf9821c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:36 +0000
Subject: [PATCH 122/169] fix: text that is not utf-8 and of unsure encoding is
 not read as utf-8

---
 latex2json/utils/encoding.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 36acaf7..671536e 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -35,7 +35,11 @@ def detect_encoding(path: str) -> str:
 
     # Handle None or very low confidence results
     if encoding is None or result.get("confidence", 0) < 0.5:
-        encoding = "utf-8"  # Default to utf-8 if unsure
+        # Mostly utf-8 with some broken bytes, else the usual one-byte encoding
+        text = raw_data.decode("utf-8", errors="replace")
+        broken = text.count("\ufffd")
+        valid = sum(char > "\x7f" for char in text) - broken
+        encoding = "utf-8" if valid > broken else "cp1252"
 
     # Some common encoding mappings/normalizations
     encoding_map = {
-- 
2.43.0


From 211ea1e1a94fab6105e8a5f6831cce9e0af26d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 123/169] fix: a color declared again keeps its last
 declaration across files

---
 latex2json/parser/tex_preprocessor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index b9f7a47..3ac750e 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -285,7 +285,8 @@ class LatexPreprocessor:
                 content[current_pos:], register=False
             )
             if token:
-                if token.get("type", "").startswith("keyval"):
+                # colors stay in place: one of an included file can come before
+                if token.get("type", "").startswith(("keyval", "definecolor")):
                     current_pos += end_pos
                     continue
                 # Skip macro definitions that have parameters (#1, #2) or take arguments,
-- 
2.43.0


From a56fceb997dddc1cb0e18000d9edab6be8383024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:10 +0000
Subject: [PATCH 124/169] fix: optional arguments of \savebox, \colorbox,
 \fcolorbox, \scalebox and \rotatebox are not text

---
 latex2json/parser/packages/boxes.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 717fcea..f13a59f 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -18,14 +18,14 @@ BOX_DELIMITERS = {
     "makebox": "[[{",  # \makebox[width]{text}
     "framebox": "[[{",  # \framebox[width][pos]{text}
     "raisebox": "{[[{",  # \raisebox{distance}[extend-above][extend-below]{text}
-    "colorbox": "{{",  # \colorbox{color}{text}
-    "fcolorbox": "{{{",  # \fcolorbox{border}{bg}{text}
-    "scalebox": "{{",  # \scalebox{scale}{text}
+    "colorbox": "[{{",  # \colorbox[model]{color}{text}
+    "fcolorbox": "[{{{",  # \fcolorbox[model]{border}{bg}{text}
+    "scalebox": "{[{",  # \scalebox{h-scale}[v-scale]{text}
     "mbox": "{",  # \mbox{text}
     r"hbox\s+to\s*[^{]+": "{",  # \hbox to \hsize{text}
     "pbox": "{{",  # \pbox{x}{text}
     "resizebox": "{{{",  # \resizebox{width}{height}{text}
-    "rotatebox": "{{",  # \rotatebox{angle}{text}
+    "rotatebox": "[{{",  # \rotatebox[options]{angle}{text}
     "adjustbox": "{{",  # \adjustbox{max width=\textwidth}{text}
 }
 
@@ -154,10 +154,14 @@ class BoxHandler(TokenHandler):
 
         elif command in ("sbox", "savebox"):
             # Extract the box content
+            # \savebox may have a width and a position
             start_pos = match.end()
-            extracted_args, end_pos = extract_delimited_args(content[start_pos:], "{")
-            if extracted_args:
-                box_content = extracted_args[0]
+            delimiter_str = "[[{" if command == "savebox" else "{"
+            extracted_args, end_pos = extract_delimited_args(
+                content[start_pos:], delimiter_str
+            )
+            if len(extracted_args) == len(delimiter_str):
+                box_content = extracted_args[-1]
                 if self.process_content_fn:
                     box_content = self.process_content_fn(box_content)
                 # Store content in a consistent format
-- 
2.43.0


From 5cb8e8ddf521fc004f9634be7e9eec83059b6dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 125/169] fix: formatting, formulas and references inside of
 \mbox are kept, \resizebox* is known

---
 latex2json/parser/packages/boxes.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index f13a59f..4298154 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -9,7 +9,6 @@ from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_delimited_args,
     strip_latex_newlines,
-    flatten_all_to_string,
 )
 
 BOX_DELIMITERS = {
@@ -30,7 +29,7 @@ BOX_DELIMITERS = {
 }
 
 BOX_PATTERN = re.compile(
-    r"\\(%s)\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
+    r"\\(%s)\*?\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
 )
 
 # Add fancyhead pattern
@@ -119,17 +118,13 @@ class BoxHandler(TokenHandler):
         if not extracted_content:
             return None, end_pos
 
-        one_liner = s.startswith("\\mbox")
+        if s.startswith("\\mbox"):
+            # make everything into one line
+            extracted_content = strip_latex_newlines(extracted_content)
 
         if self.process_content_fn:
             extracted_content = self.process_content_fn(extracted_content)
 
-        if one_liner:
-            # make everything into one line
-            extracted_content = strip_latex_newlines(
-                flatten_all_to_string(extracted_content)
-            )
-
         if isinstance(extracted_content, str):
             return {"type": "text", "content": extracted_content}, end_pos
         elif isinstance(extracted_content, dict):
-- 
2.43.0


From 9a4c454e06c309de56c8db0d3126c99d5ea67ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:26 +0000
Subject: [PATCH 126/169] fix: plain text from a box or fraction in a table
 cell is not read as LaTeX again

---
 latex2json/parser/packages/boxes.py | 20 +++++++++++---
 latex2json/parser/tex_parser.py     | 42 ++++++++++++++++++++++++++---
 2 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 4298154..c2ac063 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -65,6 +65,19 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
     return var_name
 
 
+def make_one_line(content: str | Dict | List[Dict]) -> str | Dict | List[Dict]:
+    """Make the text into one line, but not the formulas"""
+    if isinstance(content, str):
+        return strip_latex_newlines(content)
+    if isinstance(content, list):
+        return [make_one_line(token) for token in content]
+    if content.get("type") == "group":
+        return {**content, "content": make_one_line(content["content"])}
+    if content.get("type") == "text" and isinstance(content["content"], str):
+        return {**content, "content": re.sub(r"\s*\n\s*", " ", content["content"])}
+    return content
+
+
 class BoxHandler(TokenHandler):
     def __init__(self, process_content_fn: Optional[Callable] = None):
         super().__init__(process_content_fn)
@@ -118,13 +131,12 @@ class BoxHandler(TokenHandler):
         if not extracted_content:
             return None, end_pos
 
-        if s.startswith("\\mbox"):
-            # make everything into one line
-            extracted_content = strip_latex_newlines(extracted_content)
-
         if self.process_content_fn:
             extracted_content = self.process_content_fn(extracted_content)
 
+        if s.startswith("\\mbox"):
+            extracted_content = make_one_line(extracted_content)
+
         if isinstance(extracted_content, str):
             return {"type": "text", "content": extracted_content}, end_pos
         elif isinstance(extracted_content, dict):
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index c30ce76..7ae3ff2 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -63,6 +63,29 @@ LETTER_COMMAND_END_PATTERN = re.compile(
 COMMAND_AT_END_PATTERN = re.compile(r"(?<!\\)(?:\\\\)*\\[a-zA-Z@]+\s*$")
 
 
+TEXT_SPECIAL_PATTERN = re.compile(r"[%$&{}\\]")
+
+
+def escape_text(match: re.Match) -> str:
+    char = match.group(0)
+    return r"\textbackslash{}" if char == "\\" else "\\" + char
+
+
+def escape_plain_text(token: str | Dict | List[Dict]) -> str | Dict | List[Dict]:
+    """Write the text of plain text tokens as LaTeX again, to be parsed once more"""
+    if isinstance(token, str):
+        return TEXT_SPECIAL_PATTERN.sub(escape_text, token)
+    if isinstance(token, list):
+        return [escape_plain_text(t) for t in token]
+    if (
+        token.get("type") == "text"
+        and "styles" not in token
+        and isinstance(token["content"], str)
+    ):
+        return {**token, "content": escape_plain_text(token["content"])}
+    return token
+
+
 def join_letter_command(content: str, pos: int) -> str:
     """Remove the white space at pos if it only ends the name of a letter command"""
     if content[pos : pos + 1].isspace() and LETTER_COMMAND_END_PATTERN.search(
@@ -398,7 +421,8 @@ class LatexParser:
             token = {"type": "text", "content": token}
         elif isinstance(token, list):
             for t in token:
-                self._process_token(t, tokens)
+                self._process_token(t, tokens, add_space=add_space)
+                add_space = False
             return
         else:
             if token["type"] == "bibliography":
@@ -471,10 +495,17 @@ class LatexParser:
         self.add_token(token, tokens, add_space)
 
     def _check_handlers(
-        self, content: str, tokens: List[Dict], add_space: bool = False
+        self,
+        content: str,
+        tokens: List[Dict],
+        add_space: bool = False,
+        parsed_again: bool = False,
     ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
+        Args:
+            parsed_again: Whether the text is parsed a second time, as in tables
+
         Returns:
             Tuple[bool, int]: (whether content was matched, new position)
         """
@@ -486,6 +517,8 @@ class LatexParser:
                     # handler could not consume anything e.g. unclosed block
                     continue
                 if token:
+                    if parsed_again:
+                        token = escape_plain_text(token)
                     self._process_token(
                         token,
                         tokens,
@@ -727,7 +760,10 @@ class LatexParser:
             # try each handler
             add_space = current_pos > 0 and content[current_pos - 1].isspace()
             matched, end_pos = self._check_handlers(
-                content[current_pos:], tokens, add_space
+                content[current_pos:],
+                tokens,
+                add_space,
+                parsed_again=not handle_unknown_commands,
             )
             current_pos += end_pos
             if matched:
-- 
2.43.0


From 9e19a5ff0a1d084ef4d19a0b88cd028597b69e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:49 +0000
Subject: [PATCH 127/169] fix: white space between the notes of a citation

---
 latex2json/parser/handlers/content_command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index f4decd4..5c8c9f4 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -60,7 +60,7 @@ RAW_PATTERNS = OrderedDict(
         # Citations
         (
             "citation",
-            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\*?\s*%s%s\s*{"
+            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\*?\s*%s\s*%s\s*{"
             % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
         ),
         # ("citetext", r"\\citetext\s*{"), # remove citetext since it is just like regular latex -> handled by text_formatting
-- 
2.43.0


From d4f91d93e47bae7117316790fd39fd575f10355d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:51 +0000
Subject: [PATCH 128/169] fix: the width of a subtable is not part of its
 content

---
 latex2json/parser/handlers/environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index afe1f32..dd55792 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -105,6 +105,8 @@ ENV_ARGS = {
     "table": {"optional": 1},  # Expects 1 optional argument for placement
     "figure": {"optional": 1},  # Expects 1 optional argument for placement
     "subfigure": {"optional": 1, "mandatory": 1},
+    "subtable": {"optional": 1, "mandatory": 1},
+    "subsubtable": {"optional": 1, "mandatory": 1},
     "wrapfigure": {"optional": 1, "mandatory": 2},
     "adjustbox": {"mandatory": 1},  # Expects 1 mandatory argument for width
     # ... other environments with known argument patterns
-- 
2.43.0


From 1842029f1f1987aeeb92fa024f405456e004ab55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:20 +0000
Subject: [PATCH 129/169] fix: optional arguments between the arguments of an
 environment are not content

---
 latex2json/parser/handlers/environment.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index dd55792..d9bc7f3 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -13,6 +13,9 @@ import logging
 
 BEGIN_GROUP_PATTERN = re.compile(r"\\(?:begin|b)group\b")
 
+# optional arguments before a mandatory one
+OPTIONAL_ARGS_PATTERN = re.compile(r"(?:\s*\[[^\[\]{}]*\])+(?=\s*\{)")
+
 ENV_NAME_BRACE_PATTERN = r"\{([^}]*?)\}"
 
 # e.g. \list \endlist, \xxx \endxxx etc
@@ -260,10 +263,20 @@ class BaseEnvironmentHandler(TokenHandler):
                     opt_args -= 1
 
             req_args = d.get("mandatory", 0)
-            args, end_pos = extract_args(inner_content, req_args, opt_args)
-            if args["req"]:
-                token["args"] = args["req"]
+            args, end_pos = extract_args(inner_content, 0, opt_args)
             inner_content = inner_content[end_pos:]
+            required = []
+            for _ in range(req_args):
+                # further optional arguments e.g. \begin{minipage}[t][5cm]{3cm},
+                # \begin{wrapfigure}[9]{r}[2pt]{3cm}
+                optional = OPTIONAL_ARGS_PATTERN.match(inner_content)
+                if optional:
+                    inner_content = inner_content[optional.end() :]
+                args, end_pos = extract_args(inner_content, 1)
+                required.extend(args["req"])
+                inner_content = inner_content[end_pos:]
+            if required:
+                token["args"] = required
 
         token["content"] = inner_content
 
-- 
2.43.0


From 156a4450ab1573741e31d8d0d12e2616e066dd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:39 +0000
Subject: [PATCH 130/169] fix: \subfloat without a caption or with two, stars
 and second options of \includegraphics

---
 latex2json/parser/handlers/content_command.py |  6 ++-
 latex2json/parser/handlers/text_formatting.py | 43 ++++++++++---------
 2 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 5c8c9f4..0d01ff3 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -54,7 +54,11 @@ RAW_PATTERNS = OrderedDict(
         ("url", r"\\(?:url|path)\s*{"),
         ("doi", r"\\doi\s*{"),
         # Graphics
-        ("includegraphics", r"\\includegraphics\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        (
+            "includegraphics",
+            r"\\includegraphics\*?\s*(%s(?:\s*%s)?)\s*{"
+            % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
+        ),
         ("includepdf", r"\\includepdf\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("graphicspath", r"\\graphicspath\s*{"),  # ignore?
         # Citations
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index cefe6c7..490c283 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -66,7 +66,7 @@ PATTERNS = {
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
     "columns": re.compile(r"\\(?:onecolumn\b|twocolumn(?![a-zA-Z])\s*\[?)"),
-    "subfloat": re.compile(r"\\subfloat\s*\["),
+    "subfloat": re.compile(r"\\subfloat(?=\s*[\[{])"),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
 
@@ -102,6 +102,14 @@ class TextFormattingHandler(TokenHandler):
             return normalize_text_token(out)
         return normalize_text_token(content)
 
+    def _process_tokens(self, content: str) -> List[Dict]:
+        if self.process_content_fn:
+            out = self.process_content_fn(content)
+            if isinstance(out, list):
+                return out
+            return [normalize_text_token(out)]
+        return [normalize_text_token(content)]
+
     def _handle_styled(
         self, content: str, match: re.Match
     ) -> Tuple[Dict | List[Dict], int]:
@@ -260,30 +268,25 @@ class TextFormattingHandler(TokenHandler):
         return None, total_pos
 
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
-        start_pos = match.end() - 1
-        caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
-        if caption is None:
-            return None, match.end()
-        caption = caption.strip()
+        # \subfloat[caption]{..} or \subfloat[list entry][caption]{..}
+        captions, total_pos = extract_nested_content_sequence_blocks(
+            content[match.end() :], "[", "]", max_blocks=2
+        )
+        total_pos += match.end()
+        caption = captions[-1].strip() if captions else ""
 
-        total_pos = start_pos + end_pos
         block, end_pos = extract_nested_content(content[total_pos:])
-        if block:
+        if block is not None:
             total_pos += end_pos
+        elif not captions:
+            return None, match.end()
 
-        caption = self._process_content(caption)
-        if not isinstance(caption, list):
-            caption = [caption]
-        caption_token = {
-            "type": "caption",
-            "content": caption,
-        }
-        out_tokens = [caption_token]
+        out_tokens = []
+        if caption:
+            caption = self._process_tokens(caption)
+            out_tokens.append({"type": "caption", "content": caption})
         if block:
-            block = self._process_content(block)
-            if not isinstance(block, list):
-                block = [block]
-            out_tokens.extend(block)
+            out_tokens.extend(self._process_tokens(block))
 
         return {
             "type": "group",
-- 
2.43.0


From 52aedc5e003b296ae5e14ec11df5948f0100948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:40 +0000
Subject: [PATCH 131/169] fix: the pages of \includepdf end at the next option

---
 latex2json/parser/handlers/content_command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 0d01ff3..d6cccdf 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -260,7 +260,7 @@ class ContentCommandHandler(TokenHandler):
             pages = None
             if options:
                 # Match both pages=1-3 and pages={1-3} formats
-                pages_match = re.search(r"pages=(?:{([0-9-,]+)}|([0-9-,]+))", options)
+                pages_match = re.search(r"pages=(?:{([0-9-,]+)}|([0-9-]+))", options)
                 # Use first non-None group (either braced or unbraced match)
                 pages = (
                     next((g for g in pages_match.groups() if g is not None), None)
-- 
2.43.0


From 3799ca38100419eaadfb4f2001095c286ebb37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:20 +0000
Subject: [PATCH 132/169] fix: \textup, \textmd and \textnormal do not end the
 declaration they stand in

---
 latex2json/parser/handlers/legacy_formatting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index b1533ec..5389ac8 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -87,6 +87,9 @@ PATTERNS = {
 
 LEGACY_FORMAT_MAPPING: Dict[str, str] = {**LEGACY_FONT_MAPPING, **LEGACY_SIZE_MAPPING}
 
+# commands that only format their argument: the current declaration goes on after them
+NOT_A_DECLARATION = r"(?!\\text(?:up|normal|md)(?![a-zA-Z]))"
+
 # negative lookbehind that ensures the preceding character is not a backslash
 OPENING_BRACE_PATTERN = re.compile(r"(?<!\\){")
 
@@ -161,10 +164,11 @@ class LegacyFormattingHandler(TokenHandler):
                     end_pos = content_len
 
                     # if we find a similar pattern inside, we need to handle everything and skip nested environments
-                    if re.search(pattern.pattern, next_content):
+                    next_pattern = NOT_A_DECLARATION + pattern.pattern
+                    if re.search(next_pattern, next_content):
                         # find the next pattern or opening brace
                         pattern_or_open_brace = re.compile(
-                            pattern.pattern + "|" + OPENING_BRACE_PATTERN.pattern
+                            next_pattern + "|" + OPENING_BRACE_PATTERN.pattern
                         )
                         pos = 0
 
-- 
2.43.0


From 2049d685fbe2c6403c40ac3a34c792f2b74f47b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:33 +0000
Subject: [PATCH 133/169] fix: a comment between \url and its argument does not
 make % in the url a comment

---
 latex2json/utils/tex_utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 34479e3..842db42 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -340,7 +340,7 @@ def is_escaped(pos: int, text: str) -> bool:
 COMMENT_OR_LITERAL_PATTERN = re.compile(
     r"(?P<literal>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
     r"|\\verb\*?(?P<delim>[^a-zA-Z*\s])[^\n]*?(?P=delim)"
-    r"|\\(?:url|href)\s*\{[^{}\n]*\})"
+    r"|\\(?:url|href)(?P<gap>(?:\s|%[^\n]*\n)*)\{[^{}\n]*\})"
     r"|(?P<block>\\begin\s*\{comment\}.*?\\end\s*\{comment\})"
     r"|\\."
     r"|(?P<line>(?<![^\n])[^\S\n]*%[^\n]*(?:\n|\Z))"
@@ -386,7 +386,12 @@ def strip_latex_comments(text: str, keep_lines: bool = True) -> str:
         pos = match.end()
         if match.group("literal"):
             flush()
-            out.append(match.group(0))
+            literal = match.group(0)
+            if match.group("gap"):
+                # comments before the argument
+                gap = re.sub(r"%[^\n]*", "", match.group("gap"))
+                literal = literal.replace(match.group("gap"), gap, 1)
+            out.append(literal)
         elif match.group("line"):
             if keep_lines and match.group(0).endswith("\n"):
                 normal.append("\n")
-- 
2.43.0


From f8df3d3227904b77de751f67d135d519befbf450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:31 +0000
Subject: [PATCH 134/169] fix: a file that shows \documentclass in a code block
 is not the main file

---
 latex2json/tex_file_extractor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 7e7e9b3..aadf53c 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -1,4 +1,5 @@
 import os
+import re
 import gzip
 import tarfile
 import tempfile
@@ -10,6 +11,12 @@ from latex2json.utils.tex_utils import strip_latex_comments
 from latex2json.utils.encoding import read_file
 
 
+# what a code block shows is not LaTeX of the file
+CODE_PATTERN = re.compile(
+    r"\\begin\s*\{(verbatim|lstlisting)\}.*?\\end\s*\{\1\}", re.DOTALL
+)
+
+
 class TexFileExtractor:
     """A class to handle reading and processing TeX files from various sources."""
 
@@ -23,7 +30,7 @@ class TexFileExtractor:
         Returns:
             bool: True if the content appears to be a main TeX file
         """
-        clean_content = strip_latex_comments(content)
+        clean_content = CODE_PATTERN.sub("", strip_latex_comments(content))
         if r"\documentclass" in clean_content:
             return True
         if r"\begin{document}" in clean_content:
-- 
2.43.0


From 8ab93519c3de33d6698243561e5f81104392bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:06 +0000
Subject: [PATCH 135/169] fix: \cites with more than one citation

---
 latex2json/parser/handlers/content_command.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index d6cccdf..348331d 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -91,6 +91,10 @@ PATTERNS = OrderedDict(
 GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
+# a further citation after \cites{..}
+CITES_PATTERN = re.compile(r"(?:\[[^\]]*\]){0,2}\{[^{}]*\}")
+
+
 class ContentCommandHandler(TokenHandler):
     def __init__(self, process_content_fn: Optional[Callable] = None):
         super().__init__(process_content_fn)
@@ -139,6 +143,15 @@ class ContentCommandHandler(TokenHandler):
                     # Create token based on command type
                     token = self._create_token(pattern_name, match, nested_content)
 
+                    if match.group(0).startswith(r"\cites"):
+                        # \cites[note]{a}[note]{b}..
+                        more = CITES_PATTERN.match(content[end_pos:])
+                        if more:
+                            tokens, length = self.handle(r"\cites" + content[end_pos:])
+                            if not isinstance(tokens, list):
+                                tokens = [tokens]
+                            return [token] + tokens, end_pos + length - len(r"\cites")
+
                     return token, end_pos
 
         return None, 0
-- 
2.43.0


From 019d458c41521a498ff90e39848cd9fe31c90c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:05 +0000
Subject: [PATCH 136/169] fix: % in \doi and \path is no comment

---
 latex2json/utils/tex_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 842db42..72b7a39 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -340,7 +340,7 @@ def is_escaped(pos: int, text: str) -> bool:
 COMMENT_OR_LITERAL_PATTERN = re.compile(
     r"(?P<literal>\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
     r"|\\verb\*?(?P<delim>[^a-zA-Z*\s])[^\n]*?(?P=delim)"
-    r"|\\(?:url|href)(?P<gap>(?:\s|%[^\n]*\n)*)\{[^{}\n]*\})"
+    r"|\\(?:url|href|doi|path)(?P<gap>(?:\s|%[^\n]*\n)*)\{[^{}\n]*\})"
     r"|(?P<block>\\begin\s*\{comment\}.*?\\end\s*\{comment\})"
     r"|\\."
     r"|(?P<line>(?<![^\n])[^\S\n]*%[^\n]*(?:\n|\Z))"
-- 
2.43.0


From c99be891c949cb6d06aeca829c1e77d273cf2ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:40 +0000
Subject: [PATCH 137/169] fix: % in \doi and \path is kept by the preprocessor

---
 latex2json/parser/tex_preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 3ac750e..7ecc070 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -51,7 +51,7 @@ ALL_VERBATIM_PATTERNS.append(
 DELIM_PATTERN_WITH_QUOTES = re.compile(DELIM_PATTERN.pattern + r"|`")
 
 # url with a %, which is no comment
-URL_WITH_PERCENT_PATTERN = re.compile(r"\\(?:url|href)\s*\{[^{}\n]*%[^{}\n]*\}")
+URL_WITH_PERCENT_PATTERN = re.compile(r"\\(?:url|href|doi|path)\s*\{[^{}\n]*%[^{}\n]*\}")
 
 QUOTE_PATTERNS = {
     "double_quotes": re.compile(
-- 
2.43.0


From 816b2fb4bc496efc534f5ea68d6639ee3034a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 138/169] fix: the date of a required package or format is not
 content

---
 latex2json/parser/handlers/formatting.py | 2 +-
 latex2json/parser/patterns.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index f6396e0..4a5be27 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -51,7 +51,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "class_setup",
             re.compile(
-                r"\\(?:NeedsTeXFormat\s*\{([^}]+)\}|(?:ProvidesClass|ProvidesPackage)\s*%s\s*\[)"
+                r"\\(?:NeedsTeXFormat\s*\{([^}]+)\}(?:\s*\[\d[^\]]*\])?|(?:ProvidesClass|ProvidesPackage)\s*%s\s*\[)"
                 % BRACE_CONTENT_PATTERN,
                 re.DOTALL,
             ),
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 25a35f2..055c9a4 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -55,7 +55,7 @@ DOCUMENTCLASS_PATTERN = re.compile(
     re.DOTALL,
 )
 USEPACKAGE_PATTERN = re.compile(
-    r"\\(?:usepackage|RequirePackage)\s*%s\s*%s"
+    r"\\(?:usepackage|RequirePackage)\s*%s\s*%s(?:\s*\[\d[^\]]*\])?"
     % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
-- 
2.43.0


From 99b6911bc2a05ea199da4ac03bbb36c6eba72a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 139/169] fix: optional arguments of contents lists and page
 styles are not content

---
 latex2json/parser/handlers/formatting.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 4a5be27..1b19c90 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -76,8 +76,12 @@ RAW_PATTERNS = OrderedDict(
         ("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),
         ("addtocontents", r"\\(?:addtocontents|addtocounter)\s*\{[^}]*\s*\}\s*{"),
         ("titlecontents", r"\\titlecontents\s*{"),
-        ("contents", r"\\(?:contentspage|startcontents)\b"),
-        ("printcontents", r"\\printcontents\s*{"),
+        (
+            "contents",
+            r"\\(?:contentspage\b|(?:start|stop|resume)contents(?![a-zA-Z])\*?%s)"
+            % OPTIONAL_BRACE_PATTERN,
+        ),
+        ("printcontents", r"\\printcontents\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "page",
             r"\\enlargethispage\*?\s*\{[^}]*\}|\\(?:allowdisplaybreaks|nopagebreak)\s*\[\d\]|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
@@ -116,7 +120,11 @@ RAW_PATTERNS = OrderedDict(
         ),
         ("bib", r"\\printbibliography\b"),
         ("bibmacro", r"\\renewbibmacro\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
-        ("newstyle", r"\\(?:newpagestyle|renewpagestyle)\s*\{[^}]*\}\s*{"),
+        (
+            "newstyle",
+            r"\\(?:newpagestyle|renewpagestyle)\s*\{[^}]*\}\s*%s\s*{"
+            % OPTIONAL_BRACE_PATTERN,
+        ),
         # ("font", r"\\(?:mdseries|bfseries|itshape|slshape|normalfont|ttfamily)\b"),
         # setters
         ("lstset", r"\\lstset\s*{"),
-- 
2.43.0


From 18b9c855010489b7fc1f9bee03cd918167374bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:03 +0000
Subject: [PATCH 140/169] fix: a length set without an equals sign is not
 content, nor does it hide what follows

---
 latex2json/parser/handlers/formatting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 1b19c90..83444e8 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -5,6 +5,7 @@ from typing import Callable, Dict, List, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import (
     TEXT_BACKSLASH_PATTERN,
+    LENGTH_NUMBER,
     LENGTH_VALUE,
     STRETCH,
     NUMBER_PATTERN,
@@ -96,8 +97,8 @@ RAW_PATTERNS = OrderedDict(
             r"|(?:above|below)(?:display|caption)(?:short)?skip|hsize|vsize|textwidth|textheight|columnwidth|linewidth"
             r"|parskip|parindent|leftmargin|rightmargin|topmargin|(?:odd|even)sidemargin|headsep|headheight|footskip|footnotesep"
             r"|emergencystretch|lineskip|hoffset|voffset|paperwidth|paperheight|arrayrulewidth|fboxsep|fboxrule"
-            r"|topskip|mathindent|hangindent|textfloatsep|floatsep|intextsep)(?![a-zA-Z])\s*=\s*"
-            + LENGTH_VALUE
+            r"|topskip|mathindent|hangindent|textfloatsep|floatsep|intextsep)(?![a-zA-Z])"
+            + r"(?:\s*=\s*%s|\s*%s)" % (LENGTH_VALUE, LENGTH_NUMBER)
             + STRETCH,
         ),
         (
@@ -226,7 +227,7 @@ RAW_PATTERNS = OrderedDict(
             r"centerline\b|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
             r"topsep\b|parsep\b|partopsep\b|"
-            r"labelsep(?![a-zA-Z])\s*\{?([^\}]*)\}?|"
+            r"labelsep(?![a-zA-Z])(?:\s*\{[^}]*\})?|"
             + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
-- 
2.43.0


From 0476bfd402c6078da6c2e21110f6cfea28c23046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:07 +0000
Subject: [PATCH 141/169] fix: true lengths after \vskip, \hskip and \kern

---
 latex2json/parser/handlers/formatting.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 83444e8..600a637 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -103,7 +103,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "vskip",
-            r"\\vskip\s*(?:" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)" + STRETCH,
+            r"\\vskip\s*(?:" + LENGTH_NUMBER + "|" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)" + STRETCH,
         ),
         (
             "penalty",
@@ -162,8 +162,8 @@ RAW_PATTERNS = OrderedDict(
             r"\\(?:"
             r"(?:quad|qquad|xspace|space)(?![a-zA-Z])|,|;|:|\!|"  # \quad, \qquad, \, \; \:
             r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
-            r"hskip\s*(?:%s|%s)%s"
-            % (number_points_suffix, LENGTH_VALUE, STRETCH)  # \hskip 10pt plus 1fil
+            r"hskip\s*(?:%s|%s|%s)%s"
+            % (LENGTH_NUMBER, number_points_suffix, LENGTH_VALUE, STRETCH)  # \hskip 10pt plus 1fil
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
             r")",
         ),
@@ -172,7 +172,7 @@ RAW_PATTERNS = OrderedDict(
             r"\\mathtoolsset\s*%s" % (BRACE_CONTENT_PATTERN),
         ),
         # \kern, which is technically spacing but more like a length between characters. so ignore
-        ("kern", r"\\kern\s*(?:%s|%s)" % (number_points_suffix, LENGTH_VALUE)),
+        ("kern", r"\\kern\s*(?:%s|%s|%s)" % (LENGTH_NUMBER, number_points_suffix, LENGTH_VALUE)),
         # tcb
         ("tcb", r"\\(?:tcbset|tcbuselibrary)\s*{"),
         # options
-- 
2.43.0


From 9b5fe949a21fb2f3b13a3857f02dc53636c6f6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:13 +0000
Subject: [PATCH 142/169] fix: the scale of \font is not content

---
 latex2json/parser/handlers/new_definition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 8d0471b..55723a5 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -119,7 +119,7 @@ PATTERNS = {
     # color/font
     "definecolor": re.compile(r"\\definecolor\s*{"),
     "font": re.compile(
-        r"\\font\s*\\([^\s=]+)\s*=\s*([^\s]+)(?:\s+at\s+(\d+(?:\.\d+)?)(pt|cm|mm|in|ex|em|bp|dd|pc|sp))?"
+        r"\\font\s*\\([^\s=]+)\s*=\s*([^\s]+)(?:\s+scaled\s*(?:\d+|\\magstep(?:half|\s*\d))(?!\w))?(?:\s+at\s+(\d+(?:\.\d+)?)(pt|cm|mm|in|ex|em|bp|dd|pc|sp))?"
     ),
 }
 
-- 
2.43.0


From 314f6d6e1e412a151ddbc164ad58cb839ee0e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:10 +0000
Subject: [PATCH 143/169] fix: white space before a command without arguments
 in a table cell

---
 latex2json/parser/tex_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 7ae3ff2..d3fcb3e 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -820,7 +820,7 @@ class LatexParser:
                         current_pos = end_pos
                         continue
 
-            self.add_token(content[current_pos], tokens)
+            self.add_token(content[current_pos], tokens, add_space)
             current_pos += 1
 
         return tokens
-- 
2.43.0


From 6c722a0f8742637ec2118dde338f7fc74058dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:47 +0000
Subject: [PATCH 144/169] fix: numbers that are too large or no decimal digits
 no longer fail or exhaust memory

---
 latex2json/parser/handlers/content_command.py |  3 ++-
 latex2json/parser/handlers/environment.py     |  6 ++++--
 latex2json/parser/handlers/formatting.py      |  3 ++-
 latex2json/parser/handlers/new_definition.py  |  4 +++-
 latex2json/parser/handlers/tabular.py         |  5 +++--
 latex2json/parser/handlers/text_formatting.py |  4 ++--
 latex2json/parser/packages/boxes.py           |  5 +++--
 latex2json/utils/conversions.py               | 11 +++++++++++
 8 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 348331d..bb3cf8b 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -2,6 +2,7 @@ import re
 from collections import OrderedDict
 from typing import Callable, Dict, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
+from latex2json.utils.conversions import to_number
 from latex2json.utils.tex_utils import extract_nested_content
 
 SECTION_LEVELS = {
@@ -258,7 +259,7 @@ class ContentCommandHandler(TokenHandler):
             page_number = None
             if options:
                 page_match = re.search(r"page=(\d+)", options)
-                page_number = int(page_match.group(1)) if page_match else None
+                page_number = to_number(page_match.group(1)) if page_match else None
                 if page_number is not None:
                     return {
                         "type": "includegraphics",
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index d9bc7f3..be8725b 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -1,6 +1,7 @@
 import re
 from typing import Callable, Dict, List, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
+from latex2json.utils.conversions import to_number
 from latex2json.utils.tex_utils import (
     extract_args,
     extract_nested_content,
@@ -557,8 +558,9 @@ class EnvironmentHandler(BaseEnvironmentHandler):
         )
         if blocks:
             first_arg = blocks[0].strip()
-            if first_arg.isdigit():
-                token["num_args"] = int(first_arg)
+            if first_arg.isdecimal():
+                # TeX has no more than 9 arguments
+                token["num_args"] = to_number(first_arg, 9)
             for block in blocks[1:]:
                 token["optional_args"].append(block.strip())
 
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 600a637..a71b4b9 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -14,6 +14,7 @@ from latex2json.parser.patterns import (
     number_points_suffix,
     command_with_opt_brace_pattern,
 )
+from latex2json.utils.conversions import to_number
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_nested_content_sequence_blocks,
@@ -357,7 +358,7 @@ class FormattingHandler(TokenHandler):
             if "round-precision" in options:
                 precision_match = re.search(r"round-precision=(\d+)", options)
                 if precision_match:
-                    precision = int(precision_match.group(1))
+                    precision = to_number(precision_match.group(1), 100)
                     decimal_num = decimal.Decimal(number)
                     quantizer = decimal.Decimal("0." + "0" * precision)
                     rounded = decimal_num.quantize(
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 55723a5..9d1686b 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -6,6 +6,7 @@ from latex2json.parser.patterns import (
     command_pattern,
     command_with_opt_brace_pattern,
 )
+from latex2json.utils.conversions import to_number
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_nested_content_pattern,
@@ -389,7 +390,8 @@ class NewDefinitionHandler(TokenHandler):
         # Add number of arguments if specified
         num_args = 0
         if match.group(3):
-            num_args = int(match.group(3))
+            # TeX has no more than 9 arguments
+            num_args = to_number(match.group(3), 9)
 
         # Add default values if present
         defaults = []
diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 4ddf22c..f9897f9 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -2,6 +2,7 @@ import re
 from typing import Callable, Dict, List, Optional, Tuple
 from latex2json.parser.flatten import flatten_tokens
 from latex2json.parser.handlers.environment import BaseEnvironmentHandler
+from latex2json.utils.conversions import to_number
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_nested_content_pattern,
@@ -196,13 +197,13 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
                 # Handle multicolumn first
                 mcol_match = search_structure(MULTICOLUMN_PATTERN, content)
                 if mcol_match:
-                    colspan = int(mcol_match.group(1))
+                    colspan = to_number(mcol_match.group(1))
                     content = replace_structure(content, mcol_match)
 
                 # Then handle multirow within the content
                 mrow_match = search_structure(MULTIROW_PATTERN, content)
                 if mrow_match:
-                    rowspan = int(mrow_match.group(1))
+                    rowspan = to_number(mrow_match.group(1))
                     content = replace_structure(content, mrow_match)
 
                 # Create cell structure
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 490c283..e542c2b 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -5,7 +5,7 @@ import re
 
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import BRACE_CONTENT_PATTERN, OPTIONAL_BRACE_PATTERN
-from latex2json.utils.conversions import int_to_roman
+from latex2json.utils.conversions import int_to_roman, to_number
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_nested_content_sequence_blocks,
@@ -294,7 +294,7 @@ class TextFormattingHandler(TokenHandler):
         }, total_pos
 
     def _handle_roman_numerals(self, content: str, match: re.Match) -> Tuple[str, int]:
-        numeral = int(match.group(1))
+        numeral = to_number(match.group(1))
 
         roman_numeral = int_to_roman(numeral)
         return {"type": "text", "content": roman_numeral}, match.end()
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index c2ac063..8d2d099 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -5,6 +5,7 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.new_definition import command_with_opt_brace_pattern
 from latex2json.parser.patterns import OPTIONAL_BRACE_PATTERN
+from latex2json.utils.conversions import to_number
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     extract_delimited_args,
@@ -198,9 +199,9 @@ class BoxHandler(TokenHandler):
 
         # check if box_name is a number or \command
         save_box_dict = self.saved_boxes
-        is_digit = box_name.isdigit()
+        is_digit = box_name.isdecimal()
         if is_digit:
-            box_name = int(box_name)
+            box_name = to_number(box_name)
             save_box_dict = self.numbered_boxes
         else:
             box_name = parse_varname_from_brace_or_backslash(box_name)
diff --git a/latex2json/utils/conversions.py b/latex2json/utils/conversions.py
index 4d7d0f5..85f403c 100644
--- a/latex2json/utils/conversions.py
+++ b/latex2json/utils/conversions.py
@@ -1,3 +1,14 @@
+def to_number(digits: str, maximum: int = 2147483647) -> int:
+    """Value of a string of digits, at most maximum.
+
+    int() refuses very long strings, and TeX has no larger numbers
+    """
+    digits = digits.lstrip("0")
+    if len(digits) > len(str(maximum)):
+        return maximum
+    return min(int(digits or "0"), maximum)
+
+
 def int_to_roman(num: int) -> str:
     roman_symbols = [
         ("M", 1000),
-- 
2.43.0


From 38ec559a6c3b1d59b35879bd9366d5b96f698316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:51 +0000
Subject: [PATCH 145/169] fix: declarations inside of many nested declarations
 no longer take cubic time

---
 latex2json/parser/handlers/environment.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index be8725b..7b8f7ca 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -29,6 +29,9 @@ ENVIRONMENT_PATTERN = re.compile(
     re.DOTALL,
 )
 
+BEGIN_ENV_PATTERN = re.compile(r"\\begin\s*%s" % ENV_NAME_BRACE_PATTERN, re.DOTALL)
+ENV_PAIR_END_PATTERN = re.compile(r"\\end[\w@]")
+
 NEW_ENVIRONMENT_PATTERN = re.compile(
     r"\\(?:new|renew|provide)environment\*?\s*\{([^}]*?)\}",
 )
@@ -406,7 +409,11 @@ class BaseEnvironmentHandler(TokenHandler):
     def search(content: str) -> Optional[re.Match]:
         """Search for the next environment or group pattern match"""
         # search both to see which one appears first
-        env_match = ENVIRONMENT_PATTERN.search(content)
+        # looking for \xxx \endxxx takes long, most content has none of them
+        if ENV_PAIR_END_PATTERN.search(content):
+            env_match = ENVIRONMENT_PATTERN.search(content)
+        else:
+            env_match = BEGIN_ENV_PATTERN.search(content)
         group_match = BEGIN_GROUP_PATTERN.search(content)
 
         # Return the first match found (or None if neither found)
-- 
2.43.0


From 7ccc37b06384987ada700c9385fbc9476588022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:14 +0000
Subject: [PATCH 146/169] fix: tokens that end up in a formula or an argument
 of a table cell are put back there

---
 latex2json/parser/handlers/tabular.py | 39 ++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f9897f9..1432632 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -8,6 +8,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
+    flatten_all_to_string,
     is_escaped as is_escaped_char,
 )
 
@@ -28,6 +29,7 @@ MULTIROW_PATTERN = re.compile(
 TABULARNEWLINE_PATTERN = re.compile(r"\\tabularnewline(?![a-zA-Z])")
 
 
+REFERENCE_KEY_PATTERN = re.compile(r"(`\|REF_\d+\|`)")
 STRUCTURE_KEY_PATTERN = re.compile(r"(`\|TABLE_STRUCT_\d+\|`)")
 
 MAKECELL_SHORTSTACK_PATTERN = re.compile(
@@ -289,6 +291,41 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
     return current_content, reference_map
 
 
+def restore_references(value, reference_map: Dict[str, Dict]):
+    """Put back the references inside a token, e.g. in the content of a group"""
+    if isinstance(value, str):
+
+        def source(match: re.Match) -> str:
+            token = reference_map.get(match.group(0))
+            if not token:
+                return match.group(0)
+            return flatten_all_to_string([token])
+
+        return REFERENCE_KEY_PATTERN.sub(source, value)
+    if isinstance(value, dict):
+        return {k: restore_references(v, reference_map) for k, v in value.items()}
+    if not isinstance(value, list):
+        return value
+
+    out = []
+    for token in value:
+        content = token.get("content") if isinstance(token, dict) else None
+        if not isinstance(content, str) or token.get("type") != "text":
+            out.append(restore_references(token, reference_map))
+            continue
+        for part in REFERENCE_KEY_PATTERN.split(content):
+            if part not in reference_map:
+                if part:
+                    out.append({**token, "content": part})
+                continue
+            reference = reference_map[part].copy()
+            styles = token.get("styles", []) + reference.get("styles", [])
+            if styles:
+                reference["styles"] = list(dict.fromkeys(styles))
+            out.append(reference)
+    return out
+
+
 class TabularHandler(BaseEnvironmentHandler):
     def __init__(
         self,
@@ -538,7 +575,7 @@ class TabularHandler(BaseEnvironmentHandler):
                                     )
                             out_cells.extend(chunks)
                         else:
-                            out_cells.append(cell)
+                            out_cells.append(restore_references(cell, reference_map))
                     cells = out_cells
 
                 if cells:
-- 
2.43.0


From 1951f5782be14a3a49656ae6e25a07496f641cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 147/169] fix: an escape for half a surrogate pair no longer
 makes the result unwritable

---
 latex2json/latex_maps/latex_unicode_converter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/latex_maps/latex_unicode_converter.py b/latex2json/latex_maps/latex_unicode_converter.py
index 045dc3b..4d028bc 100644
--- a/latex2json/latex_maps/latex_unicode_converter.py
+++ b/latex2json/latex_maps/latex_unicode_converter.py
@@ -77,7 +77,9 @@ class LatexUnicodeConverter:
             # Handle Unicode escape sequences
             if pattern_type == "unicode":
                 try:
-                    return chr(int(match.group(1), 16))
+                    code = int(match.group(1), 16)
+                    # surrogates are no characters, they cannot be written
+                    return c if 0xD800 <= code <= 0xDFFF else chr(code)
                 except (ValueError, IndexError):
                     return c
             # Handle regular LaTeX commands
-- 
2.43.0


From 1f3b43f80ff84ac726177fc6cf3ace3f58a914f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:18 +0000
Subject: [PATCH 148/169] fix: a label is no longer lost when texts of the same
 style are joined

---
 latex2json/structure/builder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index f0be35d..c808abe 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -221,6 +221,8 @@ class TokenBuilder:
                 }
                 if token.get("styles"):
                     token_copy["styles"] = token.get("styles")
+                if token.get("labels"):
+                    token_copy["labels"] = token.get("labels")
                 converted_tokens.append(token_copy)
             else:
                 converted_tokens.append(token)
@@ -242,6 +244,10 @@ class TokenBuilder:
                         current_text_token["content"] += (
                             " " + next_content if add_space else next_content
                         )
+                        if token.get("labels"):
+                            current_text_token["labels"] = (
+                                current_text_token.get("labels", []) + token["labels"]
+                            )
                     else:
                         concatenated_tokens.append(current_text_token)
                         current_text_token = token
-- 
2.43.0


From 3cb238c138cc4565baefe63bdb02b0a3c463a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:29 +0000
Subject: [PATCH 149/169] fix: taking a box or a label out of a formula no
 longer joins a command to the next letter or drops a dollar sign

---
 latex2json/parser/handlers/equation.py | 39 ++++++++++++++++++--------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 2d60cad..b37cd02 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -14,6 +14,18 @@ from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.environment import convert_any_env_pairs_to_begin_end
 from latex2json.parser.handlers.formatting import FormattingHandler
 
+
+def splice(before: str, content: str, after: str) -> str:
+    """Join parts of a formula so that no command name runs into a letter"""
+    if before[-1:].isalpha() and (content or after)[:1].isalpha():
+        if re.search(r"\\[a-zA-Z]+$", before):
+            before += " "
+    if content[-1:].isalpha() and after[:1].isalpha():
+        if re.search(r"\\[a-zA-Z]+$", content):
+            content += " "
+    return before + content + after
+
+
 # Define equation environments
 EQUATION_ENV = {
     "equation",  # basic numbered equation
@@ -82,10 +94,10 @@ class EquationHandler(TokenHandler):
                 content = ""
                 if x and isinstance(x.get("content", ""), str):
                     content = x.get("content")
-                equation = (
-                    equation[:backslash_pos]
-                    + content
-                    + equation[backslash_pos + end_pos :]
+                equation = splice(
+                    equation[:backslash_pos],
+                    content,
+                    equation[backslash_pos + end_pos :],
                 )
                 incr = 0
             else:
@@ -94,11 +106,13 @@ class EquationHandler(TokenHandler):
                 if end_pos > 0:
                     content = ""
                     if isinstance(x, dict) and isinstance(x.get("content", ""), str):
-                        content = x.get("content").strip().strip("$")
-                    equation = (
-                        equation[:backslash_pos]
-                        + content
-                        + equation[backslash_pos + end_pos :]
+                        content = x.get("content").strip()
+                        if content.count("$") == 2 and content[-1] == content[0] == "$":
+                            content = content[1:-1]
+                    equation = splice(
+                        equation[:backslash_pos],
+                        content,
+                        equation[backslash_pos + end_pos :],
                     )
                     incr = 0
             backslash_pos = equation.find("\\", backslash_pos + incr)
@@ -118,9 +132,10 @@ class EquationHandler(TokenHandler):
             label, end_pos = extract_nested_content(parsed_equation[start_pos:])
             if label:
                 labels.append(label)
-                parsed_equation = (
-                    parsed_equation[: match.start()]
-                    + parsed_equation[start_pos + end_pos :]
+                parsed_equation = splice(
+                    parsed_equation[: match.start()],
+                    "",
+                    parsed_equation[start_pos + end_pos :],
                 )
 
         return parsed_equation.strip(), list(reversed(labels))
-- 
2.43.0


From 6b1f38a1d042d09776862ac9a625216009cc656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:25 +0000
Subject: [PATCH 150/169] fix: a box in a formula that holds one formula with a
 box of its own loses its dollar signs in pairs

---
 latex2json/parser/handlers/equation.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index b37cd02..cd7ef2f 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -26,6 +26,21 @@ def splice(before: str, content: str, after: str) -> str:
     return before + content + after
 
 
+def is_single_formula(text: str) -> bool:
+    """Whether the text is one $...$ from its first to its last character"""
+    if len(text) < 3 or text[0] != "$" or text[-1] != "$":
+        return False
+    depth = 0
+    for char in re.sub(r"\\.", "  ", text[1:-1], flags=re.DOTALL):
+        if char == "{":
+            depth += 1
+        elif char == "}":
+            depth -= 1
+        elif char == "$" and depth == 0:
+            return False
+    return True
+
+
 # Define equation environments
 EQUATION_ENV = {
     "equation",  # basic numbered equation
@@ -107,7 +122,7 @@ class EquationHandler(TokenHandler):
                     content = ""
                     if isinstance(x, dict) and isinstance(x.get("content", ""), str):
                         content = x.get("content").strip()
-                        if content.count("$") == 2 and content[-1] == content[0] == "$":
+                        if is_single_formula(content):
                             content = content[1:-1]
                     equation = splice(
                         equation[:backslash_pos],
-- 
2.43.0


From eb34d67fcb5d37010d0b8b8f7600b0b48d847e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:07 +0000
Subject: [PATCH 151/169] fix: an \mbox in a formula keeps the rows of a matrix
 in it apart

---
 latex2json/parser/packages/boxes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 8d2d099..bbabbcb 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -69,6 +69,9 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 def make_one_line(content: str | Dict | List[Dict]) -> str | Dict | List[Dict]:
     """Make the text into one line, but not the formulas"""
     if isinstance(content, str):
+        if "\\begin" in content:
+            # the rows of a matrix stay apart
+            return re.sub(r"\s+", " ", content).strip()
         return strip_latex_newlines(content)
     if isinstance(content, list):
         return [make_one_line(token) for token in content]
-- 
2.43.0


From e9464df0b6d0cbcae4fe89183cb83c1e61dfe6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:00 +0000
Subject: [PATCH 152/169] fix: \@ifstar takes two command names as its
 branches, as in \@ifstar\@foo\@@foo

---
 .../parser/handlers/if_else_statements.py     | 37 +++++++++++++++----
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 797392e..426e1f3 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -5,7 +5,10 @@ import re
 
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.new_definition import extract_and_concat_nested_csname
-from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
+from latex2json.utils.tex_utils import (
+    extract_nested_content,
+    extract_nested_content_sequence_blocks,
+)
 from latex2json.parser.patterns import command_with_opt_brace_pattern, command_or_dim
 
 # Could be character, command, or more complex token
@@ -82,12 +85,15 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
         "@ifundefined": re.compile(r"\\@ifundefined\s*\{"),
-        "@ifstar": re.compile(r"\\@ifstar\s*\{"),
+        "@ifstar": re.compile(r"\\@ifstar\s*(?=\{|\\[a-zA-Z@])"),
         "if": IF_PATTERN,
     }
 )
 
 
+COMMAND_NAME_PATTERN = re.compile(r"\\[a-zA-Z@]+")
+
+
 def search_nested_if(content: str, start_delimiter: re.Pattern) -> Optional[re.Match]:
     """Find the next conditional that is closed by a \\fi"""
     pos = 0
@@ -271,20 +277,35 @@ class IfElseBlockHandler(TokenHandler):
     def _handle_ifstar(
         self, content: str, match: re.Match
     ) -> Tuple[Optional[Dict], int]:
-        start_pos = match.end() - 1
-        blocks, end_pos = extract_nested_content_sequence_blocks(
-            content[start_pos:], "{", "}", max_blocks=2
-        )
+        # each branch is a group or a single command, e.g. \@ifstar\@foo\@@foo
+        blocks = []
+        pos = match.end()
+        while len(blocks) < 2:
+            start_pos = pos + len(content[pos:]) - len(content[pos:].lstrip())
+            command = COMMAND_NAME_PATTERN.match(content, start_pos)
+            if command:
+                blocks.append(command.group(0))
+                pos = command.end()
+                continue
+            block, end_pos = (
+                extract_nested_content(content[start_pos:])
+                if content.startswith("{", start_pos)
+                else (None, 0)
+            )
+            if block is None:
+                break
+            blocks.append(block)
+            pos = start_pos + end_pos
         if len(blocks) == 0:
             return None, 0
-        if_content = blocks[0] if len(blocks) > 0 else ""
+        if_content = blocks[0]
         else_content = blocks[1] if len(blocks) > 1 else ""
         return {
             "type": "conditional-ifstar",
             "condition": "@ifstar",
             "if_content": if_content,
             "else_content": else_content,
-        }, start_pos + end_pos
+        }, pos
 
     def _handle_iffileexists(
         self, content: str, match: re.Match
-- 
2.43.0


From 6dc283be92ff1098b64e087e2df9dd97dfa7aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:31 +0000
Subject: [PATCH 153/169] fix: the expansion of a macro no longer joins a
 command name to the letters after it

---
 .../parser/handlers/command_processor.py      |  4 ++-
 latex2json/parser/handlers/equation.py        |  9 ++-----
 latex2json/utils/tex_utils.py                 | 26 +++++++++++++++++++
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 35649c1..3ab3b98 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -11,6 +11,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
     substitute_patterns,
     extract_nested_content,
+    separate_command_names,
     substitute_args,
 )
 from latex2json.parser.handlers.new_definition import (
@@ -459,6 +460,7 @@ class CommandProcessor:
 
                 if should_wrap:
                     out = wrap_math_mode_arg(out)
+            out = separate_command_names(text[: match.start()], out, text[pos:])
             return out, pos
 
         command2pattern = {
@@ -504,7 +506,7 @@ class CommandProcessor:
                 out, end_pos = cmd["handler"](match, text)
                 if match.group(0) == out:  # prevent infinite loop
                     return "", match.end()
-                return out, end_pos
+                return separate_command_names("", out, text[end_pos:]), end_pos
 
         return self._handle_csname(text)
 
diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index cd7ef2f..7c4d2b7 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -8,6 +8,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content,
     check_delimiter_balance,
     extract_equation_content,
+    separate_command_names,
 )
 from latex2json.parser.patterns import LABEL_PATTERN
 from latex2json.parser.handlers.base import TokenHandler
@@ -17,13 +18,7 @@ from latex2json.parser.handlers.formatting import FormattingHandler
 
 def splice(before: str, content: str, after: str) -> str:
     """Join parts of a formula so that no command name runs into a letter"""
-    if before[-1:].isalpha() and (content or after)[:1].isalpha():
-        if re.search(r"\\[a-zA-Z]+$", before):
-            before += " "
-    if content[-1:].isalpha() and after[:1].isalpha():
-        if re.search(r"\\[a-zA-Z]+$", content):
-            content += " "
-    return before + content + after
+    return before + separate_command_names(before, content, after) + after
 
 
 def is_single_formula(text: str) -> bool:
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 72b7a39..5919a2c 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -530,6 +530,32 @@ def check_string_has_hash_number(text: str) -> bool:
     return bool(NO_ESC_HASH_NUMBER_PATTERN.search(text))
 
 
+# a command name at the end, e.g. \alpha (but not the letters after the line break \\)
+COMMAND_NAME_AT_END_PATTERN = re.compile(r"(?<!\\)(?:\\\\)*\\[a-zA-Z@]+$")
+
+
+def separate_command_names(before: str, text: str, after: str) -> str:
+    r"""
+    Pad the text with spaces where it, or what surrounds it, has a command name that would
+    otherwise run into a letter, e.g. \alpha and b are \alpha b, never \alphab.
+    """
+
+    def runs_into(left: str, right: str) -> bool:
+        return (
+            right[:1].isalpha()
+            and left[-1:].isalpha()
+            and COMMAND_NAME_AT_END_PATTERN.search(left[-200:]) is not None
+        )
+
+    if not text:
+        return " " if runs_into(before, after) else text
+    if runs_into(before, text):
+        text = " " + text
+    if runs_into(text, after):
+        text += " "
+    return text
+
+
 def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
     r"""
     Substitute argument patterns in LaTeX command definitions.
-- 
2.43.0


From c0c05dd8033149ad357a38123ac6a7a1a8797a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:23 +0000
Subject: [PATCH 154/169] fix: authors of a compiled bibliography who have no
 given name, a prefix or an accent at the start are kept

---
 latex2json/parser/bib/compiled_bibtex.py | 35 +++++++++++++++++-------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 8a5470a..1ebf374 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -24,6 +24,20 @@ def apply_pattern_replacements(text):
     return result
 
 
+# a first letter: {\'E}mile, \'Emile, \O yvind, Emile
+INITIAL_PATTERN = re.compile(
+    r"\{(?:[^{}]|\{[^{}]*\})*\}|\\(?:[a-zA-Z]+\s*|[^a-zA-Z]\s*)(?:\{[^{}]*\}|[^\W\d_]?)|."
+)
+
+
+def get_name_part(part: str, name_block: str) -> str:
+    """Extract a part of a name e.g. family={...}"""
+    match = re.search(r"(?<![a-zA-Z])" + part + r"=(?=\{)", name_block)
+    if not match:
+        return ""
+    return (extract_nested_content(name_block[match.end() :])[0] or "").strip()
+
+
 def parse_compiled_bibtex_entry(entry_text):
     r"""
     Parses a single compiled BibTeX entry into a dictionary.
@@ -59,7 +73,7 @@ def parse_compiled_bibtex_entry(entry_text):
             entry_text[start_pos:], "{", "}", max_blocks=3
         )
 
-        author_blocks = author_blocks[2]
+        author_blocks = author_blocks[-1] if author_blocks else ""
 
         if author_blocks:
             # find the hash stuff
@@ -72,15 +86,16 @@ def parse_compiled_bibtex_entry(entry_text):
                 )
                 if auth_block:
                     # Extract family and given names
-                    family_match = re.search(r"(family=)\{([^}]+)\}", auth_block)
-                    given_match = re.search(r"(given=)\{([^}]+)\}", auth_block)
-                    if family_match and given_match:
-                        start_pos = family_match.end(1)
-                        family, _ = extract_nested_content(auth_block[start_pos:])
-                        start_pos = given_match.end(1)
-                        given, _ = extract_nested_content(auth_block[start_pos:])
-                        given = given[:1] + "."
-                        authors.append(f"{family}, {given}")
+                    # (institutions only have a family name)
+                    family = get_name_part("family", auth_block)
+                    prefix = get_name_part("prefix", auth_block)
+                    given = get_name_part("given", auth_block)
+                    if not family:
+                        continue
+                    name = f"{prefix} {family}" if prefix else family
+                    if given:
+                        name += f", {INITIAL_PATTERN.match(given).group(0)}."
+                    authors.append(name)
 
         if authors:
             entry["author"] = " and ".join(authors)
-- 
2.43.0


From 777667227d9e5880fc24b1224c22b23ff57502d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:42 +0000
Subject: [PATCH 155/169] fix: list items with only a label are kept, and
 labels may have brackets inside

---
 latex2json/parser/handlers/item.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index 6609aab..be1d52b 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -4,6 +4,7 @@ from latex2json.parser.handlers.environment import (
     BaseEnvironmentHandler,
     find_pattern_while_skipping_nested_envs,
 )
+from latex2json.utils.tex_utils import extract_nested_content
 
 # pattern to match \item up to the next \item or end of string
 ITEM_PATTERN = re.compile(
@@ -21,11 +22,21 @@ class ItemHandler(BaseEnvironmentHandler):
     ) -> Tuple[Optional[Dict], int]:
         match = ITEM_PATTERN.match(content)
         if match:
-            end_of_item = match.group(2)
+            title = match.group(1)
+            start = match.start(2)
             end_pos = match.end()
-            if end_of_item:
+
+            if title is not None:
+                # labels may have brackets inside e.g. \item[{[a]}]
+                label_pos = match.start(1) - 1
+                label, label_len = extract_nested_content(content[label_pos:], "[", "]")
+                if label is not None:
+                    title = label
+                    start = label_pos + label_len
+                title = title.strip()
+
+            if title or content[start:end_pos].strip():
                 # check to see and skip any nested environments that may contain inner \item
-                start = match.start(2)
                 out_end_pos = find_pattern_while_skipping_nested_envs(
                     content, ITEM_PATTERN, start_pos=start
                 )
@@ -35,8 +46,8 @@ class ItemHandler(BaseEnvironmentHandler):
                 token = self._handle_environment("item", content[start:end_pos].strip())
                 token["type"] = "item"
                 del token["name"]
-                if match.group(1):
-                    token["title"] = match.group(1).strip()
+                if title:
+                    token["title"] = title
                 return token, end_pos
 
             return None, end_pos
-- 
2.43.0


From 2788e9481576baa6b5f836ff7e408d8fce05c480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:10 +0000
Subject: [PATCH 156/169] fix: an \item shown by \verb or a listing does not
 start an item of the list around it

---
 latex2json/parser/handlers/item.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index be1d52b..4e0aeb8 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -4,7 +4,7 @@ from latex2json.parser.handlers.environment import (
     BaseEnvironmentHandler,
     find_pattern_while_skipping_nested_envs,
 )
-from latex2json.utils.tex_utils import extract_nested_content
+from latex2json.utils.tex_utils import CODE_BLOCK_PATTERN, extract_nested_content
 
 # pattern to match \item up to the next \item or end of string
 ITEM_PATTERN = re.compile(
@@ -20,7 +20,9 @@ class ItemHandler(BaseEnvironmentHandler):
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
-        match = ITEM_PATTERN.match(content)
+        # an \item shown in a code block does not count
+        searched = CODE_BLOCK_PATTERN.sub(lambda m: "." * len(m.group(0)), content)
+        match = ITEM_PATTERN.match(searched)
         if match:
             title = match.group(1)
             start = match.start(2)
@@ -29,16 +31,20 @@ class ItemHandler(BaseEnvironmentHandler):
             if title is not None:
                 # labels may have brackets inside e.g. \item[{[a]}]
                 label_pos = match.start(1) - 1
-                label, label_len = extract_nested_content(content[label_pos:], "[", "]")
+                label, label_len = extract_nested_content(
+                    searched[label_pos:], "[", "]"
+                )
                 if label is not None:
-                    title = label
                     start = label_pos + label_len
+                    title = content[label_pos + 1 : start - 1]
+                else:
+                    title = content[match.start(1) : match.end(1)]
                 title = title.strip()
 
             if title or content[start:end_pos].strip():
                 # check to see and skip any nested environments that may contain inner \item
                 out_end_pos = find_pattern_while_skipping_nested_envs(
-                    content, ITEM_PATTERN, start_pos=start
+                    searched, ITEM_PATTERN, start_pos=start
                 )
                 if out_end_pos != -1:
                     end_pos = out_end_pos
-- 
2.43.0


From df48393ca2ed3e3537287ea796bf0137f97d7cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:57 +0000
Subject: [PATCH 157/169] fix: a bracket within braces does not end the
 optional argument of \cite, \caption or \section

---
 latex2json/parser/handlers/content_command.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index bb3cf8b..bffeef2 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -18,7 +18,10 @@ PARAGRAPH_LEVELS = {
     "subparagraph": 2,
 }
 
-OPTIONAL_BRACE_PATTERN = r"(?:\[([^\]]*)\])?"
+# a bracket within braces does not end the optional argument e.g. [{see [1]}]
+OPTIONAL_BRACE_PATTERN = (
+    r"(?:\[((?:[^\]{}]|\{[^{}]*(?:\{[^{}]*\}[^{}]*)*\})*|[^\]]*)\])?"
+)
 
 RAW_PATTERNS = OrderedDict(
     [
@@ -93,7 +96,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 # a further citation after \cites{..}
-CITES_PATTERN = re.compile(r"(?:\[[^\]]*\]){0,2}\{[^{}]*\}")
+CITES_PATTERN = re.compile(
+    r"%s%s\{[^{}]*\}" % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN)
+)
 
 
 class ContentCommandHandler(TokenHandler):
-- 
2.43.0


From d972996ed0b817aeee799e0d567e6b4c8bbbb81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:48 +0000
Subject: [PATCH 158/169] fix: \romannumeral takes a number that follows it
 without a space

---
 latex2json/parser/handlers/text_formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index e542c2b..c51f273 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -67,7 +67,7 @@ PATTERNS = {
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
     "columns": re.compile(r"\\(?:onecolumn\b|twocolumn(?![a-zA-Z])\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat(?=\s*[\[{])"),
-    "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
+    "roman_numerals": re.compile(r"\\romannumeral\s*(\d+)"),
 }
 
 
-- 
2.43.0


From bfee821ed4f2a91fdd02b8d4904c1e7f20424bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:47 +0000
Subject: [PATCH 159/169] fix: a table in a styled group keeps the styles of
 the group

---
 latex2json/structure/tokens/tabular.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 4b688de..b329567 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -96,7 +96,11 @@ class TabularToken(BaseToken):
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
-        return cls(content=all_cells)
+        return cls(
+            content=all_cells,
+            styles=data.get("styles"),
+            labels=data.get("labels"),
+        )
 
     @classmethod
     def _process_nested_list(
-- 
2.43.0


From 9339f94cb04afb1a2b3020ec1de5aa63f3d690cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:03 +0000
Subject: [PATCH 160/169] fix: a bibliography in a styled group keeps the
 styles of the group

---
 latex2json/structure/tokens/bibliography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/bibliography.py b/latex2json/structure/tokens/bibliography.py
index 6739deb..64cc773 100644
--- a/latex2json/structure/tokens/bibliography.py
+++ b/latex2json/structure/tokens/bibliography.py
@@ -41,4 +41,8 @@ class BibliographyToken(BaseToken):
                 if isinstance(token, BibItemToken):
                     processed_content.append(token)
 
-        return cls(content=processed_content)
+        return cls(
+            content=processed_content,
+            styles=data.get("styles"),
+            labels=data.get("labels"),
+        )
-- 
2.43.0


From 90d955ab525af21832c92a7a24eaedca173b92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:57 +0000
Subject: [PATCH 161/169] fix: conditionals of a switch with @ in its name are
 kept when preprocessing

---
 latex2json/parser/tex_preprocessor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 7ecc070..b05c9b5 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -379,7 +379,7 @@ class LatexPreprocessor:
                 if end_pos > 0:
                     block = ""
                     if token:
-                        if "@" not in token.get("type", ""):
+                        if not token.get("type", "").startswith("conditional-@if"):
                             block = token.get("if_content", "")
                     content = (
                         content[:current_pos] + block + content[current_pos + end_pos :]
-- 
2.43.0


From cdd8088edf25a5e01dabdfd078099ec7adb31137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:39 +0000
Subject: [PATCH 162/169] fix: text right after a conditional without arguments
 is kept

---
 latex2json/parser/handlers/if_else_statements.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 426e1f3..e252d63 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -47,7 +47,15 @@ no_fi_pattern = (
 )
 NO_FI_PATTERN = re.compile(r"\\" + no_fi_pattern)
 
-IF_PATTERN = re.compile(r"\\(?!%s)(?:@)?if%s" % (no_fi_pattern, default_if_pattern))
+# conditionals with something to test. Others, like \\iftrue or a switch, take nothing
+test_if_pattern = (
+    r"(?:num|dim|odd|cat|case|x|void|hbox|vbox|eof|(?:un)?defined|csname|fontchar|fp)?"
+)
+
+IF_PATTERN = re.compile(
+    r"\\(?!%s)(?:@)?if(?:(?:true|false)(?![a-zA-Z@])|(?!%s(?![a-zA-Z@]))[a-zA-Z@]+\d*|%s)"
+    % (no_fi_pattern, test_if_pattern, default_if_pattern)
+)
 ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z@])")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
-- 
2.43.0


From b758cb5c8ac5d2a4810052d6116e53e1fe0f6404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:11 +0000
Subject: [PATCH 163/169] fix: commands are recognised when a digit follows
 directly

---
 latex2json/parser/bib/bibitem_parser.py       |  4 +-
 latex2json/parser/bib/compiled_bibtex.py      |  2 +-
 latex2json/parser/handlers/author.py          |  4 +-
 latex2json/parser/handlers/content_command.py |  4 +-
 latex2json/parser/handlers/environment.py     |  6 +-
 latex2json/parser/handlers/formatting.py      | 58 +++++++++----------
 latex2json/parser/handlers/item.py            |  2 +-
 .../parser/handlers/legacy_formatting.py      |  2 +-
 latex2json/parser/handlers/text_formatting.py |  4 +-
 9 files changed, 43 insertions(+), 43 deletions(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index eefd98c..f7c0ce0 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -9,7 +9,7 @@ class BibItemParser:
         r"\\bibitem\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem|$)",
         re.DOTALL,
     )
-    NewblockPattern = re.compile(r"\\newblock\b")
+    NewblockPattern = re.compile(r"\\newblock(?![a-zA-Z])")
 
     def __init__(self, logger: logging.Logger = None):
         self.logger = logger or logging.getLogger(__name__)
@@ -31,7 +31,7 @@ class BibItemParser:
 
         entries = []
         previous_content = None
-        bysame_pattern = re.compile(r"\\bysame\b")
+        bysame_pattern = re.compile(r"\\bysame(?![a-zA-Z])")
 
         for match in self.BibItemPattern.finditer(content):
             item = match.group(3).strip()
diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 1ebf374..b9422b9 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -9,7 +9,7 @@ from latex2json.utils.tex_utils import (
 )
 
 PATTERNS_TO_REPLACE = {
-    r"\\bibinitperiod\b": ".",
+    r"\\bibinitperiod(?![a-zA-Z])": ".",
     r"\\bibrangedash\s*\b": "--",
 }
 
diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index eaaaa7f..00bcc9e 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -4,7 +4,7 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content
 
-AND_PATTERN = re.compile(r"\\and\b", re.IGNORECASE)
+AND_PATTERN = re.compile(r"\\and(?![a-zA-Z])", re.IGNORECASE)
 BACKSLASH_PATTERN = re.compile(r"\\\\")
 
 compile_as = re.DOTALL | re.IGNORECASE
@@ -17,7 +17,7 @@ PATTERNS = {
         r"\\(?:affil|affiliation)(?:\s*\[(.*?)\])?\s*{", compile_as
     ),
     "address": re.compile(r"\\address(?:\s*\[(.*?)\])?\s*{", compile_as),
-    "curraddr": re.compile(r"\\curraddr(?:\{\}|\b)"),
+    "curraddr": re.compile(r"\\curraddr(?:\{\}|(?![a-zA-Z]))"),
     # \thanks usually found inside author block
     "thanks": re.compile(r"\\thanks\s*{", compile_as),
 }
diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index bffeef2..07ce1b4 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -78,7 +78,7 @@ RAW_PATTERNS = OrderedDict(
         # Title
         ("title", r"\\title\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # appendix
-        ("appendix", r"\\(?:appendix|appendices)\b"),
+        ("appendix", r"\\(?:appendix|appendices)(?![a-zA-Z])"),
         # keywords
         ("keywords", r"\\keywords\s*{"),
         # bibliography
@@ -92,7 +92,7 @@ PATTERNS = OrderedDict(
     for key, pattern in RAW_PATTERNS.items()
 )
 
-GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
+GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+(?![a-zA-Z])")
 
 
 # a further citation after \cites{..}
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 7b8f7ca..bc7b5bd 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -12,7 +12,7 @@ from latex2json.utils.tex_utils import (
 )
 import logging
 
-BEGIN_GROUP_PATTERN = re.compile(r"\\(?:begin|b)group\b")
+BEGIN_GROUP_PATTERN = re.compile(r"\\(?:begin|b)group(?![a-zA-Z])")
 
 # optional arguments before a mandatory one
 OPTIONAL_ARGS_PATTERN = re.compile(r"(?:\s*\[[^\[\]{}]*\])+(?=\s*\{)")
@@ -351,11 +351,11 @@ class BaseEnvironmentHandler(TokenHandler):
             is_bgroup = "bgroup" in match.group(0)
             if is_bgroup:
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\bgroup\b", r"\\egroup\b"
+                    content, r"\\bgroup(?![a-zA-Z])", r"\\egroup(?![a-zA-Z])"
                 )
             else:
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\begingroup\b", r"\\endgroup\b"
+                    content, r"\\begingroup(?![a-zA-Z])", r"\\endgroup(?![a-zA-Z])"
                 )
 
             if end_pos == -1:
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index a71b4b9..6c7c0a0 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -67,30 +67,30 @@ RAW_PATTERNS = OrderedDict(
         ("tracing", r"\\(?:tracinglostchars)\s*=\s*\d+"),
         # date
         ("date", r"\\date\s*\{"),
-        ("today", r"\\today\b"),
+        ("today", r"\\today(?![a-zA-Z])"),
         ("subjclass", r"\\subjclass\s*%s\s*\{[^}]+\}" % OPTIONAL_BRACE_PATTERN),
         # Formatting commands
         ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
-            r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)\b",
+            r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)(?![a-zA-Z])",
         ),
         ("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),
         ("addtocontents", r"\\(?:addtocontents|addtocounter)\s*\{[^}]*\s*\}\s*{"),
         ("titlecontents", r"\\titlecontents\s*{"),
         (
             "contents",
-            r"\\(?:contentspage\b|(?:start|stop|resume)contents(?![a-zA-Z])\*?%s)"
+            r"\\(?:contentspage(?![a-zA-Z])|(?:start|stop|resume)contents(?![a-zA-Z])\*?%s)"
             % OPTIONAL_BRACE_PATTERN,
         ),
         ("printcontents", r"\\printcontents\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "page",
-            r"\\enlargethispage\*?\s*\{[^}]*\}|\\(?:allowdisplaybreaks|nopagebreak)\s*\[\d\]|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
+            r"\\enlargethispage\*?\s*\{[^}]*\}|\\(?:allowdisplaybreaks|nopagebreak)\s*\[\d\]|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z])",
         ),
         (
             "pagebreak",
-            r"\\pagebreak\s*\[\d\]|\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
+            r"\\pagebreak\s*\[\d\]|\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z])|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
         ),
         (
             "length_assignment",
@@ -114,13 +114,13 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "skip",
-            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip|(above|below)(display|caption)(short)?skip)\b",
+            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip|(above|below)(display|caption)(short)?skip)(?![a-zA-Z])",
         ),
         (
             "style",
             r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*\{[^}]*\}",
         ),
-        ("bib", r"\\printbibliography\b"),
+        ("bib", r"\\printbibliography(?![a-zA-Z])"),
         ("bibmacro", r"\\renewbibmacro\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
         (
             "newstyle",
@@ -141,11 +141,11 @@ RAW_PATTERNS = OrderedDict(
         # New margin and size commands allowing any characters after the number
         (
             "margins",
-            r"\\(?:rightmargin|leftmargin)\b|"
+            r"\\(?:rightmargin|leftmargin)(?![a-zA-Z])|"
             + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)"
             + r"(?![a-zA-Z])\s*(\=?\s*(?:%s)%s)?" % (number_points_suffix, STRETCH),
         ),
-        ("indent", r"\\indent\b"),
+        ("indent", r"\\indent(?![a-zA-Z])"),
         (
             "lineskip",
             r"\\lineskip\s*%s" % (number_points_suffix)
@@ -155,7 +155,7 @@ RAW_PATTERNS = OrderedDict(
         # width
         (
             "width",
-            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)\b",
+            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)(?![a-zA-Z])",
         ),
         # spacing
         (
@@ -180,7 +180,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "options",
             re.compile(
-                r"\\(?:ProcessOptions\b|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
+                r"\\(?:ProcessOptions(?![a-zA-Z])|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
                 % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
                 re.DOTALL,
             ),
@@ -206,7 +206,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "linenumbers",
             re.compile(
-                r"\\(?:linenumbers\b|linesnumbered\b|numberwithin\s*\{[^}]*\}\s*\{[^}]*\})",
+                r"\\(?:linenumbers(?![a-zA-Z])|linesnumbered(?![a-zA-Z])|numberwithin\s*\{[^}]*\}\s*\{[^}]*\})",
                 re.DOTALL | re.IGNORECASE,
             ),
         ),
@@ -222,12 +222,12 @@ RAW_PATTERNS = OrderedDict(
         (
             "separators",
             r"\\(?:"
-            r"hline\b|"  # no args
-            r"center\b|"  # no args
-            r"hrulefill\b|"  # no args
-            r"centerline\b|"  # no args
+            r"hline(?![a-zA-Z])|"  # no args
+            r"center(?![a-zA-Z])|"  # no args
+            r"hrulefill(?![a-zA-Z])|"  # no args
+            r"centerline(?![a-zA-Z])|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
-            r"topsep\b|parsep\b|partopsep\b|"
+            r"topsep(?![a-zA-Z])|parsep(?![a-zA-Z])|partopsep(?![a-zA-Z])|"
             r"labelsep(?![a-zA-Z])(?:\s*\{[^}]*\})?|"
             + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
@@ -237,14 +237,14 @@ RAW_PATTERNS = OrderedDict(
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
             r"addlinespace(?![a-zA-Z])(?:\[([^\]]*)\])?|"  # optional [length]
             r"rule\s*(?:\[[^\]]*\]\s*)?{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
-            r"hrule\b|"
-            r"morecmidrules\b|"  # no args
+            r"hrule(?![a-zA-Z])|"
+            r"morecmidrules(?![a-zA-Z])|"  # no args
             r"fboxsep\s*{([^}]+)}|"  # {length}
             r"Xhline\s*{([^}]+)}|"  # {length}
-            r"tabcolsep\b|"
-            r"colrule\b|"
-            r"noalign\b|"
-            r"endfirsthead\b"
+            r"tabcolsep(?![a-zA-Z])|"
+            r"colrule(?![a-zA-Z])|"
+            r"noalign(?![a-zA-Z])|"
+            r"endfirsthead(?![a-zA-Z])"
             r")",
         ),
         (
@@ -256,14 +256,14 @@ RAW_PATTERNS = OrderedDict(
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
-            r"\\c@page\b|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
+            r"\\c@page(?![a-zA-Z])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
         ("backslash", TEXT_BACKSLASH_PATTERN),
-        ("arraybackslash", r"\\arraybackslash\b"),
+        ("arraybackslash", r"\\arraybackslash(?![a-zA-Z])"),
         ("geometry", r"\\geometry\s*\{"),
         ("ensuremath", r"\\ensuremath\s*{"),
-        ("stackmath", r"\\stackMath\b"),
+        ("stackmath", r"\\stackMath(?![a-zA-Z])"),
         ("hyphenation", r"\\hyphenation\s*{"),
         # Handle vspace separately
         ("vspace", r"\\vspace\*?\s*{[^}]*}"),
@@ -277,7 +277,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "other",
             re.compile(
-                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|box|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)\b",
+                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|box|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)(?![a-zA-Z])",
             ),
         ),
         ("newmdenv", re.compile(r"\\newmdenv\s*(?:\[(.*?)\])?\s*\{(.*?)\}", re.DOTALL)),
@@ -294,7 +294,7 @@ RAW_PATTERNS = OrderedDict(
         ("physics", r"\\pacs\s*\{(.*?)\}"),
         ("Hy@", r"\\Hy@[a-zA-Z]+\s*{"),
         ("unvbox", r"\\unvbox\s*(?:%s|\\[a-zA-Z@]+\b)" % (number_regex)),
-        ("string_or_chars", r"\\string\b|\\escapechar\b"),
+        ("string_or_chars", r"\\string(?![a-zA-Z])|\\escapechar(?![a-zA-Z])"),
         (
             "dims",
             re.compile(
@@ -302,7 +302,7 @@ RAW_PATTERNS = OrderedDict(
                 re.VERBOSE | re.DOTALL,
             ),
         ),
-        ("debug", r"\\(?:showthe|the)\b"),
+        ("debug", r"\\(?:showthe|the)(?![a-zA-Z])"),
     ]
 )
 
diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index 4e0aeb8..dd6cc8c 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -8,7 +8,7 @@ from latex2json.utils.tex_utils import CODE_BLOCK_PATTERN, extract_nested_conten
 
 # pattern to match \item up to the next \item or end of string
 ITEM_PATTERN = re.compile(
-    r"\\item\b\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item\b|$)", re.DOTALL
+    r"\\item(?![a-zA-Z])\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item(?![a-zA-Z])|$)", re.DOTALL
 )
 
 
diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 5389ac8..fa6f663 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -76,7 +76,7 @@ SIZE_PATTERN = re.compile(
     r"\\(" + "|".join(LEGACY_SIZE_MAPPING.keys()) + r")(?![a-zA-Z])\s*\{?"
 )
 
-COLOR_PATTERN = re.compile(r"\\(?:color\s*(\[\w+\])?\s*\{|normalcolor\b)")
+COLOR_PATTERN = re.compile(r"\\(?:color\s*(\[\w+\])?\s*\{|normalcolor(?![a-zA-Z]))")
 
 PATTERNS = {
     "font": FONT_PATTERN,
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index c51f273..34155c7 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -54,7 +54,7 @@ TEXT_PATTERN = re.compile(
 
 FONT_PATTERN = {
     "fontsize": (r"\\fontsize" + (r"\s*" + BRACE_CONTENT_PATTERN) * 2),
-    "selectfont": (r"\\selectfont\b"),
+    "selectfont": (r"\\selectfont(?![a-zA-Z])"),
     "usefont": (r"\\usefont" + (r"\s*" + BRACE_CONTENT_PATTERN) * 4),
 }
 
@@ -65,7 +65,7 @@ PATTERNS = {
     "frac": re.compile(r"\\(?:frac|nicefrac|textfrac)\s*\{", re.DOTALL),
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
-    "columns": re.compile(r"\\(?:onecolumn\b|twocolumn(?![a-zA-Z])\s*\[?)"),
+    "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z])|twocolumn(?![a-zA-Z])\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat(?=\s*[\[{])"),
     "roman_numerals": re.compile(r"\\romannumeral\s*(\d+)"),
 }
-- 
2.43.0


From d2e73047256eee530ee68593519e6039580cc838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:39 +0000
Subject: [PATCH 164/169] fix: layout commands may have white space before
 their arguments

---
 latex2json/parser/handlers/formatting.py     | 10 +++++-----
 latex2json/parser/handlers/new_definition.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 6c7c0a0..97a4e58 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -70,7 +70,7 @@ RAW_PATTERNS = OrderedDict(
         ("today", r"\\today(?![a-zA-Z])"),
         ("subjclass", r"\\subjclass\s*%s\s*\{[^}]+\}" % OPTIONAL_BRACE_PATTERN),
         # Formatting commands
-        ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("setup", r"\\(?:hypersetup|captionsetup)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
             r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)(?![a-zA-Z])",
@@ -80,17 +80,17 @@ RAW_PATTERNS = OrderedDict(
         ("titlecontents", r"\\titlecontents\s*{"),
         (
             "contents",
-            r"\\(?:contentspage(?![a-zA-Z])|(?:start|stop|resume)contents(?![a-zA-Z])\*?%s)"
+            r"\\(?:contentspage(?![a-zA-Z])|(?:start|stop|resume)contents(?![a-zA-Z])\*?(?:\s*%s))"
             % OPTIONAL_BRACE_PATTERN,
         ),
         ("printcontents", r"\\printcontents\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "page",
-            r"\\enlargethispage\*?\s*\{[^}]*\}|\\(?:allowdisplaybreaks|nopagebreak)\s*\[\d\]|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z])",
+            r"\\enlargethispage\*?\s*\{[^}]*\}|\\(?:allowdisplaybreaks|nopagebreak)\s*\[\d\]|\\pagecolor\*?\s*{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z])",
         ),
         (
             "pagebreak",
-            r"\\pagebreak\s*\[\d\]|\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z])|\\linebreak(?![a-zA-Z])(?:\[\d+\])?",
+            r"\\pagebreak\s*\[\d\]|\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z])|\\linebreak(?![a-zA-Z])(?:\s*\[\d+\])?",
         ),
         (
             "length_assignment",
@@ -256,7 +256,7 @@ RAW_PATTERNS = OrderedDict(
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
-            r"\\c@page(?![a-zA-Z])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
+            r"\\c@page(?![a-zA-Z])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter\s*{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
         ("backslash", TEXT_BACKSLASH_PATTERN),
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 9d1686b..f184e4a 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -82,8 +82,8 @@ PATTERNS = {
         r"\\newtheorem\*?\s*{([^}]*)}(?:\s*\[([^]]*)\])?\s*{([^}]*)}(?:\s*\[([^]]*)\])?",
         re.DOTALL,
     ),
-    "newtheoremstyle": re.compile(r"\\newtheoremstyle\*?{", re.DOTALL),
-    "crefname": re.compile(r"\\[cC]refname{([^}]*)}{([^}]*)}(?:{([^}]*)})?", re.DOTALL),
+    "newtheoremstyle": re.compile(r"\\newtheoremstyle\*?\s*{", re.DOTALL),
+    "crefname": re.compile(r"\\[cC]refname\s*{([^}]*)}\s*{([^}]*)}(?:\s*{([^}]*)})?", re.DOTALL),
     "newtoks": re.compile(
         r"\\newtoks\s*(%s)" % (command_with_opt_brace_pattern), re.DOTALL
     ),
-- 
2.43.0


From 12180d602514a996a47ea466de0f57abbcab8816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 165/169] fix: the text right after the name of a new register
 or switch is kept

---
 latex2json/parser/handlers/new_definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index f184e4a..eff4725 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -87,7 +87,7 @@ PATTERNS = {
     "newtoks": re.compile(
         r"\\newtoks\s*(%s)" % (command_with_opt_brace_pattern), re.DOTALL
     ),
-    "newif": re.compile(r"\\(?:re)?newif\s*\\if([^\s{\\]+)", re.DOTALL),
+    "newif": re.compile(r"\\(?:re)?newif\s*\\if([a-zA-Z@]+|[^\s{\\]+)", re.DOTALL),
     "newboolean": re.compile(
         r"\\(?:re)?newboolean\s*" + BRACE_CONTENT_PATTERN, re.DOTALL
     ),
@@ -105,7 +105,7 @@ PATTERNS = {
         + r"(?:\s*\[[^\]]*\])?",
         re.DOTALL,
     ),
-    "newother": re.compile(r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\([^\s{[]+)"),
+    "newother": re.compile(r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\([a-zA-Z@]+|[^\s{[])"),
     "newcolumntype": re.compile(
         r"\\(?:newcolumntype|renewcolumntype)\s*\{[^}]*\}(?:\s*\[\d+\])?\s*{", re.DOTALL
     ),
-- 
2.43.0


From bff0b56669e0c6695e9ef0b1f206630fe53d3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:07 +0000
Subject: [PATCH 166/169] fix: newblock keeps the parts of a bibliography item
 apart

---
 latex2json/parser/bib/bibitem_parser.py  | 2 +-
 latex2json/parser/handlers/formatting.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index f7c0ce0..1cb086d 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -37,7 +37,7 @@ class BibItemParser:
             item = match.group(3).strip()
             if item:
                 # remove newblock
-                item = self.NewblockPattern.sub("", item)
+                item = self.NewblockPattern.sub(" ", item)
 
                 # Handle \bysame by replacing it with content from previous entry
                 if previous_content and bysame_pattern.search(item):
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 97a4e58..f7acbdb 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -80,8 +80,7 @@ RAW_PATTERNS = OrderedDict(
         ("titlecontents", r"\\titlecontents\s*{"),
         (
             "contents",
-            r"\\(?:contentspage(?![a-zA-Z])|(?:start|stop|resume)contents(?![a-zA-Z])\*?(?:\s*%s))"
-            % OPTIONAL_BRACE_PATTERN,
+            r"\\(?:contentspage(?![a-zA-Z])|(?:start|stop|resume)contents(?![a-zA-Z])\*?(?:\s*\[[^\]]*\])?)",
         ),
         ("printcontents", r"\\printcontents\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
-- 
2.43.0


From fd54fbfe0534760ce98b6f3c6a8fe251e0bf177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:17:33 +0000
Subject: [PATCH 167/169] fix: white space before a command that gives no text
 is kept

---
 latex2json/parser/tex_parser.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index d3fcb3e..162d4bc 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -620,22 +620,34 @@ class LatexParser:
         tokens = []
         current_pos = 0
         guard = ExpansionGuard(content)
+        last_space = None
+
+        def end_of_tokens():
+            if tokens and tokens[-1].get("type") == "text":
+                return len(tokens), len(tokens[-1]["content"])
+            return len(tokens), 0
 
         while current_pos < len(content):
             # Skip whitespace
             while current_pos < len(content) and content[current_pos].isspace():
                 self.current_str += content[current_pos]
                 current_pos += 1
+                last_space = end_of_tokens()
             if current_pos >= len(content):
                 break
 
+            # white space since the last token, with or without commands after
+            # it that give no token
+            add_space = last_space == end_of_tokens() or (
+                current_pos > 0 and content[current_pos - 1].isspace()
+            )
+
             # Add handling for bare braces at the start i.e. latex grouping {content here}
             if content[current_pos] == "{":
                 # Find matching closing brace
                 inner_content, end_pos = extract_nested_content(content[current_pos:])
                 if inner_content is not None:
                     # Parse the content within the braces
-                    add_space = current_pos > 0 and content[current_pos - 1].isspace()
                     nested_tokens = self.parse(
                         inner_content,
                         line_break_delimiter,
@@ -679,10 +691,6 @@ class LatexParser:
                         next_pos -= 1
                     if handle_unknown_commands:
                         text = self._expand_command(text)
-                    # check if preceding text is a space
-                    add_space = False
-                    if current_pos > 0 and content[current_pos - 1].isspace():
-                        add_space = True
                     self.add_token(text, tokens, add_space)
                 current_pos += next_pos
                 if not next_delimiter:
@@ -751,14 +759,12 @@ class LatexParser:
             if not handle_unknown_commands:
                 match = TEXT_BACKSLASH_PATTERN.match(content, current_pos)
                 if match:
-                    add_space = current_pos > 0 and content[current_pos - 1].isspace()
                     self.add_token("\\textbackslash{}", tokens, add_space)
                     current_pos = match.end()
                     content = join_letter_command(content, current_pos)
                     continue
 
             # try each handler
-            add_space = current_pos > 0 and content[current_pos - 1].isspace()
             matched, end_pos = self._check_handlers(
                 content[current_pos:],
                 tokens,
-- 
2.43.0


From 4b398bcd4c84731dd6e7c2a9f7725d9b7ca8b69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:33:36 +0000
Subject: [PATCH 168/169] fix: cmidrule with a width is recognised

---
 latex2json/parser/handlers/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index f7acbdb..a25e165 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -230,7 +230,7 @@ RAW_PATTERNS = OrderedDict(
             r"labelsep(?![a-zA-Z])(?:\s*\{[^}]*\})?|"
             + r"(?:midrule|toprule|bottomrule)(?![a-zA-Z])%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
-            + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
+            + r"cmidrule\s*(?:\[[^\]]*\]\s*)?(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional [width], (lr)[trim] and {n-m}
             r"hdashline(?![a-zA-Z])(?:\[[\d,\s]*\])?|"  # optional [length,space]
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
-- 
2.43.0


From 179e0d7643700cbe967ac6aede780f80473c6cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:25 +0000
Subject: [PATCH 169/169] fix: line breaks in unknown commands are not the
 start of a command

---
 latex2json/latex_maps/latex_unicode_converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/latex_maps/latex_unicode_converter.py b/latex2json/latex_maps/latex_unicode_converter.py
index 4d028bc..19db9a0 100644
--- a/latex2json/latex_maps/latex_unicode_converter.py
+++ b/latex2json/latex_maps/latex_unicode_converter.py
@@ -74,6 +74,12 @@ class LatexUnicodeConverter:
 
         def handle_match(match, pattern_type):
             c = match.group(0).strip()
+            start = match.start()
+            while start > 0 and match.string[start - 1] == "\\":
+                start -= 1
+            if (match.start() - start) % 2 and c[0] == "\\":
+                # a line break, not the start of a command
+                return match.group(0)
             # Handle Unicode escape sequences
             if pattern_type == "unicode":
                 try:
-- 
2.43.0

