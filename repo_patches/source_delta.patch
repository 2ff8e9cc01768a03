From 7818a08723af5352e79a5bcf742416fd41801d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 01/33] fix: recognize blank comment lines ended by CRLF

A multi-line comment with an empty '#' line followed by CRLF was split in
two, and the first part was dropped from the AST.
---
 fluent.syntax/fluent/syntax/stream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 0e276fc..17eb46a 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -205,8 +205,10 @@ class FluentParserStream(ParserStream):
                 break
             i += 1
 
-        # The first char after #, ## or ###.
-        if self.peek() in (" ", EOL):
+        # The first char after #, ## or ###. Use current_peek rather than the
+        # return value of peek(), so that CRLF is recognized as EOL.
+        self.peek()
+        if self.current_peek in (" ", EOL):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 40aa0e319d277731dc0272ec056b7cb1bdfa5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 02/33] fix: accept a blank comment line at the end of the file

The grammar allows line_end to be EOF, but a file ending in '#' (or a
comment whose last line is '#') without a newline produced Junk.
---
 fluent.syntax/fluent/syntax/parser.py | 4 ++--
 fluent.syntax/fluent/syntax/stream.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/parser.py b/fluent.syntax/fluent/syntax/parser.py
index 5999f97..e2ef599 100644
--- a/fluent.syntax/fluent/syntax/parser.py
+++ b/fluent.syntax/fluent/syntax/parser.py
@@ -3,7 +3,7 @@ from typing import Any, Callable, List, Set, TypeVar, Union, cast
 
 from . import ast
 from .errors import ParseError
-from .stream import EOL, FluentParserStream
+from .stream import EOF, EOL, FluentParserStream
 
 R = TypeVar("R", bound=ast.SyntaxNode)
 
@@ -169,7 +169,7 @@ class FluentParser:
             if level == -1:
                 level = i
 
-            if ps.current_char != EOL:
+            if ps.current_char != EOL and ps.current_char is not EOF:
                 ps.expect_char(" ")
                 ch = ps.take_char(lambda x: x != EOL)
                 while ch:
diff --git a/fluent.syntax/fluent/syntax/stream.py b/fluent.syntax/fluent/syntax/stream.py
index 17eb46a..1bc0410 100644
--- a/fluent.syntax/fluent/syntax/stream.py
+++ b/fluent.syntax/fluent/syntax/stream.py
@@ -208,7 +208,7 @@ class FluentParserStream(ParserStream):
         # The first char after #, ## or ###. Use current_peek rather than the
         # return value of peek(), so that CRLF is recognized as EOL.
         self.peek()
-        if self.current_peek in (" ", EOL):
+        if self.current_peek in (" ", EOL, EOF):
             self.reset_peek()
             return True
 
-- 
2.43.0


From 4f56a8150a923eb604bb4e1461e18b6ee2dae5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 03/33] fix: replace escapes beyond U+10FFFF by U+FFFD instead
 of raising

StringLiteral.parse raised ValueError from chr() for \U110000 and above,
also when compiling a message in FluentBundle.get_message.
---
 fluent.syntax/fluent/syntax/ast.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fluent.syntax/fluent/syntax/ast.py b/fluent.syntax/fluent/syntax/ast.py
index c47244e..2d5785d 100644
--- a/fluent.syntax/fluent/syntax/ast.py
+++ b/fluent.syntax/fluent/syntax/ast.py
@@ -217,11 +217,11 @@ class StringLiteral(Literal):
             if c:
                 return cast(str, c)
             codepoint = int(codepoint4 or codepoint6, 16)
-            if codepoint <= 0xD7FF or 0xE000 <= codepoint:
+            if codepoint <= 0xD7FF or 0xE000 <= codepoint <= 0x10FFFF:
                 return chr(codepoint)
-            # Escape sequences reresenting surrogate code points are
-            # well-formed but invalid in Fluent. Replace them with U+FFFD
-            # REPLACEMENT CHARACTER.
+            # Escape sequences reresenting surrogate code points, or code
+            # points beyond U+10FFFF, are well-formed but invalid in Fluent.
+            # Replace them with U+FFFD REPLACEMENT CHARACTER.
             return "�"
 
         value = re.sub(
-- 
2.43.0


From 9e0271681bf0dc0a5b4655c83349c65bfa46e3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 04/33] fix: serialize line separators other than LF without
 adding indentation

U+2028, U+0085, form feed and the like were followed by four spaces in the
output, changing text elements and even string literals.
---
 fluent.syntax/fluent/syntax/serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/serializer.py b/fluent.syntax/fluent/syntax/serializer.py
index 3659154..6ef6a18 100644
--- a/fluent.syntax/fluent/syntax/serializer.py
+++ b/fluent.syntax/fluent/syntax/serializer.py
@@ -1,10 +1,13 @@
+import re
 from typing import List, Union
 
 from . import ast
 
 
 def indent_except_first_line(content: str) -> str:
-    return "    ".join(content.splitlines(True))
+    # Only break lines at LF; str.splitlines() also splits at other characters,
+    # like U+2028, which are plain text in Fluent.
+    return re.sub(r"\n(?!\Z)", "\n    ", content)
 
 
 def includes_new_line(elem: Union[ast.TextElement, ast.Placeable]) -> bool:
-- 
2.43.0


From 1302e0e82bc01d937913f2d2bf8d5132fdb4a972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 05/33] fix: let a Transformer remove a single child node

Returning None for a non-list child (e.g. the comment of a message) raised
RuntimeError: dictionary changed size during iteration.
---
 fluent.syntax/fluent/syntax/visitor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 2f637af..237cd7e 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -48,7 +48,8 @@ class Transformer(Visitor):
         return visit(node)
 
     def generic_visit(self, node: Node) -> Node:  # type: ignore
-        for propname, propvalue in vars(node).items():
+        # Copy the items, as removing a child deletes the attribute.
+        for propname, propvalue in list(vars(node).items()):
             if isinstance(propvalue, list):
                 new_vals: List[Any] = []
                 for child in propvalue:
-- 
2.43.0


From ac5a12f365f4437fa1f100160d81a0a6e678d003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:19 +0000
Subject: [PATCH 06/33] fix: detect cycles and count parts in patterns of a
 single placeable

'foo = {foo}' and longer cycles through such patterns ended in a
RecursionError raised to the caller, and they escaped the limit on parts.
---
 fluent.runtime/fluent/runtime/resolver.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 1961a96..96209ac 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -53,7 +53,9 @@ class ResolverEnvironment:
     context: "FluentBundle" = attr.ib()
     errors: List[Exception] = attr.ib()
     part_count: int = attr.ib(default=0, init=False)
-    active_patterns: Set[FTL.Pattern] = attr.ib(factory=set, init=False)
+    active_patterns: Set[Union[FTL.Pattern, FTL.Placeable]] = attr.ib(
+        factory=set, init=False
+    )
     current: CurrentEnvironment = attr.ib(factory=CurrentEnvironment)
 
     @contextlib.contextmanager
@@ -199,7 +201,20 @@ class NeverIsolatingPlaceable(FTL.Placeable, BaseResolver):
     expression: Union["InlineExpression", Placeable, "SelectExpression"]
 
     def __call__(self, env: ResolverEnvironment) -> Any:
+        # This stands for a whole pattern, so it takes part in the same
+        # protection against cycles and too many parts as Pattern.
+        if self in env.active_patterns:
+            env.errors.append(FluentCyclicReferenceError("Cyclic reference"))
+            return FluentNone()
+        if env.part_count >= Pattern.MAX_PARTS:
+            raise ValueError(
+                "Too many parts in message (> {}), "
+                "aborting.".format(Pattern.MAX_PARTS)
+            )
+        env.active_patterns.add(self)
         inner = resolve(self.expression(env), env)
+        env.part_count += 1
+        env.active_patterns.remove(self)
         return inner
 
 
-- 
2.43.0


From 56ddd927a22971569e250285192730c678a953fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 07/33] fix: report any formatting failure instead of raising
 from format_pattern

Only ValueError was handled; bad option values (TypeError), unknown time zones
(LookupError), infinite numbers (OverflowError), too deep references
(RecursionError) and the like were raised to the caller.
---
 fluent.runtime/fluent/runtime/bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 6a0f254..f95776c 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -106,7 +106,7 @@ class FluentBundle:
         )
         try:
             result = pattern(env)
-        except ValueError as e:
+        except Exception as e:
             errors.append(e)
             result = "{???}"
         return (result, errors)
-- 
2.43.0


From 3f79b756fa3c15051db834e078d24c2dc6a8e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:25 +0000
Subject: [PATCH 08/33] fix: do not report failures inside a referenced pattern
 as unknown reference

A LookupError or TypeError raised while formatting the referenced pattern,
e.g. for an unknown time zone, was reported as 'Unknown message' or
'No pattern', and the real error was lost.
---
 fluent.runtime/fluent/runtime/resolver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 96209ac..b79a89f 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -251,15 +251,16 @@ def resolveEntryReference(
             pattern = entry.attributes[ref.attribute.name]
         else:
             pattern = entry.value  # type: ignore
-        return pattern(env)
     except LookupError:
         ref_id = reference_to_id(ref)
         env.errors.append(unknown_reference_error_obj(ref_id))
         return FluentNone(f"{{{ref_id}}}")
-    except TypeError:
+    if pattern is None:
         ref_id = reference_to_id(ref)
         env.errors.append(FluentReferenceError(f"No pattern: {ref_id}"))
         return FluentNone(ref_id)
+    # Errors raised from here are not about the reference.
+    return pattern(env)
 
 
 class MessageReference(FTL.MessageReference, BaseResolver):
-- 
2.43.0


From 36da439c83758326402f4eee175ae252ef1ff2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:28 +0000
Subject: [PATCH 09/33] fix: match Decimal selectors like other numbers

Decimal values never matched plural category keys.
---
 fluent.runtime/fluent/runtime/resolver.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index b79a89f..12bf1ce 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,11 +1,12 @@
 import contextlib
+from decimal import Decimal
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentType
+from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -345,7 +346,7 @@ class SelectExpression(FTL.SelectExpression, BaseResolver):
 
 
 def is_number(val: Any) -> bool:
-    return isinstance(val, (int, float))
+    return isinstance(val, (int, float, Decimal))
 
 
 def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
@@ -356,10 +357,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
-            if (
-                isinstance(val1, (FluentInt, FluentFloat))
-                and val1.options.type == "ordinal"
-            ):
+            if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
                 val1_form = env.context._ordinal_form(val1)
             else:
                 val1_form = env.context._plural_form(val1)
-- 
2.43.0


From 852b0605d3a92e6a2eeb9cee537677aa158aaebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:31 +0000
Subject: [PATCH 10/33] fix: do not match a string selector with the plural
 category of a number key

With the string 'one' as selector, the key [1] was chosen.
---
 fluent.runtime/fluent/runtime/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 12bf1ce..c1ae405 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -363,7 +363,7 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
                 val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
     elif is_number(val2):
-        return match(val2, val1, env)
+        return False
 
     return cast(bool, val1 == val2)
 
-- 
2.43.0


From 6aba9278a51cf05e8af2cfc974c4302e6de0ff4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 11/33] fix: never return terms from get_message

get_message('-term') raised LookupError only until the term had been used
through a reference; then it returned the term from the cache.
---
 fluent.runtime/fluent/runtime/bundle.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index f95776c..520501e 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -43,7 +43,7 @@ class FluentBundle:
         self.use_isolating = use_isolating
         self._messages: Dict[str, Union[FTL.Message, FTL.Term]] = {}
         self._terms: Dict[str, Union[FTL.Message, FTL.Term]] = {}
-        self._compiled: Dict[str, Message] = {}
+        self._compiled: Dict[Tuple[str, bool], Message] = {}
         # The compiler is not typed, and this cast is only valid for the public API
         self._compiler = cast(
             Callable[[Union[FTL.Message, FTL.Term]], Message], Compiler()
@@ -77,10 +77,7 @@ class FluentBundle:
         return self._lookup(message_id)
 
     def _lookup(self, entry_id: str, term: bool = False) -> Message:
-        if term:
-            compiled_id = "-" + entry_id
-        else:
-            compiled_id = entry_id
+        compiled_id = (entry_id, term)
         try:
             return self._compiled[compiled_id]
         except LookupError:
-- 
2.43.0


From 0970021fb20bf675c1c9b996ca5228eca508b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:28 +0000
Subject: [PATCH 12/33] fix: drop cached entries that add_resource overrides

After get_message, or a reference, had compiled an entry, overriding it by
add_resource(..., allow_overrides=True) had no effect.
---
 fluent.runtime/fluent/runtime/bundle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 520501e..00dfbaf 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -69,6 +69,7 @@ class FluentBundle:
             full_id = item.id.name
             if full_id not in map_ or allow_overrides:
                 map_[full_id] = item
+                self._compiled.pop((full_id, map_ is self._terms), None)
 
     def has_message(self, message_id: str) -> bool:
         return message_id in self._messages
-- 
2.43.0


From f1238bd0333f3539faf30669e55267eddb22fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 13/33] fix: keep the fold of datetimes

Times in the repeated hour at the end of daylight saving were shifted by one
hour when converted for formatting.
---
 fluent.runtime/fluent/runtime/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 697a18b..11e243f 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -420,6 +420,7 @@ class FluentDateTime(FluentDateType, datetime):
             dt_obj.second,
             dt_obj.microsecond,
             tzinfo=dt_obj.tzinfo,
+            fold=dt_obj.fold,
         )
         obj._init_options(dt_obj, kwargs)
         return obj
-- 
2.43.0


From f22de66603e13b14fd523a1fd18bcb813d224e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 14/33] fix: let threads share a FluentLocalization while it
 loads bundles

Concurrent first requests raised ValueError: generator already executing.
---
 fluent.runtime/fluent/runtime/fallback.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index f39bbf8..1ae0d31 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -1,5 +1,6 @@
 import codecs
 import os
+import threading
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -47,6 +48,7 @@ class FluentLocalization:
         self.functions = functions
         self._bundle_cache: List[FluentBundle] = []
         self._bundle_it = self._iterate_bundles()
+        self._bundle_lock = threading.RLock()
 
     def format_value(
         self, msg_id: str, args: Union[Dict[str, Any], None] = None
@@ -72,10 +74,13 @@ class FluentLocalization:
         bundle_pointer = 0
         while True:
             if bundle_pointer == len(self._bundle_cache):
-                try:
-                    self._bundle_cache.append(next(self._bundle_it))
-                except StopIteration:
-                    return
+                with self._bundle_lock:
+                    # Another thread might have added the bundle meanwhile.
+                    if bundle_pointer == len(self._bundle_cache):
+                        try:
+                            self._bundle_cache.append(next(self._bundle_it))
+                        except StopIteration:
+                            return
             yield self._bundle_cache[bundle_pointer]
             bundle_pointer += 1
 
-- 
2.43.0


From 5983aeaf6fd40ada409dc785d8eab37204d453b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 15/33] fix: do not round to minimumSignificantDigits

minimumSignificantDigits without a maximum was also taken as the maximum, so
that 123456 with a minimum of 2 was shown as 120,000. The default maximum is 21,
as in Intl.NumberFormat.
---
 fluent.runtime/fluent/runtime/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 11e243f..9b6ef6e 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -185,7 +185,7 @@ class FluentNumber(FluentType):
             pattern.pattern = "@"
             # We then manually set int_prec, and leave the rest as they are.
             min_digits = minSD if minSD is not None else 1
-            max_digits = maxSD if maxSD is not None else min_digits
+            max_digits = maxSD if maxSD is not None else max(21, min_digits)
             pattern.int_prec = (min_digits, max_digits)
         else:
             if self.options.minimumIntegerDigits is not None:
-- 
2.43.0


From 962f8d943a4c837b1d45271a03eeadc183d81f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:02 +0000
Subject: [PATCH 16/33] fix: let minimumFractionDigits exceed the default
 maximum

NUMBER(0.256, style: "percent", minimumFractionDigits: 2) gave 26.00%: the value
was rounded to the locale's default precision, and then padded.
---
 fluent.runtime/fluent/runtime/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 9b6ef6e..3d7ca4d 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -194,9 +194,10 @@ class FluentNumber(FluentType):
                     pattern.int_prec[1],
                 )
             if self.options.minimumFractionDigits is not None:
+                # The default maximum must not be below the given minimum.
                 pattern.frac_prec = (
                     self.options.minimumFractionDigits,
-                    pattern.frac_prec[1],
+                    max(self.options.minimumFractionDigits, pattern.frac_prec[1]),
                 )
             if self.options.maximumFractionDigits is not None:
                 pattern.frac_prec = (
-- 
2.43.0


From bbfcb1e4a4d43688d61018dd1873bfd7fc943ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 17/33] fix: honour fraction digit options for currencies

minimumFractionDigits and maximumFractionDigits had no effect with the
currency style, as babel replaced them by the digits of the currency.
---
 fluent.runtime/fluent/runtime/types.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 3d7ca4d..71628d6 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -7,7 +7,7 @@ import attr
 import pytz
 from babel import Locale
 from babel.dates import format_date, format_time, get_datetime_format, get_timezone
-from babel.numbers import NumberPattern, parse_pattern
+from babel.numbers import NumberPattern, get_currency_precision, parse_pattern
 from typing_extensions import Literal
 
 FORMAT_STYLE_DECIMAL = "decimal"
@@ -135,7 +135,15 @@ class FluentNumber(FluentType):
         elif self.options.style == FORMAT_STYLE_CURRENCY:
             base_pattern = locale.currency_formats["standard"]
             pattern = self._apply_options(base_pattern)
-            return pattern.apply(selfnum, locale, currency=self.options.currency)
+            # By default, babel uses the number of fraction digits of the
+            # currency, and ignores those of the pattern.
+            return pattern.apply(
+                selfnum,
+                locale,
+                currency=self.options.currency,
+                currency_digits=self.options.minimumFractionDigits is None
+                and self.options.maximumFractionDigits is None,
+            )
         # never happens
         return "???"
 
@@ -188,6 +196,9 @@ class FluentNumber(FluentType):
             max_digits = maxSD if maxSD is not None else max(21, min_digits)
             pattern.int_prec = (min_digits, max_digits)
         else:
+            if self.options.style == FORMAT_STYLE_CURRENCY:
+                digits = get_currency_precision(cast(str, self.options.currency))
+                pattern.frac_prec = (digits, digits)
             if self.options.minimumIntegerDigits is not None:
                 pattern.int_prec = (
                     self.options.minimumIntegerDigits,
@@ -200,10 +211,10 @@ class FluentNumber(FluentType):
                     max(self.options.minimumFractionDigits, pattern.frac_prec[1]),
                 )
             if self.options.maximumFractionDigits is not None:
-                pattern.frac_prec = (
-                    pattern.frac_prec[0],
-                    self.options.maximumFractionDigits,
-                )
+                min_digits = pattern.frac_prec[0]
+                if self.options.minimumFractionDigits is None:
+                    min_digits = min(min_digits, self.options.maximumFractionDigits)
+                pattern.frac_prec = (min_digits, self.options.maximumFractionDigits)
 
         return pattern
 
-- 
2.43.0


From f27f47e06580c7e43f9244957e171fe7682cf708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 18/33] fix: the length limit on placeables must not apply to
 text and isolation marks

Text elements longer than the limit next to a placeable made the whole
pattern fail, and values of just under the limit failed only when
isolation marks were added to them.
---
 fluent.runtime/fluent/runtime/resolver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index c1ae405..d3128b0 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -163,7 +163,8 @@ class Pattern(FTL.Pattern, BaseResolver):
             raise ValueError(
                 "Too many parts in message (> {}), " "aborting.".format(self.MAX_PARTS)
             )
-        retval = "".join(resolve(element(env), env) for element in elements)
+        # The length limit is for placeables, which apply it to their value.
+        retval = "".join(element(env) for element in elements)
         env.part_count += len(elements)
         env.active_patterns.remove(self)
         return retval
@@ -176,7 +177,7 @@ def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
                 "Too many characters in placeable "
-                "({}, max allowed is {})".format(len(fluentish), Pattern.MAX_PARTS)
+                "({}, max allowed is {})".format(len(fluentish), MAX_PART_LENGTH)
             )
     return fluentish
 
-- 
2.43.0


From 4d9df7b5d427494af0dc2f346145e9919b5d2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:59 +0000
Subject: [PATCH 19/33] fix: apply the length limit on placeables to formatted
 numbers, too

---
 fluent.runtime/fluent/runtime/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index d3128b0..07030f8 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -172,7 +172,7 @@ class Pattern(FTL.Pattern, BaseResolver):
 
 def resolve(fluentish: Any, env: ResolverEnvironment) -> Any:
     if isinstance(fluentish, FluentType):
-        return fluentish.format(env.context._babel_locale)
+        fluentish = fluentish.format(env.context._babel_locale)
     if isinstance(fluentish, str):
         if len(fluentish) > MAX_PART_LENGTH:
             raise ValueError(
-- 
2.43.0


From 763797fc06f8880e897d9999a3afcffb2c8cdccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 20/33] fix: read Fluent files as UTF-8 in the highlighter
 command whatever the locale

---
 fluent.pygments/fluent/pygments/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.pygments/fluent/pygments/cli.py b/fluent.pygments/fluent/pygments/cli.py
index 652155b..253c561 100644
--- a/fluent.pygments/fluent/pygments/cli.py
+++ b/fluent.pygments/fluent/pygments/cli.py
@@ -10,7 +10,7 @@ def main():
     parser = argparse.ArgumentParser()
     parser.add_argument("path")
     args = parser.parse_args()
-    with open(args.path) as fh:
+    with open(args.path, encoding="utf-8") as fh:
         code = fh.read()
     highlight(code, FluentLexer(), Terminal256Formatter(), sys.stdout)
 
-- 
2.43.0


From 4ce3b3964b45345c48e1f6a6c0ad9ea185792dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 21/33] fix: annotated release tags broke the documentation
 build

Annotated tags have no committer date, so parsing their empty date failed.
---
 fluent.docs/fluent/docs/tags.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fluent.docs/fluent/docs/tags.py b/fluent.docs/fluent/docs/tags.py
index a5dd7b1..b5390a4 100644
--- a/fluent.docs/fluent/docs/tags.py
+++ b/fluent.docs/fluent/docs/tags.py
@@ -4,7 +4,7 @@ from datetime import date
 
 def get_tag_infos(cut_off_date):
     """Get fluent.* tags newer than cut_off_date.
-    TagInfo objects are ordered by committer date, newest first.
+    TagInfo objects are ordered by creation date (of the commit for lightweight tags), newest first.
     """
     taglines = subprocess.run(
         [
@@ -12,8 +12,8 @@ def get_tag_infos(cut_off_date):
             "tag",
             "--list",
             "fluent.*",
-            "--sort=-committerdate",
-            "--format=%(refname:lstrip=2) %(committerdate:short)",
+            "--sort=-creatordate",
+            "--format=%(refname:lstrip=2) %(creatordate:short)",
         ],
         encoding="utf-8",
         stdout=subprocess.PIPE,
-- 
2.43.0


From 14c3d5a5d10e10065344fa6e13177d2c0ebea565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:21 +0000
Subject: [PATCH 22/33] fix: concurrent first lookups of a message returned
 different objects

With two compiled objects for one message in use, a cycle through it was
detected one round late, and the formatted text differed.
---
 fluent.runtime/fluent/runtime/bundle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 00dfbaf..9f60288 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -84,8 +84,9 @@ class FluentBundle:
         except LookupError:
             pass
         entry = self._terms[entry_id] if term else self._messages[entry_id]
-        self._compiled[compiled_id] = self._compiler(entry)
-        return self._compiled[compiled_id]
+        # Another thread might have compiled the entry meanwhile. All need to use
+        # the same object, as cycles are detected by the identity of patterns.
+        return self._compiled.setdefault(compiled_id, self._compiler(entry))
 
     def format_pattern(
         self, pattern: Pattern, args: Union[Dict[str, Any], None] = None
-- 
2.43.0


From 1e432be6d9bde1bed8f8e8a866fec500b3743877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:46 +0000
Subject: [PATCH 23/33] fix: do not let a Transformer drop None from the
 arguments of an Annotation

---
 fluent.syntax/fluent/syntax/visitor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluent.syntax/fluent/syntax/visitor.py b/fluent.syntax/fluent/syntax/visitor.py
index 237cd7e..79db1c0 100644
--- a/fluent.syntax/fluent/syntax/visitor.py
+++ b/fluent.syntax/fluent/syntax/visitor.py
@@ -54,7 +54,9 @@ class Transformer(Visitor):
                 new_vals: List[Any] = []
                 for child in propvalue:
                     new_val = self.visit(child)
-                    if new_val is not None:
+                    # Only nodes are removed, not a None among the arguments
+                    # of an Annotation.
+                    if new_val is not None or child is None:
                         new_vals.append(new_val)
                 # in-place manipulation
                 propvalue[:] = new_vals
-- 
2.43.0


From c72cb9683e7232303a674f4a360c87f666b0ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 24/33] fix: skip locales that babel cannot parse instead of
 raising

---
 fluent.runtime/fluent/runtime/bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/bundle.py b/fluent.runtime/fluent/runtime/bundle.py
index 9f60288..9663ffe 100644
--- a/fluent.runtime/fluent/runtime/bundle.py
+++ b/fluent.runtime/fluent/runtime/bundle.py
@@ -114,7 +114,9 @@ class FluentBundle:
         for lc in self.locales:
             try:
                 return babel.Locale.parse(lc.replace("-", "_"))
-            except babel.UnknownLocaleError:
+            except (babel.UnknownLocaleError, ValueError):
+                # ValueError is for tags that babel can't parse, like the
+                # private use subtags in "en-x-pseudo".
                 continue
         # TODO - log error
         return babel.Locale.default()
-- 
2.43.0


From c4bae15dcc4fc8da3317b07a5ab26e94c0e3f71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 25/33] fix: keep the class of arguments that are Fluent types
 already

---
 fluent.runtime/fluent/runtime/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/utils.py b/fluent.runtime/fluent/runtime/utils.py
index b9fa7bd..c9db0be 100644
--- a/fluent.runtime/fluent/runtime/utils.py
+++ b/fluent.runtime/fluent/runtime/utils.py
@@ -5,7 +5,14 @@ from typing import Any, Union
 from fluent.syntax.ast import MessageReference, TermReference
 
 from .errors import FluentReferenceError
-from .types import FluentDate, FluentDateTime, FluentDecimal, FluentFloat, FluentInt
+from .types import (
+    FluentDate,
+    FluentDateTime,
+    FluentDecimal,
+    FluentFloat,
+    FluentInt,
+    FluentType,
+)
 
 TERM_SIGIL = "-"
 ATTRIBUTE_SEPARATOR = "."
@@ -15,6 +22,9 @@ def native_to_fluent(val: Any) -> Any:
     """
     Convert a python type to a Fluent Type.
     """
+    if isinstance(val, FluentType):
+        # Converting would lose the class of types derived from FluentInt etc.
+        return val
     if isinstance(val, int):
         return FluentInt(val)
     if isinstance(val, float):
-- 
2.43.0


From 0c488d556b164bced32cf367830adf68c5963b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 26/33] fix: dates made from Fluent dates, by arithmetic or
 copying, can be formatted

---
 fluent.runtime/fluent/runtime/types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 71628d6..4942107 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -357,6 +357,11 @@ class FluentDateType(FluentType):
     # some Python implementation (e.g. PyPy) implement some methods.
     # So we leave those alone, and implement another `_init_options`
     # which is called from other constructors.
+
+    # Objects which Python makes, e.g. those from date arithmetic, don't come
+    # from these constructors, and use the default options.
+    options = DateFormatOptions()
+
     def _init_options(
         self, dt_obj: Union[date, datetime], kwargs: Dict[str, Any]
     ) -> None:
-- 
2.43.0


From 1d396876d7c19ade6b60a32886f26463ac7ba796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 27/33] fix: numbers are formatted and matched to plural rules
 whatever the decimal context

FluentNumber.format and plural selection used the decimal context of the
current thread, so that numbers of more than 28 digits could not be formatted,
and an application's own precision or rounding changed text and variant.
---
 fluent.runtime/fluent/runtime/resolver.py | 20 ++++++++++++++------
 fluent.runtime/fluent/runtime/types.py    | 21 +++++++++++++++++++++
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 07030f8..4a310e8 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -1,12 +1,19 @@
 import contextlib
-from decimal import Decimal
+from decimal import Decimal, localcontext
 from typing import TYPE_CHECKING, Any, Dict, Generator, List, Set, Union, cast
 
 import attr
 from fluent.syntax import ast as FTL
 
 from .errors import FluentCyclicReferenceError, FluentFormatError, FluentReferenceError
-from .types import FluentFloat, FluentInt, FluentNone, FluentNumber, FluentType
+from .types import (
+    DECIMAL_CONTEXT,
+    FluentFloat,
+    FluentInt,
+    FluentNone,
+    FluentNumber,
+    FluentType,
+)
 from .utils import reference_to_id, unknown_reference_error_obj
 
 if TYPE_CHECKING:
@@ -358,10 +365,11 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
     if is_number(val1):
         if not is_number(val2):
             # Could be plural rule match
-            if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
-                val1_form = env.context._ordinal_form(val1)
-            else:
-                val1_form = env.context._plural_form(val1)
+            with localcontext(DECIMAL_CONTEXT):
+                if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
+                    val1_form = env.context._ordinal_form(val1)
+                else:
+                    val1_form = env.context._plural_form(val1)
             return cast(bool, val1_form == val2)
     elif is_number(val2):
         return False
diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index 4942107..dd6bc99 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -1,3 +1,4 @@
+import decimal
 import warnings
 from datetime import date, datetime
 from decimal import Decimal
@@ -95,6 +96,22 @@ class NumberFormatOptions:
     maximumSignificantDigits: Union[int, None] = attr.ib(default=None)
 
 
+# Used for formatting numbers and for finding their plural category, instead of
+# the context of the current thread: the application's precision and rounding
+# are for its own arithmetic, and the default precision of 28 digits is too
+# small for many ints, floats and Decimals.
+DECIMAL_CONTEXT = decimal.Context(
+    prec=5000,
+    rounding=decimal.ROUND_HALF_EVEN,
+    Emin=-999999,
+    Emax=999999,
+    capitals=1,
+    clamp=0,
+    flags=[],
+    traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow],
+)
+
+
 class FluentNumber(FluentType):
 
     default_number_format_options = NumberFormatOptions()
@@ -123,6 +140,10 @@ class FluentNumber(FluentType):
         return self
 
     def format(self, locale: Locale) -> str:
+        with decimal.localcontext(DECIMAL_CONTEXT):
+            return self._format(locale)
+
+    def _format(self, locale: Locale) -> str:
         selfnum = cast(float, self)
         if self.options.style == FORMAT_STYLE_DECIMAL:
             base_pattern = cast(NumberPattern, locale.decimal_formats.get(None))
-- 
2.43.0


From 073d828e5e8825fa5aedeadb63bacc2f41016d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 28/33] fix: the resource loader closes the files it reads

---
 fluent.runtime/fluent/runtime/fallback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index 1ae0d31..6489421 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -139,7 +139,8 @@ class FluentResourceLoader(AbstractResourceLoader):
                 path = self.localize_path(os.path.join(root, resource_id), locale)
                 if not os.path.isfile(path):
                     continue
-                content = codecs.open(path, "r", "utf-8").read()
+                with codecs.open(path, "r", "utf-8") as f:
+                    content = f.read()
                 resources.append(FluentParser().parse(content))
             if resources:
                 yield resources
-- 
2.43.0


From 1cc669d5f291a32f626044e9e3e3b8ca756746f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:15 +0000
Subject: [PATCH 29/33] fix: copies and pickles of wrapped dates and Decimals
 keep the options

date, datetime and Decimal reduce to their value alone, so that copying or
pickling a FluentDate, FluentDateTime or FluentDecimal lost its options.
---
 fluent.runtime/fluent/runtime/types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fluent.runtime/fluent/runtime/types.py b/fluent.runtime/fluent/runtime/types.py
index dd6bc99..6c00c71 100644
--- a/fluent.runtime/fluent/runtime/types.py
+++ b/fluent.runtime/fluent/runtime/types.py
@@ -2,7 +2,7 @@ import decimal
 import warnings
 from datetime import date, datetime
 from decimal import Decimal
-from typing import Any, Dict, Type, TypeVar, Union, cast
+from typing import Any, Dict, Tuple, Type, TypeVar, Union, cast
 
 import attr
 import pytz
@@ -291,7 +291,9 @@ class FluentFloat(FluentNumber, float):
 
 
 class FluentDecimal(FluentNumber, Decimal):
-    pass
+    def __reduce__(self) -> Tuple[Any, ...]:
+        # Decimal leaves out the options.
+        return (*super().__reduce__(), self.__dict__)
 
 
 def fluent_number(
@@ -398,6 +400,11 @@ class FluentDateType(FluentType):
             if k not in _SUPPORTED_DATETIME_OPTIONS:
                 warnings.warn(f"FluentDateType option {k} is not yet supported")
 
+    def __reduce_ex__(self, protocol: Any) -> Tuple[Any, ...]:
+        # date and datetime leave out the options.
+        cls, args, *_ = cast(Tuple[Any, ...], super().__reduce_ex__(protocol))
+        return cls, args, self.__dict__
+
     def format(self, locale: Locale) -> str:
         if isinstance(self, datetime):
             selftz = _ensure_datetime_tzinfo(self, tzinfo=self.options.timeZone)
-- 
2.43.0


From 8b364f80f2f2914a8d78f8292af646a021254cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:12 +0000
Subject: [PATCH 30/33] fix: infinity and NaN as selectors don't break the
 whole message

The plural rules raise for them, which replaced all of the text by {???}
instead of selecting the variant [other], or the default.
---
 fluent.runtime/fluent/runtime/resolver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fluent.runtime/fluent/runtime/resolver.py b/fluent.runtime/fluent/runtime/resolver.py
index 4a310e8..140ef38 100644
--- a/fluent.runtime/fluent/runtime/resolver.py
+++ b/fluent.runtime/fluent/runtime/resolver.py
@@ -366,6 +366,9 @@ def match(val1: Any, val2: Any, env: ResolverEnvironment) -> bool:
         if not is_number(val2):
             # Could be plural rule match
             with localcontext(DECIMAL_CONTEXT):
+                if not Decimal(val1).is_finite():
+                    # The rules look at digits, which infinity and NaN don't have.
+                    return cast(bool, val2 == "other")
                 if isinstance(val1, FluentNumber) and val1.options.type == "ordinal":
                     val1_form = env.context._ordinal_form(val1)
                 else:
-- 
2.43.0


From 75aff847ae4111ef6a2958249c1f4d5e90840aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:57 +0000
Subject: [PATCH 31/33] fix: an exception while loading ended the
 localization's fallback for good

When the resource loader or bundle class raised, or the request was
interrupted, the generator of bundles was finished: that request raised,
but later ones silently returned the message id, even when the cause was
gone. Continue after the bundles loaded so far instead.
---
 fluent.runtime/fluent/runtime/fallback.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fluent.runtime/fluent/runtime/fallback.py b/fluent.runtime/fluent/runtime/fallback.py
index 6489421..8dd9dad 100644
--- a/fluent.runtime/fluent/runtime/fallback.py
+++ b/fluent.runtime/fluent/runtime/fallback.py
@@ -1,4 +1,5 @@
 import codecs
+import itertools
 import os
 import threading
 from typing import (
@@ -7,6 +8,7 @@ from typing import (
     Callable,
     Dict,
     Generator,
+    Iterator,
     List,
     Type,
     Union,
@@ -47,7 +49,7 @@ class FluentLocalization:
         self.bundle_class = bundle_class
         self.functions = functions
         self._bundle_cache: List[FluentBundle] = []
-        self._bundle_it = self._iterate_bundles()
+        self._bundle_it: Iterator[FluentBundle] = self._iterate_bundles()
         self._bundle_lock = threading.RLock()
 
     def format_value(
@@ -81,6 +83,13 @@ class FluentLocalization:
                             self._bundle_cache.append(next(self._bundle_it))
                         except StopIteration:
                             return
+                        except BaseException:
+                            # The exception ended the generator. Go on after the
+                            # bundles we have, instead of giving up on the others.
+                            self._bundle_it = itertools.islice(
+                                self._iterate_bundles(), len(self._bundle_cache), None
+                            )
+                            raise
             yield self._bundle_cache[bundle_pointer]
             bundle_pointer += 1
 
-- 
2.43.0


From f3fac4e40a59c474b398690a939a68e78aee1dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:23 +0000
Subject: [PATCH 32/33] fix: documentation build published a release from other
 sources when its checkout failed

---
 fluent.docs/fluent/docs/build.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fluent.docs/fluent/docs/build.py b/fluent.docs/fluent/docs/build.py
index fbdfe52..1902c56 100644
--- a/fluent.docs/fluent/docs/build.py
+++ b/fluent.docs/fluent/docs/build.py
@@ -49,9 +49,13 @@ def build(repo_name, projects, releases_after=None):
     for tag in tagged_versions:
         if worktree is None:
             worktree = tempfile.mkdtemp()
-            subprocess.run(["git", "worktree", "add", "--detach", worktree])
+            subprocess.run(
+                ["git", "worktree", "add", "--detach", worktree], check=True
+            )
         subprocess.run(
-            ["git", "checkout", f"{tag.project}@{tag.version}"], cwd=worktree
+            ["git", "checkout", f"{tag.project}@{tag.version}"],
+            cwd=worktree,
+            check=True,
         )
         with ProjectBuilder(
             repo_name,
-- 
2.43.0


From 1fa058179c32b87194c981c462a271c19a9f8237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:23 +0000
Subject: [PATCH 33/33] fix: documentation build checked out the branch when
 one had the release tag's name

---
 fluent.docs/fluent/docs/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fluent.docs/fluent/docs/build.py b/fluent.docs/fluent/docs/build.py
index 1902c56..814b790 100644
--- a/fluent.docs/fluent/docs/build.py
+++ b/fluent.docs/fluent/docs/build.py
@@ -53,7 +53,7 @@ def build(repo_name, projects, releases_after=None):
                 ["git", "worktree", "add", "--detach", worktree], check=True
             )
         subprocess.run(
-            ["git", "checkout", f"{tag.project}@{tag.version}"],
+            ["git", "checkout", f"refs/tags/{tag.project}@{tag.version}"],
             cwd=worktree,
             check=True,
         )
-- 
2.43.0

