From f5107813ef6206316f4dc7c5648fd0d804189fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 01/32] fix: quote symbol text that looks like a symbol
 identifier in text output

Symbol text such as $10 was written without quotes, so it read back as the
symbol with ID 10 (or failed as an out of range ID) instead of that text.
---
 amazon/ion/writer_text.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index ce26441..bd137ef 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -248,9 +248,13 @@ _DOUBLE_QUOTE = b'"'
 # all typed nulls (such as null.int) and the +inf, and -inf keywords are covered by this regex
 _UNQUOTED_SYMBOL_REGEX = re.compile(r'\A[a-zA-Z$_][a-zA-Z0-9$_]*\Z')
 _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES = set(['nan', 'null', 'false', 'true'])
+# unquoted, this text would denote the symbol with that symbol ID rather than the text itself
+_SYMBOL_IDENTIFIER_REGEX = re.compile(r'\A\$[0-9]+\Z')
 
 def _symbol_needs_quotes(text):
-    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES or _UNQUOTED_SYMBOL_REGEX.search(text) is None
+    return text in _ADDITIONAL_SYMBOLS_REQUIRING_QUOTES \
+        or _UNQUOTED_SYMBOL_REGEX.search(text) is None \
+        or _SYMBOL_IDENTIFIER_REGEX.search(text) is not None
 
 def _serialize_symbol_value(value, suffix=b''):
     # TODO Support not quoting operators in s-expressions: http://amzn.github.io/ion-docs/docs/symbols.html
-- 
2.43.0


From 0a63f67cdfad9d353b5598c773696b02e4fea68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 02/32] fix: write timestamps without explicit precision as
 text

A Timestamp whose precision is None raised AttributeError in the text writer;
the binary writer already treats it as SECOND precision.
---
 amazon/ion/writer_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index bd137ef..b7726a7 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -143,6 +143,8 @@ def _bytes_utc_offset(dt):
 def _bytes_datetime(dt):
     original_dt = dt
     precision = getattr(original_dt, TIMESTAMP_PRECISION_FIELD, TimestampPrecision.SECOND)
+    if precision is None:
+        precision = TimestampPrecision.SECOND
     if dt.year < 1900:
         # In some Python interpreter versions, strftime inexplicably does not support pre-1900 years.
         # This unfortunate ugliness compensates for that.
-- 
2.43.0


From ffbc90840c0752a2842136e785ace7d565c5886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 03/32] fix: keep fractional seconds of more than 28 digits
 exact

Arithmetic in the default decimal context rounded long fractional seconds in
the binary writer, the text reader and the Timestamp constructor (which could
even round up to 1000000 microseconds and fail).
---
 amazon/ion/core.py              | 4 +++-
 amazon/ion/reader_text.py       | 2 +-
 amazon/ion/writer_binary_raw.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index 1371729..c8d861d 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -497,7 +497,9 @@ class Timestamp(datetime):
                 fractional_seconds = DECIMAL_ZERO
             fractional_precision = min(-fractional_seconds_exponent, MICROSECOND_PRECISION)
             # Scale to microseconds and truncate to an integer.
-            args = replace_microsecond(int(fractional_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
+            truncated_seconds = fractional_seconds.quantize(PRECISION_LIMIT_LOOKUP[MICROSECOND_PRECISION],
+                                                            context=Context(rounding=ROUND_FLOOR))
+            args = replace_microsecond(int(truncated_seconds * BASE_TEN_MICROSECOND_PRECISION_EXPONENTIATION))
         elif datetime_microseconds is not None:
             if fractional_precision is None:
                 fractional_precision = MICROSECOND_PRECISION
diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index dcb8c50..9973e2f 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -925,7 +925,7 @@ def _parse_timestamp(tokens):
 
             fraction = tokens[_TimestampState.FRACTIONAL]
             if fraction is not None:
-                fraction = Decimal(int(fraction)).scaleb(-1 * len(fraction))
+                fraction = Decimal('0.' + _decode(fraction))
         return timestamp(
             year, month, day,
             hour, minute, second, None,
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index a153687..f5682a1 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -172,7 +172,7 @@ def _write_decimal_value(buf, exponent, coefficient, sign=0):
 
 def _write_timestamp_fractional_seconds(buf, value):
     sign, digits, exponent = value.as_tuple()
-    coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = int(Decimal((sign, digits, 0)))  # Exact, regardless of the decimal context's precision.
     if coefficient == 0 and exponent >= 0:
         length = 0
     else:
-- 
2.43.0


From 0cc59564d84137d6936fb35be40f9bd783547d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 04/32] fix: keep binary decimals with very large or small
 exponents exact

Scaling in a decimal context with the default exponent limits raised Overflow
for exponents beyond 999999 and silently turned tiny values into zero.
---
 amazon/ion/reader_binary.py     | 11 +++--------
 amazon/ion/writer_binary_raw.py |  8 ++------
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index b515acd..0d54389 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -20,7 +20,7 @@ from __future__ import print_function
 import six
 
 from datetime import timedelta
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 from io import BytesIO
 from struct import unpack
@@ -186,7 +186,6 @@ def _parse_signed_int_components(buf):
 
 def _parse_decimal(buf):
     """Parses the remainder of a file-like object as a decimal."""
-    from decimal import localcontext
     exponent = _parse_var_int(buf, signed=True)
     sign_bit, coefficient = _parse_signed_int_components(buf)
 
@@ -194,12 +193,8 @@ def _parse_decimal(buf):
         # Handle the zero cases--especially negative zero
         value = Decimal((sign_bit, (0,), exponent))
     else:
-        coefficient *= sign_bit and -1 or 1
-        with localcontext() as context:
-            # Adjusting precision for taking into account arbitrarily
-            # large/small numbers
-            context.prec = len(str(coefficient))
-            value = Decimal(coefficient).scaleb(exponent)
+        # Constructed from its components, the value is exact regardless of the decimal context's limits.
+        value = Decimal((sign_bit, Decimal(coefficient).as_tuple().digits, exponent))
 
     return value
 
diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index f5682a1..7fd0e95 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -21,7 +21,7 @@ from __future__ import print_function
 
 
 from datetime import datetime
-from decimal import Decimal, localcontext
+from decimal import Decimal
 from functools import partial
 
 import six
@@ -185,11 +185,7 @@ def _serialize_decimal(ion_event):
     value = ion_event.value
     validate_scalar_value(value, Decimal)
     sign, digits, exponent = value.as_tuple()
-    with localcontext() as context:
-        # Adjusting precision for taking into account arbitrarily large/small
-        # numbers
-        context.prec = len(digits)
-        coefficient = int(value.scaleb(-exponent).to_integral_value())
+    coefficient = int(Decimal((sign, digits, 0)))  # Exact, regardless of the decimal context's limits.
     if not sign and not exponent and not coefficient:
         # The value is 0d0; other forms of zero will fall through.
         buf.append(_Zeros.DECIMAL)
-- 
2.43.0


From 79ecc2f47f9c31426850d0424406ffd43023f93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 05/32] fix: report a truncated variable-length integer as an
 IonException

Under Python 3 the end of input is b'', which never equals ''; the under-run
surfaced as a TypeError from ord().
---
 amazon/ion/reader_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 0d54389..466bf69 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -135,7 +135,7 @@ def _parse_var_int_components(buf, signed):
     sign = 1
     while True:
         ch = buf.read(1)
-        if ch == '':
+        if ch == b'':
             raise IonException('Variable integer under-run')
         octet = ord(ch)
         if signed:
-- 
2.43.0


From 1db20b2378d8d788b7959a24ec313a04fcc23896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 06/32] fix: match repeated struct fields one to one when
 comparing structs

{a:1,a:1,a:2} and {a:1,a:2,a:2} compared as equivalent because one value
could stand in for several.
---
 amazon/ion/equivalence.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index ac733dd..7186d2d 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -148,8 +148,13 @@ def _structs_eq(a, b, comparison_func):
                 values_b = b.get_all_values(key)
                 if len(values_a) != len(values_b):
                     return False
+                unmatched = list(values_b)
                 for value_a in values_a:
-                    if not any(comparison_func(value_a, value_b) for value_b in values_b):
+                    for i, value_b in enumerate(unmatched):
+                        if comparison_func(value_a, value_b):
+                            del unmatched[i]  # Each value may match only once.
+                            break
+                    else:
                         return False
             else:
                 if not comparison_func(a[key], b[key]):
-- 
2.43.0


From 06bd7fecbf66567861ce0d91a10917731a122394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 07/32] fix: compare native tuples under the Ion data model

Tuples fell through to Python equality, so (0.0,) and (-0.0,) were equivalent
and (nan,) was not equivalent to an equal tuple, unlike the same lists.
---
 amazon/ion/equivalence.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 7186d2d..985a2bd 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -103,6 +103,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return timestamp_comparison_func(a, b)
         elif isinstance(a, SymbolToken):
             return _symbols_eq(a, b)
+        elif isinstance(a, tuple) and not isinstance(b, SymbolToken):
+            return _sequences_eq(a, b, recursive_comparison_func)
         elif isinstance(a, Decimal):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
-- 
2.43.0


From f25c910b1adb6dc0114bebf48f8f1fe59909bcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 08/32] fix: intern an empty field name in the binary writer

---
 amazon/ion/writer_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/writer_binary.py b/amazon/ion/writer_binary.py
index 36cb17e..0e8a450 100644
--- a/amazon/ion/writer_binary.py
+++ b/amazon/ion/writer_binary.py
@@ -168,7 +168,7 @@ def _managed_binary_writer_coroutine(imports):
     def intern_symbols(event):
         field_name = event.field_name
         annotations = event.annotations
-        if field_name:
+        if field_name is not None:
             event = event.derive_field_name(intern_symbol(field_name))
         if annotations:
             event = event.derive_annotations(
-- 
2.43.0


From b5240e25cea0eb8401bea6ea1a9ff0c51da2b884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 09/32] fix: let vertical tab and form feed end a text number
 or timestamp

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 9973e2f..aaa2956 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -96,7 +96,7 @@ _ENCODING = 'utf-8'
 # between how bytes objects are handled in python 2 and 3, and simplifies logic around comparing multi-byte characters.
 _WHITESPACE_NOT_NL = _seq(b' \t\v\f')
 _WHITESPACE = _WHITESPACE_NOT_NL + _seq(b'\n\r')
-_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r/')
+_VALUE_TERMINATORS = _seq(b'{}[](),\"\' \t\n\r\v\f/')
 _SYMBOL_TOKEN_TERMINATORS = _WHITESPACE + _seq(b'/:')
 _DIGITS = _seq(b'0123456789')
 _BINARY_RADIX = _seq(b'Bb')
-- 
2.43.0


From 8c8b506782616a112347d09d1fdf27b5a3dd9d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:58 +0000
Subject: [PATCH 10/32] fix: accept a comment between an annotation and an
 unquoted annotation after it

---
 amazon/ion/reader_text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index aaa2956..3fcd0f8 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2043,6 +2043,9 @@ def _container_handler(c, ctx):
                 if not is_value_decorated():
                     # This is the start of a new child value.
                     child_context = ctx.derive_child_context(self)
+                else:
+                    # A preceding comment may have left the context marked as self-delimiting.
+                    child_context.set_self_delimiting(False)
                 if is_field_name:
                     handler = _FIELD_NAME_START_TABLE[c](c, child_context)
                 else:
-- 
2.43.0


From 394d8d5cfcc4fcd85f3031d68876d66d20ebdc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 11/32] fix: never mistake a one-byte chunk for the end-of-file
 marker

---
 amazon/ion/reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader.py b/amazon/ion/reader.py
index 1ada2ab..5f6e74d 100644
--- a/amazon/ion/reader.py
+++ b/amazon/ion/reader.py
@@ -111,7 +111,15 @@ class CodePointArray:
         raise ValueError('Attempted to delete from code point sequence.')
 
 
-_EOF = b'\x04'  # End of transmission character.
+class _EndOfFile(six.binary_type):
+    """Type of the end-of-file marker.
+
+    Interpreters may share the objects of one-byte literals and slices, so a plain literal could not be told apart from
+    a chunk of data that happens to hold the same byte.
+    """
+
+
+_EOF = _EndOfFile(b'\x04')  # End of transmission character.
 
 
 class BufferQueue(object):
-- 
2.43.0


From c9ae623e328118fbaecb2502b3b4d62b0e2e434b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 12/32] fix: skip to the end of the right container after a
 nested one has ended

---
 amazon/ion/reader_text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3fcd0f8..282de56 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -2162,9 +2162,12 @@ def _skip_trampoline(handler):
                     data_event, _ = yield Transition(event, self)
         else:
             trans, delegate, event = pass_through()
-            if event is not None and (event.event_type is IonEventType.CONTAINER_START or
-                                      event.event_type is IonEventType.CONTAINER_END):
+        # Track the depth of the innermost open container, which is the one a following SKIP ends.
+        if event is not None:
+            if event.event_type is IonEventType.CONTAINER_START:
                 depth = event.depth
+            elif event.event_type is IonEventType.CONTAINER_END:
+                depth = event.depth - 1
         data_event, _ = yield Transition(event, self)
 
 
-- 
2.43.0


From 0adf5d3283825f7514eff96b4ece63fdcb62cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 13/32] fix: give non-string entries of a symbol list a symbol
 ID of unknown text

---
 amazon/ion/reader_managed.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index a6ef05a..34df4fe 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -138,9 +138,8 @@ def _symbols_handler(symbols, whence):
             # We need to skip past this container (ignoring the end container event).
             ion_event, _ = yield Transition(SKIP_EVENT, self)
 
-        if ion_type is IonType.STRING:
-            # Add the potentially null text.
-            symbols.append(ion_event.value)
+        # Add the potentially null text; an element of any other type takes up a symbol ID with unknown text.
+        symbols.append(ion_event.value if ion_type is IonType.STRING else None)
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 3636296bbcde7b205157285e16407cb45ef3ce7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:18 +0000
Subject: [PATCH 14/32] fix: reject an annotation wrapper around a NOP pad

---
 amazon/ion/reader_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 466bf69..727dda7 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -438,6 +438,9 @@ def _nop_pad_handler(ion_type, length, ctx):
         raise IonException(
             'Cannot have NOP pad with non-zero symbol field, field SID %d' % ctx.field_name)
 
+    if ctx.annotations is not None:
+        raise IonException('Annotation wrapper cannot contain a NOP pad')
+
     if length > 0:
         yield ctx.read_data_transition(length, ctx.whence, skip=True)
 
-- 
2.43.0


From c011d7ec9b29bf4cb2c741f3d815334bb67663c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:38 +0000
Subject: [PATCH 15/32] fix: tell timestamps with more than six fractional
 digits apart by their digits

---
 amazon/ion/equivalence.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 985a2bd..900d9d2 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -180,7 +180,9 @@ def _timestamps_eq(a, b):
             if isinstance(b, Timestamp):
                 # Both operands declare their precisions. They are only equivalent if their precisions are the same.
                 if a.precision is b.precision and a.fractional_precision is b.fractional_precision \
-                        and a.fractional_seconds == b.fractional_seconds:
+                        and a.fractional_seconds == b.fractional_seconds \
+                        and min(a.fractional_seconds.as_tuple().exponent, 0) == \
+                        min(b.fractional_seconds.as_tuple().exponent, 0):
                     break
                 return False
             elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
-- 
2.43.0


From d843f5aac80b3a27afeef6c980557b13cd9a4cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 16/32] fix: keep repeated fields when a struct is built from
 another

---
 amazon/ion/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/core.py b/amazon/ion/core.py
index c8d861d..24e8f33 100644
--- a/amazon/ion/core.py
+++ b/amazon/ion/core.py
@@ -614,7 +614,7 @@ class Multimap(MutableMapping):
         self.__store = OrderedDict()
         if args is not None and len(args) > 0:
             for key, value in six.iteritems(args[0]):
-                self.__store[key] = MultimapValue(value)
+                self.add_item(key, value)
 
     def __getitem__(self, key):
         return self.__store[key][len(self.__store[key]) - 1]  # Return only one in order not to break clients
-- 
2.43.0


From 3bfa485be2b7e832e399a70d580b0004fe3a9374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 17/32] fix: write the number, not the string form of a numeric
 subclass, as text

---
 amazon/ion/writer_text.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index b7726a7..4fdaf19 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -87,7 +87,8 @@ def _serialize_scalar_from_string_representation_factory(type_name, types, str_f
 
 
 _serialize_int = _serialize_scalar_from_string_representation_factory(
-    'int', six.integer_types
+    'int', six.integer_types,
+    str_func=lambda val: '%d' % val  # A subclass, e.g. an IntEnum, may override __str__.
 )
 
 
@@ -103,7 +104,7 @@ def _float_str(val):
             return '+inf'
         else:
             return '-inf'
-    text = repr(val)
+    text = float.__repr__(val)
     if _EXPONENT_PAT.search(text) is None:
         text += 'e0'
     return text
@@ -116,7 +117,7 @@ _serialize_float = _serialize_scalar_from_string_representation_factory(
 
 # TODO Make this cleaner.
 def _decimal_str(val):
-    text = str(val)
+    text = Decimal.__str__(val)
     new_text = _EXPONENT_PAT.sub('d', text)
     if text == new_text and text.find('.') == -1:
         new_text += 'd0'
-- 
2.43.0


From 12a6a8436204fc721d6f6fa89133918ebfea8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 18/32] fix: reject underscores in exponents

---
 amazon/ion/reader_text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 282de56..4b93c76 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -728,7 +728,8 @@ def _exponent_handler_factory(ion_type, exp_chars, parse_func, first_char=None):
             _illegal_character(c, ctx)
         return trans
     illegal = exp_chars + _SIGN
-    return _numeric_handler_factory(_DIGITS, transition, lambda c, ctx: c in exp_chars, illegal, parse_func,
+    # Underscores are illegal anywhere in an exponent.
+    return _numeric_handler_factory(_DIGITS, transition, lambda c, ctx: c in exp_chars, illegal + _DIGITS, parse_func,
                                     illegal_at_end=illegal, ion_type=ion_type, first_char=first_char)
 
 
-- 
2.43.0


From 154fed424ae421ac3b952869bf9d8a6837aa1164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 19/32] fix: reject digits after the T of a year or month
 timestamp

---
 amazon/ion/reader_text.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 4b93c76..714eb02 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -954,7 +954,7 @@ def _timestamp_handler(c, ctx):
     val = None
     can_terminate = False
     if prev == _T:
-        nxt += _VALUE_TERMINATORS
+        nxt = _VALUE_TERMINATORS
         can_terminate = True
     while True:
         is_eof = can_terminate and BufferQueue.is_eof(c)
@@ -975,7 +975,9 @@ def _timestamp_handler(c, ctx):
                 nxt = _VALUE_TERMINATORS
                 can_terminate = True
             elif c == _T:
-                nxt = _VALUE_TERMINATORS + _DIGITS
+                nxt = _VALUE_TERMINATORS
+                if state == _TimestampState.DAY:
+                    nxt += _DIGITS
                 can_terminate = True
             elif c in _TIMESTAMP_DELIMITERS:
                 nxt = _DIGITS
-- 
2.43.0


From bbb12190003d5f6fcdc1ee48d4dfcf47759b9b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 20/32] fix: reject base-64 digits after padding and whitespace

---
 amazon/ion/reader_text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 714eb02..e8f355c 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1745,7 +1745,7 @@ def _blob_end_handler_factory():
     def action(c, ctx, prev, res, is_first):
         num_digits, num_pads = expand_res(res)
         if c in _BASE64_DIGITS:
-            if prev == _CLOSE_BRACE or prev == _BASE64_PAD:
+            if prev == _CLOSE_BRACE or num_pads > 0:
                 _illegal_character(c, ctx.set_ion_type(IonType.BLOB))
             num_digits += 1
         elif c == _BASE64_PAD:
-- 
2.43.0


From 8d89bc2621f7338d5b1855472b249155605c5c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 21/32] fix: accept only three unescaped quotes as the start of
 a long clob

---
 amazon/ion/reader_text.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index e8f355c..4229373 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1681,13 +1681,15 @@ def _lob_start_handler(c, ctx):
                 _illegal_character(c, ctx)
             ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             yield ctx.immediate_transition(_short_string_handler(c, ctx))
-        elif c == _SINGLE_QUOTE:
+        elif c == _SINGLE_QUOTE and not _is_escaped(c):
             if not quotes:
                 ctx.set_ion_type(IonType.CLOB).set_unicode(quoted_text=True)
             quotes += 1
             if quotes == 3:
                 yield ctx.immediate_transition(_long_string_handler(c, ctx))
         else:
+            if quotes > 0:
+                _illegal_character(c, ctx)
             yield ctx.immediate_transition(_blob_end_handler(c, ctx))
         c, _ = yield trans
 
-- 
2.43.0


From ed98fe0c06ef7e7384bc9e2c2c630fde3f5420c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:15 +0000
Subject: [PATCH 22/32] fix: reject an unquoted field name without a value

---
 amazon/ion/reader_text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 4229373..3e2b390 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -1288,6 +1288,8 @@ def _symbol_or_keyword_handler(c, ctx, is_field_name=False):
                 ctx.set_pending_symbol(val)
                 trans = ctx.immediate_transition(ctx.whence)
             elif _ends_value(c) or (in_sexp and c in _OPERATORS):
+                if is_field_name:
+                    _illegal_character(c, ctx, 'Field name without a value.')
                 trans = ctx.event_transition(IonEvent, IonEventType.SCALAR, IonType.SYMBOL, val.as_symbol())
             else:
                 trans = ctx.immediate_transition(_unquoted_symbol_handler(c, ctx, is_field_name=is_field_name))
-- 
2.43.0


From a015233390789278a0de7e17ee2228bb3dd36cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:07 +0000
Subject: [PATCH 23/32] fix: reject bools and lobs whose value is of another
 type

---
 amazon/ion/writer_binary_raw.py | 2 ++
 amazon/ion/writer_text.py       | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/amazon/ion/writer_binary_raw.py b/amazon/ion/writer_binary_raw.py
index 7fd0e95..23d8e8e 100644
--- a/amazon/ion/writer_binary_raw.py
+++ b/amazon/ion/writer_binary_raw.py
@@ -105,6 +105,7 @@ _BOOL_FALSE = bytearray([_TypeIds.BOOL_FALSE])
 
 
 def _serialize_bool(ion_event):
+    validate_scalar_value(ion_event.value, six.integer_types)  # bool is a subclass of int.
     if ion_event.value:
         return _BOOL_TRUE
     else:
@@ -225,6 +226,7 @@ def _serialize_symbol(ion_event):
 def _serialize_lob_value(event, tid):
     buf = bytearray()
     value = event.value
+    validate_scalar_value(value, (six.binary_type, bytearray))
     _write_length(buf, len(value), tid)
     buf.extend(value)
     return buf
diff --git a/amazon/ion/writer_text.py b/amazon/ion/writer_text.py
index 4fdaf19..94d7f7a 100644
--- a/amazon/ion/writer_text.py
+++ b/amazon/ion/writer_text.py
@@ -61,6 +61,7 @@ _NULL_TYPE_NAMES = [
 
 
 def _serialize_bool(ion_event):
+    validate_scalar_value(ion_event.value, six.integer_types)  # bool is a subclass of int.
     if ion_event.value:
         return b'true'
     else:
@@ -289,11 +290,13 @@ _LOB_END = b'}}'
 
 def _serialize_clob(ion_event):
     value = ion_event.value
+    validate_scalar_value(value, (six.binary_type, bytearray))
     return _bytes_text(six.iterbytes(value), _DOUBLE_QUOTE, prefix=_LOB_START, suffix=_LOB_END)
 
 
 def _serialize_blob(ion_event):
     value = ion_event.value
+    validate_scalar_value(value, (six.binary_type, bytearray))
     return _LOB_START + base64.b64encode(value) + _LOB_END
 
 
-- 
2.43.0


From a6412b3ee017f7139bbdceb693dbea8826963e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:42 +0000
Subject: [PATCH 24/32] fix: reject a variable-length integer that crosses the
 end of its container

When the octets were already buffered, a length field or field name could
run past the end of the enclosing container; a value of length zero was
then reported before the overrun was noticed.
---
 amazon/ion/reader_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index 727dda7..a8ae071 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -405,8 +405,8 @@ def _var_uint_field_handler(handler, ctx):
     queue = ctx.queue
     value = 0
     while True:
-        if len(queue) == 0:
-            # We don't know when the field ends, so read at least one byte.
+        if len(queue) == 0 or ctx.remaining < 1:
+            # We don't know when the field ends, so read at least one byte (which fails if the container has none left).
             yield ctx.read_data_transition(1, self)
         octet = queue.read_byte()
         value <<= _VAR_INT_VALUE_BITS
-- 
2.43.0


From 917e52fce8628e29f8fd2858c109e0c496e42b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:42 +0000
Subject: [PATCH 25/32] fix: reject containers and annotation wrappers that
 overrun their container

Their declared length was not checked against the enclosing container, so
values lying outside of it were reported before (or without) an error.
---
 amazon/ion/reader_binary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index a8ae071..db9f6c7 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -504,6 +504,9 @@ def _annotation_handler(ion_type, length, ctx):
     if ctx.annotations is not None:
         raise IonException('Annotation cannot be nested in annotations')
 
+    if length > ctx.remaining:
+        raise IonException('Length overrun: %d bytes, %d remaining' % (length, ctx.remaining))
+
     # We have to replace our context for annotations specifically to encapsulate the limit
     ctx = ctx.derive_container_context(length, add_depth=0)
     # Immediately read the length field and the annotations
@@ -552,6 +555,9 @@ def _container_start_handler(ion_type, length, ctx):
     """Handles container delegation."""
     _, self = yield
 
+    if length > ctx.remaining:
+        raise IonException('Length overrun: %d bytes, %d remaining' % (length, ctx.remaining))
+
     container_ctx = ctx.derive_container_context(length)
     if ctx.annotations and ctx.limit != container_ctx.limit:
         # 'ctx' is the annotation wrapper context. `container_ctx` represents the wrapper's 'value' subfield. Their
-- 
2.43.0


From c7094a8c85257056b446e6e99c935932cf741a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 26/32] fix: reject an annotation wrapper around a version
 marker

---
 amazon/ion/reader_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/amazon/ion/reader_binary.py b/amazon/ion/reader_binary.py
index db9f6c7..6f45ee2 100644
--- a/amazon/ion/reader_binary.py
+++ b/amazon/ion/reader_binary.py
@@ -423,6 +423,9 @@ def _ivm_handler(ctx):
     if ctx.depth != 0:
         raise IonException('IVM encountered below top-level')
 
+    if ctx.annotations is not None:
+        raise IonException('Annotation wrapper cannot contain an IVM')
+
     yield ctx.read_data_transition(_IVM_TAIL_LEN, self)
     ivm_tail = ctx.queue.read(_IVM_TAIL_LEN)
     if _IVM_TAIL != ivm_tail:
-- 
2.43.0


From b3e2a4597ce79b3e5c22fd88a3a1fb072d4e7321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:48 +0000
Subject: [PATCH 27/32] fix: ion_equals treats an integer, a boolean and
 another number of the same value as different

---
 amazon/ion/equivalence.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index 900d9d2..c798c9c 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -28,7 +28,7 @@ import six
 
 from amazon.ion.core import IonType, Timestamp, TimestampPrecision, MICROSECOND_PRECISION, OffsetTZInfo, Multimap
 from amazon.ion.simple_types import _IonNature, IonPyList, IonPyDict, IonPyTimestamp, IonPyNull, IonPySymbol, \
-    IonPyText, IonPyDecimal, IonPyFloat
+    IonPyText, IonPyDecimal, IonPyFloat, IonPyInt
 from amazon.ion.symbols import SymbolToken
 
 
@@ -90,6 +90,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
                     return _decimals_eq(a, b)
                 elif isinstance(a, IonPyFloat):
                     return _floats_eq(a, b)
+                elif isinstance(a, IonPyInt):  # Includes IonPyBool.
+                    return _integers_eq(a, b)
                 else:
                     return a == b
             return False
@@ -109,6 +111,8 @@ def _ion_equals(a, b, timestamp_comparison_func, recursive_comparison_func):
             return _decimals_eq(a, b)
         elif isinstance(a, float):
             return _floats_eq(a, b)
+        elif isinstance(a, six.integer_types):
+            return _integers_eq(a, b)
     return a == b
 
 
@@ -236,6 +240,18 @@ def _symbols_eq(a, b):
     return False
 
 
+def _is_bool(x):
+    return x.ion_type is IonType.BOOL if isinstance(x, _IonNature) else isinstance(x, bool)
+
+
+def _integers_eq(a, b):
+    """Compares two integers or booleans; an integer is never equivalent to a boolean, or to another type of number."""
+    assert isinstance(a, six.integer_types)
+    if not isinstance(b, six.integer_types):
+        return False
+    return _is_bool(a) is _is_bool(b) and a == b
+
+
 def _decimals_eq(a, b):
     assert isinstance(a, Decimal)
     if not isinstance(b, Decimal):
-- 
2.43.0


From 78ac17e3be84930c8632ac9eb24d1b58c4b0c6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:53 +0000
Subject: [PATCH 28/32] fix: ion_equals tells a timestamp with more than six
 fractional digits from a datetime

---
 amazon/ion/equivalence.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/equivalence.py b/amazon/ion/equivalence.py
index c798c9c..213d7cd 100644
--- a/amazon/ion/equivalence.py
+++ b/amazon/ion/equivalence.py
@@ -189,9 +189,10 @@ def _timestamps_eq(a, b):
                         min(b.fractional_seconds.as_tuple().exponent, 0):
                     break
                 return False
-            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION:
+            elif a.precision is not TimestampPrecision.SECOND or a.fractional_precision != MICROSECOND_PRECISION \
+                    or a.fractional_seconds.as_tuple().exponent != -MICROSECOND_PRECISION:
                 # Only one of the operands declares its precision. It is only equivalent to the other (a naive datetime)
-                # if it has full microseconds precision.
+                # if it has full (and no more than) microseconds precision.
                 return False
     return a == b
 
-- 
2.43.0


From 9e102319f0c38b8f7e276582319e780f9efa3221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:09 +0000
Subject: [PATCH 29/32] fix: an import named $ion or with an empty name is
 ignored

---
 amazon/ion/reader_managed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index 34df4fe..fb8651d 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -166,7 +166,8 @@ def _import_desc_handler(ctx, imports, whence):
         ion_type = ion_event.ion_type
 
         if event_type is IonEventType.CONTAINER_END:
-            if desc.name is not None or desc.name == TEXT_ION:
+            # An import without a name, or of the system symbols (which are always there), is ignored.
+            if desc.name and desc.name != TEXT_ION:
                 table = ctx.catalog.resolve(desc.name, desc.version, desc.max_id)
                 imports.append(table)
 
-- 
2.43.0


From e50e487fa263f737525dd9156be5179438e36d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:09 +0000
Subject: [PATCH 30/32] fix: an import with a null or out of range version or
 max_id

---
 amazon/ion/reader_managed.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index fb8651d..f5404fa 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -181,9 +181,13 @@ def _import_desc_handler(ctx, imports, whence):
             if field_name == TEXT_NAME and ion_type is IonType.STRING:
                 desc.name = ion_event.value
             elif field_name == TEXT_VERSION and ion_type is IonType.INT:
-                desc.version = ion_event.value
+                # A version that is null or less than one is taken as one.
+                version = ion_event.value
+                desc.version = version if version is not None and version >= 1 else 1
             elif field_name == TEXT_MAX_ID and ion_type is IonType.INT:
-                desc.max_id = ion_event.value
+                # A maximum that is null or negative is taken as undefined.
+                max_id = ion_event.value
+                desc.max_id = max_id if max_id is not None and max_id >= 0 else None
 
         ion_event, _ = yield Transition(NEXT_EVENT, self)
 
-- 
2.43.0


From 7ed73eee531d28b2ba8f608035fdfa9c7d8b3e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:09 +0000
Subject: [PATCH 31/32] fix: a symbol table whose imports are a null symbol

---
 amazon/ion/reader_managed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amazon/ion/reader_managed.py b/amazon/ion/reader_managed.py
index f5404fa..fdbc448 100644
--- a/amazon/ion/reader_managed.py
+++ b/amazon/ion/reader_managed.py
@@ -246,6 +246,7 @@ def _local_symbol_table_handler(ctx):
                 ion_event, _ = yield Transition(SKIP_EVENT, self)
         elif ion_type == IonType.SYMBOL \
                 and field_name == TEXT_IMPORTS \
+                and ion_event.value is not None \
                 and ctx.resolve(ion_event.value).text == TEXT_ION_SYMBOL_TABLE:
             if ctx.symbol_table.table_type.is_system:
                 # Force the imports to nothing (system tables import implicitly).
-- 
2.43.0


From c61feffbdb280b6c972899cdebe3d3cb9f69fbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:12 +0000
Subject: [PATCH 32/32] fix: decode the UTF-8 octets of text Ion

Text read from octets took each octet of a non-ASCII character in a string or
quoted symbol as a character of its own; the octets of a sequence are gathered
and decoded, and malformed sequences are rejected.
---
 amazon/ion/reader_text.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/amazon/ion/reader_text.py b/amazon/ion/reader_text.py
index 3e2b390..95a7e46 100644
--- a/amazon/ion/reader_text.py
+++ b/amazon/ion/reader_text.py
@@ -154,6 +154,7 @@ _ESCAPED_NEWLINE = u''  # An escaped newline expands to nothing.
 
 _MAX_TEXT_CHAR = 0x10ffff
 _MAX_CLOB_CHAR = 0x7f
+_MAX_ASCII_CHAR = 0x7f
 _MIN_QUOTED_CHAR = 0x20
 
 # The following suffixes are used for comparison when a token is found that starts with the first letter in
@@ -2181,6 +2182,17 @@ def _skip_trampoline(handler):
 _next_code_point_iter = partial(_next_code_point, yield_char=_NARROW_BUILD)
 
 
+def _utf8_trailing_octets(c):
+    """Returns the number of octets that follow the given non-ASCII octet when it begins a UTF-8 sequence."""
+    if c < 0xC2 or c > 0xF4:
+        return 0  # No sequence begins with this octet.
+    if c < 0xE0:
+        return 1
+    if c < 0xF0:
+        return 2
+    return 3
+
+
 @coroutine
 def _next_code_point_handler(whence, ctx):
     """Retrieves the next code point from within a quoted string or symbol."""
@@ -2196,6 +2208,18 @@ def _next_code_point_handler(whence, ctx):
         queue_iter = iter(queue)
         code_point_generator = _next_code_point_iter(queue, queue_iter)
         code_point = next(code_point_generator)
+        if not queue.is_unicode and code_point > _MAX_ASCII_CHAR:
+            # The octets of text are UTF-8; gather the rest of this character's.
+            octets = bytearray((code_point,))
+            for _ in range(_utf8_trailing_octets(code_point)):
+                if len(queue) == 0:
+                    yield ctx.read_data_event(self)
+                octets.append(next(queue_iter))
+            try:
+                decoded_octets = octets.decode('utf-8')
+            except UnicodeDecodeError:
+                _illegal_character(code_point, ctx, 'Invalid UTF-8 sequence.')
+            code_point = next(_next_code_point_iter(decoded_octets, iter(decoded_octets), to_int=ord))
         if code_point == _BACKSLASH:
             escape_sequence += six.int2byte(_BACKSLASH)
             num_digits = None
-- 
2.43.0

