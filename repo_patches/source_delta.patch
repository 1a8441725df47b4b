From 33ff820f1196e11b5fb9478b1047bbb62eaa639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:16 +0000
Subject: [PATCH 01/59] fix: report exten without pattern or priority instead
 of crashing

---
 asterisklint/dialplan.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 52983dc..d30cfc9 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -473,7 +473,13 @@ class DialplanVarset(object):
         if varset.variable in ('exten', 'same'):
             expect_varset_arrow(varset)
             if varset.variable == 'exten':
-                pattern, rest = varset.value.split(',', 1)
+                pattern, sep, rest = varset.value.partition(',')
+                if not pattern:
+                    E_DP_PAT_MISSING(varset.where)
+                    return None
+                if not sep:
+                    E_DP_PRIO_MISSING(varset.where, pat=pattern)
+                    return None
             else:
                 pattern, rest = None, varset.value
 
-- 
2.43.0


From 92cd2e096fd0568d257e644337dc245fb9dcb7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:17 +0000
Subject: [PATCH 02/59] fix: supply the label to E_DP_LABEL_INVALID, so it can
 be formatted

---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index d30cfc9..eed69d5 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -504,7 +504,7 @@ class DialplanVarset(object):
 
             if label is not None:
                 if not label.endswith(')'):
-                    E_DP_LABEL_INVALID(varset.where)
+                    E_DP_LABEL_INVALID(varset.where, label=label)
                     return None
                 label = label[0:-1]
                 # TODO: check label validity
-- 
2.43.0


From 01ee0cfed3ceae7518ed32e95c8473a92319b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:19 +0000
Subject: [PATCH 03/59] fix: handle dynamic and empty function names when
 reading a function

---
 asterisklint/varfun.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 28ade07..89a1456 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -135,9 +135,8 @@ class FuncLoader(metaclass=Singleton):
         # SOURCE: main/pbx.c -- ast_func_read2, func_args
         for i, char in enumerate(func_and_args):
             if char == '(':
-                func = func_and_args[0:i]
+                func = Var.join(func_and_args[0:i])
                 break
-        assert func  # we only get here if there is a '('
 
         # Search backwards for the trailing ')'.
         tail = ''
@@ -168,7 +167,7 @@ class FuncLoader(metaclass=Singleton):
         if isinstance(func, Var):
             # We won't be able to match any real functions. And you
             # should get a big fat warning.
-            W_FUNC_DYNAMIC(where, func=func)
+            W_FUNC_DYNAMIC(where, data=func_and_args)
 
             if start is not None:
                 return ReadFuncSlice(func, args, start=start, length=length)
-- 
2.43.0


From c4c5a65e0228d2737e3ed1d973654173795d2b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:20 +0000
Subject: [PATCH 04/59] fix: handle dynamic names, variable arguments and
 missing parens in function assignments

---
 asterisklint/varfun.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 89a1456..e8d053f 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -186,14 +186,20 @@ class FuncLoader(metaclass=Singleton):
         Process write-function: <function>(<args>)
         """
         if '(' in func_and_args:
+            # The caller has checked that there is a trailing ')'.
             func, args = func_and_args.split('(', 1)
-            assert args[-1] == ')'  # FIXME: warn, don't raise
-            args = args[0:-1]
+            args = Var.join(args[0:-1])
         else:
-            # FIXME: warn:
             # "Function '%s' doesn't contain parentheses.  Assuming null
             # argument."
-            args = ''
+            E_FUNC_PARENS(where, data=func_and_args)
+            return WriteFunc(func_and_args, '')
+
+        # Same as when reading a function: we cannot look up a function
+        # if its name is not known beforehand.
+        if isinstance(func, Var):
+            W_FUNC_DYNAMIC(where, data=func_and_args)
+            return WriteFunc(func, args)
 
         # Okay, so we have a string function. Look it up.
         loaded_func = FuncLoader()._get_and_check_availability(func, where)
-- 
2.43.0


From 9875e656f0755880ae69c910a08d693792bf4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:49 +0000
Subject: [PATCH 05/59] fix: do not compare a variable substring start to a
 number

---
 asterisklint/varfun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index e8d053f..3a1bec6 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -420,7 +420,9 @@ class VarLoader(metaclass=Singleton):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
-                if length == 0 or (start < 0 and -length <= start):
+                if length == 0 or (
+                        isinstance(start, int) and
+                        start < 0 and -length <= start):
                     length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
             else:
-- 
2.43.0


From 60bbf91c1c80c833deace484899ff049ca03dee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:50 +0000
Subject: [PATCH 06/59] fix: follow Asterisk's substring rules, also for
 variable start and length

---
 asterisklint/variable.py | 57 ++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 8fab989..381c52d 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -246,27 +246,47 @@ class Var(object):
         return v
 
 
+def substring(value, start, length=None):
+    """
+    Return the part of value that Asterisk would return for
+    ${value:start:length}.
+    """
+    # SOURCE: main/pbx_variables.c -- substring
+    if start < 0:
+        # If the negative offset is greater than the length of the
+        # string, start at the beginning.
+        start = max(0, len(value) + start)
+    if length is None:
+        return value[start:]
+    if length < 0:
+        return value[start:max(start, len(value) + length)]
+    return value[start:(start + length)]
+
+
 class SliceMixin(object):
+    RE_INTEGER = re.compile(r'\s*([+-]?[0-9]{1,30})')
+
     def __init__(self, *args, start=None, length=None, **kwargs):
         assert start is not None
         super().__init__(*args, **kwargs)
         self.start = start
         self.length = length
-        if length is not None and isinstance(length, int):
-            assert length != 0
-            if length < 0:
-                self._endpos = length
-            elif self.start < 0:
-                self._endpos = self.start + length
-                assert self._endpos < 0
-            else:
-                self._endpos = self.start + length
 
     def format(self, **kwargs):
         value = super().format(**kwargs)
-        if self.length:
-            return value[self.start:self._endpos]
-        return value[self.start:]
+        start = self._format_integer(self.start, kwargs) or 0
+        length = self._format_integer(self.length, kwargs)
+        return substring(value, start, length)
+
+    def _format_integer(self, value, kwargs):
+        """
+        The start and length may be variables themselves. Take the
+        leading digits, like Asterisk does using sscanf.
+        """
+        if isinstance(value, Var):
+            match = self.RE_INTEGER.match(value.format(**kwargs))
+            value = int(match.group(1)) if match else None
+        return value
 
     def __str__(self):
         if self.length:
@@ -282,19 +302,10 @@ class VarSlice(SliceMixin, Var):
         super().__init__(name=name, start=start, length=length)
 
 
-class VarDynSlice(Var):
+class VarDynSlice(SliceMixin, Var):
     def __init__(self, name=None, start=None, length=None):
         assert name is not None
-        super().__init__(name=name)
-        self.start = start
-        self.length = length
-
-    def __str__(self):
-        if self.length:
-            return '${{{}:{}:{}}}'.format(
-                self.name, self.start, self.length)
-        return '${{{}:{}}}'.format(
-            self.name, self.start)
+        super().__init__(name=name, start=start, length=length)
 
 
 def strjoin(list_of_items_and_strings):
-- 
2.43.0


From bcbd2a93e17a1798ff6e605e34ce74d85c9d1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:10 +0000
Subject: [PATCH 07/59] fix: treat empty variables and expressions as atoms

---
 asterisklint/expression.py |  2 +-
 asterisklint/variable.py   | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 51cda58..652dee5 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -31,6 +31,6 @@ class Expr(Var):
         super().__init__(name=expression)
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '$[{}]'.format(self.name)
         return super().__str__()
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 381c52d..7806946 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -79,8 +79,8 @@ class Var(object):
             Var('${number}23').could_match('123') == True
             Var('${user}@${domain}').could_match('somelabel') == False
         """
-        if self.name:  # this is a plain variable, it could match anything
-            return True
+        if self.name is not None:
+            return True  # this is a plain variable, it could match anything
 
         re_joined = ''.join(
             ['^'] +
@@ -168,13 +168,13 @@ class Var(object):
         return self.name == other.name
 
     def __str__(self):
-        if self.name:
+        if self.name is not None:
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list.
-        if self.name:
+        if self.name is not None:
             list_ = [self.name]  # [name]  # (start, length)
         else:
             list_ = self._list   # [contents...]  # (start, length)
@@ -226,7 +226,7 @@ class Var(object):
         return split_up
 
     def strip(self):
-        if self.name:
+        if self.name is not None:
             return self  # no (deep)copy?
 
         new_list = self._list[:]
-- 
2.43.0


From 5489f7c638e7deab6eced025781311df2320ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:05 +0000
Subject: [PATCH 08/59] fix: do not recurse endlessly through circular includes

---
 asterisklint/dialplan.py | 44 +++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index eed69d5..11c1fdf 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -284,9 +284,10 @@ class DialplanContext(Context):
         """
         return any(label in i['labels'] for i in self.pattern_cache.values())
 
-    def match_pattern(self, extension, priority):
+    def match_own_pattern(self, extension, priority):
         """
-        Find the best matching extension for the priority.
+        Find the best matching extension for the priority, in this
+        context only.
         """
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
@@ -305,18 +306,37 @@ class DialplanContext(Context):
                             priority.could_match(exten.label)):
                         return exten
 
-        # Nothing? Try our includes.
-        for include in self.includes:
-            try:
-                context = self.dialplan.get_context(include.context_name)
-            except KeyError:
+        return None
+
+    def get_search_contexts(self):
+        """
+        Return this context and the contexts it includes, recursively,
+        in search order. Includes may be circular; every context is
+        returned once.
+        """
+        contexts = []
+        todo = [self]
+        while todo:
+            context = todo.pop()
+            if context not in contexts:
+                contexts.append(context)
                 # TODO: An include that does not exist. We should
                 # warn about that somewhere else.
-                pass
-            else:
-                ret = context.match_pattern(extension, priority)
-                if ret:
-                    return ret
+                todo.extend(
+                    self.dialplan.contexts_by_name[i.context_name]
+                    for i in reversed(context.includes)
+                    if i.context_name in self.dialplan.contexts_by_name)
+        return contexts
+
+    def match_pattern(self, extension, priority):
+        """
+        Find the best matching extension for the priority, in this
+        context or in its includes.
+        """
+        for context in self.get_search_contexts():
+            ret = context.match_own_pattern(extension, priority)
+            if ret:
+                return ret
 
         # > If the location that is put into the channel
         # > information is bogus, and asterisk cannot find that
-- 
2.43.0


From 8d39bdd35266dcc890857df20c76470aa4d40fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:30 +0000
Subject: [PATCH 09/59] fix: look for labels in included contexts too

---
 asterisklint/dialplan.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 11c1fdf..c4f4fe1 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -280,9 +280,13 @@ class DialplanContext(Context):
 
     def has_label(self, label):
         """
-        Check whether the label is used anywhere in this context.
+        Check whether the label is used anywhere in this context or in
+        its includes.
         """
-        return any(label in i['labels'] for i in self.pattern_cache.values())
+        return any(
+            label in i['labels']
+            for context in self.get_search_contexts()
+            for i in context.pattern_cache.values())
 
     def match_own_pattern(self, extension, priority):
         """
-- 
2.43.0


From b6d6c16a8f89f6a5a415a2dc18c94876ee7a2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:32 +0000
Subject: [PATCH 10/59] fix: do not match variable priorities against a missing
 label

---
 asterisklint/dialplan.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index c4f4fe1..de16d72 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -307,7 +307,8 @@ class DialplanContext(Context):
                     # Is it a variable? Then format all unknowns as .*
                     # and attempt a regex match.
                     elif (priority.could_match(exten.prio) or
-                            priority.could_match(exten.label)):
+                            (exten.label and
+                             priority.could_match(exten.label))):
                         return exten
 
         return None
-- 
2.43.0


From 880da74f3ee3ae5a97220629b76db1f3950f5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 11/59] fix: continue the general context when it is opened a
 second time

---
 asterisklint/dialplan.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index de16d72..a8f62a3 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -117,10 +117,8 @@ class Dialplan(object):
 
     def add_general(self, general):
         if self._general:
+            # Don't save. The caller appends to the existing context.
             W_CONF_CTX_DUPE(general.where, previous=self._general.where)
-            # BEWARE: make sure we use a ref to the NEW context, because
-            # we may be appending to that object...!!
-            self._general.extend(general)
         else:
             if self._globals or self.contexts:
                 H_DP_GENERAL_MISPLACED(general.where)
@@ -615,7 +613,7 @@ class DialplanAggregator(ConfigAggregator):
     def on_context(self, context):
         if context.name == 'general':
             self._dialplan.add_general(context)
-            self._curcontext = context
+            self._curcontext = self._dialplan.general
         elif context.name == 'globals':
             self._dialplan.add_globals(context)
             self._curcontext = context
-- 
2.43.0


From aaa76f57cf55f88cc6c638235439a86f5168b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:34 +0000
Subject: [PATCH 12/59] fix: allow a comment or template when a context is
 reopened

---
 asterisklint/configobj.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 94f2f21..ff6b6d5 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -61,9 +61,7 @@ class Context(object):
 
     def update(self, othercontext):
         assert self.name == othercontext.name
-        assert not othercontext.comment
         self.where = othercontext.where  # or not?
-        assert not othercontext._templates
         assert not othercontext._varsets
 
     def add(self, varset):
-- 
2.43.0


From 2597559067c3355f2d93796ad1243d448139cc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:53 +0000
Subject: [PATCH 13/59] fix: report unterminated and empty sets in patterns
 instead of crashing

---
 asterisklint/dialplan.py |  3 +++
 asterisklint/pattern.py  | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index a8f62a3..e860b1e 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -535,6 +535,9 @@ class DialplanVarset(object):
                 label = None
 
             pattern = pattern and Pattern(pattern, varset.where) or None
+            if pattern and not pattern.is_valid:
+                E_DP_PAT_INVALID(varset.where)
+                return None
             app = App(app, varset.where)
             return Extension(pattern, prio, label, app, varset.comment,
                              varset.where)
diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 4615a2b..3dcdb96 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -110,7 +110,7 @@ class Pattern(object):
     def parse(cls, raw):
         "Takes str, returns tuple."
         if not raw:
-            return tuple(-1, (0x40000,))  # bad pattern
+            return (-1, (0x40000,))  # bad pattern
 
         if raw[0] == '_':
             return tuple([Pattern.IS_A_PATTERN] + cls.parse_pattern(raw[1:]))
@@ -141,8 +141,7 @@ class Pattern(object):
             elif num == 0x5b:           # '['
                 try:
                     range_end = raw.index(0x5d)  # ']'
-                except IndexError:
-                    # TODO: raise error!
+                except ValueError:
                     ret.append((0x40000,))
                     return ret
                 ret.append(cls.parse_range_list(raw[0:range_end]))
@@ -158,7 +157,9 @@ class Pattern(object):
     @classmethod
     def parse_range_list(cls, rawlist):
         "Takes list, returns number."""
-        # TODO: check empty list?
+        if not rawlist:
+            return (0x40000,)
+
         # TODO: complain about backslashes?
         # TODO: warn on [-0-9] (prefer [0-9-])
         usedlist = []
@@ -196,6 +197,11 @@ class Pattern(object):
 
         return (num,)
 
+    @property
+    def is_valid(self):
+        "Whether there are no errors in the pattern (like a missing ']')."
+        return (0x40000,) not in self.values
+
     @property
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
-- 
2.43.0


From 4ea6bbfd0009a03026b505a503dce2635360e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:54 +0000
Subject: [PATCH 14/59] fix: do not match extensions that are longer than the
 pattern

---
 asterisklint/pattern.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 3dcdb96..9cb6cec 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -366,8 +366,10 @@ class Pattern(object):
             except IndexError:
                 return False  # extension is longer than pattern
 
-            if value[0] in (0x18000, 0x28000, 0x30000):
+            if value[0] in (0x18000, 0x28000):
                 return True
+            elif value[0] == 0x30000:
+                return False  # extension is longer than pattern
             elif len(value) == 2:
                 if char not in value[1]:
                     return False
-- 
2.43.0


From 24d2a89190584bd00de0f31438a59b52423aa590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 15/59] fix: handle non-ASCII extensions and patterns as UTF-8
 throughout

---
 asterisklint/pattern.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 9cb6cec..bb7616c 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -205,33 +205,37 @@ class Pattern(object):
     @property
     def is_canonical(self):
         if not hasattr(self, '_is_canonical'):
-            # Strip dashes from the raw version.
-            raw_no_dash = ''.join(self.RE_NO_DASH.findall(self.raw))
             # Compare the dashless version with the canonical one.
-            self._is_canonical = (raw_no_dash == self.canonical_pattern)
+            self._is_canonical = (self.raw_no_dash == self.canonical_pattern)
         return self._is_canonical
 
+    @property
+    def raw_no_dash(self):
+        "Strip dashes from the raw version."
+        return ''.join(self.RE_NO_DASH.findall(self.raw))
+
     @property
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
             if self.values[0] == self.NOT_A_PATTERN:
-                # Hrm.. latin1 here.. not so nice.
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:]).decode('latin1')
+                ret = bytes((i[0] & 0xff) for i in self.values[1:])
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
                     self.values[-1] == (0x30000,)):
-                ret = bytes((i[0] & 0xff)
-                            for i in self.values[1:-1]).decode('latin1')
+                ret = bytes((i[0] & 0xff) for i in self.values[1:-1])
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
                 # up.
                 assert self.values[0] == self.IS_A_PATTERN
-                ret = ('_' + self._canonical_pattern_range(
-                    self.values[1:-1]).decode('latin1'))
-            self._canonical_pattern = ret
+                ret = b'_' + self._canonical_pattern_range(self.values[1:-1])
+            try:
+                self._canonical_pattern = ret.decode('utf-8')
+            except UnicodeDecodeError:
+                # A set of non-ASCII characters is a set of bytes, which
+                # we cannot reorder.
+                self._canonical_pattern = self.raw_no_dash
         return self._canonical_pattern
 
     def _canonical_pattern_range(self, values):
@@ -339,28 +343,30 @@ class Pattern(object):
         if self.values[0] == Pattern.NOT_A_PATTERN:
             for value in self.values[1:]:
                 assert len(value) == 1, self.values
-                ret.append(chr(value[0] & 0xff))
+                ret.append(value[0] & 0xff)
         elif self.values[0] == Pattern.IS_A_PATTERN:
             for value in self.values[1:]:
                 if value[0] == 0x18000:
-                    ret.append('0-123456789-333')  # 1+ chars
+                    ret.extend(b'0-123456789-333')  # 1+ chars
                 elif value[0] == 0x28000:
-                    ret.append('-123456789-333')  # 0+ chars
+                    ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
                 else:
-                    ret.append(chr(value[0] & 0xff))
+                    ret.append(value[0] & 0xff)
         else:
             assert False, self.values  # what pattern?
 
-        return ''.join(ret)
+        return bytes(ret).decode('utf-8', 'surrogateescape')
 
     def matches_extension(self, extension):
         """
         Check if the extension matches this pattern.
         """
         i = -1
-        for i, char in enumerate(extension.replace('-', '').encode('latin1')):
+        for i, char in enumerate(
+                extension.replace('-', '').encode(
+                    'utf-8', 'surrogateescape')):
             try:
                 value = self.values[i + 1]
             except IndexError:
-- 
2.43.0


From 014423e1d34da57f9b5ec319909d3333ee6a47a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:29 +0000
Subject: [PATCH 16/59] fix: keep the meaning of patterns with brackets, dashes
 and underscores in their canonical form

---
 asterisklint/pattern.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index bb7616c..7b7cc88 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -70,7 +70,7 @@ class Pattern(object):
     NOT_A_PATTERN = 0
     IS_A_PATTERN = 1
 
-    RE_NO_DASH = re_compile(r'(\[.[^]]*\]|[^][-]+)')
+    RE_NO_DASH = re_compile(r'(\[[^]]*\]|[^[-]+)')
 
     # Pattern heeft equality tests zodat "s-zap" == "s-[1-9]ap", maar emit
     # wel een warning als je hier iets anders neerzet! (Zelfde verhaal
@@ -212,6 +212,8 @@ class Pattern(object):
     @property
     def raw_no_dash(self):
         "Strip dashes from the raw version."
+        if self.values[0] == self.NOT_A_PATTERN:
+            return self.raw.replace('-', '')
         return ''.join(self.RE_NO_DASH.findall(self.raw))
 
     @property
@@ -223,7 +225,8 @@ class Pattern(object):
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
             elif (all(i[0] < 0x200 for i in self.values[1:-1]) and
-                    self.values[-1] == (0x30000,)):
+                    self.values[-1] == (0x30000,) and
+                    self._can_be_literal(self.values[1:-1])):
                 ret = bytes((i[0] & 0xff) for i in self.values[1:-1])
             else:
                 # Okay, so we have a pattern with pattern stuff. Fix it
@@ -238,6 +241,15 @@ class Pattern(object):
                 self._canonical_pattern = self.raw_no_dash
         return self._canonical_pattern
 
+    @staticmethod
+    def _can_be_literal(values):
+        """
+        A literal is never empty, it cannot start with an underscore and
+        it cannot contain (non-decorative) dashes.
+        """
+        return (
+            values and values[0] != (0x15f,) and (0x12d,) not in values)
+
     def _canonical_pattern_range(self, values):
         common = {
             0xa30: 0x58,    # 'X'
@@ -246,7 +258,7 @@ class Pattern(object):
             0x18000: 0x2e,  # '.'
             0x28000: 0x21,  # '!'
         }
-        special = set([0x21, 0x2d, 0x2e,  # '!', '-', '.'
+        special = set([0x21, 0x2d, 0x2e, 0x5b,  # '!', '-', '.', '['
                        0x4e, 0x58, 0x5a, 0x6e, 0x78, 0x7a])  # NnXxZz
 
         ret = []
@@ -269,7 +281,7 @@ class Pattern(object):
                         start = num & 0xff
                         if length == 2:
                             ret.extend([0x5b, start, start + 1, 0x5d])
-                        elif length == 3:
+                        elif length == 3 and start != 0x5c:  # no ']'
                             ret.extend([0x5b, start, start + 1, start + 2,
                                         0x5d])
                         else:
@@ -287,9 +299,6 @@ class Pattern(object):
         dash = (0x2d in binstr)
         if dash:
             binstr.remove(0x2d)
-        if (0x5d in binstr):
-            binstr.remove(0x5d)
-            ret.append(0x5d)
         ranges = self._canonical_pattern_get_ranges(binstr)
         # Reorder ranges: first numeric and alpha, and then the rest.
         # (Does this cause trouble if the dash is in a range?)
@@ -300,7 +309,8 @@ class Pattern(object):
             else:
                 assert len(range_) == 2
                 length = range_[1] - range_[0] + 1
-                if length <= 3:
+                # A ']' can only exist inside a range.
+                if length <= 3 and not (range_[0] < 0x5d < range_[1]):
                     ret.extend([range_[0] + i for i in range(length)])
                 else:
                     ret.extend([range_[0], 0x2d, range_[1]])
-- 
2.43.0


From 23f051c7111e05c355dd57c5b9413d3d800fc69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:47 +0000
Subject: [PATCH 17/59] fix: do not use a dash from a set in the example for a
 pattern

---
 asterisklint/pattern.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 7b7cc88..41e3590 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -362,6 +362,11 @@ class Pattern(object):
                     ret.extend(b'-123456789-333')  # 0+ chars
                 elif value[0] == 0x30000:
                     pass  # ignore
+                elif len(value) == 2:
+                    # Dashes are skipped when matching.
+                    ret.append([i for i in value[1] if i != 0x2d][0])
+                elif value[0] & 0xff == 0x2d and value[0] >= 0x200:
+                    ret.append(0x2e)  # the first after the dash
                 else:
                     ret.append(value[0] & 0xff)
         else:
-- 
2.43.0


From 79d935dd38cd83106b77ac8b23760e65b7a5cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:09 +0000
Subject: [PATCH 18/59] fix: do not crash on digits that are not decimal digits
 or on huge numbers

---
 asterisklint/dialplan.py |  5 +++--
 asterisklint/varfun.py   | 10 +++++-----
 asterisklint/variable.py |  8 ++++++++
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index e860b1e..c4916a2 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -20,6 +20,7 @@ from .config import (
 from .defines import ErrorDef, WarningDef, HintDef, DupeDefMixin
 from .pattern import H_PAT_NON_CANONICAL, Pattern
 from .varfun import Var
+from .variable import is_digits
 from .where import Where
 
 
@@ -473,7 +474,7 @@ class DialplanContext(Context):
                 except KeyError:
                     # Never mind.
                     pass
-            if isinstance(g_prio, str) and g_prio.isdigit():
+            if isinstance(g_prio, str) and is_digits(g_prio):
                 g_prio = int(g_prio)
             self.dialplan.add_jump_destination(
                 g_context, g_exten, g_prio, extension.where)
@@ -516,7 +517,7 @@ class DialplanVarset(object):
                 prio, label = prio, None
             if prio == 'n':
                 prio = None
-            elif prio.isdigit():
+            elif is_digits(prio):
                 prio = int(prio)
             elif prio == 'hint':
                 I_NOTIMPL_HINT(varset.where)
diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index 3a1bec6..b719d2f 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -21,7 +21,7 @@ from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .expression import Expr
 from .function import ReadFunc, ReadFuncSlice, WriteFunc
-from .variable import Var, VarSlice, VarDynSlice
+from .variable import Var, VarSlice, VarDynSlice, is_digits
 from .version import AsteriskVersion
 
 
@@ -403,8 +403,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (start and (
-                    start.isdigit() or
-                    (start[0] == '-' and start[1:].isdigit()))):
+                    is_digits(start) or
+                    (start[0] == '-' and is_digits(start[1:])))):
                 start = int(start)
             else:
                 start = length = None
@@ -415,8 +415,8 @@ class VarLoader(metaclass=Singleton):
                 # We cannot determine anything more from this.
                 pass
             elif (length and (
-                    length.isdigit() or
-                    (length[0] == '-' and length[1:].isdigit()))):
+                    is_digits(length) or
+                    (length[0] == '-' and is_digits(length[1:])))):
                 length = int(length)
                 # If we use an offset from the end, then it makes no
                 # sense to have a length that's as large or larger.
diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 7806946..460ff30 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -246,6 +246,14 @@ class Var(object):
         return v
 
 
+def is_digits(value):
+    """
+    Whether value is an integer that Asterisk would parse: str.isdigit()
+    also accepts superscript and foreign digits.
+    """
+    return bool(re.match(r'[0-9]{1,30}\Z', value))
+
+
 def substring(value, start, length=None):
     """
     Return the part of value that Asterisk would return for
-- 
2.43.0


From b28fad042c65aa1fee60b3c3ed6a84fbbc76c87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:58 +0000
Subject: [PATCH 19/59] fix: do not split a variable by the contents of its
 name

---
 asterisklint/variable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 460ff30..1dca3d9 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -173,9 +173,9 @@ class Var(object):
         return ''.join(str(i) for i in self._list)
 
     def split(self, token=':', maxsplit=-1):
-        # In case we're an atom, pretend we're a list.
+        # In case we're an atom, pretend we're a list (of one).
         if self.name is not None:
-            list_ = [self.name]  # [name]  # (start, length)
+            list_ = [self]
         else:
             list_ = self._list   # [contents...]  # (start, length)
 
-- 
2.43.0


From 2c8047940de7432f29823ef184cee476aa8746fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:00 +0000
Subject: [PATCH 20/59] fix: do not loop endlessly on a Goto or GotoIf with too
 many arguments

---
 asterisklint/app/vall/builtin.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 28409ad..20f4e57 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -14,10 +14,26 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import (
-    AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
+    E_APP_ARG_MANY, AppBase, DelimitedArgsMixin, IfStyleApp, MinMaxArgsMixin,
     NoPipeDelimiterMixin, VarCondIfStyleApp)
 
 from asterisklint.varfun import VarLoader
+from asterisklint.variable import Var
+
+
+def _goto_args_to_destination(args):
+    # jumpdest = [[context,]exten,]prio
+    jumpdest = args[:]  # don't touch caller args
+    if len(jumpdest) > 3:
+        # Join the excess arguments with a comma separator, like Gosub
+        # does.
+        excess = [jumpdest[2]]
+        for i in jumpdest[3:]:
+            excess.extend((',', i))
+        jumpdest[2:] = [Var.join(excess)]
+    while len(jumpdest) < 3:
+        jumpdest.insert(0, None)
+    return tuple(jumpdest)
 
 
 class _Builtin(object):
@@ -73,11 +89,8 @@ class Goto(_Builtin, NoPipeDelimiterMixin, MinMaxArgsMixin, DelimitedArgsMixin,
     def __call__(self, data, where, jump_destinations):
         args = super().__call__(data, where, jump_destinations)
 
-        jumpdest = args[:]
-        while len(jumpdest) != 3:
-            jumpdest.insert(0, None)
-        assert len(jumpdest) == 3
-        jump_destinations.append(tuple(jumpdest))
+        # The MinMaxArgsMixin has warned about excess arguments.
+        jump_destinations.append(_goto_args_to_destination(args))
 
         return args
 
@@ -90,10 +103,9 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
         for args in (iftrue, iffalse):
             if args:
                 jumpdest = self.separate_args(args)
-                while len(jumpdest) != 3:
-                    jumpdest.insert(0, None)
-                assert len(jumpdest) == 3
-                jump_destinations.append(tuple(jumpdest))
+                if len(jumpdest) > 3:
+                    E_APP_ARG_MANY(where, app=self.name, max_args=3)
+                jump_destinations.append(_goto_args_to_destination(jumpdest))
 
         return cond, iftrue, iffalse
 
-- 
2.43.0


From f17ebf3d830faf275b73aeecba751f213a97993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:01 +0000
Subject: [PATCH 21/59] fix: keep the arguments of old style GotoIf and GosubIf
 apart

---
 asterisklint/app/vall/app_stack.py | 4 +++-
 asterisklint/app/vall/builtin.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index c81db78..ab6be9b 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -90,7 +90,9 @@ class GosubIf(VarCondIfStyleApp, _GosubMixin):
 
         for args in (iftrue, iffalse):
             if args:
-                jumpdest = self.separate_args(args)
+                jumpdest = (  # the old style args are already separated
+                    args if isinstance(args, list)
+                    else self.separate_args(args))
                 jump_destinations.append(
                     self._gosub_args_to_destination(jumpdest, where))
 
diff --git a/asterisklint/app/vall/builtin.py b/asterisklint/app/vall/builtin.py
index 20f4e57..39b6dbe 100644
--- a/asterisklint/app/vall/builtin.py
+++ b/asterisklint/app/vall/builtin.py
@@ -102,7 +102,9 @@ class GotoIf(_Builtin, VarCondIfStyleApp):
 
         for args in (iftrue, iffalse):
             if args:
-                jumpdest = self.separate_args(args)
+                jumpdest = (  # the old style args are already separated
+                    args if isinstance(args, list)
+                    else self.separate_args(args))
                 if len(jumpdest) > 3:
                     E_APP_ARG_MANY(where, app=self.name, max_args=3)
                 jump_destinations.append(_goto_args_to_destination(jumpdest))
-- 
2.43.0


From ea46115a7700372ca881262475428b2b6f6950d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:02 +0000
Subject: [PATCH 22/59] fix: allow a Gosub priority with variables and
 arguments

---
 asterisklint/app/vall/app_stack.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/asterisklint/app/vall/app_stack.py b/asterisklint/app/vall/app_stack.py
index ab6be9b..9da5d37 100644
--- a/asterisklint/app/vall/app_stack.py
+++ b/asterisklint/app/vall/app_stack.py
@@ -58,11 +58,11 @@ class _GosubMixin:
         for i, token in enumerate(prio):
             if token == '(':
                 if prio[-1] != ')':
-                    W_APP_BALANCE(where, data=prio)
-                    args = prio[(i + 1):]
+                    W_APP_BALANCE(where, data=str(prio))
+                    args = Var.join(prio[(i + 1):])
                 else:
-                    args = prio[(i + 1):-1]
-                prio = prio[0:i]
+                    args = Var.join(prio[(i + 1):-1])
+                prio = Var.join(prio[0:i])
                 break
 
         # FYI: The args are parsed by Asterisk using AST_STANDARD_RAW_ARGS.
-- 
2.43.0


From c2e1ad72e58f2691b48ee824d6f205d2d92916c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 23/59] fix: check the apps inside ExecIf without parsing their
 variables twice

---
 asterisklint/app/vall/app_exec.py | 13 +++++++++++--
 asterisklint/application.py       | 22 ++++++++++++++++------
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/asterisklint/app/vall/app_exec.py b/asterisklint/app/vall/app_exec.py
index 2374939..104c542 100644
--- a/asterisklint/app/vall/app_exec.py
+++ b/asterisklint/app/vall/app_exec.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import AppBase, VarCondIfStyleApp
+from ...variable import Var
 
 # In the following commit -- between Asterisk 1.4 and Asterisk 1.6.x --
 # not only did the default App argument delimiter change from pipe (|)
@@ -46,10 +47,18 @@ class ExecIf(VarCondIfStyleApp):
 
         cond, iftrue, iffalse = super().__call__(
             data, where, jump_destinations)
+        if isinstance(iftrue, list) and iftrue:
+            # Old style: ExecIf(cond,app,args)
+            args = []
+            for arg in iftrue[1:]:
+                args.extend((',', arg))
+            iftrue = Var.join([iftrue[0], '('] + args[1:] + [')'])
+
+        # The variables have been parsed along with our own data.
         if iftrue:
-            App(iftrue, where=where)
+            App(iftrue, where=where, parsed=True)
         if iffalse:
-            App(iffalse, where=where)
+            App(iffalse, where=where, parsed=True)
 
         return cond, iftrue, iffalse
 
diff --git a/asterisklint/application.py b/asterisklint/application.py
index cc069c8..e7ab48b 100644
--- a/asterisklint/application.py
+++ b/asterisklint/application.py
@@ -19,6 +19,7 @@ from .app import E_APP_MISSING
 from .cls import Singleton
 from .defines import ErrorDef, WarningDef
 from .varfun import VarLoader, VarParseError
+from .variable import Var
 from .version import AsteriskVersion
 
 
@@ -102,8 +103,9 @@ class App(object):
     # SPRINTF() voor >= 1.4 => behaviour Y
     #
     # Hoe pakken we dan app_compat settings voor Set? Hm.
-    def __init__(self, app, where):
-        self.raw = app
+    def __init__(self, app, where, parsed=False):
+        self.raw = app  # can be a Var, if the variables are parsed already
+        self.parsed = parsed
         self.where = where
         self.jump_destinations = []  # [(context, exten, prio)]
 
@@ -131,7 +133,8 @@ class App(object):
 
         # Pass the data through a handler -- which also handles
         # functions -- first:
-        self.data = self.parse_inner(self.data)
+        if not self.parsed:
+            self.data = self.parse_inner(self.data)
 
         # Run data through app.
         app(self.data, where=self.where,
@@ -160,15 +163,22 @@ class App(object):
         except ValueError:
             # We allow NoOp without parentheses. The others need parens.
             app = self.raw
-            if self.raw.lower() != 'noop':
+            if not isinstance(app, Var) and app.lower() != 'noop':
                 W_APP_NEED_PARENS(self.where, app=app)
             data = '()'
         else:
-            data = '(' + str(data)  # data could be a Var; collapse for now
+            data = Var.join(['(', data])
 
         # SOURCE: pbx/pbx_config.c: pbx_load_config()
-        if data.startswith('(') and data.endswith(')'):
+        if data[0] == '(' and data[-1] == ')':
             data = data[1:-1]
+            if isinstance(data, list):
+                data = Var.join(data)
+
+        if isinstance(app, Var):
+            # We cannot look up an app if its name is not known
+            # beforehand.
+            return False
 
         # Set it and try to find a handler for it.
         self.app = app
-- 
2.43.0


From 1464f47075ad3792bbc697b39477a20f87f34d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 24/59] fix: do not crash on INC and DEC of a dynamic variable
 name

---
 asterisklint/func/vall/func_math.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asterisklint/func/vall/func_math.py b/asterisklint/func/vall/func_math.py
index 33077ea..a3998eb 100644
--- a/asterisklint/func/vall/func_math.py
+++ b/asterisklint/func/vall/func_math.py
@@ -14,6 +14,7 @@
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from ..base import FuncBase
+from ...variable import Var
 from ...varfun import VarLoader
 
 
@@ -28,7 +29,8 @@ class INC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if not isinstance(data, Var):  # then it is counted already
+            VarLoader().count_var(data, where)
         return ret
 
 
@@ -39,7 +41,8 @@ class DEC(FuncBase):
     """
     def __call__(self, data, where):
         ret = super().__call__(data, where)
-        VarLoader().count_var(data, where)
+        if not isinstance(data, Var):  # then it is counted already
+            VarLoader().count_var(data, where)
         return ret
 
 
-- 
2.43.0


From b6429c090409e54cf3f3ac60775decdca7a5a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:45 +0000
Subject: [PATCH 25/59] fix: do not crash on bytes that are not in cp1252
 either

---
 asterisklint/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/file.py b/asterisklint/file.py
index d14a1a4..1006c56 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -98,7 +98,7 @@ class EncodingReader(object):
                 data = data.decode('utf-8')
             except UnicodeDecodeError:
                 E_FILE_UTF8_BAD(where)
-                data = data.decode('cp1252')  # or latin1? or 9?
+                data = data.decode('cp1252', 'replace')  # or latin1? or 9?
             yield where, data
 
 
-- 
2.43.0


From 07db502a7fc6a3f4552e91ef2ba9776c0998ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 26/59] fix: treat an #include with an impossible filename as
 missing

---
 asterisklint/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/config.py b/asterisklint/config.py
index 79ff51f..543702e 100644
--- a/asterisklint/config.py
+++ b/asterisklint/config.py
@@ -175,7 +175,8 @@ class ConfigParser(object):
             try:
                 self.include(os.path.join(os.path.dirname(where.filename),
                                           rest))
-            except OSError:
+            except (OSError, ValueError):
+                # ValueError: the filename cannot be passed to the OS.
                 if error_if_not_exists:
                     W_PP_INCLUDE_MISSING(where, filename=rest)
 
-- 
2.43.0


From 95b9c29dbf2fb93ad550908202ef8c0ede25d79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:01 +0000
Subject: [PATCH 27/59] fix: do not crash on func_odbc functions with names
 that Python does not like

---
 asterisklint/func_odbc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/asterisklint/func_odbc.py b/asterisklint/func_odbc.py
index 5e67bad..712c649 100644
--- a/asterisklint/func_odbc.py
+++ b/asterisklint/func_odbc.py
@@ -46,6 +46,13 @@ if 'we_dont_want_two_linefeeds_between_classdefs':  # for flake8
 
 
 class FuncOdbcFunc(FuncBase):
+    def __init__(self, name):
+        self._name = name
+
+    @property
+    def name(self):
+        return self._name
+
     @property
     def module(self):
         # This would be correct automatically, since this module is
@@ -236,9 +243,7 @@ class OdbcFunction(Context):
 
     def finalize_register(self):
         # Register the custom function.
-        odbc_function_class = type(
-            self.get_function_name(), (FuncOdbcFunc,), {})
-        FuncLoader().register(odbc_function_class())
+        FuncLoader().register(FuncOdbcFunc(self.get_function_name()))
 
 
 class FuncOdbcAggregator(ConfigAggregator):
-- 
2.43.0


From 98e30d34f243e72b68a29f504cd68a582977a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:22 +0000
Subject: [PATCH 28/59] fix: do not show memory addresses in messages

---
 asterisklint/variable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 1dca3d9..374399e 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -172,6 +172,10 @@ class Var(object):
             return '${{{}}}'.format(self.name)
         return ''.join(str(i) for i in self._list)
 
+    def __repr__(self):
+        # Used in messages: do not show memory addresses there.
+        return repr(str(self))
+
     def split(self, token=':', maxsplit=-1):
         # In case we're an atom, pretend we're a list (of one).
         if self.name is not None:
-- 
2.43.0


From 3bcd2394b09a207d106bbedcc92ec87dc477100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 29/59] fix: sort identifiers that differ in case only in a
 fixed order

---
 asterisklint/commands/ident-scan.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/asterisklint/commands/ident-scan.py b/asterisklint/commands/ident-scan.py
index 454325b..569475a 100644
--- a/asterisklint/commands/ident-scan.py
+++ b/asterisklint/commands/ident-scan.py
@@ -56,13 +56,13 @@ class Main(MainBase):
 
         contexts_by_name = list(sorted(
             (context.name for context in dialplan.contexts),
-            key=(lambda x: x.lower())))
+            key=(lambda x: (x.lower(), x))))
         # TODO: dialplan.all_labels is not a public interface..
         labels_by_name = list(sorted(
-            dialplan.all_labels, key=(lambda x: x.lower())))
+            dialplan.all_labels, key=(lambda x: (x.lower(), x))))
         # TODO: loader._variables is *not* a public interface..
         varlist_by_name = list(sorted(
-            loader._variables.items(), key=(lambda x: x[0].lower())))
+            loader._variables.items(), key=(lambda x: (x[0].lower(), x[0]))))
 
         if args.verbose:
             self.print_contexts(contexts_by_name)
@@ -109,9 +109,9 @@ class Main(MainBase):
 
     def print_distance(self, identifiers):
         id_by_name = sorted(
-            identifiers, key=(lambda x: x.lower()))
+            identifiers, key=(lambda x: (x.lower(), x)))
         id_by_len = sorted(
-            identifiers, key=(lambda x: (len(x), x.lower())))
+            identifiers, key=(lambda x: (len(x), x.lower(), x)))
 
         similar = defaultdict(set)
         for id_list in (id_by_name, id_by_len):
@@ -138,7 +138,7 @@ class Main(MainBase):
         if similar:
             print('Identifiers with similar names include:')
             for identifier in sorted(
-                    similar.keys(), key=(lambda x: x.lower())):
+                    similar.keys(), key=(lambda x: (x.lower(), x))):
                 similar_to = ', '.join(sorted(similar[identifier]))
                 print('  {:32}  [similar to: {}]'.format(
                     identifier, similar_to))
-- 
2.43.0


From 9dd6ce9561ac753e7b21c1768b7c989283714745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 30/59] fix: report an unknown command instead of crashing

---
 asterisklint/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d1071e2..6943956 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -116,7 +116,8 @@ def load_command(command, command_path=None):
             if os.path.isfile(command_path):
                 break
         else:
-            raise ImportError('No dir found for command {!r}'.format(command))
+            raise NoSuchCommand('No dir found for command {!r}'.format(
+                command))
 
     command_mod_name = 'asterisklint.commands.{}'.format(command)
 
-- 
2.43.0


From 60f46f0830e82cd269e8c16ca44635704424bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:49 +0000
Subject: [PATCH 31/59] fix: list the other commands if one of them cannot be
 loaded

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 6943956..d67596c 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -73,7 +73,7 @@ def list_commands(args, envs):
                         try:
                             command = load_command(
                                 command_name, os.path.join(command_dir, file_))
-                        except NoSuchCommand as e:
+                        except Exception as e:
                             command_desc = '(error: {})'.format(e)
                         else:
                             try:
-- 
2.43.0


From b39671ef4a6c8541bbdd8c6177096633bd521552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 32/59] fix: do not take the contents of an expression for a
 variable name

---
 asterisklint/expression.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asterisklint/expression.py b/asterisklint/expression.py
index 652dee5..16419c9 100644
--- a/asterisklint/expression.py
+++ b/asterisklint/expression.py
@@ -30,6 +30,10 @@ class Expr(Var):
     def __init__(self, expression=None):  # drop start and length args
         super().__init__(name=expression)
 
+    def format(self, **kwargs):
+        # We do not evaluate expressions.
+        raise KeyError(str(self))
+
     def __str__(self):
         if self.name is not None:
             return '$[{}]'.format(self.name)
-- 
2.43.0


From 227a91eaab1bfbe03dbc6c8faed5a12136ee2ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:24 +0000
Subject: [PATCH 33/59] fix: do not show messages of a failed request in the
 next response

---
 web/wsgi.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/web/wsgi.py b/web/wsgi.py
index 9896db9..9303120 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -122,14 +122,18 @@ class DialplanCheck:
         filedata = req.media['files'][filename].encode('utf-8')
         opener = UploadedFileOpener(filename, filedata)
 
-        parser = FileDialplanParser(opener=opener)
-        parser.include(filename)
-        dialplan = next(iter(parser))
-        dialplan.walk_jump_destinations()
-        del dialplan
+        try:
+            parser = FileDialplanParser(opener=opener)
+            parser.include(filename)
+            dialplan = next(iter(parser))
+            dialplan.walk_jump_destinations()
+            del dialplan
+        finally:
+            # If this fails, we don't want the messages to show up in
+            # the next response.
+            msgs = collect_messages()
 
         issues = {filename: []}
-        msgs = collect_messages()
         for msg in msgs:
             formatted = msg.message.format(**msg.fmtkwargs)
             issues[msg.where.filename].append({
-- 
2.43.0


From 89bf603b287b948bc7727bc58ecf0fe14b636d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:25 +0000
Subject: [PATCH 34/59] fix: rewrite the final target of relative and nested
 symlinks

---
 asterisklint/helper/mutator.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 37c6566..4dc0f45 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -60,11 +60,8 @@ class FileMutatorBase(object):
             self.process_file(filename)
 
     def process_file(self, filename):
-        # If filename is a symlink, process the target.
-        try:
-            disk_filename = os.readlink(filename)
-        except OSError:
-            disk_filename = filename
+        # If filename is a symlink, process the (final) target.
+        disk_filename = os.path.realpath(filename)
 
         # Place the tempfile in the same dir, so renaming works
         # (same device).
-- 
2.43.0


From 5d54bbf43f156a76a38c87c300d9ac2f083e9a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:52 +0000
Subject: [PATCH 35/59] fix: do not leave a temporary file behind if rewriting
 a file fails

---
 asterisklint/helper/mutator.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 4dc0f45..3356be9 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -90,23 +90,24 @@ class FileMutatorBase(object):
                     else:
                         tempout.write(line)
             tempout.flush()
-        except Exception:
+            tempout.close()
+
+            # Update file permissions.
+            srcstat = os.stat(tempout.name)
+            dststat = os.stat(filename)
+            if (srcstat.st_uid != dststat.st_uid or
+                    srcstat.st_gid != dststat.st_gid):
+                os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
+            if srcstat.st_mode != dststat.st_mode:
+                os.chmod(tempout.name, dststat.st_mode)
+
+            print('Overwriting', disk_filename, '...')
+            os.rename(tempout.name, disk_filename)
+        except BaseException:
             os.unlink(tempout.name)
             raise
         finally:
             tempout.close()
 
-        # Update file permissions.
-        srcstat = os.stat(tempout.name)
-        dststat = os.stat(filename)
-        if (srcstat.st_uid != dststat.st_uid or
-                srcstat.st_gid != dststat.st_gid):
-            os.chown(tempout.name, dststat.st_uid, dststat.st_gid)
-        if srcstat.st_mode != dststat.st_mode:
-            os.chmod(tempout.name, dststat.st_mode)
-
-        print('Overwriting', disk_filename, '...')
-        os.rename(tempout.name, disk_filename)
-
     def process_issue(self, issue, inline, outfile):
         raise NotImplementedError()
-- 
2.43.0


From 7c432f075ca23ba3d23ed6a2b5a8bb9f12e1576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 36/59] fix: rewrite all issues in a file that is included more
 than once

---
 asterisklint/helper/mutator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 3356be9..86b4b54 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -68,7 +68,10 @@ class FileMutatorBase(object):
         tempout = NamedTemporaryFile(
             dir=os.path.dirname(disk_filename), mode='wb', delete=False)
 
-        issues = self.issues_per_file[filename]
+        # If the file was included more than once, the issues are not in
+        # order and issues exist more than once.
+        issues = sorted(
+            self.issues_per_file[filename], key=(lambda x: x.lineno))
         try:
             issueptr = 0
             issue = issues[issueptr]
@@ -82,7 +85,9 @@ class FileMutatorBase(object):
                             outfile=tempout)
 
                         # Jump to the next issue.
-                        issueptr += 1
+                        while (issueptr < len(issues) and
+                                issues[issueptr].lineno <= lineno):
+                            issueptr += 1
                         if issueptr < len(issues):
                             issue = issues[issueptr]
                         else:
-- 
2.43.0


From 28c295b24a57d9bd1504219d2a58f264e3c70724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 37/59] fix: judge vertical whitespace of every included file
 on its own

---
 asterisklint/configws.py | 34 +++++++++++++++++++---------------
 asterisklint/file.py     |  6 +++++-
 asterisklint/where.py    |  6 +++++-
 3 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/asterisklint/configws.py b/asterisklint/configws.py
index 62d31f2..0e5e217 100644
--- a/asterisklint/configws.py
+++ b/asterisklint/configws.py
@@ -35,15 +35,12 @@ class VswContext(object):
     the VswContextStack keep track of the changes and of the
     file-specific state.
     """
-    def __init__(self, where):
-        self.filename = where.filename
+    def __init__(self, file_):
+        self.file = file_
         self.bof = True
         self.blanks = []
         self.last_context_varsets = 0
 
-    def is_where(self, where):
-        return self.filename == where.filename
-
     def handle(self, element):
         if isinstance(element, EmptyLine):
             self.blanks.append(element)
@@ -147,20 +144,27 @@ class VswContext(object):
 
 class VswContextStack(list):
     def handle(self, element):
-        if not self.is_on_stack(element.where):
-            self.append(VswContext(element.where))
-        else:
-            while not self[-1].is_where(element.where):
-                locontext = self.pop()
-                for delayed in locontext.handle_eof():
-                    yield delayed
-            assert self, 'eof of last file will not happen here'
+        files = element.where.files
+
+        # Which files did we leave?
+        first = True
+        while self and not self.is_open(files):
+            locontext = self.pop()
+            for delayed in locontext.handle_eof(report_eof_blanks=first):
+                yield delayed
+            first = False
+
+        # Which files did we enter? An including file may not have
+        # yielded any elements yet, but it does go on the stack.
+        for file_ in files[len(self):]:
+            self.append(VswContext(file_))
 
         for delayed in self[-1].handle(element):
             yield delayed
 
-    def is_on_stack(self, where):
-        return any(i.is_where(where) for i in reversed(self))
+    def is_open(self, files):
+        pos = len(self) - 1
+        return pos < len(files) and self[pos].file == files[pos]
 
     def handle_eof(self):
         first = True
diff --git a/asterisklint/file.py b/asterisklint/file.py
index 1006c56..a318f0c 100644
--- a/asterisklint/file.py
+++ b/asterisklint/file.py
@@ -61,6 +61,7 @@ class BinFileReader(object):
         self._files = []
         self._generators = []
         self._filenames = []
+        self._file_ids = ()
 
         self._opener = opener
 
@@ -73,6 +74,7 @@ class BinFileReader(object):
         self._files.append(fp)
         self._generators.append(enumerate(fp))
         self._filenames.append(fp.name)
+        self._file_ids += (object(),)
 
     def __iter__(self):
         while self._generators:
@@ -84,8 +86,10 @@ class BinFileReader(object):
                 self._files.pop()
                 self._generators.pop()
                 self._filenames.pop()
+                self._file_ids = self._file_ids[0:-1]
             else:
-                yield Where(self._filenames[-1], i + 1, line), line
+                yield Where(
+                    self._filenames[-1], i + 1, line, self._file_ids), line
 
 
 class EncodingReader(object):
diff --git a/asterisklint/where.py b/asterisklint/where.py
index 7da7e08..5a72f2c 100644
--- a/asterisklint/where.py
+++ b/asterisklint/where.py
@@ -16,10 +16,14 @@
 
 
 class Where(object):
-    def __init__(self, filename, lineno, line):
+    def __init__(self, filename, lineno, line, files=None):
         self.filename = filename  # shared constant in CPython, so cheap
         self.lineno = lineno
         self.line = line
+        # Identifies the file and the files that include it, outermost
+        # first. (A filename is not enough: a file can be included more
+        # than once.)
+        self.files = files or (filename,)
 
     def __str__(self):
         return '%s:%d' % (self.filename, self.lineno)
-- 
2.43.0


From 4f0fc8027ee4d3d1d3e08c18aa2e099029057b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 38/59] fix: match variable priorities in linear time

---
 asterisklint/variable.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index 374399e..f2aa220 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -82,11 +82,27 @@ class Var(object):
         if self.name is not None:
             return True  # this is a plain variable, it could match anything
 
-        re_joined = ''.join(
-            ['^'] +
-            [(re.escape(i) if isinstance(i, str) else '.*') for i in self] +
-            ['$'])
-        return re.match(re_joined, str(value))
+        # The literal parts must exist in order. (We don't use a regex
+        # with multiple .* here because of the backtracking.)
+        parts = ['']
+        for i in self:
+            if isinstance(i, str):
+                parts[-1] += i
+            else:
+                parts.append('')
+
+        value = str(value)
+        head, tail = parts.pop(0), parts.pop()
+        pos, end = len(head), len(value) - len(tail)
+        if not (pos <= end and value.startswith(head) and
+                value.endswith(tail)):
+            return False
+        for part in parts:
+            pos = value.find(part, pos, end)
+            if pos < 0:
+                return False
+            pos += len(part)
+        return True
 
     def format(self, **kwargs):
         if self.name is None:
-- 
2.43.0


From 359669a99cf62256c67f31eabe80c7f43e0139b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 39/59] fix: unpack joined variables when joining them

An assignment or a call inside ExecIf was misread when it was followed
by junk or rewritten from the old style, because the parts were nested
and split() does not look into those.
---
 asterisklint/variable.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/asterisklint/variable.py b/asterisklint/variable.py
index f2aa220..217b403 100644
--- a/asterisklint/variable.py
+++ b/asterisklint/variable.py
@@ -39,13 +39,21 @@ class Var(object):
     """
     @classmethod
     def join(self, variables):
-        copy = []
+        flat = []
         for var in variables:
             if not isinstance(var, (str, Var)):
                 raise TypeError(
                     'Variables can only consist of strings and other '
                     'variables, got {!r}'.format(var))
 
+            if isinstance(var, Var) and var.name is None:
+                # Unpack joined variables, so split and strip see them.
+                flat.extend(var._list)
+            else:
+                flat.append(var)
+
+        copy = []
+        for var in flat:
             if not var:
                 # Skip empty vars.
                 pass
-- 
2.43.0


From 4e863efaf1a2e12b6734320f2ac3635780f55342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:54 +0000
Subject: [PATCH 40/59] fix: a wiped duplicate label is not a destination

An empty priority in a Goto matched extensions whose duplicate label had
been replaced by an empty one.
---
 asterisklint/dialplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index c4916a2..999fa95 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -301,7 +301,7 @@ class DialplanContext(Context):
                         if exten.prio == priority:
                             return exten
                     elif isinstance(priority, str):
-                        if exten.label == priority:
+                        if exten.label and exten.label == priority:
                             return exten
                     # Is it a variable? Then format all unknowns as .*
                     # and attempt a regex match.
-- 
2.43.0


From 51e22f4b17d8b7a75e02f2bbbf2dbda70812c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 41/59] fix: report the use of a template once

---
 asterisklint/configobj.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index ff6b6d5..8aecd32 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -41,9 +41,12 @@ class Context(object):
         Use this on subclasses of Context.
         """
         assert not context._varsets
-        return cls(name=context.name, templates=context._templates,
-                   comment=context.comment, bolspace='',
-                   where=context.where, **kwargs)
+        # The bolspace and the templates have been reported already.
+        ret = cls(name=context.name, templates='',
+                  comment=context.comment, bolspace='',
+                  where=context.where, **kwargs)
+        ret._templates = context._templates
+        return ret
 
     def __init__(self, name, templates='', comment=False, bolspace='',
                  where=None):
-- 
2.43.0


From d83d8f34f0ff9ea4d25fbb49f4bc1c915fa2e112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:03 +0000
Subject: [PATCH 42/59] fix: keep a dash in literals that would become patterns
 without

---
 asterisklint/pattern.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 41e3590..61469ae 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -213,14 +213,16 @@ class Pattern(object):
     def raw_no_dash(self):
         "Strip dashes from the raw version."
         if self.values[0] == self.NOT_A_PATTERN:
-            return self.raw.replace('-', '')
+            ret = self.raw.replace('-', '')
+            # One dash must stay if "-_X" would become a pattern.
+            return '-' + ret if ret.startswith('_') else ret
         return ''.join(self.RE_NO_DASH.findall(self.raw))
 
     @property
     def canonical_pattern(self):
         if not hasattr(self, '_canonical_pattern'):
             if self.values[0] == self.NOT_A_PATTERN:
-                ret = bytes((i[0] & 0xff) for i in self.values[1:])
+                ret = bytes(self.raw_no_dash, 'utf-8')
             # Don't trust IS_A_PATTERN; it may not be a pattern after
             # all. (TODO: decide whether we can simply drop the pattern,
             # since it does affect sort order :-/ )
-- 
2.43.0


From c6fe775cc7c3ffd383d08ba061008d921cb50a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:38 +0000
Subject: [PATCH 43/59] fix: credit the PJSIP functions to the modules that
 exist

PJSIP_AOR, PJSIP_CONTACT and PJSIP_ENDPOINT each have a module of their own
and PJSIP_HEADER is in res_pjsip_header_funcs. modules-show told to load
func_pjsip.so and res_pjsip.so instead, which does not provide them.
---
 asterisklint/func/vall/func_pjsip.py | 9 +++------
 asterisklint/func/vall/res_pjsip.py  | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/asterisklint/func/vall/func_pjsip.py b/asterisklint/func/vall/func_pjsip.py
index 22f25ca..4252a70 100644
--- a/asterisklint/func/vall/func_pjsip.py
+++ b/asterisklint/func/vall/func_pjsip.py
@@ -17,18 +17,15 @@ from ..base import FuncBase
 
 
 class PJSIP_AOR(FuncBase):
-    # func_pjsip_aor.so
-    pass
+    module = 'func_pjsip_aor'
 
 
 class PJSIP_CONTACT(FuncBase):
-    # func_pjsip_contact.so
-    pass
+    module = 'func_pjsip_contact'
 
 
 class PJSIP_ENDPOINT(FuncBase):
-    # func_pjsip_endpoint.so
-    pass
+    module = 'func_pjsip_endpoint'
 
 
 def register(func_loader):
diff --git a/asterisklint/func/vall/res_pjsip.py b/asterisklint/func/vall/res_pjsip.py
index efe51f3..14d6158 100644
--- a/asterisklint/func/vall/res_pjsip.py
+++ b/asterisklint/func/vall/res_pjsip.py
@@ -17,7 +17,7 @@ from ..base import FuncBase
 
 
 class PJSIP_HEADER(FuncBase):
-    pass
+    module = 'res_pjsip_header_funcs'
 
 
 def register(func_loader):
-- 
2.43.0


From 1c023b7ac41f190d9edec9d53135de67be2ef724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:16 +0000
Subject: [PATCH 44/59] fix: do not crash on control characters around the
 separator with PyPy

---
 asterisklint/configobj.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asterisklint/configobj.py b/asterisklint/configobj.py
index 8aecd32..2f07aa6 100644
--- a/asterisklint/configobj.py
+++ b/asterisklint/configobj.py
@@ -88,12 +88,12 @@ class Context(object):
 
 class Varset(object):
     def __init__(self, variable, value, separator, comment, where):
-        clean_separator = separator.strip()
-        if clean_separator == '=>':
+        # No strip() here: not every Python knows the same white space.
+        if '>' in separator:
             if separator != ' => ':
                 W_WSH_OBJSET(where)
             self.arrow = True
-        elif clean_separator == '=':
+        else:
             if separator != '=':
                 W_WSH_VARSET(where)
             self.arrow = False
-- 
2.43.0


From ea80ccb89cdf7c77eecdd53790b1b9412c7f12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:23 +0000
Subject: [PATCH 45/59] fix: rewrite a file once if it is included under
 different names

---
 asterisklint/helper/mutator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index 86b4b54..e3d5ec4 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -36,7 +36,14 @@ class FileMutatorBase(object):
         mutator.request_permission_and_process()
     """
     def __init__(self, issues_per_file):
-        self.issues_per_file = issues_per_file
+        # The same file may have been included under different names.
+        # Rewrite it once, under the first one.
+        self.issues_per_file = {}
+        names = {}
+        for filename in sorted(issues_per_file.keys()):
+            name = names.setdefault(os.path.realpath(filename), filename)
+            self.issues_per_file.setdefault(name, []).extend(
+                issues_per_file[filename])
         self.filenames = list(sorted(self.issues_per_file.keys()))
 
     def request_permission_and_process(self):
-- 
2.43.0


From 13e1016e42a779447d2704cf8a0b5b260ba0a5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 46/59] fix: never write a comma in the canonical form of a
 pattern

---
 asterisklint/pattern.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 61469ae..8d21f82 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -283,7 +283,8 @@ class Pattern(object):
                         start = num & 0xff
                         if length == 2:
                             ret.extend([0x5b, start, start + 1, 0x5d])
-                        elif length == 3 and start != 0x5c:  # no ']'
+                        elif (length == 3 and
+                                start not in (0x2b, 0x5c)):  # no ',' or ']'
                             ret.extend([0x5b, start, start + 1, start + 2,
                                         0x5d])
                         else:
@@ -298,7 +299,9 @@ class Pattern(object):
     def _canonical_pattern_add_range(self, ret, binstr):
         assert binstr
         ret.append(0x5b)
-        dash = (0x2d in binstr)
+        # A comma ends the pattern; it can only exist inside a range, and
+        # that range has the dash as well.
+        dash = (0x2d in binstr and 0x2c not in binstr)
         if dash:
             binstr.remove(0x2d)
         ranges = self._canonical_pattern_get_ranges(binstr)
@@ -311,8 +314,10 @@ class Pattern(object):
             else:
                 assert len(range_) == 2
                 length = range_[1] - range_[0] + 1
-                # A ']' can only exist inside a range.
-                if length <= 3 and not (range_[0] < 0x5d < range_[1]):
+                # A ',' or ']' can only exist inside a range.
+                if (length <= 3 and
+                        not (range_[0] < 0x2c < range_[1]) and
+                        not (range_[0] < 0x5d < range_[1])):
                     ret.extend([range_[0] + i for i in range(length)])
                 else:
                     ret.extend([range_[0], 0x2d, range_[1]])
-- 
2.43.0


From 6220b18f2530f6d1f37606f2d1379c776ba5fba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:02 +0000
Subject: [PATCH 47/59] fix: escape semicolons when rewriting patterns

---
 contrib/make_patterns_canonical.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/contrib/make_patterns_canonical.py b/contrib/make_patterns_canonical.py
index 5cb19b3..a36baf3 100755
--- a/contrib/make_patterns_canonical.py
+++ b/contrib/make_patterns_canonical.py
@@ -46,8 +46,13 @@ class Aggregator(object):
         self.issues_per_file[message.where.filename].append(
             Replacement(
                 lineno=(message.where.lineno - 1),  # 0-based
-                needle=message.fmtkwargs['pat'].encode('utf-8'),
-                replacement=message.fmtkwargs['expected'].encode('utf-8')))
+                needle=self.escape(message.fmtkwargs['pat']),
+                replacement=self.escape(message.fmtkwargs['expected'])))
+
+    @staticmethod
+    def escape(pattern):
+        "An unescaped semicolon would start a comment."
+        return pattern.replace(';', '\\;').encode('utf-8')
 
 
 class MakePatternsCanonicalMutator(FileMutatorBase):
-- 
2.43.0


From 642cf5ee1ed00b2b6939a44e7d8b8c75c1e72c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 48/59] fix: do not make literals that start with white space
 out of patterns

---
 asterisklint/pattern.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asterisklint/pattern.py b/asterisklint/pattern.py
index 8d21f82..8297181 100644
--- a/asterisklint/pattern.py
+++ b/asterisklint/pattern.py
@@ -247,10 +247,14 @@ class Pattern(object):
     def _can_be_literal(values):
         """
         A literal is never empty, it cannot start with an underscore and
-        it cannot contain (non-decorative) dashes.
+        it cannot contain (non-decorative) dashes. If it starts with white
+        space or '>', those would become part of the '=>' before it.
         """
-        return (
-            values and values[0] != (0x15f,) and (0x12d,) not in values)
+        if not values or (0x12d,) in values:
+            return False
+        first = bytes((i[0] & 0xff) for i in values).decode(
+            'utf-8', 'replace')[0]
+        return first not in '_>' and not first.isspace()
 
     def _canonical_pattern_range(self, values):
         common = {
-- 
2.43.0


From cd0e1f6a2d63f17a0e3504de1f0c493130c485da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:09 +0000
Subject: [PATCH 49/59] fix: convert ExecIf calls with escaped semicolons

---
 contrib/convert_dp_104_to_1100.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contrib/convert_dp_104_to_1100.py b/contrib/convert_dp_104_to_1100.py
index 199d854..4d54284 100755
--- a/contrib/convert_dp_104_to_1100.py
+++ b/contrib/convert_dp_104_to_1100.py
@@ -63,9 +63,9 @@ class ConvertDp104To1100Mutator(FileMutatorBase):
             # BUG: issue.data is not the original raw data, but already
             # parsed data, so it may not stringify back into the
             # original...
-            needle = str(issue.data).encode('utf-8')
-            replacement = '{}?{}'.format(issue.cond, app_with_args)
-            replacement = replacement.encode('utf-8')
+            needle = self.escape(str(issue.data))
+            replacement = self.escape(
+                '{}?{}'.format(issue.cond, app_with_args))
 
             outline = inline.replace(needle, replacement, 1)
             if inline == outline:
@@ -78,6 +78,11 @@ class ConvertDp104To1100Mutator(FileMutatorBase):
         else:
             raise NotImplementedError(issue)
 
+    @staticmethod
+    def escape(data):
+        "An unescaped semicolon would start a comment."
+        return data.replace(';', '\\;').encode('utf-8')
+
 
 MessageDefManager.muted = True  # no messages to stderr
 aggregator = Aggregator()
-- 
2.43.0


From 7eb07e93bc18815bba85225dcf7ec6a255589264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:14 +0000
Subject: [PATCH 50/59] fix: Do not replace symbolic links that could not be
 examined when rewriting

---
 asterisklint/helper/mutator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/asterisklint/helper/mutator.py b/asterisklint/helper/mutator.py
index e3d5ec4..187a6b2 100644
--- a/asterisklint/helper/mutator.py
+++ b/asterisklint/helper/mutator.py
@@ -15,6 +15,7 @@
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
 from tempfile import NamedTemporaryFile
 import os
+from pathlib import Path
 
 
 class FileMutatorBase(object):
@@ -41,7 +42,7 @@ class FileMutatorBase(object):
         self.issues_per_file = {}
         names = {}
         for filename in sorted(issues_per_file.keys()):
-            name = names.setdefault(os.path.realpath(filename), filename)
+            name = names.setdefault(self.resolve(filename), filename)
             self.issues_per_file.setdefault(name, []).extend(
                 issues_per_file[filename])
         self.filenames = list(sorted(self.issues_per_file.keys()))
@@ -68,7 +69,7 @@ class FileMutatorBase(object):
 
     def process_file(self, filename):
         # If filename is a symlink, process the (final) target.
-        disk_filename = os.path.realpath(filename)
+        disk_filename = self.resolve(filename)
 
         # Place the tempfile in the same dir, so renaming works
         # (same device).
@@ -121,5 +122,11 @@ class FileMutatorBase(object):
         finally:
             tempout.close()
 
+    @staticmethod
+    def resolve(filename):
+        # Not os.path.realpath: that one takes links that it fails to examine
+        # for regular files.
+        return str(Path(filename).resolve(strict=True))
+
     def process_issue(self, issue, inline, outfile):
         raise NotImplementedError()
-- 
2.43.0


From bf7322e93e28cc826691f1e6d1ad1f975a4dcf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:24 +0000
Subject: [PATCH 51/59] fix: Refuse files that include themselves in the web
 interface

---
 web/wsgi.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/wsgi.py b/web/wsgi.py
index 9303120..f9cbd12 100644
--- a/web/wsgi.py
+++ b/web/wsgi.py
@@ -26,12 +26,15 @@ class UploadedFileOpener:
         self.name = filename
         assert isinstance(filedata, bytes)
         self.data = filedata
+        self.opened = False
 
     def __call__(self, filename):
-        if self.name != filename:
+        # (A file that includes itself would do so forever.)
+        if self.name != filename or self.opened:
             raise HttpNotImplementedError(
                 'Include files are not supported in the web interface.')
 
+        self.opened = True
         return NamedBytesIO(self.name, self.data)
 
 
-- 
2.43.0


From 1f894e5bbb0cc7281cc2dd8a98bf6eda5e08fd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:45 +0000
Subject: [PATCH 52/59] fix: do not list directories and broken links as
 commands

---
 asterisklint/main.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index d67596c..7aa9db9 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -67,12 +67,15 @@ def list_commands(args, envs):
             pass
         else:
             for file_ in files:
-                if file_.endswith('.py') and COMMAND_RE.match(file_[0:-3]):
+                command_path = os.path.join(command_dir, file_)
+                if (file_.endswith('.py') and
+                        COMMAND_RE.match(file_[0:-3]) and
+                        os.path.isfile(command_path)):
                     command_name = file_[0:-3]
                     if command_name not in commands_used:
                         try:
                             command = load_command(
-                                command_name, os.path.join(command_dir, file_))
+                                command_name, command_path)
                         except Exception as e:
                             command_desc = '(error: {})'.format(e)
                         else:
-- 
2.43.0


From 343d92e3072e4bbeb2cfa8ec21721b396f245384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:47 +0000
Subject: [PATCH 53/59] fix: list the other commands if one of them exits while
 it is loaded

---
 asterisklint/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 7aa9db9..9a002d4 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -76,7 +76,7 @@ def list_commands(args, envs):
                         try:
                             command = load_command(
                                 command_name, command_path)
-                        except Exception as e:
+                        except (Exception, SystemExit) as e:
                             command_desc = '(error: {})'.format(e)
                         else:
                             try:
-- 
2.43.0


From a1b56801c2950bcce7c6fea9f1dac7df91c33a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:48 +0000
Subject: [PATCH 54/59] fix: do not exit 0 for a command that starts with a
 dash

---
 asterisklint/main.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asterisklint/main.py b/asterisklint/main.py
index 9a002d4..ca29b9d 100644
--- a/asterisklint/main.py
+++ b/asterisklint/main.py
@@ -196,3 +196,6 @@ def main(args, envs):
                   "commands"))
 
         args = parser.parse_args(args)  # will fail/exit, because .. no command
+
+        # There is one, but it starts with a dash.
+        parser.error('no such command {!r}'.format(args.command))
-- 
2.43.0


From 91fe4e987eb0e459e83314e0f4299071eea81cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:03 +0000
Subject: [PATCH 55/59] fix: a backslash before a variable does not escape what
 follows the variable

---
 asterisklint/app/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asterisklint/app/base.py b/asterisklint/app/base.py
index dc8596b..1b7ca1e 100644
--- a/asterisklint/app/base.py
+++ b/asterisklint/app/base.py
@@ -114,8 +114,9 @@ class AppBase(object):
                 # Skip it?
                 # #ret[-1].extend(data[start:i])  # skip char
                 # #start = i + 1
-                # Don't skip it, we want the returned value.
-                pass
+                # Don't skip it, we want the returned value. (A backslash
+                # before it escapes the first character of its value.)
+                skipnext = False
             elif skipnext:
                 skipnext = False
             elif char == '[':
-- 
2.43.0


From be1eb72dcb51e452d3c47c426ff97e1e821c788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:54 +0000
Subject: [PATCH 56/59] fix: the messages about substrings show the value that
 is wrong

---
 asterisklint/varfun.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asterisklint/varfun.py b/asterisklint/varfun.py
index b719d2f..2eeaac5 100644
--- a/asterisklint/varfun.py
+++ b/asterisklint/varfun.py
@@ -407,8 +407,8 @@ class VarLoader(metaclass=Singleton):
                     (start[0] == '-' and is_digits(start[1:])))):
                 start = int(start)
             else:
+                E_VAR_SUBSTR_START(where, start=start)
                 start = length = None
-                E_VAR_SUBSTR_START(where, start=None)
 
         if length is not None:
             if isinstance(length, Var):
@@ -423,15 +423,15 @@ class VarLoader(metaclass=Singleton):
                 if length == 0 or (
                         isinstance(start, int) and
                         start < 0 and -length <= start):
-                    length = None
                     E_VAR_SUBSTR_LENGTH(where, length=length)
+                    length = None
             else:
                 E_VAR_SUBSTR_LENGTH(where, length=length)
                 start = length = None
 
         # If start is 0 and there is no length, it makes no sense.
         if start == 0 and not length:
+            E_VAR_SUBSTR_START(where, start=start)
             start = None
-            E_VAR_SUBSTR_START(where, start=None)
 
         return varname, start, length
-- 
2.43.0


From a04e8e4d32c38b4d7090424b1a15c2afc799b6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:21 +0000
Subject: [PATCH 57/59] fix: the work for jumps that match many patterns or
 contexts no longer grows with the third power

---
 asterisklint/dialplan.py | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/asterisklint/dialplan.py b/asterisklint/dialplan.py
index 999fa95..87a1c5f 100644
--- a/asterisklint/dialplan.py
+++ b/asterisklint/dialplan.py
@@ -13,6 +13,8 @@
 #
 # You should have received a copy of the GNU General Public License
 # along with this program.  If not, see <http://www.gnu.org/licenses/>.
+from collections import defaultdict
+
 from .application import App
 from .config import ConfigAggregator, Context, Varset
 from .config import (
@@ -134,6 +136,16 @@ class Dialplan(object):
                 H_DP_GLOBALS_MISPLACED(globals_.where)
             self._globals = globals_
 
+    def get_extens(self, pattern):
+        """
+        Return the extensions that have this pattern.
+        """
+        if self._extens_by_pattern is None:
+            self._extens_by_pattern = defaultdict(list)
+            for exten in self:
+                self._extens_by_pattern[exten.pattern].append(exten)
+        return self._extens_by_pattern[pattern]
+
     def has_label(self, label):
         return (label in self.all_labels)
 
@@ -251,12 +263,14 @@ class DialplanContext(Context):
         self.context_last_prio = None
         self.pattern_cache = {}
         self._sorted_patterns = None
+        self._extens_by_pattern = None
 
     def update(self, othercontext):
         assert not othercontext.includes
         assert othercontext.context_last_prio is None
         self.context_last_prio = None
         self._sorted_patterns = None
+        self._extens_by_pattern = None
         super().update(othercontext)
 
     def by_pattern(self):
@@ -277,6 +291,16 @@ class DialplanContext(Context):
                 sorted(list(set(i.pattern for i in self))))
         return self._sorted_patterns
 
+    def get_extens(self, pattern):
+        """
+        Return the extensions that have this pattern.
+        """
+        if self._extens_by_pattern is None:
+            self._extens_by_pattern = defaultdict(list)
+            for exten in self:
+                self._extens_by_pattern[exten.pattern].append(exten)
+        return self._extens_by_pattern[pattern]
+
     def has_label(self, label):
         """
         Check whether the label is used anywhere in this context or in
@@ -295,8 +319,7 @@ class DialplanContext(Context):
         # Matching patterns only.
         for pattern in self.get_sorted_patterns():
             if pattern.matches_extension(extension):
-                extens = [i for i in self if i.pattern == pattern]
-                for exten in extens:
+                for exten in self.get_extens(pattern):
                     if isinstance(priority, int):
                         if exten.prio == priority:
                             return exten
@@ -319,10 +342,12 @@ class DialplanContext(Context):
         returned once.
         """
         contexts = []
+        seen = set()
         todo = [self]
         while todo:
             context = todo.pop()
-            if context not in contexts:
+            if context not in seen:
+                seen.add(context)
                 contexts.append(context)
                 # TODO: An include that does not exist. We should
                 # warn about that somewhere else.
@@ -366,6 +391,7 @@ class DialplanContext(Context):
 
     def add(self, extension):
         self._sorted_patterns = None
+        self._extens_by_pattern = None
 
         # - If extension.pattern is None ("same") then take previous.
         #   Error if there is none.
-- 
2.43.0


From 4b95a15936e58287b56a6c95efb5a90ba939c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:18 +0000
Subject: [PATCH 58/59] fix: vg: a func_odbc section that is defined again
 replaces the earlier one

---
 contrib/commands/vg.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 88a19df..7496402 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -155,10 +155,8 @@ class VoipgridFileConfigParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileConfigParser = VoipgridFileConfigParser  # noqa
@@ -192,10 +190,8 @@ class VoipgridFileFuncOdbcParser(
 
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
-        try:
-            self._contexts.remove(context)
-        except ValueError:
-            pass
+        self._contexts = [
+            i for i in self._contexts if i.name != context.name]
 
         return super().on_context(context)
 asterisklint.FileFuncOdbcParser = VoipgridFileFuncOdbcParser  # noqa
-- 
2.43.0


From 584f9b0de5f6477efadc6774bf997d7c7bdc9a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:45 +0000
Subject: [PATCH 59/59] fix: vg: a [general] or [globals] section that is
 defined again replaces the earlier one

---
 contrib/commands/vg.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/contrib/commands/vg.py b/contrib/commands/vg.py
index 7496402..12a8bfd 100644
--- a/contrib/commands/vg.py
+++ b/contrib/commands/vg.py
@@ -168,10 +168,8 @@ class VoipgridFileDialplanParser(
     def on_context(self, context):
         # Wipe any previous contexts with the same name.
         if context.name == 'general' and self._dialplan._general:
-            assert False, '[general] overridden?'
             self._dialplan._general = None
         elif context.name == 'globals' and self._dialplan._globals:
-            assert False, '[globals] overridden?'
             self._dialplan._globals = None
         elif context.name in self._prevcontexts:
             # Nasty. This is rather fragile, and doesn't even clean up
-- 
2.43.0

