From d828a9e354db679bc5c43cf0effbd7408c3718c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 01/57] fix: acquire the lock created for lock_calls

CFunction looked up lib.lock, which CLibrary.__getattr__ resolves as a header
name, so every call on a library opened with lock_calls raised NameError.
---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..8cbb90b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -490,7 +490,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From 4240f02b8fe471ce608184de458ba942a00f2590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 02/57] fix: looking up a name after its prefixed spelling

_make_obj_ read the non existing attribute objs (NameError) when the prefixed
name had been looked up before. Objects already built are reused, but only for
a name which is actually defined so that the order of lookups does not matter.
---
 pyclibrary/c_library.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 8cbb90b..e321b27 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -264,16 +264,15 @@ class CLibrary(object, metaclass=CLibraryMeta):
         names = self._all_names_(name)
         objs = self._objs_[typ]
 
-        for n in names:
-            if n in objs:
-                return self.objs[n]
-
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
                 typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
             ):
                 continue
 
+            if n in objs:
+                return objs[n]
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From 56b94becc2ec7a38937487e5157391b3724a7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 03/57] fix: calling functions declared with a calling
 convention

Types are tuples and have no remove method: wrapping any function annotated
with __stdcall or __cdecl raised AttributeError.
---
 pyclibrary/c_library.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index e321b27..c7700d1 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -18,7 +18,7 @@ from inspect import cleandoc
 from threading import RLock
 from weakref import WeakValueDictionary
 
-from .c_parser import CParser
+from .c_parser import CParser, Type
 from .utils import LibraryPath, find_library
 
 logger = logging.getLogger(__name__)
@@ -406,9 +406,8 @@ class CFunction(object):
 
         # remove void args from list
         self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
-        for conv in ["__stdcall", "__cdecl"]:
-            if conv in self.sig[0]:
-                self.sig[0].remove(conv)
+        # remove the calling convention from the return type
+        self.sig[0] = Type(*[d for d in sig[0] if d not in ("__stdcall", "__cdecl")])
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
         self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
-- 
2.43.0


From 5165d74f022bacb5aefc67fab300652b723bb81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 04/57] fix: do not alter the parsed definitions when building
 array types

Merging consecutive array modifiers extended the list stored in the parser
definitions in place, so requesting a multi-dimensional array type twice (or an
array of an array typedef once) changed the type of everything using it.
---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..3404bb8 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,7 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From 7020d0a7fd136b3af338d758a3efb0d269e87579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:33 +0000
Subject: [PATCH 05/57] fix: build a single class per struct or union

Requesting a struct through a typedef built a second, incompatible class, and
requesting a struct name as an union returned the struct class if it had been
built before (KeyError otherwise).
---
 pyclibrary/backends/ctypes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3404bb8..9f150b3 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -292,9 +292,9 @@ class CTypesCLibrary(CLibrary):
             raise
 
     def _get_struct(self, str_type, str_name):
-        if str_name not in self._structs_:
-            str_name = self._resolve_struct_alias(str_type, str_name)
-
+        str_name = self._resolve_struct_alias(str_type, str_name)
+        key = (str_type, str_name)
+        if key not in self._structs_:
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
@@ -312,7 +312,7 @@ class CTypesCLibrary(CLibrary):
                         return "<ctypes union '%s'>" % str_name
 
             # Must register struct here to allow recursive definitions.
-            self._structs_[str_name] = s
+            self._structs_[key] = s
 
             if defn["pack"] is not None:
                 s._pack_ = defn["pack"]
@@ -345,7 +345,7 @@ class CTypesCLibrary(CLibrary):
             ]
             s._defaults_ = [m[2] for m in defs]
 
-        return self._structs_[str_name]
+        return self._structs_[key]
 
     def _get_pointer(self, arg_type, sig):
         """Build an uninitialised pointer for the given type."""
-- 
2.43.0


From a8d5df70c729ced4aceb1a0e4ac602b9c1d337c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:19 +0000
Subject: [PATCH 06/57] fix: use the bit width of struct members and not their
 default value

The ctypes fields took the default value of a member as its bit width and
ignored the width given in the header.
---
 pyclibrary/backends/ctypes.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 9f150b3..043217d 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -337,12 +337,7 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
-                for m in defs
-            ]
+            s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[key]
-- 
2.43.0


From 2256665b921690d81a7de55998fa91c4ff378eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:27 +0000
Subject: [PATCH 07/57] fix: parse several bit fields in one member declaration

---
 pyclibrary/c_parser.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..51b492b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1338,9 +1338,14 @@ class CParser(object):
             Group(
                 Group(
                     self.type_spec("type")
-                    + Optional(self.declarator_list("decl_list"))
-                    + colon
-                    + integer("bit")
+                    + Group(
+                        delimitedList(
+                            Group(
+                                Optional(self.declarator)("decl")
+                                + Optional(colon + integer("bit"))
+                            )
+                        )
+                    )("bit_list")
                     + semi
                 )
             )
@@ -1573,21 +1578,23 @@ class CParser(object):
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
                     )
 
-                    if len(m[0].decl_list) == 0:  # anonymous member
-                        member = [None, Type(typ[0]), None]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
+                    for b in m[0].bit_list:  # members with a bit width
+                        if b.decl:
+                            member = [*self.process_type(typ, b.decl[0]), val]
+                        else:
+                            member = [None, Type(typ["name"]), None]
+                        if b.bit:
+                            member.append(int(b.bit))
                         struct.append(tuple(member))
 
+                    if len(m[0].decl_list) == 0 and not m[0].bit_list:
+                        # anonymous member
+                        struct.append((None, Type(typ[0]), None))
+
                     for d in m[0].decl_list:
                         (name, decl) = self.process_type(typ, d)
-                        member = [name, decl, val]
-                        if m[0].bit:
-                            member.append(int(m[0].bit))
-                        struct.append(tuple(member))
-                        logger.debug(
-                            "      {} {} {} {}".format(name, decl, val, m[0].bit)
-                        )
+                        struct.append((name, decl, val))
+                        logger.debug("      {} {} {}".format(name, decl, val))
 
                 str_cls = Struct if str_typ == "struct" else Union
                 self.add_def(str_typ + "s", sname, str_cls(*struct, pack=packing))
-- 
2.43.0


From 68584a797c96404caf3ad6bd00ecba3d3d84227a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:47 +0000
Subject: [PATCH 08/57] fix: keep #pragma pack in step with the lines of the
 header

Skipped defines, undefs and pragmas dropped their line from the
preprocessed text and shifted all later packings, a pragma was applied to
the line before it, a push without a value reset the packing, and a pop of
an unknown or missing record lost the packing or failed.
---
 pyclibrary/c_parser.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 51b492b..0fdaf92 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -862,6 +862,8 @@ class CParser(object):
         if_hit = []
         for i, line in enumerate(lines):
             new_line = ""
+            # Every line, skipped or not, keeps its place in the result.
+            result.append(new_line)
             m = directive.match(line)
 
             # Regular code line
@@ -994,33 +996,33 @@ class CParser(object):
                         else:
                             id = o
 
-                    packing = val
+                    if val is not None or pushpop is None:
+                        packing = val
 
                     if pushpop == "push":
                         pack_stack.append((packing, id))
-                    elif opts[0] == "pop":
-                        if id is None:
-                            pack_stack.pop()
-                        else:
+                    elif pushpop == "pop":
+                        # The first record stands for the default packing.
+                        ind = max(len(pack_stack) - 1, 1)
+                        if id is not None:
                             ind = None
                             for j, s in enumerate(pack_stack):
                                 if s[1] == id:
                                     ind = j
-                                    break
-                            if ind is not None:
-                                pack_stack = pack_stack[:ind]
-                        if val is None:
-                            packing = pack_stack[-1][0]
+                        if ind is not None:
+                            pack_stack = pack_stack[:ind]
+                            if val is None:
+                                packing = pack_stack[-1][0]
 
                     mess = ">> Packing changed to {} at line {}"
                     logger.debug(mess.format(str(packing), i))
-                    self.pack_list[path].append((i, packing))
+                    self.pack_list[path].append((i + 1, packing))
                 else:
                     # Ignore any other directives
                     mess = "Ignored directive {} at line {}"
                     logger.debug(mess.format(d, i))
 
-            result.append(new_line)
+            result[-1] = new_line
         self.files[path] = "\n".join(result)
 
     def eval_preprocessor_expr(self, expr):
-- 
2.43.0


From d5a8a061aeaa6ddf14dfb41727b455de54b790f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:15 +0000
Subject: [PATCH 09/57] fix: a macro is function-like only if ( follows its
 name

A parenthesised name as value made the macro a function, and macro
functions without parameters were taken for plain macros.
---
 pyclibrary/c_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0fdaf92..022c043 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -844,10 +844,15 @@ class CParser(object):
 
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
-        deli_list = Optional(lparen + delimitedList(name) + rparen)
+        # The macro is a function only if the parenthesis follows its name
+        # immediately.
+        fn_paren = Regex(r"(?<=\w)\(")("fn_paren")
+        deli_list = Optional(
+            fn_paren + Group(Optional(delimitedList(name)))("args") + rparen
+        )
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
-            + deli_list.setWhitespaceChars(" \t")("args")
+            + deli_list.setWhitespaceChars(" \t")
             + SkipTo(LineEnd())("value")
         )
         self.pp_define.setParseAction(self.process_macro_defn)
@@ -953,7 +958,7 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + " " + rest)
+                        self.pp_define.parseString(macroName + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
@@ -1052,7 +1057,7 @@ class CParser(object):
             logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
 
         else:
-            if t.args == "":
+            if t.fn_paren == "":
                 val = self.eval_expr(macro_val)
                 self.add_def("macros", t.macro, macro_val)
                 self.add_def("values", t.macro, val)
@@ -1075,7 +1080,7 @@ class CParser(object):
     def compile_fn_macro(self, text, args):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
-        args_str = "|".join(args)
+        args_str = "|".join(args) or "(?!)"
         arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
         start = 0
         parts = []
-- 
2.43.0


From 9b3c7c11c35ae7e777d6da9196b79f3b98bf5d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:46 +0000
Subject: [PATCH 10/57] fix: #undef and redefinition of macros of another kind
 or file

#undef did not remove macro functions nor the definitions made by another
file nor the value of the macro, and a macro redefined as function (or the
reverse) existed as both.
---
 pyclibrary/c_parser.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 022c043..a911cfc 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -968,12 +968,7 @@ class CParser(object):
                 elif d == "undef":
                     if not if_true[-1]:
                         continue
-                    try:
-                        self.rem_def("macros", macroName.strip())
-                    except Exception:
-                        if sys.exc_info()[0] is not KeyError:
-                            mess = "Error removing macro definition '{}'"
-                            logger.exception(mess.format(macroName.strip()))
+                    self.rem_macro(macroName.strip())
 
                 # Check for changes in structure packing
                 # Support only for #pragme pack (with all its variants
@@ -1052,19 +1047,23 @@ class CParser(object):
         """Parse a #define macro and register the definition."""
         logger.debug("Processing MACRO: {}".format(t))
         macro_val = t.value.strip()
-        if macro_val in self.defs["fnmacros"]:
-            self.add_def("fnmacros", t.macro, self.defs["fnmacros"][macro_val])
+        if t.fn_paren == "" and macro_val in self.defs["fnmacros"]:
+            fnmacro = self.defs["fnmacros"][macro_val]
+            self.rem_macro(t.macro, keep="fnmacros")
+            self.add_def("fnmacros", t.macro, fnmacro)
             logger.debug("  Copy fn macro {} => {}".format(macro_val, t.macro))
 
         else:
             if t.fn_paren == "":
                 val = self.eval_expr(macro_val)
+                self.rem_macro(t.macro, keep="macros")
                 self.add_def("macros", t.macro, macro_val)
                 self.add_def("values", t.macro, val)
                 mess = "  Add macro: {} ({}); {}"
                 logger.debug(mess.format(t.macro, val, self.defs["macros"][t.macro]))
 
             else:
+                self.rem_macro(t.macro, keep="fnmacros")
                 self.add_def(
                     "fnmacros",
                     t.macro,
@@ -1077,6 +1076,15 @@ class CParser(object):
 
         return "#define " + t.macro + " " + macro_val
 
+    def rem_macro(self, name, keep=None):
+        """Remove a macro, with its value, unless it is of the kind to keep."""
+        if keep != "macros" and name in self.defs["macros"]:
+            self.rem_def("macros", name)
+            if name in self.defs["values"]:
+                self.rem_def("values", name)
+        if keep != "fnmacros" and name in self.defs["fnmacros"]:
+            self.rem_def("fnmacros", name)
+
     def compile_fn_macro(self, text, args):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
@@ -1695,16 +1703,13 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type from both the definition
+        sets of all files and the global definition set.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
         del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        for file_def in self.file_defs.values():
+            file_def[typ].pop(name, None)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From 902feab9222372a2f5c0da5e0c8254f5be1741dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:20 +0000
Subject: [PATCH 11/57] fix: expansion of macro functions and text around
 literals

Calls ended at the first ) and arguments at any comma, even inside nested
parentheses or literals, names of macro functions which are not called lost
the text up to the next parenthesis, braces in their text failed, and text
after a string literal was not expanded.
---
 pyclibrary/c_parser.py | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a911cfc..c3b1f8c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1089,12 +1089,14 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args) or "(?!)"
-        arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
+        arg_regex = re.compile(literal_regex + r"|(\b({})\b)".format(args_str))
         start = 0
         parts = []
         arg_order = []
         # The group number to check for macro names
-        N = 3
+        N = 2
+        # The text is used as a format string
+        text = text.replace("{", "{{").replace("}", "}}")
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
@@ -1110,10 +1112,10 @@ class CParser(object):
         Faulty calls to macro function are left untouched.
 
         """
-        reg = re.compile(r'("(\\"|[^"])*")|(\b(\w+)\b)')
+        reg = re.compile(literal_regex + r"|(\b(\w+)\b)")
         parts = []
         # The group number to check for macro names
-        N = 3
+        N = 2
         macros = self.defs["macros"]
         fnmacros = self.defs["fnmacros"]
         while True:
@@ -1141,7 +1143,7 @@ class CParser(object):
                 parts.append(exp)
 
             else:
-                start = m.end(N)
+                start = m.end()
                 parts.append(line[:start])
                 line = line[start:]
 
@@ -1154,9 +1156,7 @@ class CParser(object):
         defn = self.defs["fnmacros"][name]
 
         try:
-            args, end = text.split(")", 1)
-            _, args = args.split("(", 1)
-            args = [a.strip() for a in args.split(",")]
+            args, end = self.split_fn_macro_args(text)
         except Exception:
             mess = "Function macro {} argument analysis failed :\n{}"
             raise DefinitionError(0, mess.format(name, format_exc()))
@@ -1166,6 +1166,26 @@ class CParser(object):
 
         return (new_str, end)
 
+    def split_fn_macro_args(self, text):
+        """Split the text following the name of a macro function into the list
+        of the arguments and the text following the call.
+
+        """
+        start = re.match(r"\s*\(", text).end()
+        args = []
+        depth = 0
+        for m in re.compile(literal_regex + r"|[(),]").finditer(text, start):
+            if m.group() == "(":
+                depth += 1
+            elif depth and m.group() == ")":
+                depth -= 1
+            elif not depth and m.group() in (",", ")"):
+                args.append(text[start : m.start()].strip())
+                start = m.end()
+                if m.group() == ")":
+                    return args, text[start:]
+        raise ValueError("Unbalanced parentheses")
+
     # --- Compilation functions
 
     def parse_defs(self, path, return_unparsed=False):
@@ -1798,6 +1818,9 @@ def print_parse_results(pr, depth=0, name=""):
         print(start + str(pr))
 
 
+# String and character literals (one group)
+literal_regex = r"""("(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
+
 # Syntatic delimiters
 comma = Literal(",").ignore(quotedString).suppress()
 colon = Literal(":").ignore(quotedString).suppress()
-- 
2.43.0


From a20d003489a801481693b41e01dbb9db12aa0666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:48 +0000
Subject: [PATCH 12/57] fix: evaluation of numeric constants and of != in
 conditions

Octal constants, lower case suffixes, floating suffixes and floating
constants with several digits before the point had no value, suffixes were
cut off names, and #if did not understand !=, hexadecimal or suffixed
constants.
---
 pyclibrary/c_parser.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c3b1f8c..0fdc7fa 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1028,7 +1028,9 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Literal("!").setParseAction(lambda: " not ")
+            number
+            | Literal("!=")
+            | Literal("!").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
@@ -1619,7 +1621,7 @@ class CParser(object):
                         else:
                             member = [None, Type(typ["name"]), None]
                         if b.bit:
-                            member.append(int(b.bit))
+                            member.append(int(b.bit, 0))
                         struct.append(tuple(member))
 
                     if len(m[0].decl_list) == 0 and not m[0].bit_list:
@@ -1833,13 +1835,17 @@ lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
 # Numbers
-int_strip = lambda t: t[0].rstrip("UL")  # noqa
-hexint = Regex(r"[+-]?\s*0[xX][{}]+[UL]*".format(hexnums)).setParseAction(int_strip)
-decint = Regex(r"[+-]?\s*[0-9]+[UL]*").setParseAction(int_strip)
+int_strip = lambda t: t[0].rstrip("ULul")  # noqa
+# Octal constants are written 0o10 in Python
+oct_strip = lambda t: re.sub(r"\b0+(?=[0-7])", "0o", int_strip(t))  # noqa
+hexint = Regex(r"[+-]?\s*\b0[xX][{}]+[ULul]*".format(hexnums)).setParseAction(int_strip)
+decint = Regex(r"[+-]?\s*\b[0-9]+[ULul]*").setParseAction(oct_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-floating = Regex(r"[+-]?\s*((((\d(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d\.\d*)|(\.\d+)))")
+floating = Regex(
+    r"[+-]?\s*(((\b\d+(\.\d*)?|(\.\d+))[eE][+-]?\d+)|((\b\d+\.\d*)|(\.\d+)))[fFlL]?"
+).setParseAction(lambda t: t[0].rstrip("fFlL"))
 number = floating | integer
 
 # Miscelaneous
-- 
2.43.0


From ec9361eade1de8d83fd2da5a4e1c39530b7f0a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:47 +0000
Subject: [PATCH 13/57] fix: values are C constants only

Names of Python builtins and modules and tuples were recorded as values,
and a parenthesised constant was dropped as a cast.
---
 pyclibrary/c_parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0fdc7fa..02ad130 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1703,10 +1703,17 @@ class CParser(object):
         """Just eval with a little extra robustness."""
         expr = expr.strip()
         cast = (lparen + self.type_spec + self.abstract_declarator + rparen).suppress()
+        # A name in parentheses is no cast if it has a value
+        cast.addCondition(
+            lambda s, loc, t: re.match(r"\s*(\w+)", s[loc + 1 :])[1]
+            not in self.defs["values"]
+        )
         expr = (quotedString | number | cast).transformString(expr)
         if expr == "":
             return None
-        return eval(expr, *args)
+        # Python's own names mean nothing in C
+        val = eval(expr, {"__builtins__": {}}, *args[1:])
+        return val if isinstance(val, (int, float, str)) else None
 
     def add_def(self, typ, name, val):
         """Add a definition of a specific type to both the definition set for
@@ -1958,7 +1965,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     # Is there a better way to process expressions with cast operators??
     cast_atom = (
         ZeroOrMore(uni_left_operator)
-        + Optional("(" + ident + ")").suppress()
+        + Optional("(" + ident + ")")
         + (
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
-- 
2.43.0


From 825451a84978cb55f3789c9fc9b569ad13660b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:38 +0000
Subject: [PATCH 14/57] fix: a comment separates the tokens around it

int/*c*/x lost the space, and the lines continuing a line comment were taken
for code.
---
 pyclibrary/c_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 02ad130..fab99b7 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -39,13 +39,13 @@ from pyparsing import (
     alphanums,
     alphas,
     cStyleComment,
+    dblSlashComment,
     delimitedList,
     hexnums,
     lineno,
     nestedExpr,
     oneOf,
     quotedString,
-    restOfLine,
 )
 
 from .errors import DefinitionError
@@ -806,10 +806,12 @@ class CParser(object):
 
         """
         text = self.files[path]
-        cplusplus_line_comment = Literal("//") + restOfLine
+        # a line comment goes on after a backslash at the end of the line
+        cplusplus_line_comment = dblSlashComment.copy()
+        c_comment = cStyleComment.copy().setParseAction(lambda: " ")
         # match quoted strings first to prevent matching comments inside quotes
         comment_remover = (
-            quotedString | cStyleComment.suppress() | cplusplus_line_comment.suppress()
+            quotedString | c_comment | cplusplus_line_comment.suppress()
         )
         self.files[path] = comment_remover.transformString(text)
 
-- 
2.43.0


From 688f17c325a9d9f1f1fc1f25477e87875121f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:38 +0000
Subject: [PATCH 15/57] fix: keep enums referred to before their definition or
 without value

An enum named before its definition lost its enumerators and one with a value
that cannot be evaluated was dropped altogether.
---
 pyclibrary/c_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fab99b7..83a0167 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1534,7 +1534,7 @@ class CParser(object):
 
             logger.debug("  name: {}".format(name))
 
-            if name not in self.defs["enums"]:
+            if len(t.members) > 0 or name not in self.defs["enums"]:
                 i = 0
                 enum = {}
                 for v in t.members:
@@ -1545,7 +1545,8 @@ class CParser(object):
                             pass
                     enum[v.name] = i
                     self.add_def("values", v.name, i)
-                    i += 1
+                    # Nothing is known after a value which is no constant
+                    i = None if i is None else i + 1
                 logger.debug("  members: {}".format(enum))
                 self.add_def("enums", name, enum)
                 self.add_def("types", "enum " + name, Type("enum", name))
-- 
2.43.0


From 8a958186ef517db213e4e790baa64ed376884c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:48 +0000
Subject: [PATCH 16/57] fix: evaluation of types spelled with signed

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 83a0167..74e33f6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -183,8 +183,9 @@ class Type(tuple):
 
         if self.is_fund_type():
             # Remove 'signed' before returning evaluated type
+            words = [w for w in self.type_spec.split() if w != "signed"]
             return Type(
-                re.sub(r"\bsigned\b", "", self.type_spec).strip(),
+                " ".join(words) or "int",
                 *self.declarators,
                 type_quals=self.type_quals,
             )
-- 
2.43.0


From fa33dcb6590f0cdec67f1341ebe868a0d9ecac0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 17/57] fix: keep the qualifiers when removing the
 compatibility hack

---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 74e33f6..fb072e2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -242,7 +242,10 @@ class Type(tuple):
 
         """
         if len(self) == 2 and isinstance(self[0], Type):
-            return Type(*(self[0] + (self[1],)))
+            return Type(
+                *(self[0] + (self[1],)),
+                type_quals=(*self[0].type_quals, self.type_quals[1]),
+            )
         else:
             return self
 
-- 
2.43.0


From d52f04c809f11d90a58451a848ba726566d5ec6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 18/57] fix: order of the sizes of arrays of arrays

The sizes of an array of an array typedef and of arrays declared with
redundant parentheses were swapped.
---
 pyclibrary/c_parser.py | 59 +++++++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 12 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fb072e2..6852cc8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -59,6 +59,45 @@ logger = logging.getLogger(__name__)
 __all__ = ["CParser", "win_defs"]
 
 
+def combine_declarators(inner, inner_quals, outer, outer_quals):
+    """Combine the declarators of a type with the ones deriving another type
+    from it.
+
+    Sizes of adjacent arrays are listed in the order in which they are written,
+    hence those of an array of arrays start with the outermost one.
+
+    Parameters
+    ----------
+    inner, outer : sequence
+        Declarators of the type and of the type derived from it.
+
+    inner_quals, outer_quals : sequence
+        Type qualifiers of the declarators. The first one of inner_quals refers
+        to the base type.
+
+    Returns
+    -------
+    declarators, quals : tuple
+        Declarators and qualifiers of the combined type.
+
+    """
+    m = len(inner)
+    while m > 0 and isinstance(inner[m - 1], list):
+        m -= 1
+    n = 0
+    while n < len(outer) and isinstance(outer[n], list):
+        n += 1
+    return (
+        (*inner[:m], *outer[:n], *inner[m:], *outer[n:]),
+        (
+            *inner_quals[: m + 1],
+            *outer_quals[:n],
+            *inner_quals[m + 1 :],
+            *outer_quals[n:],
+        ),
+    )
+
+
 class Type(tuple):
     """
     Representation of a C type. CParser uses this class to store the parsed
@@ -201,17 +240,13 @@ class Type(tuple):
             raise DefinitionError(m.format(parent, " -> ".join(used)))
 
         pt = type_map[parent]
-        evaled_type = Type(
-            pt.type_spec,
-            *(pt.declarators + self.declarators),
-            type_quals=(
-                (
-                    *pt.type_quals[:-1],
-                    pt.type_quals[-1] + self.type_quals[0],
-                    *self.type_quals[1:],
-                )
-            ),
+        declarators, quals = combine_declarators(
+            pt.declarators,
+            (*pt.type_quals[:-1], pt.type_quals[-1] + self.type_quals[0]),
+            self.declarators,
+            self.type_quals[1:],
         )
+        evaled_type = Type(pt.type_spec, *declarators, type_quals=quals)
 
         return evaled_type.eval(type_map, used)
 
@@ -1475,8 +1510,8 @@ class CParser(object):
             (n, t, q) = self.process_declarator(decl["center"][0])
             if n is not None:
                 name = n
-            toks.extend(t)
-            quals = [*quals[:-1], quals[-1] + q[0], *list(q[1:])]
+            quals[-1] = quals[-1] + q[0]
+            toks, quals = combine_declarators(toks, quals, t, q[1:])
 
         if "name" in decl:
             name = decl["name"]
-- 
2.43.0


From 9c2fce3bccaae7c197e5a7e24dcd132d7e56a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:52 +0000
Subject: [PATCH 19/57] fix: parse parameters which are function pointers
 without name

Declarations with such parameters were lost, and the parameters of a function
pointer nested in another one lost their pointers and arrays.
---
 pyclibrary/c_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6852cc8..60b97f0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1302,8 +1302,9 @@ class CParser(object):
             type_qualifier("first_typequal")
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
-                (Optional("&")("ref"))
-                | (lparen + self.abstract_declarator + rparen)("center")
+                # () is an empty parameter list
+                (lparen + ~rparen + self.abstract_declarator + rparen)("center")
+                | (Optional("&")("ref"))
             )
             + Optional(
                 lparen
@@ -1311,7 +1312,7 @@ class CParser(object):
                     delimitedList(
                         Group(
                             self.type_spec("type")
-                            + self.abstract_declarator("decl")
+                            + (self.declarator | self.abstract_declarator)("decl")
                             + Optional(
                                 Literal("=").suppress() + expression, default=None
                             )("val")
@@ -1493,10 +1494,12 @@ class CParser(object):
                 toks.append(())
             else:
                 ex = lambda x: (x[0],) if len(x) != 0 else (None,)  # noqa
+                # The declarators of nested parameters are not in a list
+                de = lambda x: x if "ptrs" in x else x[0]  # noqa
                 toks.append(
                     tuple(
                         [
-                            self.process_type(a["type"], a["decl"][0]) + ex(a["val"])
+                            self.process_type(a["type"], de(a["decl"])) + ex(a["val"])
                             for a in decl["args"]
                         ]
                     )
-- 
2.43.0


From c07c00107092bf769bb554a57799e232d93a406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:00 +0000
Subject: [PATCH 20/57] fix: building structs which refer to each other

A struct holding a pointer to a struct containing it by value failed or got a
wrong layout depending on which was requested first, a failed struct was
returned without fields when requested again, and function pointers without
parameters could not be built.
---
 pyclibrary/backends/ctypes.py | 103 +++++++++++++++++++++++-----------
 pyclibrary/c_library.py       |   3 +
 2 files changed, 74 insertions(+), 32 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 043217d..0886eaf 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -170,17 +170,23 @@ class CTypesCLibrary(CLibrary):
 
         return obj.value
 
-    def _get_type(self, typ, pointers=True):  # noqa
+    def _get_type(self, typ, pointers=True, complete=True):  # noqa
         """Return a ctype object representing the named type.
 
         If pointers is True, the class returned includes all pointer/array
         specs provided. Otherwise, the class returned is just the base type
         with no pointers.
 
+        If complete is False, the size of the type does not matter, so the
+        fields of the structs and unions it consists of may be set later on.
+
         """
         try:
             typ = list(self._headers_.eval_type(typ))
             mods = typ[1:][:]
+            # Arrays need the size of their items but pointers do not
+            if pointers and mods:
+                complete = isinstance(mods[0], list)
 
             # Create the initial type
             # Some types like ['char', '*'] have a specific ctype (c_char_p)
@@ -200,9 +206,13 @@ class CTypesCLibrary(CLibrary):
 
             # structs, unions, enums:
             elif typ[0][:7] == "struct ":
-                cls = self._get_struct("structs", self._defs_["types"][typ[0]][1])
+                cls = self._get_struct(
+                    "structs", self._defs_["types"][typ[0]][1], complete
+                )
             elif typ[0][:6] == "union ":
-                cls = self._get_struct("unions", self._defs_["types"][typ[0]][1])
+                cls = self._get_struct(
+                    "unions", self._defs_["types"][typ[0]][1], complete
+                )
             elif typ[0][:5] == "enum ":
                 cls = c_int
 
@@ -279,7 +289,11 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m]
+                    args = [
+                        self._get_type(arg[1], complete=False)
+                        for arg in m
+                        if arg[1] != ("void",)
+                    ]
                     cls = mkfn(cls, *args)
 
                 else:
@@ -291,7 +305,7 @@ class CTypesCLibrary(CLibrary):
             logger.error("Error while processing type: {}".format(typ))
             raise
 
-    def _get_struct(self, str_type, str_name):
+    def _get_struct(self, str_type, str_name, complete=True):
         str_name = self._resolve_struct_alias(str_type, str_name)
         key = (str_type, str_name)
         if key not in self._structs_:
@@ -299,7 +313,6 @@ class CTypesCLibrary(CLibrary):
             defn = self._defs_[str_type][str_name]
 
             # create ctypes class
-            defs = defn["members"][:]
             if str_type == "structs":
 
                 class s(Structure):
@@ -313,35 +326,61 @@ class CTypesCLibrary(CLibrary):
 
             # Must register struct here to allow recursive definitions.
             self._structs_[key] = s
-
-            if defn["pack"] is not None:
-                s._pack_ = defn["pack"]
-
-            # Assign names to anonymous members
-            members = []
-            anon = []
-            for i, d in enumerate(defs):
-                if d[0] is None:
-                    c = 0
-                    while True:
-                        name = "anon_member%d" % c
-                        if name not in members:
-                            d = (name, *d[1:])
-                            defs[i] = d
-                            anon.append(name)
-                            break
-                        c += 1
-                members.append(d[0])
-
-            s._anonymous_ = anon
-            # Handle bit field specifications, ctypes only supports bit fields
-            # for integer but I am not sure how to test for it in a nice
-            # fashion.
-            s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
-            s._defaults_ = [m[2] for m in defs]
+            self._no_fields_.append(key)
+
+        if not self._building_:
+            # Set the fields of this class and of all those it refers to, or
+            # forget about them if one cannot be built.
+            known = {k: c for k, c in self._structs_.items() if k not in self._no_fields_}
+            self._building_ = True
+            try:
+                while self._no_fields_:
+                    self._set_fields(self._no_fields_[0])
+            except Exception:
+                self._structs_ = known
+                self._no_fields_ = []
+                raise
+            finally:
+                self._building_ = False
+
+        elif complete and key in self._no_fields_:
+            self._set_fields(key)
 
         return self._structs_[key]
 
+    def _set_fields(self, key):
+        """Set the fields of a struct or union."""
+        self._no_fields_.remove(key)
+        defn = self._defs_[key[0]][key[1]]
+        defs = defn["members"][:]
+        s = self._structs_[key]
+
+        if defn["pack"] is not None:
+            s._pack_ = defn["pack"]
+
+        # Assign names to anonymous members
+        members = []
+        anon = []
+        for i, d in enumerate(defs):
+            if d[0] is None:
+                c = 0
+                while True:
+                    name = "anon_member%d" % c
+                    if name not in members:
+                        d = (name, *d[1:])
+                        defs[i] = d
+                        anon.append(name)
+                        break
+                    c += 1
+            members.append(d[0])
+
+        s._anonymous_ = anon
+        # Handle bit field specifications, ctypes only supports bit fields
+        # for integer but I am not sure how to test for it in a nice
+        # fashion.
+        s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+        s._defaults_ = [m[2] for m in defs]
+
     def _get_pointer(self, arg_type, sig):
         """Build an uninitialised pointer for the given type."""
         # Must be 2-part type, second part must be '*' or '**'
diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c7700d1..5fca5e8 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -205,6 +205,9 @@ class CLibrary(object, metaclass=CLibraryMeta):
         self._all_objs_ = {}
         self._structs_ = {}
         self._unions_ = {}
+        # Structs and unions whose fields are still to be set
+        self._no_fields_ = []
+        self._building_ = False
 
     def __call__(self, typ, name):
         if typ not in self._objs_:
-- 
2.43.0


From f90a83685a6838f871f9f8a7b62fe99e6adcb24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:42 +0000
Subject: [PATCH 21/57] fix: arrays without size take no room in structs

Such members were turned into pointers.
---
 pyclibrary/backends/ctypes.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 0886eaf..909fada 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -348,6 +348,21 @@ class CTypesCLibrary(CLibrary):
 
         return self._structs_[key]
 
+    def _get_member_type(self, typ):
+        """Return a ctype object representing the type of a struct member.
+
+        An array without size takes no room in a struct.
+
+        """
+        typ = list(self._headers_.eval_type(typ))
+        # The first one of the last sizes belongs to the member itself
+        i = len(typ)
+        while isinstance(typ[i - 1], list):
+            i -= 1
+        if typ[i:] and typ[i] == [-1]:
+            typ[i] = [0]
+        return self._get_type(typ)
+
     def _set_fields(self, key):
         """Set the fields of a struct or union."""
         self._no_fields_.remove(key)
@@ -378,7 +393,7 @@ class CTypesCLibrary(CLibrary):
         # Handle bit field specifications, ctypes only supports bit fields
         # for integer but I am not sure how to test for it in a nice
         # fashion.
-        s._fields_ = [(m[0], self._get_type(m[1]), *m[3:]) for m in defs]
+        s._fields_ = [(m[0], self._get_member_type(m[1]), *m[3:]) for m in defs]
         s._defaults_ = [m[2] for m in defs]
 
     def _get_pointer(self, arg_type, sig):
-- 
2.43.0


From 1ba925dae07c48ed0923051cb5329695a3067183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:51 +0000
Subject: [PATCH 22/57] fix: return structs which have a member called value as
 they are

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 909fada..b1b55e4 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -165,7 +165,8 @@ class CTypesCLibrary(CLibrary):
         it wrong (a pointer being often an array).
 
         """
-        if not hasattr(obj, "value"):
+        # A struct may have a member called value
+        if isinstance(obj, (Structure, Union)) or not hasattr(obj, "value"):
             return obj
 
         return obj.value
-- 
2.43.0


From 41fc8d1313548403aacc7e486118eaf87080cfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:00 +0000
Subject: [PATCH 23/57] fix: searching files changed the list of directories of
 the caller

Also look into the system include directories on linux, sys.platform is no
longer linux2 since Python 3.3.
---
 pyclibrary/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..b29d896 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -68,7 +68,7 @@ def find_header(h_name, dirs=None):
 
     """
     if dirs:
-        dirs += HEADER_DIRS[::-1]
+        dirs = [*dirs, *HEADER_DIRS[::-1]]
     else:
         dirs = HEADER_DIRS[::-1]
 
@@ -85,7 +85,7 @@ def find_header(h_name, dirs=None):
             )
         )
 
-    if sys.platform == "linux2":
+    if sys.platform.startswith("linux"):
         dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))
 
     for d in dirs:
@@ -135,7 +135,7 @@ def find_library(name, dirs=None):
 
     """
     if dirs:
-        dirs += LIBRARY_DIRS[::-1]
+        dirs = [*dirs, *LIBRARY_DIRS[::-1]]
     else:
         dirs = LIBRARY_DIRS[::-1]
 
-- 
2.43.0


From b415223dd2e75a63da5317f59ba2aa5c2e2db231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:09 +0000
Subject: [PATCH 24/57] fix: find the open library reached through a name, link
 or library object

---
 pyclibrary/c_library.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 5fca5e8..2a11f61 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -75,6 +75,10 @@ class CLibraryMeta(type):
             backend_cls = cls.backends[backend]
             lib_path = get_library_path(lib, backend)
 
+        # A file has a single path whatever way it was reached.
+        if os.path.isfile(lib_path):
+            lib_path = os.path.realpath(lib_path)
+
         # Check whether or not this library has already been opened.
         if lib_path in cls.libs:
             return cls.libs[lib_path]
-- 
2.43.0


From 8ca5eb2886cc3cb9e707db71f8d11203b9ed9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:18 +0000
Subject: [PATCH 25/57] fix: initialisation changed the dict and list of the
 caller

---
 pyclibrary/backends/ctypes.py | 5 ++++-
 pyclibrary/init.py            | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index b1b55e4..5003ebd 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -488,13 +488,16 @@ def init_clibrary(extra_types={}):
         "ssize_t": c_ssize_t,
     }
 
+    # The dict of the caller must be left alone
+    extra_types = dict(extra_types)
+
     if sys.platform == "win32":
         for k in extra_types:
             if k in WIN_TYPES:
                 extra_types[k] = WIN_TYPES[k]
 
     if sys.version_info >= (3, 12):
-        extra_types["time_t"] = c_time_t
+        extra_types.setdefault("time_t", c_time_t)
 
     # Now complete the list with some more exotic types
     CTypesCLibrary._types_.update(extra_types)
diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..3dd52c7 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -71,8 +71,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         identify the OS.
 
     """
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
         extra_types.update(WIN_TYPES)
-- 
2.43.0


From 26684eb2c649e86bd0bc39a663236ba877b51b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:47 +0000
Subject: [PATCH 26/57] fix: do not use a cache made from other definitions or
 another encoding

The parsers to copy from, the encoding and the order of the replacements were
not part of the options compared with those of the cache.
---
 pyclibrary/c_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 60b97f0..b43ce7d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -15,6 +15,7 @@ import logging
 import os
 import re
 import sys
+from copy import deepcopy
 from inspect import cleandoc
 from traceback import format_exc
 
@@ -500,7 +501,8 @@ class CParser(object):
     #: Increment every time cache structure or parsing changes to invalidate
     #: old cache files.
     # 2 : add C99 integers
-    cache_version = 2
+    # 3 : options include the encoding and the definitions copied
+    cache_version = 3
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
@@ -532,6 +534,8 @@ class CParser(object):
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
+        self.init_opts["replace_order"] = {}
+        self.init_opts["encoding"] = encoding
 
         self.data_list = [
             "types",
@@ -576,6 +580,7 @@ class CParser(object):
                 copy_from = [copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
+            self.init_opts["copy_from"] = deepcopy([p.file_defs for p in copy_from])
 
         if process_all:
             self.process_all(cache=cache, check_cache_validity=check_cache_validity)
@@ -803,6 +808,7 @@ class CParser(object):
         self.file_order.append(path)
         bn = os.path.basename(path)
         self.init_opts["replace"][bn] = replace
+        self.init_opts["replace_order"][bn] = replace and list(replace)
         # Only interested in the file names, the directory may change between
         # systems.
         self.init_opts["files"].append(bn)
-- 
2.43.0


From 81c11e76e71e6c1151419f9bae3cd72c7a494684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:58 +0000
Subject: [PATCH 27/57] fix: use the cache when the headers are missing

The headers were looked for before the cache, and files which could not be
loaded were forgotten instead of being reported.
---
 pyclibrary/c_parser.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b43ce7d..9929d02 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -762,10 +762,11 @@ class CParser(object):
             if os.path.isfile(header):
                 hs.append(header)
             else:
-                h = find_header(header)
-                if not h:
-                    raise OSError("Cannot find header: {}".format(header))
-                hs.append(h)
+                try:
+                    hs.append(find_header(header))
+                except OSError:
+                    # Not fatal either, see load_file.
+                    hs.append(header)
 
         return hs
 
@@ -790,6 +791,14 @@ class CParser(object):
         if encoding is None:
             encoding = self.default_encoding
 
+        self.file_order.append(path)
+        bn = os.path.basename(path)
+        self.init_opts["replace"][bn] = replace
+        self.init_opts["replace_order"][bn] = replace and list(replace)
+        # Only interested in the file names, the directory may change between
+        # systems.
+        self.init_opts["files"].append(bn)
+
         if not os.path.isfile(path):
             # Not a fatal error since we might be able to function properly if
             # there is a cache file.
@@ -805,13 +814,6 @@ class CParser(object):
             for s in replace:
                 self.files[path] = re.sub(s, replace[s], self.files[path])
 
-        self.file_order.append(path)
-        bn = os.path.basename(path)
-        self.init_opts["replace"][bn] = replace
-        self.init_opts["replace_order"][bn] = replace and list(replace)
-        # Only interested in the file names, the directory may change between
-        # systems.
-        self.init_opts["files"].append(bn)
         return True
 
     def _format_parsed_file(self, filename=None):
-- 
2.43.0


From 748857b507e2d9424bc3077700bb37724eabc615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:30 +0000
Subject: [PATCH 28/57] fix: keep the text after a macro call apart from its
 expansion

F(int)x became intx when F was a macro function.
---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9929d02..933b6f4 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1192,6 +1192,9 @@ class CParser(object):
                 parts.append(line[: m.start(N)])
                 line = end
                 parts.append(exp)
+                # What follows the call remains a token of its own
+                if re.match(r"\w\w", exp[-1:] + line[:1]):
+                    parts.append(" ")
 
             else:
                 start = m.end()
-- 
2.43.0


From d2b4b23aa0d4d34016b68c56eeb352fe7cd9521b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:12 +0000
Subject: [PATCH 29/57] fix: qualifiers after the type apply to all declared
 names

In 'int const a, *b' only a was const.
---
 pyclibrary/c_parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 933b6f4..2d47d3e 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1289,7 +1289,9 @@ class CParser(object):
         if extra_modifier is not None:
             type_ += extra_modifier
         type_.setParseAction(recombine)
-        self.type_spec = Group(type_qualifier("pre_qual") + type_("name"))
+        self.type_spec = Group(
+            type_qualifier("pre_qual") + type_("name") + type_qualifier("post_qual")
+        )
 
         # --- Abstract declarators for use in function pointer arguments
         #   Thus begins the extremely hairy business of parsing C declarators.
@@ -1562,10 +1564,10 @@ class CParser(object):
         """
         logger.debug("PROCESS TYPE/DECL: {}/{}".format(typ["name"], decl))
         (name, decl, quals) = self.process_declarator(decl)
-        pre_typequal = tuple(typ.get("pre_qual", []))
+        typequal = (*typ.get("pre_qual", []), *typ.get("post_qual", []))
         return (
             name,
-            Type(typ["name"], *decl, type_quals=(pre_typequal + quals[0], *quals[1:])),
+            Type(typ["name"], *decl, type_quals=(typequal + quals[0], *quals[1:])),
         )
 
     def process_enum(self, s, line, t):
-- 
2.43.0


From 9ecd81a22566c12643073b44b0737b67e5ff76ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:06 +0000
Subject: [PATCH 30/57] fix: evaluate constant expressions with C's operators

Division of integers gave a float, the remainder of negative numbers was
Python's, and text which only Python understands (True, 2 ** 3, "a" * 2)
had a value.
---
 pyclibrary/c_parser.py | 70 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 67 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2d47d3e..8cf4268 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -11,7 +11,9 @@ function signatures from C header files.
 
 """
 
+import ast
 import logging
+import operator
 import os
 import re
 import sys
@@ -1766,11 +1768,10 @@ class CParser(object):
             lambda s, loc, t: re.match(r"\s*(\w+)", s[loc + 1 :])[1]
             not in self.defs["values"]
         )
-        expr = (quotedString | number | cast).transformString(expr)
+        expr = (quotedString | number | cast).transformString(expr).strip()
         if expr == "":
             return None
-        # Python's own names mean nothing in C
-        val = eval(expr, {"__builtins__": {}}, *args[1:])
+        val = eval_constant(ast.parse(expr, mode="eval").body, *args[1:])
         return val if isinstance(val, (int, float, str)) else None
 
     def add_def(self, typ, name, val):
@@ -1854,6 +1855,69 @@ def kwl(strs):
     return Regex(r"\b({})\b".format("|".join(strs)))
 
 
+def c_div(a, b):
+    """Division, which truncates towards zero between integers."""
+    if isinstance(a, int) and isinstance(b, int):
+        return abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
+    return a / b
+
+
+def c_mod(a, b):
+    """Remainder of the division of integers, of the sign of the first one."""
+    if not isinstance(a, int) or not isinstance(b, int):
+        raise TypeError("Operands of % must be integers")
+    return a - b * c_div(a, b)
+
+
+c_operators = {
+    ast.Add: operator.add,
+    ast.Sub: operator.sub,
+    ast.Mult: operator.mul,
+    ast.Div: c_div,
+    ast.Mod: c_mod,
+    ast.LShift: operator.lshift,
+    ast.RShift: operator.rshift,
+    ast.BitAnd: operator.and_,
+    ast.BitXor: operator.xor,
+    ast.BitOr: operator.or_,
+    ast.UAdd: operator.pos,
+    ast.USub: operator.neg,
+    ast.Invert: operator.invert,
+    ast.Eq: operator.eq,
+    ast.NotEq: operator.ne,
+    ast.Lt: operator.lt,
+    ast.LtE: operator.le,
+    ast.Gt: operator.gt,
+    ast.GtE: operator.ge,
+}
+
+
+def eval_constant(node, values):
+    """Evaluate the syntax tree of a constant expression as C does.
+
+    Python constructs which mean nothing (or something else) in C are errors.
+
+    """
+    if isinstance(node, ast.Constant) and type(node.value) in (int, float, str):
+        return node.value
+    if isinstance(node, ast.Name):
+        return values[node.id]
+
+    if isinstance(node, ast.UnaryOp):
+        op, operands = node.op, [node.operand]
+    elif isinstance(node, ast.BinOp):
+        op, operands = node.op, [node.left, node.right]
+    elif isinstance(node, ast.Compare) and len(node.ops) == 1:
+        op, operands = node.ops[0], [node.left, *node.comparators]
+    else:
+        raise ValueError("Not a C constant expression")
+
+    vals = [eval_constant(o, values) for o in operands]
+    if not all(isinstance(v, (int, float)) for v in vals):
+        raise TypeError("Operands must be numbers")
+    return c_operators[type(op)](*vals)
+
+
 def flatten(lst):
     res = []
     for i in lst:
-- 
2.43.0


From c8e8e4dfd6b93817d052965ae45feb98df9cf6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 31/57] fix: parse initialisers and enumerators with ~, !, &,
 casts and characters

Declarations whose value contained such an operator or a cast to a
fundamental type were dropped, as were enums with an enumerator after a
character constant.
---
 pyclibrary/c_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 8cf4268..3bf4ef6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1598,6 +1598,9 @@ class CParser(object):
                     if v.value != "":
                         try:
                             i = self.eval_expr(v.value)
+                            # A character constant is an integer
+                            if isinstance(i, str):
+                                i = ord(i) if len(i) == 1 else None
                         except Exception:
                             pass
                     enum[v.name] = i
@@ -1980,7 +1983,7 @@ number = floating | integer
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * sizeof new")
+uni_left_operator = oneOf("++ -- - + * & ~ ! sizeof new")
 wordchars = alphanums + "_$"
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
@@ -2087,7 +2090,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     # Is there a better way to process expressions with cast operators??
     cast_atom = (
         ZeroOrMore(uni_left_operator)
-        + Optional("(" + ident + ")")
+        + Optional("(" + (fund_type | ident) + ZeroOrMore("*") + ")")
         + (
             (
                 ident + "(" + Optional(delimitedList(expression)) + ")"
-- 
2.43.0


From 7ecb069f26216431116f9d65a6f3a951d675102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:32 +0000
Subject: [PATCH 32/57] fix: parse initialisers made of several string literals

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3bf4ef6..06d2373 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2097,7 +2097,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
-                | quotedString
+                | OneOrMore(quotedString)
             )
             | ("(" + expression + ")")
         )
@@ -2112,7 +2112,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
-                | quotedString
+                | OneOrMore(quotedString)
             )
             | ("(" + expression + ")")
         )
-- 
2.43.0


From a3300bc11e2fd81e1fea8f35872747954eed8c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:41 +0000
Subject: [PATCH 33/57] fix: keep macro expansions from merging with the
 operators around them

---
 pyclibrary/c_parser.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 06d2373..930e72b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1179,7 +1179,7 @@ class CParser(object):
             if name in macros:
                 parts.append(line[: m.start(N)])
                 line = line[m.end(N) :]
-                parts.append(macros[name])
+                parts.append(self.set_apart("".join(parts[-2:]), macros[name], line))
 
             elif name in fnmacros:
                 # If function macro expansion fails, just ignore it.
@@ -1193,10 +1193,7 @@ class CParser(object):
 
                 parts.append(line[: m.start(N)])
                 line = end
-                parts.append(exp)
-                # What follows the call remains a token of its own
-                if re.match(r"\w\w", exp[-1:] + line[:1]):
-                    parts.append(" ")
+                parts.append(self.set_apart("".join(parts[-2:]), exp, line))
 
             else:
                 start = m.end()
@@ -1206,6 +1203,19 @@ class CParser(object):
         parts.append(line)
         return "".join(parts)
 
+    @staticmethod
+    def set_apart(before, exp, after):
+        """Add to an expansion the spaces needed for the tokens at its ends to
+        not merge with the ones around it.
+
+        """
+        merge = re.compile(r"\w\w|\+\+|--|&&|\|\||<<|>>").match
+        if merge(before[-1:] + exp[:1]):
+            exp = " " + exp
+        if merge(exp[-1:] + after[:1]):
+            exp += " "
+        return exp
+
     def expand_fn_macro(self, name, text):
         """Replace a function macro."""
         # defn looks like ('%s + %s / %s', (0, 0, 1))
@@ -1218,6 +1228,8 @@ class CParser(object):
             raise DefinitionError(0, mess.format(name, format_exc()))
 
         args = [self.expand_macros(arg) for arg in args]
+        # Operators at the ends of an argument do not merge with others
+        args = [re.sub(r"^(?=[-+&|<>])|(?<=[-+&|<>])$", " ", arg) for arg in args]
         new_str = defn[0].format(*[args[i] for i in defn[1]])
 
         return (new_str, end)
-- 
2.43.0


From 7af02ed28060d74d89554f02572c2e4f7062ed81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:07 +0000
Subject: [PATCH 34/57] fix: keep all the pointers in pointers to function
 pointers

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 5003ebd..40a52aa 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -272,7 +272,8 @@ class CTypesCLibrary(CLibrary):
                     for i in [0, 1]:
                         if len(mods) < 1:
                             break
-                        if mods[0] == "*":
+                        # Other pointers point to the function pointer
+                        if mods[0] == "*" and not is_ptr:
                             mods.pop(0)
                             is_ptr = True
                         elif mods[0] in ["__stdcall", "__cdecl"]:
-- 
2.43.0


From 0b01c8481bbfb5e85a8ccd742555914a875b66d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:19 +0000
Subject: [PATCH 35/57] fix: keep the definitions in force when copying a
 parser

The definitions of a copied parser were imported in the order in which its
files were first seen, so that a definition overridden in the parser (by a
file parsed again after having been copied) came back in the copy.
---
 pyclibrary/c_parser.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 930e72b..9622588 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -581,8 +581,10 @@ class CParser(object):
             if not isinstance(copy_from, (list, tuple)):
                 copy_from = [copy_from]
             for p in copy_from:
-                self.import_dict(p.file_defs)
-            self.init_opts["copy_from"] = deepcopy([p.file_defs for p in copy_from])
+                self.import_dict(p.file_defs, p.defs)
+            self.init_opts["copy_from"] = deepcopy(
+                [(p.file_defs, p.defs) for p in copy_from]
+            )
 
         if process_all:
             self.process_all(cache=cache, check_cache_validity=check_cache_validity)
@@ -733,10 +735,12 @@ class CParser(object):
             logger.exception("Warning--cache read failed:")
             return False
 
-    def import_dict(self, data):
+    def import_dict(self, data, defs=None):
         """Import definitions from a dictionary.
 
-        The dict format should be the same as CParser.file_defs.
+        The dict format should be the same as CParser.file_defs. The format of
+        defs should be the same as CParser.defs, it tells which definition of
+        a name is in force.
         Used internally; does not need to be called manually.
 
         """
@@ -745,6 +749,8 @@ class CParser(object):
             for k in self.data_list:
                 for n in data[f][k]:
                     self.add_def(k, n, data[f][k][n])
+        for k in defs or ():
+            self.defs[k].update(defs[k])
 
     def write_cache(self, cache_file):
         """Store all parsed declarations to cache. Used internally."""
-- 
2.43.0


From 9bf3169a8227c5a45880d7bb3a6fa80ee215f1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:19 +0000
Subject: [PATCH 36/57] fix: load exactly the cached definitions

Macros given to __init__ or copied and undefined by a header came back when
the definitions were loaded from the cache, and overridden definitions could
take the place of the ones in force.
---
 pyclibrary/c_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9622588..1f8aaf0 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -504,7 +504,8 @@ class CParser(object):
     #: old cache files.
     # 2 : add C99 integers
     # 3 : options include the encoding and the definitions copied
-    cache_version = 3
+    # 4 : definitions in force
+    cache_version = 4
 
     #: Private flag allowing to know if the parser has been initiliased.
     _init = False
@@ -727,8 +728,12 @@ class CParser(object):
                     logger.debug(mess)
                     return False
 
-            # Import all parse results
-            self.import_dict(cache["file_defs"])
+            # Import all parse results, which already take into account the
+            # definitions given to __init__ (some may have been removed).
+            if cache["opts"] == self.init_opts:
+                self.defs = {k: {} for k in self.data_list}
+                self.file_defs = {}
+            self.import_dict(cache["file_defs"], cache.get("defs"))
             return True
 
         except Exception:
@@ -757,6 +762,7 @@ class CParser(object):
         cache = {}
         cache["opts"] = self.init_opts
         cache["file_defs"] = self.file_defs
+        cache["defs"] = self.defs
         cache["version"] = self.cache_version
         import pickle
 
-- 
2.43.0


From aeeed1a805c0b5e890f347cb08f4d65b976c2e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:37 +0000
Subject: [PATCH 37/57] fix: do not keep the callers of the parser alive

The exceptions left in the packrat cache refer to the frames of all callers, so
that a library whose headers it had parsed itself stayed open after having been
discarded, and opening the file again gave the old one.
---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1f8aaf0..14d182c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -652,6 +652,9 @@ class CParser(object):
 
             results.append(self.parse_defs(f, return_unparsed))
 
+            # The exceptions stored in the cache keep all the callers alive.
+            ParserElement.resetCache()
+
         if cache is not None:
             logger.debug("Writing cache file '{}'".format(cache))
             self.write_cache(cache)
-- 
2.43.0


From ce938a889ae17f418339e868fe79a43d7c8a7b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:14 +0000
Subject: [PATCH 38/57] fix: return the same function object with and without
 prefix

lib("functions", "f") made a second object for a function found with a prefix,
unless it had been looked up by its whole name before.
---
 pyclibrary/c_library.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 2a11f61..e585b75 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -283,7 +283,9 @@ class CLibrary(object, metaclass=CLibraryMeta):
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-                return self._get_function(n)
+                # The same object is returned with and without prefix
+                objs[n] = self._get_function(n)
+                return objs[n]
             elif typ == "types":
                 obj = self._defs_[typ][n]
                 return self._get_type(obj)
-- 
2.43.0


From 9896ac3e33e07b9f2bd4b953b13720a46e9c98b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:14 +0000
Subject: [PATCH 39/57] fix: look only at typedefs of the requested kind

A typedef of something else hid the struct, union or enum found with a prefix,
and lib("structs", name) returned the struct with the tag of the union name
stands for.
---
 pyclibrary/c_library.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index e585b75..e6f353e 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -272,9 +272,7 @@ class CLibrary(object, metaclass=CLibraryMeta):
         objs = self._objs_[typ]
 
         for n in names:  # try with and without prefix
-            if n not in self._defs_[typ] and not (
-                typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
-            ):
+            if n not in self._defs_[typ] and not self._is_alias(typ, n):
                 continue
 
             if n in objs:
@@ -383,6 +381,14 @@ class CLibrary(object, metaclass=CLibraryMeta):
         """Build an array of the specified type and size."""
         raise NotImplementedError()
 
+    def _is_alias(self, typ, name):
+        """Tell whether a name is a typedef of a struct, union or enum."""
+        return (
+            typ in ["structs", "unions", "enums"]
+            and name in self._defs_["types"]
+            and self._headers_.eval_type([name])[0].startswith(typ[:-1] + " ")
+        )
+
     def _resolve_struct_alias(self, str_type, str_name):
         """Resolve struct name--typedef aliases."""
         if str_name not in self._defs_[str_type]:
-- 
2.43.0


From c7a982bd705be9adc8525ab80be01f0b0f93548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:03 +0000
Subject: [PATCH 40/57] fix: allow arguments named self in function calls

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index e6f353e..951ef54 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -432,7 +432,7 @@ class CFunction(object):
 
         self.lib._init_function(self)
 
-    def __call__(self, *args, **kwargs):
+    def __call__(self, /, *args, **kwargs):
         """Invoke the SO or dll function referenced, converting all arguments
         to the correct type.
 
-- 
2.43.0


From 27156e1a9a7140d98bae7ba540efad29197d491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 41/57] fix: record qualifiers starting with two underscores by
 their name

---
 pyclibrary/c_parser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 14d182c..1910c1b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -48,6 +48,7 @@ from pyparsing import (
     lineno,
     nestedExpr,
     oneOf,
+    originalTextFor,
     quotedString,
 )
 
@@ -2094,9 +2095,12 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         + "__"
         + Word(alphanums, alphanums + "_$")
         + WordEnd(wordchars)
-    ).setParseAction(lambda t: t[0])
+    )
+    # A declarator in parentheses, starting with a star, is no argument.
+    qualifier_args = Optional(~Regex(r"\(\s*\*") + originalTextFor(nestedExpr()))
     type_qualifier = ZeroOrMore(
-        (underscore_2_ident + Optional(nestedExpr())) | kwl(qualifiers)
+        (underscore_2_ident + qualifier_args).setParseAction(lambda t: "".join(t))
+        | kwl(qualifiers)
     )
 
     storage_class_spec = Optional(kwl(storage_classes))
-- 
2.43.0


From a8e1f5238068460bebcc87eaec96c8f2d3d2ccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:49 +0000
Subject: [PATCH 42/57] fix: skip the modifiers wherever a qualifier may be
 written

---
 pyclibrary/c_parser.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1910c1b..bdc76ce 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2098,20 +2098,20 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
     )
     # A declarator in parentheses, starting with a star, is no argument.
     qualifier_args = Optional(~Regex(r"\(\s*\*") + originalTextFor(nestedExpr()))
-    type_qualifier = ZeroOrMore(
-        (underscore_2_ident + qualifier_args).setParseAction(lambda t: "".join(t))
-        | kwl(qualifiers)
-    )
+    type_qualifier_item = (underscore_2_ident + qualifier_args).setParseAction(
+        lambda t: "".join(t)
+    ) | kwl(qualifiers)
 
     storage_class_spec = Optional(kwl(storage_classes))
 
     if extra_modifiers:
-        extra_modifier = ZeroOrMore(
-            kwl(extra_modifiers) + Optional(nestedExpr())
-        ).suppress()
+        extra_modifier = ZeroOrMore(kwl(extra_modifiers) + qualifier_args).suppress()
+        # The modifiers may be found wherever a qualifier may.
+        type_qualifier = extra_modifier + ZeroOrMore(type_qualifier_item + extra_modifier)
 
     else:
         extra_modifier = None
+        type_qualifier = ZeroOrMore(type_qualifier_item)
 
     # Language elements
     fund_type = OneOrMore(
-- 
2.43.0


From 5d63a4e3a99323b2521224eeb6fc08233cdd0ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:14 +0000
Subject: [PATCH 43/57] fix: let the types given to auto_init come before those
 of the platform

---
 pyclibrary/init.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index 3dd52c7..70ecf8f 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -75,7 +75,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
     extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
-        extra_types.update(WIN_TYPES)
+        # The types given by the user come first
+        extra_types = {**WIN_TYPES, **extra_types}
         extra_modifiers += WIN_MODIFIERS
 
     init(extra_types, extra_modifiers)
-- 
2.43.0


From 05e615569b722fa37bc48d04aba7a7bd7887af8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:57 +0000
Subject: [PATCH 44/57] fix: allow enumerators named self in descriptions of
 enums

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index bdc76ce..46614a6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -366,7 +366,7 @@ class Enum(dict):
 
     __slots__ = ()
 
-    def __init__(self, **args):
+    def __init__(self, /, **args):
         super(Enum, self).__init__(args)
 
     def __repr__(self):
-- 
2.43.0


From 374e8c8fd264be96e6805b2a98529f1d8e618731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:56 +0000
Subject: [PATCH 45/57] fix: make != the opposite of == for types compared with
 other objects

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 46614a6..bf0a94b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -174,7 +174,7 @@ class Type(tuple):
         return super(Type, self).__eq__(other)
 
     def __ne__(self, other):
-        return not self.__eq__(other)
+        return not self == other
 
     @property
     def declarators(self):
-- 
2.43.0


From 6e7876b900334efcf52bcaba3c966111b5c457b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:58 +0000
Subject: [PATCH 46/57] fix: make the repr of a packed struct without members
 an expression

---
 pyclibrary/c_parser.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index bf0a94b..fadc29b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -313,14 +313,10 @@ class Compound(dict):
         super(Compound, self).__init__({"members": members, "pack": pack})
 
     def __repr__(self):
-        packParam = ", pack=" + repr(self.pack) if self.pack is not None else ""
-        return (
-            type(self).__name__
-            + "("
-            + ", ".join(map(repr, self.members))
-            + packParam
-            + ")"
-        )
+        params = list(map(repr, self.members))
+        if self.pack is not None:
+            params.append("pack=" + repr(self.pack))
+        return type(self).__name__ + "(" + ", ".join(params) + ")"
 
     @property
     def members(self):
-- 
2.43.0


From 4281f0825795b44dcc5af92e8b50836188599492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 47/57] fix: accept several storage classes before a
 declaration

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fadc29b..a9d0e4d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -2098,7 +2098,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
         lambda t: "".join(t)
     ) | kwl(qualifiers)
 
-    storage_class_spec = Optional(kwl(storage_classes))
+    storage_class_spec = ZeroOrMore(kwl(storage_classes))
 
     if extra_modifiers:
         extra_modifier = ZeroOrMore(kwl(extra_modifiers) + qualifier_args).suppress()
-- 
2.43.0


From 2cf6cdaa933f87276f95abc33367803ccd9ed98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 48/57] fix: accept constants whose name is a keyword of Python

---
 pyclibrary/c_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a9d0e4d..21a098a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1795,7 +1795,9 @@ class CParser(object):
             lambda s, loc, t: re.match(r"\s*(\w+)", s[loc + 1 :])[1]
             not in self.defs["values"]
         )
-        expr = (quotedString | number | cast).transformString(expr).strip()
+        # Some names of C are keywords of Python; with an underscore none is.
+        word = Regex(r"\b[A-Za-z_]\w*\b(?![\"'])").setParseAction(lambda t: "_" + t[0])
+        expr = (quotedString | number | cast | word).transformString(expr).strip()
         if expr == "":
             return None
         val = eval_constant(ast.parse(expr, mode="eval").body, *args[1:])
@@ -1928,7 +1930,8 @@ def eval_constant(node, values):
     if isinstance(node, ast.Constant) and type(node.value) in (int, float, str):
         return node.value
     if isinstance(node, ast.Name):
-        return values[node.id]
+        # see CParser.eval
+        return values[node.id[1:]]
 
     if isinstance(node, ast.UnaryOp):
         op, operands = node.op, [node.operand]
-- 
2.43.0


From 630563d9a437437b79028042d9d805ae0d07f4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:52 +0000
Subject: [PATCH 49/57] fix: find no declarations in string literals and
 unknown blocks

The text of a literal and what stands in braces belonging to something the
parser does not understand (say, a variadic function definition or a struct
with an unsupported member) were scanned for declarations, so that local
variables and members were recorded as global variables.
---
 pyclibrary/c_parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 21a098a..a315505 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1290,11 +1290,17 @@ class CParser(object):
         self.current_file = path
 
         parser = self.build_parser()
+        # No declarations are to be found in string literals and inside of
+        # braces which belong to something that is not understood (except
+        # for linkage blocks).
+        linkage = originalTextFor(Keyword("extern") + quotedString + Literal("{"))
+        other = quotedString | linkage | originalTextFor(nestedExpr("{", "}"))
         if return_unparsed:
-            text = parser.suppress().transformString(self.files[path])
+            text = (parser.suppress() | other).transformString(self.files[path])
             return re.sub(r"\n\s*\n", "\n", text)
         else:
-            return [x[0] for x in parser.scanString(self.files[path])]
+            scanner = parser | other.suppress()
+            return [x[0] for x in scanner.scanString(self.files[path]) if x[0]]
 
     def build_parser(self):
         """Builds the entire tree of parser elements for the C language (the
-- 
2.43.0


From 66e506e8e30140de6eea31230627529e97289b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:11 +0000
Subject: [PATCH 50/57] fix: accept a comma after the last initialiser

The C standard allows it; such variables were not recorded.
---
 pyclibrary/c_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a315505..52bfc1a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1431,6 +1431,7 @@ class CParser(object):
                         | (
                             lbrace
                             + Group(delimitedList(expression))("array_values")
+                            + Optional(comma)
                             + rbrace
                         )
                     )
-- 
2.43.0


From d24e61571fccf29dcdcc0f1ba71b898647576f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:42 +0000
Subject: [PATCH 51/57] fix: accept Type objects in cast_to and build_array

They are documented to take a type object or a string.
---
 pyclibrary/backends/ctypes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 40a52aa..08ab212 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -61,6 +61,7 @@ if sys.version_info >= (3, 12):
     from ctypes import c_time_t
 
 from ..c_library import CLibrary
+from ..c_parser import Type
 from ..errors import DefinitionError
 from ..utils import find_library
 
@@ -415,14 +416,14 @@ class CTypesCLibrary(CLibrary):
     def _cast_to(self, obj, typ):
         """Cast an object to a new type (new type must be a pointer)."""
         if not isinstance(typ, type):
-            typ = self._get_type((typ,))
+            typ = self._get_type(typ if isinstance(typ, Type) else (typ,))
 
         return cast(obj, typ)
 
     def _get_array(self, typ, size, vals):
         """Build an array."""
         if not isinstance(typ, type):
-            typ = self._get_type((typ,))
+            typ = self._get_type(typ if isinstance(typ, Type) else (typ,))
 
         if not isinstance(size, tuple):
             size = (size,)
-- 
2.43.0


From a5fb01eeb42115e8ad55ef064050933ae245e984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 52/57] fix: the architecture of a library was taken from its
 file name

---
 pyclibrary/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index b29d896..77d3ded 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -207,8 +207,10 @@ def get_arch(filename):
     elif this_platform not in ("linux2", "linux3", "linux", "darwin"):
         raise OSError("")
 
-    out = check_output(["file", filename], stderr=subprocess.STDOUT)
-    out = out.decode("ascii")
+    # The answer may not contain the name of the file, which can be anything.
+    with io.open(filename, "rb") as fp:
+        out = check_output(["file", "-"], stdin=fp, stderr=subprocess.STDOUT)
+    out = out.decode("ascii", "replace")
     ret = []
     if this_platform.startswith("linux"):
         if "32-bit" in out:
-- 
2.43.0


From b096cea718d415fe1b5b94558fffc74f96c936e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 53/57] fix: the headers of Windows libraries were read with
 the layout of this machine

---
 pyclibrary/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 77d3ded..43274bb 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -264,7 +264,7 @@ def get_shared_library_arch(filename):
         dos_headers = fp.read(64)
         fp.read(4)
 
-        magic, _skip, offset = struct.unpack(str("2s58sl"), dos_headers)
+        magic, _skip, offset = struct.unpack(str("<2s58sl"), dos_headers)
 
         if magic != b"MZ":
             raise Exception("Not an executable")
@@ -272,7 +272,7 @@ def get_shared_library_arch(filename):
         fp.seek(offset, io.SEEK_SET)
         pe_header = fp.read(6)
 
-        sig, _skip, machine = struct.unpack(str("2s2sH"), pe_header)
+        sig, _skip, machine = struct.unpack(str("<2s2sH"), pe_header)
 
         if sig != b"PE":
             raise Exception("Not a PE executable")
-- 
2.43.0


From 7255a5a5fbaaf1a9f6afbadb06d669d19edb53f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 54/57] fix: the name of a library looked up with gcc was run
 by the shell

---
 pyclibrary/thirdparty/find_library.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/thirdparty/find_library.py b/pyclibrary/thirdparty/find_library.py
index 1687c14..339a361 100644
--- a/pyclibrary/thirdparty/find_library.py
+++ b/pyclibrary/thirdparty/find_library.py
@@ -13,6 +13,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
     def define_find_libary():
         import errno
         import re
+        import shlex
         import tempfile
 
         def _findlib_gcc(name):
@@ -21,7 +22,7 @@ if os.name == "posix" and sys.platform.startswith("linux"):
             os.close(fdout)
             cmd = (
                 "if type gcc >/dev/null 2>&1; then CC=gcc; else CC=cc; fi;"
-                "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + name
+                "$CC -Wl,-t -o " + ccout + " 2>&1 -l" + shlex.quote(name)
             )
             trace = ""
             try:
-- 
2.43.0


From 830148685d8aa2243dccb56c684965cef8b2e611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 55/57] fix: find_text failed when a header file was missing

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 52bfc1a..647d75a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1876,7 +1876,8 @@ class CParser(object):
         """Search all file strings for text, return matching lines."""
         res = []
         for f in self.files:
-            lines = self.files[f].split("\n")
+            # the text of a missing file is None
+            lines = (self.files[f] or "").split("\n")
             for i, line in enumerate(lines):
                 if text in line:
                     res.append((f, i, line))
-- 
2.43.0


From e070e51315bb2a4a1fa332d79657f036b6b1548d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:21 +0000
Subject: [PATCH 56/57] fix: the message for a wrong call failed for functions
 returning function or array pointers

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 951ef54..9a2d971 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -533,7 +533,7 @@ class CFunction(object):
 
     def pretty_signature(self):
         args = (
-            "".join(self.sig[0]),
+            "".join(str(d) for d in self.sig[0]),
             self.name,
             ", ".join(["{} {}".format(s[1], s[0]) for s in self.sig[1]]),
         )
-- 
2.43.0


From 283aac10d7f7014a6ae024c4bb918c4f4e6cb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:47 +0000
Subject: [PATCH 57/57] fix: pack records named push or pop were not found

---
 pyclibrary/c_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 647d75a..8568bd5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1051,8 +1051,9 @@ class CParser(object):
                         opts = [s.strip() for s in m.groups()[0].split(",")]
 
                     pushpop = id = val = None
-                    for o in opts:
-                        if o in ["push", "pop"]:
+                    for j, o in enumerate(opts):
+                        # elsewhere these words are names of records
+                        if j == 0 and o in ["push", "pop"]:
                             pushpop = o
                         elif o.isdigit():
                             val = int(o)
-- 
2.43.0

