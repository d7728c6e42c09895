From 7bfad8c95913ae0be3a75a4121723afb39a6fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 01/48] fix: options of one direction's decorator no longer
 depend on which direction was prepared first

---
 serde/de.py | 7 +++++++
 serde/se.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 7c651d1..c64c80e 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -300,6 +300,13 @@ def deserialize(
                 skip_if_none_default=skip_if_none,
             )
             setattr(cls, SERDE_SCOPE, scope)
+        else:
+            # The scope was created for the other direction. The options of this decorator
+            # must apply to the code generated here, whichever direction came first.
+            scope.reuse_instances_default = reuse_instances_default
+            scope.convert_sets_default = convert_sets_default
+            scope.skip_if_default_default = skip_if_default
+            scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_deserializers: list[ClassDeserializer] = list(
diff --git a/serde/se.py b/serde/se.py
index c3a0e18..c479a30 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -260,6 +260,13 @@ def serialize(
                 skip_if_none_default=skip_if_none,
             )
             setattr(cls, SERDE_SCOPE, scope)
+        else:
+            # The scope was created for the other direction. The options of this decorator
+            # must apply to the code generated here, whichever direction came first.
+            scope.reuse_instances_default = reuse_instances_default
+            scope.convert_sets_default = convert_sets_default
+            scope.skip_if_default_default = skip_if_default
+            scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_serializers: list[ClassSerializer] = list(
-- 
2.43.0


From 235c56cdad72d3771340dde17200d813ddcef6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 02/48] fix: convert the elements of a variable length tuple
 passed directly

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index c64c80e..a81666c 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -597,8 +597,10 @@ def from_obj(
             else:
                 res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
-            if is_bare_tuple(c) or is_variable_tuple(c):
+            if is_bare_tuple(c):
                 res = tuple(e for e in o)
+            elif is_variable_tuple(c):
+                res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
                 res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
         elif is_dict(c):
-- 
2.43.0


From 015102eaacbe23759c7f57ba23f724f29b029561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 03/48] fix: unions passed directly are cached per order of
 their members

---
 serde/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dfea224..2c28e0a 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -94,6 +94,8 @@ SETTINGS = {"debug": False}
 class UnionCacheKey:
     union: Hashable
     tagging: Tagging
+    # Unions compare equal regardless of the order of their members, but the order matters.
+    members: str
 
 
 def init(debug: bool = False) -> None:
@@ -179,7 +181,7 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, tagging=tagging, members=repr(union_cls))
         wrapper = self.classes.get(cache_key)
         return wrapper or self._generate_union_class(cls)
 
@@ -191,7 +193,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union=union_cls, tagging=tagging, members=repr(union_cls))
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
-- 
2.43.0


From de31633da59f7900a1aa70116ab78b4662b49872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 04/48] fix: deserialize int and str enums that are members of
 a union

---
 serde/de.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index a81666c..3c601a1 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1484,7 +1484,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if is_primitive(t) or is_none(t) %}
+    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
@@ -1698,6 +1698,7 @@ def render_union_func(
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
         is_primitive=is_primitive,
+        is_enum=is_enum,
         is_none=is_none,
         typename=typename,
     )
-- 
2.43.0


From 6625814d5863ce325d962cd91068132e439fb53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 05/48] fix: a value is an instance of a literal type only if
 it is listed

---
 serde/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 2c28e0a..6d79140 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -400,7 +400,7 @@ def is_instance(obj: Any, typ: Any) -> bool:
     elif is_generic(typ):
         return is_generic_instance(obj, typ)
     elif is_literal(typ):
-        return True
+        return any(isinstance(obj, type(v)) and obj == v for v in type_args(typ))
     elif is_new_type_primitive(typ):
         inner = getattr(typ, "__supertype__", None)
         if type(inner) is type:
-- 
2.43.0


From b121f050368c64b8644a33d019a6e3fa84a6ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 06/48] fix: to_tuple uses the tuple form for objects in fields
 of type variable type

---
 serde/se.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index c479a30..87510dc 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -978,7 +978,9 @@ class Renderer:
         elif is_none(arg.type):
             res = "None"
         elif is_any(arg.type) or is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
-            res = f"to_obj({arg.varname}, True, False, False, skip_none, typing.Any)"
+            res = (
+                f"to_obj({arg.varname}, {self.func == TO_DICT}, False, False, skip_none, typing.Any)"
+            )
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
             assert origin
-- 
2.43.0


From 7898cbefe8591e5c94c20eb45b51f6bf68a60cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 07/48] fix: serialize enums, and keys of dicts, passed
 directly or without declared type

---
 serde/se.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 87510dc..20012fa 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -7,6 +7,7 @@ from __future__ import annotations
 import abc
 import copy
 import dataclasses
+import enum
 import functools
 import typing
 import itertools
@@ -450,13 +451,24 @@ def to_obj(
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return tuple(thisfunc(e) for e in o)
         elif isinstance(o, Mapping):
-            return {k: thisfunc(v) for k, v in o.items()}
+            return {
+                (
+                    thisfunc(k)
+                    if isinstance(k, enum.Enum)
+                    or is_str_serializable_instance(k)
+                    or is_datetime_instance(k)
+                    else k
+                ): thisfunc(v)
+                for k, v in o.items()
+            }
         elif isinstance(o, Set):
             return [thisfunc(e) for e in o]
         elif isinstance(o, deque):
             return [thisfunc(e) for e in o]
         elif isinstance(o, Counter):
             return dict(o)
+        elif isinstance(o, enum.Enum):
+            return enum_value(type(o), o)
         elif is_str_serializable_instance(o) or is_datetime_instance(o):
             se_cls = o.__class__ if not c or c is Any else c
             return CACHE.serialize(
-- 
2.43.0


From e5f235ca0ff0da67eb98d397c72fc026ccdb0537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 08/48] fix: deserialize a literal type passed directly

---
 serde/de.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 3c601a1..ccfddce 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -631,6 +631,10 @@ def from_obj(
             res = deserialize_numbers(o) if deserialize_numbers else c(o)
         elif is_any(c) or is_ellipsis(c):
             res = o
+        elif is_literal(c):
+            if not is_instance(o, c):
+                raise SerdeError(f"Can not deserialize {o!r} as {typename(c)}.")
+            res = o
         else:
             res = cast(Any, c)(o)
 
-- 
2.43.0


From e59ba65aad132b3c1199c9d419e53600353789d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 09/48] fix: escape user supplied names and tags in the
 generated code

---
 serde/core.py | 11 +++++++++++
 serde/de.py   | 50 ++++++++++++++++++++++++++------------------------
 serde/se.py   | 15 ++++++++-------
 3 files changed, 45 insertions(+), 31 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 6d79140..6747b3f 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -927,6 +927,17 @@ def conv(f: Field[Any], case: str | None = None) -> str:
     return name
 
 
+def quote(text: str) -> str:
+    """
+    Render `text` as a double quoted string literal of the generated code.
+
+    >>> print(quote("foo"), quote('a"b'))
+    "foo" "a\\"b"
+    """
+    # The leading double quote makes `repr` use single quotes and leave double quotes alone.
+    return '"' + repr('"' + text)[2:-1].replace('"', '\\"') + '"'
+
+
 def union_func_name(prefix: str, union_args: Sequence[Any]) -> str:
     """
     Generate a function name that contains all union types
diff --git a/serde/de.py b/serde/de.py
index ccfddce..5c049bf 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -91,6 +91,7 @@ from .core import (
     is_instance,
     literal_func_name,
     logger,
+    quote,
     union_func_name,
 )
 
@@ -856,9 +857,9 @@ class DeField(Field[T]):
         if self.iterbased:
             return f"{self.datavar}[{self.index}]"
         elif is_union(self.type) and type(None) in get_args(self.type):
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return f"{self.datavar}.get({quote(self.conv_name())})"
         else:
-            return f'{self.datavar}["{self.conv_name()}"]'
+            return f"{self.datavar}[{quote(self.conv_name())}]"
 
     @data.setter
     def data(self, d: str) -> None:
@@ -868,7 +869,7 @@ class DeField(Field[T]):
         if self.iterbased:
             return self.data
         else:
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return f"{self.datavar}.get({quote(self.conv_name())})"
 
 
 @dataclass
@@ -1090,10 +1091,10 @@ class Renderer:
         else:
             name = arg.conv_name()
             if arg.alias:
-                aliases = (f'"{s}"' for s in [name, *arg.alias])
+                aliases = (quote(s) for s in [name, *arg.alias])
                 get = f"_get_by_aliases(data, [{','.join(aliases)}], raise_error=False)"
             else:
-                get = f'{arg.datavar}.get("{name}")'
+                get = f"{arg.datavar}.get({quote(name)})"
             exists = f"{get} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
@@ -1206,7 +1207,7 @@ class Renderer:
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
         dat = arg.data
         if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
+            aliases = (quote(s) for s in [arg.name, *arg.alias])
             dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         return f"deserialize_enum({typename(arg.type)}, {dat})"
 
@@ -1219,24 +1220,22 @@ class Renderer:
         typ = typename(arg.type)
         dat = arg.data
         if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
+            aliases = (quote(s) for s in [arg.name, *arg.alias])
             dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
             else:
                 assert arg.name
-                escaped_arg_name = arg.name.replace('"', '\\"')
                 return (
                     f"deserialize_numbers({dat}) if deserialize_numbers else "
-                    f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
+                    f'coerce_object("{self.class_name}", {quote(arg.name)}, {typ}, {dat})'
                 )
         if self.suppress_coerce and suppress_coerce:
             return dat
         else:
             assert arg.name
-            escaped_arg_name = arg.name.replace('"', '\\"')
-            return f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
+            return f'coerce_object("{self.class_name}", {quote(arg.name)}, {typ}, {dat})'
 
     def c_tor(self, arg: DeField[Any]) -> str:
         return f"{typename(arg.type)}({arg.data})"
@@ -1272,7 +1271,7 @@ class Renderer:
         """
 
         def get_aliased_fields(arg: Field[Any]) -> Iterator[str]:
-            return (f'"{s}"' for s in [arg.name, *arg.alias])
+            return (quote(s) for s in [arg.name, *arg.alias])
 
         if arg.flatten:
             # When a field has the `flatten` attribute, iterate over its dataclass fields.
@@ -1290,7 +1289,7 @@ class Renderer:
                 aliases = get_aliased_fields(arg)
                 exists = f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])"
             else:
-                exists = f'"{arg.conv_name()}" in {arg.datavar}'
+                exists = f"{quote(arg.conv_name())} in {arg.datavar}"
 
         if has_default(arg):
             return f'({code}) if {exists} else serde_scope.defaults["{arg.name}"]'
@@ -1416,7 +1415,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     __{{f.name}} = {{rvalue(field_arg)}}
   except KeyError:
     raise SerdeError(
-      "missing required field '{{field_arg.conv_name()}}' while deserializing {{class_name}}"
+      {{quote("missing required field '" ~ field_arg.conv_name() ~ "' while deserializing " ~ class_name)}}
     )
   {% endif %}
   {% endif %}
@@ -1474,15 +1473,15 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data["{{typename(t)}}"]}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
+    ensure({{quote(tagging.tag)}} in data , {{quote("'" ~ tagging.tag ~ "' key is not present")}})
+    ensure("{{typename(t)}}" == data[{{quote(tagging.tag)}}], "tag '{{typename(t)}}' isn't found")
     fake_dict = {"fake_key": data}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{tagging.content}}" in data , "'{{tagging.content}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data["{{tagging.content}}"]}
+    ensure({{quote(tagging.tag)}} in data , {{quote("'" ~ tagging.tag ~ "' key is not present")}})
+    ensure({{quote(tagging.content)}} in data , {{quote("'" ~ tagging.content ~ "' key is not present")}})
+    ensure("{{typename(t)}}" == data[{{quote(tagging.tag)}}], "tag '{{typename(t)}}' isn't found")
+    fake_dict = {"fake_key": data[{{quote(tagging.content)}}]}
 
     {% else %}
     fake_dict = {"fake_key": data}
@@ -1493,13 +1492,13 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
+    ensure(is_bearable(res, {{typename(t)}}), {{quote("object is not of type '" ~ typename(t) ~ "'")}})
     return res
   except Exception as e:
-    errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
+    errors.append({{quote(" Failed to deserialize into " ~ typename(t) ~ ": ")}} + str(e))
   {% endfor %}
   raise SerdeError("Can not deserialize " + repr(data) + " of type " + \
-          typename(type(data)) + " into {{union_name}}.\\nReasons:\\n" + "\\n".join(errors))
+          typename(type(data)) + {{quote(" into " ~ union_name)}} + ".\\nReasons:\\n" + "\\n".join(errors))
 """,
             "literal": """
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
@@ -1507,7 +1506,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
              deserialize_numbers=None):
   if data in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
     return data
-  raise SerdeError("Can not deserialize " + repr(data) + " as {{literal_name}}.")
+  raise SerdeError("Can not deserialize " + repr(data) + {{quote(" as " ~ literal_name ~ ".")}})
   """,
         }
     )
@@ -1672,6 +1671,7 @@ def render_from_dict(
             cls_type_vars=get_type_var_names(cls),
             class_name=typename(cls),
             rvalue=renderer.render,
+            quote=quote,
             arg=functools.partial(to_arg, rename_all=rename_all),
             deny_unknown_fields=deny_unknown_fields,
             known_fields=known_fields,
@@ -1705,6 +1705,7 @@ def render_union_func(
         is_enum=is_enum,
         is_none=is_none,
         typename=typename,
+        quote=quote,
     )
 
 
@@ -1720,5 +1721,6 @@ def render_literal_func(
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
         repr=repr,
+        quote=quote,
         type=type,
     )
diff --git a/serde/se.py b/serde/se.py
index 20012fa..40e65b2 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -86,6 +86,7 @@ from .core import (
     fields,
     is_instance,
     logger,
+    quote,
     union_func_name,
     GLOBAL_CLASS_SERIALIZER,
 )
@@ -758,12 +759,12 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
 
     {% elif tagging.is_internal() and is_taggable(t) %}
     res = {{rvalue(arg(t))}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
+    res[{{quote(tagging.tag)}}] = "{{typename(t)}}"
     return res
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    res = {"{{tagging.content}}": {{rvalue(arg(t))}}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
+    res = { {{quote(tagging.content)}}: {{rvalue(arg(t))}}}
+    res[{{quote(tagging.tag)}}] = "{{typename(t)}}"
     return res
 
     {% else %}
@@ -774,7 +775,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
                    repr(obj) + \
                    " of type " + \
                    typename(type(obj)) + \
-                   " for {{union_name}}")
+                   {{quote(" for " ~ union_name)}})
 """,
         }
     )
@@ -876,6 +877,7 @@ def render_union_func(
         arg=lambda x: SeField(x, "obj"),
         rvalue=renderer.render,
         typename=typename,
+        quote=quote,
     )
 
 
@@ -902,7 +904,7 @@ class LRenderer:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
-        return f'res["{arg.conv_name(self.case)}"]'
+        return f"res[{quote(arg.conv_name(self.case))}]"
 
     def flatten(self, arg: SeField[Any]) -> str:
         """
@@ -1148,8 +1150,7 @@ class Renderer:
             return var
         else:
             assert arg.name
-            escaped_arg_name = arg.name.replace('"', '\\"')
-            return f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {var})'
+            return f'coerce_object("{self.class_name}", {quote(arg.name)}, {typ}, {var})'
 
     def string(self, arg: SeField[Any]) -> str:
         return f"str({arg.varname})"
-- 
2.43.0


From 889fc365c5072bef871cf99f33490b6d3b46e34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:52 +0000
Subject: [PATCH 10/48] fix: generated code refers to types by object, not by
 name (classes with equal or reserved names)

---
 serde/core.py | 22 +++++++++++++++++++++
 serde/de.py   | 55 ++++++++++++++++++++++-----------------------------
 serde/se.py   | 18 +++++++++--------
 3 files changed, 56 insertions(+), 39 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 6747b3f..8865d1c 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -25,6 +25,7 @@ from typing import (
 )
 
 from .compat import (
+    PRIMITIVES,
     T,
     SerdeError,
     dataclass_fields,
@@ -272,6 +273,9 @@ class Scope:
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
+    types: list[Any] = dataclasses.field(default_factory=list)
+    """ Types referred to by the generated code, see `type_ref` """
+
     reuse_instances_default: bool = True
     """ Default values for to_dict & from_dict arguments """
 
@@ -927,6 +931,24 @@ def conv(f: Field[Any], case: str | None = None) -> str:
     return name
 
 
+def type_ref(scope: Scope | None, typ: Any) -> str:
+    """
+    Render a reference to a type in the generated code.
+
+    Types other than primitives are referred to by object, because their names are neither unique
+    nor free of conflicts with the names used in the generated code.
+    """
+    while hasattr(typ, "__supertype__"):
+        typ = typ.__supertype__
+    if scope is None or typ in PRIMITIVES:
+        return typename(typ)
+    for i, known in enumerate(scope.types):
+        if known is typ:
+            return f"serde_scope.types[{i}]"
+    scope.types.append(typ)
+    return f"serde_scope.types[{len(scope.types) - 1}]"
+
+
 def quote(text: str) -> str:
     """
     Render `text` as a double quoted string literal of the generated code.
diff --git a/serde/de.py b/serde/de.py
index 5c049bf..85d9eb5 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -92,6 +92,7 @@ from .core import (
     literal_func_name,
     logger,
     quote,
+    type_ref,
     union_func_name,
 )
 
@@ -353,17 +354,6 @@ def deserialize(
                 # configuration for generating the deserialization function.
                 deserialize(typ)
 
-            # We don't want to add primitive class e.g "str" into the scope, but primitive
-            # compatible types such as IntEnum and a subclass of primitives are added,
-            # so that generated code can use those types.
-            if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
-                continue
-
-            if is_generic(typ):
-                g[typename(typ)] = get_origin(typ)
-            else:
-                g[typename(typ)] = typ
-
         # render all union functions
         for union in iter_unions(cls):
             union_args = type_args(union)
@@ -934,7 +924,7 @@ class Renderer:
         if custom_deserializer_available and not arg.deserializer:
             res = (
                 f"class_deserializers[{implemented_methods[arg.type]}].deserialize("
-                f"{typename(arg.type)}, {arg.data})"
+                f"{self.type_ref(arg.type)}, {arg.data})"
             )
         elif arg.deserializer and arg.deserializer.inner is not default_deserializer:
             res = self.custom_field_deserializer(arg)
@@ -982,8 +972,9 @@ class Renderer:
         elif is_str_serializable(arg.type):
             res = f"({self.c_tor_with_check(arg)}) if reuse_instances else {self.c_tor(arg)}"
         elif is_datetime(arg.type):
-            from_iso = f"{typename(arg.type)}.fromisoformat({arg.data})"
-            res = f"({arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {from_iso}) \
+            typ = self.type_ref(arg.type)
+            from_iso = f"{typ}.fromisoformat({arg.data})"
+            res = f"({arg.data} if isinstance({arg.data}, {typ}) else {from_iso}) \
                     if reuse_instances else {from_iso}"
         elif is_none(arg.type):
             res = "None"
@@ -1024,6 +1015,12 @@ class Renderer:
         else:
             return res
 
+    def type_ref(self, typ: Any) -> str:
+        """
+        Render a reference to the type.
+        """
+        return type_ref(getattr(self.cls, SERDE_SCOPE, None), typ)
+
     def custom_field_deserializer(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for the field with custom deserializer.
@@ -1039,7 +1036,7 @@ class Renderer:
         # The function takes a closure in order to execute the default value lazily.
         return (
             "serde_legacy_custom_class_deserializer("
-            f"{typename(arg.type)}, "
+            f"{self.type_ref(arg.type)}, "
             f"{arg.datavar}, "
             f"{arg.data_or()}, "
             f"default=lambda: {code})"
@@ -1069,7 +1066,7 @@ class Renderer:
         if arg.is_self_referencing():
             class_name = "cls"
         else:
-            class_name = typename(arg.type)
+            class_name = self.type_ref(arg.type)
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
@@ -1165,14 +1162,9 @@ class Renderer:
         elif is_default_dict(arg.type):
             k = arg.key_field()
             v = arg.value_field()
-            origin = get_origin(v.type)
-            if origin:
-                # When the callable type is of generic type e.g list.
-                # Get origin type "list" from "list[X]".
-                callable = origin.__name__
-            else:
-                # When the callable type is non generic type e.g int, Foo.
-                callable = v.type.__name__
+            # When the callable type is of generic type e.g list, get origin type "list" from
+            # "list[X]". Otherwise the callable is the type itself e.g int, Foo.
+            callable = self.type_ref(get_origin(v.type) or v.type)
             return f"collections.defaultdict({callable}, \
                     {{{self.dict_key(k)}: {self.render(v)} for k, v in {arg.data}.items()}})"
         else:
@@ -1197,7 +1189,7 @@ class Renderer:
             and not issubclass(typ, bool)
             and not is_enum(typ)
         ):
-            return f'coerce_object("{self.class_name}", "k", {typename(typ)}, {arg.data})'
+            return f'coerce_object("{self.class_name}", "k", {self.type_ref(typ)}, {arg.data})'
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
@@ -1209,7 +1201,7 @@ class Renderer:
         if arg.alias:
             aliases = (quote(s) for s in [arg.name, *arg.alias])
             dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
-        return f"deserialize_enum({typename(arg.type)}, {dat})"
+        return f"deserialize_enum({self.type_ref(arg.type)}, {dat})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1217,7 +1209,7 @@ class Renderer:
 
         * `suppress_coerce`: Overrides "suppress_coerce" in the Renderer's field
         """
-        typ = typename(arg.type)
+        typ = self.type_ref(arg.type)
         dat = arg.data
         if arg.alias:
             aliases = (quote(s) for s in [arg.name, *arg.alias])
@@ -1238,12 +1230,12 @@ class Renderer:
             return f'coerce_object("{self.class_name}", {quote(arg.name)}, {typ}, {dat})'
 
     def c_tor(self, arg: DeField[Any]) -> str:
-        return f"{typename(arg.type)}({arg.data})"
+        return f"{self.type_ref(arg.type)}({arg.data})"
 
     def c_tor_with_check(self, arg: DeField[Any], ctor: str | None = None) -> str:
         if ctor is None:
             ctor = self.c_tor(arg)
-        return f"{arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {ctor}"
+        return f"{arg.data} if isinstance({arg.data}, {self.type_ref(arg.type)}) else {ctor}"
 
     def union_func(self, arg: DeField[Any]) -> str:
         func_name = union_func_name(UNION_DE_PREFIX, type_args(arg.type))
@@ -1488,11 +1480,11 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% endif %}
 
     {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
-    if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
+    if not isinstance(fake_dict["fake_key"], {{type_ref(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{typename(t)}}), {{quote("object is not of type '" ~ typename(t) ~ "'")}})
+    ensure(is_bearable(res, {{type_ref(t)}}), {{quote("object is not of type '" ~ typename(t) ~ "'")}})
     return res
   except Exception as e:
     errors.append({{quote(" Failed to deserialize into " ~ typename(t) ~ ": ")}} + str(e))
@@ -1704,6 +1696,7 @@ def render_union_func(
         is_primitive=is_primitive,
         is_enum=is_enum,
         is_none=is_none,
+        type_ref=renderer.type_ref,
         typename=typename,
         quote=quote,
     )
diff --git a/serde/se.py b/serde/se.py
index 40e65b2..27cf9b8 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -87,6 +87,7 @@ from .core import (
     is_instance,
     logger,
     quote,
+    type_ref,
     union_func_name,
     GLOBAL_CLASS_SERIALIZER,
 )
@@ -305,10 +306,6 @@ def serialize(
                 # configuration for generating the serialization function.
                 serialize(typ)
 
-            if is_primitive(typ) and not is_enum(typ):
-                continue
-            g[typename(typ)] = typ
-
         # render all union functions
         for union in iter_unions(cls):
             union_args = list(type_args(union))
@@ -796,6 +793,7 @@ def render_to_tuple(
         serialize_class_var=serialize_class_var,
         class_serializer=class_serializer,
         class_name=typename(cls),
+        scope=getattr(cls, SERDE_SCOPE),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     if serde_scope.transparent:
@@ -833,6 +831,7 @@ def render_to_dict(
         suppress_coerce=(not type_check.is_coerce()),
         class_serializer=class_serializer,
         class_name=typename(cls),
+        scope=getattr(cls, SERDE_SCOPE),
     )
     lrenderer = LRenderer(case, serialize_class_var)
     serde_scope = getattr(cls, SERDE_SCOPE)
@@ -866,7 +865,9 @@ def render_union_func(
     Render function that serializes a field with union type.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
-    renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls))
+    renderer = Renderer(
+        TO_DICT, suppress_coerce=True, class_name=typename(cls), scope=getattr(cls, SERDE_SCOPE)
+    )
     return jinja2_env.get_template("union").render(
         func=union_func_name(UNION_SE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
@@ -929,6 +930,7 @@ class Renderer:
     serialize_class_var: bool = False
     class_serializer: ClassSerializer | None = None
     class_name: str | None = None
+    scope: Scope | None = None
 
     def render(self, arg: SeField[Any]) -> str:
         """
@@ -1014,7 +1016,7 @@ class Renderer:
         if self.legacy_class_serializer and not arg.serializer and not custom_serializer_available:
             return (
                 "serde_legacy_custom_class_serializer("
-                f"{typename(arg.type)}, "
+                f"{type_ref(self.scope, arg.type)}, "
                 f"{arg.varname}, "
                 f"default=lambda: {res})"
             )
@@ -1138,13 +1140,13 @@ class Renderer:
             return f"{{{self.render(karg)}: {self.render(varg)} for k, v in {arg.varname}.items()}}"
 
     def enum(self, arg: SeField[Any]) -> str:
-        return f"enum_value({typename(arg.type)}, {arg.varname})"
+        return f"enum_value({type_ref(self.scope, arg.type)}, {arg.varname})"
 
     def primitive(self, arg: SeField[Any]) -> str:
         """
         Render rvalue for primitives.
         """
-        typ = typename(arg.type)
+        typ = type_ref(self.scope, arg.type)
         var = arg.varname
         if self.suppress_coerce:
             return var
-- 
2.43.0


From dc8a2371b94b3fba20a585c680aaf4fb3aca7fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:14 +0000
Subject: [PATCH 11/48] fix: pass keyword-only fields by keyword, and read the
 tuple form at the positions it was written

---
 serde/de.py | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 85d9eb5..a283d5a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1313,6 +1313,18 @@ def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
 
+def force_kw_only(fields: list[DeField[Any]]) -> None:
+    """
+    Pass all the fields following a field which is not passed, or is passed by keyword, by keyword.
+    """
+    force_kw = False
+    for field in fields:
+        if not renderable(field) or field.kw_only or (field.skip or field.skip_serializing):
+            force_kw = True
+        if force_kw:
+            field.kw_only = True
+
+
 jinja2_env = jinja2.Environment(
     loader=jinja2.DictLoader(
         {
@@ -1325,13 +1337,17 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f,loop.index-1))}}
+  __{{f.name}} = {{rvalue(arg(f,indices[f.name]))}}
   {% endfor %}
 
   try:
     return cls(
       {% for f in fields %}
+      {% if f.kw_only %}
+      {{f.name}}=__{{f.name}},
+      {% else %}
       __{{f.name}},
+      {% endif %}
       {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1520,7 +1536,9 @@ def render_from_iter(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    fields = list(filter(renderable, defields(cls)))
+    all_fields = defields(cls)
+    force_kw_only(all_fields)
+    fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
@@ -1534,10 +1552,16 @@ def render_from_iter(
             rvalue=renderer.render,
         )
     else:
+        # Fields take the values from the positions at which `to_tuple` puts them.
+        indices: dict[str | None, int] = {}
+        for field in all_fields:
+            if not (field.skip or field.skip_serializing):
+                indices[field.name] = len(indices)
         res = jinja2_env.get_template("iter").render(
             func=FROM_ITER,
             serde_scope=serde_scope,
-            fields=fields,
+            fields=[f for f in fields if f.name in indices],
+            indices=indices,
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
@@ -1619,12 +1643,7 @@ def render_from_dict(
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = defields(cls)
-    force_kw = False
-    for field in all_fields:
-        if not renderable(field):
-            force_kw = True
-        if force_kw:
-            field.kw_only = True
+    force_kw_only(all_fields)
     fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename="__serde_transparent__", case=None)
-- 
2.43.0


From 1bfacbbf9abe5aac8c4553fec00db60ebeb56c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 12/48] fix: None as a type argument means the type of None

---
 serde/compat.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serde/compat.py b/serde/compat.py
index d87e7d1..c5c69e1 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -286,6 +286,9 @@ def type_args(typ: Any) -> tuple[type[Any], ...]:
     # Some typing objects expose __args__ as a member_descriptor (e.g. typing.Union),
     # which isn't iterable. Fall back to typing.get_args in that case.
     if isinstance(args, tuple):
+        # "None" means the type of None, unless it is a value listed in a literal.
+        if any(arg is None for arg in args) and typing.get_origin(typ) is not Literal:
+            return tuple(type(None) if arg is None else arg for arg in args)
         return args
     return get_args(typ)
 
-- 
2.43.0


From 2defbd09b2268d0808a36b44165345b88f9ef2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 13/48] fix: find literals within type aliases

---
 serde/compat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/compat.py b/serde/compat.py
index c5c69e1..144fb53 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -469,6 +469,8 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
+        elif is_pep695_type_alias(cls):
+            recursive(cls.__value__)
         if is_dataclass(cls):
             stack.append(cls)
             if isinstance(cls, type):
-- 
2.43.0


From 675ffb0e521c6d66e7310b85f35c47f0124ce9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 14/48] fix: functions generated for different unions or
 literals do not share a name

---
 serde/core.py | 24 ++++++++++++++++++++++--
 serde/de.py   | 26 ++++++++++++++++++++------
 serde/se.py   | 11 +++++++++--
 3 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 8865d1c..e237086 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -210,7 +210,9 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
+        union_args = list(type_args(union_cls))
+        func_name = union_func_name(UNION_SE_PREFIX, union_args)
+        func_name = scoped_func_name(scope, func_name, union_args)
         return scope.funcs[func_name](obj, False, False)
 
     def deserialize_union(
@@ -225,7 +227,9 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_DE_PREFIX, list(type_args(union_cls)))
+        union_args = list(type_args(union_cls))
+        func_name = union_func_name(UNION_DE_PREFIX, union_args)
+        func_name = scoped_func_name(scope, func_name, union_args)
         return cast(
             T,
             scope.funcs[func_name](
@@ -273,6 +277,9 @@ class Scope:
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
+    func_args: dict[str, list[Any]] = dataclasses.field(default_factory=dict)
+    """ Type arguments of the union and literal functions, by the name made from them """
+
     types: list[Any] = dataclasses.field(default_factory=list)
     """ Types referred to by the generated code, see `type_ref` """
 
@@ -991,6 +998,19 @@ def literal_func_name(literal_args: Sequence[Any]) -> str:
     )
 
 
+def scoped_func_name(scope: Scope, name: str, args: Sequence[Any]) -> str:
+    """
+    Make the name of a union or literal function unique in the scope. Names consist of letters,
+    digits and underscores only, so that different type arguments can end up in the same name.
+    """
+    key = [(type(arg), repr(arg), arg) for arg in args]
+    known = scope.func_args.setdefault(name, [])
+    if key not in known:
+        known.append(key)
+    index = known.index(key)
+    return f"{name}__{index}" if index else name
+
+
 @dataclass(frozen=True)
 class Tagging:
     """
diff --git a/serde/de.py b/serde/de.py
index a283d5a..d315fe7 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -92,6 +92,7 @@ from .core import (
     literal_func_name,
     logger,
     quote,
+    scoped_func_name,
     type_ref,
     union_func_name,
 )
@@ -357,9 +358,10 @@ def deserialize(
         # render all union functions
         for union in iter_unions(cls):
             union_args = type_args(union)
+            union_name = union_func_name(UNION_DE_PREFIX, union_args)
             add_func(
                 scope,
-                union_func_name(UNION_DE_PREFIX, union_args),
+                scoped_func_name(scope, union_name, union_args),
                 render_union_func(cls, union_args, tagging),
                 g,
             )
@@ -367,8 +369,12 @@ def deserialize(
         # render literal functions
         for literal in iter_literals(cls):
             literal_args = type_args(literal)
+            literal_name = literal_func_name(literal_args)
             add_func(
-                scope, literal_func_name(literal_args), render_literal_func(cls, literal_args), g
+                scope,
+                scoped_func_name(scope, literal_name, literal_args),
+                render_literal_func(cls, literal_args),
+                g,
             )
 
         # Collect default values and default factories used in the generated code.
@@ -1238,7 +1244,9 @@ class Renderer:
         return f"{arg.data} if isinstance({arg.data}, {self.type_ref(arg.type)}) else {ctor}"
 
     def union_func(self, arg: DeField[Any]) -> str:
-        func_name = union_func_name(UNION_DE_PREFIX, type_args(arg.type))
+        union_args = type_args(arg.type)
+        func_name = union_func_name(UNION_DE_PREFIX, union_args)
+        func_name = scoped_func_name(getattr(self.cls, SERDE_SCOPE), func_name, union_args)
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1248,7 +1256,9 @@ class Renderer:
         )
 
     def literal(self, arg: DeField[Any]) -> str:
-        func_name = literal_func_name(type_args(arg.type))
+        literal_args = type_args(arg.type)
+        func_name = literal_func_name(literal_args)
+        func_name = scoped_func_name(getattr(self.cls, SERDE_SCOPE), func_name, literal_args)
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1704,7 +1714,9 @@ def render_union_func(
 
     renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_DE_PREFIX, union_args),
+        func=scoped_func_name(
+            getattr(cls, SERDE_SCOPE), union_func_name(UNION_DE_PREFIX, union_args), union_args
+        ),
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -1726,7 +1738,9 @@ def render_literal_func(
 ) -> str:
     literal_name = f"Literal[{', '.join([repr(a) for a in literal_args])}]"
     return jinja2_env.get_template("literal").render(
-        func=literal_func_name(literal_args),
+        func=scoped_func_name(
+            getattr(cls, SERDE_SCOPE), literal_func_name(literal_args), literal_args
+        ),
         serde_scope=getattr(cls, SERDE_SCOPE),
         literal_args=literal_args,
         literal_name=literal_name,
diff --git a/serde/se.py b/serde/se.py
index 27cf9b8..00cad7e 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -87,6 +87,7 @@ from .core import (
     is_instance,
     logger,
     quote,
+    scoped_func_name,
     type_ref,
     union_func_name,
     GLOBAL_CLASS_SERIALIZER,
@@ -310,6 +311,7 @@ def serialize(
         for union in iter_unions(cls):
             union_args = list(type_args(union))
             union_key = union_func_name(UNION_SE_PREFIX, union_args)
+            union_key = scoped_func_name(scope, union_key, union_args)
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
             scope.union_se_args[union_key] = union_args
 
@@ -869,7 +871,9 @@ def render_union_func(
         TO_DICT, suppress_coerce=True, class_name=typename(cls), scope=getattr(cls, SERDE_SCOPE)
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_SE_PREFIX, union_args),
+        func=scoped_func_name(
+            getattr(cls, SERDE_SCOPE), union_func_name(UNION_SE_PREFIX, union_args), union_args
+        ),
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -1158,7 +1162,10 @@ class Renderer:
         return f"str({arg.varname})"
 
     def union_func(self, arg: SeField[Any]) -> str:
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(arg.type)))
+        union_args = list(type_args(arg.type))
+        func_name = union_func_name(UNION_SE_PREFIX, union_args)
+        assert self.scope
+        func_name = scoped_func_name(self.scope, func_name, union_args)
         return (
             f"serde_scope.funcs['{func_name}']({arg.varname}, "
             "reuse_instances, convert_sets, skip_none)"
-- 
2.43.0


From 9f758428c05238dcf895b90080d0b019f73386f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:05 +0000
Subject: [PATCH 15/48] fix: prepare literals that list the same values in
 another order

---
 serde/compat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 144fb53..c8c9b35 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -457,7 +457,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
     """
     Iterate over all literals that are used in the dataclass
     """
-    lst: set[Union[type[Any], Any]] = set()
+    lst: list[TypeLike] = []  # Literals compare equal regardless of the order of their values
     stack: list[TypeLike] = []  # To prevent infinite recursion
 
     def recursive(cls: Union[type[Any], Any]) -> None:
@@ -465,7 +465,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
             return
 
         if is_literal(cls):
-            lst.add(cls)
+            lst.append(cls)
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
@@ -496,7 +496,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
                 recursive(args[1])
 
     recursive(cls)
-    return list(lst)
+    return lst
 
 
 @cache
-- 
2.43.0


From 6479bf679f76ffdf024796009ee394854d36997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 16/48] fix: a plain dataclass derived from a serde class has
 fields of its own

---
 serde/core.py | 7 +++++++
 serde/de.py   | 7 +++++++
 serde/se.py   | 3 +++
 3 files changed, 17 insertions(+)

diff --git a/serde/core.py b/serde/core.py
index e237086..0f53068 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -365,6 +365,13 @@ def gen(
     return code
 
 
+def inherits_scope(cls: type[Any]) -> bool:
+    """
+    Test if a dataclass has fields of its own but only the scope of a base class.
+    """
+    return "__dataclass_fields__" in cls.__dict__ and SERDE_SCOPE not in cls.__dict__
+
+
 def add_func(serde_scope: Scope, func_name: str, func_code: str, globals: dict[str, Any]) -> None:
     """
     Generate a function and add it to a Scope's `funcs` dictionary.
diff --git a/serde/de.py b/serde/de.py
index d315fe7..e1c0962 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -89,6 +89,7 @@ from .core import (
     ensure,
     fields,
     is_instance,
+    inherits_scope,
     literal_func_name,
     logger,
     quote,
@@ -447,6 +448,8 @@ def is_dataclass_without_de(cls: type[Any]) -> bool:
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
     if not scope:
         return True
+    if isinstance(cls, type) and inherits_scope(cls):
+        return True
     return FROM_DICT not in scope.funcs
 
 
@@ -1073,6 +1076,10 @@ class Renderer:
             class_name = "cls"
         else:
             class_name = self.type_ref(arg.type)
+            scope: Scope | None = getattr(arg.type, SERDE_SCOPE, None)
+            if scope and scope.cls is not arg.type:
+                # The class uses the functions generated for its base class.
+                opts = f"cls={class_name}, {opts}"
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
diff --git a/serde/se.py b/serde/se.py
index 00cad7e..f299d0b 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -84,6 +84,7 @@ from .core import (
     get_transparent_field,
     strict,
     fields,
+    inherits_scope,
     is_instance,
     logger,
     quote,
@@ -376,6 +377,8 @@ def is_dataclass_without_se(cls: type[Any]) -> bool:
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
     if not scope:
         return True
+    if inherits_scope(cls if isinstance(cls, type) else type(cls)):
+        return True
     return TO_DICT not in scope.funcs
 
 
-- 
2.43.0


From df48d1a1a6369c662cc396237f69487f9e6b1510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 17/48] fix: sequences in unions do not accept strings and
 mappings, and options reach unions passed directly

---
 serde/core.py | 21 ++++++++++++++++++---
 serde/de.py   | 18 +++++++++++++++++-
 serde/se.py   |  8 +++++++-
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 0f53068..32b18a4 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -203,7 +203,14 @@ class Cache:
         self.classes[cache_key] = wrapper
         return wrapper
 
-    def serialize_union(self, cls: type[Any], obj: Any) -> Any:
+    def serialize_union(
+        self,
+        cls: type[Any],
+        obj: Any,
+        reuse_instances: bool | None = None,
+        convert_sets: bool | None = None,
+        skip_none: bool = False,
+    ) -> Any:
         """
         Serialize the specified Union into dict or tuple.
         """
@@ -213,13 +220,16 @@ class Cache:
         union_args = list(type_args(union_cls))
         func_name = union_func_name(UNION_SE_PREFIX, union_args)
         func_name = scoped_func_name(scope, func_name, union_args)
-        return scope.funcs[func_name](obj, False, False)
+        return scope.funcs[func_name](
+            obj, bool(reuse_instances), bool(convert_sets), skip_none=skip_none
+        )
 
     def deserialize_union(
         self,
         cls: type[T],
         data: Any,
         deserialize_numbers: Callable[[str | int], float] | None = None,
+        reuse_instances: bool | None = None,
     ) -> T:
         """
         Deserialize from dict or tuple into the specified Union.
@@ -233,7 +243,12 @@ class Cache:
         return cast(
             T,
             scope.funcs[func_name](
-                cls=union_cls, data=data, deserialize_numbers=deserialize_numbers
+                cls=union_cls,
+                data=data,
+                reuse_instances=(
+                    scope.reuse_instances_default if reuse_instances is None else reuse_instances
+                ),
+                deserialize_numbers=deserialize_numbers,
             ),
         )
 
diff --git a/serde/de.py b/serde/de.py
index e1c0962..5e5f4af 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -543,7 +543,9 @@ def from_obj(
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to deserialize into the object.
-        return CACHE.deserialize_union(c, o, deserialize_numbers=deserialize_numbers)
+        return CACHE.deserialize_union(
+            c, o, deserialize_numbers=deserialize_numbers, reuse_instances=reuse_instances
+        )
 
     if is_generic(c):
         # Store subscripted generic type such as Foo[Bar] in "maybe_generic",
@@ -1515,6 +1517,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{type_ref(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
+    {% elif is_sequence(t) %}
+    if isinstance(fake_dict["fake_key"], (str, bytes, dict)):
+        raise Exception({{quote("Not a type of " ~ typename(t))}})
     {% endif %}
     res = {{rvalue(arg(t))}}
     ensure(is_bearable(res, {{type_ref(t)}}), {{quote("object is not of type '" ~ typename(t) ~ "'")}})
@@ -1734,12 +1739,23 @@ def render_union_func(
         is_primitive=is_primitive,
         is_enum=is_enum,
         is_none=is_none,
+        is_sequence=is_sequence,
         type_ref=renderer.type_ref,
         typename=typename,
         quote=quote,
     )
 
 
+def is_sequence(typ: Any) -> bool:
+    """
+    Test if the type is deserialized from a sequence. Strings and mappings are iterable as well,
+    but they are not the data of such a member of a union.
+    """
+    if is_pep695_type_alias(typ):
+        return is_sequence(typ.__value__)
+    return is_list(typ) or is_set(typ) or is_deque(typ) or is_tuple(typ)
+
+
 def render_literal_func(
     cls: type[Any], literal_args: Sequence[Any], tagging: Tagging = DefaultTagging
 ) -> str:
diff --git a/serde/se.py b/serde/se.py
index f299d0b..d841564 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -434,7 +434,13 @@ def to_obj(
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to serialize the object.
         if c and is_union(c) and not is_opt(c):
-            return CACHE.serialize_union(c, o)
+            return CACHE.serialize_union(
+                c,
+                o,
+                reuse_instances=reuse_instances,
+                convert_sets=convert_sets,
+                skip_none=skip_none,
+            )
 
         if o is None:
             return None
-- 
2.43.0


From 85403c526a8da17a879a8caa3830bc12a1fc76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 18/48] fix: None as a type argument means the type of None
 (import)

---
 serde/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index c8c9b35..40ceb92 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -287,7 +287,7 @@ def type_args(typ: Any) -> tuple[type[Any], ...]:
     # which isn't iterable. Fall back to typing.get_args in that case.
     if isinstance(args, tuple):
         # "None" means the type of None, unless it is a value listed in a literal.
-        if any(arg is None for arg in args) and typing.get_origin(typ) is not Literal:
+        if any(arg is None for arg in args) and typing.get_origin(typ) is not typing.Literal:
             return tuple(type(None) if arg is None else arg for arg in args)
         return args
     return get_args(typ)
-- 
2.43.0


From e9e57e79f3abb66a618a7194c89138a71ddbaa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:55 +0000
Subject: [PATCH 19/48] fix: a dataclass with class variables is not made a
 dataclass a second time

---
 serde/core.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 32b18a4..b06300c 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1171,11 +1171,9 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
     if not annotations:
         return False
 
-    field_names = [field.name for field in dataclass_fields(cls)]
-    for field_name, annotation in annotations.items():
-        # Omit InitVar field because it doesn't appear in dataclass fields.
-        if is_instance(annotation, dataclasses.InitVar):
-            continue
+    # InitVar and ClassVar don't appear in dataclass fields, but dataclass has a record of them.
+    field_names = getattr(cls, "__dataclass_fields__")
+    for field_name in annotations:
         # This field in __annotations__ is not a part of dataclass fields.
         # This means this class does not implement dataclass directly.
         if field_name not in field_names:
-- 
2.43.0


From 322d37f17b14e7ac98b3e26f9637c6030781bee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 20/48] fix: aliases apply to fields of every type, and to the
 field only

---
 serde/de.py | 57 +++++++++++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 5e5f4af..2f17b46 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -17,7 +17,7 @@ from beartype import beartype, BeartypeConf
 from beartype.door import is_bearable
 from beartype.roar import BeartypeCallHintParamViolation
 from dataclasses import dataclass, is_dataclass
-from typing import Any, Generic, Iterator, Literal, TypeVar, cast, overload
+from typing import Any, Generic, Literal, TypeVar, cast, overload
 from typing_extensions import dataclass_transform
 
 from .compat import (
@@ -154,15 +154,12 @@ def default_deserializer(_cls: type[Any], obj: Any) -> Any:
 
 
 def _get_by_aliases(d: dict[str, str], aliases: list[str], raise_error: bool = True) -> str | None:
-    if not aliases:
-        if raise_error:
-            raise KeyError("Tried all aliases, but key not found")
-        else:
-            return None
-    if aliases[0] in d:
-        return d[aliases[0]]
-    else:
-        return _get_by_aliases(d, aliases[1:], raise_error=raise_error)
+    for alias in aliases:
+        if alias in d:
+            return d[alias]
+    if raise_error:
+        raise KeyError(aliases[0])
+    return None
 
 
 def _exists_by_aliases(d: dict[str, str], aliases: list[str]) -> bool:
@@ -857,6 +854,9 @@ class DeField(Field[T]):
 
         if self.iterbased:
             return f"{self.datavar}[{self.index}]"
+        elif self.alias:
+            optional = is_union(self.type) and type(None) in get_args(self.type)
+            return self.data_by_aliases(raise_error=not optional)
         elif is_union(self.type) and type(None) in get_args(self.type):
             return f"{self.datavar}.get({quote(self.conv_name())})"
         else:
@@ -869,9 +869,20 @@ class DeField(Field[T]):
     def data_or(self) -> str:
         if self.iterbased:
             return self.data
+        elif self.alias:
+            return self.data_by_aliases(raise_error=False)
         else:
             return f"{self.datavar}.get({quote(self.conv_name())})"
 
+    def keys(self) -> str:
+        """
+        Renders the list of the keys the field is read from, in order of precedence.
+        """
+        return f"[{', '.join(quote(s) for s in [self.conv_name(), *self.alias])}]"
+
+    def data_by_aliases(self, raise_error: bool) -> str:
+        return f"_get_by_aliases({self.datavar}, {self.keys()}, raise_error={raise_error})"
+
 
 @dataclass
 class InnerField(DeField[T]):
@@ -1101,13 +1112,7 @@ class Renderer:
                 ]
             )
         else:
-            name = arg.conv_name()
-            if arg.alias:
-                aliases = (quote(s) for s in [name, *arg.alias])
-                get = f"_get_by_aliases(data, [{','.join(aliases)}], raise_error=False)"
-            else:
-                get = f"{arg.datavar}.get({quote(name)})"
-            exists = f"{get} is not None"
+            exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
     def list(self, arg: DeField[Any]) -> str:
@@ -1212,11 +1217,7 @@ class Renderer:
         # member itself. Coercing the value beforehand (e.g. via ``coerce_object``)
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
-        dat = arg.data
-        if arg.alias:
-            aliases = (quote(s) for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
-        return f"deserialize_enum({self.type_ref(arg.type)}, {dat})"
+        return f"deserialize_enum({self.type_ref(arg.type)}, {arg.data})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1226,9 +1227,6 @@ class Renderer:
         """
         typ = self.type_ref(arg.type)
         dat = arg.data
-        if arg.alias:
-            aliases = (quote(s) for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
@@ -1281,24 +1279,19 @@ class Renderer:
         Renders supplying default value during deserialization.
         """
 
-        def get_aliased_fields(arg: Field[Any]) -> Iterator[str]:
-            return (quote(s) for s in [arg.name, *arg.alias])
-
         if arg.flatten:
             # When a field has the `flatten` attribute, iterate over its dataclass fields.
             # This ensures that the code checks keys in the data while considering aliases.
             flattened = []
             for subarg in defields(arg.type):
                 if subarg.alias:
-                    aliases = get_aliased_fields(subarg)
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])")
+                    flattened.append(f"_exists_by_aliases({arg.datavar}, {subarg.keys()})")
                 else:
                     flattened.append(f'"{subarg.name}" in {arg.datavar}')
             exists = " and ".join(flattened)
         else:
             if arg.alias:
-                aliases = get_aliased_fields(arg)
-                exists = f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])"
+                exists = f"_exists_by_aliases({arg.datavar}, {arg.keys()})"
             else:
                 exists = f"{quote(arg.conv_name())} in {arg.datavar}"
 
-- 
2.43.0


From 2812e57c9d042f23d5b6764843d0757be9893f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:08 +0000
Subject: [PATCH 21/48] fix: number coercion keeps subclasses of float and
 reaches new types of float

---
 serde/de.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 2f17b46..28b2239 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1227,15 +1227,9 @@ class Renderer:
         """
         typ = self.type_ref(arg.type)
         dat = arg.data
-        if isinstance(arg.type, type) and issubclass(arg.type, float):
-            if self.suppress_coerce and suppress_coerce:
-                return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
-            else:
-                assert arg.name
-                return (
-                    f"deserialize_numbers({dat}) if deserialize_numbers else "
-                    f'coerce_object("{self.class_name}", {quote(arg.name)}, {typ}, {dat})'
-                )
+        supertype = getattr(arg.type, "__supertype__", arg.type)  # of NewType
+        if isinstance(supertype, type) and issubclass(supertype, float):
+            dat = f"(deserialize_numbers({dat}) if deserialize_numbers else {dat})"
         if self.suppress_coerce and suppress_coerce:
             return dat
         else:
-- 
2.43.0


From b112ed1d67cf92d9b7e613554066da2fad0c03b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 22/48] fix: numeric keys of counters survive formats that turn
 keys into strings

---
 serde/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 28b2239..1ce7dab 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1154,7 +1154,7 @@ class Renderer:
             k = arg[0]
             k.name = "k"
             k.datavar = "k"
-            return f"collections.Counter({{{self.render(k)}: v for k, v in {arg.data}.items()}})"
+            return f"collections.Counter({{{self.dict_key(k)}: v for k, v in {arg.data}.items()}})"
 
     def tuple(self, arg: DeField[Any]) -> str:
         """
-- 
2.43.0


From f3c0909cfef2c64be4cf8b011d4e3b33c26b9f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:44 +0000
Subject: [PATCH 23/48] fix: skip_none of to_pickle and to_msgpack takes effect

---
 serde/msgpack.py | 5 ++++-
 serde/pickle.py  | 9 ++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index 22bab81..49921ca 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -50,6 +50,7 @@ def to_msgpack(
     ext_dict: dict[type[Any], int] | None = None,
     reuse_instances: bool = False,
     convert_sets: bool = True,
+    skip_none: bool = False,
     **opts: Any,
 ) -> bytes:
     """
@@ -77,7 +78,9 @@ def to_msgpack(
             raise SerdeError(f"Could not find type code for {obj_type.__name__} in ext_dict")
 
     kwargs: Any = {"c": cls, "reuse_instances": reuse_instances, "convert_sets": convert_sets}
-    dict_or_tuple = to_dict(obj, **kwargs) if named else to_tuple(obj, **kwargs)
+    dict_or_tuple = (
+        to_dict(obj, skip_none=skip_none, **kwargs) if named else to_tuple(obj, **kwargs)
+    )
     return se.serialize(
         dict_or_tuple,
         ext_type_code=ext_type_code,
diff --git a/serde/pickle.py b/serde/pickle.py
index b48fb08..4a505ac 100644
--- a/serde/pickle.py
+++ b/serde/pickle.py
@@ -34,7 +34,14 @@ def to_pickle(
     **opts: Any,
 ) -> bytes:
     return se.serialize(
-        to_dict(obj, c=cls, reuse_instances=reuse_instances, convert_sets=convert_sets), **opts
+        to_dict(
+            obj,
+            c=cls,
+            reuse_instances=reuse_instances,
+            convert_sets=convert_sets,
+            skip_none=skip_none,
+        ),
+        **opts,
     )
 
 
-- 
2.43.0


From f71ba7fc085efa6d2bf659df37d8d59f7aa56a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 24/48] fix: a field is skipped if any of its conditions holds,
 comparing the value itself with None and the default

---
 serde/core.py | 48 ++++++++++++++++++++----------------------------
 serde/se.py   |  8 +-------
 2 files changed, 21 insertions(+), 35 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index b06300c..323ec6f 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -583,8 +583,8 @@ class Func:
     mangeld: str = ""
     """ Mangled function name """
 
-    def __call__(self, v: Any) -> None:
-        return self.inner(v)  # type: ignore
+    def __call__(self, *args: Any) -> Any:
+        return self.inner(*args)
 
     @property
     def name(self) -> str:
@@ -606,19 +606,7 @@ def skip_if_default(v: Any, default: Any | None = None) -> Any:
     if isinstance(default, dataclasses._MISSING_TYPE):
         return False
 
-    serialized_default = default
-
-    # Align the comparison with how serde serializes defaults so nested dataclasses
-    # with class-level skip_if_default are handled correctly.
-    if dataclasses.is_dataclass(default) and not isinstance(default, type):
-        try:
-            from .se import to_dict as serde_to_dict
-
-            serialized_default = serde_to_dict(default)
-        except Exception:
-            serialized_default = dataclasses.asdict(default)
-
-    return v == serialized_default  # Why return type is deduced to be Any?
+    return v == default
 
 
 @dataclass
@@ -730,19 +718,23 @@ class Field(Generic[T]):
         """
         Create `Field` object from `dataclasses.Field`.
         """
-        skip_if_false_func: Func | None = None
+        # Conditions on the serialized value and on the value itself to skip the field.
+        conditions: list[Callable[[Any, Any], Any]] = []
+
+        skip_if_func = f.metadata.get("serde_skip_if")
+        if callable(skip_if_func):
+            conditions.append(lambda serialized, value: skip_if_func(serialized))
+
         if f.metadata.get("serde_skip_if_false"):
-            skip_if_false_func = Func(skip_if_false, cls.mangle(f, "skip_if_false"))
+            conditions.append(lambda serialized, value: skip_if_false(serialized))
 
-        skip_if_none_func: Func | None = None
         skip_if_none_flag = f.metadata.get("serde_skip_if_none")
         if skip_if_none_flag is None:
             skip_if_none_flag = skip_if_none_default
 
         if skip_if_none_flag:
-            skip_if_none_func = Func(skip_if_none, cls.mangle(f, "skip_if_none"))
+            conditions.append(lambda serialized, value: skip_if_none(value))
 
-        skip_if_default_func: Func | None = None
         skip_if_default_flag = f.metadata.get("serde_skip_if_default")
         if skip_if_default_flag is None:
             skip_if_default_flag = skip_if_default_default
@@ -754,16 +746,16 @@ class Field(Generic[T]):
             elif not isinstance(f.default_factory, dataclasses._MISSING_TYPE):
                 default_value = f.default_factory()
             else:
-                default_value = dataclasses._MISSING_TYPE
+                default_value = dataclasses.MISSING
 
-            skip_if_def = functools.partial(skip_if_default, default=default_value)
-            skip_if_default_func = Func(skip_if_def, cls.mangle(f, "skip_if_default"))
+            conditions.append(lambda serialized, value: skip_if_default(value, default_value))
 
         skip_if: Func | None = None
-        if f.metadata.get("serde_skip_if"):
-            func = f.metadata.get("serde_skip_if")
-            if callable(func):
-                skip_if = Func(func, cls.mangle(f, "skip_if"))
+        if conditions:
+            skip_if = Func(
+                lambda serialized, value: any(cond(serialized, value) for cond in conditions),
+                cls.mangle(f, "skip_if"),
+            )
 
         serializer: Func | None = None
         func = f.metadata.get("serde_serializer")
@@ -820,7 +812,7 @@ class Field(Generic[T]):
             skip_deserializing=skip_deserializing,
             skip_if_default=skip_if_default_flag,
             skip_if_none=skip_if_none_flag,
-            skip_if=skip_if or skip_if_false_func or skip_if_default_func or skip_if_none_func,
+            skip_if=skip_if,
             serializer=serializer,
             deserializer=deserializer,
             flatten=flatten,
diff --git a/serde/se.py b/serde/se.py
index d841564..a14874f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -696,14 +696,8 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
-  {% elif f.skip_if -%}
-  if not {{f.skip_if.name}}(subres):
-    {{lvalue(f)}} = subres
   {% else -%}
-  if skip_none:
-    if subres is not None:
-      {{lvalue(f)}} = subres
-  else:
+  if not ({% if f.skip_if %}{{f.skip_if.name}}(subres, {{f.varname}}) or {% endif %}skip_none and subres is None):
     {{lvalue(f)}} = subres
   {% endif -%}
   {% endif %}
-- 
2.43.0


From 695cf71ee42203626f4905511e165b6bdba68263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:04 +0000
Subject: [PATCH 25/48] fix: flattened classes are written and read by their
 own functions, names and skip rules

---
 serde/core.py | 31 ++++++++++++++++++
 serde/de.py   | 80 +++++++++++++++++++++++++++++---------------
 serde/se.py   | 91 ++++++++++++++++++++++++++++-----------------------
 3 files changed, 135 insertions(+), 67 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 323ec6f..2699756 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -280,6 +280,15 @@ class Scope:
     defaults: dict[str, Callable[..., Any] | Any] = dataclasses.field(default_factory=dict)
     """ Default values of the dataclass fields (factories & normal values) """
 
+    se_keys: set[str] = dataclasses.field(default_factory=set)
+    """ Keys written by the generated to_dict function """
+
+    se_has_flatten_dict: bool = False
+    """ True when generated to_dict or a flattened child writes the entries of a flattened dict """
+
+    de_required_keys: list[list[str]] = dataclasses.field(default_factory=list)
+    """ Keys (and aliases) of the fields the generated from_dict function requires """
+
     de_known_fields: set[str] = dataclasses.field(default_factory=set)
     """ Field names accepted by the generated from_dict function """
 
@@ -896,6 +905,28 @@ def fields(
     return fields  # type: ignore
 
 
+def flattened_class(f: Field[Any]) -> type[Any] | None:
+    """
+    Get the class of a flattened dataclass field.
+    """
+    if not f.flatten:
+        return None
+    typ = type_args(f.type)[0] if is_opt(f.type) else f.type
+    return typ if isinstance(typ, type) and dataclasses.is_dataclass(typ) else None
+
+
+def tuple_length(cls: type[Any]) -> int:
+    """
+    Get the number of values in the tuple form of the class.
+    """
+    length = 0
+    for f in fields(Field, cls):
+        if not (f.skip or f.skip_serializing):
+            child = flattened_class(f)
+            length += tuple_length(child) if child else 1
+    return length
+
+
 def get_transparent_field(cls: type[Any]) -> Field[Any]:
     """
     Return the single "transparent" field for `cls`.
diff --git a/serde/de.py b/serde/de.py
index 1ce7dab..caf2434 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -96,6 +96,8 @@ from .core import (
     scoped_func_name,
     type_ref,
     union_func_name,
+    flattened_class,
+    tuple_length,
 )
 
 # Lazy numpy imports to improve startup time
@@ -169,6 +171,18 @@ def _exists_by_aliases(d: dict[str, str], aliases: list[str]) -> bool:
     return False
 
 
+def _flattened_exists(
+    data: dict[str, Any], keys: set[str], required_keys: list[list[str]]
+) -> bool:
+    """
+    Test if the object of a flattened dataclass is present in the input map, which is when all
+    the fields it requires are, and at least one of its fields is.
+    """
+    return any(key in data for key in keys) and all(
+        _exists_by_aliases(data, names) for names in required_keys
+    )
+
+
 def _project_flattened_data(
     data: dict[str, Any] | None,
     child_known_fields: set[str],
@@ -334,6 +348,7 @@ def deserialize(
         g["coerce_object"] = coerce_object
         g["deserialize_enum"] = deserialize_enum
         g["_exists_by_aliases"] = _exists_by_aliases
+        g["_flattened_exists"] = _flattened_exists
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
         g["class_deserializers"] = class_deserializers
@@ -1096,21 +1111,29 @@ class Renderer:
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
+    def flattened_exists(self, arg: DeField[Any]) -> str:
+        """
+        Render the test for the presence of the object of a flattened dataclass.
+        """
+        child = arg[0].type if is_opt(arg.type) else arg.type
+        scope: Scope = getattr(child, SERDE_SCOPE)
+        return (
+            f"_flattened_exists({arg.datavar}, {scope.de_known_fields or '()'}, "
+            f"{scope.de_required_keys})"
+        )
+
     def opt(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for Optional.
         """
         inner = arg[0]
-        if arg.iterbased or isinstance(arg, InnerField):
+        if arg.flatten and arg.iterbased and is_dataclass(inner.type):
+            end = arg.index + tuple_length(inner.type)
+            exists = f"any(v is not None for v in {arg.datavar}[{arg.index}:{end}])"
+        elif arg.iterbased or isinstance(arg, InnerField):
             exists = f"{arg.data} is not None"
-        elif arg.flatten:
-            # Check nullabilities of all nested fields.
-            exists = " and ".join(
-                [
-                    f'{arg.datavar}.get("{f.name}") is not None'
-                    for f in dataclasses.fields(inner.type)
-                ]
-            )
+        elif arg.flatten and is_dataclass(inner.type):
+            exists = self.flattened_exists(arg)
         else:
             exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
@@ -1274,15 +1297,7 @@ class Renderer:
         """
 
         if arg.flatten:
-            # When a field has the `flatten` attribute, iterate over its dataclass fields.
-            # This ensures that the code checks keys in the data while considering aliases.
-            flattened = []
-            for subarg in defields(arg.type):
-                if subarg.alias:
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, {subarg.keys()})")
-                else:
-                    flattened.append(f'"{subarg.name}" in {arg.datavar}')
-            exists = " and ".join(flattened)
+            exists = self.flattened_exists(arg)
         else:
             if arg.alias:
                 exists = f"_exists_by_aliases({arg.datavar}, {arg.keys()})"
@@ -1401,24 +1416,24 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% if has_flatten_dict %}
-  __flatten_known_fields = {{ known_fields }}
-  __flatten_extra = {k: v for k, v in (data or {}).items() if k not in __flatten_known_fields}
+  flatten_known_fields = {{ known_fields or '()' }}
+  flatten_extra = {k: v for k, v in (data or {}).items() if k not in flatten_known_fields}
   {% endif %}
 
   {% for f in fields %}
   {% if f.flatten and is_flatten_dict(f.type) %}
-  __{{f.name}} = __flatten_extra
+  __{{f.name}} = dict(flatten_extra)
   {% else %}
   {% set child_scope = flattened_dataclass_child_scopes.get(f.name) %}
   {% if child_scope %}
-  __{{f.name}}_flatten_data = _project_flattened_data(
+  flatten_data_{{f.name}} = _project_flattened_data(
     data,
-    {{ child_scope.de_known_fields }},
-    {{ known_fields }},
+    {{ child_scope.de_known_fields or '()' }},
+    {{ known_fields or '()' }},
     {{ child_scope.de_has_flatten_dict }},
     {{ has_flatten_dict }},
   )
-  {% set field_arg = arg(f,loop.index-1, datavar="__" ~ f.name ~ "_flatten_data") %}
+  {% set field_arg = arg(f,loop.index-1, datavar="flatten_data_" ~ f.name) %}
   {% else %}
   {% set field_arg = arg(f,loop.index-1) %}
   {% endif %}
@@ -1563,9 +1578,12 @@ def render_from_iter(
     else:
         # Fields take the values from the positions at which `to_tuple` puts them.
         indices: dict[str | None, int] = {}
+        index = 0
         for field in all_fields:
             if not (field.skip or field.skip_serializing):
-                indices[field.name] = len(indices)
+                indices[field.name] = index
+                child = flattened_class(field)
+                index += tuple_length(child) if child else 1
         res = jinja2_env.get_template("iter").render(
             func=FROM_ITER,
             serde_scope=serde_scope,
@@ -1682,6 +1700,16 @@ def render_from_dict(
         known_fields = _collect_known_fields(all_fields, rename_all, exclude_flatten_dict=True)
         serde_scope.de_known_fields = known_fields
         serde_scope.de_has_flatten_dict = has_flatten_dict_transitively
+        serde_scope.de_required_keys = []
+        for f in fields:
+            if has_default(f) or has_default_factory(f) or is_opt(f.type):
+                continue
+            if f.flatten:
+                if f.name in flattened_dataclass_child_scopes:
+                    child_scope = flattened_dataclass_child_scopes[f.name]
+                    serde_scope.de_required_keys += child_scope.de_required_keys
+            else:
+                serde_scope.de_required_keys.append(get_known_fields(f, rename_all))
 
         res = jinja2_env.get_template("dict").render(
             func=FROM_DICT,
diff --git a/serde/se.py b/serde/se.py
index a14874f..b5cd5e2 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -92,6 +92,8 @@ from .core import (
     type_ref,
     union_func_name,
     GLOBAL_CLASS_SERIALIZER,
+    flattened_class,
+    tuple_length,
 )
 
 # Lazy numpy imports to improve startup time
@@ -656,22 +658,12 @@ def add_field_serializers_to_scope(
 ) -> None:
     """
     Register custom field serializers and skip_if predicates in the generated globals.
-
-    A flattened dataclass field is rendered inline in the enclosing class's serialize
-    function, so the custom serializers and skip_if predicates of its inner fields must
-    be available in this scope too, not only those of the top-level fields (#453).
     """
     for f in sfields:
         if f.skip_if:
             g[f.skip_if.name] = f.skip_if
         if f.serializer:
             g[f.serializer.name] = f.serializer
-        if f.flatten:
-            inner = f[0] if is_opt(f.type) else f
-            if is_dataclass(inner.type):
-                add_field_serializers_to_scope(
-                    sefields(inner.type, serialize_class_var), g, serialize_class_var
-                )
 
 
 jinja2_env = jinja2.Environment(
@@ -696,6 +688,10 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
+  {% elif flattened_class(f) -%}
+  # Merge the entries of the flattened dataclass into result
+  if not ({% if f.skip_if %}{{f.skip_if.name}}(subres, {{f.varname}}) or {% endif %}subres is None):
+    res.update({{merged(f)}})
   {% else -%}
   if not ({% if f.skip_if %}{{f.skip_if.name}}(subres, {{f.varname}}) or {% endif %}skip_none and subres is None):
     {{lvalue(f)}} = subres
@@ -839,7 +835,7 @@ def render_to_dict(
         scope=getattr(cls, SERDE_SCOPE),
     )
     lrenderer = LRenderer(case, serialize_class_var)
-    serde_scope = getattr(cls, SERDE_SCOPE)
+    serde_scope: Scope = getattr(cls, SERDE_SCOPE)
     if serde_scope.transparent:
         transparent = [
             f for f in sefields(cls, serialize_class_var) if not (f.skip or f.skip_serializing)
@@ -853,10 +849,40 @@ def render_to_dict(
             rvalue=renderer.render,
         )
     else:
+        fields = list(sefields(cls, serialize_class_var))
+        own_keys: set[str] = set()
+        children: dict[str, Scope] = {}
+        has_flatten_dict = False
+        for f in fields:
+            if f.skip or f.skip_serializing:
+                continue
+            child = flattened_class(f)
+            if child is not None:
+                assert f.name
+                children[f.name] = getattr(child, SERDE_SCOPE)
+            elif f.flatten and is_flatten_dict(f.type):
+                has_flatten_dict = True
+            else:
+                own_keys.add(f.conv_name(case))
+        serde_scope.se_keys = own_keys.union(*(s.se_keys for s in children.values()))
+        serde_scope.se_has_flatten_dict = has_flatten_dict or any(
+            s.se_has_flatten_dict for s in children.values()
+        )
+
+        def merged(f: SeField[Any]) -> str:
+            scope = children[f.name or ""]
+            if not scope.se_has_flatten_dict:
+                return "subres"
+            # The entries of a flattened dict don't replace the declared fields of other classes.
+            reserved = serde_scope.se_keys - scope.se_keys
+            return f"{{k: v for k, v in subres.items() if k not in {reserved or '()'}}}"
+
         return jinja2_env.get_template("dict").render(
             func=TO_DICT,
             serde_scope=serde_scope,
-            fields=sefields(cls, serialize_class_var),
+            fields=fields,
+            flattened_class=flattened_class,
+            merged=merged,
             type_check=type_check,
             lvalue=lrenderer.render,
             rvalue=renderer.render,
@@ -902,27 +928,12 @@ class LRenderer:
         """
         Render lvalue
         """
-        if is_dataclass(arg.type) and arg.flatten:
-            return self.flatten(arg)
-        elif is_opt(arg.type) and arg.flatten:
-            inner = arg[0]
-            if is_dataclass(inner.type):
-                return self.flatten(inner)
-        elif is_flatten_dict(arg.type) and arg.flatten:
+        if is_flatten_dict(arg.type) and arg.flatten:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
         return f"res[{quote(arg.conv_name(self.case))}]"
 
-    def flatten(self, arg: SeField[Any]) -> str:
-        """
-        Render field with flatten attribute.
-        """
-        flattened = []
-        for f in sefields(arg.type, self.serialize_class_var):
-            flattened.append(self.render(f))
-        return ", ".join(flattened)
-
 
 @dataclass
 class Renderer:
@@ -1041,17 +1052,13 @@ class Renderer:
         """
         Render rvalue for dataclass.
         """
-        if arg.flatten:
-            flattened = []
-            for f in sefields(arg.type, self.serialize_class_var):
-                f.parent = arg
-                flattened.append(self.render(f))
-            return ", ".join(flattened)
-        else:
-            return (
-                f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
-                "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
-            )
+        call = (
+            f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
+            "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
+        )
+        if arg.flatten and self.func == TO_ITER:
+            return f"*{call}"
+        return call
 
     def opt(self, arg: SeField[Any]) -> str:
         """
@@ -1062,8 +1069,10 @@ class Renderer:
 
         inner = arg[0]
         inner.name = arg.varname
-        if arg.flatten:
-            return self.render(inner)
+        if arg.flatten and is_dataclass(inner.type) and self.func == TO_ITER:
+            inner.flatten = None
+            nones = f"({'None, ' * tuple_length(inner.type)})"
+            return f"*({self.render(inner)} if {arg.varname} is not None else {nones})"
         else:
             return f"({self.render(inner)}) if {arg.varname} is not None else None"
 
-- 
2.43.0


From 338d967a54cb7cf45be6ddc3171c1f1235c2888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 26/48] fix: an object of a derived class in a union is written
 as that class, not as its base

---
 serde/se.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index b5cd5e2..1cb69f0 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -750,8 +750,8 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
 def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
   union_args = serde_scope.union_se_args['{{func}}']
 
-  {% for t in union_args %}
-  if is_instance(obj, union_args[{{loop.index0}}]):
+  {% for i, t in derived_first(union_args) %}
+  if is_instance(obj, union_args[{{i}}]):
     {% if tagging.is_external() and is_taggable(t) %}
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
@@ -906,6 +906,7 @@ def render_union_func(
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
+        derived_first=derived_first,
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
         arg=lambda x: SeField(x, "obj"),
@@ -915,6 +916,22 @@ def render_union_func(
     )
 
 
+def derived_first(union_args: list[type[Any]]) -> list[tuple[int, type[Any]]]:
+    """
+    Get the positions and types of the union members in the order an object is compared with them.
+    A class comes before the classes it is derived from, as its objects are instances of both.
+    """
+
+    def num_bases(typ: type[Any]) -> int:
+        cls = get_origin(typ) or typ
+        if not isinstance(cls, type):
+            return 0
+        bases = [get_origin(arg) or arg for arg in union_args]
+        return sum(base is not cls and base in cls.__mro__ for base in bases)
+
+    return sorted(enumerate(union_args), key=lambda member: -num_bases(member[1]))
+
+
 @dataclass
 class LRenderer:
     """
-- 
2.43.0


From bef8cb61619c78f5e1d1d69058fa41e0bda4f92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:33 +0000
Subject: [PATCH 27/48] fix: tags of punctuation can be used with unions passed
 directly

---
 serde/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 2699756..6424173 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1101,17 +1101,17 @@ class Tagging:
         wrapper dataclass and stored in `Cache`.
         """
         if self.is_internal():
-            tag = casefy.pascalcase(self.tag)  # type: ignore
-            if not tag:
+            if not self.tag:
                 raise SerdeError('"tag" must be specified in InternalTagging')
+            tag = casefy.pascalcase(self.tag)
             return f"Internal{tag}"
         elif self.is_adjacent():
-            tag = casefy.pascalcase(self.tag)  # type: ignore
-            content = casefy.pascalcase(self.content)  # type: ignore
-            if not tag:
+            if not self.tag:
                 raise SerdeError('"tag" must be specified in AdjacentTagging')
-            if not content:
+            tag = casefy.pascalcase(self.tag)
+            if not self.content:
                 raise SerdeError('"content" must be specified in AdjacentTagging')
+            content = casefy.pascalcase(self.content)
             return f"Adjacent{tag}{content}"
         else:
             return self.kind.name
-- 
2.43.0


From b96286fdcc9e42b2e572f455fa71ed661961e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:40 +0000
Subject: [PATCH 28/48] fix: a tuple type passed directly needs all its values

---
 serde/de.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index caf2434..9a104e0 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -616,7 +616,10 @@ def from_obj(
             elif is_variable_tuple(c):
                 res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
-                res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
+                args = type_args(c)
+                res = tuple(thisfunc(args[i], e) for i, e in enumerate(o))
+                if len(res) < len(args):
+                    raise SerdeError(f"{typename(c)} needs {len(args)} values, got {len(res)}")
         elif is_dict(c):
             if is_bare_dict(c):
                 res = o
-- 
2.43.0


From bb311c6dd457845e01d38406042e3aee00dff5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:47 +0000
Subject: [PATCH 29/48] fix: a class derived from a dataclass without new
 fields is checked, and may redefine inherited fields

---
 serde/core.py | 20 +++-----------------
 serde/de.py   |  4 ++++
 serde/se.py   |  4 ++++
 3 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 6424173..accae2c 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1188,23 +1188,9 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
         return True
 
     # Checking is_dataclass is not enough in such a case that the class is inherited
-    # from another dataclass. To do it correctly, check if all fields in __annotations__
-    # are present as dataclass fields.
-    annotations = getattr(cls, "__annotations__", {})
-    if not annotations:
-        return False
-
-    # InitVar and ClassVar don't appear in dataclass fields, but dataclass has a record of them.
-    field_names = getattr(cls, "__dataclass_fields__")
-    for field_name in annotations:
-        # This field in __annotations__ is not a part of dataclass fields.
-        # This means this class does not implement dataclass directly.
-        if field_name not in field_names:
-            return True
-
-    # If all of the fields in __annotation__ are present as dataclass fields,
-    # the class already implemented dataclass, thus returns False.
-    return False
+    # from another dataclass. If the class has annotations of its own, which may as well
+    # redefine inherited fields, but no fields of its own, it does not implement dataclass.
+    return "__dataclass_fields__" not in vars(cls) and bool(vars(cls).get("__annotations__"))
 
 
 @dataclass
diff --git a/serde/de.py b/serde/de.py
index 9a104e0..e1fb1d3 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -9,6 +9,7 @@ import itertools
 import collections
 import dataclasses
 import functools
+import inspect
 import typing
 import jinja2
 from collections.abc import Callable, Sequence, Iterable
@@ -299,6 +300,9 @@ def deserialize(
         if type_check.is_strict():
             serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
             serde_beartype(cls)
+            if inspect.isfunction(cls.__init__) and "__init__" not in vars(cls):
+                # Check what the inherited constructor gets too, but only for this class.
+                cls.__init__ = serde_beartype(cls.__init__)  # type: ignore
 
         g: dict[str, Any] = {}
 
diff --git a/serde/se.py b/serde/se.py
index 1cb69f0..c84dc04 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -9,6 +9,7 @@ import copy
 import dataclasses
 import enum
 import functools
+import inspect
 import typing
 import itertools
 import jinja2
@@ -251,6 +252,9 @@ def serialize(
         if type_check.is_strict():
             serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
             serde_beartype(cls)
+            if inspect.isfunction(cls.__init__) and "__init__" not in vars(cls):
+                # Check what the inherited constructor gets too, but only for this class.
+                cls.__init__ = serde_beartype(cls.__init__)  # type: ignore
 
         g: dict[str, Any] = {}
 
-- 
2.43.0


From e7ff03fe60d34ea45759c3768672b49a992eb50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 30/48] fix: a field that is never deserialized and has no
 default is reported as SerdeError

---
 serde/de.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index e1fb1d3..2c2b0cb 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1341,6 +1341,17 @@ def renderable(f: DeField[Any]) -> bool:
     return f.init and not (f.skip or f.skip_deserializing)
 
 
+def missing_arguments(
+    cls: type[Any], fields: list[DeField[Any]], passed: list[DeField[Any]]
+) -> list[str | None]:
+    """
+    Fields the constructor needs, but which are never deserialized.
+    """
+    params = inspect.signature(cls.__init__).parameters
+    names = {f.name for f in fields} - {f.name for f in passed}
+    return [n for n in params if n in names and params[n].default is inspect.Parameter.empty]
+
+
 def force_kw_only(fields: list[DeField[Any]]) -> None:
     """
     Pass all the fields following a field which is not passed, or is passed by keyword, by keyword.
@@ -1368,6 +1379,10 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   __{{f.name}} = {{rvalue(arg(f,indices[f.name]))}}
   {% endfor %}
 
+  {% if missing %}
+  raise SerdeError({{quote("no value for '" ~ missing[0] ~ "' while deserializing " ~ class_name)}})
+  {% endif %}
+
   try:
     return cls(
       {% for f in fields %}
@@ -1457,6 +1472,10 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   {% endif %}
   {% endfor %}
 
+  {% if missing %}
+  raise SerdeError({{quote("no value for '" ~ missing[0] ~ "' while deserializing " ~ class_name)}})
+  {% endif %}
+
   try:
     return cls(
     {% for f in fields %}
@@ -1591,10 +1610,14 @@ def render_from_iter(
                 indices[field.name] = index
                 child = flattened_class(field)
                 index += tuple_length(child) if child else 1
+        fields = [f for f in fields if f.name in indices]
         res = jinja2_env.get_template("iter").render(
             func=FROM_ITER,
             serde_scope=serde_scope,
-            fields=[f for f in fields if f.name in indices],
+            fields=fields,
+            missing=missing_arguments(cls, all_fields, fields),
+            class_name=typename(cls),
+            quote=quote,
             indices=indices,
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
@@ -1722,6 +1745,7 @@ def render_from_dict(
             func=FROM_DICT,
             serde_scope=serde_scope,
             fields=fields,
+            missing=missing_arguments(cls, all_fields, fields),
             type_check=type_check,
             cls_type_vars=get_type_var_names(cls),
             class_name=typename(cls),
-- 
2.43.0


From 6e984680ad21cfb25e83ac5580b719bb87aa4b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:54 +0000
Subject: [PATCH 31/48] fix: classes can be prepared and used by several
 threads at once

---
 serde/core.py | 39 ++++++++++++++++++++++++++++++++++-----
 serde/de.py   | 41 +++++++++++++++++++++++++++--------------
 serde/se.py   | 43 ++++++++++++++++++++++++++++---------------
 3 files changed, 89 insertions(+), 34 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index accae2c..d285e05 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -8,10 +8,11 @@ import enum
 import functools
 import logging
 import re
+import threading
 import casefy
 from dataclasses import dataclass
 
-from beartype.door import is_bearable
+from beartype import door
 from collections import deque, Counter
 from collections.abc import Mapping, Sequence, MutableSequence, Set, Callable, Hashable
 from typing import (
@@ -90,6 +91,32 @@ LITERAL_DE_PREFIX = "literal_de"
 
 SETTINGS = {"debug": False}
 
+# Held while functions are generated for classes, so that no thread sees a class, or the stacks and
+# caches used for the generation, half way of another thread.
+GENERATION_LOCK = threading.RLock()
+
+
+def is_bearable(obj: Any, hint: Any) -> bool:
+    """
+    Test if an object is of a type. `beartype` generates a function for a type it sees for the first
+    time, which must not happen in two threads at once.
+    """
+    with GENERATION_LOCK:
+        return door.is_bearable(obj, hint)
+
+
+def synchronized(func: Callable[..., Any]) -> Callable[..., Any]:
+    """
+    Make a function hold the lock for the generation of functions.
+    """
+
+    @functools.wraps(func)
+    def wrapper(*args: Any, **kwargs: Any) -> Any:
+        with GENERATION_LOCK:
+            return func(*args, **kwargs)
+
+    return wrapper
+
 
 @dataclass(frozen=True)
 class UnionCacheKey:
@@ -135,8 +162,9 @@ class Cache:
         Get a wrapper class from the the cache. If not found, it will generate
         the class and store it in the cache.
         """
-        wrapper = self.classes.get(cls)  # type: ignore[call-overload] # mypy doesn't recognize type[Any] as Hashable
-        return wrapper or self._generate_class(cls)
+        with GENERATION_LOCK:
+            wrapper = self.classes.get(cls)  # type: ignore[call-overload] # mypy doesn't recognize type[Any] as Hashable
+            return wrapper or self._generate_class(cls)
 
     def _generate_class(self, cls: type[Any]) -> type[Any]:
         """
@@ -183,8 +211,9 @@ class Cache:
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
         cache_key = UnionCacheKey(union=union_cls, tagging=tagging, members=repr(union_cls))
-        wrapper = self.classes.get(cache_key)
-        return wrapper or self._generate_union_class(cls)
+        with GENERATION_LOCK:
+            wrapper = self.classes.get(cache_key)
+            return wrapper or self._generate_union_class(cls)
 
     def _generate_union_class(self, cls: type[Any]) -> type[Any]:
         """
diff --git a/serde/de.py b/serde/de.py
index 2c2b0cb..0b7b19f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -15,7 +15,6 @@ import jinja2
 from collections.abc import Callable, Sequence, Iterable
 
 from beartype import beartype, BeartypeConf
-from beartype.door import is_bearable
 from beartype.roar import BeartypeCallHintParamViolation
 from dataclasses import dataclass, is_dataclass
 from typing import Any, Generic, Literal, TypeVar, cast, overload
@@ -67,6 +66,7 @@ from .compat import (
     typename,
 )
 from .core import (
+    GENERATION_LOCK,
     GLOBAL_CLASS_DESERIALIZER,
     ClassDeserializer,
     FROM_DICT,
@@ -86,6 +86,7 @@ from .core import (
     strict,
     get_transparent_field,
     has_default,
+    is_bearable,
     has_default_factory,
     ensure,
     fields,
@@ -95,6 +96,7 @@ from .core import (
     logger,
     quote,
     scoped_func_name,
+    synchronized,
     type_ref,
     union_func_name,
     flattened_class,
@@ -283,6 +285,7 @@ def deserialize(
 
     stack = []
 
+    @synchronized
     def wrap(cls: type[T]) -> type[T]:
         if cls in stack:
             return cls
@@ -432,14 +435,15 @@ def deserialize(
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
+    with GENERATION_LOCK:
+        if _cls in GENERATION_STACK:
+            return _cls
 
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+        GENERATION_STACK.append(_cls)
+        try:
+            return wrap(_cls)
+        finally:
+            GENERATION_STACK.pop()
 
 
 def is_deserializable(instance_or_class: Any) -> bool:
@@ -489,6 +493,19 @@ class Deserializer(Generic[T], metaclass=abc.ABCMeta):
         raise NotImplementedError
 
 
+def ensure_deserializable(cls: type[Any]) -> None:
+    """
+    Generate the functions for a dataclass not marked with `deserialize`, once even if several threads
+    use the class for the first time.
+    """
+    with GENERATION_LOCK:
+        if is_dataclass_without_de(cls):
+            # Do not automatically implement beartype if dataclass without serde decorator
+            # is passed, because it is surprising for users
+            # See https://github.com/yukinarit/pyserde/issues/480
+            deserialize(cls, type_check=disabled)
+
+
 def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     """Return a globally registered class deserializer that handles ``typ``, if any.
 
@@ -580,14 +597,10 @@ def from_obj(
             deserialize_numbers=deserialize_numbers,
         )
         class_deserializer = find_global_class_deserializer(c)
+        if class_deserializer is None and (is_dataclass_without_de(c) or GENERATION_STACK):
+            ensure_deserializable(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
-        elif is_dataclass_without_de(c):
-            # Do not automatically implement beartype if dataclass without serde decorator
-            # is passed, because it is surprising for users
-            # See https://github.com/yukinarit/pyserde/issues/480
-            deserialize(c, type_check=disabled)
-            res = deserializable_to_obj(c)
         elif is_deserializable(c):
             res = deserializable_to_obj(c)
         elif is_opt(c):
diff --git a/serde/se.py b/serde/se.py
index c84dc04..d31da49 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -25,7 +25,6 @@ from collections.abc import (
 )
 
 from beartype import beartype, BeartypeConf
-from beartype.door import is_bearable
 from typing_extensions import dataclass_transform
 
 from .compat import (
@@ -90,8 +89,11 @@ from .core import (
     logger,
     quote,
     scoped_func_name,
+    is_bearable,
+    synchronized,
     type_ref,
     union_func_name,
+    GENERATION_LOCK,
     GLOBAL_CLASS_SERIALIZER,
     flattened_class,
     tuple_length,
@@ -239,6 +241,7 @@ def serialize(
     '{"i":10,"s":"foo","f":100.0,"b":true}'
     """
 
+    @synchronized
     def wrap(cls: type[T]) -> type[T]:
         tagging.check()
 
@@ -346,14 +349,15 @@ def serialize(
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
+    with GENERATION_LOCK:
+        if _cls in GENERATION_STACK:
+            return _cls
 
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+        GENERATION_STACK.append(_cls)
+        try:
+            return wrap(_cls)
+        finally:
+            GENERATION_STACK.pop()
 
 
 def is_serializable(instance_or_class: Any) -> bool:
@@ -388,6 +392,19 @@ def is_dataclass_without_se(cls: type[Any]) -> bool:
     return TO_DICT not in scope.funcs
 
 
+def ensure_serializable(cls: type[Any]) -> None:
+    """
+    Generate the functions for a dataclass not marked with `serialize`, once even if several threads
+    use the class for the first time.
+    """
+    with GENERATION_LOCK:
+        if is_dataclass_without_se(cls):
+            # Do not automatically implement beartype if dataclass without serde decorator
+            # is passed, because it is surprising for users
+            # See https://github.com/yukinarit/pyserde/issues/480
+            serialize(cls, type_check=disabled)
+
+
 def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     """Return a globally registered class serializer that handles ``typ``, if any.
 
@@ -453,13 +470,9 @@ def to_obj(
         class_serializer = find_global_class_serializer(type(o))
         if class_serializer is not None:
             return class_serializer.serialize(o)
-        if is_dataclass_without_se(o):
-            # Do not automatically implement beartype if dataclass without serde decorator
-            # is passed, because it is surprising for users
-            # See https://github.com/yukinarit/pyserde/issues/480
-            serialize(type(o), type_check=disabled)
-            return serializable_to_obj(o)
-        elif is_serializable(o):
+        if is_dataclass_without_se(o) or GENERATION_STACK:
+            ensure_serializable(type(o))
+        if is_serializable(o):
             return serializable_to_obj(o)
         elif is_bearable(o, list):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return [thisfunc(e) for e in o]
-- 
2.43.0


From af258433ef7c097a69deec502a57e4be1f5bb58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:28 +0000
Subject: [PATCH 32/48] fix: custom (de)serializers apply to members of unions
 and to keys of dicts, and the last registered one applies to types passed
 directly

---
 serde/de.py | 49 ++++++++++++++++++++++++++++++++-----------------
 serde/se.py | 20 ++++++++++++++++----
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 0b7b19f..a3a1ce5 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -382,7 +382,7 @@ def deserialize(
             add_func(
                 scope,
                 scoped_func_name(scope, union_name, union_args),
-                render_union_func(cls, union_args, tagging),
+                render_union_func(cls, union_args, tagging, class_deserializer),
                 g,
             )
 
@@ -514,7 +514,7 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     directly to ``from_dict``/``from_tuple`` instead of nested in a dataclass
     (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_deserializer in GLOBAL_CLASS_DESERIALIZER:
+    for class_deserializer in reversed(GLOBAL_CLASS_DESERIALIZER):
         for method in class_deserializer.__class__.deserialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is ``type[X]``; unwrap it to the value type ``X``.
             if get_args(method.signature.types[1])[0] is typ:
@@ -969,14 +969,7 @@ class Renderer:
         """
         Render rvalue
         """
-        implemented_methods: dict[type[Any], int] = {}
-        class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
-            GLOBAL_CLASS_DESERIALIZER, [self.class_deserializer] if self.class_deserializer else []
-        )
-        for n, class_deserializer in enumerate(class_deserializers):
-            for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
-                implemented_methods[get_args(method.signature.types[1])[0]] = n
-
+        implemented_methods = self.implemented_methods()
         custom_deserializer_available = arg.type in implemented_methods
         if custom_deserializer_available and not arg.deserializer:
             res = (
@@ -1065,13 +1058,27 @@ class Renderer:
             and not custom_deserializer_available
         ):
             # Rerender the code for default deserializer.
-            default = Renderer(
-                self.func, self.cls, None, suppress_coerce=self.suppress_coerce
-            ).render(arg)
-            return self.custom_class_deserializer(arg, default)
+            renderer = dataclasses.replace(self, legacy_class_deserializer=None)
+            default = renderer.render(arg)
+            self.import_numpy = self.import_numpy or renderer.import_numpy
+            res = self.custom_class_deserializer(arg, default)
+            return self.default(arg, res) if arg.supports_default() else res
         else:
             return res
 
+    def implemented_methods(self) -> dict[type[Any], int]:
+        """
+        Get the types custom class deserializers are implemented for, and the positions of these.
+        """
+        methods: dict[type[Any], int] = {}
+        class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
+            GLOBAL_CLASS_DESERIALIZER, [self.class_deserializer] if self.class_deserializer else []
+        )
+        for n, class_deserializer in enumerate(class_deserializers):
+            for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
+                methods[get_args(method.signature.types[1])[0]] = n
+        return methods
+
     def type_ref(self, typ: Any) -> str:
         """
         Render a reference to the type.
@@ -1251,6 +1258,7 @@ class Renderer:
             and issubclass(typ, (int, float))
             and not issubclass(typ, bool)
             and not is_enum(typ)
+            and typ not in self.implemented_methods()
         ):
             return f'coerce_object("{self.class_name}", "k", {self.type_ref(typ)}, {arg.data})'
         return self.render(arg)
@@ -1555,7 +1563,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
+    {% if is_custom(t) %}
+    {% elif (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{type_ref(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% elif is_sequence(t) %}
@@ -1779,11 +1788,16 @@ def render_from_dict(
 
 
 def render_union_func(
-    cls: type[Any], union_args: Sequence[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: Sequence[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    class_deserializer: ClassDeserializer | None = None,
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
-    renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
+    renderer = Renderer(
+        FROM_DICT, cls=cls, suppress_coerce=True, class_deserializer=class_deserializer
+    )
     return jinja2_env.get_template("union").render(
         func=scoped_func_name(
             getattr(cls, SERDE_SCOPE), union_func_name(UNION_DE_PREFIX, union_args), union_args
@@ -1795,6 +1809,7 @@ def render_union_func(
         is_taggable=Tagging.is_taggable,
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
+        is_custom=lambda t: t in renderer.implemented_methods(),
         is_primitive=is_primitive,
         is_enum=is_enum,
         is_none=is_none,
diff --git a/serde/se.py b/serde/se.py
index d31da49..56f0a86 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -322,7 +322,12 @@ def serialize(
             union_args = list(type_args(union))
             union_key = union_func_name(UNION_SE_PREFIX, union_args)
             union_key = scoped_func_name(scope, union_key, union_args)
-            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
+            add_func(
+                scope,
+                union_key,
+                render_union_func(cls, union_args, tagging, class_serializer),
+                g,
+            )
             scope.union_se_args[union_key] = union_args
 
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g, serialize_class_var)
@@ -413,7 +418,7 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     ``typ`` is passed directly to ``to_dict``/``to_tuple`` instead of nested in a
     dataclass (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_serializer in GLOBAL_CLASS_SERIALIZER:
+    for class_serializer in reversed(GLOBAL_CLASS_SERIALIZER):
         for method in class_serializer.__class__.serialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is the value type; index 0 is ``self``.
             if method.signature.types[1] is typ:
@@ -907,14 +912,21 @@ def render_to_dict(
 
 
 def render_union_func(
-    cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: list[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    class_serializer: ClassSerializer | None = None,
 ) -> str:
     """
     Render function that serializes a field with union type.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
     renderer = Renderer(
-        TO_DICT, suppress_coerce=True, class_name=typename(cls), scope=getattr(cls, SERDE_SCOPE)
+        TO_DICT,
+        suppress_coerce=True,
+        class_serializer=class_serializer,
+        class_name=typename(cls),
+        scope=getattr(cls, SERDE_SCOPE),
     )
     return jinja2_env.get_template("union").render(
         func=scoped_func_name(
-- 
2.43.0


From d86f6cb91bf5d70c07b31461456e77f4fa7483f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 33/48] fix: type arguments of generic classes are resolved for
 nested, inherited and plain generic classes

---
 serde/compat.py | 85 ++++++++++++++++++++++++++++++++++++++++++++++++-
 serde/de.py     | 25 +++++++++------
 serde/se.py     |  3 +-
 3 files changed, 102 insertions(+), 11 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 40ceb92..56d1496 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -2,6 +2,7 @@
 Compatibility layer which handles mostly differences of `typing` module between python versions.
 """
 
+import copy
 import dataclasses
 import datetime
 import decimal
@@ -326,14 +327,21 @@ def dataclass_fields(cls: type[Any]) -> Iterator[dataclasses.Field]:  # type: ig
             "serialize after all classes are globally visible."
         ) from e
 
+    fields = []
     for f in raw_fields:
         real_type = resolved_hints.get(f.name)
         if real_type is not None:
+            env = _inherited_type_vars(cls, f.name)
+            if env:
+                # The field object is shared with the base class.
+                f = copy.copy(f)
+                real_type = substitute_type_vars(real_type, env)
             f.type = real_type
             if is_generic(real_type) and _is_sqlalchemy_inspectable(cls):
                 f.type = get_args(real_type)[0]
+        fields.append(f)
 
-    return iter(raw_fields)
+    return iter(fields)
 
 
 TypeLike = Union[type[Any], typing.Any]
@@ -401,6 +409,10 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
                 recursive(args[1])
         elif is_pep695_type_alias(cls):
             recursive(cls.__value__)
+        elif is_generic(cls):
+            recursive(get_origin(cls))
+            for arg in get_args(cls):
+                recursive(arg)
         else:
             lst.add(cls)
 
@@ -1085,6 +1097,77 @@ def is_pep695_type_alias(typ: Any) -> bool:
     return isinstance(typ, _PEP695_TYPES)
 
 
+def substitute_type_vars(typ: Any, env: dict[Any, Any]) -> Any:
+    """
+    Replace type variables in a type, by `Any` if they have no value.
+
+    >>> T = typing.TypeVar('T')
+    >>> substitute_type_vars(dict[str, T], {T: int})
+    dict[str, int]
+    >>> substitute_type_vars(T, {})
+    typing.Any
+    """
+    if isinstance(typ, TypeVar):
+        return env.get(typ, Any)
+    params = getattr(typ, "__parameters__", ())
+    if not params or get_origin(typ) is None:
+        return typ
+    return typ[tuple(env.get(p, Any) for p in params)]
+
+
+def find_type_vars(typ: Any, owner: type[Any]) -> dict[Any, Any] | None:
+    """
+    Find the values of the type variables of `owner`, which is the origin of `typ` or a base class of it.
+
+    >>> T = typing.TypeVar('T')
+    >>> class Foo(typing.Generic[T]):
+    ...     pass
+    >>> class Bar(Foo[list[T]], typing.Generic[T]):
+    ...     pass
+    >>> find_type_vars(Bar[int], Foo)
+    {~T: list[int]}
+    """
+    origin = get_origin(typ) or typ
+    params = getattr(origin, "__parameters__", ())
+    env = dict(zip(params, get_args(typ) or params))
+    if origin is owner:
+        return env
+    for base in origin.__dict__.get("__orig_bases__", getattr(origin, "__bases__", ())):
+        if get_origin(base) not in (None, Generic):
+            base = substitute_type_vars(base, env)
+        base_env = find_type_vars(base, owner)
+        if base_env is not None:
+            return base_env
+    return None
+
+
+def resolve_type_vars(typ: Any, maybe_generic: Any, owner: type[Any]) -> Any:
+    """
+    Resolve the type of a field of `owner` in the context of `maybe_generic`.
+
+    >>> T = typing.TypeVar('T')
+    >>> class Foo(typing.Generic[T]):
+    ...     pass
+    >>> resolve_type_vars(list[T], Foo[int], Foo)
+    list[int]
+    >>> resolve_type_vars(T, Foo, Foo)
+    typing.Any
+    """
+    env = find_type_vars(maybe_generic, owner) if maybe_generic is not None else None
+    # Type variables which are left have no value.
+    return substitute_type_vars(substitute_type_vars(typ, env or {}), {})
+
+
+def _inherited_type_vars(cls: type[Any], field: str) -> dict[Any, Any] | None:
+    """
+    Get the values of the type variables for a field, if it is inherited from a generic class.
+    """
+    for base in cls.__mro__:
+        if field in base.__dict__.get("__annotations__", {}):
+            return find_type_vars(cls, base) if base is not cls else None
+    return None
+
+
 @cache
 def get_type_var_names(cls: type[Any]) -> list[str] | None:
     """
diff --git a/serde/de.py b/serde/de.py
index a3a1ce5..d0b0161 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -25,11 +25,10 @@ from .compat import (
     SerdeSkip,
     T,
     UserError,
-    find_generic_arg,
     get_args,
-    get_generic_arg,
     get_origin,
     get_type_var_names,
+    has_generic_base,
     is_any,
     is_bare_counter,
     is_bare_deque,
@@ -62,6 +61,7 @@ from .compat import (
     iter_literals,
     iter_types,
     iter_unions,
+    resolve_type_vars,
     type_args,
     typename,
 )
@@ -348,7 +348,7 @@ def deserialize(
         g["collections"] = collections
         g["Literal"] = Literal
         g["from_obj"] = from_obj
-        g["get_generic_arg"] = get_generic_arg
+        g["resolve_type_vars"] = resolve_type_vars
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
         g["disabled"] = disabled
@@ -1038,10 +1038,10 @@ class Renderer:
         elif isinstance(arg.type, TypeVar):
             if not self.cls:
                 raise SerdeError("Missing cls")
-            index = find_generic_arg(self.cls, arg.type)
+            typ = self.type_ref(arg.type)
             res = (
-                f"from_obj(get_generic_arg(maybe_generic, maybe_generic_type_vars, "
-                f"variable_type_args, {index}), {arg.data}, named={not arg.iterbased}, "
+                f"from_obj(resolve_type_vars({typ}, maybe_generic, serde_scope.cls), "
+                f"{arg.data}, named={self.func == FROM_DICT}, "
                 "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers)"
             )
         elif is_literal(arg.type):
@@ -1119,11 +1119,17 @@ class Renderer:
             else:
                 var = arg.datavar
 
-        type_args_str = [str(t).lstrip("~") for t in arg.type_args] if arg.type_args else None
+        if arg.type_args:
+            typ = self.type_ref(arg.type[tuple(arg.type_args)])  # type: ignore[index]
+            maybe_generic = f"resolve_type_vars({typ}, maybe_generic, serde_scope.cls)"
+        elif has_generic_base(arg.type):
+            maybe_generic = self.type_ref(arg.type)
+        else:
+            maybe_generic = "maybe_generic"
 
         opts = (
-            "maybe_generic=maybe_generic, maybe_generic_type_vars=maybe_generic_type_vars, "
-            f"variable_type_args={type_args_str}, reuse_instances=reuse_instances, "
+            f"maybe_generic={maybe_generic}, maybe_generic_type_vars=maybe_generic_type_vars, "
+            "variable_type_args=None, reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers"
         )
 
@@ -1302,6 +1308,7 @@ class Renderer:
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
+            "maybe_generic=maybe_generic, "
             f"data={arg.data}, "
             "reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers)"
diff --git a/serde/se.py b/serde/se.py
index 56f0a86..fcce610 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -1059,7 +1059,8 @@ class Renderer:
             res = "None"
         elif is_any(arg.type) or is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
             res = (
-                f"to_obj({arg.varname}, {self.func == TO_DICT}, False, False, skip_none, typing.Any)"
+                f"to_obj({arg.varname}, {self.func == TO_DICT}, False, convert_sets, skip_none, "
+                "typing.Any)"
             )
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
-- 
2.43.0


From 7d4ea8d6cc68a724d6e2f2dd48642af7ef3d1899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 34/48] fix: enums passed directly accept the values which JSON
 has for their members

---
 serde/de.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index d0b0161..c34d1d7 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -661,6 +661,8 @@ def from_obj(
             res = deserialize_numpy_array_direct(c, o)
         elif is_datetime(c):
             res = c.fromisoformat(o)
+        elif is_enum(c):
+            res = deserialize_enum(cast(Any, c), o)
         elif isinstance(c, type) and issubclass(c, float):
             res = deserialize_numbers(o) if deserialize_numbers else c(o)
         elif is_any(c) or is_ellipsis(c):
-- 
2.43.0


From a45f7d96b55a05470d0e15a9274549043c0e6944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 35/48] fix: exceptions of constructors are raised as they are
 from objects in containers too

---
 serde/de.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index c34d1d7..a334607 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -347,7 +347,7 @@ def deserialize(
         g["typing"] = typing
         g["collections"] = collections
         g["Literal"] = Literal
-        g["from_obj"] = from_obj
+        g["from_obj"] = _from_obj
         g["resolve_type_vars"] = resolve_type_vars
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
@@ -547,6 +547,22 @@ def from_obj(
       when a float target is encountered. Useful for callers that want to treat ints or strings as
       floats.
     """
+    try:
+        return _from_obj(c, o, named, reuse_instances, deserialize_numbers)
+    except UserError as e:
+        raise e.inner from None
+
+
+def _from_obj(
+    c: type[T],
+    o: Any,
+    named: bool,
+    reuse_instances: bool | None,
+    deserialize_numbers: Callable[[str | int], float] | None = None,
+) -> T:
+    """
+    Deserialize an object. Exceptions raised by the constructors of classes come as `UserError`.
+    """
 
     res: Any
 
@@ -591,7 +607,7 @@ def from_obj(
         maybe_generic = c
     try:
         thisfunc = functools.partial(
-            from_obj,
+            _from_obj,
             named=named,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -676,8 +692,8 @@ def from_obj(
 
         return cast(T, res)
 
-    except UserError as e:
-        raise e.inner from None
+    except UserError:
+        raise
 
     except Exception as e:
         raise SerdeError(e) from None
-- 
2.43.0


From f58c1e07748bf5f293d7a96bbe14741bf15192a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 36/48] fix: type arguments are not those of an equal union
 with another order

---
 serde/compat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index 56d1496..567b67b 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -144,7 +144,7 @@ def get_origin(typ: Any) -> Any | None:
     return typing.get_origin(typ) or get_np_origin(typ)
 
 
-@cache
+# Not memoized: the order of union arguments is lost, because unions which differ in it compare equal.
 def get_args(typ: type[Any]) -> tuple[Any, ...]:
     """
     Provide `get_args` that works in all python versions.
-- 
2.43.0


From d28d5855054cb1b5161752bec3b5d52937ed666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 37/48] fix: the tag of an internally tagged union is not an
 unknown or captured field of the member

---
 serde/de.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index a334607..a93dd3c 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -174,6 +174,16 @@ def _exists_by_aliases(d: dict[str, str], aliases: list[str]) -> bool:
     return False
 
 
+def _without_tag(cls: type[Any], data: Any, tag: str) -> Any:
+    """
+    Remove the tag of an internally tagged union, which is no field of the class.
+    """
+    scope: Scope | None = getattr(get_origin(cls) or cls, SERDE_SCOPE, None)
+    if scope is None or scope.transparent or tag in scope.de_known_fields:
+        return data
+    return {k: v for k, v in data.items() if k != tag}
+
+
 def _flattened_exists(
     data: dict[str, Any], keys: set[str], required_keys: list[list[str]]
 ) -> bool:
@@ -356,6 +366,7 @@ def deserialize(
         g["deserialize_enum"] = deserialize_enum
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_flattened_exists"] = _flattened_exists
+        g["_without_tag"] = _without_tag
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
         g["class_deserializers"] = class_deserializers
@@ -1576,7 +1587,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif tagging.is_internal() and is_taggable(t) %}
     ensure({{quote(tagging.tag)}} in data , {{quote("'" ~ tagging.tag ~ "' key is not present")}})
     ensure("{{typename(t)}}" == data[{{quote(tagging.tag)}}], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data}
+    fake_dict = {"fake_key": _without_tag({{type_ref(t)}}, data, {{quote(tagging.tag)}})}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     ensure({{quote(tagging.tag)}} in data , {{quote("'" ~ tagging.tag ~ "' key is not present")}})
-- 
2.43.0


From 1fb0d8f1ce50b292b3aa584641b1d65a8e6da218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 38/48] fix: enum members and plain values that are equal are
 not told apart by a cache

enum_value asked is_enum, which is memoized by equality: a member of an
IntEnum and its value share an entry, so whichever was seen first decided
for both (an IntEnum member was left in the output, or serializing an enum
with a bool or float value failed).
---
 serde/se.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index fcce610..10771fa 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -1238,10 +1238,11 @@ def enum_value(cls: Any, e: Any) -> Any:
     """
     Helper function to get value from enum or enum compatible value.
     """
-    if is_enum(e):
+    # ``is_enum`` remembers its results by equality, and a member of an ``IntEnum`` equals its value.
+    if isinstance(e, enum.Enum):
         v = e.value
         # Recursively get value of Nested enum.
-        if is_enum(v):
+        if isinstance(v, enum.Enum):
             return enum_value(v.__class__, v)
         else:
             return v
-- 
2.43.0


From 199161b3217fb60550eb19616e89fb358d5dd1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:12 +0000
Subject: [PATCH 39/48] fix: enums find members of every kind of value

A member whose value is a member of another enum could not be read back, a
tuple value only if the first member had one, and with a bool or tuple value
first any text was turned into that type before the lookup, so that foreign
texts were accepted.
---
 serde/core.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index d285e05..ff8772c 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1266,6 +1266,9 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
     A plain ``typ(value)`` lookup then fails even though the value is valid.
     When the direct lookup fails for a ``str`` value, retry after coercing it
     to the type of the enum's member values (e.g. ``int``).
+
+    A member whose value is a member of another enum is serialized to the value
+    of the innermost enum, and found by it.
     """
     try:
         return typ(value)
@@ -1274,9 +1277,16 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
         # empty enum would raise TypeError instead), so ``__members__`` is never
         # empty in this branch.
         member_value_type = type(next(iter(typ.__members__.values())).value)
-        if isinstance(value, list) and member_value_type is tuple:
+        if isinstance(value, list):
             return typ(tuple(value))
-        if isinstance(value, str) and member_value_type is not str:
+        for member in typ:
+            if isinstance(member.value, enum.Enum):
+                try:
+                    if deserialize_enum(type(member.value), value) is member.value:
+                        return member
+                except (ValueError, KeyError):
+                    pass
+        if isinstance(value, str) and member_value_type in (int, float):
             return typ(member_value_type(value))
         raise
 
-- 
2.43.0


From 5a84192fdc499c80003ef40e7171e069e3cdc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 40/48] fix: numeric keys and new types passed directly or as
 type arguments

With number coercion (from_json, from_yaml) float keys of a dict passed
directly, or bound to a type variable, were refused since the key is a text;
new types were not converted at all there, and subclasses of float became
plain floats. Keys of a new type of int or float stayed texts in fields.
---
 serde/de.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index a93dd3c..c8dbb22 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -17,7 +17,7 @@ from collections.abc import Callable, Sequence, Iterable
 from beartype import beartype, BeartypeConf
 from beartype.roar import BeartypeCallHintParamViolation
 from dataclasses import dataclass, is_dataclass
-from typing import Any, Generic, Literal, TypeVar, cast, overload
+from typing import Any, Generic, Literal, NewType, TypeVar, cast, overload
 from typing_extensions import dataclass_transform
 
 from .compat import (
@@ -623,11 +623,20 @@ def _from_obj(
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
         )
+
+        def key(typ: Any, k: Any) -> Any:
+            # Formats such as JSON stringify the keys, a text is no number to "deserialize_numbers".
+            if isinstance(k, str):
+                return _from_obj(typ, k, named=named, reuse_instances=reuse_instances)
+            return thisfunc(typ, k)
+
         class_deserializer = find_global_class_deserializer(c)
         if class_deserializer is None and (is_dataclass_without_de(c) or GENERATION_STACK):
             ensure_deserializable(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
+        elif isinstance(c, NewType):
+            res = thisfunc(c.__supertype__, o)
         elif is_deserializable(c):
             res = deserializable_to_obj(c)
         elif is_opt(c):
@@ -653,7 +662,7 @@ def _from_obj(
             if is_bare_counter(c):
                 res = collections.Counter(o)
             else:
-                res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
+                res = collections.Counter({key(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
             if is_bare_tuple(c):
                 res = tuple(e for e in o)
@@ -674,13 +683,13 @@ def _from_obj(
                 res = collections.defaultdict(
                     origin if origin else v.type,
                     {
-                        thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
+                        key(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
                         for k, v in o.items()
                     },
                 )
             else:
                 res = {
-                    thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
+                    key(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
                 }
         elif _is_numpy_array(c):
             from .numpy import deserialize_numpy_array_direct
@@ -691,7 +700,7 @@ def _from_obj(
         elif is_enum(c):
             res = deserialize_enum(cast(Any, c), o)
         elif isinstance(c, type) and issubclass(c, float):
-            res = deserialize_numbers(o) if deserialize_numbers else c(o)
+            res = c(deserialize_numbers(o) if deserialize_numbers else o)
         elif is_any(c) or is_ellipsis(c):
             res = o
         elif is_literal(c):
@@ -1288,6 +1297,8 @@ class Renderer:
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
         typ = arg.type
+        while isinstance(typ, NewType):
+            typ = typ.__supertype__
         if (
             isinstance(typ, type)
             and issubclass(typ, (int, float))
-- 
2.43.0


From 1833e1248d97d4c985c666f91fb6a7da476505ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 41/48] fix: plain dataclasses nested in a class or union
 passed directly are not changed

The constructor of an undecorated dataclass passed directly is left alone,
but those of its fields, and of members of a union passed directly, got type
checks, which their other users do not expect.
---
 serde/core.py | 3 ++-
 serde/de.py   | 5 +++--
 serde/se.py   | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index ff8772c..df63244 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -228,7 +228,8 @@ class Cache:
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
         wrapper = dataclasses.make_dataclass(class_name, [("v", union_cls)])
-        serde.serde(wrapper, tagging=tagging)
+        # The wrapper is never constructed, and its members are not to be changed.
+        serde.serde(wrapper, tagging=tagging, type_check=disabled)
         self.classes[cache_key] = wrapper
         return wrapper
 
diff --git a/serde/de.py b/serde/de.py
index c8dbb22..969b185 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -383,8 +383,9 @@ def deserialize(
             # deserialize functions for it.
             if is_dataclass_without_de(typ) and typ is not cls:
                 # We call deserialize and not wrap to make sure that we will use the default serde
-                # configuration for generating the deserialization function.
-                deserialize(typ)
+                # configuration for generating the deserialization function,
+                # but its constructor is not checked within a class that is not.
+                deserialize(typ, type_check=disabled if type_check is disabled else strict)
 
         # render all union functions
         for union in iter_unions(cls):
diff --git a/serde/se.py b/serde/se.py
index 10771fa..f24ffec 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -314,8 +314,9 @@ def serialize(
             # functions for it.
             if is_dataclass_without_se(typ) and typ is not cls:
                 # We call serialize and not wrap to make sure that we will use the default serde
-                # configuration for generating the serialization function.
-                serialize(typ)
+                # configuration for generating the serialization function,
+                # but its constructor is not checked within a class that is not.
+                serialize(typ, type_check=disabled if type_check is disabled else strict)
 
         # render all union functions
         for union in iter_unions(cls):
-- 
2.43.0


From 1523684277a0f223f4963978f8c4c0cf90b8adcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:38 +0000
Subject: [PATCH 42/48] fix: a class derived without own fields keeps the
 functions of its base when prepared for the other direction

---
 serde/core.py | 9 +++++++++
 serde/de.py   | 7 +++++--
 serde/se.py   | 7 +++++--
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index df63244..7807474 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -426,6 +426,15 @@ def inherits_scope(cls: type[Any]) -> bool:
     return "__dataclass_fields__" in cls.__dict__ and SERDE_SCOPE not in cls.__dict__
 
 
+def scope_owner(cls: type[Any]) -> type[Any]:
+    """
+    Get the class whose functions a dataclass uses, which is a base class if the dataclass has no
+    fields of its own. A scope of its own would hide the functions of the base class.
+    """
+    scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
+    return cls if scope is None or inherits_scope(cls) else scope.cls
+
+
 def add_func(serde_scope: Scope, func_name: str, func_code: str, globals: dict[str, Any]) -> None:
     """
     Generate a function and add it to a Scope's `funcs` dictionary.
diff --git a/serde/de.py b/serde/de.py
index 969b185..82f4bb4 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -92,6 +92,7 @@ from .core import (
     fields,
     is_instance,
     inherits_scope,
+    scope_owner,
     literal_func_name,
     logger,
     quote,
@@ -385,7 +386,9 @@ def deserialize(
                 # We call deserialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the deserialization function,
                 # but its constructor is not checked within a class that is not.
-                deserialize(typ, type_check=disabled if type_check is disabled else strict)
+                deserialize(
+                    scope_owner(typ), type_check=disabled if type_check is disabled else strict
+                )
 
         # render all union functions
         for union in iter_unions(cls):
@@ -515,7 +518,7 @@ def ensure_deserializable(cls: type[Any]) -> None:
             # Do not automatically implement beartype if dataclass without serde decorator
             # is passed, because it is surprising for users
             # See https://github.com/yukinarit/pyserde/issues/480
-            deserialize(cls, type_check=disabled)
+            deserialize(scope_owner(cls), type_check=disabled)
 
 
 def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
diff --git a/serde/se.py b/serde/se.py
index f24ffec..1e95f7b 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -85,6 +85,7 @@ from .core import (
     strict,
     fields,
     inherits_scope,
+    scope_owner,
     is_instance,
     logger,
     quote,
@@ -316,7 +317,9 @@ def serialize(
                 # We call serialize and not wrap to make sure that we will use the default serde
                 # configuration for generating the serialization function,
                 # but its constructor is not checked within a class that is not.
-                serialize(typ, type_check=disabled if type_check is disabled else strict)
+                serialize(
+                    scope_owner(typ), type_check=disabled if type_check is disabled else strict
+                )
 
         # render all union functions
         for union in iter_unions(cls):
@@ -408,7 +411,7 @@ def ensure_serializable(cls: type[Any]) -> None:
             # Do not automatically implement beartype if dataclass without serde decorator
             # is passed, because it is surprising for users
             # See https://github.com/yukinarit/pyserde/issues/480
-            serialize(cls, type_check=disabled)
+            serialize(scope_owner(cls), type_check=disabled)
 
 
 def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
-- 
2.43.0


From c646feae2ade07ff9dacc3547cdfb45ad0cc2c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:47 +0000
Subject: [PATCH 43/48] fix: aliases of type aliases passed directly are
 resolved

---
 serde/de.py | 2 +-
 serde/se.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 82f4bb4..7f7fee5 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -583,7 +583,7 @@ def _from_obj(
 
     # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not the
     # aliased type itself, so unwrap it to recognize e.g. a union.
-    if is_pep695_type_alias(c):
+    while is_pep695_type_alias(c):
         c = c.__value__  # type: ignore[attr-defined]
 
     # It is possible that the parser already generates the correct data type requested
diff --git a/serde/se.py b/serde/se.py
index 1e95f7b..24c9646 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -459,7 +459,7 @@ def to_obj(
 
         # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not
         # the aliased type itself, so unwrap it to recognize e.g. a union.
-        if c is not None and is_pep695_type_alias(c):
+        while c is not None and is_pep695_type_alias(c):
             c = c.__value__
 
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
-- 
2.43.0


From a39c325d14915d1b87ea441528b4b8503ec17970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 44/48] fix: fields of numpy arrays may be skipped when they
 have the default value

---
 serde/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serde/core.py b/serde/core.py
index 7807474..c5eed9f 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -654,6 +654,9 @@ def skip_if_default(v: Any, default: Any | None = None) -> Any:
     if isinstance(default, dataclasses._MISSING_TYPE):
         return False
 
+    if hasattr(v, "tolist") and hasattr(default, "tolist"):
+        # Comparing numpy arrays gives an array.
+        return v.tolist() == default.tolist()
     return v == default
 
 
-- 
2.43.0


From 63f4e6115c0f49dda6a1173d40ea151cbc5b808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 45/48] fix: numpy datetimes of any unit are written, and
 jaxtyping arrays may be passed directly

---
 serde/de.py    |  4 ++++
 serde/numpy.py | 15 +++++++++++++--
 serde/se.py    |  7 +++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7f7fee5..fd73959 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -699,6 +699,10 @@ def _from_obj(
             from .numpy import deserialize_numpy_array_direct
 
             res = deserialize_numpy_array_direct(c, o)
+        elif _is_numpy_jaxtyping(c):
+            from .numpy import deserialize_numpy_jaxtyping_array_direct
+
+            res = deserialize_numpy_jaxtyping_array_direct(c, o)
         elif is_datetime(c):
             res = c.fromisoformat(o)
         elif is_enum(c):
diff --git a/serde/numpy.py b/serde/numpy.py
index 7af28b5..bd836d1 100644
--- a/serde/numpy.py
+++ b/serde/numpy.py
@@ -25,11 +25,16 @@ try:
 
     encode_numpy: Callable[[Any], Any] | None
 
+    def numpy_datetime_text(obj: Any) -> str:
+        item = obj.item()
+        # NaT and what does not fit into `datetime`, such as nanoseconds, have no such item.
+        return item.isoformat() if hasattr(item, "isoformat") else str(obj)
+
     def encode_numpy(obj: Any):
         if isinstance(obj, np.ndarray):
             return obj.tolist()
         if isinstance(obj, np.datetime64):
-            return obj.item().isoformat()
+            return numpy_datetime_text(obj)
         if isinstance(obj, np.generic):
             return obj.item()
         raise TypeError(f"Object of type {fullname(type(obj))} is not serializable")
@@ -88,7 +93,7 @@ try:
         return f"{arg.varname}.tolist()"
 
     def serialize_numpy_datetime(arg) -> str:
-        return f"{arg.varname}.item().isoformat()"
+        return f"numpy_datetime_text({arg.varname})"
 
     def deserialize_numpy_array(arg) -> str:
         if is_bare_numpy_array(arg.type):
@@ -108,6 +113,9 @@ try:
         dtype = get_args(get_args(typ)[1])[0]
         return np.array(arg, dtype=dtype)
 
+    def deserialize_numpy_jaxtyping_array_direct(typ: Any, arg: Any) -> Any:
+        return np.array(arg, dtype=getattr(np, typ.dtypes[-1]))
+
 except ImportError:
     encode_numpy = None
 
@@ -143,3 +151,6 @@ except ImportError:
 
     def deserialize_numpy_array_direct(typ: Any, arg: Any) -> Any:
         return arg
+
+    def deserialize_numpy_jaxtyping_array_direct(typ: Any, arg: Any) -> Any:
+        return arg
diff --git a/serde/se.py b/serde/se.py
index 24c9646..8d2b359 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -124,6 +124,12 @@ def _is_numpy_jaxtyping(typ: Any) -> bool:
     return is_numpy_jaxtyping(typ)
 
 
+def _numpy_datetime_text(obj: Any) -> str:
+    from .numpy import numpy_datetime_text
+
+    return numpy_datetime_text(obj)
+
+
 def _is_numpy_datetime(typ: Any) -> bool:
     from .numpy import is_numpy_datetime
 
@@ -298,6 +304,7 @@ def serialize(
         g["typename"] = typename  # used in union functions
         g["is_instance"] = is_instance  # used in union functions
         g["to_obj"] = to_obj
+        g["numpy_datetime_text"] = _numpy_datetime_text
         g["typing"] = typing
         g["Literal"] = Literal
         g["TypeCheck"] = TypeCheck
-- 
2.43.0


From 51682ae8a7d921e954aa3baa12bed610d80b2a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:13 +0000
Subject: [PATCH 46/48] fix: arrays that orjson does not serialize are encoded
 as with the json module

---
 serde/json.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serde/json.py b/serde/json.py
index 8179aa2..044f693 100644
--- a/serde/json.py
+++ b/serde/json.py
@@ -18,6 +18,11 @@ try:  # pragma: no cover
             opts["option"] |= orjson.OPT_NON_STR_KEYS
         else:
             opts["option"] = orjson.OPT_SERIALIZE_NUMPY | orjson.OPT_NON_STR_KEYS
+            if "default" not in opts:
+                # For what orjson does not serialize, such as arrays that are not contiguous.
+                from .numpy import encode_numpy
+
+                opts["default"] = encode_numpy
         return cast(str, orjson.dumps(obj, **opts).decode())
 
     def json_loads(s: str | bytes, **opts: Any) -> Any:
-- 
2.43.0


From 9ef143a4a980e247ad1148bdf018a1600247d2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:06 +0000
Subject: [PATCH 47/48] fix: fields after an init-only variable get their own
 values

---
 serde/de.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index fd73959..55717bd 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1428,11 +1428,15 @@ def missing_arguments(
     return [n for n in params if n in names and params[n].default is inspect.Parameter.empty]
 
 
-def force_kw_only(fields: list[DeField[Any]]) -> None:
+def force_kw_only(cls: type[Any], fields: list[DeField[Any]]) -> None:
     """
-    Pass all the fields following a field which is not passed, or is passed by keyword, by keyword.
+    Pass all the fields following a field which is not passed, or is passed by keyword, by keyword,
+    and all the fields of a class with init-only variables, which are no fields.
     """
-    force_kw = False
+    force_kw = any(
+        f._field_type is dataclasses._FIELD_INITVAR  # type: ignore
+        for f in cls.__dataclass_fields__.values()
+    )
     for field in fields:
         if not renderable(field) or field.kw_only or (field.skip or field.skip_serializing):
             force_kw = True
@@ -1664,7 +1668,7 @@ def render_from_iter(
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = defields(cls)
-    force_kw_only(all_fields)
+    force_kw_only(cls, all_fields)
     fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
@@ -1777,7 +1781,7 @@ def render_from_dict(
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
     all_fields = defields(cls)
-    force_kw_only(all_fields)
+    force_kw_only(cls, all_fields)
     fields = list(filter(renderable, all_fields))
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename="__serde_transparent__", case=None)
-- 
2.43.0


From d2c5588da385e38a4665ea8ebb44c3813c48f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:38 +0000
Subject: [PATCH 48/48] fix: MessagePack data which is no extension type is
 reported as SerdeError

---
 serde/msgpack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index 49921ca..af486c3 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -131,6 +131,8 @@ def from_msgpack(
     """
     if ext_dict is not None:
         ext = de.deserialize(s, **opts)
+        if not hasattr(ext, "code"):
+            raise SerdeError(f"Expected an extension type but got {type(ext).__name__}")
         ext_type = ext_dict.get(ext.code)
         if ext_type is None:
             raise SerdeError(f"Could not find type for code {ext.code} in ext_dict")
-- 
2.43.0

