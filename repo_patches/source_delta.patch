From e8c4cb57a68b1890effccc5ecc69890e10b55aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 01/53] fix: generate literal functions for literals behind a
 PEP 695 alias

---
 serde/compat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serde/compat.py b/serde/compat.py
index d87e7d1..9c1264e 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -466,6 +466,8 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
+        elif is_pep695_type_alias(cls):
+            recursive(cls.__value__)
         if is_dataclass(cls):
             stack.append(cls)
             if isinstance(cls, type):
-- 
2.43.0


From 5d449ef4223b4226c064c2cea34ea79448a34701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 02/53] fix: deserialize a bare frozenset into a frozenset

---
 serde/de.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7c651d1..395cb1f 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -574,7 +574,7 @@ def from_obj(
                 res = [thisfunc(type_args(c)[0], e) for e in o]
         elif is_set(c):
             if is_bare_set(c):
-                res = set(o)
+                res = frozenset(o) if is_frozen_set(c) else set(o)
             elif is_frozen_set(c):
                 res = frozenset(thisfunc(type_args(c)[0], e) for e in o)
             else:
@@ -1098,7 +1098,7 @@ class Renderer:
         Render rvalue for set.
         """
         if is_bare_set(arg.type):
-            return f"set({arg.data})"
+            return f"{'frozenset' if is_frozen_set(arg.type) else 'set'}({arg.data})"
         elif is_frozen_set(arg.type):
             return f"frozenset({self.render(arg[0])} for v in {arg.data})"
         else:
-- 
2.43.0


From da88bfac46ad69e831616d884fdd8b72ef3ba4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 03/53] fix: deserialize the elements of a top-level tuple[T,
 ...]

---
 serde/de.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 395cb1f..7adfc04 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -590,8 +590,10 @@ def from_obj(
             else:
                 res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
-            if is_bare_tuple(c) or is_variable_tuple(c):
+            if is_bare_tuple(c):
                 res = tuple(e for e in o)
+            elif is_variable_tuple(c):
+                res = tuple(thisfunc(type_args(c)[0], e) for e in o)
             else:
                 res = tuple(thisfunc(type_args(c)[i], e) for i, e in enumerate(o))
         elif is_dict(c):
-- 
2.43.0


From d62a2c8bb63b0b752707c54ed8b79e1076fe4655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:51 +0000
Subject: [PATCH 04/53] fix: allow keyword-only fields to be declared before
 positional fields

---
 serde/de.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7adfc04..35c4af1 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1413,12 +1413,11 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
   try:
     return cls(
-    {% for f in fields %}
-    {% if f.kw_only %}
-    {{f.name}}=__{{f.name}},
-    {% else %}
+    {% for f in fields if not f.kw_only %}
     __{{f.name}},
-    {% endif %}
+    {% endfor %}
+    {% for f in fields if f.kw_only %}
+    {{f.name}}=__{{f.name}},
     {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
-- 
2.43.0


From 6316a652b29e7f046812338392098cbde4af8e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:17 +0000
Subject: [PATCH 05/53] fix: align from_tuple with to_tuple and pass
 keyword-only fields by keyword

---
 serde/de.py | 83 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 20 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 35c4af1..3d00762 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1323,14 +1323,17 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f,loop.index-1))}}
+  __{{f.name}} = {{rvalue(arg(f, positions[f.name]))}}
   {% endfor %}
 
   try:
     return cls(
-      {% for f in fields %}
+      {% for f in fields if not f.kw_only %}
       __{{f.name}},
       {% endfor %}
+      {% for f in fields if f.kw_only %}
+      {{f.name}}=__{{f.name}},
+      {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
     raise SerdeError(e)
@@ -1502,6 +1505,31 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 )
 
 
+def get_tuple_positions(fields: Iterable[DeField[Any]]) -> dict[str, int]:
+    """
+    Get the index of each field in the tuple made by `to_tuple`. The fields skipped in serialization
+    don't have a position, and a flattened dataclass occupies as many positions as it has fields.
+    """
+    positions: dict[str, int] = {}
+    index = 0
+    for f in fields:
+        if f.skip or f.skip_serializing or f.name is None:
+            continue
+        positions[f.name] = index
+        index += get_tuple_width(f)
+    return positions
+
+
+def get_tuple_width(f: DeField[Any]) -> int:
+    """
+    Get the number of tuple elements the field is serialized into.
+    """
+    child = get_flattened_class(f)
+    if child is None:
+        return 1
+    return sum(get_tuple_width(c) for c in defields(child) if not (c.skip or c.skip_serializing))
+
+
 def render_from_iter(
     cls: type[Any],
     legacy_class_deserializer: DeserializeFunc | None = None,
@@ -1517,7 +1545,16 @@ def render_from_iter(
         class_name=typename(cls),
     )
     serde_scope = getattr(cls, SERDE_SCOPE)
-    fields = list(filter(renderable, defields(cls)))
+    all_fields = defields(cls)
+    positions = get_tuple_positions(all_fields)
+    fields = []
+    force_kw = False
+    for f in all_fields:
+        if renderable(f) and (serde_scope.transparent or f.name in positions):
+            f.kw_only = f.kw_only or force_kw
+            fields.append(f)
+        else:
+            force_kw = True
     if serde_scope.transparent:
         field = dataclasses.replace(fields[0], alias=[], rename=None, case=None)
         field.iterbased = True
@@ -1535,6 +1572,7 @@ def render_from_iter(
             func=FROM_ITER,
             serde_scope=serde_scope,
             fields=fields,
+            positions=positions,
             cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
@@ -1551,26 +1589,31 @@ def get_known_fields(f: DeField[Any], rename_all: str | None) -> list[str]:
     return names + f.alias
 
 
+def get_flattened_class(f: DeField[Any]) -> type[Any] | None:
+    """
+    Get the dataclass flattened by the field if any.
+    """
+    if not f.flatten or is_flatten_dict(f.type):
+        return None
+    if isinstance(f.type, type) and is_dataclass(f.type):
+        return cast(type[Any], f.type)
+    elif is_opt(f.type):
+        return next(
+            (
+                cast(type[Any], arg)
+                for arg in get_args(f.type)
+                if isinstance(arg, type) and is_dataclass(arg)
+            ),
+            None,
+        )
+    return None
+
+
 def _collect_flattened_dataclass_child_scopes(fields: list[DeField[Any]]) -> dict[str, Scope]:
     flattened_children: dict[str, Scope] = {}
     for f in fields:
-        if not f.flatten or is_flatten_dict(f.type) or f.name is None:
-            continue
-
-        child_cls: type[Any] | None = None
-        if isinstance(f.type, type) and is_dataclass(f.type):
-            child_cls = cast(type[Any], f.type)
-        elif is_opt(f.type):
-            child_cls = next(
-                (
-                    cast(type[Any], arg)
-                    for arg in get_args(f.type)
-                    if isinstance(arg, type) and is_dataclass(arg)
-                ),
-                None,
-            )
-
-        if child_cls is not None:
+        child_cls = get_flattened_class(f)
+        if child_cls is not None and f.name is not None:
             flattened_children[f.name] = cast(Scope, getattr(child_cls, SERDE_SCOPE))
     return flattened_children
 
-- 
2.43.0


From 693e5772b1162bc802d6166261c5252a271210bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:44 +0000
Subject: [PATCH 06/53] fix: honour alias for every field type and next to
 rename

---
 serde/de.py | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 3d00762..70c4093 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -17,7 +17,7 @@ from beartype import beartype, BeartypeConf
 from beartype.door import is_bearable
 from beartype.roar import BeartypeCallHintParamViolation
 from dataclasses import dataclass, is_dataclass
-from typing import Any, Generic, Iterator, Literal, TypeVar, cast, overload
+from typing import Any, Generic, Literal, TypeVar, cast, overload
 from typing_extensions import dataclass_transform
 
 from .compat import (
@@ -844,6 +844,9 @@ class DeField(Field[T]):
 
         if self.iterbased:
             return f"{self.datavar}[{self.index}]"
+        elif self.alias:
+            raise_error = not (is_union(self.type) and type(None) in get_args(self.type))
+            return f"_get_by_aliases({self.datavar}, [{self.keys()}], raise_error={raise_error})"
         elif is_union(self.type) and type(None) in get_args(self.type):
             return f'{self.datavar}.get("{self.conv_name()}")'
         else:
@@ -856,9 +859,17 @@ class DeField(Field[T]):
     def data_or(self) -> str:
         if self.iterbased:
             return self.data
+        elif self.alias:
+            return f"_get_by_aliases({self.datavar}, [{self.keys()}], raise_error=False)"
         else:
             return f'{self.datavar}.get("{self.conv_name()}")'
 
+    def keys(self) -> str:
+        """
+        Renders the keys from which the value is taken i.e. the field's key and its aliases.
+        """
+        return ",".join(f'"{s}"' for s in [self.conv_name(), *self.alias])
+
 
 @dataclass
 class InnerField(DeField[T]):
@@ -1077,13 +1088,7 @@ class Renderer:
                 ]
             )
         else:
-            name = arg.conv_name()
-            if arg.alias:
-                aliases = (f'"{s}"' for s in [name, *arg.alias])
-                get = f"_get_by_aliases(data, [{','.join(aliases)}], raise_error=False)"
-            else:
-                get = f'{arg.datavar}.get("{name}")'
-            exists = f"{get} is not None"
+            exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
     def list(self, arg: DeField[Any]) -> str:
@@ -1193,11 +1198,7 @@ class Renderer:
         # member itself. Coercing the value beforehand (e.g. via ``coerce_object``)
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
-        dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
-        return f"deserialize_enum({typename(arg.type)}, {dat})"
+        return f"deserialize_enum({typename(arg.type)}, {arg.data})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1207,9 +1208,6 @@ class Renderer:
         """
         typ = typename(arg.type)
         dat = arg.data
-        if arg.alias:
-            aliases = (f'"{s}"' for s in [arg.name, *arg.alias])
-            dat = f"_get_by_aliases(data, [{','.join(aliases)}])"
         if isinstance(arg.type, type) and issubclass(arg.type, float):
             if self.suppress_coerce and suppress_coerce:
                 return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
@@ -1260,24 +1258,19 @@ class Renderer:
         Renders supplying default value during deserialization.
         """
 
-        def get_aliased_fields(arg: Field[Any]) -> Iterator[str]:
-            return (f'"{s}"' for s in [arg.name, *arg.alias])
-
         if arg.flatten:
             # When a field has the `flatten` attribute, iterate over its dataclass fields.
             # This ensures that the code checks keys in the data while considering aliases.
             flattened = []
             for subarg in defields(arg.type):
                 if subarg.alias:
-                    aliases = get_aliased_fields(subarg)
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])")
+                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{subarg.keys()}])")
                 else:
                     flattened.append(f'"{subarg.name}" in {arg.datavar}')
             exists = " and ".join(flattened)
         else:
             if arg.alias:
-                aliases = get_aliased_fields(arg)
-                exists = f"_exists_by_aliases({arg.datavar}, [{','.join(aliases)}])"
+                exists = f"_exists_by_aliases({arg.datavar}, [{arg.keys()}])"
             else:
                 exists = f'"{arg.conv_name()}" in {arg.datavar}'
 
-- 
2.43.0


From a53aceb060c05a667a6847eb6c9377a959924d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:13 +0000
Subject: [PATCH 07/53] fix: honour call options when a union is passed at top
 level

---
 serde/core.py | 17 ++++++++++++++---
 serde/de.py   |  7 ++++++-
 serde/se.py   |  8 +++++++-
 3 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index dfea224..ffbb9fb 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -200,7 +200,14 @@ class Cache:
         self.classes[cache_key] = wrapper
         return wrapper
 
-    def serialize_union(self, cls: type[Any], obj: Any) -> Any:
+    def serialize_union(
+        self,
+        cls: type[Any],
+        obj: Any,
+        reuse_instances: bool | None = None,
+        convert_sets: bool | None = None,
+        skip_none: bool = False,
+    ) -> Any:
         """
         Serialize the specified Union into dict or tuple.
         """
@@ -208,12 +215,13 @@ class Cache:
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
         func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
-        return scope.funcs[func_name](obj, False, False)
+        return scope.funcs[func_name](obj, reuse_instances, convert_sets, skip_none)
 
     def deserialize_union(
         self,
         cls: type[T],
         data: Any,
+        reuse_instances: bool | None = None,
         deserialize_numbers: Callable[[str | int], float] | None = None,
     ) -> T:
         """
@@ -226,7 +234,10 @@ class Cache:
         return cast(
             T,
             scope.funcs[func_name](
-                cls=union_cls, data=data, deserialize_numbers=deserialize_numbers
+                cls=union_cls,
+                data=data,
+                reuse_instances=reuse_instances,
+                deserialize_numbers=deserialize_numbers,
             ),
         )
 
diff --git a/serde/de.py b/serde/de.py
index 70c4093..d036c42 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -536,7 +536,9 @@ def from_obj(
         # If a class in the argument is a non-dataclass class e.g. Union[Foo, Bar],
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to deserialize into the object.
-        return CACHE.deserialize_union(c, o, deserialize_numbers=deserialize_numbers)
+        return CACHE.deserialize_union(
+            c, o, reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers
+        )
 
     if is_generic(c):
         # Store subscripted generic type such as Foo[Bar] in "maybe_generic",
@@ -1449,6 +1451,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
+  if reuse_instances is None:
+    reuse_instances = {{serde_scope.reuse_instances_default}}
+
   errors = []
   {% for t in union_args %}
   try:
diff --git a/serde/se.py b/serde/se.py
index c3a0e18..f59d0ea 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -423,7 +423,13 @@ def to_obj(
         # pyserde generates a wrapper (de)serializable dataclass on the fly,
         # and use it to serialize the object.
         if c and is_union(c) and not is_opt(c):
-            return CACHE.serialize_union(c, o)
+            return CACHE.serialize_union(
+                c,
+                o,
+                reuse_instances=reuse_instances,
+                convert_sets=convert_sets,
+                skip_none=skip_none,
+            )
 
         if o is None:
             return None
-- 
2.43.0


From 6a610a8ed7b632f4378763fc8ff3a901b0392263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:44 +0000
Subject: [PATCH 08/53] fix: do not decode a union value into a container or
 string-based variant it is not

---
 serde/de.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index d036c42..cfac87e 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1480,6 +1480,12 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% if is_primitive(t) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
         raise Exception("Not a type of {{typename(t)}}")
+    {% elif is_list(t) or is_set(t) or is_deque(t) or is_tuple(t) %}
+    if isinstance(fake_dict["fake_key"], (str, bytes, bytearray, collections.abc.Mapping)):
+        raise Exception("Not a type of {{typename(t)}}")
+    {% elif is_str_serializable(t) %}
+    if type(fake_dict["fake_key"]) in ({% for p in numbers %}{{typename(p)}}, {% endfor %}):
+        raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
     ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
@@ -1732,6 +1738,12 @@ def render_union_func(
         rvalue=renderer.render,
         is_primitive=is_primitive,
         is_none=is_none,
+        is_list=is_list,
+        is_set=is_set,
+        is_deque=is_deque,
+        is_tuple=is_tuple,
+        is_str_serializable=is_str_serializable,
+        numbers=[t for t in union_args if t in (int, float, bool)],
         typename=typename,
     )
 
-- 
2.43.0


From 30b3c60c8eb5562b081ae1820464692890e422a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 09/53] fix: decode enums and primitive subclasses in a union
 from their serialized value

---
 serde/de.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index cfac87e..395231c 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1477,8 +1477,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if is_primitive(t) or is_none(t) %}
-    if not isinstance(fake_dict["fake_key"], {{typename(t)}}):
+    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
+    if not isinstance(fake_dict["fake_key"], {{typename(primitive_base(t))}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% elif is_list(t) or is_set(t) or is_deque(t) or is_tuple(t) %}
     if isinstance(fake_dict["fake_key"], (str, bytes, bytearray, collections.abc.Mapping)):
@@ -1721,6 +1721,15 @@ def render_from_dict(
     return res
 
 
+def primitive_base(typ: type[Any]) -> type[Any]:
+    """
+    Get the primitive type which values of the primitive (sub)class are serialized into.
+    """
+    if isinstance(typ, type):
+        return next((p for p in (bool, int, float, str) if issubclass(typ, p)), typ)
+    return typ
+
+
 def render_union_func(
     cls: type[Any], union_args: Sequence[type[Any]], tagging: Tagging = DefaultTagging
 ) -> str:
@@ -1738,6 +1747,8 @@ def render_union_func(
         rvalue=renderer.render,
         is_primitive=is_primitive,
         is_none=is_none,
+        is_enum=is_enum,
+        primitive_base=primitive_base,
         is_list=is_list,
         is_set=is_set,
         is_deque=is_deque,
-- 
2.43.0


From 2b02557abb6a1745a3ff28234d41d6565e5892a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 10/53] fix: accept a frozenset as a union variant

---
 serde/compat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 9c1264e..60e125e 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -200,9 +200,9 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
         args = type_args(typ)
         if args:
             et = thisfunc(args[0])
-            return f"{mod}set[{et}]"
+            return f"{mod}{'frozenset' if is_frozen_set(typ) else 'set'}[{et}]"
         else:
-            return f"{mod}set"
+            return f"{mod}{'frozenset' if is_frozen_set(typ) else 'set'}"
     elif is_dict(typ):
         args = type_args(typ)
         if args and len(args) == 2:
-- 
2.43.0


From 47821e40a61ef0dec6074cf68868694a049c46bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 11/53] fix: accept a PEP 695 alias as a union variant

---
 serde/compat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serde/compat.py b/serde/compat.py
index 60e125e..1e1bafe 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -397,6 +397,7 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
                 recursive(args[0])
                 recursive(args[1])
         elif is_pep695_type_alias(cls):
+            lst.add(cls)
             recursive(cls.__value__)
         else:
             lst.add(cls)
-- 
2.43.0


From 684a76d8948c082942d326b93ce1975f195e2fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:12 +0000
Subject: [PATCH 12/53] fix: try the value types of all the members when
 deserializing an enum

---
 serde/core.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index ffbb9fb..99fc016 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1168,14 +1168,18 @@ def deserialize_enum(typ: type[enum.Enum], value: Any) -> enum.Enum:
     try:
         return typ(value)
     except (ValueError, KeyError):
-        # A ValueError/KeyError here means ``typ`` has at least one member (an
-        # empty enum would raise TypeError instead), so ``__members__`` is never
-        # empty in this branch.
-        member_value_type = type(next(iter(typ.__members__.values())).value)
-        if isinstance(value, list) and member_value_type is tuple:
-            return typ(tuple(value))
-        if isinstance(value, str) and member_value_type is not str:
-            return typ(member_value_type(value))
+        for member_value_type in {type(m.value): None for m in typ.__members__.values()}:
+            try:
+                if isinstance(value, list) and member_value_type is tuple:
+                    return typ(tuple(value))
+                if issubclass(member_value_type, enum.Enum):
+                    return typ(deserialize_enum(member_value_type, value))
+                if isinstance(value, str) and member_value_type is bool:
+                    return typ({"true": True, "false": False}[value.lower()])
+                if isinstance(value, str) and member_value_type is not str:
+                    return typ(member_value_type(value))
+            except (ValueError, KeyError, TypeError):
+                continue
         raise
 
 
-- 
2.43.0


From 929c1d9fdd2757d8af750ab660f60b45fffe7d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:59 +0000
Subject: [PATCH 13/53] fix: do not decode a str of a union into an enum
 without str values

---
 serde/de.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/serde/de.py b/serde/de.py
index 395231c..34540f1 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1483,6 +1483,9 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif is_list(t) or is_set(t) or is_deque(t) or is_tuple(t) %}
     if isinstance(fake_dict["fake_key"], (str, bytes, bytearray, collections.abc.Mapping)):
         raise Exception("Not a type of {{typename(t)}}")
+    {% elif is_enum(t) and str in union_args and not has_str_member(t) %}
+    if isinstance(fake_dict["fake_key"], str):
+        raise Exception("Not a type of {{typename(t)}}")
     {% elif is_str_serializable(t) %}
     if type(fake_dict["fake_key"]) in ({% for p in numbers %}{{typename(p)}}, {% endfor %}):
         raise Exception("Not a type of {{typename(t)}}")
@@ -1730,6 +1733,15 @@ def primitive_base(typ: type[Any]) -> type[Any]:
     return typ
 
 
+def has_str_member(typ: Any) -> bool:
+    """
+    Test if any member of the enum is serialized into `str`.
+    """
+    return any(
+        has_str_member(type(m.value)) if is_enum(m.value) else isinstance(m.value, str) for m in typ
+    )
+
+
 def render_union_func(
     cls: type[Any], union_args: Sequence[type[Any]], tagging: Tagging = DefaultTagging
 ) -> str:
@@ -1748,6 +1760,8 @@ def render_union_func(
         is_primitive=is_primitive,
         is_none=is_none,
         is_enum=is_enum,
+        has_str_member=has_str_member,
+        str=str,
         primitive_base=primitive_base,
         is_list=is_list,
         is_set=is_set,
-- 
2.43.0


From 851a0fb08fcb9c504fdafbd14c7390c68616ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 14/53] fix: serialize the elements of top-level containers by
 their declared type

---
 serde/se.py | 50 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 41 insertions(+), 9 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index f59d0ea..d09297a 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -12,10 +12,12 @@ import typing
 import itertools
 import jinja2
 from dataclasses import dataclass, is_dataclass
+from enum import Enum
 from typing import Any, Generic, Literal, TypeVar
-from collections import deque, Counter
+from collections import deque
 from collections.abc import (
     Callable,
+    Hashable,
     Iterable,
     Iterator,
     Mapping,
@@ -387,6 +389,26 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     return None
 
 
+def element_type(c: Any | None, n: int = 0) -> Any | None:
+    """
+    Get the declared type of the `n`-th element of a container type, or `None` if it isn't declared.
+
+    >>> element_type(list[int])
+    <class 'int'>
+    >>> element_type(dict[str, int], 1)
+    <class 'int'>
+    >>> element_type(list)
+    """
+    if c is None:
+        return None
+    args = type_args(c)
+    if is_list(c) or is_set(c) or is_deque(c) or is_variable_tuple(c):
+        n = 0
+    elif not is_tuple(c) and not is_dict(c) and not is_counter(c):
+        return None
+    return args[n] if n < len(args) else None
+
+
 def to_obj(
     o: Any,
     named: bool,
@@ -405,6 +427,10 @@ def to_obj(
             skip_none=skip_none,
         )
 
+    def key_to_obj(key: Any, typ: Any | None) -> Any:
+        res = thisfunc(key, c=typ)
+        return res if isinstance(res, Hashable) else key
+
     try:
         thisfunc = functools.partial(
             to_obj,
@@ -433,6 +459,8 @@ def to_obj(
 
         if o is None:
             return None
+        if c is not None and is_opt(c) and not is_bare_opt(c):
+            return thisfunc(o, c=type_args(c)[0])
         class_serializer = find_global_class_serializer(type(o))
         if class_serializer is not None:
             return class_serializer.serialize(o)
@@ -444,20 +472,24 @@ def to_obj(
             return serializable_to_obj(o)
         elif is_serializable(o):
             return serializable_to_obj(o)
+        elif isinstance(o, Enum):
+            return enum_value(type(o), o)
         elif is_bearable(o, list):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
-            return [thisfunc(e) for e in o]
+            return [thisfunc(e, c=element_type(c)) for e in o]
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
-            return tuple(thisfunc(e) for e in o)
+            return tuple(thisfunc(e, c=element_type(c, i)) for i, e in enumerate(o))
         elif isinstance(o, Mapping):
-            return {k: thisfunc(v) for k, v in o.items()}
+            return {
+                key_to_obj(k, element_type(c)): thisfunc(v, c=element_type(c, 1))
+                for k, v in o.items()
+            }
         elif isinstance(o, Set):
-            return [thisfunc(e) for e in o]
+            return [thisfunc(e, c=element_type(c)) for e in o]
         elif isinstance(o, deque):
-            return [thisfunc(e) for e in o]
-        elif isinstance(o, Counter):
-            return dict(o)
+            return [thisfunc(e, c=element_type(c)) for e in o]
         elif is_str_serializable_instance(o) or is_datetime_instance(o):
-            se_cls = o.__class__ if not c or c is Any else c
+            declared = isinstance(c, type) and c is not Any and isinstance(o, c)
+            se_cls = c if declared else o.__class__
             return CACHE.serialize(
                 se_cls,
                 o,
-- 
2.43.0


From 5053135c19247c8fc3431ef1ba51e95b94a85e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:07 +0000
Subject: [PATCH 15/53] fix: match literals exactly, also at top level, and
 enums at top level

---
 serde/core.py | 33 ++++++++++++++++++++++++++++++++-
 serde/de.py   | 18 ++++++++----------
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 99fc016..51c1255 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -409,7 +409,7 @@ def is_instance(obj: Any, typ: Any) -> bool:
     elif is_generic(typ):
         return is_generic_instance(obj, typ)
     elif is_literal(typ):
-        return True
+        return is_literal_instance(obj, typ)
     elif is_new_type_primitive(typ):
         inner = getattr(typ, "__supertype__", None)
         if type(inner) is type:
@@ -438,6 +438,14 @@ def is_union_instance(obj: Any, typ: type[Any]) -> bool:
     return False
 
 
+def is_literal_instance(obj: Any, typ: type[Any]) -> bool:
+    try:
+        find_literal(type_args(typ), obj)
+        return True
+    except SerdeError:
+        return False
+
+
 def is_list_instance(obj: Any, typ: type[Any]) -> bool:
     origin = get_origin(typ) or typ
     if origin is list:
@@ -967,6 +975,29 @@ def literal_func_name(literal_args: Sequence[Any]) -> str:
     )
 
 
+def find_literal(args: Sequence[Any], value: Any) -> Any:
+    """
+    Find the literal a deserialized value stands for.
+
+    >>> find_literal((1, "a"), "a")
+    'a'
+    >>> find_literal((1, "a"), True)
+    Traceback (most recent call last):
+    ...
+    serde.compat.SerdeError: Can not deserialize True as Literal[1, 'a'].
+    """
+    for arg in args:
+        # An equal value of other type isn't the literal, e.g. True for Literal[1].
+        if (
+            isinstance(value, type(arg))
+            and isinstance(value, bool) == isinstance(arg, bool)
+            and value == arg
+        ):
+            return arg
+    literal_name = f"Literal[{', '.join([repr(a) for a in args])}]"
+    raise SerdeError(f"Can not deserialize {value!r} as {literal_name}.")
+
+
 @dataclass(frozen=True)
 class Tagging:
     """
diff --git a/serde/de.py b/serde/de.py
index 34540f1..9032ae9 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -88,6 +88,7 @@ from .core import (
     has_default_factory,
     ensure,
     fields,
+    find_literal,
     is_instance,
     literal_func_name,
     logger,
@@ -325,6 +326,7 @@ def deserialize(
         g["disabled"] = disabled
         g["coerce_object"] = coerce_object
         g["deserialize_enum"] = deserialize_enum
+        g["find_literal"] = find_literal
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
@@ -369,6 +371,7 @@ def deserialize(
         # render literal functions
         for literal in iter_literals(cls):
             literal_args = type_args(literal)
+            g[f"{literal_func_name(literal_args)}_args"] = literal_args
             add_func(
                 scope, literal_func_name(literal_args), render_literal_func(cls, literal_args), g
             )
@@ -622,6 +625,10 @@ def from_obj(
             res = deserialize_numpy_array_direct(c, o)
         elif is_datetime(c):
             res = c.fromisoformat(o)
+        elif is_enum(c):
+            res = deserialize_enum(c, o)
+        elif is_literal(c):
+            res = find_literal(type_args(c), o)
         elif isinstance(c, type) and issubclass(c, float):
             res = deserialize_numbers(o) if deserialize_numbers else c(o)
         elif is_any(c) or is_ellipsis(c):
@@ -1503,9 +1510,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
-  if data in ({%- for v in literal_args -%}{{repr(v)}},{%- endfor -%}):
-    return data
-  raise SerdeError("Can not deserialize " + repr(data) + " as {{literal_name}}.")
+  return find_literal({{func}}_args, data)
   """,
         }
     )
@@ -1776,14 +1781,7 @@ def render_union_func(
 def render_literal_func(
     cls: type[Any], literal_args: Sequence[Any], tagging: Tagging = DefaultTagging
 ) -> str:
-    literal_name = f"Literal[{', '.join([repr(a) for a in literal_args])}]"
     return jinja2_env.get_template("literal").render(
         func=literal_func_name(literal_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
-        literal_args=literal_args,
-        literal_name=literal_name,
-        tagging=tagging,
-        is_taggable=Tagging.is_taggable,
-        repr=repr,
-        type=type,
     )
-- 
2.43.0


From 17e76b00c2c0a2ccacc142919936a8bacd0df29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 16/53] fix: keep the functions of different unions and
 literals apart

---
 serde/core.py | 38 ++++++++++++++++++++++++++++++++++----
 serde/de.py   | 18 +++++++++---------
 serde/se.py   |  8 ++++----
 3 files changed, 47 insertions(+), 17 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 51c1255..f69da1b 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -93,6 +93,8 @@ SETTINGS = {"debug": False}
 @dataclass(frozen=True)
 class UnionCacheKey:
     union: Hashable
+    args: tuple[Hashable, ...]
+    """ Unions are equal irrespective of the order of their arguments """
     tagging: Tagging
 
 
@@ -179,7 +181,7 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union_cls, type_args(union_cls), tagging)
         wrapper = self.classes.get(cache_key)
         return wrapper or self._generate_union_class(cls)
 
@@ -191,7 +193,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union=union_cls, tagging=tagging)
+        cache_key = UnionCacheKey(union_cls, type_args(union_cls), tagging)
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
@@ -214,7 +216,7 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(union_cls)))
+        func_name = union_func_key(UNION_SE_PREFIX, list(type_args(union_cls)))
         return scope.funcs[func_name](obj, reuse_instances, convert_sets, skip_none)
 
     def deserialize_union(
@@ -230,7 +232,7 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_name(UNION_DE_PREFIX, list(type_args(union_cls)))
+        func_name = union_func_key(UNION_DE_PREFIX, list(type_args(union_cls)))
         return cast(
             T,
             scope.funcs[func_name](
@@ -975,6 +977,34 @@ def literal_func_name(literal_args: Sequence[Any]) -> str:
     )
 
 
+def escape_identifier(s: str) -> str:
+    """
+    Encode any string into characters valid in an identifier, distinct strings distinctly.
+
+    >>> escape_identifier("a")
+    'a'
+    >>> escape_identifier("a+") != escape_identifier("a-")
+    True
+    """
+    return re.sub(r"[^A-Za-z0-9]", lambda m: f"_{ord(m.group()):#x}_", s)
+
+
+def union_func_key(prefix: str, union_args: Sequence[Any]) -> str:
+    """
+    Function name like `union_func_name`, but different unions never share a name.
+    """
+    return f"{prefix}_{'_'.join(escape_identifier(typename(e)) for e in union_args)}"
+
+
+def literal_func_key(literal_args: Sequence[Any]) -> str:
+    """
+    Function name like `literal_func_name`, but different literals never share a name.
+    """
+    return f"{LITERAL_DE_PREFIX}_" + "_".join(
+        escape_identifier(f"{typename(type(a))} {a!r}") for a in literal_args
+    )
+
+
 def find_literal(args: Sequence[Any], value: Any) -> Any:
     """
     Find the literal a deserialized value stands for.
diff --git a/serde/de.py b/serde/de.py
index 9032ae9..c0e7d51 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -90,9 +90,9 @@ from .core import (
     fields,
     find_literal,
     is_instance,
-    literal_func_name,
+    literal_func_key,
     logger,
-    union_func_name,
+    union_func_key,
 )
 
 # Lazy numpy imports to improve startup time
@@ -363,7 +363,7 @@ def deserialize(
             union_args = type_args(union)
             add_func(
                 scope,
-                union_func_name(UNION_DE_PREFIX, union_args),
+                union_func_key(UNION_DE_PREFIX, union_args),
                 render_union_func(cls, union_args, tagging),
                 g,
             )
@@ -371,9 +371,9 @@ def deserialize(
         # render literal functions
         for literal in iter_literals(cls):
             literal_args = type_args(literal)
-            g[f"{literal_func_name(literal_args)}_args"] = literal_args
+            g[f"{literal_func_key(literal_args)}_args"] = literal_args
             add_func(
-                scope, literal_func_name(literal_args), render_literal_func(cls, literal_args), g
+                scope, literal_func_key(literal_args), render_literal_func(cls, literal_args), g
             )
 
         # Collect default values and default factories used in the generated code.
@@ -1243,7 +1243,7 @@ class Renderer:
         return f"{arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {ctor}"
 
     def union_func(self, arg: DeField[Any]) -> str:
-        func_name = union_func_name(UNION_DE_PREFIX, type_args(arg.type))
+        func_name = union_func_key(UNION_DE_PREFIX, type_args(arg.type))
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1253,7 +1253,7 @@ class Renderer:
         )
 
     def literal(self, arg: DeField[Any]) -> str:
-        func_name = literal_func_name(type_args(arg.type))
+        func_name = literal_func_key(type_args(arg.type))
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1754,7 +1754,7 @@ def render_union_func(
 
     renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_DE_PREFIX, union_args),
+        func=union_func_key(UNION_DE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -1782,6 +1782,6 @@ def render_literal_func(
     cls: type[Any], literal_args: Sequence[Any], tagging: Tagging = DefaultTagging
 ) -> str:
     return jinja2_env.get_template("literal").render(
-        func=literal_func_name(literal_args),
+        func=literal_func_key(literal_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
     )
diff --git a/serde/se.py b/serde/se.py
index d09297a..0d32341 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -87,7 +87,7 @@ from .core import (
     fields,
     is_instance,
     logger,
-    union_func_name,
+    union_func_key,
     GLOBAL_CLASS_SERIALIZER,
 )
 
@@ -305,7 +305,7 @@ def serialize(
         # render all union functions
         for union in iter_unions(cls):
             union_args = list(type_args(union))
-            union_key = union_func_name(UNION_SE_PREFIX, union_args)
+            union_key = union_func_key(UNION_SE_PREFIX, union_args)
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
             scope.union_se_args[union_key] = union_args
 
@@ -886,7 +886,7 @@ def render_union_func(
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
     renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls))
     return jinja2_env.get_template("union").render(
-        func=union_func_name(UNION_SE_PREFIX, union_args),
+        func=union_func_key(UNION_SE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
@@ -1172,7 +1172,7 @@ class Renderer:
         return f"str({arg.varname})"
 
     def union_func(self, arg: SeField[Any]) -> str:
-        func_name = union_func_name(UNION_SE_PREFIX, list(type_args(arg.type)))
+        func_name = union_func_key(UNION_SE_PREFIX, list(type_args(arg.type)))
         return (
             f"serde_scope.funcs['{func_name}']({arg.varname}, "
             "reuse_instances, convert_sets, skip_none)"
-- 
2.43.0


From 1f3fd0721c82603e7aeda7f98646e70fcfe4e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 17/53] fix: honour skip_none in to_pickle

---
 serde/pickle.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/serde/pickle.py b/serde/pickle.py
index b48fb08..4a505ac 100644
--- a/serde/pickle.py
+++ b/serde/pickle.py
@@ -34,7 +34,14 @@ def to_pickle(
     **opts: Any,
 ) -> bytes:
     return se.serialize(
-        to_dict(obj, c=cls, reuse_instances=reuse_instances, convert_sets=convert_sets), **opts
+        to_dict(
+            obj,
+            c=cls,
+            reuse_instances=reuse_instances,
+            convert_sets=convert_sets,
+            skip_none=skip_none,
+        ),
+        **opts,
     )
 
 
-- 
2.43.0


From 830a4be3c85b6c3f036e0d34e2103201a90365df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:41 +0000
Subject: [PATCH 18/53] fix: honour skip_none in to_msgpack

---
 serde/msgpack.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serde/msgpack.py b/serde/msgpack.py
index 22bab81..bbee20e 100644
--- a/serde/msgpack.py
+++ b/serde/msgpack.py
@@ -50,6 +50,7 @@ def to_msgpack(
     ext_dict: dict[type[Any], int] | None = None,
     reuse_instances: bool = False,
     convert_sets: bool = True,
+    skip_none: bool = False,
     **opts: Any,
 ) -> bytes:
     """
@@ -76,7 +77,12 @@ def to_msgpack(
         if ext_type_code is None:
             raise SerdeError(f"Could not find type code for {obj_type.__name__} in ext_dict")
 
-    kwargs: Any = {"c": cls, "reuse_instances": reuse_instances, "convert_sets": convert_sets}
+    kwargs: Any = {
+        "c": cls,
+        "reuse_instances": reuse_instances,
+        "convert_sets": convert_sets,
+        "skip_none": skip_none,
+    }
     dict_or_tuple = to_dict(obj, **kwargs) if named else to_tuple(obj, **kwargs)
     return se.serialize(
         dict_or_tuple,
-- 
2.43.0


From 8e9ccfabcdf364ea291a5a37bf4fa0ebcdc468ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:01 +0000
Subject: [PATCH 19/53] fix: restore numeric keys of a Counter and of NewTypes
 turned into strings

---
 serde/de.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index c0e7d51..a3d15d0 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -51,6 +51,7 @@ from .compat import (
     is_literal,
     is_none,
     is_opt,
+    is_new_type_primitive,
     is_primitive,
     is_primitive_subclass,
     is_set,
@@ -559,6 +560,8 @@ def from_obj(
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
         )
+        # Formats such as JSON stringify the numbers used as a key.
+        keyfunc = functools.partial(thisfunc, deserialize_numbers=None)
         class_deserializer = find_global_class_deserializer(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
@@ -593,7 +596,7 @@ def from_obj(
             if is_bare_counter(c):
                 res = collections.Counter(o)
             else:
-                res = collections.Counter({thisfunc(type_args(c)[0], k): v for k, v in o.items()})
+                res = collections.Counter({keyfunc(type_args(c)[0], k): v for k, v in o.items()})
         elif is_tuple(c):
             if is_bare_tuple(c):
                 res = tuple(e for e in o)
@@ -611,13 +614,13 @@ def from_obj(
                 res = collections.defaultdict(
                     origin if origin else v.type,
                     {
-                        thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
+                        keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v)
                         for k, v in o.items()
                     },
                 )
             else:
                 res = {
-                    thisfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
+                    keyfunc(type_args(c)[0], k): thisfunc(type_args(c)[1], v) for k, v in o.items()
                 }
         elif _is_numpy_array(c):
             from .numpy import deserialize_numpy_array_direct
@@ -1139,7 +1142,7 @@ class Renderer:
             k = arg[0]
             k.name = "k"
             k.datavar = "k"
-            return f"collections.Counter({{{self.render(k)}: v for k, v in {arg.data}.items()}})"
+            return f"collections.Counter({{{self.dict_key(k)}: v for k, v in {arg.data}.items()}})"
 
     def tuple(self, arg: DeField[Any]) -> str:
         """
@@ -1193,6 +1196,8 @@ class Renderer:
         ``bool`` is intentionally excluded because ``bool("false")`` is ``True``.
         """
         typ = arg.type
+        while is_pep695_type_alias(typ) or is_new_type_primitive(typ):
+            typ = typ.__value__ if is_pep695_type_alias(typ) else typ.__supertype__  # type: ignore
         if (
             isinstance(typ, type)
             and issubclass(typ, (int, float))
-- 
2.43.0


From 004ab61edf1ac458ed90376592d95cbc38298f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:26 +0000
Subject: [PATCH 20/53] fix: coerce numbers of NewTypes and subclasses of float
 into the declared class

---
 serde/de.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index a3d15d0..82943ca 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -17,7 +17,7 @@ from beartype import beartype, BeartypeConf
 from beartype.door import is_bearable
 from beartype.roar import BeartypeCallHintParamViolation
 from dataclasses import dataclass, is_dataclass
-from typing import Any, Generic, Literal, TypeVar, cast, overload
+from typing import Any, Generic, Literal, NewType, TypeVar, cast, overload
 from typing_extensions import dataclass_transform
 
 from .compat import (
@@ -519,6 +519,9 @@ def from_obj(
     if is_pep695_type_alias(c):
         c = c.__value__  # type: ignore[attr-defined]
 
+    if isinstance(c, NewType) and is_new_type_primitive(c):
+        c = c.__supertype__  # type: ignore[attr-defined]
+
     # It is possible that the parser already generates the correct data type requested
     # by the caller. Hence, it should be checked early to avoid doing anymore work.
     if type(o) is c:
@@ -633,7 +636,12 @@ def from_obj(
         elif is_literal(c):
             res = find_literal(type_args(c), o)
         elif isinstance(c, type) and issubclass(c, float):
-            res = deserialize_numbers(o) if deserialize_numbers else c(o)
+            if deserialize_numbers is None:
+                res = c(o)
+            elif c is float:
+                res = deserialize_numbers(o)
+            else:
+                res = c(deserialize_numbers(o))
         elif is_any(c) or is_ellipsis(c):
             res = o
         else:
@@ -1222,14 +1230,18 @@ class Renderer:
         """
         typ = typename(arg.type)
         dat = arg.data
-        if isinstance(arg.type, type) and issubclass(arg.type, float):
+        base: Any = getattr(arg.type, "__supertype__", arg.type)
+        if isinstance(base, type) and issubclass(base, float):
+            number = f"deserialize_numbers({dat})"
+            if base is not float:
+                number = f"{typ}({number})"
             if self.suppress_coerce and suppress_coerce:
-                return f"deserialize_numbers({dat}) if deserialize_numbers else {dat}"
+                return f"{number} if deserialize_numbers else {dat}"
             else:
                 assert arg.name
                 escaped_arg_name = arg.name.replace('"', '\\"')
                 return (
-                    f"deserialize_numbers({dat}) if deserialize_numbers else "
+                    f"{number} if deserialize_numbers else "
                     f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
                 )
         if self.suppress_coerce and suppress_coerce:
-- 
2.43.0


From f0a3a281b4136606ffbd179b285ac1b1db7687b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:04 +0000
Subject: [PATCH 21/53] fix: serialize subclasses of primitives as plain
 primitives

---
 serde/se.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 0d32341..fa392e2 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -55,6 +55,7 @@ from .compat import (
     is_none,
     is_opt,
     is_primitive,
+    is_primitive_subclass,
     is_set,
     is_str_serializable,
     is_str_serializable_instance,
@@ -274,6 +275,7 @@ def serialize(
         g["serde_scope"] = scope
         g["SerdeError"] = SerdeError
         g["enum_value"] = enum_value
+        g["primitive_value"] = primitive_value
         g["is_dataclass"] = is_dataclass
         g["typename"] = typename  # used in union functions
         g["is_instance"] = is_instance  # used in union functions
@@ -474,6 +476,8 @@ def to_obj(
             return serializable_to_obj(o)
         elif isinstance(o, Enum):
             return enum_value(type(o), o)
+        elif is_primitive_subclass(type(o)) and not _is_numpy_scalar(type(o)):
+            return primitive_value(o)
         elif is_bearable(o, list):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
             return [thisfunc(e, c=element_type(c)) for e in o]
         elif is_bearable(o, tuple):  # type: ignore[arg-type]  # pyright: ignore[reportArgumentType]
@@ -1161,7 +1165,9 @@ class Renderer:
         """
         typ = typename(arg.type)
         var = arg.varname
-        if self.suppress_coerce:
+        if self.suppress_coerce and is_primitive_subclass(arg.type):
+            return f"primitive_value({var})"
+        elif self.suppress_coerce:
             return var
         else:
             assert arg.name
@@ -1182,6 +1188,25 @@ class Renderer:
         return f"{arg.varname}"
 
 
+def primitive_value(v: Any) -> Any:
+    """
+    Helper function to get a plain primitive from an instance of a subclass of the primitive.
+
+    >>> class Id(str):
+    ...     pass
+    >>> type(primitive_value(Id("a")))
+    <class 'str'>
+    """
+    if isinstance(v, str):
+        return str.__str__(v)
+    elif isinstance(v, float):
+        return float.__float__(v)
+    elif isinstance(v, int) and not isinstance(v, bool):
+        return int.__int__(v)
+    else:
+        return v
+
+
 def enum_value(cls: Any, e: Any) -> Any:
     """
     Helper function to get value from enum or enum compatible value.
-- 
2.43.0


From 7055d0be0bf5d7c643ce9ac8f500d6852f7f1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 22/53] fix: check union variants against their type, not its
 name

---
 serde/compat.py |  4 ++--
 serde/de.py     | 11 ++++-------
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index 1e1bafe..c3b61a5 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -200,9 +200,9 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
         args = type_args(typ)
         if args:
             et = thisfunc(args[0])
-            return f"{mod}{'frozenset' if is_frozen_set(typ) else 'set'}[{et}]"
+            return f"{mod}set[{et}]"
         else:
-            return f"{mod}{'frozenset' if is_frozen_set(typ) else 'set'}"
+            return f"{mod}set"
     elif is_dict(typ):
         args = type_args(typ)
         if args and len(args) == 2:
diff --git a/serde/de.py b/serde/de.py
index 82943ca..877db52 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -362,12 +362,9 @@ def deserialize(
         # render all union functions
         for union in iter_unions(cls):
             union_args = type_args(union)
-            add_func(
-                scope,
-                union_func_key(UNION_DE_PREFIX, union_args),
-                render_union_func(cls, union_args, tagging),
-                g,
-            )
+            union_key = union_func_key(UNION_DE_PREFIX, union_args)
+            g[f"{union_key}_args"] = union_args
+            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
 
         # render literal functions
         for literal in iter_literals(cls):
@@ -1515,7 +1512,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
         raise Exception("Not a type of {{typename(t)}}")
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{typename(t)}}), "object is not of type '{{typename(t)}}'")
+    ensure(is_bearable(res, {{func}}_args[{{loop.index0}}]), "object is not of type '{{typename(t)}}'")
     return res
   except Exception as e:
     errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
-- 
2.43.0


From af300777e5cfe8c01cb4b3fc2a404e2563dc6184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 23/53] fix: pass call options and tuple form to values of type
 variables and Any

---
 serde/se.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index fa392e2..8b8d72f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -1013,7 +1013,11 @@ class Renderer:
         elif is_none(arg.type):
             res = "None"
         elif is_any(arg.type) or is_bearable(arg.type, TypeVar):  # type: ignore[arg-type]  # pyright: ignore
-            res = f"to_obj({arg.varname}, True, False, False, skip_none, typing.Any)"
+            reuse = "False" if is_any(arg.type) else "reuse_instances"
+            res = (
+                f"to_obj({arg.varname}, {self.func == TO_DICT}, {reuse}, "
+                "convert_sets, skip_none, typing.Any)"
+            )
         elif is_generic(arg.type):
             origin = get_origin(arg.type)
             assert origin
-- 
2.43.0


From 683e38ae1e8731893d60ac856ff5c98580f44f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 24/53] fix: serialize and deserialize flattened dataclasses
 with their own rules

---
 serde/core.py |  20 ++++++++++
 serde/de.py   |  56 +++++++++-------------------
 serde/se.py   | 100 +++++++++++++++++++++++++++-----------------------
 3 files changed, 91 insertions(+), 85 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index f69da1b..ccb490a 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -862,6 +862,26 @@ class Field(Generic[T]):
 F = TypeVar("F", bound=Field[Any])
 
 
+def get_flattened_class(f: Field[Any]) -> type[Any] | None:
+    """
+    Get the dataclass flattened by the field if any.
+    """
+    if not f.flatten or f.serializer or f.deserializer or is_flatten_dict(f.type):
+        return None
+    if isinstance(f.type, type) and dataclasses.is_dataclass(f.type):
+        return cast(type[Any], f.type)
+    elif is_opt(f.type):
+        return next(
+            (
+                cast(type[Any], arg)
+                for arg in type_args(f.type)
+                if isinstance(arg, type) and dataclasses.is_dataclass(arg)
+            ),
+            None,
+        )
+    return None
+
+
 def fields(
     field_cls: type[F],
     cls: type[Any],
diff --git a/serde/de.py b/serde/de.py
index 877db52..0107b03 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -84,6 +84,7 @@ from .core import (
     coerce_object,
     deserialize_enum,
     strict,
+    get_flattened_class,
     get_transparent_field,
     has_default,
     has_default_factory,
@@ -1094,20 +1095,25 @@ class Renderer:
         Render rvalue for Optional.
         """
         inner = arg[0]
-        if arg.iterbased or isinstance(arg, InnerField):
+        if arg.iterbased and get_flattened_class(arg):
+            assert arg.index is not None
+            data = f"{arg.datavar}[{arg.index}:{arg.index + get_tuple_width(arg)}]"
+            exists = f"any(v is not None for v in {data})"
+        elif arg.iterbased or isinstance(arg, InnerField):
             exists = f"{arg.data} is not None"
-        elif arg.flatten:
-            # Check nullabilities of all nested fields.
-            exists = " and ".join(
-                [
-                    f'{arg.datavar}.get("{f.name}") is not None'
-                    for f in dataclasses.fields(inner.type)
-                ]
-            )
+        elif get_flattened_class(arg):
+            exists = self.flattened_exists(arg)
         else:
             exists = f"{arg.data_or()} is not None"
         return f"({self.render(inner)}) if {exists} else None"
 
+    def flattened_exists(self, arg: DeField[Any]) -> str:
+        """
+        Render the condition that the data has any entry of a flattened dataclass.
+        """
+        child_scope: Scope = getattr(get_flattened_class(arg), SERDE_SCOPE)
+        return f"any(k in {arg.datavar} for k in {sorted(child_scope.de_known_fields)})"
+
     def list(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for list.
@@ -1281,16 +1287,8 @@ class Renderer:
         Renders supplying default value during deserialization.
         """
 
-        if arg.flatten:
-            # When a field has the `flatten` attribute, iterate over its dataclass fields.
-            # This ensures that the code checks keys in the data while considering aliases.
-            flattened = []
-            for subarg in defields(arg.type):
-                if subarg.alias:
-                    flattened.append(f"_exists_by_aliases({arg.datavar}, [{subarg.keys()}])")
-                else:
-                    flattened.append(f'"{subarg.name}" in {arg.datavar}')
-            exists = " and ".join(flattened)
+        if get_flattened_class(arg):
+            exists = self.flattened_exists(arg)
         else:
             if arg.alias:
                 exists = f"_exists_by_aliases({arg.datavar}, [{arg.keys()}])"
@@ -1615,26 +1613,6 @@ def get_known_fields(f: DeField[Any], rename_all: str | None) -> list[str]:
     return names + f.alias
 
 
-def get_flattened_class(f: DeField[Any]) -> type[Any] | None:
-    """
-    Get the dataclass flattened by the field if any.
-    """
-    if not f.flatten or is_flatten_dict(f.type):
-        return None
-    if isinstance(f.type, type) and is_dataclass(f.type):
-        return cast(type[Any], f.type)
-    elif is_opt(f.type):
-        return next(
-            (
-                cast(type[Any], arg)
-                for arg in get_args(f.type)
-                if isinstance(arg, type) and is_dataclass(arg)
-            ),
-            None,
-        )
-    return None
-
-
 def _collect_flattened_dataclass_child_scopes(fields: list[DeField[Any]]) -> dict[str, Scope]:
     flattened_children: dict[str, Scope] = {}
     for f in fields:
diff --git a/serde/se.py b/serde/se.py
index 8b8d72f..b0f269f 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -83,6 +83,7 @@ from .core import (
     add_func,
     coerce_object,
     disabled,
+    get_flattened_class,
     get_transparent_field,
     strict,
     fields,
@@ -311,7 +312,7 @@ def serialize(
             add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
             scope.union_se_args[union_key] = union_args
 
-        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g, serialize_class_var)
+        add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
         add_func(
             scope,
@@ -665,27 +666,25 @@ def sefields(cls: type[Any], serialize_class_var: bool = False) -> Iterator[SeFi
         yield f
 
 
-def add_field_serializers_to_scope(
-    sfields: Iterator[SeField[Any]], g: dict[str, Any], serialize_class_var: bool = False
-) -> None:
+def get_tuple_width(f: SeField[Any]) -> int:
     """
-    Register custom field serializers and skip_if predicates in the generated globals.
+    Get the number of tuple elements the field is serialized into.
+    """
+    child = get_flattened_class(f)
+    if child is None:
+        return 1
+    return sum(get_tuple_width(c) for c in sefields(child) if not (c.skip or c.skip_serializing))
+
 
-    A flattened dataclass field is rendered inline in the enclosing class's serialize
-    function, so the custom serializers and skip_if predicates of its inner fields must
-    be available in this scope too, not only those of the top-level fields (#453).
+def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str, Any]) -> None:
+    """
+    Register custom field serializers and skip_if predicates in the generated globals.
     """
     for f in sfields:
         if f.skip_if:
             g[f.skip_if.name] = f.skip_if
         if f.serializer:
             g[f.serializer.name] = f.serializer
-        if f.flatten:
-            inner = f[0] if is_opt(f.type) else f
-            if is_dataclass(inner.type):
-                add_field_serializers_to_scope(
-                    sefields(inner.type, serialize_class_var), g, serialize_class_var
-                )
 
 
 jinja2_env = jinja2.Environment(
@@ -710,6 +709,20 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
+  {% elif get_flattened_class(f) -%}
+  # Merge entries of flattened dataclass into result
+  if isinstance(subres, dict):
+    {% if f.skip_if -%}
+    if {{f.skip_if.name}}(subres):
+      subres = {}
+    {% endif -%}
+    {% if captures_unknowns(f) -%}
+    # The entries captured by a dict flattened in the child don't override declared fields
+    subres = {__k: __v for __k, __v in subres.items() if __k not in {{own_keys}}}
+    {% endif -%}
+    res.update(subres)
+  elif subres is not None:
+    {{lvalue(f)}} = subres
   {% elif f.skip_if -%}
   if not {{f.skip_if.name}}(subres):
     {{lvalue(f)}} = subres
@@ -751,7 +764,7 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
   return (
   {% for f in fields -%}
   {% if not (f.skip|default(False) or f.skip_serializing|default(False)) %}
-  {{rvalue(f)}},
+  {% if get_flattened_class(f) %}*{% endif %}({{rvalue(f)}}),
   {% endif -%}
   {% endfor -%}
   )
@@ -838,6 +851,7 @@ def render_to_tuple(
             fields=sefields(cls, serialize_class_var),
             type_check=type_check,
             rvalue=renderer.render,
+            get_flattened_class=get_flattened_class,
         )
 
 
@@ -878,9 +892,24 @@ def render_to_dict(
             type_check=type_check,
             lvalue=lrenderer.render,
             rvalue=renderer.render,
+            get_flattened_class=get_flattened_class,
+            captures_unknowns=captures_unknowns,
+            own_keys=[
+                f.conv_name(case) for f in sefields(cls, serialize_class_var) if not f.flatten
+            ],
         )
 
 
+def captures_unknowns(f: SeField[Any]) -> bool:
+    """
+    Test if the flattened dataclass has a flattened dict, directly or in its flattened fields.
+    """
+    child = get_flattened_class(f)
+    return child is not None and any(
+        (c.flatten and is_flatten_dict(c.type)) or captures_unknowns(c) for c in sefields(child)
+    )
+
+
 def render_union_func(
     cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
 ) -> str:
@@ -915,27 +944,12 @@ class LRenderer:
         """
         Render lvalue
         """
-        if is_dataclass(arg.type) and arg.flatten:
-            return self.flatten(arg)
-        elif is_opt(arg.type) and arg.flatten:
-            inner = arg[0]
-            if is_dataclass(inner.type):
-                return self.flatten(inner)
-        elif is_flatten_dict(arg.type) and arg.flatten:
+        if is_flatten_dict(arg.type) and arg.flatten:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
         return f'res["{arg.conv_name(self.case)}"]'
 
-    def flatten(self, arg: SeField[Any]) -> str:
-        """
-        Render field with flatten attribute.
-        """
-        flattened = []
-        for f in sefields(arg.type, self.serialize_class_var):
-            flattened.append(self.render(f))
-        return ", ".join(flattened)
-
 
 @dataclass
 class Renderer:
@@ -1055,17 +1069,11 @@ class Renderer:
         """
         Render rvalue for dataclass.
         """
-        if arg.flatten:
-            flattened = []
-            for f in sefields(arg.type, self.serialize_class_var):
-                f.parent = arg
-                flattened.append(self.render(f))
-            return ", ".join(flattened)
-        else:
-            return (
-                f"{arg.varname}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
-                "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
-            )
+        owner = typename(arg.type) if arg.flatten else arg.varname
+        return (
+            f"{owner}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
+            "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
+        )
 
     def opt(self, arg: SeField[Any]) -> str:
         """
@@ -1076,10 +1084,10 @@ class Renderer:
 
         inner = arg[0]
         inner.name = arg.varname
-        if arg.flatten:
-            return self.render(inner)
-        else:
-            return f"({self.render(inner)}) if {arg.varname} is not None else None"
+        none = "None"
+        if self.func == TO_ITER and get_flattened_class(arg):
+            none = f"(None,) * {get_tuple_width(arg)}"
+        return f"({self.render(inner)}) if {arg.varname} is not None else {none}"
 
     def list(self, arg: SeField[Any]) -> str:
         """
-- 
2.43.0


From e6d9b0545624eda55a9944a9a8114a4dd9d9f242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 25/53] fix: resolve type variables of nested and inherited
 generic classes

---
 serde/compat.py | 75 ++++++++++++++++++++++++++++++++++++++++++++++++-
 serde/core.py   |  3 ++
 serde/de.py     | 45 +++++++++++++++--------------
 3 files changed, 99 insertions(+), 24 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index c3b61a5..b8b780e 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -2,6 +2,7 @@
 Compatibility layer which handles mostly differences of `typing` module between python versions.
 """
 
+import copy
 import dataclasses
 import datetime
 import decimal
@@ -323,14 +324,86 @@ def dataclass_fields(cls: type[Any]) -> Iterator[dataclasses.Field]:  # type: ig
             "serialize after all classes are globally visible."
         ) from e
 
+    resolved_fields = []
+    bindings = get_type_var_bindings(cls)
     for f in raw_fields:
         real_type = resolved_hints.get(f.name)
         if real_type is not None:
             f.type = real_type
             if is_generic(real_type) and _is_sqlalchemy_inspectable(cls):
                 f.type = get_args(real_type)[0]
+            # A field inherited from a generic class is declared with the type variables of the
+            # generic class. Don't modify it, because it is shared with the generic class.
+            owner = [
+                c for c in cls.__mro__ if getattr(c, "__dataclass_fields__", {}).get(f.name) is f
+            ][-1]
+            typ = substitute_type_vars(f.type, bindings.get(owner, {}))
+            if typ is not f.type:
+                f = copy.copy(f)
+                f.type = typ
+        resolved_fields.append(f)
 
-    return iter(raw_fields)
+    return iter(resolved_fields)
+
+
+def get_type_var_bindings(cls: type[Any]) -> dict[type[Any], dict[Any, Any]]:
+    """
+    Get what the type variables of the base classes of `cls` stand for in `cls`.
+    """
+    bindings: dict[type[Any], dict[Any, Any]] = {}
+
+    def visit(c: type[Any], binding: dict[Any, Any]) -> None:
+        if c in bindings:
+            return
+        bindings[c] = binding
+        aliases = {get_origin(b): b for b in c.__dict__.get("__orig_bases__", ())}
+        for base in c.__bases__:
+            params = getattr(base, "__parameters__", ())
+            args = get_args(aliases[base]) if base in aliases else ()
+            visit(base, {p: substitute_type_vars(a, binding) for p, a in zip(params, args)})
+
+    visit(cls, {})
+    return bindings
+
+
+def substitute_type_vars(typ: Any, binding: dict[Any, Any]) -> Any:
+    """
+    Replace type variables in a type.
+
+    >>> T = typing.TypeVar('T')
+    >>> substitute_type_vars(T, {T: int})
+    <class 'int'>
+    >>> substitute_type_vars(list[T], {T: int})
+    list[int]
+    >>> substitute_type_vars(str, {T: int})
+    <class 'str'>
+    """
+    if isinstance(typ, TypeVar):
+        return binding.get(typ, typ)
+    params = getattr(typ, "__parameters__", ())
+    if get_origin(typ) is None or not any(p in binding for p in params):
+        return typ
+    return typ[tuple(binding.get(p, p) for p in params)]
+
+
+def resolve_type_vars(typ: Any, cls: type[Any], maybe_generic: Any) -> Any:
+    """
+    Replace the type variables of `cls` in a type by the type arguments of the subscripted class.
+    A type variable without an argument stands for any type.
+
+    >>> T = typing.TypeVar('T')
+    >>> class GenericFoo(typing.Generic[T]):
+    ...     pass
+    >>> resolve_type_vars(list[T], GenericFoo, GenericFoo[int])
+    list[int]
+    >>> resolve_type_vars(list[T], GenericFoo, GenericFoo)
+    list[typing.Any]
+    """
+    params = typ.__parameters__ if get_origin(typ) is not None else (typ,)
+    binding = {p: typing.Any for p in params}
+    if get_origin(maybe_generic) is cls:
+        binding.update(zip(cls.__parameters__, get_args(maybe_generic)))  # type: ignore
+    return substitute_type_vars(typ, binding)
 
 
 TypeLike = Union[type[Any], typing.Any]
diff --git a/serde/core.py b/serde/core.py
index ccb490a..e2f43b1 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -280,6 +280,9 @@ class Scope:
     code: dict[str, str] = dataclasses.field(default_factory=dict)
     """ Generated source code (only filled when debug is True) """
 
+    generic_types: list[Any] = dataclasses.field(default_factory=list)
+    """ Types with type variables and subscripted generic classes used when deserializing """
+
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
diff --git a/serde/de.py b/serde/de.py
index 0107b03..c4260ac 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -25,11 +25,8 @@ from .compat import (
     SerdeSkip,
     T,
     UserError,
-    find_generic_arg,
     get_args,
-    get_generic_arg,
     get_origin,
-    get_type_var_names,
     is_any,
     is_bare_counter,
     is_bare_deque,
@@ -63,6 +60,7 @@ from .compat import (
     iter_literals,
     iter_types,
     iter_unions,
+    resolve_type_vars,
     type_args,
     typename,
 )
@@ -322,7 +320,7 @@ def deserialize(
         g["collections"] = collections
         g["Literal"] = Literal
         g["from_obj"] = from_obj
-        g["get_generic_arg"] = get_generic_arg
+        g["resolve_type_vars"] = resolve_type_vars
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
         g["disabled"] = disabled
@@ -522,7 +520,7 @@ def from_obj(
 
     # It is possible that the parser already generates the correct data type requested
     # by the caller. Hence, it should be checked early to avoid doing anymore work.
-    if type(o) is c:
+    if type(o) is c and (deserialize_numbers is None or c is not float):
         return o
 
     def deserializable_to_obj(cls: type[T]) -> T:
@@ -1014,10 +1012,8 @@ class Renderer:
         elif isinstance(arg.type, TypeVar):
             if not self.cls:
                 raise SerdeError("Missing cls")
-            index = find_generic_arg(self.cls, arg.type)
             res = (
-                f"from_obj(get_generic_arg(maybe_generic, maybe_generic_type_vars, "
-                f"variable_type_args, {index}), {arg.data}, named={not arg.iterbased}, "
+                f"from_obj({self.generic_type(arg.type)}, {arg.data}, named={self.func == FROM_DICT}, "
                 "reuse_instances=reuse_instances, deserialize_numbers=deserialize_numbers)"
             )
         elif is_literal(arg.type):
@@ -1075,11 +1071,13 @@ class Renderer:
             else:
                 var = arg.datavar
 
-        type_args_str = [str(t).lstrip("~") for t in arg.type_args] if arg.type_args else None
+        maybe_generic = "maybe_generic"
+        if arg.type_args:
+            maybe_generic = self.generic_type(arg.type[tuple(arg.type_args)])
 
         opts = (
-            "maybe_generic=maybe_generic, maybe_generic_type_vars=maybe_generic_type_vars, "
-            f"variable_type_args={type_args_str}, reuse_instances=reuse_instances, "
+            f"maybe_generic={maybe_generic}, maybe_generic_type_vars=maybe_generic_type_vars, "
+            "variable_type_args=None, reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers"
         )
 
@@ -1090,6 +1088,18 @@ class Renderer:
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
+    def generic_type(self, typ: Any) -> str:
+        """
+        Render a type variable or a subscripted generic class, whose type variables are resolved
+        from the type being deserialized.
+        """
+        if not self.cls:
+            raise SerdeError("Missing cls")
+        scope: Scope = getattr(self.cls, SERDE_SCOPE)
+        scope.generic_types.append(typ)
+        generic_type = f"serde_scope.generic_types[{len(scope.generic_types) - 1}]"
+        return f"resolve_type_vars({generic_type}, serde_scope.cls, maybe_generic)"
+
     def opt(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for Optional.
@@ -1268,6 +1278,7 @@ class Renderer:
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
             f"data={arg.data}, "
+            "maybe_generic=maybe_generic, "
             "reuse_instances=reuse_instances, "
             "deserialize_numbers=deserialize_numbers)"
         )
@@ -1334,8 +1345,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   {% for f in fields %}
   __{{f.name}} = {{rvalue(arg(f, positions[f.name]))}}
   {% endfor %}
@@ -1360,8 +1369,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   fake_data = (data,)
   __{{field.name}} = {{rvalue(field)}}
 
@@ -1391,8 +1398,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     raise SerdeError(f'unknown fields: {unknown_fields}, expected one of {known_fields}')
   {% endif %}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   {% if has_flatten_dict %}
   __flatten_known_fields = {{ known_fields }}
   __flatten_extra = {k: v for k, v in (data or {}).items() if k not in __flatten_known_fields}
@@ -1448,8 +1453,6 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  maybe_generic_type_vars = maybe_generic_type_vars or {{cls_type_vars}}
-
   fake_dict = {"__serde_transparent__": data}
   __{{field.name}} = {{rvalue(field)}}
 
@@ -1588,7 +1591,6 @@ def render_from_iter(
             func=FROM_ITER,
             serde_scope=serde_scope,
             field=field,
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
         )
     else:
@@ -1597,7 +1599,6 @@ def render_from_iter(
             serde_scope=serde_scope,
             fields=fields,
             positions=positions,
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
             arg=to_iter_arg,
         )
@@ -1682,7 +1683,6 @@ def render_from_dict(
             serde_scope=serde_scope,
             field=field,
             type_check=type_check,
-            cls_type_vars=get_type_var_names(cls),
             rvalue=renderer.render,
         )
     else:
@@ -1704,7 +1704,6 @@ def render_from_dict(
             serde_scope=serde_scope,
             fields=fields,
             type_check=type_check,
-            cls_type_vars=get_type_var_names(cls),
             class_name=typename(cls),
             rvalue=renderer.render,
             arg=functools.partial(to_arg, rename_all=rename_all),
-- 
2.43.0


From 9c596a90b4fb3499572fe09db5f3093d50647a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 26/53] fix: do not modify the metadata passed to field

---
 serde/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index e2f43b1..283f3be 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -637,8 +637,7 @@ def field(
     """
     Declare a field with parameters.
     """
-    if not metadata:
-        metadata = {}
+    metadata = dict(metadata) if metadata else {}
 
     if rename is not None:
         metadata["serde_rename"] = rename
-- 
2.43.0


From dbbd549f230fda22a2fdc21f0939317d76d36a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:22 +0000
Subject: [PATCH 27/53] fix: honour an empty rename

---
 serde/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 283f3be..86453e7 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -961,7 +961,7 @@ def conv(f: Field[Any], case: str | None = None) -> str:
                 f"Unkown case type: {f.case}. Pass the name of case supported by 'casefy' package."
             )
         name = casef(name)
-    if f.rename:
+    if f.rename is not None:
         name = f.rename
     if name is None:
         raise SerdeError("Field name is None.")
-- 
2.43.0


From 5edb3c3fa038506627f40e0e0028c21de66d8dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 28/53] fix: combine the skip attributes of a field and compare
 defaults before serialization

---
 serde/core.py | 33 +++++++++++++++++++++------------
 serde/se.py   | 29 ++++++++++++++++++-----------
 2 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 86453e7..253ce53 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -592,22 +592,22 @@ def skip_if_none(v: Any) -> Any:
 
 
 def skip_if_default(v: Any, default: Any | None = None) -> Any:
+    """
+    Test if the value of the field, before it is serialized, equals the default.
+    """
     if isinstance(default, dataclasses._MISSING_TYPE):
         return False
 
-    serialized_default = default
+    if type(v).__module__ == "numpy":
+        import numpy
 
-    # Align the comparison with how serde serializes defaults so nested dataclasses
-    # with class-level skip_if_default are handled correctly.
-    if dataclasses.is_dataclass(default) and not isinstance(default, type):
-        try:
-            from .se import to_dict as serde_to_dict
+        return numpy.array_equal(v, default)
 
-            serialized_default = serde_to_dict(default)
-        except Exception:
-            serialized_default = dataclasses.asdict(default)
+    return v == default  # Why return type is deduced to be Any?
 
-    return v == serialized_default  # Why return type is deduced to be Any?
+
+def skip_if_any(v: Any, predicates: Sequence[Callable[[Any], Any]]) -> bool:
+    return any(predicate(v) for predicate in predicates)
 
 
 @dataclass
@@ -701,6 +701,7 @@ class Field(Generic[T]):
     skip_if_false: bool | None = None
     skip_if_none: bool | None = None
     skip_if_default: bool | None = None
+    skip_if_default_func: Func | None = None  # Predicate on the value before serialization.
     serializer: Func | None = None  # Custom field serializer.
     deserializer: Func | None = None  # Custom field deserializer.
     flatten: FlattenOpts | None = None
@@ -742,7 +743,7 @@ class Field(Generic[T]):
             elif not isinstance(f.default_factory, dataclasses._MISSING_TYPE):
                 default_value = f.default_factory()
             else:
-                default_value = dataclasses._MISSING_TYPE
+                default_value = dataclasses.MISSING
 
             skip_if_def = functools.partial(skip_if_default, default=default_value)
             skip_if_default_func = Func(skip_if_def, cls.mangle(f, "skip_if_default"))
@@ -753,6 +754,13 @@ class Field(Generic[T]):
             if callable(func):
                 skip_if = Func(func, cls.mangle(f, "skip_if"))
 
+        skip_if = skip_if or skip_if_false_func
+        if skip_if and skip_if_none_func:
+            skip_if_both = functools.partial(skip_if_any, predicates=[skip_if_none_func, skip_if])
+            skip_if = Func(skip_if_both, skip_if.name)
+        else:
+            skip_if = skip_if or skip_if_none_func
+
         serializer: Func | None = None
         func = f.metadata.get("serde_serializer")
         if func:
@@ -808,7 +816,8 @@ class Field(Generic[T]):
             skip_deserializing=skip_deserializing,
             skip_if_default=skip_if_default_flag,
             skip_if_none=skip_if_none_flag,
-            skip_if=skip_if or skip_if_false_func or skip_if_default_func or skip_if_none_func,
+            skip_if=skip_if,
+            skip_if_default_func=skip_if_default_func,
             serializer=serializer,
             deserializer=deserializer,
             flatten=flatten,
diff --git a/serde/se.py b/serde/se.py
index b0f269f..623ad65 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -683,6 +683,8 @@ def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str,
     for f in sfields:
         if f.skip_if:
             g[f.skip_if.name] = f.skip_if
+        if f.skip_if_default_func:
+            g[f.skip_if_default_func.name] = f.skip_if_default_func
         if f.serializer:
             g[f.serializer.name] = f.serializer
 
@@ -705,17 +707,15 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
   subres = {{rvalue(f)}}
   {% if lvalue(f) == '__FLATTEN_DICT__' -%}
   # Merge flattened dict into result (declared fields take precedence)
-  if subres:
+  if subres and not ({{skip_condition(f)}}):
     for __k, __v in subres.items():
       if __k not in res:
         res[__k] = __v
   {% elif get_flattened_class(f) -%}
   # Merge entries of flattened dataclass into result
   if isinstance(subres, dict):
-    {% if f.skip_if -%}
-    if {{f.skip_if.name}}(subres):
+    if {{skip_condition(f)}}:
       subres = {}
-    {% endif -%}
     {% if captures_unknowns(f) -%}
     # The entries captured by a dict flattened in the child don't override declared fields
     subres = {__k: __v for __k, __v in subres.items() if __k not in {{own_keys}}}
@@ -723,14 +723,8 @@ def {{func}}(obj, reuse_instances = None, convert_sets = None, skip_none = False
     res.update(subres)
   elif subres is not None:
     {{lvalue(f)}} = subres
-  {% elif f.skip_if -%}
-  if not {{f.skip_if.name}}(subres):
-    {{lvalue(f)}} = subres
   {% else -%}
-  if skip_none:
-    if subres is not None:
-      {{lvalue(f)}} = subres
-  else:
+  if not ({{skip_condition(f)}}):
     {{lvalue(f)}} = subres
   {% endif -%}
   {% endif %}
@@ -894,12 +888,25 @@ def render_to_dict(
             rvalue=renderer.render,
             get_flattened_class=get_flattened_class,
             captures_unknowns=captures_unknowns,
+            skip_condition=skip_condition,
             own_keys=[
                 f.conv_name(case) for f in sefields(cls, serialize_class_var) if not f.flatten
             ],
         )
 
 
+def skip_condition(f: SeField[Any]) -> str:
+    """
+    Render the condition under which the field is omitted from the output.
+    """
+    conditions = ["(skip_none and subres is None)"]
+    if f.skip_if_default_func:
+        conditions.append(f"{f.skip_if_default_func.name}({f.varname})")
+    if f.skip_if:
+        conditions.append(f"{f.skip_if.name}(subres)")
+    return " or ".join(conditions)
+
+
 def captures_unknowns(f: SeField[Any]) -> bool:
     """
     Test if the flattened dataclass has a flattened dict, directly or in its flattened fields.
-- 
2.43.0


From da427294f07671455eba104444f400b7d0a7f1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 29/53] fix: implement dataclass exactly for classes which do
 not on their own

---
 serde/core.py | 23 ++++++-----------------
 serde/de.py   |  3 ++-
 serde/se.py   |  3 ++-
 3 files changed, 10 insertions(+), 19 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 253ce53..6a3f2b3 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -6,6 +6,7 @@ from __future__ import annotations
 import dataclasses
 import enum
 import functools
+import inspect
 import logging
 import re
 import casefy
@@ -1191,25 +1192,13 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
         return True
 
     # Checking is_dataclass is not enough in such a case that the class is inherited
-    # from another dataclass. To do it correctly, check if all fields in __annotations__
-    # are present as dataclass fields.
-    annotations = getattr(cls, "__annotations__", {})
-    if not annotations:
+    # from another dataclass.
+    if "__dataclass_fields__" in cls.__dict__:
         return False
 
-    field_names = [field.name for field in dataclass_fields(cls)]
-    for field_name, annotation in annotations.items():
-        # Omit InitVar field because it doesn't appear in dataclass fields.
-        if is_instance(annotation, dataclasses.InitVar):
-            continue
-        # This field in __annotations__ is not a part of dataclass fields.
-        # This means this class does not implement dataclass directly.
-        if field_name not in field_names:
-            return True
-
-    # If all of the fields in __annotation__ are present as dataclass fields,
-    # the class already implemented dataclass, thus returns False.
-    return False
+    # The class doesn't implement dataclass directly. The inherited one is enough unless the class
+    # declares anything on its own.
+    return bool(inspect.get_annotations(cls))
 
 
 @dataclass
diff --git a/serde/de.py b/serde/de.py
index c4260ac..e65eebf 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -75,6 +75,7 @@ from .core import (
     DefaultTagging,
     Field,
     disabled,
+    should_impl_dataclass,
     Scope,
     Tagging,
     TypeCheck,
@@ -276,7 +277,7 @@ def deserialize(
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
-        if not is_dataclass(cls):
+        if should_impl_dataclass(cls):
             dataclass(cls)
 
         if transparent:
diff --git a/serde/se.py b/serde/se.py
index 623ad65..15dc5c0 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -83,6 +83,7 @@ from .core import (
     add_func,
     coerce_object,
     disabled,
+    should_impl_dataclass,
     get_flattened_class,
     get_transparent_field,
     strict,
@@ -239,7 +240,7 @@ def serialize(
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
-        if not is_dataclass(cls):
+        if should_impl_dataclass(cls):
             dataclass(cls)
 
         if transparent:
-- 
2.43.0


From 683614abe6145b6e64ce9fc7ab4c02d25606ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:44 +0000
Subject: [PATCH 30/53] fix: do not call the class deserializer for a missing
 key

---
 serde/de.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index e65eebf..4e09c1a 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -881,6 +881,15 @@ class DeField(Field[T]):
         else:
             return f'{self.datavar}.get("{self.conv_name()}")'
 
+    def exists(self) -> str:
+        """
+        Renders the condition that the data has the value.
+        """
+        if self.alias:
+            return f"_exists_by_aliases({self.datavar}, [{self.keys()}])"
+        else:
+            return f'"{self.conv_name()}" in {self.datavar}'
+
     def keys(self) -> str:
         """
         Renders the keys from which the value is taken i.e. the field's key and its aliases.
@@ -1051,13 +1060,17 @@ class Renderer:
         Render custom class deserializer.
         """
         # The function takes a closure in order to execute the default value lazily.
-        return (
+        res = (
             "serde_legacy_custom_class_deserializer("
             f"{typename(arg.type)}, "
             f"{arg.datavar}, "
             f"{arg.data_or()}, "
             f"default=lambda: {code})"
         )
+        if arg.iterbased or isinstance(arg, InnerField):
+            return res
+        # There is nothing to deserialize if the key is missing.
+        return f"({res}) if {arg.exists()} else ({code})"
 
     def dataclass(self, arg: DeField[Any]) -> str:
         if not arg.flatten:
@@ -1302,10 +1315,7 @@ class Renderer:
         if get_flattened_class(arg):
             exists = self.flattened_exists(arg)
         else:
-            if arg.alias:
-                exists = f"_exists_by_aliases({arg.datavar}, [{arg.keys()}])"
-            else:
-                exists = f'"{arg.conv_name()}" in {arg.datavar}'
+            exists = arg.exists()
 
         if has_default(arg):
             return f'({code}) if {exists} else serde_scope.defaults["{arg.name}"]'
-- 
2.43.0


From a0a9b22540ac9b380727bc7e57b634f0bf023342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:11 +0000
Subject: [PATCH 31/53] fix: let exceptions of user code through nested and
 generic objects unchanged

---
 serde/de.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 4e09c1a..009d98b 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -320,7 +320,7 @@ def deserialize(
         g["typing"] = typing
         g["collections"] = collections
         g["Literal"] = Literal
-        g["from_obj"] = from_obj
+        g["from_obj"] = _from_obj
         g["resolve_type_vars"] = resolve_type_vars
         g["is_instance"] = is_instance
         g["TypeCheck"] = TypeCheck
@@ -508,7 +508,25 @@ def from_obj(
       when a float target is encountered. Useful for callers that want to treat ints or strings as
       floats.
     """
+    try:
+        return _from_obj(c, o, named, reuse_instances, deserialize_numbers)
+    except UserError as e:
+        inner = e.inner
+    # Raised outside of the handler to keep the cause and the context set by user code
+    raise inner
+
 
+def _from_obj(
+    c: type[T],
+    o: Any,
+    named: bool,
+    reuse_instances: bool | None,
+    deserialize_numbers: Callable[[str | int], float] | None = None,
+) -> T:
+    """
+    Same as `from_obj` but leaves an exception from user code wrapped in `UserError`, so that it
+    passes through the enclosing objects.
+    """
     res: Any
 
     # A PEP 695 type alias (``type T = Foo | Bar``) is a TypeAliasType, not the
@@ -555,7 +573,7 @@ def from_obj(
         maybe_generic = c
     try:
         thisfunc = functools.partial(
-            from_obj,
+            _from_obj,
             named=named,
             reuse_instances=reuse_instances,
             deserialize_numbers=deserialize_numbers,
@@ -646,8 +664,8 @@ def from_obj(
 
         return cast(T, res)
 
-    except UserError as e:
-        raise e.inner from None
+    except UserError:
+        raise
 
     except Exception as e:
         raise SerdeError(e) from None
-- 
2.43.0


From a2e58617274444bb0344b15065e99f311d6e42a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:53 +0000
Subject: [PATCH 32/53] fix: coerce subclasses of primitives on serialization

---
 serde/se.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index 15dc5c0..e5dd3e0 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -302,7 +302,8 @@ def serialize(
                 # configuration for generating the serialization function.
                 serialize(typ)
 
-            if is_primitive(typ) and not is_enum(typ):
+            # Subclasses of primitives are used to coerce values.
+            if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
             g[typename(typ)] = typ
 
@@ -1192,7 +1193,8 @@ class Renderer:
         else:
             assert arg.name
             escaped_arg_name = arg.name.replace('"', '\\"')
-            return f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {var})'
+            res = f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {var})'
+            return f"primitive_value({res})" if is_primitive_subclass(arg.type) else res
 
     def string(self, arg: SeField[Any]) -> str:
         return f"str({arg.varname})"
-- 
2.43.0


From aadd0589d144e9d9b0d0cc66488a749c69eb02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 33/53] fix: test union variants of subclasses ahead of their
 base classes

---
 serde/se.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/serde/se.py b/serde/se.py
index e5dd3e0..8e6702e 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -783,8 +783,8 @@ def {{func}}(obj, reuse_instances=None, convert_sets=None, skip_none=False):
 def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
   union_args = serde_scope.union_se_args['{{func}}']
 
-  {% for t in union_args %}
-  if is_instance(obj, union_args[{{loop.index0}}]):
+  {% for i, t in variants %}
+  if is_instance(obj, union_args[{{i}}]):
     {% if tagging.is_external() and is_taggable(t) %}
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
@@ -919,6 +919,23 @@ def captures_unknowns(f: SeField[Any]) -> bool:
     )
 
 
+def order_variants(union_args: list[type[Any]]) -> list[tuple[int, type[Any]]]:
+    """
+    Order the variants so that a value is tested against subclasses ahead of their base classes.
+    Returns pairs of the declared position and the variant.
+    """
+    variants: list[tuple[int, type[Any]]] = []
+    for i, t in enumerate(union_args):
+        pos = len(variants)
+        if isinstance(t, type):
+            for n, (_, other) in enumerate(variants):
+                if isinstance(other, type) and issubclass(t, other):
+                    pos = n
+                    break
+        variants.insert(pos, (i, t))
+    return variants
+
+
 def render_union_func(
     cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
 ) -> str:
@@ -930,7 +947,7 @@ def render_union_func(
     return jinja2_env.get_template("union").render(
         func=union_func_key(UNION_SE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
-        union_args=union_args,
+        variants=order_variants(union_args),
         union_name=union_name,
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
-- 
2.43.0


From 649b27186eede9f9bcba539e4ffee1f60d913bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 34/53] fix: do not hand the tag of an internally tagged
 variant to the variant

---
 serde/de.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index 009d98b..c0bac9e 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -195,6 +195,17 @@ def _project_flattened_data(
     return {k: v for k, v in data.items() if k in child_known_fields}
 
 
+def _remove_tag(data: dict[str, Any], tag: str, variant: Any) -> dict[str, Any]:
+    """
+    Remove the tag of an internally tagged variant, which is not part of the variant's own data
+    unless the variant has a field of the same name.
+    """
+    scope: Scope = getattr(get_origin(variant) or variant, SERDE_SCOPE)
+    if tag in scope.de_known_fields:
+        return data
+    return {k: v for k, v in data.items() if k != tag}
+
+
 def _make_deserialize(
     cls_name: str,
     fields: list[Any],
@@ -331,6 +342,7 @@ def deserialize(
         g["_exists_by_aliases"] = _exists_by_aliases
         g["_get_by_aliases"] = _get_by_aliases
         g["_project_flattened_data"] = _project_flattened_data
+        g["_remove_tag"] = _remove_tag
         g["class_deserializers"] = class_deserializers
         g["BeartypeCallHintParamViolation"] = BeartypeCallHintParamViolation
         g["is_bearable"] = is_bearable
@@ -1516,7 +1528,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% elif tagging.is_internal() and is_taggable(t) %}
     ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
     ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data}
+    fake_dict = {"fake_key": _remove_tag(data, "{{tagging.tag}}", {{func}}_args[{{loop.index0}}])}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
     ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-- 
2.43.0


From d5fc48a455982f8b7093710f53eaaf39d4380e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:24 +0000
Subject: [PATCH 35/53] fix: let deny_unknown_fields accept keys captured by a
 nested flattened dict

---
 serde/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index c0bac9e..8565c4c 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1432,7 +1432,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   if reuse_instances is None:
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
-  {% if deny_unknown_fields and not has_flatten_dict %}
+  {% if deny_unknown_fields and not serde_scope.de_has_flatten_dict %}
   known_fields = {{ known_fields }}
   unknown_fields = set((data or {}).keys()) - known_fields
   if unknown_fields:
-- 
2.43.0


From b664bca6a398a02a445ebaacbc4c69a5e29f6202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 36/53] fix: count the class variables of a flattened class in
 the tuple form

---
 serde/core.py | 3 +++
 serde/de.py   | 7 ++++++-
 serde/se.py   | 8 +++++++-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 6a3f2b3..ec784f8 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -300,6 +300,9 @@ class Scope:
     transparent: bool = False
     """If True, serialize/deserialize as the single inner field (serde-rs `transparent`)."""
 
+    serialize_class_var: bool = False
+    """ True when class variables are serialized after the fields """
+
     def __repr__(self) -> str:
         res: list[str] = []
 
diff --git a/serde/de.py b/serde/de.py
index 8565c4c..222cac3 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1595,7 +1595,12 @@ def get_tuple_width(f: DeField[Any]) -> int:
     child = get_flattened_class(f)
     if child is None:
         return 1
-    return sum(get_tuple_width(c) for c in defields(child) if not (c.skip or c.skip_serializing))
+    scope: Scope = getattr(child, SERDE_SCOPE)
+    return sum(
+        get_tuple_width(c)
+        for c in fields(DeField, child, serialize_class_var=scope.serialize_class_var)
+        if not (c.skip or c.skip_serializing)
+    )
 
 
 def render_from_iter(
diff --git a/serde/se.py b/serde/se.py
index 8e6702e..b2dbecf 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -266,6 +266,7 @@ def serialize(
             )
             setattr(cls, SERDE_SCOPE, scope)
         scope.transparent = transparent
+        scope.serialize_class_var = serialize_class_var
 
         class_serializers: list[ClassSerializer] = list(
             itertools.chain(GLOBAL_CLASS_SERIALIZER, [class_serializer] if class_serializer else [])
@@ -675,7 +676,12 @@ def get_tuple_width(f: SeField[Any]) -> int:
     child = get_flattened_class(f)
     if child is None:
         return 1
-    return sum(get_tuple_width(c) for c in sefields(child) if not (c.skip or c.skip_serializing))
+    scope: Scope = getattr(child, SERDE_SCOPE)
+    return sum(
+        get_tuple_width(c)
+        for c in sefields(child, scope.serialize_class_var)
+        if not (c.skip or c.skip_serializing)
+    )
 
 
 def add_field_serializers_to_scope(sfields: Iterator[SeField[Any]], g: dict[str, Any]) -> None:
-- 
2.43.0


From 4c4e3b1ec80a7e6f33a47d8cd4712b7186d6284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 37/53] fix: honour the class options given to the second of
 two decorators

---
 serde/de.py | 13 ++++++-------
 serde/se.py | 13 ++++++-------
 2 files changed, 12 insertions(+), 14 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 222cac3..8e46704 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -305,14 +305,13 @@ def deserialize(
         # That's why we need the "scope.cls is not cls" check.
         scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
         if scope is None or scope.cls is not cls:
-            scope = Scope(
-                cls,
-                reuse_instances_default=reuse_instances_default,
-                convert_sets_default=convert_sets_default,
-                skip_if_default_default=skip_if_default,
-                skip_if_none_default=skip_if_none,
-            )
+            scope = Scope(cls)
             setattr(cls, SERDE_SCOPE, scope)
+        # The scope is shared by the decorators, but the code is generated with the options of each.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
 
         class_deserializers: list[ClassDeserializer] = list(
diff --git a/serde/se.py b/serde/se.py
index b2dbecf..c823a43 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -257,14 +257,13 @@ def serialize(
         # That's why we need the "scope.cls is not cls" check.
         scope: Scope | None = getattr(cls, SERDE_SCOPE, None)
         if scope is None or scope.cls is not cls:
-            scope = Scope(
-                cls,
-                reuse_instances_default=reuse_instances_default,
-                convert_sets_default=convert_sets_default,
-                skip_if_default_default=skip_if_default,
-                skip_if_none_default=skip_if_none,
-            )
+            scope = Scope(cls)
             setattr(cls, SERDE_SCOPE, scope)
+        # The scope is shared by the decorators, but the code is generated with the options of each.
+        scope.reuse_instances_default = reuse_instances_default
+        scope.convert_sets_default = convert_sets_default
+        scope.skip_if_default_default = skip_if_default
+        scope.skip_if_none_default = skip_if_none
         scope.transparent = transparent
         scope.serialize_class_var = serialize_class_var
 
-- 
2.43.0


From a3935a9867cef3f7dd0d7b7cdf72c70611b65389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 38/53] fix: apply class (de)serializers to union variants and
 within containers

---
 serde/de.py | 55 +++++++++++++++++++++++++++++++++++------------------
 serde/se.py | 17 ++++++++++++++---
 2 files changed, 51 insertions(+), 21 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 8e46704..7035090 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -375,7 +375,10 @@ def deserialize(
             union_args = type_args(union)
             union_key = union_func_key(UNION_DE_PREFIX, union_args)
             g[f"{union_key}_args"] = union_args
-            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
+            union_func = render_union_func(
+                cls, union_args, tagging, deserializer, class_deserializer
+            )
+            add_func(scope, union_key, union_func, g)
 
         # render literal functions
         for literal in iter_literals(cls):
@@ -976,14 +979,7 @@ class Renderer:
         """
         Render rvalue
         """
-        implemented_methods: dict[type[Any], int] = {}
-        class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
-            GLOBAL_CLASS_DESERIALIZER, [self.class_deserializer] if self.class_deserializer else []
-        )
-        for n, class_deserializer in enumerate(class_deserializers):
-            for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
-                implemented_methods[get_args(method.signature.types[1])[0]] = n
-
+        implemented_methods = self.implemented_methods()
         custom_deserializer_available = arg.type in implemented_methods
         if custom_deserializer_available and not arg.deserializer:
             res = (
@@ -1068,14 +1064,23 @@ class Renderer:
             and not arg.deserializer
             and not custom_deserializer_available
         ):
-            # Rerender the code for default deserializer.
-            default = Renderer(
-                self.func, self.cls, None, suppress_coerce=self.suppress_coerce
-            ).render(arg)
-            return self.custom_class_deserializer(arg, default)
+            return self.custom_class_deserializer(arg, res)
         else:
             return res
 
+    def implemented_methods(self) -> dict[type[Any], int]:
+        """
+        Get the types the class deserializers support and the position of the deserializer for each.
+        """
+        implemented_methods: dict[type[Any], int] = {}
+        class_deserializers: Iterable[ClassDeserializer] = itertools.chain(
+            GLOBAL_CLASS_DESERIALIZER, [self.class_deserializer] if self.class_deserializer else []
+        )
+        for n, class_deserializer in enumerate(class_deserializers):
+            for method in class_deserializer.__class__.deserialize.methods:  # type: ignore
+                implemented_methods[get_args(method.signature.types[1])[0]] = n
+        return implemented_methods
+
     def custom_field_deserializer(self, arg: DeField[Any]) -> str:
         """
         Render rvalue for the field with custom deserializer.
@@ -1089,11 +1094,12 @@ class Renderer:
         Render custom class deserializer.
         """
         # The function takes a closure in order to execute the default value lazily.
+        value = arg.data if isinstance(arg, InnerField) else arg.data_or()
         res = (
             "serde_legacy_custom_class_deserializer("
             f"{typename(arg.type)}, "
             f"{arg.datavar}, "
-            f"{arg.data_or()}, "
+            f"{value}, "
             f"default=lambda: {code})"
         )
         if arg.iterbased or isinstance(arg, InnerField):
@@ -1539,7 +1545,8 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     fake_dict = {"fake_key": data}
     {% endif %}
 
-    {% if (is_primitive(t) and not is_enum(t)) or is_none(t) %}
+    {% if is_custom(t) %}
+    {% elif (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{typename(primitive_base(t))}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% elif is_list(t) or is_set(t) or is_deque(t) or is_tuple(t) %}
@@ -1784,11 +1791,22 @@ def has_str_member(typ: Any) -> bool:
 
 
 def render_union_func(
-    cls: type[Any], union_args: Sequence[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: Sequence[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    legacy_class_deserializer: DeserializeFunc | None = None,
+    class_deserializer: ClassDeserializer | None = None,
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
-    renderer = Renderer(FROM_DICT, cls=cls, suppress_coerce=True)
+    renderer = Renderer(
+        FROM_DICT,
+        cls=cls,
+        legacy_class_deserializer=legacy_class_deserializer,
+        suppress_coerce=True,
+        class_deserializer=class_deserializer,
+        class_name=typename(cls),
+    )
     return jinja2_env.get_template("union").render(
         func=union_func_key(UNION_DE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
@@ -1798,6 +1816,7 @@ def render_union_func(
         is_taggable=Tagging.is_taggable,
         arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
         rvalue=renderer.render,
+        is_custom=lambda t: t in renderer.implemented_methods(),
         is_primitive=is_primitive,
         is_none=is_none,
         is_enum=is_enum,
diff --git a/serde/se.py b/serde/se.py
index c823a43..19b2661 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -311,7 +311,8 @@ def serialize(
         for union in iter_unions(cls):
             union_args = list(type_args(union))
             union_key = union_func_key(UNION_SE_PREFIX, union_args)
-            add_func(scope, union_key, render_union_func(cls, union_args, tagging), g)
+            union_func = render_union_func(cls, union_args, tagging, serializer, class_serializer)
+            add_func(scope, union_key, union_func, g)
             scope.union_se_args[union_key] = union_args
 
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
@@ -942,13 +943,23 @@ def order_variants(union_args: list[type[Any]]) -> list[tuple[int, type[Any]]]:
 
 
 def render_union_func(
-    cls: type[Any], union_args: list[type[Any]], tagging: Tagging = DefaultTagging
+    cls: type[Any],
+    union_args: list[type[Any]],
+    tagging: Tagging = DefaultTagging,
+    legacy_class_serializer: SerializeFunc | None = None,
+    class_serializer: ClassSerializer | None = None,
 ) -> str:
     """
     Render function that serializes a field with union type.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
-    renderer = Renderer(TO_DICT, suppress_coerce=True, class_name=typename(cls))
+    renderer = Renderer(
+        TO_DICT,
+        legacy_class_serializer,
+        suppress_coerce=True,
+        class_serializer=class_serializer,
+        class_name=typename(cls),
+    )
     return jinja2_env.get_template("union").render(
         func=union_func_key(UNION_SE_PREFIX, union_args),
         serde_scope=getattr(cls, SERDE_SCOPE),
-- 
2.43.0


From 656627252e9cd83a4f5dc3485d17e606016a66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 39/53] fix: let the last registered global (de)serializer win
 at top level

---
 serde/de.py | 2 +-
 serde/se.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 7035090..6766ac5 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -489,7 +489,7 @@ def find_global_class_deserializer(typ: type[Any]) -> ClassDeserializer | None:
     directly to ``from_dict``/``from_tuple`` instead of nested in a dataclass
     (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_deserializer in GLOBAL_CLASS_DESERIALIZER:
+    for class_deserializer in reversed(GLOBAL_CLASS_DESERIALIZER):
         for method in class_deserializer.__class__.deserialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is ``type[X]``; unwrap it to the value type ``X``.
             if get_args(method.signature.types[1])[0] is typ:
diff --git a/serde/se.py b/serde/se.py
index 19b2661..7b8ba39 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -387,7 +387,7 @@ def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     ``typ`` is passed directly to ``to_dict``/``to_tuple`` instead of nested in a
     dataclass (https://github.com/yukinarit/pyserde/issues/514).
     """
-    for class_serializer in GLOBAL_CLASS_SERIALIZER:
+    for class_serializer in reversed(GLOBAL_CLASS_SERIALIZER):
         for method in class_serializer.__class__.serialize.methods:  # type: ignore[attr-defined]
             # signature.types[1] is the value type; index 0 is ``self``.
             if method.signature.types[1] is typ:
-- 
2.43.0


From 0b60e78d5192c915ccde5b6c3abaa8386d2c0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 40/53] fix: honour default_serializer and default_deserializer
 on union fields

---
 serde/de.py | 20 +++++++++++++++++---
 serde/se.py | 17 +++++++++++++++--
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 6766ac5..472b135 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -66,6 +66,7 @@ from .compat import (
 )
 from .core import (
     GLOBAL_CLASS_DESERIALIZER,
+    Func,
     ClassDeserializer,
     FROM_DICT,
     FROM_ITER,
@@ -379,6 +380,11 @@ def deserialize(
                 cls, union_args, tagging, deserializer, class_deserializer
             )
             add_func(scope, union_key, union_func, g)
+            # Fields marked with `default_deserializer` bypass the class deserializers.
+            if any(f.deserializer for f in defields(cls)):
+                g[f"{union_key}_builtin_args"] = union_args
+                union_func = render_union_func(cls, union_args, tagging, builtin=True)
+                add_func(scope, f"{union_key}_builtin", union_func, g)
 
         # render literal functions
         for literal in iter_literals(cls):
@@ -1323,6 +1329,8 @@ class Renderer:
 
     def union_func(self, arg: DeField[Any]) -> str:
         func_name = union_func_key(UNION_DE_PREFIX, type_args(arg.type))
+        if arg.deserializer:
+            func_name += "_builtin"
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1796,6 +1804,7 @@ def render_union_func(
     tagging: Tagging = DefaultTagging,
     legacy_class_deserializer: DeserializeFunc | None = None,
     class_deserializer: ClassDeserializer | None = None,
+    builtin: bool = False,
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
@@ -1808,15 +1817,20 @@ def render_union_func(
         class_name=typename(cls),
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_key(UNION_DE_PREFIX, union_args),
+        func=union_func_key(UNION_DE_PREFIX, union_args) + ("_builtin" if builtin else ""),
         serde_scope=getattr(cls, SERDE_SCOPE),
         union_args=union_args,
         union_name=union_name,
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
-        arg=lambda x: DeField(x, datavar="fake_dict", name="fake_key"),
+        arg=lambda x: DeField(
+            x,
+            datavar="fake_dict",
+            name="fake_key",
+            deserializer=Func(default_deserializer) if builtin else None,
+        ),
         rvalue=renderer.render,
-        is_custom=lambda t: t in renderer.implemented_methods(),
+        is_custom=lambda t: not builtin and t in renderer.implemented_methods(),
         is_primitive=is_primitive,
         is_none=is_none,
         is_enum=is_enum,
diff --git a/serde/se.py b/serde/se.py
index 7b8ba39..7f34c79 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -92,6 +92,7 @@ from .core import (
     logger,
     union_func_key,
     GLOBAL_CLASS_SERIALIZER,
+    Func,
 )
 
 # Lazy numpy imports to improve startup time
@@ -314,6 +315,11 @@ def serialize(
             union_func = render_union_func(cls, union_args, tagging, serializer, class_serializer)
             add_func(scope, union_key, union_func, g)
             scope.union_se_args[union_key] = union_args
+            # Fields marked with `default_serializer` bypass the class serializers.
+            if any(f.serializer for f in sefields(cls, serialize_class_var)):
+                union_func = render_union_func(cls, union_args, tagging, builtin=True)
+                add_func(scope, f"{union_key}_builtin", union_func, g)
+                scope.union_se_args[f"{union_key}_builtin"] = union_args
 
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
@@ -948,9 +954,12 @@ def render_union_func(
     tagging: Tagging = DefaultTagging,
     legacy_class_serializer: SerializeFunc | None = None,
     class_serializer: ClassSerializer | None = None,
+    builtin: bool = False,
 ) -> str:
     """
     Render function that serializes a field with union type.
+
+    * `builtin`: Ignore the class serializers, for fields marked with `default_serializer`.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
     renderer = Renderer(
@@ -961,13 +970,15 @@ def render_union_func(
         class_name=typename(cls),
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_key(UNION_SE_PREFIX, union_args),
+        func=union_func_key(UNION_SE_PREFIX, union_args) + ("_builtin" if builtin else ""),
         serde_scope=getattr(cls, SERDE_SCOPE),
         variants=order_variants(union_args),
         union_name=union_name,
         tagging=tagging,
         is_taggable=Tagging.is_taggable,
-        arg=lambda x: SeField(x, "obj"),
+        arg=lambda x: SeField(
+            x, "obj", serializer=Func(default_serializer) if builtin else None
+        ),
         rvalue=renderer.render,
         typename=typename,
     )
@@ -1234,6 +1245,8 @@ class Renderer:
 
     def union_func(self, arg: SeField[Any]) -> str:
         func_name = union_func_key(UNION_SE_PREFIX, list(type_args(arg.type)))
+        if arg.serializer:
+            func_name += "_builtin"
         return (
             f"serde_scope.funcs['{func_name}']({arg.varname}, "
             "reuse_instances, convert_sets, skip_none)"
-- 
2.43.0


From ce4fa01137e51cf06dc0ee27754000dd23c888a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:00 +0000
Subject: [PATCH 41/53] fix: do not write the tag into a dictionary owned by
 the user

---
 serde/se.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/serde/se.py b/serde/se.py
index 7f34c79..df9711b 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -801,7 +801,8 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
     return {"{{typename(t)}}": {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    res = {{rvalue(arg(t))}}
+    # The variant may hand out a dictionary that belongs to the user e.g. if it is transparent
+    res = {**({{rvalue(arg(t))}})}
     res["{{tagging.tag}}"] = "{{typename(t)}}"
     return res
 
-- 
2.43.0


From 3ab2c5afec4a6dfeb75794d0cca1d7fec0c72d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 42/53] fix: keep types and unions apart that share a name or
 compare equal

---
 serde/compat.py | 41 +++++++++++++++++++++++-------
 serde/core.py   | 59 ++++++++++++++++++++++++++++++++++---------
 serde/de.py     | 67 ++++++++++++++++++++++++++++---------------------
 serde/se.py     | 34 +++++++++++++++++--------
 4 files changed, 141 insertions(+), 60 deletions(-)

diff --git a/serde/compat.py b/serde/compat.py
index b8b780e..90e0a01 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -152,9 +152,15 @@ def get_args(typ: type[Any]) -> tuple[Any, ...]:
     return typing.get_args(typ) or get_np_args(typ)
 
 
-@cache
-def typename(typ: Any, with_typing_module: bool = False) -> str:
+# Not memoized: equal unions can differ in the order of the arguments.
+def typename(
+    typ: Any, with_typing_module: bool = False, names: Mapping[Any, str] | None = None
+) -> str:
     """
+    Get the name of a type.
+
+    * `names`: The names to be used for particular types instead of their own
+
     >>> from typing import Any
     >>> typename(int)
     'int'
@@ -177,8 +183,10 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
     'Any'
     """
     mod = "typing." if with_typing_module else ""
-    thisfunc = functools.partial(typename, with_typing_module=with_typing_module)
-    if is_opt(typ):
+    thisfunc = functools.partial(typename, with_typing_module=with_typing_module, names=names)
+    if names and typ in names:
+        return names[typ]
+    elif is_opt(typ):
         args = type_args(typ)
         if args:
             return f"{mod}Optional[{thisfunc(type_args(typ)[0])}]"
@@ -240,6 +248,8 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
         if not isinstance(origin.__name__, str):
             raise SerdeError("Name of generic class is not string")
 
+        if names and origin in names:
+            return names[origin]
         return origin.__name__
 
     elif is_literal(typ):
@@ -255,7 +265,7 @@ def typename(typ: Any, with_typing_module: bool = False) -> str:
         # Get super type for NewType
         inner = getattr(typ, "__supertype__", None)
         if inner:
-            return typename(inner)
+            return typename(inner, names=names)
 
         name: str | None = getattr(typ, "_name", None)
         if name:
@@ -291,6 +301,19 @@ def type_args(typ: Any) -> tuple[type[Any], ...]:
     return get_args(typ)
 
 
+def type_key(typ: Any) -> Hashable:
+    """
+    Get a key that identifies a type. Unlike the types themselves, the keys of unions whose
+    arguments are ordered differently aren't equal, wherever the unions are nested.
+
+    >>> type_key(list[int]) == type_key(list[int])
+    True
+    >>> type_key(list[Union[int, str]]) == type_key(list[Union[str, int]])
+    False
+    """
+    return (typ, tuple(type_key(arg) for arg in type_args(typ)))
+
+
 def union_args(typ: Any) -> tuple[type[Any], ...]:
     if not is_union(typ):
         raise TypeError(f"{typ} is not Union")
@@ -528,7 +551,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
     """
     Iterate over all literals that are used in the dataclass
     """
-    lst: set[Union[type[Any], Any]] = set()
+    lst: list[TypeLike] = []
     stack: list[TypeLike] = []  # To prevent infinite recursion
 
     def recursive(cls: Union[type[Any], Any]) -> None:
@@ -536,7 +559,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
             return
 
         if is_literal(cls):
-            lst.add(cls)
+            lst.append(cls)
         if is_union(cls):
             for arg in type_args(cls):
                 recursive(arg)
@@ -567,7 +590,7 @@ def iter_literals(cls: type[Any]) -> list[TypeLike]:
                 recursive(args[1])
 
     recursive(cls)
-    return list(lst)
+    return lst
 
 
 @cache
@@ -666,7 +689,7 @@ def is_opt_dataclass(typ: Any) -> bool:
     >>> is_opt_dataclass(Optional[Foo])
     True
     """
-    args = get_args(typ)
+    args = type_args(typ)
     return is_opt(typ) and len(args) > 0 and is_dataclass(args[0])
 
 
diff --git a/serde/core.py b/serde/core.py
index ec784f8..0f127ef 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -7,6 +7,7 @@ import dataclasses
 import enum
 import functools
 import inspect
+import itertools
 import logging
 import re
 import casefy
@@ -20,7 +21,9 @@ from typing import (
     TypeVar,
     Generic,
     Any,
+    Optional,
     Protocol,
+    Union,
     get_type_hints,
     cast,
 )
@@ -53,6 +56,7 @@ from .compat import (
     is_union,
     is_variable_tuple,
     type_args,
+    type_key,
     typename,
     _WithTagging,
 )
@@ -94,8 +98,7 @@ SETTINGS = {"debug": False}
 @dataclass(frozen=True)
 class UnionCacheKey:
     union: Hashable
-    args: tuple[Hashable, ...]
-    """ Unions are equal irrespective of the order of their arguments """
+    """ Unions are equal irrespective of the order of their arguments, but their keys aren't """
     tagging: Tagging
 
 
@@ -182,7 +185,7 @@ class Cache:
         the class and store it in the cache.
         """
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union_cls, type_args(union_cls), tagging)
+        cache_key = UnionCacheKey(type_key(union_cls), tagging)
         wrapper = self.classes.get(cache_key)
         return wrapper or self._generate_union_class(cls)
 
@@ -194,7 +197,7 @@ class Cache:
         import serde
 
         union_cls, tagging = _extract_from_with_tagging(cls)
-        cache_key = UnionCacheKey(union_cls, type_args(union_cls), tagging)
+        cache_key = UnionCacheKey(type_key(union_cls), tagging)
         class_name = union_func_name(
             f"{tagging.produce_unique_class_name()}Union", list(type_args(union_cls))
         )
@@ -217,7 +220,7 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_key(UNION_SE_PREFIX, list(type_args(union_cls)))
+        func_name = union_func_key(UNION_SE_PREFIX, type_args(union_cls), scope)
         return scope.funcs[func_name](obj, reuse_instances, convert_sets, skip_none)
 
     def deserialize_union(
@@ -233,7 +236,7 @@ class Cache:
         union_cls, _ = _extract_from_with_tagging(cls)
         wrapper = self._get_union_class(cls)
         scope: Scope = getattr(wrapper, SERDE_SCOPE)
-        func_name = union_func_key(UNION_DE_PREFIX, list(type_args(union_cls)))
+        func_name = union_func_key(UNION_DE_PREFIX, type_args(union_cls), scope)
         return cast(
             T,
             scope.funcs[func_name](
@@ -284,6 +287,9 @@ class Scope:
     generic_types: list[Any] = dataclasses.field(default_factory=list)
     """ Types with type variables and subscripted generic classes used when deserializing """
 
+    names: dict[Hashable, str] = dataclasses.field(default_factory=dict)
+    """ Names of the types and functions used in the generated code """
+
     union_se_args: dict[str, list[type[Any]]] = dataclasses.field(default_factory=dict)
     """ The union serializing functions need references to their types """
 
@@ -303,6 +309,29 @@ class Scope:
     serialize_class_var: bool = False
     """ True when class variables are serialized after the fields """
 
+    def unique_name(self, key: Hashable, name: str) -> str:
+        """
+        Get the name of what is identified by the key: `name` unless it stands for something else.
+        """
+        if key not in self.names:
+            taken = set(self.names.values())
+            candidates = itertools.chain([name], (f"{name}_{n}" for n in itertools.count(1)))
+            self.names[key] = next(n for n in candidates if n not in taken)
+        return self.names[key]
+
+    def bind_type(self, typ: Any, g: dict[str, Any]) -> None:
+        """
+        Make a type accessible to the generated functions. Different types can have the same name,
+        also the name of something else used in the functions.
+        """
+        if typ in (Any, Optional, Union, list, set, deque, Counter, tuple, dict):
+            g[typename(typ)] = typ
+        else:
+            while hasattr(typ, "__supertype__"):
+                typ = typ.__supertype__
+            typ = (get_origin(typ) if is_generic(typ) else None) or typ
+            g[self.unique_name(typ, f"serde_type_{escape_identifier(typename(typ))}")] = typ
+
     def __repr__(self) -> str:
         res: list[str] = []
 
@@ -1024,20 +1053,26 @@ def escape_identifier(s: str) -> str:
     return re.sub(r"[^A-Za-z0-9]", lambda m: f"_{ord(m.group()):#x}_", s)
 
 
-def union_func_key(prefix: str, union_args: Sequence[Any]) -> str:
+def union_func_key(prefix: str, union_args: Sequence[Any], scope: Scope | None = None) -> str:
     """
-    Function name like `union_func_name`, but different unions never share a name.
+    Function name like `union_func_name`, but different unions of a class never share a name.
     """
-    return f"{prefix}_{'_'.join(escape_identifier(typename(e)) for e in union_args)}"
+    name = f"{prefix}_{'_'.join(escape_identifier(typename(e)) for e in union_args)}"
+    if scope is None:
+        return name
+    return scope.unique_name((prefix, *(type_key(e) for e in union_args)), name)
 
 
-def literal_func_key(literal_args: Sequence[Any]) -> str:
+def literal_func_key(literal_args: Sequence[Any], scope: Scope | None = None) -> str:
     """
-    Function name like `literal_func_name`, but different literals never share a name.
+    Function name like `literal_func_name`, but different literals of a class never share a name.
     """
-    return f"{LITERAL_DE_PREFIX}_" + "_".join(
+    name = f"{LITERAL_DE_PREFIX}_" + "_".join(
         escape_identifier(f"{typename(type(a))} {a!r}") for a in literal_args
     )
+    if scope is None:
+        return name
+    return scope.unique_name((LITERAL_DE_PREFIX, *((type(a), a) for a in literal_args)), name)
 
 
 def find_literal(args: Sequence[Any], value: Any) -> Any:
diff --git a/serde/de.py b/serde/de.py
index 472b135..64e9c03 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -366,15 +366,12 @@ def deserialize(
             if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
 
-            if is_generic(typ):
-                g[typename(typ)] = get_origin(typ)
-            else:
-                g[typename(typ)] = typ
+            scope.bind_type(typ, g)
 
         # render all union functions
         for union in iter_unions(cls):
             union_args = type_args(union)
-            union_key = union_func_key(UNION_DE_PREFIX, union_args)
+            union_key = union_func_key(UNION_DE_PREFIX, union_args, scope)
             g[f"{union_key}_args"] = union_args
             union_func = render_union_func(
                 cls, union_args, tagging, deserializer, class_deserializer
@@ -389,10 +386,9 @@ def deserialize(
         # render literal functions
         for literal in iter_literals(cls):
             literal_args = type_args(literal)
-            g[f"{literal_func_key(literal_args)}_args"] = literal_args
-            add_func(
-                scope, literal_func_key(literal_args), render_literal_func(cls, literal_args), g
-            )
+            literal_key = literal_func_key(literal_args, scope)
+            g[f"{literal_key}_args"] = literal_args
+            add_func(scope, literal_key, render_literal_func(cls, literal_args), g)
 
         # Collect default values and default factories used in the generated code.
         for f in defields(cls):
@@ -981,6 +977,16 @@ class Renderer:
     class_deserializer: ClassDeserializer | None = None
     class_name: str | None = None
 
+    @property
+    def scope(self) -> Scope | None:
+        return getattr(self.cls, SERDE_SCOPE) if self.cls else None
+
+    def type_ref(self, typ: Any) -> str:
+        """
+        Render reference to a type.
+        """
+        return typename(typ, names=self.scope.names if self.scope else None)
+
     def render(self, arg: DeField[Any]) -> str:
         """
         Render rvalue
@@ -990,7 +996,7 @@ class Renderer:
         if custom_deserializer_available and not arg.deserializer:
             res = (
                 f"class_deserializers[{implemented_methods[arg.type]}].deserialize("
-                f"{typename(arg.type)}, {arg.data})"
+                f"{self.type_ref(arg.type)}, {arg.data})"
             )
         elif arg.deserializer and arg.deserializer.inner is not default_deserializer:
             res = self.custom_field_deserializer(arg)
@@ -1038,8 +1044,9 @@ class Renderer:
         elif is_str_serializable(arg.type):
             res = f"({self.c_tor_with_check(arg)}) if reuse_instances else {self.c_tor(arg)}"
         elif is_datetime(arg.type):
-            from_iso = f"{typename(arg.type)}.fromisoformat({arg.data})"
-            res = f"({arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {from_iso}) \
+            from_iso = f"{self.type_ref(arg.type)}.fromisoformat({arg.data})"
+            typ = self.type_ref(arg.type)
+            res = f"({arg.data} if isinstance({arg.data}, {typ}) else {from_iso}) \
                     if reuse_instances else {from_iso}"
         elif is_none(arg.type):
             res = "None"
@@ -1103,7 +1110,7 @@ class Renderer:
         value = arg.data if isinstance(arg, InnerField) else arg.data_or()
         res = (
             "serde_legacy_custom_class_deserializer("
-            f"{typename(arg.type)}, "
+            f"{self.type_ref(arg.type)}, "
             f"{arg.datavar}, "
             f"{value}, "
             f"default=lambda: {code})"
@@ -1139,7 +1146,7 @@ class Renderer:
         if arg.is_self_referencing():
             class_name = "cls"
         else:
-            class_name = typename(arg.type)
+            class_name = self.type_ref(arg.type)
 
         return f"{class_name}.{SERDE_SCOPE}.funcs['{self.func}'](data={var}, {opts})"
 
@@ -1250,10 +1257,10 @@ class Renderer:
             if origin:
                 # When the callable type is of generic type e.g list.
                 # Get origin type "list" from "list[X]".
-                callable = origin.__name__
+                callable = origin.__name__ if not is_generic(v.type) else self.type_ref(v.type)
             else:
                 # When the callable type is non generic type e.g int, Foo.
-                callable = v.type.__name__
+                callable = self.type_ref(v.type)
             return f"collections.defaultdict({callable}, \
                     {{{self.dict_key(k)}: {self.render(v)} for k, v in {arg.data}.items()}})"
         else:
@@ -1280,7 +1287,7 @@ class Renderer:
             and not issubclass(typ, bool)
             and not is_enum(typ)
         ):
-            return f'coerce_object("{self.class_name}", "k", {typename(typ)}, {arg.data})'
+            return f'coerce_object("{self.class_name}", "k", {self.type_ref(typ)}, {arg.data})'
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
@@ -1288,7 +1295,7 @@ class Renderer:
         # member itself. Coercing the value beforehand (e.g. via ``coerce_object``)
         # would eagerly call ``EnumType(value)`` and fail for stringified keys of
         # ``IntEnum``/``IntFlag`` produced by JSON (e.g. ``"1"``).
-        return f"deserialize_enum({typename(arg.type)}, {arg.data})"
+        return f"deserialize_enum({self.type_ref(arg.type)}, {arg.data})"
 
     def primitive(self, arg: DeField[Any], suppress_coerce: bool = False) -> str:
         """
@@ -1296,7 +1303,7 @@ class Renderer:
 
         * `suppress_coerce`: Overrides "suppress_coerce" in the Renderer's field
         """
-        typ = typename(arg.type)
+        typ = self.type_ref(arg.type)
         dat = arg.data
         base: Any = getattr(arg.type, "__supertype__", arg.type)
         if isinstance(base, type) and issubclass(base, float):
@@ -1320,15 +1327,15 @@ class Renderer:
             return f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
 
     def c_tor(self, arg: DeField[Any]) -> str:
-        return f"{typename(arg.type)}({arg.data})"
+        return f"{self.type_ref(arg.type)}({arg.data})"
 
     def c_tor_with_check(self, arg: DeField[Any], ctor: str | None = None) -> str:
         if ctor is None:
             ctor = self.c_tor(arg)
-        return f"{arg.data} if isinstance({arg.data}, {typename(arg.type)}) else {ctor}"
+        return f"{arg.data} if isinstance({arg.data}, {self.type_ref(arg.type)}) else {ctor}"
 
     def union_func(self, arg: DeField[Any]) -> str:
-        func_name = union_func_key(UNION_DE_PREFIX, type_args(arg.type))
+        func_name = union_func_key(UNION_DE_PREFIX, type_args(arg.type), self.scope)
         if arg.deserializer:
             func_name += "_builtin"
         return (
@@ -1341,7 +1348,7 @@ class Renderer:
         )
 
     def literal(self, arg: DeField[Any]) -> str:
-        func_name = literal_func_key(type_args(arg.type))
+        func_name = literal_func_key(type_args(arg.type), self.scope)
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1555,7 +1562,7 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
     {% if is_custom(t) %}
     {% elif (is_primitive(t) and not is_enum(t)) or is_none(t) %}
-    if not isinstance(fake_dict["fake_key"], {{typename(primitive_base(t))}}):
+    if not isinstance(fake_dict["fake_key"], {{type_ref(primitive_base(t))}}):
         raise Exception("Not a type of {{typename(t)}}")
     {% elif is_list(t) or is_set(t) or is_deque(t) or is_tuple(t) %}
     if isinstance(fake_dict["fake_key"], (str, bytes, bytearray, collections.abc.Mapping)):
@@ -1808,6 +1815,7 @@ def render_union_func(
 ) -> str:
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
 
+    serde_scope = getattr(cls, SERDE_SCOPE)
     renderer = Renderer(
         FROM_DICT,
         cls=cls,
@@ -1817,8 +1825,9 @@ def render_union_func(
         class_name=typename(cls),
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_key(UNION_DE_PREFIX, union_args) + ("_builtin" if builtin else ""),
-        serde_scope=getattr(cls, SERDE_SCOPE),
+        func=union_func_key(UNION_DE_PREFIX, union_args, serde_scope)
+        + ("_builtin" if builtin else ""),
+        serde_scope=serde_scope,
         union_args=union_args,
         union_name=union_name,
         tagging=tagging,
@@ -1829,6 +1838,7 @@ def render_union_func(
             name="fake_key",
             deserializer=Func(default_deserializer) if builtin else None,
         ),
+        type_ref=renderer.type_ref,
         rvalue=renderer.render,
         is_custom=lambda t: not builtin and t in renderer.implemented_methods(),
         is_primitive=is_primitive,
@@ -1850,7 +1860,8 @@ def render_union_func(
 def render_literal_func(
     cls: type[Any], literal_args: Sequence[Any], tagging: Tagging = DefaultTagging
 ) -> str:
+    serde_scope = getattr(cls, SERDE_SCOPE)
     return jinja2_env.get_template("literal").render(
-        func=literal_func_key(literal_args),
-        serde_scope=getattr(cls, SERDE_SCOPE),
+        func=literal_func_key(literal_args, serde_scope),
+        serde_scope=serde_scope,
     )
diff --git a/serde/se.py b/serde/se.py
index df9711b..5844feb 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -306,12 +306,12 @@ def serialize(
             # Subclasses of primitives are used to coerce values.
             if is_primitive(typ) and not is_enum(typ) and not is_primitive_subclass(typ):
                 continue
-            g[typename(typ)] = typ
+            scope.bind_type(typ, g)
 
         # render all union functions
         for union in iter_unions(cls):
             union_args = list(type_args(union))
-            union_key = union_func_key(UNION_SE_PREFIX, union_args)
+            union_key = union_func_key(UNION_SE_PREFIX, union_args, scope)
             union_func = render_union_func(cls, union_args, tagging, serializer, class_serializer)
             add_func(scope, union_key, union_func, g)
             scope.union_se_args[union_key] = union_args
@@ -833,6 +833,7 @@ def render_to_tuple(
     serialize_class_var: bool = False,
     class_serializer: ClassSerializer | None = None,
 ) -> str:
+    serde_scope = getattr(cls, SERDE_SCOPE)
     renderer = Renderer(
         TO_ITER,
         legacy_class_serializer,
@@ -840,8 +841,8 @@ def render_to_tuple(
         serialize_class_var=serialize_class_var,
         class_serializer=class_serializer,
         class_name=typename(cls),
+        scope=serde_scope,
     )
-    serde_scope = getattr(cls, SERDE_SCOPE)
     if serde_scope.transparent:
         transparent = [
             f for f in sefields(cls, serialize_class_var) if not (f.skip or f.skip_serializing)
@@ -872,15 +873,16 @@ def render_to_dict(
     serialize_class_var: bool = False,
     class_serializer: ClassSerializer | None = None,
 ) -> str:
+    serde_scope = getattr(cls, SERDE_SCOPE)
     renderer = Renderer(
         TO_DICT,
         legacy_class_serializer,
         suppress_coerce=(not type_check.is_coerce()),
         class_serializer=class_serializer,
         class_name=typename(cls),
+        scope=serde_scope,
     )
     lrenderer = LRenderer(case, serialize_class_var)
-    serde_scope = getattr(cls, SERDE_SCOPE)
     if serde_scope.transparent:
         transparent = [
             f for f in sefields(cls, serialize_class_var) if not (f.skip or f.skip_serializing)
@@ -963,16 +965,19 @@ def render_union_func(
     * `builtin`: Ignore the class serializers, for fields marked with `default_serializer`.
     """
     union_name = f"Union[{', '.join([typename(a) for a in union_args])}]"
+    serde_scope = getattr(cls, SERDE_SCOPE)
     renderer = Renderer(
         TO_DICT,
         legacy_class_serializer,
         suppress_coerce=True,
         class_serializer=class_serializer,
         class_name=typename(cls),
+        scope=serde_scope,
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_key(UNION_SE_PREFIX, union_args) + ("_builtin" if builtin else ""),
-        serde_scope=getattr(cls, SERDE_SCOPE),
+        func=union_func_key(UNION_SE_PREFIX, union_args, serde_scope)
+        + ("_builtin" if builtin else ""),
+        serde_scope=serde_scope,
         variants=order_variants(union_args),
         union_name=union_name,
         tagging=tagging,
@@ -1018,6 +1023,13 @@ class Renderer:
     serialize_class_var: bool = False
     class_serializer: ClassSerializer | None = None
     class_name: str | None = None
+    scope: Scope | None = None
+
+    def type_ref(self, typ: Any) -> str:
+        """
+        Render reference to a type.
+        """
+        return typename(typ, names=self.scope.names if self.scope else None)
 
     def render(self, arg: SeField[Any]) -> str:
         """
@@ -1105,7 +1117,7 @@ class Renderer:
         if self.legacy_class_serializer and not arg.serializer and not custom_serializer_available:
             return (
                 "serde_legacy_custom_class_serializer("
-                f"{typename(arg.type)}, "
+                f"{self.type_ref(arg.type)}, "
                 f"{arg.varname}, "
                 f"default=lambda: {res})"
             )
@@ -1123,7 +1135,7 @@ class Renderer:
         """
         Render rvalue for dataclass.
         """
-        owner = typename(arg.type) if arg.flatten else arg.varname
+        owner = self.type_ref(arg.type) if arg.flatten else arg.varname
         return (
             f"{owner}.{SERDE_SCOPE}.funcs['{self.func}']({arg.varname}, "
             "reuse_instances=reuse_instances, convert_sets=convert_sets, skip_none=skip_none)"
@@ -1223,13 +1235,13 @@ class Renderer:
             return f"{{{self.render(karg)}: {self.render(varg)} for k, v in {arg.varname}.items()}}"
 
     def enum(self, arg: SeField[Any]) -> str:
-        return f"enum_value({typename(arg.type)}, {arg.varname})"
+        return f"enum_value({self.type_ref(arg.type)}, {arg.varname})"
 
     def primitive(self, arg: SeField[Any]) -> str:
         """
         Render rvalue for primitives.
         """
-        typ = typename(arg.type)
+        typ = self.type_ref(arg.type)
         var = arg.varname
         if self.suppress_coerce and is_primitive_subclass(arg.type):
             return f"primitive_value({var})"
@@ -1245,7 +1257,7 @@ class Renderer:
         return f"str({arg.varname})"
 
     def union_func(self, arg: SeField[Any]) -> str:
-        func_name = union_func_key(UNION_SE_PREFIX, list(type_args(arg.type)))
+        func_name = union_func_key(UNION_SE_PREFIX, type_args(arg.type), self.scope)
         if arg.serializer:
             func_name += "_builtin"
         return (
-- 
2.43.0


From d1e4940342fc410c87898b23f1cce4fbdef85da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:37 +0000
Subject: [PATCH 43/53] fix: generate code for a plain dataclass that inherits
 from one used before

---
 serde/core.py | 7 +++++++
 serde/de.py   | 4 ++++
 serde/se.py   | 6 +++++-
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/serde/core.py b/serde/core.py
index 0f127ef..fb9c9dc 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -1239,6 +1239,13 @@ def should_impl_dataclass(cls: type[Any]) -> bool:
     return bool(inspect.get_annotations(cls))
 
 
+def declares_fields(cls: type[Any]) -> bool:
+    """
+    Test if the class itself is a dataclass that has declarations of fields, not inherited ones.
+    """
+    return "__dataclass_fields__" in cls.__dict__ and bool(inspect.get_annotations(cls))
+
+
 @dataclass
 class TypeCheck:
     """
diff --git a/serde/de.py b/serde/de.py
index 64e9c03..7b06759 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -75,6 +75,7 @@ from .core import (
     UNION_DE_PREFIX,
     DefaultTagging,
     Field,
+    declares_fields,
     disabled,
     should_impl_dataclass,
     Scope,
@@ -460,6 +461,9 @@ def is_dataclass_without_de(cls: type[Any]) -> bool:
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
     if not scope:
         return True
+    # The functions inherited from the base class don't know the fields a dataclass adds.
+    if scope.cls is not cls and declares_fields(cls):
+        return True
     return FROM_DICT not in scope.funcs
 
 
diff --git a/serde/se.py b/serde/se.py
index 5844feb..1a23783 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -82,6 +82,7 @@ from .core import (
     TypeCheck,
     add_func,
     coerce_object,
+    declares_fields,
     disabled,
     should_impl_dataclass,
     get_flattened_class,
@@ -382,6 +383,9 @@ def is_dataclass_without_se(cls: type[Any]) -> bool:
     scope: Scope | None = getattr(cls, SERDE_SCOPE)
     if not scope:
         return True
+    # The functions inherited from the base class don't know the fields a dataclass adds.
+    if scope.cls is not cls and declares_fields(cls):
+        return True
     return TO_DICT not in scope.funcs
 
 
@@ -476,7 +480,7 @@ def to_obj(
         class_serializer = find_global_class_serializer(type(o))
         if class_serializer is not None:
             return class_serializer.serialize(o)
-        if is_dataclass_without_se(o):
+        if is_dataclass_without_se(type(o)):
             # Do not automatically implement beartype if dataclass without serde decorator
             # is passed, because it is surprising for users
             # See https://github.com/yukinarit/pyserde/issues/480
-- 
2.43.0


From 477c24612943204dbddd50c3ef5bef6cb704c84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:38 +0000
Subject: [PATCH 44/53] fix: reject a transparent class whose only field is
 skipped in one direction with SerdeError

---
 serde/core.py | 9 ++++++++-
 serde/de.py   | 2 +-
 serde/se.py   | 2 +-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index fb9c9dc..71d1278 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -954,10 +954,12 @@ def fields(
     return fields  # type: ignore
 
 
-def get_transparent_field(cls: type[Any]) -> Field[Any]:
+def get_transparent_field(cls: type[Any], skip_attr: str | None = None) -> Field[Any]:
     """
     Return the single "transparent" field for `cls`.
 
+    * `skip_attr`: Name of the attribute the field must not have in addition to `skip`
+
     A transparent class must have exactly one init=True field that is not skipped.
     Any other dataclass fields must be both init=False and skipped.
     """
@@ -974,6 +976,11 @@ def get_transparent_field(cls: type[Any]) -> Field[Any]:
         )
 
     chosen = candidates[0]
+    if skip_attr and getattr(chosen, skip_attr):
+        raise SerdeError(
+            f"{typename(cls)} with `transparent=True` can not have {skip_attr!r} in its field "
+            f"(found {chosen.name!r})"
+        )
     for f in all_fields:
         if f.name == chosen.name:
             continue
diff --git a/serde/de.py b/serde/de.py
index 7b06759..788a038 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -294,7 +294,7 @@ def deserialize(
             dataclass(cls)
 
         if transparent:
-            get_transparent_field(cls)
+            get_transparent_field(cls, "skip_deserializing")
 
         if type_check.is_strict():
             serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
diff --git a/serde/se.py b/serde/se.py
index 1a23783..7735bb5 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -246,7 +246,7 @@ def serialize(
             dataclass(cls)
 
         if transparent:
-            get_transparent_field(cls)
+            get_transparent_field(cls, "skip_serializing")
 
         if type_check.is_strict():
             serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
-- 
2.43.0


From 6c228f9d86720d4e0615e94d46173374d28a9846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:52 +0000
Subject: [PATCH 45/53] fix: tell enum members apart from equal values when
 writing them

---
 serde/compat.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/serde/compat.py b/serde/compat.py
index 90e0a01..aeeb4b5 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -1025,7 +1025,6 @@ def is_none(typ: type[Any]) -> bool:
 PRIMITIVES = [int, float, bool, str]
 
 
-@cache
 def is_enum(typ: type[Any]) -> TypeGuard[enum.Enum]:
     """
     Test if the type is `enum.Enum`.
-- 
2.43.0


From ab3e4339fd6be41d23fbe5db4199c878d7491f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 46/53] fix: keep names given by the user apart from the
 generated code

---
 serde/core.py |  19 +++++++-
 serde/de.py   | 131 +++++++++++++++++++++++++++-----------------------
 serde/se.py   |  34 +++++++------
 3 files changed, 108 insertions(+), 76 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 71d1278..58e3919 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -89,6 +89,8 @@ TYPE_CHECK = "typecheck"
 # prefixes used to distinguish the direction of a union function
 UNION_SE_PREFIX = "union_se"
 UNION_DE_PREFIX = "union_de"
+UNION_SE_BUILTIN_PREFIX = "union_se_builtin"
+UNION_DE_BUILTIN_PREFIX = "union_de_builtin"
 
 LITERAL_DE_PREFIX = "literal_de"
 
@@ -888,7 +890,7 @@ class Field(Generic[T]):
         """
         Get mangled name based on field name.
         """
-        return f"{field.name}_{name}"
+        return f"serde_field_{field.name}_{name}"
 
     def conv_name(self, case: str | None = None) -> str:
         """
@@ -1048,6 +1050,21 @@ def literal_func_name(literal_args: Sequence[Any]) -> str:
     )
 
 
+def string_literal(s: str) -> str:
+    """
+    Render a string in the generated code.
+
+    >>> string_literal("a")
+    '"a"'
+    >>> string_literal('a"b')
+    '"a\\\\"b"'
+    """
+    literal = str.__repr__(s)
+    if literal[0] == '"':
+        return literal
+    return '"' + literal[1:-1].replace('"', '\\"') + '"'
+
+
 def escape_identifier(s: str) -> str:
     """
     Encode any string into characters valid in an identifier, distinct strings distinctly.
diff --git a/serde/de.py b/serde/de.py
index 788a038..3e45328 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -72,6 +72,7 @@ from .core import (
     FROM_ITER,
     SERDE_SCOPE,
     CACHE,
+    UNION_DE_BUILTIN_PREFIX,
     UNION_DE_PREFIX,
     DefaultTagging,
     Field,
@@ -85,6 +86,7 @@ from .core import (
     coerce_object,
     deserialize_enum,
     strict,
+    string_literal,
     get_flattened_class,
     get_transparent_field,
     has_default,
@@ -373,22 +375,23 @@ def deserialize(
         for union in iter_unions(cls):
             union_args = type_args(union)
             union_key = union_func_key(UNION_DE_PREFIX, union_args, scope)
-            g[f"{union_key}_args"] = union_args
+            g[f"args_of_{union_key}"] = union_args
             union_func = render_union_func(
                 cls, union_args, tagging, deserializer, class_deserializer
             )
             add_func(scope, union_key, union_func, g)
             # Fields marked with `default_deserializer` bypass the class deserializers.
             if any(f.deserializer for f in defields(cls)):
-                g[f"{union_key}_builtin_args"] = union_args
+                union_key = union_func_key(UNION_DE_BUILTIN_PREFIX, union_args, scope)
+                g[f"args_of_{union_key}"] = union_args
                 union_func = render_union_func(cls, union_args, tagging, builtin=True)
-                add_func(scope, f"{union_key}_builtin", union_func, g)
+                add_func(scope, union_key, union_func, g)
 
         # render literal functions
         for literal in iter_literals(cls):
             literal_args = type_args(literal)
             literal_key = literal_func_key(literal_args, scope)
-            g[f"{literal_key}_args"] = literal_args
+            g[f"args_of_{literal_key}"] = literal_args
             add_func(scope, literal_key, render_literal_func(cls, literal_args), g)
 
         # Collect default values and default factories used in the generated code.
@@ -903,9 +906,9 @@ class DeField(Field[T]):
             raise_error = not (is_union(self.type) and type(None) in get_args(self.type))
             return f"_get_by_aliases({self.datavar}, [{self.keys()}], raise_error={raise_error})"
         elif is_union(self.type) and type(None) in get_args(self.type):
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return f"{self.datavar}.get({string_literal(self.conv_name())})"
         else:
-            return f'{self.datavar}["{self.conv_name()}"]'
+            return f"{self.datavar}[{string_literal(self.conv_name())}]"
 
     @data.setter
     def data(self, d: str) -> None:
@@ -917,7 +920,7 @@ class DeField(Field[T]):
         elif self.alias:
             return f"_get_by_aliases({self.datavar}, [{self.keys()}], raise_error=False)"
         else:
-            return f'{self.datavar}.get("{self.conv_name()}")'
+            return f"{self.datavar}.get({string_literal(self.conv_name())})"
 
     def exists(self) -> str:
         """
@@ -926,13 +929,13 @@ class DeField(Field[T]):
         if self.alias:
             return f"_exists_by_aliases({self.datavar}, [{self.keys()}])"
         else:
-            return f'"{self.conv_name()}" in {self.datavar}'
+            return f"{string_literal(self.conv_name())} in {self.datavar}"
 
     def keys(self) -> str:
         """
         Renders the keys from which the value is taken i.e. the field's key and its aliases.
         """
-        return ",".join(f'"{s}"' for s in [self.conv_name(), *self.alias])
+        return ",".join(string_literal(s) for s in [self.conv_name(), *self.alias])
 
 
 @dataclass
@@ -1291,7 +1294,7 @@ class Renderer:
             and not issubclass(typ, bool)
             and not is_enum(typ)
         ):
-            return f'coerce_object("{self.class_name}", "k", {self.type_ref(typ)}, {arg.data})'
+            return self.coerce("k", self.type_ref(typ), arg.data)
         return self.render(arg)
 
     def enum(self, arg: DeField[Any]) -> str:
@@ -1318,17 +1321,19 @@ class Renderer:
                 return f"{number} if deserialize_numbers else {dat}"
             else:
                 assert arg.name
-                escaped_arg_name = arg.name.replace('"', '\\"')
-                return (
-                    f"{number} if deserialize_numbers else "
-                    f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
-                )
+                return f"{number} if deserialize_numbers else {self.coerce(arg.name, typ, dat)}"
         if self.suppress_coerce and suppress_coerce:
             return dat
         else:
             assert arg.name
-            escaped_arg_name = arg.name.replace('"', '\\"')
-            return f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {dat})'
+            return self.coerce(arg.name, typ, dat)
+
+    def coerce(self, name: str, typ: str, data: str) -> str:
+        """
+        Render the conversion of data into the type of a field.
+        """
+        owner = string_literal(str(self.class_name))
+        return f"coerce_object({owner}, {string_literal(name)}, {typ}, {data})"
 
     def c_tor(self, arg: DeField[Any]) -> str:
         return f"{self.type_ref(arg.type)}({arg.data})"
@@ -1339,9 +1344,8 @@ class Renderer:
         return f"{arg.data} if isinstance({arg.data}, {self.type_ref(arg.type)}) else {ctor}"
 
     def union_func(self, arg: DeField[Any]) -> str:
-        func_name = union_func_key(UNION_DE_PREFIX, type_args(arg.type), self.scope)
-        if arg.deserializer:
-            func_name += "_builtin"
+        prefix = UNION_DE_BUILTIN_PREFIX if arg.deserializer else UNION_DE_PREFIX
+        func_name = union_func_key(prefix, type_args(arg.type), self.scope)
         return (
             f"serde_scope.funcs['{func_name}']("
             "cls=cls, "
@@ -1411,16 +1415,16 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
   {% for f in fields %}
-  __{{f.name}} = {{rvalue(arg(f, positions[f.name]))}}
+  field_{{f.name}} = {{rvalue(arg(f, positions[f.name]))}}
   {% endfor %}
 
   try:
     return cls(
       {% for f in fields if not f.kw_only %}
-      __{{f.name}},
+      field_{{f.name}},
       {% endfor %}
       {% for f in fields if f.kw_only %}
-      {{f.name}}=__{{f.name}},
+      {{f.name}}=field_{{f.name}},
       {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1435,14 +1439,14 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
   fake_data = (data,)
-  __{{field.name}} = {{rvalue(field)}}
+  field_{{field.name}} = {{rvalue(field)}}
 
   try:
     return cls(
       {% if field.kw_only %}
-      {{field.name}}=__{{field.name}},
+      {{field.name}}=field_{{field.name}},
       {% else %}
-      __{{field.name}},
+      field_{{field.name}},
       {% endif %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1464,36 +1468,36 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   {% endif %}
 
   {% if has_flatten_dict %}
-  __flatten_known_fields = {{ known_fields }}
-  __flatten_extra = {k: v for k, v in (data or {}).items() if k not in __flatten_known_fields}
+  flatten_known_fields = {{ known_fields }}
+  flatten_extra = {k: v for k, v in (data or {}).items() if k not in flatten_known_fields}
   {% endif %}
 
   {% for f in fields %}
   {% if f.flatten and is_flatten_dict(f.type) %}
-  __{{f.name}} = __flatten_extra
+  field_{{f.name}} = flatten_extra
   {% else %}
   {% set child_scope = flattened_dataclass_child_scopes.get(f.name) %}
   {% if child_scope %}
-  __{{f.name}}_flatten_data = _project_flattened_data(
+  flatten_data_{{f.name}} = _project_flattened_data(
     data,
     {{ child_scope.de_known_fields }},
     {{ known_fields }},
     {{ child_scope.de_has_flatten_dict }},
     {{ has_flatten_dict }},
   )
-  {% set field_arg = arg(f,loop.index-1, datavar="__" ~ f.name ~ "_flatten_data") %}
+  {% set field_arg = arg(f,loop.index-1, datavar="flatten_data_" ~ f.name) %}
   {% else %}
   {% set field_arg = arg(f,loop.index-1) %}
   {% endif %}
   {% if field_arg.supports_default() %}
-  __{{f.name}} = {{rvalue(field_arg)}}
+  field_{{f.name}} = {{rvalue(field_arg)}}
   {% else %}
   try:
-    __{{f.name}} = {{rvalue(field_arg)}}
+    field_{{f.name}} = {{rvalue(field_arg)}}
   except KeyError:
-    raise SerdeError(
-      "missing required field '{{field_arg.conv_name()}}' while deserializing {{class_name}}"
-    )
+    raise SerdeError({{literal(
+      "missing required field '" ~ field_arg.conv_name() ~ "' while deserializing " ~ class_name
+    )}})
   {% endif %}
   {% endif %}
   {% endfor %}
@@ -1501,10 +1505,10 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
   try:
     return cls(
     {% for f in fields if not f.kw_only %}
-    __{{f.name}},
+    field_{{f.name}},
     {% endfor %}
     {% for f in fields if f.kw_only %}
-    {{f.name}}=__{{f.name}},
+    {{f.name}}=field_{{f.name}},
     {% endfor %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1519,14 +1523,14 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     reuse_instances = {{serde_scope.reuse_instances_default}}
 
   fake_dict = {"__serde_transparent__": data}
-  __{{field.name}} = {{rvalue(field)}}
+  field_{{field.name}} = {{rvalue(field)}}
 
   try:
     return cls(
     {% if field.kw_only %}
-    {{field.name}}=__{{field.name}},
+    {{field.name}}=field_{{field.name}},
     {% else %}
-    __{{field.name}},
+    field_{{field.name}},
     {% endif %}
     )
   except BeartypeCallHintParamViolation as e:
@@ -1543,22 +1547,23 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
 
   errors = []
   {% for t in union_args %}
+  {% set name = literal(typename(t)) %}
   try:
     # create fake dict so we can reuse the normal render function
     {% if tagging.is_external() and is_taggable(t)  %}
-    ensure("{{typename(t)}}" in data , "'{{typename(t)}}' key is not present")
-    fake_dict = {"fake_key": data["{{typename(t)}}"]}
+    ensure({{name}} in data, {{literal("'" ~ typename(t) ~ "' key is not present")}})
+    fake_dict = {"fake_key": data[{{name}}]}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": _remove_tag(data, "{{tagging.tag}}", {{func}}_args[{{loop.index0}}])}
+    ensure({{tag}} in data, {{literal("'" ~ tagging.tag ~ "' key is not present")}})
+    ensure({{name}} == data[{{tag}}], {{literal("tag '" ~ typename(t) ~ "' isn't found")}})
+    fake_dict = {"fake_key": _remove_tag(data, {{tag}}, args_of_{{func}}[{{loop.index0}}])}
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    ensure("{{tagging.tag}}" in data , "'{{tagging.tag}}' key is not present")
-    ensure("{{tagging.content}}" in data , "'{{tagging.content}}' key is not present")
-    ensure("{{typename(t)}}" == data["{{tagging.tag}}"], "tag '{{typename(t)}}' isn't found")
-    fake_dict = {"fake_key": data["{{tagging.content}}"]}
+    ensure({{tag}} in data, {{literal("'" ~ tagging.tag ~ "' key is not present")}})
+    ensure({{content}} in data, {{literal("'" ~ tagging.content ~ "' key is not present")}})
+    ensure({{name}} == data[{{tag}}], {{literal("tag '" ~ typename(t) ~ "' isn't found")}})
+    fake_dict = {"fake_key": data[{{content}}]}
 
     {% else %}
     fake_dict = {"fake_key": data}
@@ -1567,31 +1572,32 @@ def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=Non
     {% if is_custom(t) %}
     {% elif (is_primitive(t) and not is_enum(t)) or is_none(t) %}
     if not isinstance(fake_dict["fake_key"], {{type_ref(primitive_base(t))}}):
-        raise Exception("Not a type of {{typename(t)}}")
+        raise Exception({{literal("Not a type of " ~ typename(t))}})
     {% elif is_list(t) or is_set(t) or is_deque(t) or is_tuple(t) %}
     if isinstance(fake_dict["fake_key"], (str, bytes, bytearray, collections.abc.Mapping)):
-        raise Exception("Not a type of {{typename(t)}}")
+        raise Exception({{literal("Not a type of " ~ typename(t))}})
     {% elif is_enum(t) and str in union_args and not has_str_member(t) %}
     if isinstance(fake_dict["fake_key"], str):
-        raise Exception("Not a type of {{typename(t)}}")
+        raise Exception({{literal("Not a type of " ~ typename(t))}})
     {% elif is_str_serializable(t) %}
     if type(fake_dict["fake_key"]) in ({% for p in numbers %}{{typename(p)}}, {% endfor %}):
-        raise Exception("Not a type of {{typename(t)}}")
+        raise Exception({{literal("Not a type of " ~ typename(t))}})
     {% endif %}
     res = {{rvalue(arg(t))}}
-    ensure(is_bearable(res, {{func}}_args[{{loop.index0}}]), "object is not of type '{{typename(t)}}'")
+    ensure(is_bearable(res, args_of_{{func}}[{{loop.index0}}]), {{literal("object is not of type '" ~ typename(t) ~ "'")}})
     return res
   except Exception as e:
-    errors.append(f" Failed to deserialize into {{typename(t)}}: {e}")
+    errors.append({{literal(" Failed to deserialize into " ~ typename(t) ~ ": ")}} + str(e))
   {% endfor %}
   raise SerdeError("Can not deserialize " + repr(data) + " of type " + \
-          typename(type(data)) + " into {{union_name}}.\\nReasons:\\n" + "\\n".join(errors))
+          typename(type(data)) + {{literal(" into " ~ union_name)}} + ".\\nReasons:\\n" + \
+          "\\n".join(errors))
 """,
             "literal": """
 def {{func}}(cls=cls, maybe_generic=None, maybe_generic_type_vars=None, data=None,
              variable_type_args=None, reuse_instances = {{serde_scope.reuse_instances_default}},
              deserialize_numbers=None):
-  return find_literal({{func}}_args, data)
+  return find_literal(args_of_{{func}}, data)
   """,
         }
     )
@@ -1777,6 +1783,7 @@ def render_from_dict(
             type_check=type_check,
             class_name=typename(cls),
             rvalue=renderer.render,
+            literal=string_literal,
             arg=functools.partial(to_arg, rename_all=rename_all),
             deny_unknown_fields=deny_unknown_fields,
             known_fields=known_fields,
@@ -1829,8 +1836,9 @@ def render_union_func(
         class_name=typename(cls),
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_key(UNION_DE_PREFIX, union_args, serde_scope)
-        + ("_builtin" if builtin else ""),
+        func=union_func_key(
+            UNION_DE_BUILTIN_PREFIX if builtin else UNION_DE_PREFIX, union_args, serde_scope
+        ),
         serde_scope=serde_scope,
         union_args=union_args,
         union_name=union_name,
@@ -1842,6 +1850,9 @@ def render_union_func(
             name="fake_key",
             deserializer=Func(default_deserializer) if builtin else None,
         ),
+        literal=string_literal,
+        tag=string_literal(tagging.tag or ""),
+        content=string_literal(tagging.content or ""),
         type_ref=renderer.type_ref,
         rvalue=renderer.render,
         is_custom=lambda t: not builtin and t in renderer.implemented_methods(),
diff --git a/serde/se.py b/serde/se.py
index 7735bb5..7a8b0cc 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -74,6 +74,7 @@ from .core import (
     SERDE_SCOPE,
     TO_DICT,
     TO_ITER,
+    UNION_SE_BUILTIN_PREFIX,
     UNION_SE_PREFIX,
     DefaultTagging,
     Field,
@@ -88,6 +89,7 @@ from .core import (
     get_flattened_class,
     get_transparent_field,
     strict,
+    string_literal,
     fields,
     is_instance,
     logger,
@@ -318,9 +320,10 @@ def serialize(
             scope.union_se_args[union_key] = union_args
             # Fields marked with `default_serializer` bypass the class serializers.
             if any(f.serializer for f in sefields(cls, serialize_class_var)):
+                union_key = union_func_key(UNION_SE_BUILTIN_PREFIX, union_args, scope)
                 union_func = render_union_func(cls, union_args, tagging, builtin=True)
-                add_func(scope, f"{union_key}_builtin", union_func, g)
-                scope.union_se_args[f"{union_key}_builtin"] = union_args
+                add_func(scope, union_key, union_func, g)
+                scope.union_se_args[union_key] = union_args
 
         add_field_serializers_to_scope(sefields(cls, serialize_class_var), g)
 
@@ -802,17 +805,17 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
   {% for i, t in variants %}
   if is_instance(obj, union_args[{{i}}]):
     {% if tagging.is_external() and is_taggable(t) %}
-    return {"{{typename(t)}}": {{rvalue(arg(t))}}}
+    return { {{literal(typename(t))}}: {{rvalue(arg(t))}}}
 
     {% elif tagging.is_internal() and is_taggable(t) %}
     # The variant may hand out a dictionary that belongs to the user e.g. if it is transparent
     res = {**({{rvalue(arg(t))}})}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
+    res[{{literal(tagging.tag)}}] = {{literal(typename(t))}}
     return res
 
     {% elif tagging.is_adjacent() and is_taggable(t) %}
-    res = {"{{tagging.content}}": {{rvalue(arg(t))}}}
-    res["{{tagging.tag}}"] = "{{typename(t)}}"
+    res = { {{literal(tagging.content)}}: {{rvalue(arg(t))}}}
+    res[{{literal(tagging.tag)}}] = {{literal(typename(t))}}
     return res
 
     {% else %}
@@ -823,7 +826,7 @@ def {{func}}(obj, reuse_instances, convert_sets, skip_none=False):
                    repr(obj) + \
                    " of type " + \
                    typename(type(obj)) + \
-                   " for {{union_name}}")
+                   {{literal(" for " + union_name)}})
 """,
         }
     )
@@ -979,8 +982,9 @@ def render_union_func(
         scope=serde_scope,
     )
     return jinja2_env.get_template("union").render(
-        func=union_func_key(UNION_SE_PREFIX, union_args, serde_scope)
-        + ("_builtin" if builtin else ""),
+        func=union_func_key(
+            UNION_SE_BUILTIN_PREFIX if builtin else UNION_SE_PREFIX, union_args, serde_scope
+        ),
         serde_scope=serde_scope,
         variants=order_variants(union_args),
         union_name=union_name,
@@ -991,6 +995,7 @@ def render_union_func(
         ),
         rvalue=renderer.render,
         typename=typename,
+        literal=string_literal,
     )
 
 
@@ -1011,7 +1016,7 @@ class LRenderer:
             # Special marker for flatten dict - handled by template
             return "__FLATTEN_DICT__"
 
-        return f'res["{arg.conv_name(self.case)}"]'
+        return f"res[{string_literal(arg.conv_name(self.case))}]"
 
 
 @dataclass
@@ -1253,17 +1258,16 @@ class Renderer:
             return var
         else:
             assert arg.name
-            escaped_arg_name = arg.name.replace('"', '\\"')
-            res = f'coerce_object("{self.class_name}", "{escaped_arg_name}", {typ}, {var})'
+            owner = string_literal(str(self.class_name))
+            res = f"coerce_object({owner}, {string_literal(arg.name)}, {typ}, {var})"
             return f"primitive_value({res})" if is_primitive_subclass(arg.type) else res
 
     def string(self, arg: SeField[Any]) -> str:
         return f"str({arg.varname})"
 
     def union_func(self, arg: SeField[Any]) -> str:
-        func_name = union_func_key(UNION_SE_PREFIX, type_args(arg.type), self.scope)
-        if arg.serializer:
-            func_name += "_builtin"
+        prefix = UNION_SE_BUILTIN_PREFIX if arg.serializer else UNION_SE_PREFIX
+        func_name = union_func_key(prefix, type_args(arg.type), self.scope)
         return (
             f"serde_scope.funcs['{func_name}']({arg.varname}, "
             "reuse_instances, convert_sets, skip_none)"
-- 
2.43.0


From 686ccbdeaa30fe28336e897dc9b57c716d772824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 47/53] fix: generate code for plain generic dataclasses nested
 in other classes

---
 serde/compat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serde/compat.py b/serde/compat.py
index aeeb4b5..25f18bd 100644
--- a/serde/compat.py
+++ b/serde/compat.py
@@ -495,6 +495,11 @@ def iter_types(cls: type[Any]) -> list[type[Any]]:
         elif is_pep695_type_alias(cls):
             lst.add(cls)
             recursive(cls.__value__)
+        elif is_generic(cls):
+            lst.add(cls)
+            recursive(get_origin(cls))
+            for arg in type_args(cls):
+                recursive(arg)
         else:
             lst.add(cls)
 
-- 
2.43.0


From b1fd2c28a936fa9b0369a9ab85e8277be42f3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 48/53] fix: make code generation thread-safe, re-entrant and
 exception-safe

---
 serde/core.py | 16 ++++++++++++--
 serde/de.py   | 60 ++++++++++++++++++++++++++++-----------------------
 serde/se.py   | 53 ++++++++++++++++++++++++++++-----------------
 3 files changed, 80 insertions(+), 49 deletions(-)

diff --git a/serde/core.py b/serde/core.py
index 58e3919..18dbd5a 100644
--- a/serde/core.py
+++ b/serde/core.py
@@ -10,6 +10,7 @@ import inspect
 import itertools
 import logging
 import re
+import threading
 import casefy
 from dataclasses import dataclass
 
@@ -96,6 +97,9 @@ LITERAL_DE_PREFIX = "literal_de"
 
 SETTINGS = {"debug": False}
 
+GENERATION_LOCK = threading.RLock()
+""" Held while code is generated, which may happen on the first use of a class in any thread """
+
 
 @dataclass(frozen=True)
 class UnionCacheKey:
@@ -141,7 +145,11 @@ class Cache:
         the class and store it in the cache.
         """
         wrapper = self.classes.get(cls)  # type: ignore[call-overload] # mypy doesn't recognize type[Any] as Hashable
-        return wrapper or self._generate_class(cls)
+        if wrapper is None:
+            with GENERATION_LOCK:
+                wrapper = self.classes.get(cls)  # type: ignore[call-overload]
+                return wrapper or self._generate_class(cls)
+        return wrapper
 
     def _generate_class(self, cls: type[Any]) -> type[Any]:
         """
@@ -189,7 +197,11 @@ class Cache:
         union_cls, tagging = _extract_from_with_tagging(cls)
         cache_key = UnionCacheKey(type_key(union_cls), tagging)
         wrapper = self.classes.get(cache_key)
-        return wrapper or self._generate_union_class(cls)
+        if wrapper is None:
+            with GENERATION_LOCK:
+                wrapper = self.classes.get(cache_key)
+                return wrapper or self._generate_union_class(cls)
+        return wrapper
 
     def _generate_union_class(self, cls: type[Any]) -> type[Any]:
         """
diff --git a/serde/de.py b/serde/de.py
index 3e45328..c1c9282 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -74,6 +74,7 @@ from .core import (
     CACHE,
     UNION_DE_BUILTIN_PREFIX,
     UNION_DE_PREFIX,
+    GENERATION_LOCK,
     DefaultTagging,
     Field,
     declares_fields,
@@ -282,13 +283,7 @@ def deserialize(
     Foo(i=10, s='foo', f=100.0, b=True)
     """
 
-    stack = []
-
-    def wrap(cls: type[T]) -> type[T]:
-        if cls in stack:
-            return cls
-        stack.append(cls)
-
+    def generate(cls: type[T]) -> type[T]:
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
@@ -298,10 +293,6 @@ def deserialize(
         if transparent:
             get_transparent_field(cls, "skip_deserializing")
 
-        if type_check.is_strict():
-            serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
-            serde_beartype(cls)
-
         g: dict[str, Any] = {}
 
         # Create a scope storage used by serde.
@@ -424,22 +415,28 @@ def deserialize(
             g,
         )
 
+        if type_check.is_strict():
+            serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
+            serde_beartype(cls)
+
         logger.debug(f"{typename(cls)}: {SERDE_SCOPE} {scope}")
 
-        stack.pop()
         return cls
 
+    def wrap(cls: type[T]) -> type[T]:
+        with GENERATION_LOCK:
+            if cls in GENERATION_STACK:
+                return cls
+            GENERATION_STACK.append(cls)
+            try:
+                return generate(cls)
+            finally:
+                GENERATION_STACK.pop()
+
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
-
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+    return wrap(_cls)
 
 
 def is_deserializable(instance_or_class: Any) -> bool:
@@ -470,6 +467,20 @@ def is_dataclass_without_de(cls: type[Any]) -> bool:
     return FROM_DICT not in scope.funcs
 
 
+def ensure_deserializable(cls: type[Any]) -> None:
+    """
+    Generate code for a dataclass without decorator on its first use. Classes that refer to each
+    other are generated together, so their functions must not be used until all of them are ready.
+    """
+    if is_dataclass_without_de(cls) or GENERATION_STACK:
+        with GENERATION_LOCK:
+            if is_dataclass_without_de(cls):
+                # Do not automatically implement beartype if dataclass without serde decorator
+                # is passed, because it is surprising for users
+                # See https://github.com/yukinarit/pyserde/issues/480
+                deserialize(cls, type_check=disabled)
+
+
 class Deserializer(Generic[T], metaclass=abc.ABCMeta):
     """
     `Deserializer` base class. Subclass this to customize deserialize behaviour.
@@ -606,13 +617,8 @@ def _from_obj(
         class_deserializer = find_global_class_deserializer(c)
         if class_deserializer is not None:
             res = class_deserializer.deserialize(c, o)
-        elif is_dataclass_without_de(c):
-            # Do not automatically implement beartype if dataclass without serde decorator
-            # is passed, because it is surprising for users
-            # See https://github.com/yukinarit/pyserde/issues/480
-            deserialize(c, type_check=disabled)
-            res = deserializable_to_obj(c)
-        elif is_deserializable(c):
+        elif is_deserializable(c) or dataclasses.is_dataclass(c):
+            ensure_deserializable(c)
             res = deserializable_to_obj(c)
         elif is_opt(c):
             res = _deserialize_optional(c, o, thisfunc)
diff --git a/serde/se.py b/serde/se.py
index 7a8b0cc..802990a 100644
--- a/serde/se.py
+++ b/serde/se.py
@@ -76,6 +76,7 @@ from .core import (
     TO_ITER,
     UNION_SE_BUILTIN_PREFIX,
     UNION_SE_PREFIX,
+    GENERATION_LOCK,
     DefaultTagging,
     Field,
     Scope,
@@ -240,7 +241,7 @@ def serialize(
     '{"i":10,"s":"foo","f":100.0,"b":true}'
     """
 
-    def wrap(cls: type[T]) -> type[T]:
+    def generate(cls: type[T]) -> type[T]:
         tagging.check()
 
         # If no `dataclass` found in the class, dataclassify it automatically.
@@ -250,10 +251,6 @@ def serialize(
         if transparent:
             get_transparent_field(cls, "skip_serializing")
 
-        if type_check.is_strict():
-            serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
-            serde_beartype(cls)
-
         g: dict[str, Any] = {}
 
         # Create a scope storage used by serde.
@@ -342,21 +339,28 @@ def serialize(
             g,
         )
 
+        if type_check.is_strict():
+            serde_beartype = beartype(conf=BeartypeConf(violation_type=SerdeError))
+            serde_beartype(cls)
+
         logger.debug(f"{typename(cls)}: {SERDE_SCOPE} {scope}")
 
         return cls
 
+    def wrap(cls: type[T]) -> type[T]:
+        with GENERATION_LOCK:
+            if cls in GENERATION_STACK:
+                return cls
+            GENERATION_STACK.append(cls)
+            try:
+                return generate(cls)
+            finally:
+                GENERATION_STACK.pop()
+
     if _cls is None:
         return wrap  # type: ignore
 
-    if _cls in GENERATION_STACK:
-        return _cls
-
-    GENERATION_STACK.append(_cls)
-    try:
-        return wrap(_cls)
-    finally:
-        GENERATION_STACK.pop()
+    return wrap(_cls)
 
 
 def is_serializable(instance_or_class: Any) -> bool:
@@ -392,6 +396,20 @@ def is_dataclass_without_se(cls: type[Any]) -> bool:
     return TO_DICT not in scope.funcs
 
 
+def ensure_serializable(cls: type[Any]) -> None:
+    """
+    Generate code for a dataclass without decorator on its first use. Classes that refer to each
+    other are generated together, so their functions must not be used until all of them are ready.
+    """
+    if is_dataclass_without_se(cls) or GENERATION_STACK:
+        with GENERATION_LOCK:
+            if is_dataclass_without_se(cls):
+                # Do not automatically implement beartype if dataclass without serde decorator
+                # is passed, because it is surprising for users
+                # See https://github.com/yukinarit/pyserde/issues/480
+                serialize(cls, type_check=disabled)
+
+
 def find_global_class_serializer(typ: type[Any]) -> ClassSerializer | None:
     """Return a globally registered class serializer that handles ``typ``, if any.
 
@@ -483,13 +501,8 @@ def to_obj(
         class_serializer = find_global_class_serializer(type(o))
         if class_serializer is not None:
             return class_serializer.serialize(o)
-        if is_dataclass_without_se(type(o)):
-            # Do not automatically implement beartype if dataclass without serde decorator
-            # is passed, because it is surprising for users
-            # See https://github.com/yukinarit/pyserde/issues/480
-            serialize(type(o), type_check=disabled)
-            return serializable_to_obj(o)
-        elif is_serializable(o):
+        ensure_serializable(type(o))
+        if is_serializable(o):
             return serializable_to_obj(o)
         elif isinstance(o, Enum):
             return enum_value(type(o), o)
-- 
2.43.0


From 0137f51c8280be1b84b42787d8ba669d7e63eb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:22 +0000
Subject: [PATCH 49/53] fix: offer is_bare_numpy_array also when numpy is not
 installed

---
 serde/numpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serde/numpy.py b/serde/numpy.py
index 7af28b5..9ad779b 100644
--- a/serde/numpy.py
+++ b/serde/numpy.py
@@ -111,6 +111,9 @@ try:
 except ImportError:
     encode_numpy = None
 
+    def is_bare_numpy_array(typ) -> bool:
+        return False
+
     def is_numpy_scalar(typ) -> bool:
         return False
 
-- 
2.43.0


From 07c78f8654706af3edec6117816fc57d4fe98a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 50/53] fix: import numpy in the deserializers of unions

---
 serde/de.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serde/de.py b/serde/de.py
index c1c9282..4c5e773 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -1841,7 +1841,7 @@ def render_union_func(
         class_deserializer=class_deserializer,
         class_name=typename(cls),
     )
-    return jinja2_env.get_template("union").render(
+    res = jinja2_env.get_template("union").render(
         func=union_func_key(
             UNION_DE_BUILTIN_PREFIX if builtin else UNION_DE_PREFIX, union_args, serde_scope
         ),
@@ -1877,6 +1877,11 @@ def render_union_func(
         typename=typename,
     )
 
+    if renderer.import_numpy:
+        res = "import numpy\n" + res
+
+    return res
+
 
 def render_literal_func(
     cls: type[Any], literal_args: Sequence[Any], tagging: Tagging = DefaultTagging
-- 
2.43.0


From b5315070072f7944c36435deb13ad5ed7394d5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 51/53] fix: serialize datetime64 values which do not fit in
 datetime

---
 serde/numpy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/serde/numpy.py b/serde/numpy.py
index 9ad779b..dee9d6d 100644
--- a/serde/numpy.py
+++ b/serde/numpy.py
@@ -29,7 +29,9 @@ try:
         if isinstance(obj, np.ndarray):
             return obj.tolist()
         if isinstance(obj, np.datetime64):
-            return obj.item().isoformat()
+            item = obj.item()
+            # Values which don't fit in `datetime`, e.g. in nanoseconds, are converted by numpy.
+            return item.isoformat() if hasattr(item, "isoformat") else str(obj)
         if isinstance(obj, np.generic):
             return obj.item()
         raise TypeError(f"Object of type {fullname(type(obj))} is not serializable")
@@ -88,7 +90,8 @@ try:
         return f"{arg.varname}.tolist()"
 
     def serialize_numpy_datetime(arg) -> str:
-        return f"{arg.varname}.item().isoformat()"
+        v = arg.varname
+        return f"({v}.item().isoformat() if hasattr({v}.item(), 'isoformat') else str({v}))"
 
     def deserialize_numpy_array(arg) -> str:
         if is_bare_numpy_array(arg.type):
-- 
2.43.0


From bf214245e9ea3e57f569a7ffc7662ef8b1ef1003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:12 +0000
Subject: [PATCH 52/53] fix: keep values of jaxtyping arrays of several kinds
 of dtypes

---
 serde/numpy.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/serde/numpy.py b/serde/numpy.py
index dee9d6d..f0223cc 100644
--- a/serde/numpy.py
+++ b/serde/numpy.py
@@ -101,6 +101,16 @@ try:
         return f"numpy.array({arg.data}, dtype={dtype})"
 
     def deserialize_numpy_jaxtyping_array(arg) -> str:
+        if not isinstance(arg.type.dtypes, (list, tuple)):
+            return f"numpy.array({arg.data})"  # any dtype
+
+        kinds = {np.dtype(d).kind: d for d in reversed(arg.type.dtypes) if hasattr(np, d)}
+        if len(kinds) > 1 and "f" in kinds:
+            # No dtype stands for all the others, e.g. int and float: take the one of the data.
+            narrowest = kinds[min(kinds, key="buifc".index)]
+            array = f"numpy.array({arg.data})"
+            return f"{array}.astype(numpy.result_type({array}, numpy.{narrowest}))"
+
         dtype = f"numpy.{arg.type.dtypes[-1]}"
         return f"numpy.array({arg.data}, dtype={dtype})"
 
-- 
2.43.0


From 3b706237a4d090c66e47afb2f5c575bdad3918db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 53/53] fix: deserialize jaxtyping arrays outside of fields

---
 serde/de.py    |  4 ++++
 serde/numpy.py | 38 ++++++++++++++++++++++++++++----------
 2 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/serde/de.py b/serde/de.py
index 4c5e773..a8289dd 100644
--- a/serde/de.py
+++ b/serde/de.py
@@ -673,6 +673,10 @@ def _from_obj(
             from .numpy import deserialize_numpy_array_direct
 
             res = deserialize_numpy_array_direct(c, o)
+        elif _is_numpy_jaxtyping(c):
+            from .numpy import deserialize_numpy_jaxtyping_array_direct
+
+            res = deserialize_numpy_jaxtyping_array_direct(c, o)
         elif is_datetime(c):
             res = c.fromisoformat(o)
         elif is_enum(c):
diff --git a/serde/numpy.py b/serde/numpy.py
index f0223cc..5997be7 100644
--- a/serde/numpy.py
+++ b/serde/numpy.py
@@ -100,19 +100,34 @@ try:
         dtype = fullname(arg[1][0].type)
         return f"numpy.array({arg.data}, dtype={dtype})"
 
-    def deserialize_numpy_jaxtyping_array(arg) -> str:
-        if not isinstance(arg.type.dtypes, (list, tuple)):
-            return f"numpy.array({arg.data})"  # any dtype
+    def jaxtyping_dtype(typ: Any) -> tuple[str | None, bool]:
+        """
+        Get the dtype to read into, and whether it is only the narrowest one: no dtype stands for
+        all the others when they are of several kinds, e.g. int and float.
+        """
+        if not isinstance(typ.dtypes, (list, tuple)):
+            return None, False  # any dtype
 
-        kinds = {np.dtype(d).kind: d for d in reversed(arg.type.dtypes) if hasattr(np, d)}
+        kinds = {np.dtype(d).kind: d for d in reversed(typ.dtypes) if hasattr(np, d)}
         if len(kinds) > 1 and "f" in kinds:
-            # No dtype stands for all the others, e.g. int and float: take the one of the data.
-            narrowest = kinds[min(kinds, key="buifc".index)]
-            array = f"numpy.array({arg.data})"
-            return f"{array}.astype(numpy.result_type({array}, numpy.{narrowest}))"
+            return kinds[min(kinds, key="buifc".index)], True
 
-        dtype = f"numpy.{arg.type.dtypes[-1]}"
-        return f"numpy.array({arg.data}, dtype={dtype})"
+        return typ.dtypes[-1], False
+
+    def deserialize_numpy_jaxtyping_array(arg) -> str:
+        dtype, narrowest = jaxtyping_dtype(arg.type)
+        array = f"numpy.array({arg.data})"
+        if dtype is None:
+            return array
+        if narrowest:
+            return f"{array}.astype(numpy.result_type({array}, numpy.{dtype}))"
+
+        return f"numpy.array({arg.data}, dtype=numpy.{dtype})"
+
+    def deserialize_numpy_jaxtyping_array_direct(typ: Any, arg: Any) -> Any:
+        dtype, narrowest = jaxtyping_dtype(typ)
+        array = np.array(arg, dtype=None if narrowest else dtype)
+        return array.astype(np.result_type(array, np.dtype(dtype))) if narrowest else array
 
     def deserialize_numpy_array_direct(typ: Any, arg: Any) -> Any:
         if is_bare_numpy_array(typ):
@@ -159,3 +174,6 @@ except ImportError:
 
     def deserialize_numpy_array_direct(typ: Any, arg: Any) -> Any:
         return arg
+
+    def deserialize_numpy_jaxtyping_array_direct(typ: Any, arg: Any) -> Any:
+        return arg
-- 
2.43.0

