From c8dda6ad99029d2946df9a27bd570c1cbf7637fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:19 +0000
Subject: [PATCH 01/45] fix: loading a value without len() into a fixed size
 tuple raised AssertionError

---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c8ff81..9ccf52f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -434,9 +434,13 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     # Tuple[something, something, somethingelse]
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
-    if l.failonextra and len(value) > len(args):
+    try:
+        value_len = len(value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
+    if l.failonextra and value_len > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
-    elif len(value) < len(args):
+    elif value_len < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
     ctr = count(1)  # Keep track of the position in the tuple
-- 
2.43.0


From 161cb3233c3e9754f164d4772321e82a6131410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:22 +0000
Subject: [PATCH 02/45] fix: unhashable value in the discriminator field of a
 tagged union raised AssertionError

---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 9ccf52f..6af6273 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -706,7 +706,11 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # Cache is created, use it
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
-            preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            try:
+                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            except TypeError:
+                # Unhashable value, it can't be one of the literals
+                preferredtype = None
             if preferredtype:
                 # Place best value on top
                 sorted_args.remove(preferredtype)
-- 
2.43.0


From 22e6184657d21c8a760e785bb46fb0d80a239e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:25 +0000
Subject: [PATCH 03/45] fix: failonextra raised AssertionError when the extra
 keys were not strings

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6af6273..806e382 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -572,7 +572,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(extra_fields)
+        extra = ', '.join(map(str, extra_fields))
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
-- 
2.43.0


From e4c3cebacbdb3677ab9d5b0fc760d6b23c4178ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:28 +0000
Subject: [PATCH 04/45] fix: out of range or nan seconds for a timedelta raised
 AssertionError

---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 806e382..047bf2a 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -845,6 +845,8 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
         return type_(0, value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except (ValueError, OverflowError) as e:
+        raise TypedloadValueError(str(e), type_=type_, value=value)
 
 def _get_attr_converter_type(c: "Callable"):
     """
-- 
2.43.0


From 6e26340e4c3c024b5cf02427837438a0d731c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 05/45] fix: overflowing integers for date, time and datetime
 raised AssertionError

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 047bf2a..b50e5d0 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -823,7 +823,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
             return type_(*value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
-    except ValueError as e:
+    except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
 
 
-- 
2.43.0


From bca4af47e86a2682a1da6c5b505d9a42ac4fcda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 06/45] fix: invalid regular expressions raised AssertionError
 on overflow or recursion errors

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b50e5d0..b169900 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -834,7 +834,7 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
-    except re.error as e:
+    except (re.error, OverflowError, RecursionError) as e:
         raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
-- 
2.43.0


From f7157982d78284021ca39a7aa2821f4f432d9385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 07/45] fix: Pattern[str] accepted bytes and Pattern[bytes]
 accepted str

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b169900..04ecd62 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -828,7 +828,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-    if hasattr(type, "__args__"):
+    if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
-- 
2.43.0


From 17b5f0e9333b5f9e208d14b70f3a5aa29d07ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 08/45] fix: first load of a dictionary used the loader of the
 values to load the keys

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 04ecd62..81acc0c 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -393,7 +393,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            key_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
-- 
2.43.0


From d1961fc0c3df12cd52f2b1f00bfbd4d22669b716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 09/45] fix: types found inside other types were not used to
 resolve ForwardRef

---
 typedload/dataloader.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 81acc0c..42d1685 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -257,6 +257,9 @@ class Loader:
                     raise
                 match = False
             if match:
+                # Add type to known types, to resolve ForwardRef later on
+                if self.frefs is not None and hasattr(type_, '__name__'):
+                    self.frefs.setdefault(type_.__name__, type_)
                 return i
         raise ValueError('No matching condition found')
 
@@ -289,12 +292,6 @@ class Loader:
 
             func = self._indexcache[type_] = self.handlers[index][1]
 
-            # Add type to known types, to resolve ForwardRef later on
-            if self.frefs is not None and hasattr(type_, '__name__'):
-                typename = type_.__name__
-                if typename not in self.frefs:
-                    self.frefs[typename] = type_
-
         try:
             return func(self, value, type_)
         except Exception as e:
-- 
2.43.0


From c06767b25efd411d23912ebf1fd19c203640d14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:47 +0000
Subject: [PATCH 10/45] fix: failure to load an Enum generated an exception
 that could not be printed

---
 typedload/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 42d1685..bdc7e80 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -786,8 +786,10 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
     for _, t in get_type_hints(type_).items():
         try:
             return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
-        except Exception as e:
+        except TypedloadException as e:
             exceptions.append(e)
+        except Exception as e:
+            exceptions.append(TypedloadValueError(str(e), value=value, type_=type_))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
         lst = '\nValue %s not between: ' % repr(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
-- 
2.43.0


From 8a233c5fe5db2a5cda9e53fb5c5ea7b64ec40f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:50 +0000
Subject: [PATCH 11/45] fix: loading a TypedDict removed NotRequired from the
 annotations of the class

---
 typedload/dataloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index bdc7e80..38b12fc 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -632,7 +632,8 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        # Copy, to not change the original
+        type_hints = dict(type_.__annotations__)
     fields = set(type_hints.keys())
 
     if hasattr(type_, '__required_keys__') and hasattr(type_, '__optional_keys__'):
-- 
2.43.0


From 6c461c1090806d137b27f6a5571fc86df7f61a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:13 +0000
Subject: [PATCH 12/45] fix: dumping attrs classes using a factory with
 takes_self failed

---
 typedload/datadumper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index cdf3664..7d4ee13 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -214,8 +214,10 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory') and attrval == attr.default.factory():
-                continue
+            elif hasattr(attr.default, 'factory'):
+                default = attr.default.factory(value) if attr.default.takes_self else attr.default.factory()
+                if attrval == default:
+                    continue
         name = attr.metadata.get(d.mangle_key, attr.name)
         r[name] = d.dump(attrval)
     return r
-- 
2.43.0


From f4110c689b3a902660cbd31e407d08b6f00fa5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 13/45] fix: position of the error was lost for AttributeError
 inside dictionaries, and unhashable keys raised AssertionError

---
 typedload/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 38b12fc..7b56b4e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -415,6 +415,10 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         return {
             l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
             for k, v in value.items()}
+    except TypedloadException:
+        raise
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), type_=type_, value=value)
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
 
-- 
2.43.0


From 4dc2e50ce7b0fab20836708d3cd115dca68f8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 14/45] fix: exceptions from the constructors did not set value
 and type_

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7b56b4e..9090a77 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -609,9 +609,9 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     try:
         return type_(**params)
     except TypeError as e:
-        raise TypedloadTypeError(e)
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
     except ValueError as e:
-        raise TypedloadValueError(e)
+        raise TypedloadValueError(str(e), value=value, type_=type_)
 
 
 def _namedtupleload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From bd74004ce4cb53726afa7fe87999a82041057eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:23 +0000
Subject: [PATCH 15/45] fix: argparse.Namespace could not be loaded into
 objects with mangled names or a field called keys

---
 typedload/dataloader.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 9090a77..4a3406e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -522,7 +522,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
     try:
-        value = _mangle_names(transforms, value, l.failonextra)
+        value = _mangle_names(transforms, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
@@ -551,16 +551,13 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     '''
     Helper function to load dict-like data into an object.
     '''
+    value = _dictequivalence(l, value)
     try:
         vfields = set(value.keys())
     except AttributeError as e:
-        newvalue = _dictequivalence(l, value)
-
-        if newvalue is value:
-            raise TypedloadAttributeError(str(e), value=value, type_=type_)
-        else:
-            value = newvalue
-            vfields = set(value.keys())
+        raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
@@ -885,7 +882,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
             namesmap[attribute.metadata[l.mangle_key]] = attribute.name
 
     try:
-        value = _mangle_names(namesmap, value, l.failonextra)
+        value = _mangle_names(namesmap, _dictequivalence(l, value), l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
-- 
2.43.0


From e94ba3a04540fad2278897fa0463130e554f7a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:02 +0000
Subject: [PATCH 16/45] fix: dumping dataclasses that contain forward
 references raised NameError

---
 typedload/datadumper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 7d4ee13..b3876fa 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -270,7 +270,11 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-        type_hints = get_type_hints(value)
+        try:
+            type_hints = get_type_hints(t)
+        except Exception:
+            # Unresolvable forward references. The hints are only needed for faster code paths
+            type_hints = {}
         d._dataclasscache[t] = (fields, defaults, type_hints)
     else:
         fields, defaults, type_hints = cached
-- 
2.43.0


From 2c25a9566d8df47bfb15296e7198301812542395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:05 +0000
Subject: [PATCH 17/45] fix: ClassVar and InitVar of dataclasses were dumped as
 if they were fields

---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index b3876fa..6315d42 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -265,8 +265,8 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     t = type(value)
     cached = d._dataclasscache.get(t)
     if cached is None:
-        from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = set(value.__dataclass_fields__.keys())
+        from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE, fields as dataclass_fields
+        fields = {i.name for i in dataclass_fields(value)} # Excludes ClassVar and InitVar
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-- 
2.43.0


From 803c120cba728061ef3aafe12746ac6003f855d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 18/45] fix: ClassVar of dataclasses were considered fields to
 load

---
 typedload/dataloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 4a3406e..927a73c 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -500,8 +500,10 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        fields = set(type_.__dataclass_fields__.keys())
+        from dataclasses import _FIELD_CLASSVAR # type: ignore
+        fields = {k for k,v in type_.__dataclass_fields__.items() if v._field_type is not _FIELD_CLASSVAR}
         necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
+                            k in fields and
                             v.init == True and # Is a field for the constructor
                             v.default == v.default_factory # Has no default or factory
                             }
-- 
2.43.0


From 69f394fe3bdf420f3ec006a18523ac2aa5f3742e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:11 +0000
Subject: [PATCH 19/45] fix: subclasses of a NamedTuple could not be loaded

---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 927a73c..449d3a7 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -620,7 +620,11 @@ def _namedtupleload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        # Include the annotations of the parents, for subclasses of a NamedTuple
+        annotations = {}  # type: Dict[str, Any]
+        for cls in reversed(type_.__mro__):
+            annotations.update(cls.__dict__.get('__annotations__', {}))
+        type_hints = {k: v for k, v in annotations.items() if k in type_._fields}
     fields = set(type_hints.keys())
     optional_fields = set(getattr(type_, '_field_defaults', {}).keys())
     necessary_fields = fields.difference(optional_fields)
-- 
2.43.0


From a9a3ee6c7bf8b410a2bcf4327a19dc052fcb292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 20/45] fix: dumps of objects containing init=False fields
 could not be loaded back

---
 typedload/dataloader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 449d3a7..3453d44 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -511,6 +511,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
             type_hints = get_type_hints(type_)
         else:
             type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}
+        # init=False fields are dumped, but can't be passed to the constructor
+        type_hints = {k: v for k,v in type_hints.items() if k in fields and type_.__dataclass_fields__[k].init}
 
         #Name mangling
 
@@ -581,8 +583,8 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
 
     params = {}
     for k, v in value.items():
-        if k not in fields:
-            # Field in value is not in the type
+        if k not in type_hints:
+            # Field in value is not in the type, or is not a parameter of the constructor
             continue
 
         # loading field directly, skipping load()
@@ -876,7 +878,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
 
     fields = {i.name for i in type_.__attrs_attrs__}
     necessary_fields = set()
-    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__}
+    type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__ if i.init}
     namesmap = {}  # type: Dict[str, str]
 
     for attribute in type_.__attrs_attrs__:
-- 
2.43.0


From 0604c655c854090bb64b4b9184eaec70f4ea08fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 21/45] fix: path of errors contained None for types loaded
 without annotation, such as NewType

---
 typedload/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index a485bcb..e57d7d6 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -110,7 +110,7 @@ class TypedloadException(Exception):
         for i in trace:
             if i.annotation:
                 path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
-            else:
+            elif not path:
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
             return '.'
-- 
2.43.0


From 436bdd9d5691ad89c8735facc863e2a16b99cbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:00 +0000
Subject: [PATCH 22/45] fix: None used as a type was not supported, despite
 being documented

---
 typedload/typechecks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typedload/typechecks.py b/typedload/typechecks.py
index 3bcc7ee..12a3067 100644
--- a/typedload/typechecks.py
+++ b/typedload/typechecks.py
@@ -143,8 +143,10 @@ def is_optional(type_: Any) -> bool:
 def is_nonetype(type_: Any) -> bool:
     '''
     type_ == type(None)
+
+    None itself is equivalent to type(None) in type annotations
     '''
-    return type_ == NONETYPE
+    return type_ is None or type_ == NONETYPE
 
 
 def _generic_type_check(type_: Any, native, from_typing) -> bool:
-- 
2.43.0


From f1530f49d3d9b9926d6dd0bd7df7dc5d50d80aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:51 +0000
Subject: [PATCH 23/45] fix: a failure inside a dictionary loaded all the items
 again, losing data of iterators and taking exponential time

---
 typedload/dataloader.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 3453d44..dd8bd20 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -400,23 +400,21 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
 
     value = _dictequivalence(l, value)
 
-    # Try fast load
-    try:
-        return {
-            k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type): \
-            v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type) \
-            for k, v in value.items()
-        }
-    except Exception:
-        # Failed, do the slow method with exception tracking
-        pass
-
+    r = {}
+    in_key = True  # Keep track of what is being loaded
     try:
-        return {
-            l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
-            for k, v in value.items()}
-    except TypedloadException:
-        raise
+        for k, v in value.items():
+            in_key = True
+            key = k if key_type_basic and isinstance(k, key_type) else key_f(l, k, key_type)
+            in_key = False
+            r[key] = v if value_type_basic and isinstance(v, value_type) else value_f(l, v, value_type)
+        return r
+    except TypedloadException as e:
+        if in_key:
+            e.trace.insert(0, TraceItem(k, key_type, Annotation(AnnotationType.KEY, k)))
+        else:
+            e.trace.insert(0, TraceItem(v, value_type, Annotation(AnnotationType.VALUE, v)))
+        raise e
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
     except AttributeError as e:
-- 
2.43.0


From a5991bae2d6713daca3094df1deb24cf9ca31212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:34 +0000
Subject: [PATCH 24/45] fix: unsupported types inside a fixed size tuple gave a
 misleading exception without value and type

---
 typedload/dataloader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index dd8bd20..378fd87 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -442,13 +442,20 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     elif value_len < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
+    handlers = []
+    for t in args:
+        try:
+            handlers.append(l._indexcache.get(t) or l.handlers[l.index(t)][1])
+        except ValueError:
+            raise TypedloadTypeError('Cannot deal with value of type %s' % tname(t), value=value, type_=t)
+
     ctr = count(1)  # Keep track of the position in the tuple
 
     try:
         return tuple(v if t in l.basictypes and type(v) == t else h(l, v, t)
             for v, h, t in zip(
                 compress(value, ctr),
-                (l._indexcache.get(t) or l.handlers[l.index(t)][1] for t in args),
+                handlers,
                 args
             )
         )
-- 
2.43.0


From c62f8dc35216d7c5556e5b0186cdd121c222eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 25/45] fix: attrs converters without typed parameter, and
 callable objects as converters, raised StopIteration and TypeError

---
 typedload/dataloader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 378fd87..b6410ed 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -870,11 +870,16 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
-    hints = get_type_hints(c)
+    try:
+        hints = get_type_hints(c)
+    except Exception:
+        # Callable objects have no type hints, or they can't be resolved
+        return Any
     if len(hints) > 0 and len(hints) <= 2:
         if 'return' in hints:
             del hints['return']
-        return next(iter(hints.values()))
+        # It's possible that only the return is typed
+        return next(iter(hints.values()), Any)
     return Any
 
 
-- 
2.43.0


From f72620b09b680a0183da03c862de40992b19ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:28 +0000
Subject: [PATCH 26/45] fix: objects with only a part of the interface of a
 dictionary raised AssertionError

---
 typedload/dataloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index b6410ed..bc8383e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -536,6 +536,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
 
@@ -563,6 +565,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     value = _dictequivalence(l, value)
     try:
         vfields = set(value.keys())
+        items = value.items()
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
     except TypeError as e:
@@ -587,7 +590,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     params = {}
-    for k, v in value.items():
+    for k, v in items:
         if k not in type_hints:
             # Field in value is not in the type, or is not a parameter of the constructor
             continue
@@ -905,6 +908,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
 
-- 
2.43.0


From 238eb442b06ece607524a547bfce6323533b96a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:48 +0000
Subject: [PATCH 27/45] fix: pick the discriminator of a union
 deterministically

When the objects of a union share more than one Literal field, the one
to use was taken with set.pop(), so it depended on the hash seed of the
process, and the same data could load into different types in different
runs.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index bc8383e..52a8856 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -709,7 +709,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
 
             cachedict = {}
             if keys:
-                key = keys.pop()
+                key = min(keys)  # Not pop(), to always pick the same one
                 for t, d in data.items():
                     for literal in d[key]:
                         cachedict[literal] = t
-- 
2.43.0


From 8175ffd8ad5499d18ddebef74d9aa62ea64a7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 28/45] fix: dump the fields of dataclasses in the order of the
 definition

The order came from a set of str, so it changed at every run, while it is
stable for NamedTuple, TypedDict and attrs.
---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 6315d42..0955f13 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -154,7 +154,7 @@ class Dumper:
         ]  # type: List[Tuple[Callable[[Any], bool], Callable[['Dumper', Any, Any], Any]|Callable[['Dumper', Any], Any]]]
 
         self._handlerscache = {}  # type: Dict[Type[Any], Callable[['Dumper', Any, Any], Any]]
-        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[Set[str], Dict[str, Any], Dict[str, Any]]]
+        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[List[str], Dict[str, Any], Dict[str, Any]]]
 
         for k, v in kwargs.items():
             setattr(self, k, v)
@@ -266,7 +266,7 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     cached = d._dataclasscache.get(t)
     if cached is None:
         from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE, fields as dataclass_fields
-        fields = {i.name for i in dataclass_fields(value)} # Excludes ClassVar and InitVar
+        fields = [i.name for i in dataclass_fields(value)] # Excludes ClassVar and InitVar
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-- 
2.43.0


From 6a1edfcabbdfcd33b32707df6f5b89d913f4cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 29/45] fix: loading a Literal from objects that can't be
 compared raised AssertionError

---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 52a8856..9bb395e 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -329,8 +329,12 @@ def _literalload(l: Loader, value: Any, type_) -> Any:
     Checks if the value is within the allowed literals and
     returns it.
     """
-    if value in type_.__args__:
-        return value
+    try:
+        if value in type_.__args__:
+            return value
+    except Exception as e:
+        # Some objects can't be compared, for example arrays of numpy
+        raise TypedloadException(str(e), value=value, type_=type_)
     raise TypedloadValueError('Not one of the allowed values in %s' % tname(type_), value=value, type_=type_)
 
 
-- 
2.43.0


From c4dc1cd9601f620d7ee96ca53184e3aec4dd68e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 30/45] fix: data that can't be printed, such as huge integers,
 broke the reporting of errors

---
 typedload/datadumper.py |  3 ++-
 typedload/dataloader.py | 12 ++++++------
 typedload/exceptions.py |  4 +++-
 typedload/helpers.py    | 14 ++++++++++++++
 4 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 0955f13..f928c26 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -30,6 +30,7 @@ from typing import *
 import uuid
 
 from .exceptions import TypedloadValueError
+from .helpers import srepr
 from .typechecks import is_attrs, NONETYPE
 
 
@@ -175,7 +176,7 @@ class Dumper:
                 match = False
             if match:
                 return i
-        raise TypedloadValueError('Unable to dump %s' % value, value=value, type_=type(value))
+        raise TypedloadValueError('Unable to dump %s' % srepr(value, str), value=value, type_=type(value))
 
     def dump(self, value: Any, annotated_type=Any) -> Any:
         """
diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 9bb395e..46be76a 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -34,7 +34,7 @@ import uuid
 from .exceptions import *
 from .typechecks import *
 from .typechecks import discriminatorliterals
-from .helpers import tname
+from .helpers import srepr, tname
 
 
 __all__ = [
@@ -359,7 +359,7 @@ def _basicload(l: Loader, value: Any, type_) -> Any:
             except Exception as e:
                 raise TypedloadException(str(e), value=value, type_=type_)
         else:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (srepr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     return value
 
 
@@ -586,7 +586,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(map(str, extra_fields))
+        extra = ', '.join(srepr(i, str) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
@@ -813,8 +813,8 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
         except Exception as e:
             exceptions.append(TypedloadValueError(str(e), value=value, type_=type_))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
-        lst = '\nValue %s not between: ' % repr(value) + \
-        ', '.join(repr(i.value) for i in type_.__members__.values())
+        lst = '\nValue %s not between: ' % srepr(value) + \
+        ', '.join(srepr(i.value) for i in type_.__members__.values())
     else:
         lst = ''
     raise TypedloadValueError(
@@ -852,7 +852,7 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
     if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (srepr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
     except (re.error, OverflowError, RecursionError) as e:
diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index e57d7d6..2b9f9ac 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -24,6 +24,8 @@ Exceptions
 from enum import Enum
 from typing import Any, List, NamedTuple, Optional, Type, Union
 
+from .helpers import srepr
+
 
 __all__ = [
     'TypedloadException',
@@ -109,7 +111,7 @@ class TypedloadException(Exception):
         path = []
         for i in trace:
             if i.annotation:
-                path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
+                path.append('[%s]' % srepr(int(i.annotation[1])) if isinstance(i.annotation[1], int) else srepr(i.annotation[1], str))
             elif not path:
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
diff --git a/typedload/helpers.py b/typedload/helpers.py
index 1aa8d71..a232907 100644
--- a/typedload/helpers.py
+++ b/typedload/helpers.py
@@ -26,6 +26,7 @@ from typing import Any, Tuple, Union, Set, List, Dict, Type, FrozenSet
 
 
 __all__ = [
+    'srepr',
     'tname',
 ]
 
@@ -35,3 +36,16 @@ def tname(type_) -> str:
     Return a nice string for a type
     '''
     return getattr(type_, '__qualname__', str(type_))
+
+
+def srepr(value: Any, function=repr) -> str:
+    '''
+    Like repr (or str), for the error messages.
+
+    It can't fail, unlike them: for example for integers of thousands of
+    digits.
+    '''
+    try:
+        return function(value)
+    except Exception:
+        return '<%s>' % tname(type(value))
-- 
2.43.0


From a1c0046c1eca17b2125453ed8de4181058af9cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 31/45] fix: the empty string as external name of a field of a
 dataclass was dumped but not loaded

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 46be76a..7bc0d20 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -530,7 +530,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         for pyname in fields:
             if type_.__dataclass_fields__[pyname].metadata:
                 name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
-                if name:
+                if name is not None:
                     transforms[name] = pyname
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
-- 
2.43.0


From 4375259acac50aab478dfd1309d27f1f41124ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 32/45] fix: the steps of the trace had value and type of the
 container in place of those being loaded

---
 typedload/dataloader.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7bc0d20..abd76b4 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -425,6 +425,17 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
 
 
+def _indextrace(value: Any, index: int, type_) -> TraceItem:
+    """
+    Trace of the failure in loading an item of value into type_.
+
+    The items of iterators can't be accessed again, so in those cases the entire
+    value is used.
+    """
+    item = value[index] if type(value) in (list, tuple) else value
+    return TraceItem(item, type_, Annotation(AnnotationType.INDEX, index))
+
+
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     """
     This loads into something like Tuple[int,str]
@@ -465,8 +476,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         )
     except TypedloadException as e:
         index = next(ctr) - 2
-        annotation = Annotation(AnnotationType.INDEX, index)
-        e.trace.insert(0, TraceItem(value, type_, annotation))
+        e.trace.insert(0, _indextrace(value, index, args[index]))
         raise e
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
@@ -617,7 +627,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
             params[k] = loader_f(l, v, field_type)
         except TypedloadException as e:
             annotation=Annotation(AnnotationType.FIELD, k)
-            e.trace.insert(0, TraceItem(value, type_, annotation))
+            e.trace.insert(0, TraceItem(v, field_type, annotation))
             raise e
     try:
         return type_(**params)
@@ -761,7 +771,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 break
         except TypedloadException as e:
             annotation = Annotation(AnnotationType.UNION, t)
-            e.trace.insert(0, TraceItem(value, type_, annotation))
+            e.trace.insert(0, TraceItem(value, t, annotation))
             exceptions.append(e)
 
     if loaded_count == 1:
@@ -973,8 +983,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
             return function(map(f, repeat(l), compress(value, ctr), repeat(t)))
     except TypedloadException as e:
         index = next(ctr) - 2
-        annotation = Annotation(AnnotationType.INDEX, index)
-        e.trace.insert(0, TraceItem(value, type_, annotation))
+        e.trace.insert(0, _indextrace(value, index, t))
         raise e
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
-- 
2.43.0


From 30e835d63dc650c74e349cce0303441f95774f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:54 +0000
Subject: [PATCH 33/45] fix: the paths printed for nested errors missed the
 first steps when nested more than once

---
 typedload/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index 2b9f9ac..b997a6f 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -128,9 +128,9 @@ class TypedloadException(Exception):
         msg = spaces + 'Exceptions:\n'
         for i in self.exceptions:
             msg += i._firstline(indent + 1) + '\n'
-            msg += spaces + '  ' 'Path: ' + self._path(self.trace + i.trace[1:]) + '\n'
+            msg += spaces + '  ' 'Path: ' + self._path(trace + i.trace[1:]) + '\n'
             if i.exceptions:
-                msg += i._subexceptions(indent + 1, self.trace + i.trace[1:])
+                msg += i._subexceptions(indent + 1, trace + i.trace[1:])
         return msg
 
     def _firstline(self, indent: int) -> str:
-- 
2.43.0


From cd31230d84ed506cb9ca16e8e116f1cb3902fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:32 +0000
Subject: [PATCH 34/45] fix: attrs classes with private attributes, or with
 aliases, were dumped but could not be loaded

---
 typedload/dataloader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index abd76b4..4b0b072 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -572,9 +572,12 @@ def _dictequivalence(l: Loader, value: Any) -> Any:
     return value
 
 
-def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_) -> Any:
+def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hints, value: Any, type_, parameters: Optional[Dict[str, str]] = None) -> Any:
     '''
     Helper function to load dict-like data into an object.
+
+    parameters has the names of the parameters of the constructor, for the fields
+    where they are not the same.
     '''
     value = _dictequivalence(l, value)
     try:
@@ -629,6 +632,8 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
             annotation=Annotation(AnnotationType.FIELD, k)
             e.trace.insert(0, TraceItem(v, field_type, annotation))
             raise e
+    if parameters:
+        params = {parameters.get(k, k): v for k, v in params.items()}
     try:
         return type_(**params)
     except TypeError as e:
@@ -907,6 +912,9 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     necessary_fields = set()
     type_hints = {i.name: (_get_attr_converter_type(i.converter) if i.converter else i.type) for i in type_.__attrs_attrs__ if i.init}
     namesmap = {}  # type: Dict[str, str]
+    # Private attributes have no _ in the constructor. Older versions of attrs have no alias
+    parameters = {i.name: getattr(i, 'alias', None) or i.name.lstrip('_') for i in type_.__attrs_attrs__}
+    parameters = {k: v for k, v in parameters.items() if k != v}
 
     for attribute in type_.__attrs_attrs__:
         if attribute.default is NOTHING and attribute.init:
@@ -925,7 +933,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
 
-    return _objloader(l, fields, necessary_fields, type_hints, value, type_)
+    return _objloader(l, fields, necessary_fields, type_hints, value, type_, parameters)
 
 
 def _strconstructload(l: Loader, value, type_):
-- 
2.43.0


From aa8bacc2e798f6219a3623d877f2a8d417d911e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 35/45] fix: generic types without parameters, such as List,
 raised AssertionError

---
 typedload/dataloader.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 4b0b072..5a097de 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -363,13 +363,29 @@ def _basicload(l: Loader, value: Any, type_) -> Any:
     return value
 
 
+def _typeargs(value: Any, type_) -> Tuple:
+    """
+    Parameters of a generic type.
+
+    There are none when for example List is used, rather than List[int]
+    """
+    try:
+        return type_.__args__
+    except AttributeError:
+        raise TypedloadTypeError(
+            'Cannot deal with value of type %s without parameters' % tname(type_),
+            value=value,
+            type_=type_
+        )
+
+
 def _dictload(l: Loader, value: Any, type_) -> Dict:
     """
     This loads into something like Dict[str,str]
 
     Recursively loads both keys and values.
     """
-    key_type, value_type = type_.__args__
+    key_type, value_type = _typeargs(value, type_)
 
 
     key_type_basic = key_type in l.basictypes
@@ -440,7 +456,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     """
     This loads into something like Tuple[int,str]
     """
-    args = type_.__args__
+    args = _typeargs(value, type_)
 
     if len(args) == 2 and args[1] == ...: # Tuple[something, ...]
         return _iterload(l, value, type_, tuple)
@@ -963,7 +979,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     """
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as an iterable', value=value, type_=type_)
-    t = type_.__args__[0]
+    t = _typeargs(value, type_)[0]
 
     # Get function pointer for the handler
     cached_f = l._indexcache.get(t)
-- 
2.43.0


From 62a36bd027652d8be0ae3e220b5bb31ccde59ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:54 +0000
Subject: [PATCH 36/45] fix: extra fields whose name can not be printed broke
 the reporting of the error

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 5a097de..4d7de56 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -518,7 +518,7 @@ def _mangle_names(namesmap: Dict[str, str], value: Dict[str, Any], failonextra:
     for k, v in value.items():
         if k in skip and k not in namesmap:
             if failonextra:
-                raise ValueError('Extra field: %s' % k)
+                raise ValueError('Extra field: %s' % srepr(k, str))
             else:
                 continue
         if k in namesmap:
-- 
2.43.0


From a54f7885abd023d93eb7c2c003461465e537f831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 37/45] fix: annotations that can not be resolved, with pep563
 or in an Enum, raised AssertionError

---
 typedload/dataloader.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 4d7de56..7c1f012 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -379,6 +379,20 @@ def _typeargs(value: Any, type_) -> Tuple:
         )
 
 
+def _typehints(value: Any, type_) -> Dict[str, Any]:
+    """
+    Like get_type_hints, it fails if some annotation can't be resolved.
+    """
+    try:
+        return get_type_hints(type_)
+    except Exception as e:
+        raise TypedloadTypeError(
+            'Cannot resolve the annotations of %s: %s' % (tname(type_), srepr(e, str)),
+            value=value,
+            type_=type_
+        )
+
+
 def _dictload(l: Loader, value: Any, type_) -> Dict:
     """
     This loads into something like Dict[str,str]
@@ -543,7 +557,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
                             v.default == v.default_factory # Has no default or factory
                             }
         if l.pep563:
-            type_hints = get_type_hints(type_)
+            type_hints = _typehints(value, type_)
         else:
             type_hints = {k: v.type for k,v in type_.__dataclass_fields__.items()}
         # init=False fields are dumped, but can't be passed to the constructor
@@ -663,7 +677,7 @@ def _namedtupleload(l: Loader, value: Any, type_) -> Any:
     This loads a Dict[str, Any] into a NamedTuple.
     """
     if l.pep563:
-        type_hints = get_type_hints(type_)
+        type_hints = _typehints(value, type_)
     else:
         # Include the annotations of the parents, for subclasses of a NamedTuple
         annotations = {}  # type: Dict[str, Any]
@@ -682,7 +696,7 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
     This loads a Dict[str, Any] into a NamedTuple.
     """
     if l.pep563:
-        type_hints = get_type_hints(type_)
+        type_hints = _typehints(value, type_)
     else:
         # Copy, to not change the original
         type_hints = dict(type_.__annotations__)
@@ -836,7 +850,7 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
 
     # Try with the typing hints
     exceptions = []
-    for _, t in get_type_hints(type_).items():
+    for _, t in _typehints(value, type_).items():
         try:
             return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
         except TypedloadException as e:
-- 
2.43.0


From b8d53a143fa946220bbc5f661318a1d6f0aad4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 38/45] fix: fields of a dataclass were required when their
 default compares equal to anything

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c1f012..01f1376 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -549,12 +549,12 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        from dataclasses import _FIELD_CLASSVAR # type: ignore
+        from dataclasses import _FIELD_CLASSVAR, MISSING # type: ignore
         fields = {k for k,v in type_.__dataclass_fields__.items() if v._field_type is not _FIELD_CLASSVAR}
         necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
                             k in fields and
                             v.init == True and # Is a field for the constructor
-                            v.default == v.default_factory # Has no default or factory
+                            v.default is MISSING and v.default_factory is MISSING # Has no default or factory
                             }
         if l.pep563:
             type_hints = _typehints(value, type_)
-- 
2.43.0


From 7f3b11fa7aad0821558f84421f2f16f9be5f9d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:17 +0000
Subject: [PATCH 39/45] fix: dumping a class in place of an instance raised
 AttributeError, or dumped its defaults

---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index f928c26..fd61564 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -143,11 +143,11 @@ class Dumper:
         self.handlers = [
             (lambda value: type(value) in self.basictypes, _identitydump),
             (lambda value: isinstance(value, tuple) and hasattr(value, '_fields') and hasattr(value, '_asdict'), _namedtupledump),
-            (lambda value: '__dataclass_fields__' in dir(value), _dataclassdump),
+            (lambda value: '__dataclass_fields__' in dir(value) and not isinstance(value, type), _dataclassdump),
             (lambda value: isinstance(value, (list, tuple, set, frozenset)), _iteratordump),
             (lambda value: isinstance(value, Enum), lambda l, value, t: l.dump(value.value)),
             (lambda value: isinstance(value, Dict), lambda l, value, t: {l.dump(k): l.dump(v) for k, v in value.items()}),
-            (is_attrs, _attrdump),
+            (lambda value: is_attrs(value) and not isinstance(value, type), _attrdump),
             (lambda value: isinstance(value, (datetime.date, datetime.time)), _datetimedump),
             (lambda value: isinstance(value, datetime.timedelta), _timedeltadump),
             (lambda value: isinstance(value, re.Pattern), _patterndump),
-- 
2.43.0


From 332fbc5a53414299cf667c0f27e044befc696dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:11 +0000
Subject: [PATCH 40/45] fix: use the first parameter of attrs converters to
 find the type

With more parameters the type of another one could be used, or none at all,
and for classes the types of their attributes.
---
 typedload/dataloader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 01f1376..0cb3701 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -24,6 +24,7 @@ Module to load data into typed data structures
 import datetime
 from enum import Enum
 import ipaddress
+from inspect import signature
 from itertools import compress, count, repeat
 from functools import reduce
 from pathlib import Path
@@ -924,15 +925,13 @@ def _get_attr_converter_type(c: "Callable"):
     """
     try:
         hints = get_type_hints(c)
+        # The other parameters have a default, and classes have hints for their attributes
+        parameter = next(iter(signature(c).parameters))
     except Exception:
         # Callable objects have no type hints, or they can't be resolved
         return Any
-    if len(hints) > 0 and len(hints) <= 2:
-        if 'return' in hints:
-            del hints['return']
-        # It's possible that only the return is typed
-        return next(iter(hints.values()), Any)
-    return Any
+    # It's possible that only the return is typed
+    return hints.get(parameter, Any)
 
 
 def _attrload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 68399d8edba73727c16baa0755d8976fb9b8b092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:11 +0000
Subject: [PATCH 41/45] fix: wrap all the exceptions raised by constructors and
 converters

Anything that was not a ValueError or a TypeError, for example the
AssertionError of an assert or the KeyError of a converter, was not
reported as a TypedloadException, and stopped unions from trying
the other types.
---
 typedload/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 0cb3701..19076dd 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -671,6 +671,9 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # Constructors and converters can raise anything
+        raise TypedloadException(srepr(e, str), value=value, type_=type_)
 
 
 def _namedtupleload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 71a902fa5bbeb3505af1861715d6bdbce6579562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:24 +0000
Subject: [PATCH 42/45] fix: use the function inside of the Converter objects
 of attrs

The type of its parameter was ignored
---
 typedload/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 19076dd..3587e01 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -926,6 +926,10 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
+    # Since 24.1 attrs can have the function inside of a Converter object
+    import attr
+    if isinstance(c, getattr(attr, 'Converter', ())):
+        c = c.converter  # type: ignore
     try:
         hints = get_type_hints(c)
         # The other parameters have a default, and classes have hints for their attributes
-- 
2.43.0


From b6d5cc27518b5a94db5a82d3d50b0ee6ceccae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:12 +0000
Subject: [PATCH 43/45] fix: wrap all the exceptions raised by the data

The data that is loaded can contain objects whose keys(), items(), get(),
__len__(), __iter__() or __hash__() raise an exception of their own. It came
out as an AssertionError, or without value and type.
---
 typedload/dataloader.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 3587e01..bc54ee3 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -454,6 +454,9 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
+    except Exception as e:
+        # Raised by the data
+        raise TypedloadException(srepr(e, str), type_=type_, value=value)
 
 
 def _indextrace(value: Any, index: int, type_) -> TraceItem:
@@ -483,6 +486,9 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         value_len = len(value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # Raised by the data
+        raise TypedloadException(srepr(e, str), value=value, type_=type_)
     if l.failonextra and value_len > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
     elif value_len < len(args):
@@ -512,7 +518,7 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
+        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
 
 
 def _mangle_names(namesmap: Dict[str, str], value: Dict[str, Any], failonextra: bool) -> Dict[str, Any]:
@@ -583,6 +589,9 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # Raised by the data
+        raise TypedloadException(srepr(e, str), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
 
@@ -618,6 +627,9 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # Raised by the data
+        raise TypedloadException(srepr(e, str), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
@@ -776,7 +788,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         if discriminatorscache[1]:
             try:
                 preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
-            except TypeError:
+            except Exception:
                 # Unhashable value, it can't be one of the literals
                 preferredtype = None
             if preferredtype:
@@ -895,6 +907,9 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
         raise TypedloadTypeError(str(e), type_=type_, value=value)
     except (ValueError, OverflowError) as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
+    except Exception as e:
+        # Raised by the data
+        raise TypedloadException(srepr(e, str), type_=type_, value=value)
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
@@ -908,6 +923,9 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
         raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # Raised by the data
+        raise TypedloadException(srepr(e, str), value=value, type_=type_)
 
 
 def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
@@ -968,6 +986,9 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        # Raised by the data
+        raise TypedloadException(srepr(e, str), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_, parameters)
 
@@ -1032,4 +1053,4 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except Exception as e:
-        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException')
+        raise TypedloadTypeError('Exception is not a subclass of TypedloadException. Make sure all handlers only raise TypedloadException', value=value, type_=type_)
-- 
2.43.0


From e000399d165ef25b0f26aa0911ea809a2f4631e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:48:35 +0000
Subject: [PATCH 44/45] fix: with pep563, annotations of a subclass of a
 NamedTuple were considered fields

---
 typedload/dataloader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index bc54ee3..13a6517 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -693,13 +693,13 @@ def _namedtupleload(l: Loader, value: Any, type_) -> Any:
     This loads a Dict[str, Any] into a NamedTuple.
     """
     if l.pep563:
-        type_hints = _typehints(value, type_)
+        annotations = _typehints(value, type_)
     else:
         # Include the annotations of the parents, for subclasses of a NamedTuple
-        annotations = {}  # type: Dict[str, Any]
+        annotations = {}
         for cls in reversed(type_.__mro__):
             annotations.update(cls.__dict__.get('__annotations__', {}))
-        type_hints = {k: v for k, v in annotations.items() if k in type_._fields}
+    type_hints = {k: v for k, v in annotations.items() if k in type_._fields}
     fields = set(type_hints.keys())
     optional_fields = set(getattr(type_, '_field_defaults', {}).keys())
     necessary_fields = fields.difference(optional_fields)
-- 
2.43.0


From d30f779a628a5a4fa81e0126c424d01f4e3dd1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:11 +0000
Subject: [PATCH 45/45] fix: with pep563, the optional keys of a TypedDict were
 required when the annotations are strings

---
 typedload/dataloader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 13a6517..98566d4 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -29,6 +29,7 @@ from itertools import compress, count, repeat
 from functools import reduce
 from pathlib import Path
 import re
+import sys
 from typing import *
 import uuid
 
@@ -731,6 +732,11 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
         if is_notrequired(v):
             type_hints[k] = notrequiredtype(v)
             necessary_fields.discard(k)
+    if l.pep563 and sys.version_info >= (3, 9):
+        # The class can't know about NotRequired, when the annotations are strings
+        for k, v in get_type_hints(type_, include_extras=True).items():
+            if is_notrequired(v):
+                necessary_fields.discard(k)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
 
-- 
2.43.0

