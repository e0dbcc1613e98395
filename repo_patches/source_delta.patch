From fe125c5cc5296ea42fb83259f4fe4f1d79017531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 01/42] fix: list the names of the zone info (de)serializers in
 __all__

---
 jsons/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 128f8f0..4d6b7f7 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -315,7 +315,7 @@ set_deserializer(default_path_deserializer, PurePath)
 
 if default_zone_info_serializer and default_zone_info_deserializer:
     from zoneinfo import ZoneInfo
-    __all__.append(default_zone_info_serializer)
-    __all__.append(default_zone_info_deserializer)
+    __all__.append(default_zone_info_serializer.__name__)
+    __all__.append(default_zone_info_deserializer.__name__)
     set_serializer(default_zone_info_serializer, ZoneInfo)
     set_deserializer(default_zone_info_deserializer, ZoneInfo)
-- 
2.43.0


From de1de5745f716fd03301e01007d18dd27626d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:02 +0000
Subject: [PATCH 02/42] fix: give a fork its own validators and announced
 classes

---
 jsons/_fork_impl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jsons/_fork_impl.py b/jsons/_fork_impl.py
index 6fd22b1..a8cb91c 100644
--- a/jsons/_fork_impl.py
+++ b/jsons/_fork_impl.py
@@ -32,6 +32,9 @@ def fork(
     result._classes_deserializers = fork_inst._classes_deserializers.copy()
     result._serializers = fork_inst._serializers.copy()
     result._deserializers = fork_inst._deserializers.copy()
+    result._validators = fork_inst._validators.copy()
+    result._classes_validators = fork_inst._classes_validators.copy()
+    result._announced_classes = fork_inst._announced_classes.copy()
     result._fork_counter = 0
     result._suppress_warnings = fork_inst._suppress_warnings
     result._suppressed_warnings = fork_inst._suppressed_warnings.copy()
-- 
2.43.0


From 888b4eefda6c07d4b3ac3e55d683923ba0466bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:21 +0000
Subject: [PATCH 03/42] fix: let a newly set (de)serializer or validator take
 effect immediately

---
 jsons/_lizers_impl.py | 4 +++-
 jsons/_validation.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/jsons/_lizers_impl.py b/jsons/_lizers_impl.py
index 749a3dc..48c2f36 100644
--- a/jsons/_lizers_impl.py
+++ b/jsons/_lizers_impl.py
@@ -6,7 +6,7 @@ deserializers.
 """
 from typing import Optional, Dict, Sequence, Union
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._compatibility_impl import get_naked_class
 
@@ -44,6 +44,7 @@ def set_serializer(
         fork_inst._serializers[cls_name.lower()] = func
     else:
         fork_inst._serializers['nonetype'] = func
+    clear()  # The cached lookups may not outlive the registration.
 
 
 def set_deserializer(
@@ -80,6 +81,7 @@ def set_deserializer(
         fork_inst._deserializers[cls_name.lower()] = func
     else:
         fork_inst._deserializers['nonetype'] = func
+    clear()  # The cached lookups may not outlive the registration.
 
 
 @cached
diff --git a/jsons/_validation.py b/jsons/_validation.py
index 6512e46..f5bf8f8 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -5,7 +5,7 @@ This module contains functionality for validating objects.
 """
 from typing import Union, Sequence, Callable
 
-from jsons._cache import cached
+from jsons._cache import cached, clear
 from jsons._common_impl import StateHolder, get_class_name
 from jsons._lizers_impl import _get_lizer
 from jsons.exceptions import ValidationError
@@ -33,6 +33,7 @@ def set_validator(
         cls_name = get_class_name(cls, fully_qualified=True)
         fork_inst._validators[cls_name.lower()] = func
         fork_inst._classes_validators.append(cls)
+    clear()  # The cached lookups may not outlive the registration.
 
 
 @cached
-- 
2.43.0


From c6fa8570aa51519fa2e416ce0591eb01c0d2cfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:24 +0000
Subject: [PATCH 04/42] fix: do not cache announce_class, which is called for
 its effect

---
 jsons/_extra_impl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/jsons/_extra_impl.py b/jsons/_extra_impl.py
index fa2e038..07594d3 100644
--- a/jsons/_extra_impl.py
+++ b/jsons/_extra_impl.py
@@ -6,7 +6,6 @@ jsons.
 """
 from typing import Optional
 
-from jsons._cache import cached
 from jsons._common_impl import StateHolder, get_class_name
 
 
@@ -35,7 +34,6 @@ def suppress_warning(
     fork_inst._suppressed_warnings |= {code}
 
 
-@cached
 def announce_class(
         cls: type,
         cls_name: Optional[str] = None,
-- 
2.43.0


From be918320fe03f5d7f38cfa915cbc74772eb871de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:38 +0000
Subject: [PATCH 05/42] fix: keep the member order of every union (equal unions
 shared a cache entry)

---
 jsons/_compatibility_impl.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jsons/_compatibility_impl.py b/jsons/_compatibility_impl.py
index 2e4bdbd..457b2b8 100644
--- a/jsons/_compatibility_impl.py
+++ b/jsons/_compatibility_impl.py
@@ -49,7 +49,6 @@ def tuple_with_ellipsis(tup: type) -> bool:
     return use_el
 
 
-@cached
 def get_union_params(un: type) -> list:
     # Python3.5: Unions have __union_params__
     # Python3.7: Unions have __args__
-- 
2.43.0


From d11d95e4424adb18b4d28649938ccd4d90b43986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 06/42] fix: hand the fork to elements of a list that are
 loaded in parallel

---
 jsons/deserializers/default_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index 6f3a880..fef69ea 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -41,7 +41,8 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_, **kwargs_)
+        result = multi_task(load, obj, tasks, task_type, cls_,
+                            fork_inst=fork_inst, **kwargs_)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
-- 
2.43.0


From 8184301beaa6abd5ececcd48491499f2559a554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 07/42] fix: make all errors picklable so that they can cross
 process boundaries

---
 jsons/exceptions.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/jsons/exceptions.py b/jsons/exceptions.py
index fae7459..4e0d5f1 100644
--- a/jsons/exceptions.py
+++ b/jsons/exceptions.py
@@ -22,6 +22,17 @@ class JsonsError(Exception):
     def message(self):
         return self._message
 
+    def __reduce__(self):
+        # The constructors of errors differ; recreate errors without them, so
+        # that any error can be sent from one process to another.
+        return _recreate_error, (type(self), self.args, self.__dict__)
+
+
+def _recreate_error(cls: type, args: tuple, attributes: dict) -> Exception:
+    error = cls.__new__(cls, *args)
+    error.__dict__.update(attributes)
+    return error
+
 
 class ValidationError(JsonsError):
     """
-- 
2.43.0


From 73856e16b9368301525e23f63c41a07f6e2ec965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:51 +0000
Subject: [PATCH 08/42] fix: report elements that a parallel task could not
 process; accept empty iterables

---
 jsons/_multitasking.py                | 28 +++++++++++++++--
 jsons/deserializers/default_list.py   | 43 +++++++++++++++++++++------
 jsons/serializers/default_iterable.py |  5 +++-
 3 files changed, 63 insertions(+), 13 deletions(-)

diff --git a/jsons/_multitasking.py b/jsons/_multitasking.py
index b11ad1e..a64a104 100644
--- a/jsons/_multitasking.py
+++ b/jsons/_multitasking.py
@@ -8,9 +8,19 @@ from typing import List, Callable, Union
 
 from typish import Something
 
+from jsons.exceptions import JsonsError
+
 Subscriptable = Something['__getitem__': Callable[[int], object]]
 
 
+class TaskFailure:
+    """
+    Takes the place of the result of an element that a task could not process.
+    """
+    def __init__(self, error: Exception):
+        self.error = error
+
+
 def multi_task(
         func: Callable,
         obj: Subscriptable,
@@ -18,6 +28,10 @@ def multi_task(
         task_type: type,
         *args,
         **kwargs):
+    # Return the results of func for all elements of obj. There is a
+    # TaskFailure in the place of every element for which func failed.
+    if not len(obj):
+        return []
     result = _get_list_to_fill(obj, task_type)
     tasks_instances = _start_tasks(tasks=tasks, task_type=task_type, func=func,
                                    list_to_fill=result, obj=obj, args=args,
@@ -30,7 +44,8 @@ def multi_task(
 
 def _get_list_to_fill(obj: list, task_type: type) -> Union[list, Manager]:
     # Return a list or manager that contains enough spots to fill.
-    result = [0] * len(obj)
+    unfinished = TaskFailure(JsonsError('A task ended prematurely.'))
+    result = [unfinished] * len(obj)
     if issubclass(task_type, Process):
         manager = Manager()
         result = manager.list(result)
@@ -78,5 +93,12 @@ def _fill(
         kwargs):
     # Fill the given list with results from func.
     for i_ in range(start, end):
-        loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
-        list_to_fill[i_] = loaded
+        try:
+            loaded = func(obj[i_], tasks=tasks, *args, **kwargs)
+        except Exception as err:
+            loaded = TaskFailure(err)
+        try:
+            list_to_fill[i_] = loaded
+        except Exception as err:
+            # E.g. the result could not be sent to the parent process.
+            list_to_fill[i_] = TaskFailure(JsonsError(str(err)))
diff --git a/jsons/deserializers/default_list.py b/jsons/deserializers/default_list.py
index fef69ea..e1bf0ff 100644
--- a/jsons/deserializers/default_list.py
+++ b/jsons/deserializers/default_list.py
@@ -5,7 +5,7 @@ from typish import get_args
 
 from jsons._common_impl import StateHolder
 from jsons._load_impl import load
-from jsons._multitasking import multi_task
+from jsons._multitasking import TaskFailure, multi_task
 from jsons.exceptions import JsonsError, DeserializationError
 
 
@@ -41,8 +41,9 @@ def default_list_deserializer(
     if tasks == 1:
         result = _do_load(obj, cls_, warn_on_fail, fork_inst, kwargs_)
     elif tasks > 1:
-        result = multi_task(load, obj, tasks, task_type, cls_,
+        loaded = multi_task(load, obj, tasks, task_type, cls_,
                             fork_inst=fork_inst, **kwargs_)
+        result = _check_loaded(loaded, warn_on_fail, fork_inst)
     else:
         raise JsonsError('Invalid number of tasks: {}'.format(tasks))
     return result
@@ -59,12 +60,36 @@ def _do_load(
         try:
             result.append(load(elem, cls=cls, tasks=1, fork_inst=fork_inst, **kwargs))
         except DeserializationError as err:
-            new_msg = ('Could not deserialize element at index %s. %s' %
-                       (index, err.message))
-            if warn_on_fail:
-                fork_inst._warn(new_msg, 'element-not-deserialized')
-            else:
-                new_err = DeserializationError(new_msg, err.source, err.target)
-                raise new_err from err
+            _handle_failure(index, err, warn_on_fail, fork_inst)
 
     return result
+
+
+def _check_loaded(
+        loaded: list,
+        warn_on_fail: bool,
+        fork_inst: Type[StateHolder]) -> list:
+    # Handle the failures of elements that were loaded by tasks.
+    result = []
+    for index, elem in enumerate(loaded):
+        if not isinstance(elem, TaskFailure):
+            result.append(elem)
+        elif isinstance(elem.error, DeserializationError):
+            _handle_failure(index, elem.error, warn_on_fail, fork_inst)
+        else:
+            raise elem.error
+    return result
+
+
+def _handle_failure(
+        index: int,
+        err: DeserializationError,
+        warn_on_fail: bool,
+        fork_inst: Type[StateHolder]) -> None:
+    new_msg = ('Could not deserialize element at index %s. %s' %
+               (index, err.message))
+    if warn_on_fail:
+        fork_inst._warn(new_msg, 'element-not-deserialized')
+    else:
+        new_err = DeserializationError(new_msg, err.source, err.target)
+        raise new_err from err
diff --git a/jsons/serializers/default_iterable.py b/jsons/serializers/default_iterable.py
index c765f07..1945bfe 100644
--- a/jsons/serializers/default_iterable.py
+++ b/jsons/serializers/default_iterable.py
@@ -5,7 +5,7 @@ from typing import Tuple, Optional
 from typish import get_args, get_type
 
 from jsons._dump_impl import dump
-from jsons._multitasking import multi_task
+from jsons._multitasking import TaskFailure, multi_task
 from jsons.exceptions import SerializationError
 
 
@@ -45,6 +45,9 @@ def default_iterable_serializer(
     else:
         zipped_objs = list(zip(obj, subclasses))
         result = multi_task(_do_dump, zipped_objs, tasks, task_type, **kwargs_)
+        for elem in result:
+            if isinstance(elem, TaskFailure):
+                raise elem.error
 
     return result
 
-- 
2.43.0


From 5936257a6ea404505389b5ad123fd8082e267e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:15 +0000
Subject: [PATCH 09/42] fix: load the parts of a complex number with the
 options that were given

---
 jsons/deserializers/default_complex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_complex.py b/jsons/deserializers/default_complex.py
index ae4a861..6cee639 100644
--- a/jsons/deserializers/default_complex.py
+++ b/jsons/deserializers/default_complex.py
@@ -11,12 +11,14 @@ def default_complex_deserializer(obj: Dict[str, float],
     Deserialize a dictionary with 'real' and 'imag' keys to a complex number.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments.
     :return: an instance of ``complex``.
     """
+    # The keys of a complex number are fixed, they are not to be transformed.
+    kwargs_ = {**kwargs, 'key_transformer': None}
     try:
         clean_obj = load({'real': obj['real'], 'imag': obj['imag']},
-                         cls=Dict[str, float])
+                         cls=Dict[str, float], **kwargs_)
         return complex(clean_obj['real'], clean_obj['imag'])
     except KeyError as err:
         raise AttributeError("Cannot deserialize {} to a complex number, "
-- 
2.43.0


From fb5d989b6d9397c92fbf59c3caed70ec1cbc71d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 10/42] fix: load the offset of a timezone with the options
 that were given

---
 jsons/deserializers/default_timezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_timezone.py b/jsons/deserializers/default_timezone.py
index 213e1c0..a142197 100644
--- a/jsons/deserializers/default_timezone.py
+++ b/jsons/deserializers/default_timezone.py
@@ -10,7 +10,7 @@ def default_timezone_deserializer(obj: dict,
     Deserialize a dict to a timezone instance.
     :param obj: the dict that is to be deserialized.
     :param cls: not used.
-    :param kwargs: not used.
+    :param kwargs: any keyword arguments.
     :return: a ``datetime.timezone`` instance.
     """
-    return timezone(load(obj['offset'], timedelta), obj['name'])
+    return timezone(load(obj['offset'], timedelta, **kwargs), obj['name'])
-- 
2.43.0


From 1483c694294524cbf159f941082c2ed26f663ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 11/42] fix: dump with the fork of the object when using
 with_dump

---
 jsons/classes/json_serializable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/classes/json_serializable.py b/jsons/classes/json_serializable.py
index 4e84d70..da9125a 100644
--- a/jsons/classes/json_serializable.py
+++ b/jsons/classes/json_serializable.py
@@ -52,7 +52,8 @@ class JsonSerializable(StateHolder):
         """
 
         def _wrapper(inst, **kwargs_):
-            return dump(inst, **{**kwargs_, **kwargs})
+            return dump(inst, **{'fork_inst': inst.__class__,
+                                 **kwargs_, **kwargs})
 
         type_ = cls.fork() if fork else cls
         type_.dump = _wrapper
-- 
2.43.0


From 8d141ac5a6edcafe6b5a3f164ace2319cd4e5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:37 +0000
Subject: [PATCH 12/42] fix: dump the offset of a timezone as a timedelta, not
 as a timezone

---
 jsons/serializers/default_timezone.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_timezone.py b/jsons/serializers/default_timezone.py
index cd565b1..27190c7 100644
--- a/jsons/serializers/default_timezone.py
+++ b/jsons/serializers/default_timezone.py
@@ -1,4 +1,4 @@
-from datetime import timezone
+from datetime import timedelta, timezone
 
 from jsons._dump_impl import dump
 
@@ -12,7 +12,7 @@ def default_timezone_serializer(obj: timezone, **kwargs) -> dict:
     :return: ``timezone`` as a dict.
     """
     name = obj.tzname(None)
-    offset = dump(obj.utcoffset(None), **kwargs)
+    offset = dump(obj.utcoffset(None), **{**kwargs, 'cls': timedelta})
     return {
         'name': name,
         'offset': offset
-- 
2.43.0


From 7672c4dc1daeb3f59351fdf2ab51a7c58420c040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 13/42] fix: apply the key_transformer in the elements of a
 tuple

---
 jsons/deserializers/default_tuple.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 2f51905..7825ce1 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -29,10 +29,12 @@ def default_tuple_deserializer(obj: list,
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
-        list_ = [load(value, tuple_types[i], **kwargs)
+        list_ = [load(value, tuple_types[i], key_transformer=key_transformer,
+                      **kwargs)
                  for i, value in enumerate(obj)]
     else:
-        list_ = [load(value, **kwargs) for i, value in enumerate(obj)]
+        list_ = [load(value, key_transformer=key_transformer, **kwargs)
+                 for i, value in enumerate(obj)]
     return tuple(list_)
 
 
-- 
2.43.0


From 3fba7a8fd7d68f847750e0dc875d5ae3c8fb0ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 14/42] fix: do not modify the given dict when loading hashed
 keys

---
 jsons/deserializers/default_dict.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index 1bf7a5d..f6b3ae2 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -47,18 +47,16 @@ def _load_hashed_keys(
                                        'deserialize a dict with hashed keys.',
                                        obj, cls)
         result = {**obj}
+        original_keys = result.pop('-keys')
         key_type = cls_args[0]
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-            original_key = result['-keys'][key]
-            loaded_key = load(original_key, cls=key_type, **kwargs)
+            loaded_key = load(original_keys[key], cls=key_type, **kwargs)
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
-            del result['-keys'][key]
             del result[key]
 
-        del result['-keys']
     return result, len(stored_keys) > 0
 
 
-- 
2.43.0


From 17d1bde72451268b9e5845139032ebda5077e3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:05 +0000
Subject: [PATCH 15/42] fix: do not modify the cached type hints of a class

---
 jsons/serializers/default_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 92cc570..495553d 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -206,7 +206,7 @@ def _get_attributes_and_types(cls: type,
     if '__slots__' in cls.__dict__:
         attributes = {attr: None for attr in cls.__slots__}
     elif hasattr(cls, '__annotations__'):
-        attributes = get_type_hints(cls)
+        attributes = dict(get_type_hints(cls))
     elif strict:
         hints = get_type_hints(cls.__init__)
         attributes = {k: hints[k] for k in hints if k != 'self'}
-- 
2.43.0


From a3e22f36b93d47ef522a827c2fa6175bd2e8bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:22 +0000
Subject: [PATCH 16/42] fix: load objects that were dumped with a dump time but
 no class info

---
 jsons/_common_impl.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 7e17359..17eca8c 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -121,9 +121,12 @@ def get_cls_and_meta(
         json_obj: object,
         fork_inst: type) -> Tuple[Optional[type], Optional[dict]]:
     if isinstance(json_obj, dict) and META_ATTR in json_obj:
-        cls_str = json_obj[META_ATTR]['classes']['/']
-        cls = get_cls_from_str(cls_str, json_obj, fork_inst)
-        return cls, json_obj[META_ATTR]
+        meta = json_obj[META_ATTR]
+        cls = None
+        if 'classes' in meta:  # There may be no class info, only a dump time.
+            cls_str = meta['classes']['/']
+            cls = get_cls_from_str(cls_str, json_obj, fork_inst)
+        return cls, meta
     return None, None
 
 
-- 
2.43.0


From 335a0dd0b000432a8d7b71b8462199f7a5dafd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 17/42] fix: do not mistake a class with 'union' in its name
 for a union

---
 jsons/_common_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index 17eca8c..eac969c 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -136,7 +136,7 @@ def can_match_with_none(cls: type):
     if not result:
         cls_name = get_class_name(cls).lower()
         result = (('union' in cls_name or 'optional' in cls_name)
-                  and NoneType in get_union_params(cls))
+                  and NoneType in (get_union_params(cls) or ()))
     return result
 
 
-- 
2.43.0


From 7df6f82d080c8f34c2d442a8e1b817b1022b88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 18/42] fix: raise a DeserializationError on malformed metadata
 or class names

---
 jsons/_load_impl.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 724cdf2..59cb416 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -77,11 +77,19 @@ def load(
     if _should_skip(json_obj, cls, strict):
         validate(json_obj, cls, fork_inst)
         return json_obj
-    if isinstance(cls, str):
-        cls = get_cls_from_str(cls, json_obj, fork_inst)
-    original_cls = cls
-    cls, meta_hints = _check_and_get_cls_and_meta_hints(
-        json_obj, cls, fork_inst, kwargs.get('_inferred_cls', False))
+    try:
+        if isinstance(cls, str):
+            cls = get_cls_from_str(cls, json_obj, fork_inst)
+        original_cls = cls
+        cls, meta_hints = _check_and_get_cls_and_meta_hints(
+            json_obj, cls, fork_inst, kwargs.get('_inferred_cls', False))
+    except JsonsError:
+        raise
+    except Exception as err:
+        # E.g. the name of a class or the metadata of json_obj is malformed.
+        message = ('Could not determine the type to deserialize "{}" into. {}'
+                   .format(json_obj, err))
+        raise DeserializationError(message, json_obj, cls) from err
 
     deserializer = get_deserializer(cls, fork_inst)
 
-- 
2.43.0


From bb8daea6964a3e98196f317a50f78ba4241f433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:56 +0000
Subject: [PATCH 19/42] fix: raise a DeserializationError if json.loads fails
 on its limits

---
 jsons/_load_impl.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 59cb416..ad66726 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -159,6 +159,11 @@ def loads(
     except JSONDecodeError as err:
         raise DecodeError('Could not load a dict; the given string is not '
                           'valid JSON.', str_, cls, err) from err
+    except Exception as err:
+        # E.g. a too large number, too many nested levels or not a string.
+        raise DeserializationError('Could not load a dict; the given string '
+                                   'could not be parsed. {}'.format(err),
+                                   str_, cls) from err
     else:
         return load(obj, cls, *args, **kwargs)
 
-- 
2.43.0


From 2d9a37d9d1bed9be4d88676d89c2cc5d89ea408f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:59 +0000
Subject: [PATCH 20/42] fix: raise a DeserializationError if loadb cannot
 decode the bytes

---
 jsons/_load_impl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index ad66726..4fd499e 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -194,7 +194,11 @@ def loadb(
         raise DeserializationError('loadb accepts bytes only, "{}" was given'
                                    .format(type(bytes_)), bytes_, cls)
     jdkwargs = jdkwargs or {}
-    str_ = bytes_.decode(encoding=encoding)
+    try:
+        str_ = bytes_.decode(encoding=encoding)
+    except UnicodeError as err:
+        raise DeserializationError('Could not decode the given bytes. {}'
+                                   .format(err), bytes_, cls) from err
     return loads(str_, cls, jdkwargs=jdkwargs, *args, **kwargs)
 
 
-- 
2.43.0


From 0de2bf349a55dc56d99b0743f9be414199e995c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:17 +0000
Subject: [PATCH 21/42] fix: write negative UTC offsets with minutes correctly

---
 jsons/_datetime_impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 575d9a6..a09e96c 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -86,10 +86,10 @@ def _timedelta_offset_str(tdelta: timedelta) -> str:
     :return: the offset for ``tdelta``.
     """
     offset_s = tdelta.total_seconds()
-    offset_h = int(offset_s / 3600)
-    offset_m = int((offset_s / 60) % 60)
-    offset_t = time(abs(offset_h), abs(offset_m))
-    operator = '+' if offset_s > 0 else '-'
+    offset_h = int(abs(offset_s) / 3600)
+    offset_m = int((abs(offset_s) / 60) % 60)
+    offset_t = time(offset_h, offset_m)
+    operator = '+' if offset_s >= 0 else '-'
     offset = offset_t.strftime('{}%H:%M'.format(operator))
     return offset
 
-- 
2.43.0


From fab6ba27905bf7f95611685a0a26c51b44aecd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:37 +0000
Subject: [PATCH 22/42] fix: give naive datetimes the offset of the local time
 zone

---
 jsons/_datetime_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index a09e96c..3d621b8 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -69,7 +69,7 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
                         'and can lead to undesired results.',
                         'datetime-without-tz')
         tzone = datetime.now(timezone.utc).astimezone().tzinfo
-        if tzone is timezone.utc or tzone.utc is timezone.utc:
+        if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
     if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
-- 
2.43.0


From 021c7e7b5d45265b8da515bbe3f6b7c847ee08b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 23/42] fix: let the key transformers accept names without
 letters

---
 jsons/_key_transformers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/_key_transformers.py b/jsons/_key_transformers.py
index 9c74ab6..f35d2ba 100644
--- a/jsons/_key_transformers.py
+++ b/jsons/_key_transformers.py
@@ -17,7 +17,7 @@ def camelcase(str_: str) -> str:
     splitted = str_.split('_')
     if len(splitted) > 1:
         str_ = ''.join([x.title() for x in splitted])
-    return str_[0].lower() + str_[1:]
+    return str_[:1].lower() + str_[1:]
 
 
 def snakecase(str_: str) -> str:
@@ -27,7 +27,7 @@ def snakecase(str_: str) -> str:
     :return: a string in snake_case.
     """
     str_ = str_.replace('-', '_')
-    str_ = str_[0].lower() + str_[1:]
+    str_ = str_[:1].lower() + str_[1:]
     return re.sub(r'([a-z])([A-Z])', '\\1_\\2', str_).lower()
 
 
@@ -38,7 +38,7 @@ def pascalcase(str_: str) -> str:
     :return: a string in PascalCase.
     """
     camelcase_str = camelcase(str_)
-    return camelcase_str[0].upper() + camelcase_str[1:]
+    return camelcase_str[:1].upper() + camelcase_str[1:]
 
 
 def lispcase(str_: str) -> str:
-- 
2.43.0


From 97703846355138e93d67f36b9465dc572f9a0495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 24/42] fix: accept a list of names for strip_attr

---
 jsons/serializers/default_object.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 495553d..021d429 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -162,10 +162,9 @@ def _add_dumped_elem(
 def _normalize_strip_attr(strip_attr) -> tuple:
     # Make sure that strip_attr is always a tuple.
     strip_attr = strip_attr or tuple()
-    if (not isinstance(strip_attr, MutableSequence)
-            and not isinstance(strip_attr, tuple)):
+    if isinstance(strip_attr, str):
         strip_attr = (strip_attr,)
-    return strip_attr
+    return tuple(strip_attr)
 
 
 @cached
-- 
2.43.0


From 2cccb2bdc4769d68753308cbe3f6f318d6637199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 25/42] fix: load times that have microseconds

---
 jsons/deserializers/default_time.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jsons/deserializers/default_time.py b/jsons/deserializers/default_time.py
index 988d1f3..0dd8c21 100644
--- a/jsons/deserializers/default_time.py
+++ b/jsons/deserializers/default_time.py
@@ -13,4 +13,7 @@ def default_time_deserializer(obj: str,
     :param kwargs: not used.
     :return: a ``datetime.time`` instance.
     """
-    return get_datetime_inst(obj, RFC3339_TIME_PATTERN).time()
+    pattern = RFC3339_TIME_PATTERN
+    if '.' in obj:
+        pattern += '.%f'
+    return get_datetime_inst(obj, pattern).time()
-- 
2.43.0


From ad733c3688cb0047dd969f8516e3c7da16e38e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:45 +0000
Subject: [PATCH 26/42] fix: treat subclasses of datetime as datetimes rather
 than dates

---
 jsons/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jsons/__init__.py b/jsons/__init__.py
index 4d6b7f7..9c0b35f 100644
--- a/jsons/__init__.py
+++ b/jsons/__init__.py
@@ -276,8 +276,8 @@ __all__ = [
 
 set_serializer(default_tuple_serializer, (tuple, Tuple))
 set_serializer(default_complex_serializer, complex)
-set_serializer(default_datetime_serializer, datetime)
 set_serializer(default_date_serializer, date)
+set_serializer(default_datetime_serializer, datetime)  # must be after date_serializer
 set_serializer(default_time_serializer, time)
 set_serializer(default_timezone_serializer, timezone)
 set_serializer(default_timedelta_serializer, timedelta)
@@ -296,8 +296,8 @@ set_deserializer(default_list_deserializer, (list, List))
 set_deserializer(default_tuple_deserializer, (tuple, Tuple))
 set_deserializer(default_union_deserializer, (Union, Optional))
 set_deserializer(default_defaultdict_deserializer, DefaultDict)
-set_deserializer(default_datetime_deserializer, datetime)
 set_deserializer(default_date_deserializer, date)
+set_deserializer(default_datetime_deserializer, datetime)  # must be after date_deserializer
 set_deserializer(default_time_deserializer, time)
 set_deserializer(default_timezone_deserializer, timezone)
 set_deserializer(default_timedelta_deserializer, timedelta)
-- 
2.43.0


From 95140ecf0a5839e66ecdffaf12056f787ae279a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 27/42] fix: only skip the attribute that could not be dumped

---
 jsons/serializers/default_object.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 021d429..42038ef 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -131,14 +131,14 @@ def _do_serialize(
             _store_cls_info(dumped_elem, attr, kwargs)
         except Exception as err:
             if strict:
-                raise SerializationError(message=err.args[0]) from err
+                raise SerializationError(message=str(err)) from err
             else:
                 fork_inst._warn('Failed to dump attribute "{}" of object of '
                                 'type "{}". Reason: {}. Ignoring the '
                                 'attribute.'
-                                .format(attr, get_class_name(cls), err.args[0]),
+                                .format(attr_name, get_class_name(cls), err),
                                 'attribute-not-serialized')
-                break
+                continue
 
         if make_attributes_public:
             attr_name = attr_name.lstrip('_')
-- 
2.43.0


From 514d0fe941c5ec3fa3b9a6acc94562c74cc97518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:16 +0000
Subject: [PATCH 28/42] fix: let the decorators map keyword and variadic
 arguments

---
 jsons/decorators.py | 67 ++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 25 deletions(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index 0a4e987..cb16bee 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -136,28 +136,44 @@ def _get_async_wrapper(
     return _async_wrapper
 
 
-def _get_params_sig(args, func):
-    sig = signature(func)
-    params = sig.parameters
-    param_names = [param_name for param_name in params]
-    result = [(args[i], params[param_names[i]]) for i in range(len(args))]
-    return result
-
-
-def _map_args(args, decorated, fork_inst, mapper, mapper_kwargs):
-    params_sig = _get_params_sig(args, decorated)
-    new_args = []
-    for arg, sig in params_sig:
-        if sig.name in ('self', 'cls') and hasattr(arg, decorated.__name__):
-            # `decorated` is a method and arg is either `self` or `cls`.
-            new_arg = arg
-        else:
-            cls = sig.annotation if sig.annotation != Parameter.empty else None
-            new_arg = mapper(arg, cls=cls, fork_inst=fork_inst,
-                             **mapper_kwargs)
-
-        new_args.append(new_arg)
-    return new_args
+def _get_params_sig(args, kwargs, func):
+    # Return the parameter for each of args and for each of kwargs; it is None
+    # for an argument that func does not expect.
+    params = signature(func).parameters
+    by_kind = {param.kind: param for param in params.values()}
+    positionals = [param for param in params.values()
+                   if param.kind in (Parameter.POSITIONAL_ONLY,
+                                     Parameter.POSITIONAL_OR_KEYWORD)]
+    rest = by_kind.get(Parameter.VAR_POSITIONAL)
+    args_sig = [(arg, positionals[i] if i < len(positionals) else rest)
+                for i, arg in enumerate(args)]
+    kw_rest = by_kind.get(Parameter.VAR_KEYWORD)
+    named = {param_name: param for param_name, param in params.items()
+             if param.kind in (Parameter.POSITIONAL_OR_KEYWORD,
+                               Parameter.KEYWORD_ONLY)}
+    kwargs_sig = {name: (arg, named.get(name, kw_rest))
+                  for name, arg in kwargs.items()}
+    return args_sig, kwargs_sig
+
+
+def _map_args(args, kwargs, decorated, fork_inst, mapper, mapper_kwargs):
+    args_sig, kwargs_sig = _get_params_sig(args, kwargs, decorated)
+    new_args = [_map_arg(arg, sig, decorated, fork_inst, mapper, mapper_kwargs)
+                for arg, sig in args_sig]
+    new_kwargs = {name: _map_arg(arg, sig, decorated, fork_inst, mapper,
+                                 mapper_kwargs)
+                  for name, (arg, sig) in kwargs_sig.items()}
+    return new_args, new_kwargs
+
+
+def _map_arg(arg, sig, decorated, fork_inst, mapper, mapper_kwargs):
+    if sig and sig.name in ('self', 'cls') \
+            and hasattr(arg, decorated.__name__):
+        # `decorated` is a method and arg is either `self` or `cls`.
+        return arg
+    cls = (sig.annotation if sig and sig.annotation != Parameter.empty
+           else None)
+    return mapper(arg, cls=cls, fork_inst=fork_inst, **mapper_kwargs)
 
 
 def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
@@ -168,10 +184,11 @@ def _map_returnvalue(returnvalue, decorated, fork_inst, mapper, mapper_kwargs):
 
 
 def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
-    new_args = args
+    new_args, new_kwargs = args, kwargs
     if mapper:
-        new_args = _map_args(args, decorated, fork_inst, mapper, mapper_kwargs)
-    result = decorated(*new_args, **kwargs)
+        new_args, new_kwargs = _map_args(args, kwargs, decorated, fork_inst,
+                                         mapper, mapper_kwargs)
+    result = decorated(*new_args, **new_kwargs)
     return result
 
 
-- 
2.43.0


From c1d1d9a1ec41c84d78ea628d38ab95c2b379746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:54 +0000
Subject: [PATCH 29/42] fix: reject the decoration of a classmethod right away

---
 jsons/decorators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsons/decorators.py b/jsons/decorators.py
index cb16bee..68b2c8d 100644
--- a/jsons/decorators.py
+++ b/jsons/decorators.py
@@ -193,7 +193,7 @@ def _run_decorated(decorated, mapper, fork_inst, args, kwargs, mapper_kwargs):
 
 
 def _validate_decoration(decorated, fork_inst):
-    if isinstance(decorated, staticmethod):
+    if isinstance(decorated, (staticmethod, classmethod)):
         fork_inst._warn('You cannot decorate a static- or classmethod. '
                         'You can still obtain the desired behavior by '
                         'decorating your method first and then place '
-- 
2.43.0


From f4ad93b1d635a73efa9a923a0d388b74735663d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:57 +0000
Subject: [PATCH 30/42] fix: apply key_transformer and strip_nulls to the
 fields of named tuples

---
 jsons/serializers/default_tuple.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/jsons/serializers/default_tuple.py b/jsons/serializers/default_tuple.py
index 5b12961..6de5b7d 100644
--- a/jsons/serializers/default_tuple.py
+++ b/jsons/serializers/default_tuple.py
@@ -1,4 +1,4 @@
-from typing import Union, Optional, Tuple
+from typing import Callable, Union, Optional, Tuple
 
 from typish import get_args
 
@@ -28,14 +28,30 @@ def default_tuple_serializer(obj: tuple,
     return default_iterable_serializer(obj, cls_, **kwargs)
 
 
-def default_namedtuple_serializer(obj: tuple, **kwargs) -> dict:
+def default_namedtuple_serializer(
+        obj: tuple,
+        *,
+        strip_nulls: bool = False,
+        key_transformer: Optional[Callable[[str], str]] = None,
+        **kwargs) -> dict:
     """
     Serialize the given ``obj`` to a dict of serialized objects.
     :param obj: the named tuple that is to be serialized.
+    :param strip_nulls: if ``True`` the resulting dict will not contain null
+    values.
+    :param key_transformer: a function that will be applied to all keys in the
+    resulting dict.
     :param kwargs: any keyword arguments that may be given to the serialization
     process.
     :return: a dict of which all elements are serialized.
     """
-    result = {field_name: dump(getattr(obj, field_name), **kwargs)
-              for field_name in obj._fields}
+    result = {}
+    for field_name in obj._fields:
+        dumped_elem = dump(getattr(obj, field_name),
+                           strip_nulls=strip_nulls,
+                           key_transformer=key_transformer,
+                           **kwargs)
+        if not (strip_nulls and dumped_elem is None):
+            key = key_transformer(field_name) if key_transformer else field_name
+            result[key] = dumped_elem
     return result
-- 
2.43.0


From 06b0c8c839f0cc527ca122f06014e82eb5c76b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 31/42] fix: use the defaults of named tuples for any field
 that is missing

---
 jsons/deserializers/default_tuple.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index 7825ce1..c9923ba 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -52,21 +52,18 @@ def default_namedtuple_deserializer(
     :param kwargs: any keyword arguments.
     :return: a deserialized named tuple (i.e. an instance of a class).
     """
-    is_dict = isinstance(obj, dict)
-    key_tfr = key_transformer or (lambda key: key)
-
-    if is_dict:
-        tfm_obj = {key_tfr(k): v for k, v in obj.items()}
+    if isinstance(obj, dict):
+        key_tfr = key_transformer or (lambda key: key)
+        values = {key_tfr(k): v for k, v in obj.items()}
+    else:
+        values = dict(zip(cls._fields, obj))
 
     args = []
-    for index, field_name in enumerate(cls._fields):
-        if index < len(obj):
-            if is_dict:
-                field = tfm_obj[field_name]
-            else:
-                field = obj[index]
-        else:
-            field = cls._field_defaults.get(field_name, None)
+    for field_name in cls._fields:
+        if field_name not in values and field_name in cls._field_defaults:
+            args.append(cls._field_defaults[field_name])
+            continue
+        field = values.get(field_name)
 
         # _field_types has been deprecated in favor of __annotations__ in Python 3.8
         if hasattr(cls, '__annotations__'):
-- 
2.43.0


From c64ff88a848ca49f5544f4bddf621f18a8ed1a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:50 +0000
Subject: [PATCH 32/42] fix: resolve nested generic types in class metadata

---
 jsons/_common_impl.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/jsons/_common_impl.py b/jsons/_common_impl.py
index eac969c..786e14b 100644
--- a/jsons/_common_impl.py
+++ b/jsons/_common_impl.py
@@ -78,6 +78,8 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     cls = getattr(builtins, cls_str, None)
     if cls:
         return cls
+    if cls_str == NoneType.__name__:
+        return NoneType
     if '[' in cls_str and ']' in cls_str:
         return _get_generic_cls_from_str(cls_str, source, fork_inst)
     try:
@@ -93,14 +95,27 @@ def get_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
 
 def _get_generic_cls_from_str(cls_str: str, source: object, fork_inst) -> type:
     # If cls_str represents a generic type, try to parse the sub types.
-    origin_str, subtypes_str = cls_str.split('[')
+    origin_str, subtypes_str = cls_str.split('[', 1)
     subtypes_str = subtypes_str[0:-1]  # Remove the ']'.
     origin = get_cls_from_str(origin_str, source, fork_inst)
     subtypes = [get_cls_from_str(s.strip(), source, fork_inst)
-                for s in subtypes_str.split(',')]
+                for s in _split_subtypes(subtypes_str)]
     return origin[tuple(subtypes)]
 
 
+def _split_subtypes(subtypes_str: str) -> list:
+    # Split on the commas that are not part of a subtype themselves.
+    result = ['']
+    depth = 0
+    for char in subtypes_str:
+        depth += (char == '[') - (char == ']')
+        if char == ',' and depth == 0:
+            result.append('')
+        else:
+            result[-1] += char
+    return result
+
+
 def determine_precedence(
         cls: type,
         cls_from_meta: type,
-- 
2.43.0


From b39638d33307e6e28cff74e31c917d447c21125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 33/42] fix: honor the class metadata of objects within lists
 and dicts

---
 jsons/_load_impl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jsons/_load_impl.py b/jsons/_load_impl.py
index 4fd499e..bdc5114 100644
--- a/jsons/_load_impl.py
+++ b/jsons/_load_impl.py
@@ -97,8 +97,9 @@ def load(
     initial = kwargs.get('_initial', True)
 
     kwargs_ = {
-        'meta_hints': meta_hints,  # Overridable by kwargs.
         **kwargs,
+        # The metadata of json_obj itself precedes that of its parents.
+        'meta_hints': meta_hints or kwargs.get('meta_hints', meta_hints),
         'strict': strict,
         'fork_inst': fork_inst,
         'attr_getters': attr_getters,
-- 
2.43.0


From 16c3584d359d2734584697bc9e5e24cfd5efe70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:37 +0000
Subject: [PATCH 34/42] fix: do not apply the class metadata of an attribute to
 nested attributes

---
 jsons/deserializers/default_object.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index cb41e84..da4ee11 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -113,10 +113,13 @@ def _get_value_for_attr(
     return result
 
 
-def _remove_prefix(prefix: str, s: str) -> str:
-    if s.startswith(prefix):
-        return s[len(prefix):] or '/'  # Special case: map the empty string to '/'
-    return s
+def _get_nested_hints(attr_key: str, meta_hints: dict) -> dict:
+    # Rebuild the class hints: attr_key becomes the new root.
+    prefix = attr_key + '/'
+    return {
+        key[len(attr_key):] or '/': hint for key, hint in meta_hints.items()
+        if key == attr_key or key.startswith(prefix)
+    }
 
 
 def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
@@ -125,16 +128,11 @@ def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
     # or from type hints.
     cls_key = '/{}'.format(sig_key)
     cls_str_from_meta = meta_hints.get(cls_key, None)
-    new_hints = meta_hints
+    new_hints = _get_nested_hints(cls_key, meta_hints)
     cls_from_meta = None
     if cls_str_from_meta:
         cls_from_meta = get_cls_from_str(
             cls_str_from_meta, obj, kwargs['fork_inst'])
-        # Rebuild the class hints: cls_key becomes the new root.
-        new_hints = {
-            _remove_prefix(cls_key, key): meta_hints[key]
-            for key in meta_hints
-        }
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
     value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
-- 
2.43.0


From 803b3f5c71f42f2062ec6f915e24055066510c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:00 +0000
Subject: [PATCH 35/42] fix: honor class metadata of attributes that are not
 constructor arguments

---
 jsons/deserializers/default_object.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index da4ee11..94fd0e8 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -91,7 +91,7 @@ def _get_value_for_attr(
     # Find a value for the attribute (with signature sig_key).
     if obj and sig_key in obj:
         # This argument is in obj.
-        result = sig_key, _get_value_from_obj(obj, cls, sig, sig_key,
+        result = sig_key, _get_value_from_obj(obj, cls, sig_key,
                                               meta_hints, **kwargs)
     elif sig_key in attr_getters:
         # There exists an attr_getter for this argument.
@@ -122,7 +122,7 @@ def _get_nested_hints(attr_key: str, meta_hints: dict) -> dict:
     }
 
 
-def _get_value_from_obj(obj, cls, sig, sig_key, meta_hints, **kwargs):
+def _get_value_from_obj(obj, cls, sig_key, meta_hints, **kwargs):
     # Obtain the value for the attribute with the given signature from the
     # given obj. Try to obtain the class of this attribute from the meta info
     # or from type hints.
@@ -160,7 +160,8 @@ def _set_remaining_attrs(instance,
                             .format(attr_name), 'hashed-keys-without-hint')
         attr_type = attr_type or type(remaining_attrs[attr_name])
 
-        loaded_attr = load(remaining_attrs[attr_name], attr_type, **kwargs)
+        loaded_attr = _get_value_from_obj(remaining_attrs, attr_type,
+                                          attr_name, **kwargs)
         try:
             setattr(instance, attr_name, loaded_attr)
         except AttributeError:
-- 
2.43.0


From a28ae664f59f259f465cfd2836b0172f226a9ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:23 +0000
Subject: [PATCH 36/42] fix: accept None for fields of named tuples that allow
 it, e.g. Any

---
 jsons/deserializers/default_tuple.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index c9923ba..cff4c76 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -2,9 +2,8 @@ from typing import Callable, Optional, Union
 
 from typish import get_args
 
-from jsons._common_impl import NoneType
-from jsons._compatibility_impl import (get_type_hints, get_union_params,
-                                       tuple_with_ellipsis)
+from jsons._common_impl import can_match_with_none
+from jsons._compatibility_impl import get_type_hints, tuple_with_ellipsis
 from jsons._load_impl import load
 from jsons.exceptions import UnfulfilledArgumentError
 
@@ -75,7 +74,7 @@ def default_namedtuple_deserializer(
 
         if field is None:
             hint = field_types.get(field_name)
-            if NoneType not in (get_union_params(hint) or []):
+            if not hint or not can_match_with_none(hint):
                 # The value 'None' is not permitted here.
                 msg = ('No value present in {} for argument "{}"'
                        .format(obj, field_name))
-- 
2.43.0


From a49b90eef75c95fe419c58c093c87fef9ef29563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 37/42] fix: keep all entries of a dict with hashed keys

---
 jsons/serializers/default_dict.py | 32 ++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/jsons/serializers/default_dict.py b/jsons/serializers/default_dict.py
index 3f04af1..7b91052 100644
--- a/jsons/serializers/default_dict.py
+++ b/jsons/serializers/default_dict.py
@@ -37,35 +37,39 @@ def default_dict_serializer(
         obj_ = obj[key]
         cls_ = types.get(key, None)
 
+        dumped_elem = dump(obj_,
+                           cls=cls_,
+                           key_transformer=key_transformer,
+                           strip_nulls=strip_nulls,
+                           strict=strict,
+                           **kwargs)
+        if strip_nulls and dumped_elem is None:
+            continue
+
         # If key is not a valid json type, use the hash as key and store the
         # original key in a separate section.
-        dict_and_key = _store_and_hash(result, key,
+        dict_and_key = _store_and_hash(result, key, obj,
                                        key_transformer=key_transformer,
                                        strip_nulls=strip_nulls, strict=strict,
                                        types=types, **kwargs)
         if dict_and_key:
             result, key = dict_and_key
-
-        dumped_elem = dump(obj_,
-                           cls=cls_,
-                           key_transformer=key_transformer,
-                           strip_nulls=strip_nulls,
-                           strict=strict,
-                           **kwargs)
-        if not (strip_nulls and dumped_elem is None):
-            if key_transformer:
-                key = key_transformer(key)
-            result[key] = dumped_elem
+        is_hash = dict_and_key is not None and isinstance(key, int)
+        if key_transformer and not is_hash:
+            key = key_transformer(key)
+        result[key] = dumped_elem
     return result
 
 
 def _store_and_hash(
         obj: dict,
         key: object,
+        source: dict,
         **kwargs
 ) -> Optional[Tuple[dict, int]]:
     # Store the given key in the given dict under a special section if that
-    # key is not a valid json key. Return a hash of that key.
+    # key is not a valid json key. Return a hash of that key that is unique
+    # among the keys of the given dict and of the source.
     result = None
     if not _is_valid_json_key(key):
         # First try to dump the key, that might be enough already.
@@ -76,6 +80,8 @@ def _store_and_hash(
             key_hash = hash(key)
             obj_ = {**obj}
             obj_.setdefault('-keys', {})
+            while key_hash in obj_['-keys'] or key_hash in source:
+                key_hash += 1  # Another key has this hash (or is this hash).
             obj_['-keys'][key_hash] = dumped_key
             result = obj_, key_hash
     return result
-- 
2.43.0


From 61ed10a18e5e567d34665c8b9f4426e219554488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:45 +0000
Subject: [PATCH 38/42] fix: chain a validation error to the error of the
 validator

---
 jsons/_validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_validation.py b/jsons/_validation.py
index f5bf8f8..c358911 100644
--- a/jsons/_validation.py
+++ b/jsons/_validation.py
@@ -65,12 +65,14 @@ def validate(
     validator = get_validator(cls, fork_inst)
     result = True
     msg = 'Validation failed.'
+    cause = None
     if validator:
         try:
             result = validator(obj)
         except Exception as err:
             if err.args:
                 msg = err.args[0]
+            cause = err
             result = False
     if not result:
-        raise ValidationError(msg)
+        raise ValidationError(msg) from cause
-- 
2.43.0


From f4cb2fed1b0b5c826985920299925c9c60c1b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:06 +0000
Subject: [PATCH 39/42] fix: let class metadata precede the type hints of all
 elements and attributes

---
 jsons/deserializers/default_dict.py   | 5 ++++-
 jsons/deserializers/default_object.py | 5 ++++-
 jsons/deserializers/default_tuple.py  | 9 +++++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/jsons/deserializers/default_dict.py b/jsons/deserializers/default_dict.py
index f6b3ae2..8941c45 100644
--- a/jsons/deserializers/default_dict.py
+++ b/jsons/deserializers/default_dict.py
@@ -49,9 +49,10 @@ def _load_hashed_keys(
         result = {**obj}
         original_keys = result.pop('-keys')
         key_type = cls_args[0]
+        kwargs_k = {**kwargs, '_inferred_cls': True}
         for key in stored_keys:
             # Get the original (unhashed) key and load it.
-            loaded_key = load(original_keys[key], cls=key_type, **kwargs)
+            loaded_key = load(original_keys[key], cls=key_type, **kwargs_k)
 
             # Replace the hashed key by the loaded key entirely.
             result[loaded_key] = result[key]
@@ -73,6 +74,8 @@ def _deserialize(
     if len(cls_args) == 2:
         cls_k, cls_v = cls_args
         kwargs_['cls'] = cls_v
+        # Mark the cls as 'inferred', so that metadata takes precedence.
+        kwargs_['_inferred_cls'] = True
         if not keys_were_hashed:
             # In case of cls is something like Dict[<key>, <value>], we need to
             # ensure that the keys in the result are <key>. If the keys were
diff --git a/jsons/deserializers/default_object.py b/jsons/deserializers/default_object.py
index 94fd0e8..55011b9 100644
--- a/jsons/deserializers/default_object.py
+++ b/jsons/deserializers/default_object.py
@@ -135,7 +135,10 @@ def _get_value_from_obj(obj, cls, sig_key, meta_hints, **kwargs):
             cls_str_from_meta, obj, kwargs['fork_inst'])
     cls_ = determine_precedence(cls=cls, cls_from_meta=cls_from_meta,
                                 cls_from_type=None, inferred_cls=True)
-    value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs)
+    # Mark the cls as 'inferred', so that any metadata of the value itself takes
+    # precedence over it.
+    kwargs_ = {**kwargs, '_inferred_cls': True}
+    value = load(obj[sig_key], cls_, meta_hints=new_hints, **kwargs_)
     return value
 
 
diff --git a/jsons/deserializers/default_tuple.py b/jsons/deserializers/default_tuple.py
index cff4c76..9f2d9e2 100644
--- a/jsons/deserializers/default_tuple.py
+++ b/jsons/deserializers/default_tuple.py
@@ -28,8 +28,10 @@ def default_tuple_deserializer(obj: list,
         tuple_types = getattr(cls, '__tuple_params__', cls_args)
         if tuple_with_ellipsis(cls):
             tuple_types = [tuple_types[0]] * len(obj)
+        # Mark the types as 'inferred', so that metadata takes precedence.
+        kwargs_ = {**kwargs, '_inferred_cls': True}
         list_ = [load(value, tuple_types[i], key_transformer=key_transformer,
-                      **kwargs)
+                      **kwargs_)
                  for i, value in enumerate(obj)]
     else:
         list_ = [load(value, key_transformer=key_transformer, **kwargs)
@@ -57,6 +59,9 @@ def default_namedtuple_deserializer(
     else:
         values = dict(zip(cls._fields, obj))
 
+    # Mark the types of the fields as 'inferred', so that metadata takes
+    # precedence.
+    kwargs_ = {**kwargs, '_inferred_cls': True}
     args = []
     for field_name in cls._fields:
         if field_name not in values and field_name in cls._field_defaults:
@@ -80,7 +85,7 @@ def default_namedtuple_deserializer(
                        .format(obj, field_name))
                 raise UnfulfilledArgumentError(msg, field_name, obj, cls)
         cls_ = field_types.get(field_name) if field_types else None
-        loaded_field = load(field, cls_, key_transformer=key_transformer, **kwargs)
+        loaded_field = load(field, cls_, key_transformer=key_transformer, **kwargs_)
         args.append(loaded_field)
     inst = cls(*args)
     return inst
-- 
2.43.0


From f6b3294ae09b6762ad8c72c88fff9e4f3468cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:08 +0000
Subject: [PATCH 40/42] fix: allow numeric dict keys in verbose dumps

---
 jsons/serializers/default_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/jsons/serializers/default_object.py b/jsons/serializers/default_object.py
index 42038ef..dbdc28e 100644
--- a/jsons/serializers/default_object.py
+++ b/jsons/serializers/default_object.py
@@ -295,11 +295,12 @@ def _fill_collection_of_types(
     cls_name_ = _get_class_name_and_strip_cls(cls_name_, obj_)
     for attr in obj_:
         if attr != META_ATTR and isinstance(obj_[attr], dict):
+            path = '{}{}'.format(prefix, attr)  # attr may be a number.
             attr_class = _fill_collection_of_types(obj_[attr],
                                                    None,
-                                                   prefix + attr + '/',
+                                                   path + '/',
                                                    collection_of_types_)
-            collection_of_types_[prefix + attr] = attr_class
+            collection_of_types_[path] = attr_class
     return cls_name_
 
 
-- 
2.43.0


From 3b312e44ff0a44b7cba388916d930281955769be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 41/42] fix: do not write a time zone named UTC that has an
 offset with a Z

---
 jsons/_datetime_impl.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jsons/_datetime_impl.py b/jsons/_datetime_impl.py
index 3d621b8..cb892f0 100644
--- a/jsons/_datetime_impl.py
+++ b/jsons/_datetime_impl.py
@@ -72,7 +72,9 @@ def _datetime_offset_str(obj: datetime, fork_inst: type) -> str:
         if not tzone.utcoffset(None):
             return '+00:00'
     offset = 'Z'
-    if tzone.tzname(None) not in ('UTC', 'UTC+00:00'):
+    # A timezone that is not UTC may have been given that name.
+    if (tzone.tzname(None) not in ('UTC', 'UTC+00:00')
+            or tzone.utcoffset(None)):
         tdelta = tzone.utcoffset(None) or \
                  getattr(tzone, 'adjusted_offset', tzone.utcoffset(obj))
         offset = _timedelta_offset_str(tdelta)
-- 
2.43.0


From 7e5696900b16e90d492046f0e566866b3f982498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:06 +0000
Subject: [PATCH 42/42] fix: do not turn a string into a datetime if a string
 type is asked for

---
 jsons/deserializers/default_string.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/jsons/deserializers/default_string.py b/jsons/deserializers/default_string.py
index b20733e..b455c3b 100644
--- a/jsons/deserializers/default_string.py
+++ b/jsons/deserializers/default_string.py
@@ -13,13 +13,17 @@ def default_string_deserializer(obj: str,
     Deserialize a string. If the given ``obj`` can be parsed to a date, a
     ``datetime`` instance is returned.
     :param obj: the string that is to be deserialized.
-    :param cls: not used.
+    :param cls: the type that is asked for. If this is a string type (e.g.
+    ``str`` or a subclass), then ``obj`` is not parsed to a date.
     :param kwargs: any keyword arguments.
     :return: the deserialized obj.
     """
-    target_is_str = cls is str and not kwargs.get('_inferred_cls')
+    # The supertype of NewType('Name', str) is str.
+    target = getattr(cls, '__supertype__', cls)
+    target_is_str = (isinstance(target, type) and issubclass(target, str)
+                     and not kwargs.get('_inferred_cls'))
     if target_is_str:
-        return str(obj)
+        return cls(str(obj))
     try:
         result = load(obj, datetime, **kwargs)
     except DeserializationError:
-- 
2.43.0

