From 11594332c4beb02c5e3b0397b876bbfb573a5391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 01/77] fix: index 0 on an empty list in a parameter reference
 is an expression error

---
 src/cwl_utils/sandboxjs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index ab4b624..d22dbb0 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -567,7 +567,7 @@ class NodeJSEngine(JSEngine):
                         "%s is a %s, cannot index on int '%s'"
                         % (parsed_string, type(current_value).__name__, key)
                     )
-                if key and key >= len(current_value):
+                if key >= len(current_value):
                     raise WorkflowException(
                         "%s list index %i out of range" % (parsed_string, key)
                     )
-- 
2.43.0


From 50baf45e72746873e8df1a79a42060e73772a34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:57 +0000
Subject: [PATCH 02/77] fix: convert every byte string of a list, not only the
 first

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index bfae73d..4cada5e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -74,7 +74,7 @@ def bytes2str_in_dicts(
     if isinstance(inp, MutableSequence):
         for idx, value in enumerate(inp):
             inp[idx] = bytes2str_in_dicts(value)
-            return inp
+        return inp
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From f61b439b7e1222ffb9cf724aac1d03ca7287baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 03/77] fix: compare the types of several sources with each
 other, after scatter

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 23 ++++++++---------------
 src/cwl_utils/parser/cwl_v1_1_utils.py | 23 ++++++++---------------
 src/cwl_utils/parser/cwl_v1_2_utils.py | 23 ++++++++---------------
 3 files changed, 24 insertions(+), 45 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index f80c74b..4d30649 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -27,7 +27,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
@@ -332,21 +332,14 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
-            cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
-            cur_type = p.type_
-        else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+        cur_type = p if isinstance(p, str) else p.type_
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 838922e..f412d83 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -58,7 +58,7 @@ def _compare_records(
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
@@ -414,21 +414,14 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
-            cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
-            cur_type = p.type_
-        else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+        cur_type = p if isinstance(p, str) else p.type_
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index e0f94e2..cef1127 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -28,7 +28,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
@@ -447,21 +447,14 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
-            cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
-            cur_type = p.type_
-        else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+        cur_type = p if isinstance(p, str) else p.type_
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
-- 
2.43.0


From 7dbb51dc3c230fb86ad9d57e09f7ed1bbccc73a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:52 +0000
Subject: [PATCH 04/77] fix: link enum types by their symbols instead of by
 object equality

---
 src/cwl_utils/parser/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 2669616..5c9f1f8 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -8,7 +8,7 @@ from typing import Any, cast, Literal
 from urllib.parse import unquote_plus, urlparse
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import file_uri, shortname, save
 from schema_salad.sourceline import SourceLine, strip_dup_lineno
 from schema_salad.utils import json_dumps, yaml_no_ts
@@ -93,6 +93,12 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        src_symbols = {shortname(symbol) for symbol in src.symbols}
+        sink_symbols = {shortname(symbol) for symbol in sink.symbols}
+        if strict:
+            return src_symbols <= sink_symbols
+        return not src_symbols.isdisjoint(sink_symbols)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-- 
2.43.0


From 27f4125c06c9fe358ca0d81bf3b9130242ab1719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:10 +0000
Subject: [PATCH 05/77] fix: find the type of a step input by the name of the
 process input

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 5 ++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 5 ++++-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 4d30649..03694bc 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -269,7 +269,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index f412d83..8a2aa0c 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -351,7 +351,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index cef1127..792f5d7 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -379,7 +379,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
-- 
2.43.0


From 44fe5fda14f7bfb1937c50533f47fba54fbde69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:10 +0000
Subject: [PATCH 06/77] fix: check every link of a source list, and linkMerge
 on a single link (v1.0, v1.1)

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 16 +++++-----------
 src/cwl_utils/parser/cwl_v1_1_utils.py | 16 +++++-----------
 2 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 03694bc..722ff86 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -128,21 +128,15 @@ def check_all_types(
             case _:
                 continue
         if sourceField is not None:
-            if isinstance(sourceField, MutableSequence):
-                linkMerge = sink.linkMerge or (
-                    "merge_nested" if len(sourceField) > 1 else None
-                )
-                srcs_of_sink = []
-                for parm_id in sourceField:
-                    srcs_of_sink += [src_dict[parm_id]]
-            else:
-                parm_id = cast(str, sourceField)
+            sources = aslist(sourceField)
+            linkMerge = sink.linkMerge or ("merge_nested" if len(sources) > 1 else None)
+            srcs_of_sink = []
+            for parm_id in sources:
                 if parm_id not in src_dict:
                     raise SourceLine(sink, sourceName, ValidationException).makeError(
                         f"{sourceName} not found: {parm_id}"
                     )
-                srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                srcs_of_sink.append(src_dict[parm_id])
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 8a2aa0c..0bbc47a 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -194,21 +194,15 @@ def check_all_types(
             case _:
                 continue
         if sourceField is not None:
-            if isinstance(sourceField, MutableSequence):
-                linkMerge = sink.linkMerge or (
-                    "merge_nested" if len(sourceField) > 1 else None
-                )
-                srcs_of_sink = []
-                for parm_id in sourceField:
-                    srcs_of_sink += [src_dict[parm_id]]
-            else:
-                parm_id = cast(str, sourceField)
+            sources = aslist(sourceField)
+            linkMerge = sink.linkMerge or ("merge_nested" if len(sources) > 1 else None)
+            srcs_of_sink = []
+            for parm_id in sources:
                 if parm_id not in src_dict:
                     raise SourceLine(sink, sourceName, ValidationException).makeError(
                         f"{sourceName} not found: {parm_id}"
                     )
-                srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                srcs_of_sink.append(src_dict[parm_id])
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
-- 
2.43.0


From c8edcd01343b5a8bc93258c4c8c4496adeab2bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 07/77] fix: a source's type for one link no longer leaks into
 other links (v1.2)

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 97 ++++++++++----------------
 src/cwl_utils/parser/utils.py          |  7 +-
 2 files changed, 40 insertions(+), 64 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 792f5d7..ddb3ec7 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -24,7 +24,7 @@ CONTENT_LIMIT: int = 64 * 1024
 
 _logger = logging.getLogger("cwl_utils")
 
-SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
+SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message", "src_type"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
@@ -153,93 +153,66 @@ def check_all_types(
             case _:
                 continue
         if sourceField is not None:
-            if isinstance(sourceField, MutableSequence) and len(sourceField) > 1:
-                linkMerge: str | None = sink.linkMerge or (
-                    "merge_nested" if len(sourceField) > 1 else None
-                )
-                if sink.pickValue in ("first_non_null", "the_only_non_null"):
-                    linkMerge = None
-                srcs_of_sink = []
-                for parm_id in sourceField:
-                    srcs_of_sink += [src_dict[parm_id]]
-                    if (
-                        _is_conditional_step(param_to_step, parm_id)
-                        and sink.pickValue is None
-                    ):
-                        src_typ = aslist(type_dict[src_dict[parm_id].id])
-                        if "null" not in src_typ:
-                            src_typ = ["null"] + cast(list[Any], src_typ)
-                        if (
-                            not isinstance(sink_type, MutableSequence)
-                            or "null" not in sink_type
-                        ):
-                            validation["warning"].append(
-                                SrcSink(
-                                    src_dict[parm_id],
-                                    sink,
-                                    linkMerge,
-                                    message="Source is from conditional step, but pickValue is not used",
-                                )
-                            )
-                        type_dict[src_dict[parm_id].id] = src_typ
-                    if _is_all_output_method_loop_step(param_to_step, parm_id):
-                        src_typ = type_dict[src_dict[parm_id].id]
-                        type_dict[src_dict[parm_id].id] = ArraySchema(
-                            items=src_typ, type_="array"
-                        )
-            else:
-                if isinstance(sourceField, MutableSequence):
-                    parm_id = cast(str, sourceField[0])
-                else:
-                    parm_id = cast(str, sourceField)
+            sources = aslist(sourceField)
+            linkMerge: str | None = sink.linkMerge or (
+                "merge_nested" if len(sources) > 1 else None
+            )
+            if sink.pickValue in ("first_non_null", "the_only_non_null"):
+                linkMerge = None
+            srcs_of_sink: list[tuple[Any, Any]] = []
+            for parm_id in sources:
                 if parm_id not in src_dict:
                     raise SourceLine(sink, sourceName, ValidationException).makeError(
                         f"{sourceName} not found: {parm_id}"
                     )
-                srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
-                if sink.pickValue is not None:
+                src = src_dict[parm_id]
+                # The type is specific to this link: other sinks may share the source
+                src_typ = type_dict[src.id]
+                if len(sources) == 1 and sink.pickValue is not None:
                     validation["warning"].append(
                         SrcSink(
-                            src_dict[parm_id],
+                            src,
                             sink,
                             linkMerge,
-                            message="pickValue is used but only a single input source is declared",
+                            "pickValue is used but only a single input source is declared",
+                            src_typ,
                         )
                     )
-                if _is_conditional_step(param_to_step, parm_id):
-                    src_typ = aslist(type_dict[src_dict[parm_id].id])
-                    snk_typ = type_dict[sink.id]
-                    if "null" not in src_typ:
-                        src_typ = ["null"] + cast(list[Any], src_typ)
+                if _is_conditional_step(param_to_step, parm_id) and (
+                    len(sources) == 1 or sink.pickValue is None
+                ):
+                    if "null" not in aslist(src_typ):
+                        src_typ = ["null"] + cast(list[Any], aslist(src_typ))
                     if (
-                        not isinstance(snk_typ, MutableSequence)
-                        or "null" not in snk_typ
+                        not isinstance(sink_type, MutableSequence)
+                        or "null" not in sink_type
                     ):
                         validation["warning"].append(
                             SrcSink(
-                                src_dict[parm_id],
+                                src,
                                 sink,
                                 linkMerge,
-                                message="Source is from conditional step and may produce `null`",
+                                (
+                                    "Source is from conditional step and may produce `null`"
+                                    if len(sources) == 1
+                                    else "Source is from conditional step, but pickValue is not used"
+                                ),
+                                src_typ,
                             )
                         )
-                    type_dict[src_dict[parm_id].id] = src_typ
                 if _is_all_output_method_loop_step(param_to_step, parm_id):
-                    src_typ = type_dict[src_dict[parm_id].id]
-                    type_dict[src_dict[parm_id].id] = ArraySchema(
-                        items=src_typ, type_="array"
-                    )
-            for src in srcs_of_sink:
+                    src_typ = ArraySchema(items=src_typ, type_="array")
+                srcs_of_sink.append((src, src_typ))
+            for src, src_typ in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
-                    type_dict[cast(str, src.id)],
+                    src_typ,
                     sink_type,
                     linkMerge,
                     getattr(sink, "valueFrom", None),
                 )
                 if check_result in ("warning", "exception"):
                     validation[check_result].append(
-                        SrcSink(src, sink, linkMerge, extra_message)
+                        SrcSink(src, sink, linkMerge, extra_message, src_typ)
                     )
     return validation
 
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 5c9f1f8..3f4f053 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -448,7 +448,7 @@ def static_checker(workflow: Workflow) -> None:
                 "Source '%s' of type %s may be incompatible"
                 % (
                     shortname(src.id),
-                    json_dumps(save(type_dict[src.id])),
+                    json_dumps(save(getattr(warning, "src_type", type_dict[src.id]))),
                 )
             )
             + "\n"
@@ -480,7 +480,10 @@ def static_checker(workflow: Workflow) -> None:
         msg = (
             SourceLine(src, "type").makeError(
                 "Source '%s' of type %s is incompatible"
-                % (shortname(src.id), json_dumps(save(type_dict[src.id])))
+                % (
+                    shortname(src.id),
+                    json_dumps(save(getattr(exception, "src_type", type_dict[src.id]))),
+                )
             )
             + "\n"
             + SourceLine(sink, "type").makeError(
-- 
2.43.0


From 90753f65ce77627db9d95158c499a96158052c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:35 +0000
Subject: [PATCH 08/77] fix: a character across the 64 KiB limit is cut off,
 not a decoding error (v1.0, v1.1)

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 8 ++++++--
 src/cwl_utils/parser/cwl_v1_1_utils.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 722ff86..d2262cc 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -162,9 +163,12 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
     """
     Read file content up to 64 kB as an utf-8 encoded string.
 
-    Truncate content for larger files.
+    Truncate content for larger files, never within a character.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    return codecs.getincrementaldecoder("utf-8")().decode(
+        contents, len(contents) < CONTENT_LIMIT
+    )
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 0bbc47a..34ff2d6 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -228,9 +229,12 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
     """
     Read file content up to 64 kB as an utf-8 encoded string.
 
-    Truncate content for larger files.
+    Truncate content for larger files, never within a character.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    return codecs.getincrementaldecoder("utf-8")().decode(
+        contents, len(contents) < CONTENT_LIMIT
+    )
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
-- 
2.43.0


From 750c48ec7f8a14f3a04991e554c4c2c89a3a9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 09/77] fix: entries of a map that are aliases of one another
 keep their own ids

---
 src/cwl_utils/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 4cada5e..28aaf08 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -157,6 +157,8 @@ def normalize_to_list(
                 if value_field is None:
                     raise RuntimeError(f"Expecting a dict here, got {v}")
                 v = {value_field: v}
+            # entries can be aliases of one another (YAML anchors)
+            v = deepcopy(v)
             v.update({key_field: k})
             map_list += [v]
         return map_list
-- 
2.43.0


From f4a49b72b861d1372556e68323b8e7d083aa850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 10/77] fix: pack also strips the # of the sources in a list

---
 src/cwl_utils/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c90dd50..34bd3b0 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -117,6 +117,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
                 _src = _input.get("source")
                 if isinstance(_src, str):
                     _input["source"] = _normalize(_input["source"])
+                elif isinstance(_src, list):
+                    _input["source"] = [_normalize(s) for s in _src]
 
     _outputs = cwl.get("outputs", {})
     for k, _output in enumerate(_outputs):
@@ -126,6 +128,8 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
             _src = _output.get("outputSource")
             if isinstance(_src, str):
                 _output["outputSource"] = _normalize(_output["outputSource"])
+            elif isinstance(_src, list):
+                _output["outputSource"] = [_normalize(s) for s in _src]
 
     return cwl
 
-- 
2.43.0


From 020a51c25ceca5dc586965e3642bf49e12236c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:29 +0000
Subject: [PATCH 11/77] fix: imports within an imported file are relative to
 that file

---
 src/cwl_utils/pack.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 34bd3b0..03658f9 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -178,6 +178,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
         return cwl
 
     for k, v in itr:
+        this_base_url = base_url
         if isinstance(v, dict):
             if len(v) == 1:
                 _k = list(v.keys())[0]
@@ -186,7 +187,7 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
                         base_url, v[_k], is_import=_k == "$import"
                     )
 
-        cwl[k] = resolve_imports(cwl[k], base_url)
+        cwl[k] = resolve_imports(cwl[k], this_base_url)
 
     return cwl
 
-- 
2.43.0


From 301cee975002e7efb4b57ca178cb2f3298a95771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 12/77] fix: the query and the host of a relative link are kept
 for remote documents

---
 src/cwl_utils/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 28aaf08..4b34d4a 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -203,7 +203,9 @@ def resolved_path(
         else:
             # Remote relative path
             return urllib.parse.urlparse(
-                urllib.parse.urljoin(base_url.geturl(), link_url.path)
+                urllib.parse.urljoin(
+                    base_url.geturl(), link_url._replace(fragment="").geturl()
+                )
             )
             # We need urljoin because we need to resolve relative links in a
             # platform independent manner
-- 
2.43.0


From c39ff03f1d86b0d58ddb4f03781d57de7cff037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:42 +0000
Subject: [PATCH 13/77] fix: a relative link that leaves the current directory
 is not cut short

---
 src/cwl_utils/utils.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 4b34d4a..9951b64 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -2,6 +2,7 @@
 """Miscellaneous utility functions."""
 
 import pathlib
+import posixpath
 import subprocess  # nosec
 import sys
 import urllib.error
@@ -196,10 +197,19 @@ def resolved_path(
             # Local relative path
             if link == "":
                 return base_url
-            else:
+            elif not link_url.path or posixpath.isabs(base_url.path):
                 return urllib.parse.urlparse(
                     urllib.parse.urljoin(base_url.geturl(), link_url.geturl())
                 )
+            else:
+                # urljoin would drop a ".." that leaves the current directory
+                return link_url._replace(
+                    path=posixpath.normpath(
+                        posixpath.join(
+                            posixpath.dirname(base_url.path), link_url.path
+                        )
+                    )
+                )
         else:
             # Remote relative path
             return urllib.parse.urlparse(
-- 
2.43.0


From f3eaf4ed719634082d6801a7219ea9439148d78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 14/77] fix: only the extension .cwl is left out of the names
 of the split files

---
 src/cwl_utils/graph_split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8a1ef14..8fae43c 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -145,7 +145,7 @@ def graph_split(
             else:
                 entry_id = mainfile
 
-        output_file = output_dir / (re.sub(".cwl$", "", entry_id) + ".cwl")
+        output_file = output_dir / (re.sub(r"\.cwl$", "", entry_id) + ".cwl")
         if output_format == "json":
             json_dump(entry, output_file)
         elif output_format == "yaml":
@@ -179,8 +179,8 @@ def rewrite(
         for key, value in document.items():
             with SourceLine(document, key, Exception):
                 match key:
-                    case "run" if isinstance(value, str) and value[0] == "#":
-                        document[key] = f"{re.sub('.cwl$', '', value[1:])}.cwl"
+                    case "run" if isinstance(value, str) and value.startswith("#"):
+                        document[key] = re.sub(r"\.cwl$", "", value[1:]) + ".cwl"
                     case "id" | "outputSource" if value.startswith("#" + doc_id):
                         document[key] = value[len(doc_id) + 2 :]
                     case "out" if isinstance(value, list):
-- 
2.43.0


From 0811946ec2c8f7a9e20504aa5ca9ad44fb394784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 15/77] fix: graph_split rewrites whole identifiers only, and
 references in every form

---
 src/cwl_utils/graph_split.py | 51 ++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8fae43c..dd79944 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -155,17 +155,24 @@ def graph_split(
 
 def rewrite_id(entry: Any, this_id: str | None) -> MutableMapping[Any, Any] | str:
     if isinstance(entry, MutableMapping):
-        if entry["id"].startswith(this_id):
-            assert isinstance(this_id, str)  # nosec B101
+        if this_id and entry["id"].startswith(f"{this_id}/"):
             entry["id"] = cast(str, entry["id"])[len(this_id) + 1 :]
         return entry
     elif isinstance(entry, str):
-        if this_id and entry.startswith(this_id):
+        if this_id and entry.startswith(f"{this_id}/"):
             return entry[len(this_id) + 1 :]
         return entry
     raise Exception(f"{entry} is neither a dictionary nor string.")
 
 
+def rewrite_reference(value: str, doc_id: str) -> str:
+    """Make a reference relative to the file of the document that contains it."""
+    if value.startswith("#") and "/" in value:
+        referrant_file, sub = value[1:].split("/", 1)
+        return sub if referrant_file == doc_id else f"{referrant_file}#{sub}"
+    return value
+
+
 def rewrite(
     document: Any, doc_id: str, output_dir: Path, pretty: bool = False
 ) -> set[str]:
@@ -181,31 +188,29 @@ def rewrite(
                 match key:
                     case "run" if isinstance(value, str) and value.startswith("#"):
                         document[key] = re.sub(r"\.cwl$", "", value[1:]) + ".cwl"
-                    case "id" | "outputSource" if value.startswith("#" + doc_id):
-                        document[key] = value[len(doc_id) + 2 :]
+                    case "id" if isinstance(value, str):
+                        if value.startswith(f"#{doc_id}/"):
+                            document[key] = value[len(doc_id) + 2 :]
                     case "out" if isinstance(value, list):
                         document[key][:] = [
                             rewrite_id(entry, this_id) for entry in value
                         ]
-                    case "source" | "scatter" | "items" | "format":
-                        if (
-                            isinstance(value, str)
-                            and value.startswith("#")
-                            and "/" in value
-                        ):
-                            referrant_file, sub = value[1:].split("/", 1)
-                            if referrant_file == doc_id:
-                                document[key] = sub
-                            else:
-                                document[key] = f"{referrant_file}#{sub}"
+                    case "source" | "outputSource" | "scatter" | "items" | "format":
+                        if isinstance(value, str):
+                            document[key] = rewrite_reference(value, doc_id)
                         elif isinstance(value, list):
-                            new_sources = []
-                            for entry in value:
-                                if entry.startswith("#" + doc_id):
-                                    new_sources.append(entry[len(doc_id) + 2 :])
-                                else:
-                                    new_sources.append(entry)
-                            document[key] = new_sources
+                            document[key] = [
+                                (
+                                    rewrite_reference(entry, doc_id)
+                                    if isinstance(entry, str)
+                                    else entry
+                                )
+                                for entry in value
+                            ]
+                        # not a reference, but something that contains references
+                        imports.update(
+                            rewrite(document[key], doc_id, output_dir, pretty)
+                        )
                     case "$import":
                         rewrite_import(document)
                     case "class" if value == "SchemaDefRequirement":
-- 
2.43.0


From fd917f2e623b273cf166eb6434ab69db5edcb561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:51 +0000
Subject: [PATCH 16/77] fix: types shared by the processes of a graph stay
 readable and referable after the split

---
 src/cwl_utils/graph_split.py | 98 +++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 47 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index dd79944..b0f56f5 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -132,13 +132,11 @@ def graph_split(
 
     RoundTripRepresenter.add_representer(type(None), my_represent_none)
 
+    schemas: dict[str, dict[str, Any]] = {}
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
         entry["cwlVersion"] = version
-        imports = rewrite(entry, entry_id, output_dir)
-        if imports:
-            for import_name in imports:
-                rewrite_types(entry, f"#{import_name}", False)
+        rewrite(entry, entry_id, output_dir, schemas=schemas)
         if entry_id == "main":
             if mainfile is None:
                 entry_id = f"unpacked_{os.path.basename(sourceIO.name)}"
@@ -174,14 +172,24 @@ def rewrite_reference(value: str, doc_id: str) -> str:
 
 
 def rewrite(
-    document: Any, doc_id: str, output_dir: Path, pretty: bool = False
+    document: Any,
+    doc_id: str,
+    output_dir: Path,
+    pretty: bool = False,
+    schemas: dict[str, dict[str, Any]] | None = None,
 ) -> set[str]:
-    """Rewrite the given element from the CWL $graph."""
+    """
+    Rewrite the given element from the CWL $graph.
+
+    :param schemas: the types written so far, by file and name
+    """
     imports = set()
     if isinstance(document, list) and not isinstance(document, str):
         for entry in document:
-            imports.update(rewrite(entry, doc_id, output_dir, pretty))
+            imports.update(rewrite(entry, doc_id, output_dir, pretty, schemas))
     elif isinstance(document, dict):
+        if document.get("class") == "SchemaDefRequirement":
+            return rewrite_schemadef(document, output_dir, pretty, doc_id, schemas)
         this_id = document["id"] if "id" in document else None
         for key, value in document.items():
             with SourceLine(document, key, Exception):
@@ -195,7 +203,14 @@ def rewrite(
                         document[key][:] = [
                             rewrite_id(entry, this_id) for entry in value
                         ]
-                    case "source" | "outputSource" | "scatter" | "items" | "format":
+                    case (
+                        "source"
+                        | "outputSource"
+                        | "scatter"
+                        | "items"
+                        | "type"
+                        | "format"
+                    ):
                         if isinstance(value, str):
                             document[key] = rewrite_reference(value, doc_id)
                         elif isinstance(value, list):
@@ -209,14 +224,20 @@ def rewrite(
                             ]
                         # not a reference, but something that contains references
                         imports.update(
-                            rewrite(document[key], doc_id, output_dir, pretty)
+                            rewrite(document[key], doc_id, output_dir, pretty, schemas)
                         )
                     case "$import":
                         rewrite_import(document)
-                    case "class" if value == "SchemaDefRequirement":
-                        return rewrite_schemadef(document, output_dir, pretty)
+                    case "SchemaDefRequirement" if "types" in value:
+                        imports.update(
+                            rewrite_schemadef(
+                                value, output_dir, pretty, doc_id, schemas
+                            )
+                        )
                     case _:
-                        imports.update(rewrite(value, doc_id, output_dir, pretty))
+                        imports.update(
+                            rewrite(value, doc_id, output_dir, pretty, schemas)
+                        )
     return imports
 
 
@@ -226,49 +247,32 @@ def rewrite_import(document: MutableMapping[str, Any]) -> None:
     document["$import"] = external_file
 
 
-def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
-    """Clean up the names of the types."""
-    if isinstance(field, list) and not isinstance(field, str):
-        for entry in field:
-            rewrite_types(entry, entry_file, sameself)
-        return
-    if isinstance(field, dict):
-        for key, value in field.items():
-            for name in ("type", "items"):
-                if key == name:
-                    if isinstance(value, str) and value.startswith(entry_file):
-                        if sameself:
-                            field[key] = value[len(entry_file) + 1 :]
-                        else:
-                            field[key] = "{d[0]}#{d[1]}".format(
-                                d=value[1:].split("/", 1)
-                            )
-            if isinstance(value, dict):
-                rewrite_types(value, entry_file, sameself)
-            if isinstance(value, list) and not isinstance(value, str):
-                for entry in value:
-                    rewrite_types(entry, entry_file, sameself)
-
-
 def rewrite_schemadef(
-    document: MutableMapping[str, Any], output_dir: Path, pretty: bool = False
+    document: MutableMapping[str, Any],
+    output_dir: Path,
+    pretty: bool = False,
+    doc_id: str | None = None,
+    schemas: dict[str, dict[str, Any]] | None = None,
 ) -> set[str]:
-    """Dump the schemadefs to their own file."""
+    """Dump the schemadefs to their own file, except for those of the document itself."""
+    if schemas is None:
+        schemas = {}
     for entry in document["types"]:
         if "$import" in entry:
             rewrite_import(entry)
         elif "name" in entry and "/" in entry["name"]:
-            entry_file, entry["name"] = entry["name"].lstrip("#").split("/")
+            entry_file, entry["name"] = entry["name"].lstrip("#").split("/", 1)
             for field in entry.get("fields", []):
-                field["name"] = field["name"].split("/")[2]
-                rewrite_types(field, entry_file, True)
-            with (output_dir / entry_file).open("a", encoding="utf-8") as entry_handle:
-                yaml_dump(entry, entry_handle, pretty)
+                field["name"] = field["name"].split("/")[-1]
+            rewrite(entry, entry_file, output_dir, pretty, schemas)
+            if entry_file == doc_id:
+                continue
+            types = schemas.setdefault(entry_file, {})
+            types.setdefault(entry["name"], dict(entry))
+            with (output_dir / entry_file).open("w", encoding="utf-8") as entry_handle:
+                yaml_dump(list(types.values()), entry_handle, pretty)
+            entry.clear()
             entry["$import"] = entry_file
-            del entry["name"]
-            del entry["type"]
-            if "fields" in entry:
-                del entry["fields"]
     seen_imports = set()
 
     def seen_import(entry: MutableMapping[str, Any]) -> bool:
-- 
2.43.0


From 95c17f338cf5e91753c7b2d43967ca669bfc7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 17/77] fix: the namespaces of a graph also apply to the split
 files

---
 src/cwl_utils/graph_split.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index b0f56f5..f981ff9 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -136,6 +136,9 @@ def graph_split(
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
         entry["cwlVersion"] = version
+        for metadata in ("$namespaces", "$schemas"):
+            if metadata in source:
+                entry.setdefault(metadata, source[metadata])
         rewrite(entry, entry_id, output_dir, schemas=schemas)
         if entry_id == "main":
             if mainfile is None:
-- 
2.43.0


From 03021b9c543732589407074ea9033136e9e44fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 18/77] fix: check the format of every file of a list, not only
 the first

---
 src/cwl_utils/file_formats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/file_formats.py b/src/cwl_utils/file_formats.py
index 8c1b51f..5f357fe 100644
--- a/src/cwl_utils/file_formats.py
+++ b/src/cwl_utils/file_formats.py
@@ -64,7 +64,8 @@ def check_format(
             if afile["format"] == inpf or formatSubclassOf(
                 afile["format"], inpf, ontology, set()
             ):
-                return
-        raise ValidationException(
-            f"File has an incompatible format: {json_dumps(afile, indent=4)}"
-        )
+                break
+        else:
+            raise ValidationException(
+                f"File has an incompatible format: {json_dumps(afile, indent=4)}"
+            )
-- 
2.43.0


From 811a4978803d40364821214ee20a2e77f7f40f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 19/77] fix: list each definition a property depends on once

The list was extended by itself for every reference followed, so that it
doubled each time.
---
 src/cwl_utils/inputs_schema_gen.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index a3592a5..20ae883 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -506,12 +506,10 @@ def get_property_dependencies(
         if reference_value not in existing_property_dependencies:
             existing_property_dependencies.append(reference_value)
             # Get the property dependencies of the reference value
-            existing_property_dependencies.extend(
-                get_property_dependencies(
-                    input_json_schema["definitions"][reference_value],
-                    input_json_schema,
-                    existing_property_dependencies,
-                )
+            get_property_dependencies(
+                input_json_schema["definitions"][reference_value],
+                input_json_schema,
+                existing_property_dependencies,
             )
 
     return existing_property_dependencies
-- 
2.43.0


From f955a60c30c2fa2471a85adda3db055909b62c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 20/77] fix: a value may be of several of the types of a union

With oneOf an integer was rejected for a union of int and float.
---
 src/cwl_utils/inputs_schema_gen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 20ae883..5ce5490 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -101,7 +101,7 @@ class JSONSchemaProperty:
 
         # type_ is still a list therefore we offer multiple input types for this parameter
         if isinstance(self.type_, list):
-            # We use the oneOf keyword to specify multiple types
+            # We use the anyOf keyword to specify multiple types
             type_dict = self.generate_type_dict_from_type_list(self.type_)
         # type_ is a single type
         else:
@@ -117,7 +117,7 @@ class JSONSchemaProperty:
         Generate the type dict for a property from a CWL input parameter type.
 
         We call this function for each type in the :py:attr:`type_` list
-        In the case there are multiple types, each dict is added to the oneOf list
+        In the case there are multiple types, each dict is added to the anyOf list
         """
         # Primitive types should have a 1-1 mapping
         # Between an CWL Input Parameter type and a JSON schema type
@@ -194,7 +194,7 @@ class JSONSchemaProperty:
             case list():
                 # Nested schema
                 return {
-                    "oneOf": list(
+                    "anyOf": list(
                         map(
                             self.generate_type_dict_from_type,
                             type_item,
@@ -207,9 +207,9 @@ class JSONSchemaProperty:
     def generate_type_dict_from_type_list(
         self, type_: list[InputType]
     ) -> dict[str, Any]:
-        """Given a list of types, generate a JSON schema property dict wrapped in oneOf list."""
+        """Given a list of types, generate a JSON schema property dict wrapped in anyOf list."""
         return {
-            "oneOf": list(
+            "anyOf": list(
                 map(
                     self.generate_type_dict_from_type,
                     type_,
@@ -439,7 +439,7 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
             "type": "object",
             "properties": {
                 prop.name: (
-                    {"oneOf": [{"type": "null"}, prop.type_dict]}
+                    {"anyOf": [{"type": "null"}, prop.type_dict]}
                     if prop.required is False
                     else prop.type_dict
                 )
-- 
2.43.0


From d313f2980114301a78e32a3b5353bfe1e7a78898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 21/77] fix: a long is an integer

---
 src/cwl_utils/inputs_schema_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 5ce5490..325b5e2 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -56,7 +56,7 @@ PRIMITIVE_TYPES_MAPPING = {
     "string": "string",
     "int": "integer",
     "float": "number",
-    "long": "number",
+    "long": "integer",
     "double": "number",
     "null": "null",
 }
-- 
2.43.0


From c23ea904dea3ebb08e81a08c10ee2d4acc6fe9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 22/77] fix: define user-defined types that are not records
 with fields

Enums and arrays among the types of a SchemaDefRequirement made the
generation fail, as did references to records without fields.
---
 src/cwl_utils/inputs_schema_gen.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 325b5e2..23fadcb 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -273,8 +273,12 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
     # Sanitise each field of the schema
     sanitised_fields = {}
 
-    if schema.fields is None:
-        return {}
+    definition_name = to_pascal_case(get_value_from_uri(str(schema.name)))
+
+    if not isinstance(schema, InputRecordSchemaTypes) or schema.fields is None:
+        # An enum, an array or a record without fields
+        prop = JSONSchemaProperty(name=definition_name, type_=schema)
+        return {definition_name: prop.type_dict}
 
     for field in schema.fields:
         sanitised_fields.update(
@@ -317,7 +321,7 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
         property_list.append(prop)
 
     return {
-        to_pascal_case(get_value_from_uri(str(schema.name))): {
+        definition_name: {
             "type": "object",
             "properties": {prop.name: prop.type_dict for prop in property_list},
             "required": [prop.name for prop in property_list if prop.required],
-- 
2.43.0


From 03d4ca6afd439a8e343b97730440849fc999a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 23/77] fix: an optional field of a user-defined record may be
 null

---
 src/cwl_utils/inputs_schema_gen.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 23fadcb..72e13b0 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -323,7 +323,14 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
     return {
         definition_name: {
             "type": "object",
-            "properties": {prop.name: prop.type_dict for prop in property_list},
+            "properties": {
+                prop.name: (
+                    prop.type_dict
+                    if prop.required
+                    else {"anyOf": [{"type": "null"}, prop.type_dict]}
+                )
+                for prop in property_list
+            },
             "required": [prop.name for prop in property_list if prop.required],
         }
     }
-- 
2.43.0


From 811e6507b2de85ddbf3caf01df62b5e89ae085c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 24/77] fix: the fields of a record given in place are required
 unless optional

---
 src/cwl_utils/inputs_schema_gen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 72e13b0..c4e36d9 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -176,6 +176,14 @@ class JSONSchemaProperty:
                                 ): self.generate_type_dict_from_type(prop.type_)
                                 for prop in fields
                             },
+                            "required": [
+                                get_value_from_uri(prop.name)
+                                for prop in fields
+                                if not (
+                                    isinstance(prop.type_, list)
+                                    and "null" in prop.type_
+                                )
+                            ],
                         }
                     case _:
                         _cwlutilslogger.error(
-- 
2.43.0


From cabbe8c6ada77373ae913413072e60660859d015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:09 +0000
Subject: [PATCH 25/77] fix: a description is a string, also for documentation
 given as a list

---
 src/cwl_utils/inputs_schema_gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index c4e36d9..c6974ce 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -261,6 +261,8 @@ def generate_json_schema_property_from_input_parameter(
     # Get the input name and documentation for description
     input_name = get_value_from_uri(str(input_parameter.id))
     doc = input_parameter.doc
+    if isinstance(doc, list):
+        doc = "\n".join(doc)
     required = get_is_required_from_input_parameter(input_parameter)
 
     return JSONSchemaProperty(
-- 
2.43.0


From 300de6bb39117244064a746193195ce557bd63ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 26/77] fix: the port of a registry is not the tag of an image

---
 src/cwl_utils/docker_extract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index f67163d..02f6f8e 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -97,7 +97,10 @@ def extract_docker_requirements(
 ) -> Iterator[cwl.DockerRequirement]:
     """Yield an iterator of the docker reqs, normalizing the pull request."""
     for req in extract_docker_reqs(process):
-        if isinstance(req.dockerPull, str) and ":" not in req.dockerPull:
+        if (
+            isinstance(req.dockerPull, str)
+            and ":" not in req.dockerPull.rsplit("/", 1)[-1]
+        ):
             req.dockerPull += ":latest"
         yield req
 
-- 
2.43.0


From 3255b22c0508afefe9986a61d2f095eb3e4daf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 27/77] fix: images of steps without a tag are the latest ones,
 too

---
 src/cwl_utils/docker_extract.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index 02f6f8e..7283f20 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -93,7 +93,7 @@ def run(args: argparse.Namespace) -> list[cwl.DockerRequirement]:
 
 
 def extract_docker_requirements(
-    process: cwl.Process,
+    process: cwl.Process | cwl.WorkflowStep,
 ) -> Iterator[cwl.DockerRequirement]:
     """Yield an iterator of the docker reqs, normalizing the pull request."""
     for req in extract_docker_reqs(process):
@@ -105,7 +105,9 @@ def extract_docker_requirements(
         yield req
 
 
-def extract_docker_reqs(process: cwl.Process) -> Iterator[cwl.DockerRequirement]:
+def extract_docker_reqs(
+    process: cwl.Process | cwl.WorkflowStep,
+) -> Iterator[cwl.DockerRequirement]:
     """For the given process, extract the DockerRequirement(s)."""
     if process.requirements:
         for req in process.requirements:
@@ -134,7 +136,7 @@ def get_process_from_step(step: cwl.WorkflowStep) -> cwl.Process:
 def traverse_workflow(workflow: cwl.Workflow) -> Iterator[cwl.DockerRequirement]:
     """Iterate over the steps of this workflow, yielding the docker reqs."""
     for step in workflow.steps:
-        yield from extract_docker_reqs(step)
+        yield from extract_docker_requirements(step)
         yield from traverse(get_process_from_step(step))
 
 
-- 
2.43.0


From f28bc4ecee9983887eb5990b609a7e15056f1fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:07 +0000
Subject: [PATCH 28/77] fix: find the images and the software in the hints of
 workflow steps

The parser leaves these hints as mappings.
---
 src/cwl_utils/cite_extract.py   |  6 ++++--
 src/cwl_utils/docker_extract.py |  4 +++-
 src/cwl_utils/parser/utils.py   | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/cite_extract.py b/src/cwl_utils/cite_extract.py
index d35081d..9b9496e 100755
--- a/src/cwl_utils/cite_extract.py
+++ b/src/cwl_utils/cite_extract.py
@@ -6,6 +6,7 @@ from collections.abc import Iterator
 from typing import cast
 
 import cwl_utils.parser as cwl
+from cwl_utils.parser.utils import load_hint
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -33,7 +34,7 @@ def main() -> int:
 
 
 def extract_software_reqs(
-    process: cwl.Process,
+    process: cwl.Process | cwl.WorkflowStep,
 ) -> Iterator[cwl.SoftwareRequirement]:
     """Return an iterator over any SoftwareRequirements found in the given process."""
     if process.requirements:
@@ -41,7 +42,8 @@ def extract_software_reqs(
             if isinstance(req, cwl.SoftwareRequirementTypes):
                 yield req
     if process.hints:
-        for req in process.hints:
+        for hint in process.hints:
+            req = load_hint(process, hint)
             if isinstance(req, cwl.SoftwareRequirementTypes):
                 yield req
 
diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index 7283f20..b5760ef 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -14,6 +14,7 @@ from cwl_utils.image_puller import (
     ImagePuller,
     SingularityImagePuller,
 )
+from cwl_utils.parser.utils import load_hint
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -114,7 +115,8 @@ def extract_docker_reqs(
             if isinstance(req, cwl.DockerRequirementTypes):
                 yield req
     if process.hints:
-        for req in process.hints:
+        for hint in process.hints:
+            req = load_hint(process, hint)
             if isinstance(req, cwl.DockerRequirementTypes):
                 yield req
 
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 3f4f053..c91802c 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -2,7 +2,7 @@
 
 import copy
 import logging
-from collections.abc import MutableSequence
+from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
 from urllib.parse import unquote_plus, urlparse
@@ -250,6 +250,36 @@ def load_step(
     return cast(Process, copy.deepcopy(step.run))
 
 
+def load_hint(process: Process | WorkflowStep, hint: Any) -> Any:
+    """
+    Load a hint.
+
+    The parser does not load the hints of workflow steps, so that they may be
+    mappings.  Hints of unknown classes are returned as they are.
+    """
+    if isinstance(hint, MutableMapping):
+        match process:
+            case cwl_v1_0.WorkflowStep():
+                module: Any = cwl_v1_0
+            case cwl_v1_1.WorkflowStep():
+                module = cwl_v1_1
+            case cwl_v1_2.WorkflowStep():
+                module = cwl_v1_2
+            case _:
+                return hint
+        match hint.get("class"):
+            case "DockerRequirement":
+                requirement = module.DockerRequirement
+            case "SoftwareRequirement":
+                requirement = module.SoftwareRequirement
+            case _:
+                return hint
+        return requirement.fromDoc(
+            hint, process.loadingOptions.baseuri, process.loadingOptions
+        )
+    return hint
+
+
 def merge_flatten_type(src: Any) -> Any:
     """Return the merge flattened type of the source type."""
     if isinstance(src, MutableSequence):
-- 
2.43.0


From 574237157118023c12b267adc026d94503281b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 29/77] fix: force pulling of an image that was not saved
 before

---
 src/cwl_utils/image_puller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 5604002..9f03a5c 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -70,7 +70,7 @@ class DockerImagePuller(ImagePuller):
         if self.save_directory:
             dest = Path(self.save_directory, self.get_image_name())
             if self.save_directory and self.force_pull:
-                dest.unlink()
+                dest.unlink(missing_ok=True)
             cmd_save = [
                 self.cmd,
                 "save",
-- 
2.43.0


From e3177dac17ab611b09b9bf612c4b57ec0083170a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 30/77] fix: without a directory, Singularity images are saved
 to the current one

---
 src/cwl_utils/image_puller.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 9f03a5c..2e0ef6c 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -106,9 +106,7 @@ class SingularityImagePuller(ImagePuller):
 
     def save_docker_image(self) -> None:
         """Pull down the Docker software container image and save it in the Singularity image format."""
-        save_directory: str | Path
-        if self.save_directory:
-            save_directory = self.save_directory
+        save_directory = self.save_directory or Path.cwd()
         target = Path(save_directory, self.get_image_name())
         if target.exists() and not self.force_pull:
             _LOGGER.info(f"Already cached {self.req} with Singularity.")
-- 
2.43.0


From 9669dd10d5ae8e1d922791e1813d23856acd0cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 31/77] fix: understand the versions of node prereleases

---
 src/cwl_utils/sandboxjs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index d22dbb0..afc08de 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -148,7 +148,8 @@ class NodeJSEngine(JSEngine):
             [working_alias, "-v"], text=True
         )
         current_version = [
-            int(v) for v in current_version_str.strip().strip("v").split(".")
+            int(v)
+            for v in current_version_str.strip().strip("v").split("-")[0].split(".")
         ]
         minimum_node_version = [
             int(v) for v in self.minimum_node_version_str.split(".")
-- 
2.43.0


From 374d4f3f0d604df06dca0e1b1ea462538df84a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:11 +0000
Subject: [PATCH 32/77] fix: a character that arrives in two pieces is not a
 decoding error

---
 src/cwl_utils/sandboxjs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index afc08de..dc814a3 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -238,12 +238,13 @@ class NodeJSEngine(JSEngine):
         rselect: list[BytesIO] = [nodejs.stdout, nodejs.stderr]
         wselect: list[BytesIO] = [nodejs.stdin]
 
+        finished_marker = self.process_finished_str.encode("utf-8")
+
         def process_finished() -> bool:
-            return stdout_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            ) and stderr_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            )
+            # bytes, as the last character may not be complete yet
+            return stdout_buf.getvalue().endswith(
+                finished_marker
+            ) and stderr_buf.getvalue().endswith(finished_marker)
 
         while not process_finished() and timer.is_alive():
             rready, wready, _ = select.select(rselect, wselect, [])
-- 
2.43.0


From 6aa43fadfc7b03d79883e5cebc4374419d92e193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 33/77] fix: a JavaScript process that ends or is killed early
 is never a success

---
 src/cwl_utils/sandboxjs.py | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index dc814a3..7cb8e0b 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -258,15 +258,29 @@ class NodeJSEngine(JSEngine):
                         buf = os.read(pipes[0].fileno(), select.PIPE_BUF)
                         if buf:
                             pipes[1].write(buf)
+                        else:
+                            rselect.remove(pipes[0])
             except OSError:
                 break
+            if not rselect:
+                break  # the process has closed its outputs
+
+        finished = process_finished()
+        if not finished:
+            # the process has ended, or it is killed when its time is up
+            nodejs.wait()
         timer.cancel()
+        timer.join()
+        if killed:
+            # never leave a dying process to the next request
+            nodejs.wait()
 
         stdin_buf.close()
-        stdoutdata = stdout_buf.getvalue()[: -len(self.process_finished_str) - 1]
-        stderrdata = stderr_buf.getvalue()[: -len(self.process_finished_str) - 1]
-
-        nodejs.poll()
+        stdoutdata = stdout_buf.getvalue()
+        stderrdata = stderr_buf.getvalue()
+        if finished:
+            stdoutdata = stdoutdata[: -len(finished_marker) - 1]
+            stderrdata = stderrdata[: -len(finished_marker) - 1]
 
         if nodejs.poll() not in (None, 0):
             if killed:
@@ -274,9 +288,14 @@ class NodeJSEngine(JSEngine):
             else:
                 returncode = nodejs.returncode
         else:
-            returncode = 0
+            # ending before the request is finished is never a success
+            returncode = 0 if finished else 1
 
-        return returncode, stdoutdata.decode("utf-8"), stderrdata.decode("utf-8")
+        return (
+            returncode,
+            stdoutdata.decode("utf-8", "replace"),
+            stderrdata.decode("utf-8", "replace"),
+        )
 
     def new_js_proc(
         self,
-- 
2.43.0


From ff481a20d9d1a6226ae2109aa00be406f50e5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:40 +0000
Subject: [PATCH 34/77] fix: the stdin shortcut works for every name of an
 input

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 7 +++++--
 src/cwl_utils/parser/cwl_v1_2_utils.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 34ff2d6..b5840d9 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -2,6 +2,7 @@
 import codecs
 import hashlib
 import logging
+import re
 from collections import namedtuple
 from collections.abc import MutableMapping, MutableSequence
 from io import StringIO
@@ -273,9 +274,11 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
+                name = cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                    f"$(inputs.{name}.path)"
+                    if re.fullmatch(r"\w+", name)
+                    else f'$(inputs["{name}"].path)'
                 )
                 inp.type_ = "File"
 
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index ddb3ec7..9da2b5f 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: Apache-2.0
 import hashlib
 import logging
+import re
 from collections import namedtuple
 from collections.abc import MutableMapping, MutableSequence
 from io import StringIO
@@ -276,9 +277,11 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
+                name = cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                    f"$(inputs.{name}.path)"
+                    if re.fullmatch(r"\w+", name)
+                    else f'$(inputs["{name}"].path)'
                 )
                 inp.type_ = "File"
 
-- 
2.43.0


From b3e3a8c2396706814bc23cfa845dabc762c87c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 35/77] fix: report array types without items and record types
 without fields

---
 src/cwl_utils/schemadef.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9c72dd6..0981e78 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -208,7 +208,7 @@ def _inline_type(
         elif _type == "array":
             if "items" not in v:
                 raise errors.ArrayMissingItems(
-                    f"In file {base_url.geturl()}, array type {_type.get('name')} is missing 'items'"
+                    f"In file {base_url.geturl()}, array type {v.get('name')} is missing 'items'"
                 )
 
             v["items"] = _inline_type(v["items"], base_url, user_defined_types)
@@ -217,7 +217,7 @@ def _inline_type(
         elif _type == "record":
             if "fields" not in v:
                 raise errors.RecordMissingFields(
-                    f"In file {base_url.geturl()}, record type {_type.get('name')} is missing 'fields'"
+                    f"In file {base_url.geturl()}, record type {v.get('name')} is missing 'fields'"
                 )
 
             fields = utils.normalize_to_list(
-- 
2.43.0


From b417bc8c36d4fca3bccc23ac7f93b78f5d1ad584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:46 +0000
Subject: [PATCH 36/77] fix: inline the types of a single imported parameter,
 and of imported parameters in map form

---
 src/cwl_utils/schemadef.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 0981e78..17e4c04 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -120,11 +120,12 @@ def inline_types(
     if (
         len(cwl[port]) == 1
         and isinstance(cwl[port][0], dict)
-        and cwl[port][0]["id"] == "$import"
+        and cwl[port][0].get("id") == "$import"
     ):
         defs, base_url = utils.load_linked_file(
             base_url, cwl[port][0]["type"], is_import=True
         )
+        defs = utils.normalize_to_list(defs, key_field="id", value_field="type")
     else:
         defs = cwl[port]
 
-- 
2.43.0


From 61febdecc5f9ff1acb75ab4e6def0edf8bf51197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 37/77] fix: names made for inlined types are not those of
 other types

---
 src/cwl_utils/schemadef.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 17e4c04..90d8543 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -177,12 +177,13 @@ def _inline_type(
             # resolve_type.pop("name", None) # Should work, but cwltool complains
             if "name" in resolve_type:
                 user_type_name = resolve_type["name"]
-                if user_type_name in _inline_type_names:
-                    resolve_type["name"] = (
-                        f"{user_type_name}_{_inline_type_name_uniq_id}"
+                while user_type_name in _inline_type_names:
+                    user_type_name = (
+                        f"{resolve_type['name']}_{_inline_type_name_uniq_id}"
                     )
-                else:
-                    _inline_type_names.add(user_type_name)
+                    _inline_type_name_uniq_id += 1
+                _inline_type_names.add(user_type_name)
+                resolve_type["name"] = user_type_name
             else:
                 resolve_type["name"] = f"user_type_{_inline_type_name_uniq_id}"
             return _inline_type(resolve_type, path_prefix, user_defined_types)
-- 
2.43.0


From fb5cd1fe547defe31a0284b09b41d4b0d2425769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:12 +0000
Subject: [PATCH 38/77] fix: find the types that a file of imported types
 imports itself

---
 src/cwl_utils/schemadef.py | 59 +++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 90d8543..9efa4ee 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -35,20 +35,42 @@ def build_user_defined_type_dict(
                 base_url, entry["$import"], is_import=True
             )
             if requirement["class"] == "SchemaDefRequirement":
-                cwl["requirements"][index] = requirement
-                type_definition_list = requirement["types"]
-                path_prefix = new_base_url.geturl()
-                sys.stderr.write(
-                    f"Parsing {len(type_definition_list)} types from {path_prefix}\n"
+                requirement["types"] = _add_imported_types(
+                    requirement["types"], new_base_url, user_defined_types
                 )
-                for v in type_definition_list:
-                    k = v.get("name")
-                    if k is None:
-                        raise RuntimeError(f"In file {path_prefix} type missing name")
-                    user_defined_types[f"{path_prefix}#{k}"] = v
+                cwl["requirements"][index] = requirement
     return _build_user_defined_type_dict(cwl, base_url, user_defined_types)
 
 
+def _add_imported_types(
+    type_definition_list: Any,
+    base_url: urllib.parse.ParseResult,
+    user_defined_types: dict[str, Any],
+) -> list[Any]:
+    """Add the types of an imported file, and those that it imports itself."""
+    # This is always a list
+    if isinstance(type_definition_list, dict):
+        type_definition_list = [type_definition_list]
+        # except when it isn't
+
+    path_prefix = base_url.geturl()
+    sys.stderr.write(f"Parsing {len(type_definition_list)} types from {path_prefix}\n")
+    added = []
+    for v in type_definition_list:
+        if list(v.keys()) == ["$import"]:
+            imported, this_url = utils.load_linked_file(
+                base_url, v["$import"], is_import=True
+            )
+            added += _add_imported_types(imported, this_url, user_defined_types)
+            continue
+        k = v.get("name")
+        if k is None:
+            raise RuntimeError(f"In file {path_prefix} type missing name")
+        user_defined_types[f"{path_prefix}#{k}"] = v
+        added.append(v)
+    return added
+
+
 def _build_user_defined_type_dict(
     cwl: dict[str, Any],
     base_url: urllib.parse.ParseResult,
@@ -83,22 +105,7 @@ def _build_user_defined_type_dict(
             type_definition_list, this_url = utils.load_linked_file(
                 base_url, schema["$import"], is_import=True
             )
-            # This is always a list
-            if isinstance(type_definition_list, dict):
-                type_definition_list = [type_definition_list]
-                # except when it isn't
-
-            path_prefix = (
-                this_url.geturl()
-            )  # sbpack.lib.normalized_path(schema["$import"], base_url).geturl()
-            sys.stderr.write(
-                f"Parsing {len(type_definition_list)} types from {path_prefix}\n"
-            )
-            for v in type_definition_list:
-                k = v.get("name")
-                if k is None:
-                    raise RuntimeError(f"In file {path_prefix} type missing name")
-                user_defined_types[f"{path_prefix}#{k}"] = v
+            _add_imported_types(type_definition_list, this_url, user_defined_types)
 
         else:
             path_prefix = base_url.geturl()
-- 
2.43.0


From 84b1120f356ec19145f42a32304c1d1320e91c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:14 +0000
Subject: [PATCH 39/77] fix: inline the types of imported fields

---
 src/cwl_utils/schemadef.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9efa4ee..1312e06 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -229,8 +229,13 @@ def _inline_type(
                     f"In file {base_url.geturl()}, record type {v.get('name')} is missing 'fields'"
                 )
 
+            fields = v["fields"]
+            if isinstance(fields, dict) and list(fields.keys()) == ["$import"]:
+                fields, base_url = utils.load_linked_file(
+                    base_url, fields["$import"], is_import=True
+                )
             fields = utils.normalize_to_list(
-                v["fields"], key_field="name", value_field="type"
+                fields, key_field="name", value_field="type"
             )
             v["fields"] = [
                 _inline_type(_f, base_url, user_defined_types) for _f in fields
-- 
2.43.0


From 52d87e6322c069e836538dafe7f7dba0175a5f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:01 +0000
Subject: [PATCH 40/77] fix: the saved identifiers of embedded processes are
 relative to where they are read

---
 src/cwl_utils/parser/cwl_v1_1.py | 20 ++++++++++++++++++--
 src/cwl_utils/parser/cwl_v1_2.py | 20 ++++++++++++++++++--
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 0057de1..8873a66 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -21325,7 +21325,15 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            if isinstance(self.run, Saveable):
+                u = save(
+                    self.run,
+                    top=False,
+                    base_url=_expand_url("run", self.id, self.loadingOptions, True),
+                    relative_uris=relative_uris,
+                )
+            else:
+                u = save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
         if self.scatter is not None:
             u = save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
@@ -23331,7 +23339,15 @@ class ProcessGenerator(Process):
             u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            if isinstance(self.run, Saveable):
+                u = save(
+                    self.run,
+                    top=False,
+                    base_url=_expand_url("run", self.id, self.loadingOptions, True),
+                    relative_uris=relative_uris,
+                )
+            else:
+                u = save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
 
         # top refers to the directory level
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index b8fc528..92698ae 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -21685,7 +21685,15 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            if isinstance(self.run, Saveable):
+                u = save(
+                    self.run,
+                    top=False,
+                    base_url=_expand_url("run", self.id, self.loadingOptions, True),
+                    relative_uris=relative_uris,
+                )
+            else:
+                u = save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
         if self.when is not None:
             r["when"] = save(
@@ -25674,7 +25682,15 @@ class ProcessGenerator(Process):
             u = save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            if isinstance(self.run, Saveable):
+                u = save(
+                    self.run,
+                    top=False,
+                    base_url=_expand_url("run", self.id, self.loadingOptions, True),
+                    relative_uris=relative_uris,
+                )
+            else:
+                u = save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
 
         # top refers to the directory level
-- 
2.43.0


From ccc088505850be4ab6f55f79c39ca10f50b512c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 41/77] fix: load all of a serialised graph document when asked
 to

---
 src/cwl_utils/parser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e7fef0d..8626d61 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -361,7 +361,7 @@ def load_document(
     if baseuri is None:
         baseuri = schema_salad.runtime.file_uri(str(Path.cwd())) + "/"
     if isinstance(doc, str):
-        return load_document_by_string(doc, baseuri, loadingOptions, id_)
+        return load_document_by_string(doc, baseuri, loadingOptions, id_, load_all)
     return load_document_by_yaml(doc, baseuri, loadingOptions, id_, load_all)
 
 
-- 
2.43.0


From ef94b9f00eb46137471ac9b660d387fbdaf3f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:22 +0000
Subject: [PATCH 42/77] fix: keep the namespaces, schemas and base of a graph
 for its selected entry

---
 src/cwl_utils/parser/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 8626d61..ce75a58 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -1,5 +1,6 @@
 # SPDX-License-Identifier: Apache-2.0
 
+import copy
 import os
 from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
@@ -387,8 +388,12 @@ def load_document_by_yaml(
     """Load a CWL object from a YAML object."""
     version = cwl_version(yaml)
     if "$graph" in yaml and not load_all:
-        yaml = _get_id_from_graph(yaml, id_)
+        graph = yaml
+        yaml = copy.copy(_get_id_from_graph(graph, id_))
         yaml["cwlVersion"] = version
+        for field in ("$base", "$namespaces", "$schemas"):
+            if field in graph:
+                yaml[field] = graph[field]
     match version:
         case "v1.0":
             result = cwl_v1_0.load_document_by_yaml(yaml, uri, loadingOptions)
-- 
2.43.0


From 5b28a672925506868947f02806c400e42bc07113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 43/77] fix: find graph entries whatever hash marks them, and
 without failing on anonymous ones

---
 src/cwl_utils/parser/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index ce75a58..1b8eada 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -295,12 +295,13 @@ Loader: TypeAlias = schema_salad.runtime.Loader
 def _get_id_from_graph(yaml: MutableMapping[str, Any], id_: str | None) -> Any:
     if id_ is None:
         id_ = "main"
-    for el in yaml["$graph"]:
-        if el["id"].lstrip("#") == id_:
+    ids = [el["id"].lstrip("#") if "id" in el else None for el in yaml["$graph"]]
+    for el, el_id in zip(yaml["$graph"], ids):
+        if el_id == id_.lstrip("#"):
             return el
     raise GraphTargetMissingException(
         "Tool file contains graph of multiple objects, must specify "
-        "one of #%s" % ", #".join(el["id"] for el in yaml["$graph"])
+        "one of #%s" % ", #".join(el_id for el_id in ids if el_id)
     )
 
 
-- 
2.43.0


From 9f5a2d4a3bdb76fc35a77b19918662a23d54cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 44/77] fix: do not take the fragment of a remote URI for a
 part of the document's name

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 1b8eada..8f0bc30 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -6,7 +6,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote_plus, urldefrag, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -333,8 +333,8 @@ def load_document_by_uri(
             real_uri = Path(unquote_plus(uri.path)).resolve().as_uri()
             base_uri = Path(unquote_plus(uri.path)).resolve().parent.as_uri()
         else:
-            real_uri = path
-            base_uri = os.path.dirname(path)
+            real_uri = urldefrag(path).url
+            base_uri = os.path.dirname(real_uri)
     else:
         real_uri = path.resolve().as_uri()
         base_uri = path.resolve().parent.as_uri()
-- 
2.43.0


From b85c7f175e3ed1e8e13c625e0c2f24cc0e9f1fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 45/77] fix: load the file a path with a fragment names

---
 src/cwl_utils/parser/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 8f0bc30..ac9ddc6 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -336,9 +336,12 @@ def load_document_by_uri(
             real_uri = urldefrag(path).url
             base_uri = os.path.dirname(real_uri)
     else:
+        id_ = None
+        if "#" in str(path) and not path.exists():
+            name, _, fragment = str(path).rpartition("#")
+            path, id_ = Path(name), fragment or None
         real_uri = path.resolve().as_uri()
         base_uri = path.resolve().parent.as_uri()
-        id_ = path.resolve().name.split("#")[1] if "#" in path.resolve().name else None
 
     loadingOptions = LoadingOptions(
         fileuri=real_uri, baseuri=base_uri, copyfrom=loadingOptions
-- 
2.43.0


From 1e7f8b7509741cbb52600148ad0d9801fafa69c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 46/77] fix: save lists of processes of which none names its
 version

---
 src/cwl_utils/parser/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index ac9ddc6..33e9fcc 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -442,8 +442,12 @@ def save(
                     e.get("cwlVersion") for i, e in enumerate(lst) if is_process(val[i])
                 ]
                 latest = max(
-                    (v for v in vers if v is not None), key=cast(Any, version_split)
+                    (v for v in vers if v is not None),
+                    key=cast(Any, version_split),
+                    default=None,
                 )
+                if latest is None:
+                    return {"$graph": lst}
                 return {"cwlVersion": latest, "$graph": lst}
             return lst
         case MutableMapping():
-- 
2.43.0


From e02d30639abc7b3832fe796c43d1eb2dc1b80fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:23 +0000
Subject: [PATCH 47/77] fix: do not read a plus sign in a path as a space

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 src/cwl_utils/parser/utils.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 33e9fcc..e4ca103 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -6,7 +6,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote_plus, urldefrag, urlparse
+from urllib.parse import unquote, urldefrag, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -330,8 +330,8 @@ def load_document_by_uri(
         uri = urlparse(path)
         id_ = uri.fragment or None
         if not uri.scheme or uri.scheme == "file":
-            real_uri = Path(unquote_plus(uri.path)).resolve().as_uri()
-            base_uri = Path(unquote_plus(uri.path)).resolve().parent.as_uri()
+            real_uri = Path(unquote(uri.path)).resolve().as_uri()
+            base_uri = Path(unquote(uri.path)).resolve().parent.as_uri()
         else:
             real_uri = urldefrag(path).url
             base_uri = os.path.dirname(real_uri)
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index c91802c..dfe617b 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -5,7 +5,7 @@ import logging
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote, urlparse
 
 from schema_salad.exceptions import ValidationException
 from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
@@ -170,7 +170,7 @@ def load_inputfile_by_uri(
     if isinstance(path, str):
         uri = urlparse(path)
         if not uri.scheme or uri.scheme == "file":
-            real_path = Path(unquote_plus(uri.path)).resolve().as_uri()
+            real_path = Path(unquote(uri.path)).resolve().as_uri()
         else:
             real_path = path
     else:
-- 
2.43.0


From f56ea066c70d0aa473933e72adb7dc25c42d525c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:39 +0000
Subject: [PATCH 48/77] fix: quote the text and call the function bodies of
 expressions converted to the ${} form

Quotes, backslashes and line breaks of the literal text were put unescaped
between the quotes of a JavaScript string, and a ${} block was used as if it
were the text of a $() expression.
---
 src/cwl_utils/expression.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 0b74a44..31efd27 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -200,8 +200,8 @@ def interpolate(
     """
     Interpolate and evaluate.
 
-    Note: only call with convert_to_expression=True on CWL Expressions in $()
-    form that need interpolation.
+    Note: only call with convert_to_expression=True on CWL Expressions that need
+    interpolation.
     """
     if strip_whitespace:
         scan = scan.strip()
@@ -216,10 +216,7 @@ def interpolate(
 
     w = scanner(scan)
     while w:
-        if convert_to_expression:
-            parts.append(f'"{scan[0: w[0]]}" + ')  # noqa: B907
-        else:
-            parts.append(scan[0 : w[0]])
+        parts.append(dump(scan[0 : w[0]]))
 
         if scan[w[0]] == "$":
             if not convert_to_expression:
@@ -235,9 +232,12 @@ def interpolate(
                     leaf = json.loads(leaf)
                 parts.append(leaf)
             else:
+                code = scan[w[0] + 1 : w[1]]
+                if code.startswith("{"):
+                    code = f"function(){code}()"
                 parts.append(
                     "function(){var item ="
-                    + scan[w[0] : w[1]][2:-1]
+                    + code
                     + '; if (typeof(item) === "string"){ return item; } '
                     "else { return JSON.stringify(item); }}() + "
                 )
@@ -266,7 +266,7 @@ def interpolate(
         scan = scan[w[1] :]
         w = scanner(scan)
     if convert_to_expression:
-        parts.extend((f'"{scan}"', ";}"))  # noqa: B907
+        parts.extend((json.dumps(scan), ";}"))
     else:
         parts.append(scan)
     return "".join(parts)
-- 
2.43.0


From dac9ed7f0a910a495ba6bc5f9d19ca0e7e682600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 49/77] fix: tell expressions from parameter references and
 interpolated text

Surrounding whitespace, a second expression after the first, and a ${} block
with text around it were misread, and references to the runtime context were
taken for JavaScript.
---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 32 ++++++++++++-------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 32 ++++++++++++-------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 32 ++++++++++++-------
 src/cwl_utils/expression.py                   |  5 +++
 4 files changed, 65 insertions(+), 36 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index d584224..69d81be 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -21,7 +21,12 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import (
+    do_eval,
+    interpolate,
+    needs_parsing,
+    whole_expression,
+)
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -108,9 +113,10 @@ def get_expression(
     """
     if not isinstance(string, str):
         return None
-    if string.strip().startswith("${"):
+    string = string.strip()
+    if string.startswith("${") and whole_expression(string):
         return string
-    if "$(" in string:
+    if needs_parsing(string):
         runtime = CWLRuntimeParameterContext(
             cores=0,
             ram=0,
@@ -125,16 +131,18 @@ def get_expression(
                 inputs,
                 context=self,
                 requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
+                outdir=runtime["outdir"],
+                tmpdir=runtime["tmpdir"],
+                resources={
+                    "cores": 0,
+                    "ram": 0,
+                    "outdirSize": 0,
+                    "tmpdirSize": 0,
+                    "exitCode": 0,
+                },
             )
         except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
+            if not whole_expression(string):
                 # then it is a string interpolation
                 return cast(
                     str,
@@ -150,7 +158,7 @@ def get_expression(
                 )
             else:
                 # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                return "${return " + string[1:] + ";}"
     return None
 
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 685520e..d59ee14 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -21,7 +21,12 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import (
+    do_eval,
+    interpolate,
+    needs_parsing,
+    whole_expression,
+)
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -108,9 +113,10 @@ def get_expression(
     """
     if not isinstance(string, str):
         return None
-    if string.strip().startswith("${"):
+    string = string.strip()
+    if string.startswith("${") and whole_expression(string):
         return string
-    if "$(" in string:
+    if needs_parsing(string):
         runtime = CWLRuntimeParameterContext(
             cores=0,
             ram=0,
@@ -125,16 +131,18 @@ def get_expression(
                 inputs,
                 context=self,
                 requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
+                outdir=runtime["outdir"],
+                tmpdir=runtime["tmpdir"],
+                resources={
+                    "cores": 0,
+                    "ram": 0,
+                    "outdirSize": 0,
+                    "tmpdirSize": 0,
+                    "exitCode": 0,
+                },
             )
         except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
+            if not whole_expression(string):
                 # then it is a string interpolation
                 return cast(
                     str,
@@ -150,7 +158,7 @@ def get_expression(
                 )
             else:
                 # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                return "${return " + string[1:] + ";}"
     return None
 
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index eca589a..8c1eb0b 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -21,7 +21,12 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import (
+    do_eval,
+    interpolate,
+    needs_parsing,
+    whole_expression,
+)
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -107,9 +112,10 @@ def get_expression(
     """
     if not isinstance(string, str):
         return None
-    if string.strip().startswith("${"):
+    string = string.strip()
+    if string.startswith("${") and whole_expression(string):
         return string
-    if "$(" in string:
+    if needs_parsing(string):
         runtime = CWLRuntimeParameterContext(
             cores=0,
             ram=0,
@@ -124,16 +130,18 @@ def get_expression(
                 inputs,
                 context=self,
                 requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
+                outdir=runtime["outdir"],
+                tmpdir=runtime["tmpdir"],
+                resources={
+                    "cores": 0,
+                    "ram": 0,
+                    "outdirSize": 0,
+                    "tmpdirSize": 0,
+                    "exitCode": 0,
+                },
             )
         except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
+            if not whole_expression(string):
                 # then it is a string interpolation
                 return cast(
                     str,
@@ -149,7 +157,7 @@ def get_expression(
                 )
             else:
                 # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
+                return "${return " + string[1:] + ";}"
     return None
 
 
diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 31efd27..5d3aa7e 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -272,6 +272,11 @@ def interpolate(
     return "".join(parts)
 
 
+def whole_expression(text: str) -> bool:
+    """Tell if the text is nothing but a single parameter reference or expression."""
+    return scanner(text) == (0, len(text)) and text.startswith("$")
+
+
 def jshead(engine_config: list[str], rootvars: CWLParameterContext) -> str:
     """Make sure all the byte strings are converted to str in `rootvars` dict."""
     return "\n".join(
-- 
2.43.0


From 5820b35740cc2abb94c0a6c56983eafcc1cc506e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 50/77] fix: unescape text of CWL v1.0 and v1.1 documents by
 their rules in get_expression

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 3 ++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 3 ++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 69d81be..5c3784a 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -140,6 +140,7 @@ def get_expression(
                     "tmpdirSize": 0,
                     "exitCode": 0,
                 },
+                cwlVersion="v1.0",
             )
         except (WorkflowException, JavascriptException):
             if not whole_expression(string):
@@ -152,7 +153,7 @@ def get_expression(
                             inputs=inputs, self=self, runtime=runtime
                         ),
                         fullJS=True,
-                        escaping_behavior=2,
+                        escaping_behavior=1,
                         convert_to_expression=True,
                     ),
                 )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index d59ee14..2efaa55 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -140,6 +140,7 @@ def get_expression(
                     "tmpdirSize": 0,
                     "exitCode": 0,
                 },
+                cwlVersion="v1.1",
             )
         except (WorkflowException, JavascriptException):
             if not whole_expression(string):
@@ -152,7 +153,7 @@ def get_expression(
                             inputs=inputs, self=self, runtime=runtime
                         ),
                         fullJS=True,
-                        escaping_behavior=2,
+                        escaping_behavior=1,
                         convert_to_expression=True,
                     ),
                 )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 8c1eb0b..3cac104 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -139,6 +139,7 @@ def get_expression(
                     "tmpdirSize": 0,
                     "exitCode": 0,
                 },
+                cwlVersion=_DEFAULT_CWL_VERSION,
             )
         except (WorkflowException, JavascriptException):
             if not whole_expression(string):
-- 
2.43.0


From f5de85b71f78dd3252bbf2a0edb53bea966002a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 51/77] fix: keep the whole body of an expression that becomes
 an ExpressionTool

The last character of the body was dropped.
---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 5 +++--
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 5 +++--
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 5 +++--
 src/cwl_utils/expression.py                   | 8 ++++++++
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 5c3784a..2f16423 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -23,6 +23,7 @@ import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import (
     do_eval,
+    function_body,
     interpolate,
     needs_parsing,
     whole_expression,
@@ -408,7 +409,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + function_body(expr)
         + """}()};
  }"""
     )
@@ -1736,7 +1737,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + function_body(expr)
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 2efaa55..b3abb5b 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -23,6 +23,7 @@ import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import (
     do_eval,
+    function_body,
     interpolate,
     needs_parsing,
     whole_expression,
@@ -406,7 +407,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + function_body(expr)
         + """}()};
  }"""
     )
@@ -1742,7 +1743,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + function_body(expr)
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 3cac104..a761fe0 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -23,6 +23,7 @@ import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
 from cwl_utils.expression import (
     do_eval,
+    function_body,
     interpolate,
     needs_parsing,
     whole_expression,
@@ -407,7 +408,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + function_body(expr)
         + """}()};
  }"""
     )
@@ -1855,7 +1856,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + function_body(expr)
         + """}()};
  }"""
     )
diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 5d3aa7e..dec0a4b 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -277,6 +277,14 @@ def whole_expression(text: str) -> bool:
     return scanner(text) == (0, len(text)) and text.startswith("$")
 
 
+def function_body(expression: str) -> str:
+    """Return the body of a function that computes the value of the expression."""
+    expression = expression.strip()
+    if expression.startswith("${"):
+        return expression[2:-1]
+    return f"return {expression[1:]};"
+
+
 def jshead(engine_config: list[str], rootvars: CWLParameterContext) -> str:
     """Make sure all the byte strings are converted to str in `rootvars` dict."""
     return "\n".join(
-- 
2.43.0


From bcd41c6b8eeb6a5c53281edfd3ec888a18c93125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:05 +0000
Subject: [PATCH 52/77] fix: accept $() expressions in etool_to_cltool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 2f16423..71019b3 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -213,7 +213,7 @@ var runtime=$(runtime);"""
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(function_body(etool.expression))
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index b3abb5b..a31d819 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -213,7 +213,7 @@ var runtime=$(runtime);"""
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(function_body(etool.expression))
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index a761fe0..1510cfc 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -212,7 +212,7 @@ var runtime=$(runtime);"""
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(function_body(etool.expression))
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
-- 
2.43.0


From 38c611acad44929426cfb407dec3760c6cf94965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:19 +0000
Subject: [PATCH 53/77] fix: escape the code put in a file listing by the rules
 of CWL

$/( and $/{ are no escapes: they changed the text of the code.
---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 5 +++--
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 5 +++--
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 71019b3..9db66bd 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -66,7 +66,8 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    contents = contents.replace("\\", "\\\\")
+    return contents.replace("${", "\\${").replace("$(", "\\$(")
 
 
 def clean_type_ids(
@@ -209,7 +210,7 @@ def etool_to_cltool(
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index a31d819..be6420c 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -66,7 +66,8 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    contents = contents.replace("\\", "\\\\")
+    return contents.replace("${", "\\${").replace("$(", "\\$(")
 
 
 def clean_type_ids(
@@ -209,7 +210,7 @@ def etool_to_cltool(
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 1510cfc..69dc8fb 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -65,7 +65,8 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    contents = contents.replace("\\", "\\\\")
+    return contents.replace("${", "\\${").replace("$(", "\\$(")
 
 
 def clean_type_ids(
@@ -208,7 +209,7 @@ def etool_to_cltool(
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
-- 
2.43.0


From d869aa0180aa251dac53b743185d6233eefba3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 54/77] fix: keep the expressionLib of an ExpressionTool that
 becomes a CommandLineTool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 9 ++++++++-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 9 ++++++++-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 9 ++++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 9db66bd..6e0a54e 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -175,6 +175,8 @@ def etool_to_cltool(
     etool: cwl.ExpressionTool, expressionLib: list[str] | None = None
 ) -> cwl.CommandLineTool:
     """Convert a ExpressionTool to a CommandLineTool."""
+    if expressionLib is None:
+        expressionLib = cwl_utils.expression_refactor.find_expressionLib([etool])
     inputs = yaml.comments.CommentedSeq()  # preserve the order
     for inp in etool.inputs:
         inputs.append(
@@ -2032,7 +2034,12 @@ def traverse_workflow(
     modified = False
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
+            workflow.steps[index].run = etool_to_cltool(
+                step.run,
+                cwl_utils.expression_refactor.find_expressionLib(
+                    [workflow, step, step.run]
+                ),
+            )
             modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index be6420c..60af585 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -175,6 +175,8 @@ def etool_to_cltool(
     etool: cwl.ExpressionTool, expressionLib: list[str] | None = None
 ) -> cwl.CommandLineTool:
     """Convert a ExpressionTool to a CommandLineTool."""
+    if expressionLib is None:
+        expressionLib = cwl_utils.expression_refactor.find_expressionLib([etool])
     inputs = yaml.comments.CommentedSeq()  # preserve the order
     for inp in etool.inputs:
         inputs.append(
@@ -2036,7 +2038,12 @@ def traverse_workflow(
     modified = False
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
+            workflow.steps[index].run = etool_to_cltool(
+                step.run,
+                cwl_utils.expression_refactor.find_expressionLib(
+                    [workflow, step, step.run]
+                ),
+            )
             modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 69dc8fb..af97788 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -174,6 +174,8 @@ def etool_to_cltool(
     etool: cwl.ExpressionTool, expressionLib: list[str] | None = None
 ) -> cwl.CommandLineTool:
     """Convert a ExpressionTool to a CommandLineTool."""
+    if expressionLib is None:
+        expressionLib = cwl_utils.expression_refactor.find_expressionLib([etool])
     inputs = yaml.comments.CommentedSeq()  # preserve the order
     for inp in etool.inputs:
         inputs.append(
@@ -2228,7 +2230,12 @@ def traverse_workflow(
     modified = False
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
-            workflow.steps[index].run = etool_to_cltool(step.run)
+            workflow.steps[index].run = etool_to_cltool(
+                step.run,
+                cwl_utils.expression_refactor.find_expressionLib(
+                    [workflow, step, step.run]
+                ),
+            )
             modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
-- 
2.43.0


From c459454c4370bdeb33d3d8e034578c59b6686525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:20 +0000
Subject: [PATCH 55/77] fix: reach inputs whose name is no JavaScript
 identifier

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 6e0a54e..eb6a8b0 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1736,7 +1736,7 @@ def generate_etool_from_expr2(
     )
     expression = "${"
     if self_name:
-        expression += f"\n  var self=inputs.{self_name};"
+        expression += f"\n  var self=inputs[{json_dumps(self_name)}];"
     expression += (
         """
   return {"result": function(){"""
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 60af585..0aa6f73 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1742,7 +1742,7 @@ def generate_etool_from_expr2(
     )
     expression = "${"
     if self_name:
-        expression += f"\n  var self=inputs.{self_name};"
+        expression += f"\n  var self=inputs[{json_dumps(self_name)}];"
     expression += (
         """
   return {"result": function(){"""
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index af97788..43385c8 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1855,7 +1855,7 @@ def generate_etool_from_expr2(
     )
     expression = "${"
     if self_name:
-        expression += f"\n  var self=inputs.{self_name};"
+        expression += f"\n  var self=inputs[{json_dumps(self_name)}];"
     expression += (
         """
   return {"result": function(){"""
-- 
2.43.0


From b1f8b77075713b490f4d83b6dd93b61b2dbe6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:43 +0000
Subject: [PATCH 56/77] fix: take the expressionLib nearest to a refactored
 expression

An expression of a tool got the library of the workflow around it, one of a
step the library of the tool that the step runs.
---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 8 ++++----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 8 ++++----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 8 ++++----
 src/cwl_utils/expression_refactor.py          | 4 +++-
 4 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index eb6a8b0..69bf51f 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1575,11 +1575,11 @@ def replace_step_clt_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        [workflow, step, step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
@@ -1622,11 +1622,11 @@ def replace_clt_hintreq_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        [workflow, step, step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 0aa6f73..3ad6e0f 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1577,11 +1577,11 @@ def replace_step_clt_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        [workflow, step, step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
@@ -1624,11 +1624,11 @@ def replace_clt_hintreq_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        [workflow, step, step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 43385c8..7c472a1 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1686,11 +1686,11 @@ def replace_step_clt_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        [workflow, step, step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
@@ -1733,11 +1733,11 @@ def replace_clt_hintreq_expr_with_etool(
         etool_inputs,
         self_name,
         step.run,
-        [workflow],
+        [workflow, step, step.run],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
-        processes = [workflow]
+        processes = [workflow, step, step.run]
         etool = cwl_utils.expression_refactor.etool_to_cltool(
             temp_etool,
             _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index f4f4353..2fea0e8 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -274,7 +274,9 @@ def generate_etool_from_expr2(
             requirements = [
                 x
                 for x in process.requirements
-                if not isinstance(x, InitialWorkDirRequirement)
+                if not isinstance(
+                    x, (InitialWorkDirRequirement, InlineJavascriptRequirement)
+                )
             ]
     cwlVersion = (
         process.cwlVersion if process and process.cwlVersion is not None else cwlVersion
-- 
2.43.0


From 430710387d9a9474a77307fe332d1c58dc7be636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 57/77] fix: let a replacing tool load the file contents and
 listings its code reads

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 11 +++++++++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 13 +++++++++++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 13 +++++++++++++
 3 files changed, 37 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 69bf51f..c01ff76 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -105,6 +105,15 @@ def get_command_line_binding(
     return cwl.CommandLineBinding(valueFrom=valueFrom, loadContents=loadContents)
 
 
+def content_binding(
+    parameter: cwl.InputParameter,
+) -> cwl.CommandLineBinding | None:
+    """Return a binding that only loads the contents, if the parameter asks for them."""
+    if parameter.inputBinding and parameter.inputBinding.loadContents:
+        return get_command_line_binding(loadContents=True)
+    return None
+
+
 def get_expression(
     string: str, inputs: CWLObjectType, self: CWLOutputType | None
 ) -> str | None:
@@ -187,6 +196,7 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                inputBinding=content_binding(inp),
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
@@ -1665,6 +1675,7 @@ def cltool_inputs_to_etool_inputs(
                         streamable=clt_inp.streamable,
                         doc=clt_inp.doc,
                         format=clt_inp.format,
+                        inputBinding=content_binding(clt_inp),
                         default=clt_inp.default,
                         type_=clt_inp.type_,
                         extension_fields=clt_inp.extension_fields,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 3ad6e0f..1887f95 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -105,6 +105,15 @@ def get_command_line_binding(
     return cwl.CommandLineBinding(valueFrom=valueFrom, loadContents=loadContents)
 
 
+def loads_contents(
+    parameter: cwl.CommandInputParameter | cwl.WorkflowInputParameter,
+) -> bool | None:
+    """Tell whether the parameter asks for the contents of its files."""
+    if parameter.inputBinding and parameter.inputBinding.loadContents:
+        return True
+    return parameter.loadContents
+
+
 def get_expression(
     string: str, inputs: CWLObjectType, self: CWLOutputType | None
 ) -> str | None:
@@ -187,6 +196,8 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=loads_contents(inp),
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
@@ -1667,6 +1678,8 @@ def cltool_inputs_to_etool_inputs(
                         streamable=clt_inp.streamable,
                         doc=clt_inp.doc,
                         format=clt_inp.format,
+                        loadContents=loads_contents(clt_inp),
+                        loadListing=clt_inp.loadListing,
                         default=clt_inp.default,
                         type_=clt_inp.type_,
                         extension_fields=clt_inp.extension_fields,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 7c472a1..d0c1277 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -104,6 +104,15 @@ def get_command_line_binding(
     return cwl.CommandLineBinding(valueFrom=valueFrom, loadContents=loadContents)
 
 
+def loads_contents(
+    parameter: cwl.CommandInputParameter | cwl.WorkflowInputParameter,
+) -> bool | None:
+    """Tell whether the parameter asks for the contents of its files."""
+    if parameter.inputBinding and parameter.inputBinding.loadContents:
+        return True
+    return parameter.loadContents
+
+
 def get_expression(
     string: str, inputs: CWLObjectType, self: CWLOutputType | None
 ) -> str | None:
@@ -186,6 +195,8 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=loads_contents(inp),
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
@@ -1776,6 +1787,8 @@ def cltool_inputs_to_etool_inputs(
                         streamable=clt_inp.streamable,
                         doc=clt_inp.doc,
                         format=clt_inp.format,
+                        loadContents=loads_contents(clt_inp),
+                        loadListing=clt_inp.loadListing,
                         default=clt_inp.default,
                         type_=clt_inp.type_,
                         extension_fields=clt_inp.extension_fields,
-- 
2.43.0


From 93d46521ec160c98e9185145515bf9f09b15e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:43 +0000
Subject: [PATCH 58/77] fix: name what is added to an embedded tool after its
 own parameters

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 16 +++++++++-------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 16 +++++++++-------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 16 +++++++++-------
 3 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index c01ff76..a148c0e 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -522,7 +522,7 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(param.type_)
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
@@ -607,7 +607,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1360,7 +1360,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1381,7 +1381,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.InputParameter(id=None, type_=glob_target_type)
@@ -1415,7 +1417,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1500,9 +1502,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 1887f95..a3ad648 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -521,7 +521,7 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(param.type_)
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
@@ -606,7 +606,7 @@ TOPLEVEL_FORMAT_EXPR_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1363,7 +1363,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1384,7 +1384,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
@@ -1418,7 +1420,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1503,9 +1505,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d0c1277..d748551 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -526,7 +526,7 @@ def empty_inputs(
     result = {}
     if isinstance(process_or_step, cwl.Process):
         for param in process_or_step.inputs:
-            result[param.id.split("#")[-1]] = example_input(param.type_)
+            result[param.id.split("#")[-1].split("/")[-1]] = example_input(param.type_)
     else:
         for param in process_or_step.in_:
             param_id = param.id.split("/")[-1]
@@ -655,7 +655,7 @@ PICKVALUE_ERROR = (
 
 def process_CommandLineTool_output(ctool: cwl.CommandLineTool, outp_id: str) -> None:
     for new_outp in ctool.outputs:
-        if new_outp.id.split("#")[-1] == outp_id:
+        if new_outp.id.split("#")[-1].split("/")[-1] == outp_id:
             if isinstance(
                 new_outp,
                 (
@@ -1472,7 +1472,7 @@ def traverse_CommandLineTool(
             )
             if expression:
                 modified = True
-                self_id = inp.id.split("#")[-1]
+                self_id = inp.id.split("#")[-1].split("/")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
                 replace_step_clt_expr_with_etool(
@@ -1493,7 +1493,9 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
                 if expression:
                     modified = True
-                    inp_id = "_{}_glob".format(outp.id.split("#")[-1])
+                    inp_id = "_{}_glob".format(
+                        outp.id.split("#")[-1].split("/")[-1]
+                    )
                     etool_id = f"_expression_{step_id}{inp_id}"
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
@@ -1527,7 +1529,7 @@ def traverse_CommandLineTool(
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     inp_id = f"_{outp_id}_outputEval"
                     etool_id = f"expression{inp_id}"
                     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1612,9 +1614,9 @@ def traverse_CommandLineTool(
                     for index, out in enumerate(new_clt_step.out):
                         new_clt_step.out[index] = out.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
+                        tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
+                        tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
                     sub_workflow = cwl.Workflow(
                         inputs=sub_wf_inputs,
-- 
2.43.0


From ea3b47bcdc41062078ce4987120ecfed1ed94e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:15 +0000
Subject: [PATCH 59/77] fix: connect the step for an argument given as text

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 4 +---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 4 +---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 4 +---
 3 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index a148c0e..90d15aa 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1295,9 +1295,7 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
                         target_clt, skip_command_line1
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index a3ad648..5058aa9 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1298,9 +1298,7 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
                         target_clt, skip_command_line1
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d748551..f80614e 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1407,9 +1407,7 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
                         target_clt, skip_command_line1
-- 
2.43.0


From 0a08cda44124bdd2b78356f3cb723d12bb32b4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:05 +0000
Subject: [PATCH 60/77] fix: give the step for an expression in a requirement
 the inputs of its tool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 20 ++++++++-----------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 20 ++++++++-----------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 20 ++++++++-----------
 3 files changed, 24 insertions(+), 36 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 90d15aa..4c32478 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1022,14 +1022,13 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
                         target_process.requirements[req_index][
                             env_index
@@ -1077,14 +1076,13 @@ def process_level_reqs(
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
-                        process,
                     )
                     target_process.requirements[req_index].listing = (
                         "$(inputs._iwdr_listing)",
@@ -1117,14 +1115,13 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
@@ -1200,14 +1197,13 @@ return result; }"""
                                 etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                                     step_name, listing_index
                                 )
-                                replace_expr_with_etool(
+                                replace_clt_hintreq_expr_with_etool(
                                     expression,
                                     etool_id,
                                     parent,
                                     target,
-                                    None,
+                                    step,
                                     replace_etool,
-                                    process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 5058aa9..65774b8 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1025,14 +1025,13 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
                         target_process.requirements[req_index][
                             env_index
@@ -1080,14 +1079,13 @@ def process_level_reqs(
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
-                        process,
                     )
                     target_process.requirements[req_index].listing = (
                         "$(inputs._iwdr_listing)",
@@ -1120,14 +1118,13 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
@@ -1203,14 +1200,13 @@ return result; }"""
                                 etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                                     step_name, listing_index
                                 )
-                                replace_expr_with_etool(
+                                replace_clt_hintreq_expr_with_etool(
                                     expression,
                                     etool_id,
                                     parent,
                                     target,
-                                    None,
+                                    step,
                                     replace_etool,
-                                    process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index f80614e..26dcbf8 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1134,14 +1134,13 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
                         target_process.requirements[req_index][
                             env_index
@@ -1189,14 +1188,13 @@ def process_level_reqs(
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
-                        process,
                     )
                     target_process.requirements[req_index].listing = (
                         "$(inputs._iwdr_listing)",
@@ -1229,14 +1227,13 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
-                            process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
@@ -1312,14 +1309,13 @@ return result; }"""
                                 etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                                     step_name, listing_index
                                 )
-                                replace_expr_with_etool(
+                                replace_clt_hintreq_expr_with_etool(
                                     expression,
                                     etool_id,
                                     parent,
                                     target,
-                                    None,
+                                    step,
                                     replace_etool,
-                                    process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
-- 
2.43.0


From 2c2db1a918f8f5b97ccedb66688712222bccb451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:29 +0000
Subject: [PATCH 61/77] fix: refer to the definition within an
 EnvVarRequirement

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 2 +-
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 4c32478..13a2ecc 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1030,7 +1030,7 @@ def process_level_reqs(
                             step,
                             replace_etool,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 65774b8..6a93c33 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1033,7 +1033,7 @@ def process_level_reqs(
                             step,
                             replace_etool,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 26dcbf8..e866c92 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1142,7 +1142,7 @@ def process_level_reqs(
                             step,
                             replace_etool,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
-- 
2.43.0


From c92c1836da0af65155d43def26e38ceedd72978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:59 +0000
Subject: [PATCH 62/77] fix: write whole references into the listing of a tool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 4 ++--
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 4 ++--
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 13a2ecc..e159d28 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1085,7 +1085,7 @@ def process_level_reqs(
                         replace_etool,
                     )
                     target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        "$(inputs._iwdr_listing)"
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
@@ -1125,7 +1125,7 @@ def process_level_reqs(
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 6a93c33..71dc3c5 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1088,7 +1088,7 @@ def process_level_reqs(
                         replace_etool,
                     )
                     target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        "$(inputs._iwdr_listing)"
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
@@ -1128,7 +1128,7 @@ def process_level_reqs(
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index e866c92..39e7a33 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1197,7 +1197,7 @@ def process_level_reqs(
                         replace_etool,
                     )
                     target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
+                        "$(inputs._iwdr_listing)"
                     )
                     step.in_.append(
                         cwl.WorkflowStepInput(
@@ -1237,7 +1237,7 @@ def process_level_reqs(
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
-- 
2.43.0


From a2afe854c833f7f240ec6e0cec1337005a9e0442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:21 +0000
Subject: [PATCH 63/77] fix: keep the name and the whole content of a file in
 the working directory

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 42 ++++---------------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 42 ++++---------------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 42 ++++---------------
 3 files changed, 27 insertions(+), 99 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index e159d28..60a16fc 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1134,34 +1134,10 @@ def process_level_reqs(
                             expression = get_expression(entry.entry, inputs, None)
                             if expression:
                                 modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
+                                # the text of a file, or files to stage
+                                d_target_type = (
+                                    "Any" if entry.entryname else ["File", "Directory"]
+                                )
                                 target = cwl.InputParameter(
                                     id=None,
                                     type_=d_target_type,
@@ -1171,7 +1147,7 @@ return result; }"""
                                 )
 
                                 replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
+                                    expression,
                                     etool_id,
                                     parent,
                                     target,
@@ -1186,7 +1162,7 @@ return result; }"""
                                 generated_iwdr_reqs.append(
                                     (etool_id, listing_index, d_target_type)
                                 )
-                        elif entry.entryname:
+                        if entry.entryname:
                             expression = get_expression(entry.entryname, inputs, None)
                             if expression:
                                 modified = True
@@ -1194,7 +1170,7 @@ return result; }"""
                                     id=None,
                                     type_="string",
                                 )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
+                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}_entryname".format(
                                     step_name, listing_index
                                 )
                                 replace_clt_hintreq_expr_with_etool(
@@ -1207,11 +1183,11 @@ return result; }"""
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
+                                ].entryname = "$(inputs._iwdr_listing_{}_entryname)".format(
                                     listing_index
                                 )
                                 generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
+                                    (etool_id, f"{listing_index}_entryname", "string")
                                 )
     for entry in generated_envVar_reqs:
         name = f"_envDef{entry[1]}"
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 71dc3c5..5c9238d 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1137,34 +1137,10 @@ def process_level_reqs(
                             expression = get_expression(entry.entry, inputs, None)
                             if expression:
                                 modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
+                                # the text of a file, or files to stage
+                                d_target_type = (
+                                    "Any" if entry.entryname else ["File", "Directory"]
+                                )
                                 target = cwl.WorkflowInputParameter(
                                     id=None,
                                     type_=d_target_type,
@@ -1174,7 +1150,7 @@ return result; }"""
                                 )
 
                                 replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
+                                    expression,
                                     etool_id,
                                     parent,
                                     target,
@@ -1189,7 +1165,7 @@ return result; }"""
                                 generated_iwdr_reqs.append(
                                     (etool_id, listing_index, d_target_type)
                                 )
-                        elif entry.entryname:
+                        if entry.entryname:
                             expression = get_expression(entry.entryname, inputs, None)
                             if expression:
                                 modified = True
@@ -1197,7 +1173,7 @@ return result; }"""
                                     id=None,
                                     type_="string",
                                 )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
+                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}_entryname".format(
                                     step_name, listing_index
                                 )
                                 replace_clt_hintreq_expr_with_etool(
@@ -1210,11 +1186,11 @@ return result; }"""
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
+                                ].entryname = "$(inputs._iwdr_listing_{}_entryname)".format(
                                     listing_index
                                 )
                                 generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
+                                    (etool_id, f"{listing_index}_entryname", "string")
                                 )
     for entry in generated_envVar_reqs:
         name = f"_envDef{entry[1]}"
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 39e7a33..027b2ec 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1246,34 +1246,10 @@ def process_level_reqs(
                             expression = get_expression(entry.entry, inputs, None)
                             if expression:
                                 modified = True
-                                if entry.entryname is not None:
-                                    entryname_expr = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    entryname = (
-                                        entry.entryname
-                                        if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
-                                    )
-                                    new_expression = (
-                                        "${var result; var entryname = "
-                                        + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
-if (typeof entry === 'string' || entry instanceof String) {
-result = {"class": "File", "basename": entryname, "contents": entry} ;
-if (typeof entryname === 'string' || entryname instanceof String) {
-result.basename = entryname ;
-}
-} else {
-result = entry ;
-}
-return result; }"""
-                                    )
-                                else:
-                                    new_expression = expression
-                                d_target_type = ["File", "Directory"]
+                                # the text of a file, or files to stage
+                                d_target_type = (
+                                    "Any" if entry.entryname else ["File", "Directory"]
+                                )
                                 target = cwl.WorkflowInputParameter(
                                     id=None,
                                     type_=d_target_type,
@@ -1283,7 +1259,7 @@ return result; }"""
                                 )
 
                                 replace_clt_hintreq_expr_with_etool(
-                                    new_expression,
+                                    expression,
                                     etool_id,
                                     parent,
                                     target,
@@ -1298,7 +1274,7 @@ return result; }"""
                                 generated_iwdr_reqs.append(
                                     (etool_id, listing_index, d_target_type)
                                 )
-                        elif entry.entryname:
+                        if entry.entryname:
                             expression = get_expression(entry.entryname, inputs, None)
                             if expression:
                                 modified = True
@@ -1306,7 +1282,7 @@ return result; }"""
                                     id=None,
                                     type_="string",
                                 )
-                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
+                                etool_id = "_expression_{}_InitialWorkDirRequirement_{}_entryname".format(
                                     step_name, listing_index
                                 )
                                 replace_clt_hintreq_expr_with_etool(
@@ -1319,11 +1295,11 @@ return result; }"""
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
-                                ].entryname = "$(inputs._iwdr_listing_{})".format(
+                                ].entryname = "$(inputs._iwdr_listing_{}_entryname)".format(
                                     listing_index
                                 )
                                 generated_iwdr_reqs.append(
-                                    (etool_id, listing_index, "string")
+                                    (etool_id, f"{listing_index}_entryname", "string")
                                 )
     for entry in generated_envVar_reqs:
         name = f"_envDef{entry[1]}"
-- 
2.43.0


From ed215010c264e1e0b99f1b814601c6bf39f8c81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:40 +0000
Subject: [PATCH 64/77] fix: give the step for a step input's expression all
 inputs of the step

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 71 +++++++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 67 ++++++++++-------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 71 +++++++++++--------
 3 files changed, 122 insertions(+), 87 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 60a16fc..70e87ad 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1854,6 +1854,8 @@ def traverse_step(
                     replace_etool,
                 )
                 inp.valueFrom = None
+                inp.default = None
+                inp.linkMerge = None
                 inp.source = f"{etool_id}/result"
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
@@ -1893,25 +1895,31 @@ def workflow_step_to_InputParameters(
         if not inp.id:
             continue
         inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    if not p.type_:
-                        raise WorkflowException(
-                            f"Don't know how to get type id for {p!r}."
-                        )
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(p.type_)
-                    params.append(p)
-            else:
-                if not param.type_:
-                    raise WorkflowException(
-                        f"Don't know how to get type id for {param!r}."
-                    )
-                param.id = inp_id
-                param.type_ = clean_type_ids(param.type_)
-                params.append(param)
+        if inp_id == except_in_id:
+            continue
+        type_: Any = "Any"
+        secondary_files = None
+        if inp.default is not None:
+            pass
+        elif not inp.source:
+            type_ = ["null", "Any"]
+        else:
+            type_ = utils.type_for_source(
+                parent, inp.source, None, inp.linkMerge
+            )
+            if isinstance(type_, (ArraySchema, cwl.InputRecordSchema)):
+                type_ = clean_type_ids(type_)
+            if isinstance(inp.source, str):
+                secondary_files = param_for_source_id(
+                    parent, sourcenames=inp.source
+                ).secondaryFiles
+        params.append(
+            cwl.InputParameter(
+                id=inp_id,
+                type_=type_,
+                secondaryFiles=secondary_files,
+            )
+        )
     return params
 
 
@@ -1936,10 +1944,14 @@ def replace_step_valueFrom_expr_with_etool(
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
     etool_inputs = workflow_step_to_InputParameters(
-        original_step_ins, workflow, step_inp_id
+        original_step_ins, workflow, ""
     )
-    if source:
-        source_param = cwl.InputParameter(id="self", type_="Any")
+    self_name = None
+    if source or step_inp.default is not None:
+        self_name = "self"
+        while any(x.id == self_name for x in etool_inputs):
+            self_name = "_" + self_name
+        source_param = cwl.InputParameter(id=self_name, type_="Any")
         # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
         etool_inputs.append(source_param)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
@@ -1947,7 +1959,7 @@ def replace_step_valueFrom_expr_with_etool(
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        self_name,
         original_process,
         [workflow, step],
     )
@@ -1967,8 +1979,10 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
+    if self_name:
+        self_input = copy.deepcopy(step_inp)
+        self_input.id = self_name
+        wf_step_inputs.append(self_input)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
         if wf_step_input.valueFrom:
@@ -1979,11 +1993,6 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
     scatter = copy.deepcopy(step.scatter)
     if isinstance(scatter, str):
         scatter = [scatter]
@@ -1991,7 +2000,7 @@ def replace_step_valueFrom_expr_with_etool(
         for index, entry in enumerate(scatter):
             scatter[index] = entry.split("/")[-1]
     if scatter and step_inp_id in scatter:
-        scatter = ["self"]
+        scatter = [self_name]
     # do we still need to scatter?
     else:
         scatter = None
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 5c9238d..742365b 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1862,6 +1862,8 @@ def traverse_step(
                     replace_etool,
                 )
                 inp.valueFrom = None
+                inp.default = None
+                inp.linkMerge = None
                 inp.source = f"{etool_id}/result"
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
@@ -1901,21 +1903,31 @@ def workflow_step_to_WorkflowInputParameters(
         if not inp.id:
             continue
         inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
-                    )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
+        if inp_id == except_in_id:
+            continue
+        type_: Any = "Any"
+        secondary_files = None
+        if inp.default is not None:
+            pass
+        elif not inp.source:
+            type_ = ["null", "Any"]
+        else:
+            type_ = utils.type_for_source(
+                parent, inp.source, None, inp.linkMerge
+            )
+            if isinstance(type_, (ArraySchema, cwl.InputRecordSchema)):
+                type_ = clean_type_ids(type_)
+            if isinstance(inp.source, str):
+                secondary_files = param_for_source_id(
+                    parent, sourcenames=inp.source
+                ).secondaryFiles
+        params.append(
+            cwl.WorkflowInputParameter(
+                id=inp_id,
+                type_=type_,
+                secondaryFiles=secondary_files,
+            )
+        )
     return params
 
 
@@ -1940,10 +1952,14 @@ def replace_step_valueFrom_expr_with_etool(
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
     etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, step_inp_id
+        original_step_ins, workflow, ""
     )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
+    self_name = None
+    if source or step_inp.default is not None:
+        self_name = "self"
+        while any(x.id == self_name for x in etool_inputs):
+            self_name = "_" + self_name
+        source_param = cwl.WorkflowInputParameter(id=self_name, type_="Any")
         # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
         etool_inputs.append(source_param)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
@@ -1951,7 +1967,7 @@ def replace_step_valueFrom_expr_with_etool(
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        self_name,
         original_process,
         [workflow, step],
     )
@@ -1971,8 +1987,10 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
+    if self_name:
+        self_input = copy.deepcopy(step_inp)
+        self_input.id = self_name
+        wf_step_inputs.append(self_input)
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -1985,11 +2003,6 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
     scatter = copy.deepcopy(step.scatter)
     if isinstance(scatter, str):
         scatter = [scatter]
@@ -1997,7 +2010,7 @@ def replace_step_valueFrom_expr_with_etool(
         for index, entry in enumerate(scatter):
             scatter[index] = entry.split("/")[-1]
     if scatter and step_inp_id in scatter:
-        scatter = ["self"]
+        scatter = [self_name]
     # do we still need to scatter?
     else:
         scatter = None
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 027b2ec..692a54a 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1975,13 +1975,16 @@ def traverse_step(
                     replace_etool,
                 )
                 inp.valueFrom = None
+                inp.default = None
+                inp.linkMerge = None
+                inp.pickValue = None
                 inp.source = f"{etool_id}/result"
     if step.when:
         expression = get_expression(string=step.when, inputs=inputs, self=None)
         if expression:
             modified = True
             replace_step_when_expr_with_etool(
-                expression, parent, step, original_step_ins, replace_etool
+                expression, parent, step, step.in_, replace_etool
             )
 
     # TODO: skip or special process for sub workflows?
@@ -2022,21 +2025,31 @@ def workflow_step_to_WorkflowInputParameters(
         if not inp.id:
             continue
         inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
-                    )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
+        if inp_id == except_in_id:
+            continue
+        type_: Any = "Any"
+        secondary_files = None
+        if inp.default is not None:
+            pass
+        elif not inp.source:
+            type_ = ["null", "Any"]
+        else:
+            type_ = utils.type_for_source(
+                parent, inp.source, None, inp.linkMerge, inp.pickValue
+            )
+            if isinstance(type_, (ArraySchema, cwl.InputRecordSchema)):
+                type_ = clean_type_ids(type_)
+            if isinstance(inp.source, str):
+                secondary_files = param_for_source_id(
+                    parent, sourcenames=inp.source
+                ).secondaryFiles
+        params.append(
+            cwl.WorkflowInputParameter(
+                id=inp_id,
+                type_=type_,
+                secondaryFiles=secondary_files,
+            )
+        )
     return params
 
 
@@ -2061,10 +2074,14 @@ def replace_step_valueFrom_expr_with_etool(
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
     etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, step_inp_id
+        original_step_ins, workflow, ""
     )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
+    self_name = None
+    if source or step_inp.default is not None:
+        self_name = "self"
+        while any(x.id == self_name for x in etool_inputs):
+            self_name = "_" + self_name
+        source_param = cwl.WorkflowInputParameter(id=self_name, type_="Any")
         # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
         etool_inputs.append(source_param)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
@@ -2072,7 +2089,7 @@ def replace_step_valueFrom_expr_with_etool(
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        self_name,
         original_process,
         [workflow, step],
     )
@@ -2092,8 +2109,10 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
+    if self_name:
+        self_input = copy.deepcopy(step_inp)
+        self_input.id = self_name
+        wf_step_inputs.append(self_input)
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -2106,11 +2125,6 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
     scatter = copy.deepcopy(step.scatter)
     if isinstance(scatter, str):
         scatter = [scatter]
@@ -2118,7 +2132,7 @@ def replace_step_valueFrom_expr_with_etool(
         for index, entry in enumerate(scatter):
             scatter[index] = entry.split("/")[-1]
     if scatter and step_inp_id in scatter:
-        scatter = ["self"]
+        scatter = [self_name]
     # do we still need to scatter?
     else:
         scatter = None
@@ -2183,7 +2197,6 @@ def replace_step_when_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id and not x.id.startswith("_")]
     scatter = copy.deepcopy(step.scatter)
     if isinstance(scatter, str):
         scatter = [scatter]
-- 
2.43.0


From 3254af7d4891978a6a9a4257b8360569cc77481f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:31 +0000
Subject: [PATCH 65/77] fix: evaluate the inputs of a step once when an
 outputEval is refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 11 ++++++++---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 11 ++++++++---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 14 +++++++++++---
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 70e87ad..dfd4aba 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -528,7 +528,7 @@ def empty_inputs(
             param_id = param.id.split("/")[-1]
             if param.source is None and param.valueFrom:
                 result[param_id] = example_input("string")
-            elif param.source is None and param.default:
+            elif param.source is None:
                 result[param_id] = param.default
             else:
                 with suppress(WorkflowException):
@@ -1423,7 +1423,7 @@ def traverse_CommandLineTool(
                         if isinstance(orig_step_input.source, MutableSequence):
                             for index, source in enumerate(orig_step_input.source):
                                 orig_step_input.source[index] = source.split("#")[-1]
-                        else:
+                        elif orig_step_input.source:
                             orig_step_input.source = orig_step_input.source.split("#")[
                                 -1
                             ]
@@ -1433,6 +1433,8 @@ def traverse_CommandLineTool(
                     for inp in orig_step_inputs:
                         inp.source = inp.id
                         inp.linkMerge = None
+                        inp.valueFrom = None
+                        inp.default = None
                     final_etool: (
                         cwl_utils.parser.CommandLineTool
                         | cwl_utils.parser.ExpressionTool
@@ -1469,8 +1471,11 @@ def traverse_CommandLineTool(
                         inp.id = inp.id.split("/")[-1]
                         inp.source = inp.id
                         inp.linkMerge = None
+                        inp.valueFrom = None
+                        inp.default = None
                     for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
+                        out_id = out if isinstance(out, str) else out.id
+                        new_clt_step.out[index] = out_id.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
                         tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 742365b..36ecc64 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -527,7 +527,7 @@ def empty_inputs(
             param_id = param.id.split("/")[-1]
             if param.source is None and param.valueFrom:
                 result[param_id] = example_input("string")
-            elif param.source is None and param.default:
+            elif param.source is None:
                 result[param_id] = param.default
             else:
                 with suppress(WorkflowException):
@@ -1426,7 +1426,7 @@ def traverse_CommandLineTool(
                         if isinstance(orig_step_input.source, MutableSequence):
                             for index, source in enumerate(orig_step_input.source):
                                 orig_step_input.source[index] = source.split("#")[-1]
-                        else:
+                        elif orig_step_input.source:
                             orig_step_input.source = orig_step_input.source.split("#")[
                                 -1
                             ]
@@ -1436,6 +1436,8 @@ def traverse_CommandLineTool(
                     for inp in orig_step_inputs:
                         inp.source = inp.id
                         inp.linkMerge = None
+                        inp.valueFrom = None
+                        inp.default = None
                     final_etool: (
                         cwl_utils.parser.CommandLineTool
                         | cwl_utils.parser.ExpressionTool
@@ -1472,8 +1474,11 @@ def traverse_CommandLineTool(
                         inp.id = inp.id.split("/")[-1]
                         inp.source = inp.id
                         inp.linkMerge = None
+                        inp.valueFrom = None
+                        inp.default = None
                     for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
+                        out_id = out if isinstance(out, str) else out.id
+                        new_clt_step.out[index] = out_id.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
                         tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 692a54a..6633a5d 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -532,7 +532,7 @@ def empty_inputs(
             param_id = param.id.split("/")[-1]
             if param.source is None and param.valueFrom:
                 result[param_id] = example_input("string")
-            elif param.source is None and param.default:
+            elif param.source is None:
                 result[param_id] = param.default
             else:
                 with suppress(WorkflowException):
@@ -1535,7 +1535,7 @@ def traverse_CommandLineTool(
                         if isinstance(orig_step_input.source, MutableSequence):
                             for index, source in enumerate(orig_step_input.source):
                                 orig_step_input.source[index] = source.split("#")[-1]
-                        else:
+                        elif orig_step_input.source:
                             orig_step_input.source = orig_step_input.source.split("#")[
                                 -1
                             ]
@@ -1545,6 +1545,9 @@ def traverse_CommandLineTool(
                     for inp in orig_step_inputs:
                         inp.source = inp.id
                         inp.linkMerge = None
+                        inp.pickValue = None
+                        inp.valueFrom = None
+                        inp.default = None
                     final_etool: (
                         cwl_utils.parser.CommandLineTool
                         | cwl_utils.parser.ExpressionTool
@@ -1581,8 +1584,12 @@ def traverse_CommandLineTool(
                         inp.id = inp.id.split("/")[-1]
                         inp.source = inp.id
                         inp.linkMerge = None
+                        inp.pickValue = None
+                        inp.valueFrom = None
+                        inp.default = None
                     for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
+                        out_id = out if isinstance(out, str) else out.id
+                        new_clt_step.out[index] = out_id.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
                         tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
                     for tool_out in new_clt_step.run.outputs:
@@ -1596,6 +1603,7 @@ def traverse_CommandLineTool(
                     )
                     if step.scatter:
                         new_clt_step.scatter = None
+                    new_clt_step.when = None
                     step.run = sub_workflow
                     rename_step_source(
                         sub_workflow,
-- 
2.43.0


From 4c809f448c89ecf2a796b03f57ccd56747128d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:37 +0000
Subject: [PATCH 66/77] fix: connect all inputs of a tool whose outputEval is
 refactored

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 15 +++++++++++++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 15 +++++++++++++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 15 +++++++++++++++
 3 files changed, 45 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index dfd4aba..5eae78f 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1478,6 +1478,21 @@ def traverse_CommandLineTool(
                         new_clt_step.out[index] = out_id.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
                         tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
+                    tool_inp_ids = [x.id for x in new_clt_step.run.inputs]
+                    new_clt_step.in_[:] = [
+                        x for x in new_clt_step.in_ if x.id in tool_inp_ids
+                    ]
+                    orig_step_inputs[:] = [
+                        x for x in orig_step_inputs if x.id in tool_inp_ids
+                    ]
+                    sub_wf_inp_ids = [x.id for x in sub_wf_inputs]
+                    for tool_inp in new_clt_step.run.inputs:
+                        if tool_inp.id not in sub_wf_inp_ids:
+                            sub_wf_inputs.append(
+                                cwl.InputParameter(
+                                    id=tool_inp.id, type_=tool_inp.type_
+                                )
+                            )
                     for tool_out in new_clt_step.run.outputs:
                         tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 36ecc64..966d7d0 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1481,6 +1481,21 @@ def traverse_CommandLineTool(
                         new_clt_step.out[index] = out_id.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
                         tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
+                    tool_inp_ids = [x.id for x in new_clt_step.run.inputs]
+                    new_clt_step.in_[:] = [
+                        x for x in new_clt_step.in_ if x.id in tool_inp_ids
+                    ]
+                    orig_step_inputs[:] = [
+                        x for x in orig_step_inputs if x.id in tool_inp_ids
+                    ]
+                    sub_wf_inp_ids = [x.id for x in sub_wf_inputs]
+                    for tool_inp in new_clt_step.run.inputs:
+                        if tool_inp.id not in sub_wf_inp_ids:
+                            sub_wf_inputs.append(
+                                cwl.WorkflowInputParameter(
+                                    id=tool_inp.id, type_=tool_inp.type_
+                                )
+                            )
                     for tool_out in new_clt_step.run.outputs:
                         tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 6633a5d..5b88d5d 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1592,6 +1592,21 @@ def traverse_CommandLineTool(
                         new_clt_step.out[index] = out_id.split("/")[-1]
                     for tool_inp in new_clt_step.run.inputs:
                         tool_inp.id = tool_inp.id.split("#")[-1].split("/")[-1]
+                    tool_inp_ids = [x.id for x in new_clt_step.run.inputs]
+                    new_clt_step.in_[:] = [
+                        x for x in new_clt_step.in_ if x.id in tool_inp_ids
+                    ]
+                    orig_step_inputs[:] = [
+                        x for x in orig_step_inputs if x.id in tool_inp_ids
+                    ]
+                    sub_wf_inp_ids = [x.id for x in sub_wf_inputs]
+                    for tool_inp in new_clt_step.run.inputs:
+                        if tool_inp.id not in sub_wf_inp_ids:
+                            sub_wf_inputs.append(
+                                cwl.WorkflowInputParameter(
+                                    id=tool_inp.id, type_=tool_inp.type_
+                                )
+                            )
                     for tool_out in new_clt_step.run.outputs:
                         tool_out.id = tool_out.id.split("#")[-1].split("/")[-1]
                     sub_wf_steps = [new_clt_step, etool_step]
-- 
2.43.0


From 0e8e0491c467e7b224a4e2b6bb606f6f08b78332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:43 +0000
Subject: [PATCH 67/77] fix: refactor a second outputEval within the first

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 4 ++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 4 ++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 5eae78f..fea8704 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1371,6 +1371,8 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    for outp in clt.outputs:
+        if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1524,6 +1526,8 @@ def traverse_CommandLineTool(
                             parent.requirements.append(
                                 cwl.SubworkflowFeatureRequirement()
                             )
+                    # a further outputEval is within the step that has the tool
+                    step = new_clt_step
     return modified
 
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 966d7d0..33c7f1d 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1374,6 +1374,8 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    for outp in clt.outputs:
+        if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1527,6 +1529,8 @@ def traverse_CommandLineTool(
                             parent.requirements.append(
                                 cwl.SubworkflowFeatureRequirement()
                             )
+                    # a further outputEval is within the step that has the tool
+                    step = new_clt_step
     return modified
 
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 5b88d5d..d4cff09 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1483,6 +1483,8 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    for outp in clt.outputs:
+        if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
                 self: CWLOutputType = [
                     {
@@ -1639,6 +1641,8 @@ def traverse_CommandLineTool(
                             parent.requirements.append(
                                 cwl.SubworkflowFeatureRequirement()
                             )
+                    # a further outputEval is within the step that has the tool
+                    step = new_clt_step
     return modified
 
 
-- 
2.43.0


From 2e159a7b3880189fc42fcf68f4c414edb523f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:50 +0000
Subject: [PATCH 68/77] fix: replace the valueFrom and glob of the tool in the
 step

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 12 ++++++++----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 12 ++++++++----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 12 ++++++++----
 3 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index fea8704..b1d5f29 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1323,7 +1323,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1336,7 +1336,9 @@ def traverse_CommandLineTool(
                 replace_step_clt_expr_with_etool(
                     expression, etool_id, parent, inp, step, replace_etool, self_id
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = (
+                    f"$(inputs.{inp_id})"
+                )
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
@@ -1345,7 +1347,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1360,7 +1362,9 @@ def traverse_CommandLineTool(
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[index].outputBinding.glob = (
+                        f"$(inputs.{inp_id})"
+                    )
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 33c7f1d..8bd78b4 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1326,7 +1326,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1339,7 +1339,9 @@ def traverse_CommandLineTool(
                 replace_step_clt_expr_with_etool(
                     expression, etool_id, parent, inp, step, replace_etool, self_id
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = (
+                    f"$(inputs.{inp_id})"
+                )
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
@@ -1348,7 +1350,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1363,7 +1365,9 @@ def traverse_CommandLineTool(
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[index].outputBinding.glob = (
+                        f"$(inputs.{inp_id})"
+                    )
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index d4cff09..994cc3f 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1435,7 +1435,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1448,7 +1448,9 @@ def traverse_CommandLineTool(
                 replace_step_clt_expr_with_etool(
                     expression, etool_id, parent, inp, step, replace_etool, self_id
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = (
+                    f"$(inputs.{inp_id})"
+                )
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
                         target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
@@ -1457,7 +1459,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1472,7 +1474,9 @@ def traverse_CommandLineTool(
                     replace_step_clt_expr_with_etool(
                         expression, etool_id, parent, target, step, replace_etool
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[index].outputBinding.glob = (
+                        f"$(inputs.{inp_id})"
+                    )
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
-- 
2.43.0


From db942ef4e4f591c4cbaab20717f4a6e9a73ed035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:55 +0000
Subject: [PATCH 69/77] fix: keep the InlineJavascriptRequirement, and its
 library, where it is needed

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 44 ++++++++++++++-----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 44 ++++++++++++++-----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 44 ++++++++++++++-----
 src/cwl_utils/expression_refactor.py          | 28 +++++++++++-
 4 files changed, 125 insertions(+), 35 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index b1d5f29..bf6ccce 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1269,9 +1269,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
             elif isinstance(arg, cwl_utils.parser.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
@@ -1296,9 +1293,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
         if stream_value:
@@ -1375,6 +1369,7 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    settle_JSReq(target_clt, step, parent, modified)
     for outp in clt.outputs:
         if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
@@ -1404,7 +1399,7 @@ def traverse_CommandLineTool(
                         type_=cwl.InputArraySchema("File", "array", None, None),
                     )
                     etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
+                        expression, outp, False, self_type, [parent, step, clt]
                     )
                     if outp.outputBinding.loadContents:
                         etool.inputs[0].type_.inputBinding = (
@@ -1449,7 +1444,9 @@ def traverse_CommandLineTool(
                         final_etool = cwl_utils.expression_refactor.etool_to_cltool(
                             etool,
                             _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
+                            cwl_utils.expression_refactor.find_expressionLib(
+                                [parent, step, clt]
+                            ),
                         )
                     else:
                         final_etool = etool
@@ -1466,12 +1463,10 @@ def traverse_CommandLineTool(
                     new_clt_step.id = new_clt_step.id.split("#")[-1]
                     new_clt_step.run = copy.copy(step.run)
                     new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
                     cwl_utils.expression_refactor.process_CommandLineTool_output(
                         new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
                     )
+                    settle_JSReq(new_clt_step.run, step, parent, modified)
                     new_clt_step.in_ = copy.deepcopy(step.in_)
                     for inp in new_clt_step.in_:
                         inp.id = inp.id.split("/")[-1]
@@ -1535,6 +1530,33 @@ def traverse_CommandLineTool(
     return modified
 
 
+def settle_JSReq(
+    clt: cwl.CommandLineTool,
+    step: cwl.WorkflowStep,
+    parent: cwl.Workflow,
+    modified: bool,
+) -> None:
+    """
+    Remove the InlineJavascriptRequirement, unless expressions remain.
+
+    The workflow loses its own, so a tool that relies on that gets a copy.
+    """
+    inputs = cwl_utils.expression_refactor.empty_inputs(clt, _DEFAULT_CWL_VERSION)
+    if not any(
+        get_expression(text, inputs, None)
+        for text in cwl_utils.expression_refactor.texts(clt)
+    ):
+        if modified:
+            cwl_utils.expression_refactor.remove_JSReq(clt, False)
+    elif not any(
+        isinstance(req, cwl.InlineJavascriptRequirement)
+        for req in [*(clt.requirements or []), *(step.requirements or [])]
+    ):
+        for req in parent.requirements or []:
+            if isinstance(req, cwl.InlineJavascriptRequirement):
+                clt.requirements = [*(clt.requirements or []), copy.deepcopy(req)]
+
+
 def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
     """Update step source names to the new name."""
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 8bd78b4..e272b20 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1272,9 +1272,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
             elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
@@ -1299,9 +1296,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
         if stream_value:
@@ -1378,6 +1372,7 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    settle_JSReq(target_clt, step, parent, modified)
     for outp in clt.outputs:
         if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
@@ -1407,7 +1402,7 @@ def traverse_CommandLineTool(
                         type_=cwl.InputArraySchema("File", "array", None, None),
                     )
                     etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
+                        expression, outp, False, self_type, [parent, step, clt]
                     )
                     if outp.outputBinding.loadContents:
                         etool.inputs[0].type_.inputBinding = (
@@ -1452,7 +1447,9 @@ def traverse_CommandLineTool(
                         final_etool = cwl_utils.expression_refactor.etool_to_cltool(
                             etool,
                             _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
+                            cwl_utils.expression_refactor.find_expressionLib(
+                                [parent, step, clt]
+                            ),
                         )
                     else:
                         final_etool = etool
@@ -1469,12 +1466,10 @@ def traverse_CommandLineTool(
                     new_clt_step.id = new_clt_step.id.split("#")[-1]
                     new_clt_step.run = copy.copy(step.run)
                     new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
                     cwl_utils.expression_refactor.process_CommandLineTool_output(
                         new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
                     )
+                    settle_JSReq(new_clt_step.run, step, parent, modified)
                     new_clt_step.in_ = copy.deepcopy(step.in_)
                     for inp in new_clt_step.in_:
                         inp.id = inp.id.split("/")[-1]
@@ -1538,6 +1533,33 @@ def traverse_CommandLineTool(
     return modified
 
 
+def settle_JSReq(
+    clt: cwl.CommandLineTool,
+    step: cwl.WorkflowStep,
+    parent: cwl.Workflow,
+    modified: bool,
+) -> None:
+    """
+    Remove the InlineJavascriptRequirement, unless expressions remain.
+
+    The workflow loses its own, so a tool that relies on that gets a copy.
+    """
+    inputs = cwl_utils.expression_refactor.empty_inputs(clt, _DEFAULT_CWL_VERSION)
+    if not any(
+        get_expression(text, inputs, None)
+        for text in cwl_utils.expression_refactor.texts(clt)
+    ):
+        if modified:
+            cwl_utils.expression_refactor.remove_JSReq(clt, False)
+    elif not any(
+        isinstance(req, cwl.InlineJavascriptRequirement)
+        for req in [*(clt.requirements or []), *(step.requirements or [])]
+    ):
+        for req in parent.requirements or []:
+            if isinstance(req, cwl.InlineJavascriptRequirement):
+                clt.requirements = [*(clt.requirements or []), copy.deepcopy(req)]
+
+
 def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
     """Update step source names to the new name."""
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 994cc3f..1982f82 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1381,9 +1381,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
             elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
@@ -1408,9 +1405,6 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
-                    )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
         if stream_value:
@@ -1487,6 +1481,7 @@ def traverse_CommandLineTool(
                     step.in_.append(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
+    settle_JSReq(target_clt, step, parent, modified)
     for outp in clt.outputs:
         if outp.outputBinding:
             if outp.outputBinding.outputEval and not skip_command_line2:
@@ -1516,7 +1511,7 @@ def traverse_CommandLineTool(
                         type_=cwl.InputArraySchema("File", "array", None, None),
                     )
                     etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
+                        expression, outp, False, self_type, [parent, step, clt]
                     )
                     if outp.outputBinding.loadContents:
                         etool.inputs[0].type_.inputBinding = (
@@ -1562,7 +1557,9 @@ def traverse_CommandLineTool(
                         final_etool = cwl_utils.expression_refactor.etool_to_cltool(
                             etool,
                             _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
+                            cwl_utils.expression_refactor.find_expressionLib(
+                                [parent, step, clt]
+                            ),
                         )
                     else:
                         final_etool = etool
@@ -1579,12 +1576,10 @@ def traverse_CommandLineTool(
                     new_clt_step.id = new_clt_step.id.split("#")[-1]
                     new_clt_step.run = copy.copy(step.run)
                     new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
                     cwl_utils.expression_refactor.process_CommandLineTool_output(
                         new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
                     )
+                    settle_JSReq(new_clt_step.run, step, parent, modified)
                     new_clt_step.in_ = copy.deepcopy(step.in_)
                     for inp in new_clt_step.in_:
                         inp.id = inp.id.split("/")[-1]
@@ -1650,6 +1645,33 @@ def traverse_CommandLineTool(
     return modified
 
 
+def settle_JSReq(
+    clt: cwl.CommandLineTool,
+    step: cwl.WorkflowStep,
+    parent: cwl.Workflow,
+    modified: bool,
+) -> None:
+    """
+    Remove the InlineJavascriptRequirement, unless expressions remain.
+
+    The workflow loses its own, so a tool that relies on that gets a copy.
+    """
+    inputs = cwl_utils.expression_refactor.empty_inputs(clt, _DEFAULT_CWL_VERSION)
+    if not any(
+        get_expression(text, inputs, None)
+        for text in cwl_utils.expression_refactor.texts(clt)
+    ):
+        if modified:
+            cwl_utils.expression_refactor.remove_JSReq(clt, False)
+    elif not any(
+        isinstance(req, cwl.InlineJavascriptRequirement)
+        for req in [*(clt.requirements or []), *(step.requirements or [])]
+    ):
+        for req in parent.requirements or []:
+            if isinstance(req, cwl.InlineJavascriptRequirement):
+                clt.requirements = [*(clt.requirements or []), copy.deepcopy(req)]
+
+
 def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
     """Update step source names to the new name."""
 
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 2fea0e8..e2303b8 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -8,13 +8,13 @@ import copy
 import logging
 import shutil
 import sys
-from collections.abc import MutableMapping, MutableSequence, Sequence
+from collections.abc import Iterator, MutableMapping, MutableSequence, Sequence
 from pathlib import Path
 from typing import Any, Protocol, cast, Literal, overload
 
 from ruamel.yaml.main import YAML
 from ruamel.yaml.scalarstring import walk_tree
-from schema_salad.runtime import save, LoadingOptions
+from schema_salad.runtime import save, LoadingOptions, Saveable
 
 from cwl_utils import (
     cwl_v1_0_expression_refactor,
@@ -49,6 +49,17 @@ _logger.addHandler(defaultStreamHandler)
 _logger.setLevel(logging.INFO)
 _cwlutilslogger.setLevel(100)
 
+# attributes whose text is never evaluated
+NO_EXPRESSIONS = (
+    "id",
+    "label",
+    "doc",
+    "baseCommand",
+    "expressionLib",
+    "loadingOptions",
+    "extension_fields",
+)
+
 save_type = (
     MutableMapping[str, Any] | MutableSequence[Any] | int | float | bool | str | None
 )
@@ -578,6 +589,19 @@ def process_CommandLineTool_output(
             )
 
 
+def texts(thing: Any) -> Iterator[str]:
+    """Give the texts in a part of a document that could be expressions."""
+    if isinstance(thing, str):
+        yield thing
+    elif isinstance(thing, MutableSequence):
+        for item in thing:
+            yield from texts(item)
+    elif isinstance(thing, Saveable):
+        for name, value in vars(thing).items():
+            if name not in NO_EXPRESSIONS:
+                yield from texts(value)
+
+
 def remove_JSReq(
     process: CommandLineTool | WorkflowStep | Workflow,
     skip_command_line1: bool,
-- 
2.43.0


From fa937d366b3ac2b0429989855359e0f84be162b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:01 +0000
Subject: [PATCH 70/77] fix: give an ExpressionTool the JavaScript requirement
 of its workflow

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 44 +++++++++----------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 44 +++++++++----------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 44 +++++++++----------
 3 files changed, 66 insertions(+), 66 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index bf6ccce..f1e262d 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1869,28 +1869,6 @@ def traverse_step(
                     else:
                         input_source_id = inp.source.split("#")[-1]
                 # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
-                        )
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
@@ -1907,6 +1885,28 @@ def traverse_step(
                 inp.default = None
                 inp.linkMerge = None
                 inp.source = f"{etool_id}/result"
+    if isinstance(original_process, cwl_utils.parser.ExpressionTool):
+        reqs: list[cwl.ProcessRequirement] = []
+        if original_process.hints:
+            reqs.extend(original_process.hints)
+        if original_process.requirements:
+            reqs.extend(original_process.requirements)
+        for req in reqs:
+            if isinstance(
+                req, cwl_utils.parser.InlineJavascriptRequirement
+            ):
+                break
+        else:
+            if not step.run.requirements:
+                step.run.requirements = []
+            expr_lib = cwl_utils.expression_refactor.find_expressionLib(
+                [parent, step]
+            )
+            step.run.requirements.append(
+                cwl_utils.expression_refactor.get_inline_javascript_requirement(
+                    step.run, _DEFAULT_CWL_VERSION, expr_lib
+                )
+            )
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
         original_process,
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index e272b20..4f231cc 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1877,28 +1877,6 @@ def traverse_step(
                     else:
                         input_source_id = inp.source.split("#")[-1]
                 # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
-                        )
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
@@ -1915,6 +1893,28 @@ def traverse_step(
                 inp.default = None
                 inp.linkMerge = None
                 inp.source = f"{etool_id}/result"
+    if isinstance(original_process, cwl_utils.parser.ExpressionTool):
+        reqs: list[cwl.ProcessRequirement] = []
+        if original_process.hints:
+            reqs.extend(original_process.hints)
+        if original_process.requirements:
+            reqs.extend(original_process.requirements)
+        for req in reqs:
+            if isinstance(
+                req, cwl_utils.parser.InlineJavascriptRequirement
+            ):
+                break
+        else:
+            if not step.run.requirements:
+                step.run.requirements = []
+            expr_lib = cwl_utils.expression_refactor.find_expressionLib(
+                [parent, step]
+            )
+            step.run.requirements.append(
+                cwl_utils.expression_refactor.get_inline_javascript_requirement(
+                    step.run, _DEFAULT_CWL_VERSION, expr_lib
+                )
+            )
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
         original_process,
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 1982f82..b2e5c65 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1993,28 +1993,6 @@ def traverse_step(
                     else:
                         input_source_id = inp.source.split("#")[-1]
                 # target.id = target.id.split('#')[-1]
-                if isinstance(original_process, cwl_utils.parser.ExpressionTool):
-                    reqs: list[cwl.ProcessRequirement] = []
-                    if original_process.hints:
-                        reqs.extend(original_process.hints)
-                    if original_process.requirements:
-                        reqs.extend(original_process.requirements)
-                    for req in reqs:
-                        if isinstance(
-                            req, cwl_utils.parser.InlineJavascriptRequirement
-                        ):
-                            break
-                    else:
-                        if not step.run.requirements:
-                            step.run.requirements = []
-                        expr_lib = cwl_utils.expression_refactor.find_expressionLib(
-                            [parent]
-                        )
-                        step.run.requirements.append(
-                            cwl_utils.expression_refactor.get_inline_javascript_requirement(
-                                step.run, _DEFAULT_CWL_VERSION, expr_lib
-                            )
-                        )
                 replace_step_valueFrom_expr_with_etool(
                     expression,
                     etool_id,
@@ -2040,6 +2018,28 @@ def traverse_step(
                 expression, parent, step, step.in_, replace_etool
             )
 
+    if isinstance(original_process, cwl_utils.parser.ExpressionTool):
+        reqs: list[cwl.ProcessRequirement] = []
+        if original_process.hints:
+            reqs.extend(original_process.hints)
+        if original_process.requirements:
+            reqs.extend(original_process.requirements)
+        for req in reqs:
+            if isinstance(
+                req, cwl_utils.parser.InlineJavascriptRequirement
+            ):
+                break
+        else:
+            if not step.run.requirements:
+                step.run.requirements = []
+            expr_lib = cwl_utils.expression_refactor.find_expressionLib(
+                [parent, step]
+            )
+            step.run.requirements.append(
+                cwl_utils.expression_refactor.get_inline_javascript_requirement(
+                    step.run, _DEFAULT_CWL_VERSION, expr_lib
+                )
+            )
     # TODO: skip or special process for sub workflows?
     process_modified = process_level_reqs(
         original_process,
-- 
2.43.0


From 339a7516a168a08b72ea6bed864d5bfabbaec8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:27 +0000
Subject: [PATCH 71/77] fix: merge the sources of an output before a value is
 picked

---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b2e5c65..0f088c4 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -763,7 +763,9 @@ def process_workflow_inputs_and_outputs(
                     None,
                     source_type,
                 )
+                workflow.steps[-1].in_[0].linkMerge = param2.linkMerge
                 param2.outputSource = f"{etool_id}/result"
+                param2.linkMerge = None
                 param2.pickValue = None
                 generated_pickValue_steps.append(etool_id)
     return modified
-- 
2.43.0


From 2cff2e0ee5c388907f14ba649137bb365dc826fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:40 +0000
Subject: [PATCH 72/77] fix: name the step and the connections of a refactored
 CommandLineTool

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 7 ++++---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 7 ++++---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 7 ++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index f1e262d..c28a921 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -269,7 +269,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -294,7 +294,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -311,7 +311,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -321,6 +321,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 4f231cc..287ac9e 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -270,7 +270,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -295,7 +295,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -312,7 +312,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -322,6 +322,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 0f088c4..4909f30 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -271,7 +271,7 @@ def traverse(
             step_outputs = []
             if process.inputs:
                 for inp in process.inputs:
-                    inp_id = inp.id.split("#")[-1]
+                    inp_id = inp.id.split("#")[-1].split("/")[-1]
                     step_inputs.append(
                         cwl.WorkflowStepInput(
                             id=inp_id,
@@ -296,7 +296,7 @@ def traverse(
                     )
             if process.outputs:
                 for outp in process.outputs:
-                    outp_id = outp.id.split("#")[-1]
+                    outp_id = outp.id.split("#")[-1].split("/")[-1]
                     step_outputs.append(outp_id)
                     wf_outputs.append(
                         cwl.WorkflowOutputParameter(
@@ -313,7 +313,7 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
@@ -323,6 +323,7 @@ def traverse(
                 outputs=wf_outputs,
                 steps=[step],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
-- 
2.43.0


From 1122940a25f6191a87672e407e0ec1832e518f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:47 +0000
Subject: [PATCH 73/77] fix: refactor a workflow that has an id

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py |  1 +
 src/cwl_utils/cwl_v1_1_expression_refactor.py |  1 +
 src/cwl_utils/cwl_v1_2_expression_refactor.py |  1 +
 src/cwl_utils/expression_refactor.py          | 32 +++++++++++++++++++
 4 files changed, 35 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index c28a921..9049e30 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -2075,6 +2075,7 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
+    cwl_utils.expression_refactor.drop_workflow_name(workflow)
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
             workflow.steps[index].run = etool_to_cltool(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 287ac9e..fa330d7 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -2085,6 +2085,7 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
+    cwl_utils.expression_refactor.drop_workflow_name(workflow)
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
             workflow.steps[index].run = etool_to_cltool(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 4909f30..c33234f 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -2282,6 +2282,7 @@ def traverse_workflow(
 ) -> tuple[cwl.Workflow, bool]:
     """Traverse a workflow, processing each step."""
     modified = False
+    cwl_utils.expression_refactor.drop_workflow_name(workflow)
     for index, step in enumerate(workflow.steps):
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
             workflow.steps[index].run = etool_to_cltool(
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index e2303b8..324382c 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -589,6 +589,38 @@ def process_CommandLineTool_output(
             )
 
 
+def drop_workflow_name(workflow: Workflow) -> None:
+    """Shorten the identifiers of a workflow with a name to those of one without."""
+    base, _, name = (workflow.id or "").partition("#")
+    if not name:
+        return
+    prefix = f"{base}#{name}/"
+
+    def shorten(uri: Any) -> Any:
+        if isinstance(uri, MutableSequence):
+            return [shorten(item) for item in uri]
+        if isinstance(uri, str) and uri.startswith(prefix):
+            return f"{base}#" + uri[len(prefix) :]
+        return uri
+
+    for inp in workflow.inputs:
+        inp.id = shorten(inp.id)
+    for outp in workflow.outputs:
+        outp.id = shorten(outp.id)
+        outp.outputSource = shorten(outp.outputSource)
+    for step in workflow.steps:
+        step.id = shorten(step.id)
+        step.scatter = shorten(step.scatter)
+        for step_inp in step.in_:
+            step_inp.id = shorten(step_inp.id)
+            step_inp.source = shorten(step_inp.source)
+        for index, out in enumerate(step.out):
+            if isinstance(out, str):
+                step.out[index] = shorten(out)
+            else:
+                out.id = shorten(out.id)
+
+
 def texts(thing: Any) -> Iterator[str]:
     """Give the texts in a part of a document that could be expressions."""
     if isinstance(thing, str):
-- 
2.43.0


From d38363ddfdd0b1f80f27cd2d2394a0217b3181c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:53 +0000
Subject: [PATCH 74/77] fix: refer to the refactored document's own sources in
 a step

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 10 ++++++++++
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 10 ++++++++++
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 9049e30..2acbdbf 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1623,6 +1623,11 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        if isinstance(wf_step_input.source, MutableSequence):
+            for index, inp_source in enumerate(wf_step_input.source):
+                wf_step_input.source[index] = inp_source.split("#")[-1]
+        elif wf_step_input.source:
+            wf_step_input.source = wf_step_input.source.split("#")[-1]
     wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
     workflow.steps.append(
         cwl.WorkflowStep(
@@ -1670,6 +1675,11 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        if isinstance(wf_step_input.source, MutableSequence):
+            for index, inp_source in enumerate(wf_step_input.source):
+                wf_step_input.source[index] = inp_source.split("#")[-1]
+        elif wf_step_input.source:
+            wf_step_input.source = wf_step_input.source.split("#")[-1]
     wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
     workflow.steps.append(
         cwl.WorkflowStep(
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index fa330d7..d24fd44 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1626,6 +1626,11 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        if isinstance(wf_step_input.source, MutableSequence):
+            for index, inp_source in enumerate(wf_step_input.source):
+                wf_step_input.source[index] = inp_source.split("#")[-1]
+        elif wf_step_input.source:
+            wf_step_input.source = wf_step_input.source.split("#")[-1]
     wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
     workflow.steps.append(
         cwl.WorkflowStep(
@@ -1673,6 +1678,11 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        if isinstance(wf_step_input.source, MutableSequence):
+            for index, inp_source in enumerate(wf_step_input.source):
+                wf_step_input.source[index] = inp_source.split("#")[-1]
+        elif wf_step_input.source:
+            wf_step_input.source = wf_step_input.source.split("#")[-1]
     wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
     workflow.steps.append(
         cwl.WorkflowStep(
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index c33234f..738b0d1 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1740,6 +1740,11 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        if isinstance(wf_step_input.source, MutableSequence):
+            for index, inp_source in enumerate(wf_step_input.source):
+                wf_step_input.source[index] = inp_source.split("#")[-1]
+        elif wf_step_input.source:
+            wf_step_input.source = wf_step_input.source.split("#")[-1]
     wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
     workflow.steps.append(
         cwl.WorkflowStep(
@@ -1787,6 +1792,11 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
+        if isinstance(wf_step_input.source, MutableSequence):
+            for index, inp_source in enumerate(wf_step_input.source):
+                wf_step_input.source[index] = inp_source.split("#")[-1]
+        elif wf_step_input.source:
+            wf_step_input.source = wf_step_input.source.split("#")[-1]
     wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
     workflow.steps.append(
         cwl.WorkflowStep(
-- 
2.43.0


From 0f455f21a8be0266179e84e906a3654f2937eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:38 +0000
Subject: [PATCH 75/77] fix: keep the meaning of the standard stream shortcuts

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 40 +++++++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 40 +++++++++++--------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 40 +++++++++++--------
 3 files changed, 69 insertions(+), 51 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 2acbdbf..2f97f38 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -43,25 +43,29 @@ _DEFAULT_CWL_VERSION: Final = "v1.0"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
-    if not process.outputs:
+    """Rewrite the shortcuts for the standard streams to use explicit (random) filenames."""
+    if not any(
+        param.type_ in ("stdin", "stdout", "stderr")
+        for param in (*process.inputs, *process.outputs)
+    ):
         return process
-    result = None
-    for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
-            if not result:
-                result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+    result = copy.deepcopy(process)
+    for output in result.outputs:
+        if output.type_ in ("stdout", "stderr"):
+            path = getattr(result, output.type_)
+            if not path:
+                path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
-            result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
-    if result:
-        return result
-    return process
+                setattr(result, output.type_, path)
+            output.type_ = "File"
+            output.outputBinding = cwl.CommandOutputBinding(glob=path)
+    for inp in result.inputs:
+        if inp.type_ == "stdin":
+            inp.type_ = "File"
+            name = json_dumps(inp.id.split("#")[-1].split("/")[-1])
+            result.stdin = f"$(inputs[{name}].path)"
+    return result
 
 
 def escape_expression_field(contents: str) -> str:
@@ -1812,6 +1816,8 @@ def traverse_step(
     if not step.id:
         return False
     step_id = step.id.split("#")[-1]
+    if isinstance(step.run, cwl_utils.parser.CommandLineTool):
+        step.run = expand_stream_shortcuts(step.run)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index d24fd44..2b78ab3 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -43,25 +43,29 @@ _DEFAULT_CWL_VERSION: Final = "v1.1"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
-    if not process.outputs:
+    """Rewrite the shortcuts for the standard streams to use explicit (random) filenames."""
+    if not any(
+        param.type_ in ("stdin", "stdout", "stderr")
+        for param in (*process.inputs, *process.outputs)
+    ):
         return process
-    result = None
-    for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
-            if not result:
-                result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+    result = copy.deepcopy(process)
+    for output in result.outputs:
+        if output.type_ in ("stdout", "stderr"):
+            path = getattr(result, output.type_)
+            if not path:
+                path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
-            result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
-    if result:
-        return result
-    return process
+                setattr(result, output.type_, path)
+            output.type_ = "File"
+            output.outputBinding = cwl.CommandOutputBinding(glob=path)
+    for inp in result.inputs:
+        if inp.type_ == "stdin":
+            inp.type_ = "File"
+            name = json_dumps(inp.id.split("#")[-1].split("/")[-1])
+            result.stdin = f"$(inputs[{name}].path)"
+    return result
 
 
 def escape_expression_field(contents: str) -> str:
@@ -1820,6 +1824,8 @@ def traverse_step(
     if not step.id:
         return False
     step_id = step.id.split("#")[-1]
+    if isinstance(step.run, cwl_utils.parser.CommandLineTool):
+        step.run = expand_stream_shortcuts(step.run)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 738b0d1..2c1c871 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -42,25 +42,29 @@ _DEFAULT_CWL_VERSION: Final = "v1.2"
 
 
 def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool:
-    """Rewrite the "type: stdout" shortcut to use an explicit random filename."""
-    if not process.outputs:
+    """Rewrite the shortcuts for the standard streams to use explicit (random) filenames."""
+    if not any(
+        param.type_ in ("stdin", "stdout", "stderr")
+        for param in (*process.inputs, *process.outputs)
+    ):
         return process
-    result = None
-    for index, output in enumerate(process.outputs):
-        if output.type_ == "stdout":  # TODO: add 'stdin' for CWL v1.1
-            if not result:
-                result = copy.deepcopy(process)
-            stdout_path = process.stdout
-            if not stdout_path:
-                stdout_path = hashlib.sha1(  # nosec
-                    json_dumps(save(process)).encode("utf-8")
+    result = copy.deepcopy(process)
+    for output in result.outputs:
+        if output.type_ in ("stdout", "stderr"):
+            path = getattr(result, output.type_)
+            if not path:
+                path = hashlib.sha1(  # nosec
+                    (output.type_ + json_dumps(save(process))).encode("utf-8")
                 ).hexdigest()
-                result.stdout = stdout_path
-            result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
-    if result:
-        return result
-    return process
+                setattr(result, output.type_, path)
+            output.type_ = "File"
+            output.outputBinding = cwl.CommandOutputBinding(glob=path)
+    for inp in result.inputs:
+        if inp.type_ == "stdin":
+            inp.type_ = "File"
+            name = json_dumps(inp.id.split("#")[-1].split("/")[-1])
+            result.stdin = f"$(inputs[{name}].path)"
+    return result
 
 
 def escape_expression_field(contents: str) -> str:
@@ -1938,6 +1942,8 @@ def traverse_step(
     if not step.id:
         return False
     step_id = step.id.split("#")[-1]
+    if isinstance(step.run, cwl_utils.parser.CommandLineTool):
+        step.run = expand_stream_shortcuts(step.run)
     original_process = copy.deepcopy(step.run)
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
-- 
2.43.0


From fa1a4575096e343278b1d6ea36bb1643cddf8c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:03 +0000
Subject: [PATCH 76/77] fix: read the namespaces of an input file

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 9 +++++++++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 9 +++++++++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index d2262cc..956de3c 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -1,5 +1,6 @@
 # SPDX-License-Identifier: Apache-2.0
 import codecs
+import copy
 import hashlib
 import logging
 from collections import namedtuple
@@ -86,9 +87,17 @@ def _inputfile_load(
 
             loadingOptions = LoadingOptions(
                 copyfrom=loadingOptions,
+                namespaces={
+                    **loadingOptions.namespaces,
+                    **(doc.get("$namespaces") or {}),
+                },
+                schemas=doc.get("$schemas", None),
                 baseuri=baseuri,
                 addl_metadata=addl_metadata,
             )
+            doc = copy.copy(doc)
+            doc.pop("$namespaces", None)
+            doc.pop("$schemas", None)
 
             loadingOptions.idx[baseuri] = (
                 loader.load(doc, baseuri, loadingOptions, docRoot=baseuri),
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index b5840d9..8f50127 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -1,5 +1,6 @@
 # SPDX-License-Identifier: Apache-2.0
 import codecs
+import copy
 import hashlib
 import logging
 import re
@@ -118,9 +119,17 @@ def _inputfile_load(
 
             loadingOptions = LoadingOptions(
                 copyfrom=loadingOptions,
+                namespaces={
+                    **loadingOptions.namespaces,
+                    **(doc.get("$namespaces") or {}),
+                },
+                schemas=doc.get("$schemas", None),
                 baseuri=baseuri,
                 addl_metadata=addl_metadata,
             )
+            doc = copy.copy(doc)
+            doc.pop("$namespaces", None)
+            doc.pop("$schemas", None)
 
             loadingOptions.idx[baseuri] = (
                 loader.load(doc, baseuri, loadingOptions, docRoot=baseuri),
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 9da2b5f..d3a2231 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import copy
 import hashlib
 import logging
 import re
@@ -106,9 +107,17 @@ def _inputfile_load(
 
             loadingOptions = LoadingOptions(
                 copyfrom=loadingOptions,
+                namespaces={
+                    **loadingOptions.namespaces,
+                    **(doc.get("$namespaces") or {}),
+                },
+                schemas=doc.get("$schemas", None),
                 baseuri=baseuri,
                 addl_metadata=addl_metadata,
             )
+            doc = copy.copy(doc)
+            doc.pop("$namespaces", None)
+            doc.pop("$schemas", None)
 
             loadingOptions.idx[baseuri] = (
                 loader.load(doc, baseuri, loadingOptions, docRoot=baseuri),
-- 
2.43.0


From f27f67ea987bc9d0e5385dbf3095e34087f817dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:27 +0000
Subject: [PATCH 77/77] fix: resolve the imports of an input file against the
 file

---
 src/cwl_utils/parser/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index dfe617b..e509bf8 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -181,8 +181,7 @@ def load_inputfile_by_uri(
 
     baseuri: str = real_path
 
-    if loadingOptions is None:
-        loadingOptions = LoadingOptions(fileuri=baseuri)
+    loadingOptions = LoadingOptions(fileuri=baseuri, copyfrom=loadingOptions)
 
     doc = loadingOptions.fetcher.fetch_text(real_path)
     return load_inputfile_by_string(version, doc, baseuri, loadingOptions)
-- 
2.43.0

