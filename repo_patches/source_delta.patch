From fe21d769e4522a77937b261bb315031ca7046478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 01/36] fix: Resource.create fails when process.executable.name
 is not a string

---
 src/deep/api/resource/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/api/resource/__init__.py b/src/deep/api/resource/__init__.py
index 3c41a08..737d45e 100644
--- a/src/deep/api/resource/__init__.py
+++ b/src/deep/api/resource/__init__.py
@@ -147,7 +147,7 @@ class Resource:
                 PROCESS_EXECUTABLE_NAME, None
             )
             if process_executable_name:
-                default_service_name += ":" + process_executable_name
+                default_service_name += ":" + str(process_executable_name)
             else:
                 default_service_name += ":python"
             resource = resource.merge(
-- 
2.43.0


From aee9d235fe7c1572d6ed9653cda432c5ca3c5695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 02/36] fix: the tracepoint time window is never applied

window_start/window_end were dropped when the actions are built, not parsed from their
text form, and compared in ms with a time in ns. Limits that are not numbers (None)
fall back to their default as other unusable values do.
---
 src/deep/api/tracepoint/trigger.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index bcc2b50..b6e6247 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -81,7 +81,7 @@ class LocationAction(object):
         self.__id = tp_id
         self.__condition = condition
         self.__config = config
-        self.__window = TracepointWindow(self.__config.get(WINDOW_START, 0), self.__config.get(WINDOW_END, 0))
+        self.__window = TracepointWindow(self.__get_int(WINDOW_START, 0), self.__get_int(WINDOW_END, 0))
         self.__stats = TracepointExecutionStats()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
@@ -168,7 +168,8 @@ class LocationAction(object):
             return False
 
         # Are we in the time window?
-        if not self.__window.in_window(ts):
+        # the window is defined in ms, the trigger time is in ns
+        if not self.__window.in_window(ts // 1_000_000):
             return False
 
         # Have we fired too quickly?
@@ -193,7 +194,7 @@ class LocationAction(object):
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
-        except ValueError:
+        except (ValueError, TypeError, OverflowError):
             return default_value
 
     def __str__(self):
@@ -547,6 +548,11 @@ class FunctionLocation(Location):
         return False
 
 
+def __window_args(args: Dict[str, str]) -> Dict[str, str]:
+    """Get the args that define the time window, if there are any."""
+    return {key: args[key] for key in [WINDOW_START, WINDOW_END] if key in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -568,6 +574,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
+        **__window_args(args),
     }, LocationAction.ActionType.Snapshot)
 
 
@@ -589,6 +596,7 @@ def build_log_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActio
         LOG_MSG: args[LOG_MSG],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_args(args),
     }, LocationAction.ActionType.Log)
 
 
@@ -609,6 +617,7 @@ def build_metric_action(tp_id: str, args: Dict[str, str], metrics: List[MetricDe
         'metrics': metrics,
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_args(args),
     }, LocationAction.ActionType.Metric)
 
 
@@ -628,6 +637,7 @@ def build_span_action(tp_id: str, args: Dict[str, str]) -> Optional[LocationActi
         SPAN: args[SPAN],
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
+        **__window_args(args),
     }, LocationAction.ActionType.Span)
 
 
-- 
2.43.0


From 9d9e752a56c0a898dc28c5c2fcca4db8afaface8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 03/36] fix: fire_count and fire_period are exceeded when
 threads reach a tracepoint at the same time

The limits were checked when the action starts and recorded when it ends. The limits are now
checked and recorded in one step. A fire_period of 0 no longer rejects hits that are recorded out of order.
---
 src/deep/api/tracepoint/trigger.py           | 23 ++++++++++++++++++--
 src/deep/processor/context/action_context.py | 12 ++++++++--
 src/deep/processor/trigger_handler.py        |  2 +-
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index b6e6247..1de2551 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -30,6 +30,7 @@
 
 import abc
 import inspect
+import threading
 from enum import Enum
 from types import FrameType
 
@@ -83,6 +84,7 @@ class LocationAction(object):
         self.__config = config
         self.__window = TracepointWindow(self.__get_int(WINDOW_START, 0), self.__get_int(WINDOW_END, 0))
         self.__stats = TracepointExecutionStats()
+        self.__stats_lock = threading.Lock()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
 
@@ -174,13 +176,30 @@ class LocationAction(object):
 
         # Have we fired too quickly?
         last_fire = self.__stats.last_fire
-        if last_fire != 0:
+        fire_period = self.__fire_period_ns()
+        if last_fire != 0 and fire_period > 0:
             time_since_last = ts - last_fire
-            if time_since_last < self.__fire_period_ns():
+            if time_since_last < fire_period:
                 return False
 
         return True
 
+    def claim_trigger(self, ts) -> bool:
+        """
+        Check if the tracepoint can trigger, and if so record the trigger.
+
+        The check and the record have to be a single step, else threads that reach the location at the same time
+        would all pass the check before any of them is recorded.
+
+        :param ts: the time the tracepoint has been triggered
+        :return: true, if we should collect data; else false
+        """
+        with self.__stats_lock:
+            if not self.can_trigger(ts):
+                return False
+            self.record_triggered(ts)
+            return True
+
     def record_triggered(self, ts):
         """
         Record a fire.
diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 06b9de9..5f53277 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -63,8 +63,6 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
-        if self.has_triggered():
-            self.location_action.record_triggered(self.trigger_context.ts)
 
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -132,6 +130,16 @@ class ActionContext(abc.ABC):
         return str2bool(str(result))
 
 
+    def claim(self) -> bool:
+        """
+        Claim this trigger from the limits of the action.
+
+        This should be called once we know that the action can trigger, and before it is processed.
+        :return: True, if this context should process the action.
+        """
+        return self.location_action.claim_trigger(self.trigger_context.ts)
+
+
 class NoActionContext(ActionContext):
     """Default context if no action can be determined."""
 
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index e049359..a17166b 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -155,7 +155,7 @@ class TriggerHandler:
                     try:
                         ctx: ActionContext
                         with trigger_context.action_context(action) as ctx:
-                            if ctx.can_trigger():
+                            if ctx.can_trigger() and ctx.claim():
                                 ctx.process()
                     except BaseException:
                         logging.exception("Cannot process action %s", action)
-- 
2.43.0


From 7fb2ef36f6ec003bee3ce55b7dfc16ff7c40ae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:27 +0000
Subject: [PATCH 04/36] fix: a config update resets the limits of the
 tracepoints that did not change

---
 src/deep/api/tracepoint/trigger.py    | 12 ++++++++++++
 src/deep/processor/trigger_handler.py | 18 ++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 1de2551..5b4e4bb 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -210,6 +210,18 @@ class LocationAction(object):
         """
         self.__stats.fire(ts)
 
+    def continue_from(self, previous: 'LocationAction'):
+        """
+        Continue to count from a previous version of this action.
+
+        Each config from the service creates new actions. The limits must continue for the tracepoints that did not
+        change, else they would start from zero when another tracepoint changes.
+
+        :param previous: the action that is being replaced by this action
+        """
+        self.__stats = previous.__stats
+        self.__stats_lock = previous.__stats_lock
+
     def __get_int(self, name: str, default_value: int):
         try:
             return int(self.__config.get(name, default_value))
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index a17166b..a874dda 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -115,8 +115,26 @@ class TriggerHandler:
 
         :param new_config: the new config to use
         """
+        self.__continue_limits(self._tp_config, new_config)
         self._tp_config = new_config
 
+    @staticmethod
+    def __continue_limits(old_config: List['Trigger'], new_config: List['Trigger']):
+        previous = {}
+        for trigger in old_config:
+            for action in trigger.actions:
+                previous.setdefault((trigger.id, action.id, action.action_type), []).append(action)
+
+        for trigger in new_config:
+            for action in trigger.actions:
+                matches = previous.get((trigger.id, action.id, action.action_type), [])
+                for match in matches:
+                    if match is action:
+                        break
+                    if match == action:
+                        action.continue_from(match)
+                        break
+
     def trace_call(self, frame: FrameType, event: str, arg):
         """
         Process the data for a trace call.
-- 
2.43.0


From 28a5e7d88b7ce61cdff5d5ddfa29c04d8eeee7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:36 +0000
Subject: [PATCH 05/36] fix: line_capture and method_capture snapshots are
 never deferred

The stage was not passed to the snapshot action, so no result was ever captured.
---
 src/deep/api/tracepoint/trigger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 5b4e4bb..a365f82 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -605,6 +605,8 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         FIRE_COUNT: args.get(FIRE_COUNT, '1'),
         FIRE_PERIOD: args.get(FIRE_PERIOD, '1000'),
         LOG_MSG: args.get(LOG_MSG, None),
+        # the stage decides if we send the snapshot now, or defer it to capture the result
+        **({STAGE: args[STAGE]} if STAGE in args else {}),
         **__window_args(args),
     }, LocationAction.ActionType.Snapshot)
 
-- 
2.43.0


From 7004c83691e8809c7c38471f9bc1df67ae62055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:57 +0000
Subject: [PATCH 06/36] fix: snapshots do not name the tracepoint with the
 line, args and watches it was configured with

---
 src/deep/api/tracepoint/trigger.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index a365f82..7d0b57a 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -87,6 +87,7 @@ class LocationAction(object):
         self.__stats_lock = threading.Lock()
         self.__action_type = action_type
         self.__location: Optional['Location'] = None
+        self.__tracepoint: Optional[TracePointConfig] = None
 
     @property
     def id(self) -> str:
@@ -146,6 +147,8 @@ class LocationAction(object):
     @property
     def tracepoint(self) -> TracePointConfig:
         """Get the tracepoint config for this trigger."""
+        if self.__tracepoint is not None:
+            return self.__tracepoint
         args = dict(self.__config)
         if WATCHES in args:
             del args[WATCHES]
@@ -247,6 +250,16 @@ class LocationAction(object):
             return True
         return False
 
+    def with_tracepoint(self, tracepoint: TracePointConfig) -> 'LocationAction':
+        """
+        Attach the tracepoint that asked for this action.
+
+        :param tracepoint: the tracepoint as it was configured
+        :return: self
+        """
+        self.__tracepoint = tracepoint
+        return self
+
     def with_location(self, location: 'Location') -> 'LocationAction':
         """
         Attach the location to this action.
@@ -708,7 +721,8 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     metric_action = build_metric_action(tp_id, args, metrics)
     span_action = build_span_action(tp_id, args)
 
-    actions = [action for action in [snap_action, log_action, metric_action, span_action] if
+    tracepoint = TracePointConfig(tp_id, path, line_no, args, watches, metrics)
+    actions = [action.with_tracepoint(tracepoint) for action in [snap_action, log_action, metric_action, span_action] if
                action is not None]
 
     return Trigger(location, actions)
-- 
2.43.0


From 4aae0d10ddee9109df69fe6efc17a3e3a9211496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:06 +0000
Subject: [PATCH 07/36] fix: a tracepoint that cannot be interpreted stops all
 tracepoints in the response

---
 src/deep/grpc/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index 5bca57d..b950ff2 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -29,6 +29,7 @@ from deepproto.proto.resource.v1.resource_pb2 import Resource
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import MetricType
 
+from deep import logging
 from .grpc_service import GRPCService  # noqa: F401
 from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
@@ -120,8 +121,16 @@ def convert_response(response) -> List[Trigger]:
     all_triggers: Dict[str, Trigger] = {}
     for r in response:
         # from the incoming tracepoints create a Trigger with actions
-        trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
-                                __convert_metric_definition(r.metrics))
+        try:
+            trigger = build_trigger(r.ID, r.path, r.line_number, dict(r.args), [w for w in r.watches],
+                                    __convert_metric_definition(r.metrics))
+        except Exception:
+            # a tracepoint we cannot interpret must not affect the others
+            logging.exception("Cannot process tracepoint %s", r.ID)
+            continue
+        if trigger is None:
+            logging.error("Cannot determine the location of tracepoint %s", r.ID)
+            continue
         location_id = trigger.id
         # if we already have a trigger for this location then merge the new actions into it
         if location_id in all_triggers:
-- 
2.43.0


From 5894db3857ba984a69de63da49439803c1e8742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 08/36] fix: variables are collected depth first, so one large
 local crowds out the others

---
 src/deep/processor/bfs/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/bfs/__init__.py b/src/deep/processor/bfs/__init__.py
index 13b44f9..9025889 100644
--- a/src/deep/processor/bfs/__init__.py
+++ b/src/deep/processor/bfs/__init__.py
@@ -21,6 +21,7 @@ approach. This means scanning all local values before proceeding to the next dep
 """
 
 import abc
+from collections import deque
 from typing import Callable, List
 
 from deep.api.tracepoint import VariableId
@@ -150,10 +151,10 @@ def breadth_first_search(node: 'Node', consumer: Callable[['Node'], bool]):
     :param node: the initial node to start the search
     :param consumer: the consumer to call on each node
     """
-    queue = [node]
+    queue = deque([node])
 
     while len(queue) != 0:
-        pop = queue.pop()
+        pop = queue.popleft()
         can_continue = consumer(pop)
 
         if can_continue:
-- 
2.43.0


From 482fb00137faa89dd4d83b416ff660e4439c6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 09/36] fix: a value that cannot be read or rendered stops the
 whole snapshot

---
 src/deep/processor/frame_collector.py        |  32 ++++-
 src/deep/processor/variable_processor.py     | 131 +++++++++++++------
 src/deep/processor/variable_set_processor.py |   6 +-
 3 files changed, 118 insertions(+), 51 deletions(-)

diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index e7850bb..9cc1817 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -17,10 +17,12 @@
 
 import abc
 from types import FrameType
-from typing import Tuple, Dict, List
+from typing import Tuple, Dict, List, Optional
 
+from deep import logging
 from deep.api.tracepoint import StackFrame, Variable
 from deep.utils import time_ns
+from .variable_processor import type_name
 from .variable_set_processor import VariableCacheProvider, VariableSetProcessor, VariableProcessorConfig
 
 
@@ -130,6 +132,27 @@ class FrameCollector:
             current_frame = current_frame.f_back
         return collected_frames, var_lookup
 
+    @staticmethod
+    def _get_locals(frame: FrameType) -> Dict[str, any]:
+        try:
+            # the locals are not always a plain dict, e.g. the body of a class that uses a metaclass
+            return dict(frame.f_locals)
+        except BaseException:
+            logging.exception("Cannot read the variables of %s", frame.f_code.co_name)
+            return {}
+
+    @staticmethod
+    def _get_class_name(_self: any) -> Optional[str]:
+        if _self is None:
+            return None
+        try:
+            class_name = _self.__class__.__name__
+            if type(class_name) is str:
+                return class_name
+        except BaseException:
+            logging.debug("Cannot read the class of self")
+        return type_name(type(_self))
+
     def _process_frame(self, var_lookup: Dict[str, Variable], var_cache: VariableCacheProvider,
                        frame: FrameType, collect_vars: bool) -> StackFrame:
         # process the current frame info
@@ -137,11 +160,8 @@ class FrameCollector:
         filename = frame.f_code.co_filename
         func_name = frame.f_code.co_name
 
-        f_locals = frame.f_locals
-        _self = f_locals.get('self', None)
-        class_name = None
-        if _self is not None and hasattr(_self, '__class__'):
-            class_name = _self.__class__.__name__
+        f_locals = self._get_locals(frame)
+        class_name = self._get_class_name(f_locals.get('self', None))
 
         var_ids = []
         # only process vars if we are under the time limit
diff --git a/src/deep/processor/variable_processor.py b/src/deep/processor/variable_processor.py
index aae8bf4..1a948e3 100644
--- a/src/deep/processor/variable_processor.py
+++ b/src/deep/processor/variable_processor.py
@@ -22,6 +22,7 @@ and many options to consider when collecting.
 """
 
 import abc
+from types import ModuleType, TracebackType
 from typing import List
 
 from deep import logging
@@ -29,32 +30,28 @@ from deep.api.tracepoint import VariableId, Variable
 from .bfs import Node, ParentNode, NodeValue
 
 NO_CHILD_TYPES = [
-    'str',
-    'int',
-    'float',
-    'bool',
-    'type',
-    'module',
-    'unicode',
-    'long',
-    'NoneType',
-    'traceback'
+    str,
+    int,
+    float,
+    bool,
+    type,
+    ModuleType,
+    type(None),
+    TracebackType
 ]
 """A list of types that do not have child nodes, or only have child nodes we do not want to process."""
 
 LIST_LIKE_TYPES = [
-    'frozenset',
-    'set',
-    'list',
-    'tuple',
+    frozenset,
+    set,
+    list,
+    tuple,
 ]
 """A list of types that we should handle like lists."""
 
 ITER_LIKE_TYPES = [
-    'list_iterator',
-    'listiterator',
-    'list_reverseiterator',
-    'listreverseiterator',
+    type(iter([])),
+    type(reversed([])),
 ]
 """A list of types that we should handle like iterators."""
 
@@ -179,6 +176,47 @@ def var_modifiers(var_name: str) -> List[str]:
     return []
 
 
+def type_name(variable_type: type) -> str:
+    """
+    Get the real name of a type.
+
+    The type can have a metaclass that changes the '__name__' attribute, so we have to ask 'type' for the name.
+
+    :param variable_type: the type
+    :return: the name of the type
+    """
+    return type.__dict__['__name__'].__get__(variable_type)
+
+
+def is_one_of(variable_type: type, types: List[type]) -> bool:
+    """
+    Check if the type is one of the types.
+
+    This compares identity only, as a metaclass can change how a type is compared.
+
+    :param variable_type: the type
+    :param types: the types to look for
+    :return: True, if the type is in the list
+    """
+    return any(variable_type is type_ for type_ in types)
+
+
+def safe_str(value) -> str:
+    """
+    Convert a value to a string, without failing.
+
+    :param value: the value to convert
+    :return: the string form of the value, or the text of the error that was raised
+    """
+    try:
+        return str.__str__(str(value))
+    except BaseException as e:
+        try:
+            return str.__str__(str(e))
+        except BaseException:
+            return type_name(type(e))
+
+
 def variable_to_string(variable_type, var_value):
     """
     Convert the variable to a string.
@@ -187,21 +225,21 @@ def variable_to_string(variable_type, var_value):
     :param var_value: the variable value
     :return: a string of the value
     """
-    if variable_type.__name__ in ITER_LIKE_TYPES:
+    if is_one_of(variable_type, ITER_LIKE_TYPES):
         # if interator like then make a custom string - we do not want to mess with iterators
         return 'Iterator of type: %s' % variable_type
     elif variable_type is dict \
-            or variable_type.__name__ in LIST_LIKE_TYPES:
+            or is_one_of(variable_type, LIST_LIKE_TYPES):
         # if we are a collection then we do not want to use built in string as this can be very
         # large, and quite pointless, instead we just get the size of the collection
         return 'Size: %s' % len(var_value)
     else:
         try:
             # everything else just gets a string value
-            return str(var_value)
-        except Exception:
+            return str.__str__(str(var_value))
+        except BaseException:
             # it is possible for str to fail if there is a custom __str__ function
-            return f'{type(var_value)}@{id(var_value)}'
+            return f'{type.__repr__(variable_type)}@{id(var_value)}'
 
 
 def process_variable(var_collector: Collector, node: NodeValue) -> VariableResponse:
@@ -237,7 +275,7 @@ def process_variable(var_collector: Collector, node: NodeValue) -> VariableRespo
                                                     var_collector.max_string_length)
 
     # create a variable for the lookup
-    variable = Variable(str(variable_type.__name__), variable_value_str, identity_hash_id, [], truncated)
+    variable = Variable(type_name(variable_type), variable_value_str, identity_hash_id, [], truncated)
     # add to lookup
     var_collector.append_variable(var_id, variable)
     # return result - and expand children
@@ -274,7 +312,7 @@ def process_child_nodes(
     """
     variable_type = type(var_value)
     # if the type is a type we do not want children from - return empty
-    if variable_type.__name__ in NO_CHILD_TYPES:
+    if is_one_of(variable_type, NO_CHILD_TYPES):
         return []
 
     # if the depth is more than we are configured - return empty
@@ -288,7 +326,12 @@ def process_child_nodes(
             var_collector.append_child(variable_id, child)
 
     # scan the child based on type
-    return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+    try:
+        return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)
+    except BaseException:
+        # it is possible for the children to be unreadable, e.g. if there is a custom __dict__
+        logging.debug("Cannot process children of type %s", type_name(variable_type))
+        return []
 
 
 def correct_names(name, val):
@@ -299,8 +342,8 @@ def correct_names(name, val):
     :param val: the variable name we are modifying
     :return: the new name to use
     """
-    prefix = "_" + name
-    if val.startswith(prefix):
+    prefix = "_" + name.lstrip("_")
+    if prefix != "_" and val.startswith(prefix + "__"):
         return val[len(prefix):]
     return val
 
@@ -317,18 +360,19 @@ def find_children_for_parent(var_collector: Collector, parent_node: ParentNode,
     :return: list of child nodes
     """
     if variable_type is dict:
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value)
-    elif variable_type.__name__ in LIST_LIKE_TYPES:
+        return process_dict_breadth_first(parent_node, type_name(variable_type), value)
+    elif is_one_of(variable_type, LIST_LIKE_TYPES):
         return process_list_breadth_first(var_collector, parent_node, value)
-    elif isinstance(value, Exception):
-        return process_list_breadth_first(var_collector, parent_node, value.args)
-    elif hasattr(value, '__class__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__, correct_names)
-    elif hasattr(value, '__dict__'):
-        return process_dict_breadth_first(parent_node, variable_type.__name__, value.__dict__)
-    else:
-        logging.debug("Unknown type processed %s", variable_type)
+    elif issubclass(variable_type, Exception):
+        return process_list_breadth_first(var_collector, parent_node, BaseException.args.__get__(value))
+    try:
+        # do not use the attribute access of the value, as this can be customised
+        attributes = object.__getattribute__(value, '__dict__')
+    except AttributeError:
+        # not all types have attributes, e.g. when using slots
+        logging.debug("Unknown type processed %s", type_name(variable_type))
         return []
+    return process_dict_breadth_first(parent_node, type_name(variable_type), attributes, correct_names)
 
 
 def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y: y) -> List[Node]:
@@ -345,10 +389,13 @@ def process_dict_breadth_first(parent_node, type_name, value, func=lambda x, y:
     :param func:
     :return (list): the collected child nodes
     """
-    # we wrap the keys() in a call to list to prevent concurrent changes
-    return [Node(value=NodeValue(func(type_name, key), value[key], key), parent=parent_node) for key in
-            list(value.keys()) if
-            key in value]
+    nodes = []
+    # we wrap the items() in a call to list to prevent concurrent changes
+    for key, val_ in list(value.items()):
+        # keys do not have to be strings, but the names do
+        name = str.__str__(key) if issubclass(type(key), str) else safe_str(key)
+        nodes.append(Node(value=NodeValue(func(type_name, name), val_, name), parent=parent_node))
+    return nodes
 
 
 def process_list_breadth_first(var_collector: Collector, parent_node: ParentNode, value) -> List[Node]:
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 537804f..3d6c6ba 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -33,7 +33,7 @@ from typing import Tuple, Optional, Dict
 from deep.api.tracepoint import Variable, VariableId
 from deep.processor.bfs import ParentNode, Node, NodeValue, breadth_first_search
 from deep.processor.variable_processor import process_variable, \
-    process_child_nodes, Collector
+    process_child_nodes, safe_str, Collector
 
 
 class VariableCacheProvider:
@@ -131,7 +131,7 @@ class VariableSetProcessor(Collector):
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), str(value)
+            return VariableId(check_id, name), safe_str(value)
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -148,7 +148,7 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
 
-        return VariableId(var_id, name), str(value)
+        return VariableId(var_id, name), safe_str(value)
 
     def search_function(self, node: Node) -> bool:
         """
-- 
2.43.0


From d980ee73d959415fc122054b659b5f1357f95c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 10/36] fix: expressions are evaluated in the scope of the
 agent, and errors are treated as results

---
 src/deep/processor/context/action_context.py  | 16 ++++++++------
 src/deep/processor/context/metric_action.py   |  4 ++--
 src/deep/processor/context/trigger_context.py | 21 ++++++++++++++++---
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 5f53277..48860c4 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -33,8 +33,8 @@ from typing import Tuple, TYPE_CHECKING, Dict
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
-from deep.logging import logging
 from deep.api.tracepoint import WatchResult, Variable
+from deep.processor.variable_processor import safe_str
 from deep.processor.variable_set_processor import VariableSetProcessor
 from deep.utils import str2bool
 
@@ -75,13 +75,16 @@ class ActionContext(abc.ABC):
         var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
 
         try:
-            result = self.trigger_context.evaluate_expression(watch)
+            result, error = self.trigger_context.try_expression(watch)
+            if error is not None:
+                error_msg = safe_str(error)
+                return WatchResult(source, watch, None, error_msg), {}, error_msg
             variable_id, log_str = var_processor.process_variable(watch, result)
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
-            logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, str(e)), {}, str(e)
+            deep.logging.exception("Error evaluating watch %s", watch)
+            return WatchResult(source, watch, None, safe_str(e)), {}, safe_str(e)
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -126,10 +129,11 @@ class ActionContext(abc.ABC):
             return False
         if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:
             return True
-        result = self.trigger_context.evaluate_expression(self.location_action.condition)
+        result, error = self.trigger_context.try_expression(self.location_action.condition)
+        if error is not None:
+            return False
         return str2bool(str(result))
 
-
     def claim(self) -> bool:
         """
         Claim this trigger from the limits of the action.
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 2c5cad2..1671a6c 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -58,7 +58,7 @@ class MetricActionContext(ActionContext):
         if metric.expression:
             try:
                 metric_value = float(self.trigger_context.evaluate_expression(metric.expression))
-            except Exception:
+            except BaseException:
                 deep.logging.exception("Cannot process metric expression %s", metric.expression)
 
         labels = {}
@@ -68,7 +68,7 @@ class MetricActionContext(ActionContext):
                 if label.expression:
                     try:
                         value = str(self.trigger_context.evaluate_expression(label.expression))
-                    except Exception:
+                    except BaseException:
                         deep.logging.exception("Cannot process metric label expression %s: %s", key, label.expression)
                         value = 'expression failed'
                 else:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 2f6db21..feae715 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -17,7 +17,7 @@
 
 import uuid
 from types import FrameType
-from typing import Dict, Optional, List
+from typing import Dict, Optional, List, Tuple
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
@@ -150,10 +150,25 @@ class TriggerContext:
         :param expression: the expression
         :return: the result of the expression, or the exception that was raised.
         """
+        result, error = self.try_expression(expression)
+        return result if error is None else error
+
+    def try_expression(self, expression: str) -> Tuple[any, Optional[BaseException]]:
+        """
+        Evaluate an expression to a value, or the error it raises.
+
+        The expression can see the names that are visible at the paused frame. The names are copied so that expressions
+        cannot change the names of the frame, and the locals are also part of the globals as nested scopes
+        (e.g. comprehensions) cannot see the locals of an evaluated expression.
+
+        :param expression: the expression
+        :return: a tuple of the result of the expression, and the exception that was raised (None if successful).
+        """
         try:
-            return eval(expression, None, self.__frame.f_locals)
+            frame_locals = dict(self.__frame.f_locals)
+            return eval(expression, {**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None
         except BaseException as e:
-            return e
+            return None, e
 
     def attach_result(self, result: ActionResult):
         """
-- 
2.43.0


From dc2268dfd1197530fda8dc7511df942288f97bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 11/36] fix: actions on the same event share a variable table,
 and ids are reused for different objects

---
 src/deep/processor/context/action_context.py  | 30 ++++++++++++----
 src/deep/processor/context/snapshot_action.py |  4 +--
 src/deep/processor/context/trigger_context.py |  4 ---
 src/deep/processor/frame_collector.py         |  2 +-
 src/deep/processor/variable_set_processor.py  | 35 ++++++++++++++++---
 5 files changed, 58 insertions(+), 17 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 48860c4..a18bae7 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -29,30 +29,37 @@
 """Handling for action context."""
 
 import abc
-from typing import Tuple, TYPE_CHECKING, Dict
+from typing import Tuple, TYPE_CHECKING, Dict, Optional
 
 import deep.logging
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
 from deep.api.tracepoint import WatchResult, Variable
 from deep.processor.variable_processor import safe_str
-from deep.processor.variable_set_processor import VariableSetProcessor
+from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, \
+    VariableProcessorConfig
 from deep.utils import str2bool
 
 if TYPE_CHECKING:
     from deep.processor.context.trigger_context import TriggerContext
     from deep.api.tracepoint.trigger import LocationAction
 
+NO_SPACE_FOR_VARIABLE = "The maximum number of variables has been collected."
+
 
 class ActionContext(abc.ABC):
     """A context for the processing of an action."""
 
-    def __init__(self, parent: 'TriggerContext', action: 'LocationAction'):
+    def __init__(self, parent: 'TriggerContext', action: 'LocationAction', owner: Optional['ActionContext'] = None):
         """
         Create a new action context.
 
         :param parent: the parent trigger
         :param action: the action config
+        :param owner: the action context that this action is part of, if any
         """
+        self.__owner = owner
+        # each action has its own cache, as each snapshot has to be complete on its own
+        self.var_cache: VariableCacheProvider = VariableCacheProvider() if owner is None else owner.var_cache
         self.trigger_context: 'TriggerContext' = parent
         self.location_action: 'LocationAction' = action
         self._triggered = False
@@ -63,6 +70,7 @@ class ActionContext(abc.ABC):
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
         """Exit and close the context."""
+        self.var_cache.release()
 
     def eval_watch(self, watch: str, source: str) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -72,7 +80,7 @@ class ActionContext(abc.ABC):
         :param watch: The watch expression to evaluate.
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
 
         try:
             result, error = self.trigger_context.try_expression(watch)
@@ -80,11 +88,13 @@ class ActionContext(abc.ABC):
                 error_msg = safe_str(error)
                 return WatchResult(source, watch, None, error_msg), {}, error_msg
             variable_id, log_str = var_processor.process_variable(watch, result)
+            if variable_id is None:
+                return WatchResult(source, watch, None, NO_SPACE_FOR_VARIABLE), {}, log_str
 
             return WatchResult(source, watch, variable_id), var_processor.var_lookup, log_str
         except BaseException as e:
             deep.logging.exception("Error evaluating watch %s", watch)
-            return WatchResult(source, watch, None, safe_str(e)), {}, safe_str(e)
+            return WatchResult(source, watch, None, safe_str(e)), var_processor.var_lookup, safe_str(e)
 
     def process_capture_variable(self, name: str, variable: any) -> Tuple[WatchResult, Dict[str, Variable], str]:
         """
@@ -94,11 +104,19 @@ class ActionContext(abc.ABC):
         :param variable: the value to process
         :return: Tuple with WatchResult, collected variables, and the log string for the expression
         """
-        var_processor = VariableSetProcessor({}, self.trigger_context.var_cache)
+        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
         variable_id, log_str = var_processor.process_variable(name, variable)
+        self.var_cache.release()
+        if variable_id is None:
+            return WatchResult(WATCH_SOURCE_CAPTURE, name, None, NO_SPACE_FOR_VARIABLE), {}, log_str
 
         return WatchResult(WATCH_SOURCE_CAPTURE, name, variable_id), var_processor.var_lookup, log_str
 
+    @property
+    def collection_config(self) -> VariableProcessorConfig:
+        """The variable processing config."""
+        return VariableProcessorConfig() if self.__owner is None else self.__owner.collection_config
+
     def process(self):
         """Process the action."""
         try:
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 0c70968..c95f0d1 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -110,7 +110,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     def _process_action(self):
         collector = FrameCollector(self, self.trigger_context.frame)
 
-        frames, variables = collector.collect(self.trigger_context.vars, self.trigger_context.var_cache)
+        frames, variables = collector.collect({}, self.var_cache)
 
         snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,
                                  self.trigger_context.resource, frames, variables)
@@ -126,7 +126,7 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
             # create and process the log message
             context = LogActionContext(self.trigger_context, LocationAction(self.location_action.id, None, {
                 LOG_MSG: log_msg,
-            }, LocationAction.ActionType.Log))
+            }, LocationAction.ActionType.Log), self)
             log, watches, log_vars = context.process_log(log_msg)
             snapshot.log_msg = log
             for watch in watches:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index feae715..6119afa 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -21,7 +21,6 @@ from typing import Dict, Optional, List, Tuple
 
 import deep.logging
 from deep.api.plugin import TracepointLogger
-from deep.api.tracepoint import Variable
 from deep.api.tracepoint.trigger import LocationAction
 from deep.config import ConfigService
 from deep.processor.context.action_context import NoActionContext, ActionContext
@@ -31,7 +30,6 @@ from deep.processor.context.metric_action import MetricActionContext
 from deep.processor.context.snapshot_action import SnapshotActionContext
 from deep.processor.context.span_action import SpanActionContext
 from deep.processor.frame_collector import FrameCollector
-from deep.processor.variable_set_processor import VariableCacheProvider
 from deep.push import PushService
 from deep.utils import time_ns
 
@@ -63,9 +61,7 @@ class TriggerContext:
         self.__ts: int = time_ns()
         self.__id: str = str(uuid.uuid4())
         self.__frame_collector: Optional[FrameCollector] = None
-        self.var_cache = VariableCacheProvider()
         self.callbacks: List[ActionCallback] = []
-        self.vars: Dict[str: Variable] = {}
 
     def __enter__(self):
         """Start the 'with' statement and open this context."""
diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index 9cc1817..ed11542 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -170,7 +170,7 @@ class FrameCollector:
             # we process the vars as a single dict of 'locals'
             variable, log_str = processor.process_variable("locals", f_locals)
             # now ee 'unwrap' the locals, so they are on the frame directly.
-            if variable.vid in var_lookup:
+            if variable is not None and variable.vid in var_lookup:
                 variable_val = var_lookup[variable.vid]
                 del var_lookup[variable.vid]
                 var_ids = variable_val.children
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index 3d6c6ba..df0efdd 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -40,7 +40,7 @@ class VariableCacheProvider:
     """
     Variable cache provider.
 
-    Manage the caching of variables for a trigger context.
+    Manage the caching of variables for an action context.
     """
 
     __cache: Dict[str, str]
@@ -48,6 +48,8 @@ class VariableCacheProvider:
     def __init__(self):
         """Create new cache."""
         self.__cache = {}
+        self.__count = 0
+        self.__values = []
 
     def check_id(self, identity_hash_id) -> Optional[str]:
         """
@@ -63,7 +65,27 @@ class VariableCacheProvider:
     @property
     def size(self):
         """The number of variables we have cached."""
-        return len(self.__cache)
+        return self.__count
+
+    def keep(self, value: any):
+        """
+        Keep the value alive while we are using this cache.
+
+        The identity of a value is only unique while the value exists. So we have to keep the values that would not
+        exist otherwise (e.g. the result of an expression), else the next value could be given the same identity.
+
+        :param value: the value to keep
+        """
+        self.__values.append(value)
+
+    def release(self):
+        """
+        Release the values we are keeping.
+
+        After this the known identities are no longer valid, so they are removed. The ids we have used are not reused.
+        """
+        self.__values = []
+        self.__cache = {}
 
     def new_var_id(self, identity_hash_id):
         """
@@ -74,6 +96,7 @@ class VariableCacheProvider:
         """
         var_count = self.size
         new_id = str(var_count + 1)
+        self.__count += 1
         self.__cache[identity_hash_id] = new_id
         return new_id
 
@@ -119,14 +142,15 @@ class VariableSetProcessor(Collector):
         self.__var_cache = var_cache
         self.__config = config
 
-    def process_variable(self, name: str, value: any) -> Tuple[VariableId, str]:
+    def process_variable(self, name: str, value: any) -> Tuple[Optional[VariableId], str]:
         """
         Process a variable name and value.
 
         :param name: the variable name
         :param value: the variable value
-        :return:
+        :return: the id of the variable (None if there is no space for this variable), and the value as a string
         """
+        self.__var_cache.keep(value)
         identity_hash_id = str(id(value))
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
@@ -147,6 +171,8 @@ class VariableSetProcessor(Collector):
         breadth_first_search(Node(None, initial_nodes, root_parent), self.search_function)
 
         var_id = self.__var_cache.check_id(identity_hash_id)
+        if var_id is None:
+            return None, safe_str(value)
 
         return VariableId(var_id, name), safe_str(value)
 
@@ -169,6 +195,7 @@ class VariableSetProcessor(Collector):
             return True
 
         # process this node variable
+        self.__var_cache.keep(node_value.value)
         process_result = process_variable(self, node_value)
         var_id = process_result.variable_id
         # add the result to the parent - this maintains the hierarchy in the var look up
-- 
2.43.0


From 28f8ad84a67b3bc1320a62d4cf76b22795c54006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:14 +0000
Subject: [PATCH 12/36] fix: the collection limits of a tracepoint are never
 applied

---
 src/deep/api/tracepoint/constants.py          | 14 +++++++++++
 src/deep/api/tracepoint/trigger.py            |  9 +++++++-
 src/deep/processor/context/snapshot_action.py | 23 ++++++++++++-------
 3 files changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/deep/api/tracepoint/constants.py b/src/deep/api/tracepoint/constants.py
index 471825c..e95479d 100644
--- a/src/deep/api/tracepoint/constants.py
+++ b/src/deep/api/tracepoint/constants.py
@@ -100,5 +100,19 @@ METHOD_CAPTURE = "method_capture"
 METHOD_STAGES = [METHOD_START, METHOD_CAPTURE, METHOD_END]
 """All stages linked to methods."""
 
+MAX_VAR_DEPTH = "MAX_VAR_DEPTH"
+"""The maximum depth of variables to collect"""
+MAX_VARIABLES = "MAX_VARIABLES"
+"""The maximum number of variables to collect"""
+MAX_COLLECTION_SIZE = "MAX_COLLECTION_SIZE"
+"""The maximum number of elements to collect from a collection"""
+MAX_STRING_LENGTH = "MAX_STRING_LENGTH"
+"""The maximum length of the value of a variable"""
+MAX_TP_PROCESS_TIME = "MAX_TP_PROCESS_TIME"
+"""The maximum time, in ms, to spend on collecting variables"""
+
+COLLECTION_LIMITS = [MAX_VAR_DEPTH, MAX_VARIABLES, MAX_COLLECTION_SIZE, MAX_STRING_LENGTH, MAX_TP_PROCESS_TIME]
+"""All the limits for data collection"""
+
 WATCHES = "watches"
 """Key for watch config"""
diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 7d0b57a..670d8b9 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -38,7 +38,8 @@ from typing import Optional, Dict, List
 
 from deep.api.tracepoint.constants import WINDOW_START, WINDOW_END, FIRE_COUNT, FIRE_PERIOD, LOG_MSG, WATCHES, \
     LINE_START, METHOD_START, METHOD_END, LINE_END, LINE_CAPTURE, METHOD_CAPTURE, NO_COLLECT, SNAPSHOT, CONDITION, \
-    FRAME_TYPE, STACK_TYPE, SINGLE_FRAME_TYPE, STACK, SPAN, STAGE, METHOD_NAME, LINE_STAGES, METHOD_STAGES, METHOD
+    FRAME_TYPE, STACK_TYPE, SINGLE_FRAME_TYPE, STACK, SPAN, STAGE, METHOD_NAME, LINE_STAGES, METHOD_STAGES, METHOD, \
+    COLLECTION_LIMITS
 from deep.api.tracepoint.tracepoint_config import TracepointWindow, TracepointExecutionStats, MetricDefinition, \
     TracePointConfig
 
@@ -597,6 +598,11 @@ def __window_args(args: Dict[str, str]) -> Dict[str, str]:
     return {key: args[key] for key in [WINDOW_START, WINDOW_END] if key in args}
 
 
+def __limit_args(args: Dict[str, str]) -> Dict[str, str]:
+    """Get the args that define the collection limits, if there are any."""
+    return {key: args[key] for key in COLLECTION_LIMITS if key in args}
+
+
 def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str]) -> Optional[LocationAction]:
     """
     Create an action to create a snapshot.
@@ -620,6 +626,7 @@ def build_snapshot_action(tp_id: str, args: Dict[str, str], watches: List[str])
         LOG_MSG: args.get(LOG_MSG, None),
         # the stage decides if we send the snapshot now, or defer it to capture the result
         **({STAGE: args[STAGE]} if STAGE in args else {}),
+        **__limit_args(args),
         **__window_args(args),
     }, LocationAction.ActionType.Snapshot)
 
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index c95f0d1..133a9eb 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -34,7 +34,8 @@ import deep.logging
 from deep.api.attributes import BoundedAttributes
 from deep.api.tracepoint import EventSnapshot
 from deep.api.tracepoint.constants import FRAME_TYPE, SINGLE_FRAME_TYPE, NO_FRAME_TYPE, ALL_FRAME_TYPE, STAGE, \
-    LINE_CAPTURE, METHOD_CAPTURE
+    LINE_CAPTURE, METHOD_CAPTURE, MAX_TP_PROCESS_TIME, MAX_STRING_LENGTH, MAX_COLLECTION_SIZE, MAX_VARIABLES, \
+    MAX_VAR_DEPTH
 from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_WATCH
 from deep.api.tracepoint.trigger import LocationAction
 from deep.processor.context.action_context import ActionContext
@@ -53,18 +54,24 @@ class SnapshotActionContext(FrameCollectorContext, ActionContext):
     @property
     def max_tp_process_time(self) -> int:
         """The max time to spend processing a tracepoint."""
-        return self.location_action.config.get('MAX_TP_PROCESS_TIME', 100)
+        return self.__get_limit(MAX_TP_PROCESS_TIME, 100)
+
+    def __get_limit(self, name: str, default_value: int) -> int:
+        try:
+            # the args of a tracepoint are text
+            limit = int(self.location_action.config.get(name, default_value))
+        except (ValueError, TypeError, OverflowError):
+            return default_value
+        return limit if limit >= 0 else default_value
 
     @property
     def collection_config(self) -> VariableProcessorConfig:
         """The variable processing config."""
         config = VariableProcessorConfig()
-        config.max_string_length = self.location_action.config.get('MAX_STRING_LENGTH',
-                                                                   config.DEFAULT_MAX_STRING_LENGTH)
-        config.max_collection_size = self.location_action.config.get('MAX_COLLECTION_SIZE',
-                                                                     config.DEFAULT_MAX_COLLECTION_SIZE)
-        config.max_variables = self.location_action.config.get('MAX_VARIABLES', config.DEFAULT_MAX_VARIABLES)
-        config.max_var_depth = self.location_action.config.get('MAX_VAR_DEPTH', config.DEFAULT_MAX_VAR_DEPTH)
+        config.max_string_length = self.__get_limit(MAX_STRING_LENGTH, config.DEFAULT_MAX_STRING_LENGTH)
+        config.max_collection_size = self.__get_limit(MAX_COLLECTION_SIZE, config.DEFAULT_MAX_COLLECTION_SIZE)
+        config.max_variables = self.__get_limit(MAX_VARIABLES, config.DEFAULT_MAX_VARIABLES)
+        config.max_var_depth = self.__get_limit(MAX_VAR_DEPTH, config.DEFAULT_MAX_VAR_DEPTH)
         return config
 
     @property
-- 
2.43.0


From 7dfeecd75b9f20c4d1bd19df843798f7932d56cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 13/36] fix: a slow tracepoint uses up the processing time of
 the others at the location

---
 src/deep/processor/frame_collector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/frame_collector.py b/src/deep/processor/frame_collector.py
index ed11542..bc050ac 100644
--- a/src/deep/processor/frame_collector.py
+++ b/src/deep/processor/frame_collector.py
@@ -81,6 +81,8 @@ class FrameCollector:
         :param frame:  the frame data
         """
         self.__has_time_exceeded = False
+        # the time is per tracepoint, so do not include the time spent on other tracepoints at this location
+        self.__start_ts = time_ns()
         self.__source = source
         self.__frame = frame
 
@@ -88,7 +90,7 @@ class FrameCollector:
         if self.__has_time_exceeded:
             return self.__has_time_exceeded
 
-        duration = (time_ns() - self.__source.ts) / 1000000  # make duration ms not ns
+        duration = (time_ns() - self.__start_ts) / 1000000  # make duration ms not ns
         self.__has_time_exceeded = duration > self.__source.max_tp_process_time
         return self.__has_time_exceeded
 
-- 
2.43.0


From a067c239cb9328d1f890a46ec6ed20e06c92b77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:27 +0000
Subject: [PATCH 14/36] fix: log templates fail on valid expressions, and are
 labelled with the wrong ids

---
 src/deep/processor/context/log_action.py | 116 ++++++++++++++++++-----
 1 file changed, 92 insertions(+), 24 deletions(-)

diff --git a/src/deep/processor/context/log_action.py b/src/deep/processor/context/log_action.py
index 3216168..5b70771 100644
--- a/src/deep/processor/context/log_action.py
+++ b/src/deep/processor/context/log_action.py
@@ -28,7 +28,9 @@
 
 """Handling for log actions."""
 
-from typing import TYPE_CHECKING, List, Dict, Optional
+import ast
+import string
+from typing import TYPE_CHECKING, Callable, List, Dict, Optional
 
 from .action_context import ActionContext
 from .action_results import ActionResult, ActionCallback
@@ -62,37 +64,103 @@ class LogActionContext(ActionContext):
             (list) watch: the watch results from the expressions
             (dic) vars: the collected variables
         """
-        ctx_self = self
         watch_results = []
         _var_lookup = {}
 
-        class FormatDict(dict):
-            """This type is used in the log process to ensure that missing values are formatted don't error."""
+        def evaluate(expression: str) -> str:
+            # evaluate watch
+            watch, var_lookup, log_str = self.eval_watch(expression, WATCH_SOURCE_LOG)
+            # collect data
+            watch_results.append(watch)
+            _var_lookup.update(var_lookup)
+            return log_str
 
-            def __missing__(self, key):
-                return "{%s}" % key
-
-        import string
+        log_msg = "[deep] %s" % self.__render(str(log_msg), evaluate)
+        return log_msg, watch_results, _var_lookup
 
-        class FormatExtractor(string.Formatter):
-            """
-            Allows logs to be formatted correctly.
+    def __render(self, template: str, evaluate: Callable[[str], str]) -> str:
+        """
+        Render a log template.
 
-            This type allows us to use watches within log strings and collect the watch
-            as well as interpolate the values.
-            """
+        The literal text, and escaped braces, are preserved. A brace that is not part of a field is literal text.
 
-            def get_field(self, field_name, args, kwargs):
-                # evaluate watch
-                watch, var_lookup, log_str = ctx_self.eval_watch(field_name, WATCH_SOURCE_LOG)
-                # collect data
-                watch_results.append(watch)
-                _var_lookup.update(var_lookup)
+        :param template: the template to render
+        :param evaluate: the function to evaluate an expression to a string
+        :return: the rendered template
+        """
+        result = []
+        pos = 0
+        while pos < len(template):
+            char = template[pos]
+            if char in '{}' and template[pos:pos + 2] == char * 2:
+                result.append(char)
+                pos += 2
+                continue
+            end = self.__find_field_end(template, pos) if char == '{' else -1
+            if end == -1:
+                result.append(char)
+                pos += 1
+                continue
+            result.append(self.__render_field(template[pos + 1:end], evaluate))
+            pos = end + 1
+        return ''.join(result)
+
+    @classmethod
+    def __find_field_end(cls, template: str, start: int) -> int:
+        """
+        Find the brace that ends the field.
 
-                return log_str, field_name
+        :param template: the template
+        :param start: the position of the brace that starts the field
+        :return: the position of the brace, or -1 if the field does not end
+        """
+        # the expression can contain braces, so look for the first end that gives us an expression
+        end = template.find('}', start)
+        while end != -1:
+            if cls.__is_expression(template[start + 1:end]):
+                return end
+            end = template.find('}', end + 1)
+
+        # the expression is not valid, so use the matching brace
+        depth = 0
+        for pos in range(start, len(template)):
+            if template[pos] == '{':
+                depth += 1
+            elif template[pos] == '}':
+                depth -= 1
+                if depth == 0:
+                    return pos
+        return -1
+
+    @staticmethod
+    def __is_expression(text: str) -> bool:
+        try:
+            ast.parse(text.strip(), mode='eval')
+            return True
+        except Exception:
+            return False
+
+    def __render_field(self, field: str, evaluate: Callable[[str], str]) -> str:
+        """
+        Render a single field of the template.
 
-        log_msg = "[deep] %s" % FormatExtractor().vformat(log_msg, (), FormatDict(self.trigger_context.locals))
-        return log_msg, watch_results, _var_lookup
+        :param field: the text between the braces
+        :param evaluate: the function to evaluate an expression to a string
+        :return: the string form of the expression, or the error text
+        """
+        if self.__is_expression(field):
+            return evaluate(field)
+        # the field can have a conversion and a format spec after the expression
+        try:
+            _, expression, spec, conversion = next(iter(string.Formatter().parse("{%s}" % field)))
+        except Exception:
+            return evaluate(field)
+        value = evaluate(expression)
+        try:
+            value = string.Formatter().convert_field(value, conversion)
+            return format(value, self.__render(spec, evaluate))
+        except Exception:
+            return value
 
 
 class LogActionResult(ActionResult):
@@ -118,5 +186,5 @@ class LogActionResult(ActionResult):
         """
         tracepoint_logger = ctx.config.tracepoint_logger
         if tracepoint_logger:
-            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)
+            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)
         return None
-- 
2.43.0


From 8236bc4deb64217303b5ca0852d12fd4953114bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:00 +0000
Subject: [PATCH 15/36] fix: creating a snapshot changes the random sequence of
 the application

---
 src/deep/api/tracepoint/eventsnapshot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/deep/api/tracepoint/eventsnapshot.py b/src/deep/api/tracepoint/eventsnapshot.py
index 6f2f04c..f5dff06 100644
--- a/src/deep/api/tracepoint/eventsnapshot.py
+++ b/src/deep/api/tracepoint/eventsnapshot.py
@@ -15,7 +15,7 @@
 
 """Types for the captured data."""
 
-import random
+import uuid
 from typing import Optional, Dict, List
 
 from deep.api.attributes import BoundedAttributes
@@ -36,7 +36,8 @@ class EventSnapshot:
         :param frames: the captured frames
         :param var_lookup: the captured variables.
         """
-        self._id = random.getrandbits(128)
+        # do not use the shared random generator, else we change the sequence the application gets
+        self._id = uuid.uuid4().int
         self._tracepoint = tracepoint
         self._var_lookup: Dict[str, 'Variable'] = var_lookup
         self._ts_nanos = ts
-- 
2.43.0


From d53f486a4f4dcde62ef91c74f8ae8bcfd6e00470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:53 +0000
Subject: [PATCH 16/36] fix: pending callbacks are inherited by later threads,
 and leave dummy threads behind

---
 src/deep/thread_local.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/deep/thread_local.py b/src/deep/thread_local.py
index 2180f62..65adba9 100644
--- a/src/deep/thread_local.py
+++ b/src/deep/thread_local.py
@@ -25,8 +25,6 @@ T = TypeVar('T')
 class ThreadLocal(Generic[T]):
     """This type offers the ability to store a value based on the thread that accessed the value."""
 
-    __store = {}
-
     def __init__(self, default_provider: Callable[[], T] = lambda: None):
         """
         Create a new ThreadLocal value.
@@ -34,6 +32,8 @@ class ThreadLocal(Generic[T]):
         :param default_provider: a provider that will produce a default value
         """
         self.__default_provider = default_provider
+        # thread ids are reused when a thread ends, so we cannot use them to store the values
+        self.__store = threading.local()
 
     def get(self) -> T:
         """
@@ -41,11 +41,10 @@ class ThreadLocal(Generic[T]):
 
         :return: the stored value, or the value from the default_provider
         """
-        current_thread = threading.current_thread()
-        get = self.__store.get(current_thread.ident, None)
+        get = getattr(self.__store, 'value', None)
         if get is None:
             get = self.__default_provider()
-            self.__store[current_thread.ident] = get
+            self.__store.value = get
         return get
 
     def set(self, val: T):
@@ -54,14 +53,12 @@ class ThreadLocal(Generic[T]):
 
         :param val: the value to store
         """
-        current_thread = threading.current_thread()
-        self.__store[current_thread.ident] = val
+        self.__store.value = val
 
     def clear(self):
         """Remove the value for this thread."""
-        current_thread = threading.current_thread()
-        if current_thread.ident in self.__store:
-            del self.__store[current_thread.ident]
+        if self.is_set:
+            del self.__store.value
 
     @property
     def is_set(self):
@@ -70,8 +67,7 @@ class ThreadLocal(Generic[T]):
 
         :return: True if there is a value for this thread
         """
-        current_thread = threading.current_thread()
-        return current_thread.ident in self.__store
+        return hasattr(self.__store, 'value')
 
     @property
     def value(self):
-- 
2.43.0


From d0a4e4ebf134436238bd04c7a7d0ed45934f292f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:22 +0000
Subject: [PATCH 17/36] fix: method tracepoints without a method name act on
 unrelated events, or raise into the application

---
 src/deep/api/tracepoint/trigger.py        | 48 ++++++++++++++---------
 src/deep/processor/context/span_action.py |  3 +-
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/src/deep/api/tracepoint/trigger.py b/src/deep/api/tracepoint/trigger.py
index 670d8b9..8b21ee7 100644
--- a/src/deep/api/tracepoint/trigger.py
+++ b/src/deep/api/tracepoint/trigger.py
@@ -29,10 +29,11 @@
 """Handlers for triggers and action configs."""
 
 import abc
+import dis
 import inspect
 import threading
 from enum import Enum
-from types import FrameType
+from types import CodeType, FrameType
 
 from typing import Optional, Dict, List
 
@@ -512,17 +513,19 @@ class LineLocation(Location):
 class FunctionLocation(Location):
     """A location for a method entry/exit/capture point."""
 
-    def __init__(self, path: str, function_name: Optional[str], position: Location.Position):
+    def __init__(self, path: str, function_name: Optional[str], position: Location.Position, source_line: int = -1):
         """
         Create a new method location.
 
         :param path:  the source file path
         :param function_name: the function name
         :param position: the position
+        :param source_line: the line that identifies the function, if there is no function name
         """
         super().__init__(position)
         self.__function_name = function_name
         self.__path = path
+        self.__source_line = source_line
 
     def at_location(self, event: str, file: str, line: int, function_name: str, frame: FrameType):
         """
@@ -535,28 +538,37 @@ class FunctionLocation(Location):
         :param frame: the triggering frame object
         :return: True, if we are at this location we expect, else False.
         """
-        if file != self.path:
+        if event != "call" or file != self.path:
             return False
 
-        # if method_name is not set then we need to discover it from the frame.
+        # if method_name is not set then we are looking for the function that has the line.
         if self.__function_name is None:
-            # load source lines
-            lines, start = inspect.getsourcelines(frame)
-            end = start + len(lines)
-            # if the targeted line is in the range of start to end
-            if start <= line >= end:
-                # set the method to this name (so we do not need to look it up again)
-                self.__function_name = function_name
-                return True
-            return False
-
-        if event == "call" and function_name == self.__function_name:
-            return True
-        return False
+            return self.__find_function(frame.f_code) is frame.f_code
+
+        return function_name == self.__function_name
+
+    @staticmethod
+    def __is_function(code: CodeType) -> bool:
+        # modules and classes are not optimized, expressions (e.g. lambda) do not have a real name
+        return bool(code.co_flags & inspect.CO_OPTIMIZED) and not code.co_name.startswith('<')
+
+    def __find_function(self, code: CodeType) -> Optional[CodeType]:
+        """Find the innermost function that has the line, this can be a function that is defined in this code."""
+        for const in code.co_consts:
+            if isinstance(const, CodeType):
+                found = self.__find_function(const)
+                if found is not None:
+                    return found
+        if not self.__is_function(code):
+            return None
+        last_line = max([code.co_firstlineno] + [line for _, line in dis.findlinestarts(code) if line is not None])
+        return code if code.co_firstlineno <= self.__source_line <= last_line else None
 
     @property
     def id(self):
         """The location id."""
+        if self.__function_name is None:
+            return "%s#function:%s" % (self.path, self.__source_line)
         return "%s#%s" % (self.path, self.__function_name)
 
     @property
@@ -719,7 +731,7 @@ def build_trigger(tp_id: str, path: str, line_no: int, args: Dict[str, str], wat
     if stage_ in LINE_STAGES:
         location = LineLocation(path, line_no, position)
     elif stage_ in METHOD_STAGES:
-        location = FunctionLocation(path, args.get(METHOD_NAME, None), position)
+        location = FunctionLocation(path, args.get(METHOD_NAME, None), position, line_no)
     else:
         return None
 
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index 341a411..b7f4b3a 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -97,4 +97,5 @@ class SpanActionContext(ActionContext):
     def _span_name(self):
         location = self.location_action.location
         if location:
-            return location.name
+            # a method location does not always have a name, so use the method we are in
+            return location.name or self.trigger_context.frame.f_code.co_name
-- 
2.43.0


From 5964a077d37a02b215781f5bbd6587eb980cc6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 18/36] fix: a failing span, span processor or capture stops
 the other spans, and loses the snapshot

---
 src/deep/processor/context/action_context.py  |  1 -
 src/deep/processor/context/snapshot_action.py | 21 ++++++++++++-------
 src/deep/processor/context/span_action.py     | 15 +++++++++----
 3 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index a18bae7..05d1e89 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -106,7 +106,6 @@ class ActionContext(abc.ABC):
         """
         var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)
         variable_id, log_str = var_processor.process_variable(name, variable)
-        self.var_cache.release()
         if variable_id is None:
             return WatchResult(WATCH_SOURCE_CAPTURE, name, None, NO_SPACE_FOR_VARIABLE), {}, log_str
 
diff --git a/src/deep/processor/context/snapshot_action.py b/src/deep/processor/context/snapshot_action.py
index 133a9eb..5caa271 100644
--- a/src/deep/processor/context/snapshot_action.py
+++ b/src/deep/processor/context/snapshot_action.py
@@ -32,16 +32,17 @@ from typing import Tuple, Optional, TYPE_CHECKING
 
 import deep.logging
 from deep.api.attributes import BoundedAttributes
-from deep.api.tracepoint import EventSnapshot
+from deep.api.tracepoint import EventSnapshot, WatchResult
 from deep.api.tracepoint.constants import FRAME_TYPE, SINGLE_FRAME_TYPE, NO_FRAME_TYPE, ALL_FRAME_TYPE, STAGE, \
     LINE_CAPTURE, METHOD_CAPTURE, MAX_TP_PROCESS_TIME, MAX_STRING_LENGTH, MAX_COLLECTION_SIZE, MAX_VARIABLES, \
     MAX_VAR_DEPTH
-from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_WATCH
+from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_WATCH, WATCH_SOURCE_CAPTURE
 from deep.api.tracepoint.trigger import LocationAction
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 from deep.processor.context.log_action import LOG_MSG, LogActionContext, LogActionResult
 from deep.processor.frame_collector import FrameCollectorContext, FrameCollector
+from deep.processor.variable_processor import safe_str
 from deep.processor.variable_set_processor import VariableProcessorConfig
 
 if TYPE_CHECKING:
@@ -192,8 +193,8 @@ class DeferredSnapshotActionResult(ActionResult):
                 decorate = decorator.decorate(self.snapshot.id_str, self.action_context)
                 if decorate is not None:
                     attributes.merge_in(decorate)
-            except Exception:
-                deep.logging.exception("Failed to decorate snapshot: %s ", decorator)
+            except BaseException:
+                deep.logging.exception("Failed to decorate snapshot with %s", type(decorator).__name__)
         self.snapshot.attributes.merge_in(attributes)
         return self.snapshot
 
@@ -222,9 +223,15 @@ class DeferredSnapshotActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         if event in ['exception', 'return']:
-            watch, new_vars, _ = self.__action_context.process_capture_variable(event, arg)
-            self.__snapshot.add_watch_result(watch)
-            self.__snapshot.merge_var_lookup(new_vars)
+            try:
+                watch, new_vars, _ = self.__action_context.process_capture_variable(event, arg)
+                self.__snapshot.add_watch_result(watch)
+                self.__snapshot.merge_var_lookup(new_vars)
+            except BaseException as e:
+                deep.logging.exception("Failed to capture the result of snapshot %s", self.__snapshot.id_str)
+                self.__snapshot.add_watch_result(WatchResult(WATCH_SOURCE_CAPTURE, event, None, safe_str(e)))
+            finally:
+                self.__action_context.var_cache.release()
 
         ctx.push_service.push_snapshot(self.__snapshot)
         return False
diff --git a/src/deep/processor/context/span_action.py b/src/deep/processor/context/span_action.py
index b7f4b3a..ee5940f 100644
--- a/src/deep/processor/context/span_action.py
+++ b/src/deep/processor/context/span_action.py
@@ -17,6 +17,7 @@
 from types import FrameType
 from typing import Optional, TYPE_CHECKING
 
+import deep.logging
 from deep.processor.context.action_context import ActionContext
 from deep.processor.context.action_results import ActionResult, ActionCallback
 
@@ -42,7 +43,10 @@ class SpanActionCallback(ActionCallback):
         :return: True, to keep this callback until next match.
         """
         for span in self.__spans:
-            span.close()
+            try:
+                span.close()
+            except BaseException:
+                deep.logging.exception("Failed to close span from %s", type(span).__name__)
         return False
 
 
@@ -86,9 +90,12 @@ class SpanActionContext(ActionContext):
         spans = []
 
         for span_processor in self.trigger_context.config.span_processors:
-            span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
-            if span:
-                spans.append(span)
+            try:
+                span = span_processor.create_span(name, self.trigger_context.id, self.location_action.tracepoint.id)
+                if span is not None:
+                    spans.append(span)
+            except BaseException:
+                deep.logging.exception("Failed to create span with %s", type(span_processor).__name__)
 
         if len(spans) > 0:
             self.trigger_context.attach_result(SpanResult(spans))
-- 
2.43.0


From 0fc522b9c1591e614c4422b323d83b22b3987658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:22 +0000
Subject: [PATCH 19/36] fix: deferred work is completed by another invocation
 or never, and errors are raised into the application

Callbacks now belong to the frame that opened them, so recursion, nesting and caught exceptions
complete the right one. An error while processing an event no longer leaves the trace function.
---
 .../processor/context/callback_context.py     | 76 ++++++++++++++++-
 src/deep/processor/context/trigger_context.py |  5 +-
 src/deep/processor/trigger_handler.py         | 83 +++++++++++++------
 3 files changed, 132 insertions(+), 32 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 09f653d..3ce3a79 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -14,9 +14,12 @@
 #      along with this program.  If not, see <https://www.gnu.org/licenses/>.
 
 """Handling for action callbacks."""
+import dis
+import sys
 from types import FrameType
-from typing import List
+from typing import List, Optional
 
+from deep import logging
 from deep.api.tracepoint.trigger import Location
 
 from deep.processor.context.action_results import ActionCallback
@@ -31,9 +34,17 @@ class CallbackContext(Location, ActionCallback):
     to close when the line/method completes.
     """
 
-    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback']):
+    def __init__(self, event: str, filename: str, line: int, name: str, callbacks: List['ActionCallback'],
+                 frame: Optional[FrameType] = None):
         """Create new callback context."""
         super().__init__(Location.Position.END)
+        self.__frame = frame
+        # the exceptions that have been raised in the frame, by the instruction that raised
+        self.__raised = {}
+        # the instruction that raised, if nothing has been executed in the frame since
+        self.__last_raise = None
+        # the exception that is being handled, e.g. while we are in an except or finally block
+        self.__handling = sys.exc_info()
         self.__event = event
         self.__filename = filename
         self.__function_name = name
@@ -55,11 +66,64 @@ class CallbackContext(Location, ActionCallback):
         if file != self.__filename or function_name != self.__function_name:
             return False
 
+        if frame is not self.__frame:
+            # this is another invocation of the function (e.g. recursion), unless the frame that opened this has ended
+            if self.__is_running(frame):
+                return False
+        elif self.__event != 'line':
+            # an exception can still be handled by the method
+            return event == 'return'
+
         if self.__event == 'line':
             return self.__check_at_next_line(event, file, function_name)
         else:
             return self.__check_at_method_end(event)
 
+    def __is_running(self, frame: Optional[FrameType]) -> bool:
+        while frame is not None:
+            if frame is self.__frame:
+                return True
+            frame = frame.f_back
+        return False
+
+    def observe(self, event: str, frame: FrameType, arg: any):
+        """
+        Observe an event, so we know what exception is raised if the frame unwinds.
+
+        When a frame unwinds there is a 'return' event, but we are not told about the exception.
+
+        :param event: the event
+        :param frame: the frame data
+        :param arg: the arg from settrace
+        """
+        if frame is not self.__frame:
+            return
+        if event == 'exception':
+            self.__raised[frame.f_lasti] = arg
+            self.__last_raise = frame.f_lasti
+        elif event == 'line':
+            self.__last_raise = None
+            self.__handling = sys.exc_info()
+            if self.__handling[1] is None:
+                self.__raised.clear()
+
+    def __get_unwind_exception(self, event: str, frame: FrameType, arg: any):
+        """Get the exception that unwinds the frame, or None if the frame is not unwinding."""
+        if event != 'return' or arg is not None or frame is not self.__frame or frame.f_lasti < 0:
+            return None
+        op_name = dis.opname[frame.f_code.co_code[frame.f_lasti]]
+        raised = self.__raised.get(frame.f_lasti, None)
+        if op_name.startswith(('YIELD', 'SEND')):
+            # this is only unwinding if the exception was thrown into the frame at the yield
+            return raised if self.__last_raise == frame.f_lasti else None
+        if op_name.startswith('RETURN'):
+            return None
+        if raised is not None:
+            return raised
+        if self.__handling[1] is not None:
+            return self.__handling
+        return next(reversed(list(self.__raised.values())), self.__handling)
+
     def process(self, ctx: 'TriggerContext', event: str, frame: FrameType, arg: any):
         """
         Process all callbacks.
@@ -70,8 +134,14 @@ class CallbackContext(Location, ActionCallback):
         :param arg: the arg from settrace
         :return: True, to keep this callback until next match.
         """
+        exception = self.__get_unwind_exception(event, frame, arg)
+        if exception is not None:
+            event, arg = 'exception', exception
         for callback in self.__callbacks:
-            callback.process(ctx, event, frame, arg)
+            try:
+                callback.process(ctx, event, frame, arg)
+            except BaseException:
+                logging.exception("Cannot process callback %s", self.__function_name)
 
     @property
     def id(self) -> str:
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 6119afa..40ce053 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -74,8 +74,9 @@ class TriggerContext:
                 new_callback = result.process(self)
                 if new_callback is not None:
                     self.callbacks.append(new_callback)
-            except Exception:
-                deep.logging.exception("failed to process result {}", result)
+            except BaseException:
+                deep.logging.exception("Failed to process result %s", type(result).__name__)
+        self.__results = []
 
     @property
     def id(self):
diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index a874dda..3473e92 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -153,20 +153,30 @@ class TriggerHandler:
         :param arg: the args
         :return: None to ignore other calls, or our self to continue
         """
+        # an error raised by a trace function is raised in the code being traced, and stops the tracing
+        try:
+            return self.__trace_call(frame, event, arg)
+        except BaseException:
+            self.__log_failure("Cannot process event %s", event)
+            return self.trace_call
+
+    def __trace_call(self, frame: FrameType, event: str, arg):
         event, file, line, function = self.location_from_event(event, frame)
-        trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
 
         if event in ["line", "return", "exception"] and self._callbacks.is_set:
-            self.__process_call_backs(trigger_context, arg, frame, event, file, line, function)
+            self.__process_call_backs(arg, frame, event, file, line, function)
 
+        # the config can be changed by another thread at any time
+        tp_config = self._tp_config
         # return if we do not have any tracepoints
-        if len(self._tp_config) == 0:
+        if len(tp_config) == 0:
             return None
 
-        actions = self.__actions_for_location(event, file, line, function, frame)
+        actions = self.__actions_for_location(tp_config, event, file, line, function, frame)
         if len(actions) == 0:
             return self.trace_call
 
+        trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
         try:
             with trigger_context:
                 for action in actions:
@@ -176,41 +186,60 @@ class TriggerHandler:
                             if ctx.can_trigger() and ctx.claim():
                                 ctx.process()
                     except BaseException:
-                        logging.exception("Cannot process action %s", action)
+                        self.__log_failure("Cannot process action %s", action)
         except BaseException:
-            logging.exception("Cannot trigger at %s#%s %s", file, line, function)
+            self.__log_failure("Cannot trigger at %s#%s %s", file, line, function)
 
         callbacks = trigger_context.callbacks
+        # the callbacks keep the context, so do not let the context keep the callbacks
+        trigger_context.callbacks = []
         if len(callbacks) > 0:
-            logging.debug("Callbacks registered: %s", callbacks)
-            self._callbacks.get().append(
-                CallbackContext(event, file, line, function, callbacks))
+            self._callbacks.get().append(CallbackContext(event, file, line, function, callbacks, frame))
 
         return self.trace_call
 
-    def __actions_for_location(self, event, file, line, function, frame):
+    def __actions_for_location(self, tp_config, event, file, line, function, frame):
         actions = []
-        for trigger in self._tp_config:
-            if trigger.at_location(event, file, line, function, frame):
-                actions += trigger.actions
+        for trigger in tp_config:
+            try:
+                if trigger.at_location(event, file, line, function, frame):
+                    actions += trigger.actions
+            except BaseException:
+                self.__log_failure("Cannot check the location of %s", trigger)
         return actions
 
-    def __process_call_backs(self, ctx: 'TriggerContext', arg: any, frame: FrameType, event: str, file: str, line: int,
-                             function_name: str):
-        # remove top context
-        context: CallbackContext = self._callbacks.value.pop()
-        # if it is for our location process it
-        if context.at_location(event, file, line, function_name, frame):
-            logging.debug("At callback location %s", context.name)
-            context.process(ctx, event, frame, arg)
-        else:
-            logging.debug("Not at callback location %s", context.name)
-            # else put the context back on the queue
-            self._callbacks.value.append(context)
+    def __process_call_backs(self, arg: any, frame: FrameType, event: str, file: str, line: int, function_name: str):
+        pending = self._callbacks.value
+        for context in pending:
+            context.observe(event, frame, arg)
+
+        # more than one can end here, e.g. if the last line of a method returns
+        ended = [context for context in pending if context.at_location(event, file, line, function_name, frame)]
+        if len(ended) == 0:
+            return
 
-        if len(self._callbacks.value) == 0:
-            logging.debug("Callbacks cleared.")
+        # remove them before we process them, so that they are never processed again
+        remaining = deque(context for context in pending if not any(context is end for end in ended))
+        if len(remaining) == 0:
             self._callbacks.clear()
+        else:
+            self._callbacks.set(remaining)
+
+        trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)
+        # the last to be opened is the first to be closed
+        for context in reversed(ended):
+            try:
+                context.process(trigger_context, event, frame, arg)
+            except BaseException:
+                self.__log_failure("Cannot process callbacks of %s", function_name)
+
+    @staticmethod
+    def __log_failure(msg, *args):
+        # the logging is configured by the application, so it is also not trusted to not fail
+        try:
+            logging.exception(msg, *args)
+        except BaseException:
+            pass
 
     @staticmethod
     def location_from_event(event: str, frame: FrameType) -> Tuple[str, str, int, Optional[str]]:
-- 
2.43.0


From 3cc04e0d0083d9c83abd0752dfe2bf8666b2fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 20/36] fix: trace hooks are lost by a second start, set by
 shutdown when disabled, and not restored on other threads

---
 src/deep/processor/trigger_handler.py | 68 +++++++++++++++++++++++++--
 1 file changed, 63 insertions(+), 5 deletions(-)

diff --git a/src/deep/processor/trigger_handler.py b/src/deep/processor/trigger_handler.py
index 3473e92..bf50342 100644
--- a/src/deep/processor/trigger_handler.py
+++ b/src/deep/processor/trigger_handler.py
@@ -88,6 +88,10 @@ class TriggerHandler:
         """
         self.__old_thread_trace = None
         self.__old_sys_trace = None
+        self.__installed = False
+        self.__shutdown = False
+        # the trace function is set per thread, so mark the thread we replaced the function on
+        self.__start_thread: ThreadLocal[bool] = ThreadLocal(lambda: False)
         self._push_service = push_service
         self._tp_config: List[Trigger] = []
         self._config = config
@@ -98,15 +102,34 @@ class TriggerHandler:
         """Start the trigger handler."""
         # if we call settrace we cannot use debugger,
         # so we allow the settrace to be disabled, so we can at least debug around it
-        if self._config.NO_TRACE:
+        if self.__is_disabled() or self.__installed:
             return
-        self.__old_sys_trace = sys.gettrace()
+        old_sys_trace = sys.gettrace()
         # gettrace was added in 3.10, so use it if we can, else try to get from property
         # noinspection PyUnresolvedReferences,PyProtectedMember
-        self.__old_thread_trace = threading.gettrace() if hasattr(threading, 'gettrace') else threading._trace_hook
+        old_thread_trace = threading.gettrace() if hasattr(threading, 'gettrace') else threading._trace_hook
+        # we can still be installed if we were shutdown by another thread, so do not lose the original functions
+        if old_thread_trace != self.trace_call:
+            self.__old_thread_trace = old_thread_trace
+        if old_sys_trace != self.trace_call:
+            self.__old_sys_trace = old_sys_trace
+        elif not self.__start_thread.value:
+            self.__old_sys_trace = self.__old_thread_trace
+        # any other thread that was marked is no longer the one to restore
+        self.__start_thread = ThreadLocal(lambda: False)
+        self.__start_thread.set(True)
+        self.__installed = True
+        self.__shutdown = False
         sys.settrace(self.trace_call)
         threading.settrace(self.trace_call)
 
+    def __is_disabled(self):
+        no_trace = self._config.NO_TRACE
+        if isinstance(no_trace, str):
+            # environment values are text
+            return no_trace.strip().lower() not in ("", "false", "f", "no", "n", "0", "off", "none")
+        return bool(no_trace)
+
     def new_config(self, new_config: List['Trigger']):
         """
         Process a new tracepoint config.
@@ -155,6 +178,8 @@ class TriggerHandler:
         """
         # an error raised by a trace function is raised in the code being traced, and stops the tracing
         try:
+            if self.__shutdown:
+                return self.__restore_thread(frame)
             return self.__trace_call(frame, event, arg)
         except BaseException:
             self.__log_failure("Cannot process event %s", event)
@@ -270,5 +295,38 @@ class TriggerHandler:
 
         Reset the settrace to the previous values.
         """
-        sys.settrace(self.__old_sys_trace)
-        threading.settrace(self.__old_thread_trace)
+        if self.__shutdown:
+            return
+        try:
+            # we get no more events, so complete what we can
+            self.__complete_pending()
+        finally:
+            self.__shutdown = True
+            if self.__installed:
+                self.__installed = False
+                threading.settrace(self.__old_thread_trace)
+                if self.__start_thread.value:
+                    sys.settrace(self.__old_sys_trace)
+                elif sys.gettrace() == self.trace_call:
+                    sys.settrace(self.__old_thread_trace)
+
+    def __complete_pending(self):
+        if not self._callbacks.is_set:
+            return
+        pending = self._callbacks.value
+        self._callbacks.clear()
+        trigger_context = TriggerContext(self._config, self._push_service, sys._getframe(), "shutdown", None)
+        for context in reversed(pending):
+            try:
+                context.process(trigger_context, "shutdown", trigger_context.frame, None)
+            except BaseException:
+                self.__log_failure("Cannot process callbacks of %s", context.name)
+
+    def __restore_thread(self, frame):
+        # shutdown can only restore the thread it was called on, so the other threads are restored when we see them
+        self._callbacks.clear()
+        if frame.f_trace == self.trace_call:
+            frame.f_trace = None
+        if sys.gettrace() == self.trace_call:
+            sys.settrace(self.__old_sys_trace if self.__start_thread.value else self.__old_thread_trace)
+        return None
-- 
2.43.0


From 324d3f0e3a9253ce6b007f8e74b059647510c804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:25 +0000
Subject: [PATCH 21/36] fix: snapshots with surrogates, sequences or large
 numbers in their fields are never sent

---
 src/deep/grpc/__init__.py | 34 ++++++++++++++++++----
 src/deep/push/__init__.py | 59 ++++++++++++++++++++++++---------------
 2 files changed, 65 insertions(+), 28 deletions(-)

diff --git a/src/deep/grpc/__init__.py b/src/deep/grpc/__init__.py
index b950ff2..71f9b05 100644
--- a/src/deep/grpc/__init__.py
+++ b/src/deep/grpc/__init__.py
@@ -35,6 +35,26 @@ from ..api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
 from ..api.tracepoint.trigger import build_trigger, Trigger
 
 
+MIN_INT_64 = -2 ** 63
+MAX_INT_64 = 2 ** 63 - 1
+
+
+def convert_text(value):
+    """
+    Convert a value to text that can be sent.
+
+    Python strings can contain surrogates (e.g. file names that are not valid text), these cannot be encoded so they
+    are escaped.
+
+    :param value: the value to convert
+    :return: the text, or None if the value is None.
+    """
+    if value is None:
+        return None
+    text = str.__str__(value) if isinstance(value, str) else str(value)
+    return text.encode('utf-8', 'backslashreplace').decode('utf-8')
+
+
 def convert_value(value):
     """
     Convert a value from the python type.
@@ -42,12 +62,14 @@ def convert_value(value):
     :param value: the value to convert
     :return: the value wrapped in the appropriate AnyValue type.
     """
-    """Convert the attributes to jaeger tags."""
     if isinstance(value, bool):
         return AnyValue(bool_value=value)
     if isinstance(value, str):
-        return AnyValue(string_value=value)
+        return AnyValue(string_value=convert_text(value))
     if isinstance(value, int):
+        if not MIN_INT_64 <= value <= MAX_INT_64:
+            # this is not a value we can send as a number
+            return AnyValue(string_value=convert_text(value))
         return AnyValue(int_value=value)
     if isinstance(value, float):
         return AnyValue(double_value=value)
@@ -55,18 +77,18 @@ def convert_value(value):
         return AnyValue(bytes_value=value)
     if isinstance(value, dict):
         return AnyValue(kvlist_value=__value_as_dict(value))
-    if isinstance(value, list):
+    if isinstance(value, (list, tuple)):
         return AnyValue(array_value=__value_as_list(value))
 
     return None
 
 
 def __value_as_dict(value):
-    return KeyValueList(values=[KeyValue(key=k, value=convert_value(v)) for k, v in value.items()])
+    return KeyValueList(values=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in value.items()])
 
 
 def __value_as_list(value):
-    return ArrayValue(values=[convert_value(val) for val in value])
+    return ArrayValue(values=[convert_value(val) or AnyValue() for val in value])
 
 
 def convert_resource(resource):
@@ -81,7 +103,7 @@ def convert_resource(resource):
 
 def __convert_attributes(attributes):
     return Resource(dropped_attributes_count=attributes.dropped,
-                    attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in attributes.items()])
+                    attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in attributes.items()])
 
 
 def __convert_static_value(value):
diff --git a/src/deep/push/__init__.py b/src/deep/push/__init__.py
index 7f1e372..c426d34 100644
--- a/src/deep/push/__init__.py
+++ b/src/deep/push/__init__.py
@@ -21,37 +21,48 @@ have type definitions that work in IDE. It also makes it easier to deal with age
 having local types we can modify.
 """
 
-import logging
-
 # noinspection PyUnresolvedReferences
 from deepproto.proto.common.v1.common_pb2 import KeyValue
 # noinspection PyUnresolvedReferences
 from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot, TracePointConfig, WatchResult, Variable, \
     VariableID, StackFrame, WatchSource
 
+from deep import logging
 from .push_service import PushService
 
 __all__ = [PushService.__name__]
 
 from ..api.tracepoint import TracePointConfig as TrPoCo, EventSnapshot, StackFrame as StFr, WatchResult as WaRe, \
     Variable as Var, VariableId as VarId
-from ..grpc import convert_value
+from ..grpc import convert_value, convert_text
+
+MAX_UINT_32 = 0xFFFFFFFF
+
+
+def __convert_number(number):
+    # a number we do not know is not sent, and we never send a value that the type does not support
+    return min(max(number or 0, 0), MAX_UINT_32)
 
 
 def __convert_tracepoint(tracepoint: TrPoCo):
-    return TracePointConfig(ID=tracepoint.id, path=tracepoint.path, line_number=tracepoint.line_no,
-                            args=tracepoint.args,
-                            watches=tracepoint.watches)
+    return TracePointConfig(ID=convert_text(tracepoint.id), path=convert_text(tracepoint.path),
+                            line_number=__convert_number(tracepoint.line_no),
+                            args={convert_text(k): convert_text(v) for k, v in tracepoint.args.items()
+                                  if v is not None},
+                            watches=[convert_text(w) for w in tracepoint.watches])
 
 
 def __convert_frame(frame: StFr):
-    return StackFrame(file_name=frame.file_name, short_path=frame.short_path, method_name=frame.method_name,
-                      line_number=frame.line_number, class_name=frame.class_name, is_async=frame.is_async,
-                      column_number=frame.column_number, variables=[__convert_variable_id(v) for v in frame.variables],
+    return StackFrame(file_name=convert_text(frame.file_name), short_path=convert_text(frame.short_path),
+                      method_name=convert_text(frame.method_name),
+                      line_number=__convert_number(frame.line_number), class_name=convert_text(frame.class_name),
+                      is_async=frame.is_async,
+                      column_number=__convert_number(frame.column_number),
+                      variables=[__convert_variable_id(v) for v in frame.variables],
                       app_frame=frame.app_frame,
-                      transpiled_file_name=frame.transpiled_file_name,
-                      transpiled_line_number=frame.transpiled_line_number,
-                      transpiled_column_number=frame.transpiled_column_number,
+                      transpiled_file_name=convert_text(frame.transpiled_file_name),
+                      transpiled_line_number=__convert_number(frame.transpiled_line_number),
+                      transpiled_column_number=__convert_number(frame.transpiled_column_number),
                       )
 
 
@@ -60,26 +71,29 @@ def __convert_watch_source(source):
 
 
 def __convert_watch(watch: WaRe):
-    return WatchResult(expression=watch.expression, good_result=__convert_variable_id(watch.result),
-                       error_result=watch.error, source=__convert_watch_source(watch.source))
+    # only one of these can be set, the one that is None is not set
+    return WatchResult(expression=convert_text(watch.expression), good_result=__convert_variable_id(watch.result),
+                       error_result=convert_text(watch.error), source=__convert_watch_source(watch.source))
 
 
 def __convert_variable(variable: Var):
-    return Variable(type=variable.type, value=variable.value, hash=variable.hash,
+    return Variable(type=convert_text(variable.type), value=convert_text(variable.value),
+                    hash=convert_text(variable.hash),
                     children=[__convert_variable_id(c) for c in variable.children], truncated=variable.truncated)
 
 
 def __convert_variable_id(variable: VarId):
     if variable is None:
         return None
-    return VariableID(ID=variable.vid, name=variable.name, modifiers=variable.modifiers,
-                      original_name=variable.original_name)
+    return VariableID(ID=convert_text(variable.vid), name=convert_text(variable.name),
+                      modifiers=[convert_text(m) for m in variable.modifiers],
+                      original_name=convert_text(variable.original_name))
 
 
 def __convert_lookup(var_lookup):
     converted = {}
     for k, v in var_lookup.items():
-        converted[k] = __convert_variable(v)
+        converted[convert_text(k)] = __convert_variable(v)
     return converted
 
 
@@ -95,11 +109,12 @@ def convert_snapshot(snapshot: EventSnapshot) -> Snapshot:
                         var_lookup=__convert_lookup(snapshot.var_lookup),
                         ts_nanos=snapshot.ts_nanos, frames=[__convert_frame(f) for f in snapshot.frames],
                         watches=[__convert_watch(w) for w in snapshot.watches],
-                        attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in snapshot.attributes.items()],
-                        duration_nanos=snapshot.duration_nanos,
-                        resource=[KeyValue(key=k, value=convert_value(v)) for k, v in
+                        attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
+                                    snapshot.attributes.items()],
+                        duration_nanos=max(snapshot.duration_nanos, 0),
+                        resource=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in
                                   snapshot.resource.attributes.items()],
-                        log_msg=snapshot.log_msg)
+                        log_msg=convert_text(snapshot.log_msg))
     except Exception:
         # todo should this return None?
         logging.exception("Error converting to protobuf")
-- 
2.43.0


From 0173abbf9a24a1dd5f7c0ba55bb86a7b2e6af659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:41 +0000
Subject: [PATCH 22/36] fix: flush raises the error of a failed task, and
 misses tasks submitted at the same time

---
 src/deep/task/__init__.py | 56 ++++++++++++++++++++++-----------------
 src/deep/utils.py         | 13 ++++-----
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/src/deep/task/__init__.py b/src/deep/task/__init__.py
index 3257b37..cab8c1f 100644
--- a/src/deep/task/__init__.py
+++ b/src/deep/task/__init__.py
@@ -15,11 +15,12 @@
 
 """Provides processing options for tasks on background threads."""
 
-import logging
 import threading
-from concurrent.futures import Future
+from concurrent.futures import Future, wait
 from concurrent.futures import ThreadPoolExecutor
 
+from deep import logging
+
 
 class IllegalStateException(BaseException):
     """This is raised when we are in an incompatible state."""
@@ -35,14 +36,12 @@ class TaskHandler:
         self._pool = ThreadPoolExecutor(max_workers=2)
         self._pending = {}
         self._job_id = 0
-        self._lock = threading.Lock()
+        self._lock = threading.RLock()
         self._open = True
 
     def _next_id(self):
-        with self._lock:
-            self._job_id += 1
-            next_id = self._job_id
-        return next_id
+        self._job_id += 1
+        return self._job_id
 
     def __check_open(self):
         if not self._open:
@@ -56,27 +55,36 @@ class TaskHandler:
         :param args: the args to pass to the function
         :return: a future that can be listened to for completion
         """
-        self.__check_open()
-        next_id = self._next_id()
-        # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
-        future = self._pool.submit(task, *args)
-        self._pending[next_id] = future
+        # a task has to be pending once it is accepted, else a flush at the same time would not wait for it
+        with self._lock:
+            self.__check_open()
+            next_id = self._next_id()
+            # there is an at exit in threading that prevents submitting tasks after shutdown, but no api to check this
+            future = self._pool.submit(task, *args)
+            self._pending[next_id] = future
 
-        # cannot use 'del' in lambda: https://stackoverflow.com/a/41953232/5151254
         def callback(_future: Future):
-            if _future.exception() is not None:
-                logging.exception("Submitted task failed %s", task)
-            if next_id in self._pending:
-                del self._pending[next_id]
+            self._pending.pop(next_id, None)
+            exception = _future.exception()
+            if exception is not None:
+                logging.error("Submitted task failed %s", task, exc_info=exception)
 
         future.add_done_callback(callback)
         return future
 
     def flush(self):
-        """Await completion of all pending tasks."""
-        self._open = False
-        if len(self._pending) > 0:
-            for key in dict(self._pending).keys():
-                get = self._pending.get(key)
-                if get is not None:
-                    self._pending[key].result(10)
+        """
+        Await completion of all pending tasks.
+
+        This will wait for all the tasks that have been accepted, if they succeed or not. After this no more tasks are
+        accepted.
+        """
+        with self._lock:
+            self._open = False
+            pending = list(self._pending.values())
+        wait(pending)
+
+    def reopen(self):
+        """Accept tasks again, after a flush."""
+        with self._lock:
+            self._open = True
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 9927abe..6414db1 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -15,9 +15,10 @@
 
 """A collection of util functions to perform common or repeated actions."""
 
-import logging
 import time
-from threading import Event, Thread
+from threading import Event, Thread, current_thread
+
+from deep import logging
 
 
 def snapshot_id_as_hex_str(snapshot_id):
@@ -75,15 +76,15 @@ class RepeatedTimer:
     def stop(self):
         """Stop and shutdown the timer."""
         self.event.set()
-        self.thread.join()
+        if self.thread.is_alive() and self.thread is not current_thread():
+            self.thread.join()
 
     def _target(self):
         while not self.event.wait(self._time):
             try:
                 self.function(*self.args, **self.kwargs)
-            except Exception:
-                logging.exception(
-                    "Repeated function (%s) failed, will retry in %s seconds." % (self.name, self.interval))
+            except BaseException:
+                logging.exception("Repeated function (%s) failed, will retry in %s seconds.", self.name, self.interval)
 
     @property
     def _time(self):
-- 
2.43.0


From 761e1a589be48f0ad2909fa06530f2323207a0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:06 +0000
Subject: [PATCH 23/36] fix: an older tracepoint config can be installed after
 a newer one, and unregister removes the wrong tracepoint

---
 src/deep/config/config_service.py    |  5 +-
 src/deep/config/tracepoint_config.py | 83 +++++++++++++++++++---------
 2 files changed, 60 insertions(+), 28 deletions(-)

diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index a26c6b9..6d8a84a 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -29,18 +29,19 @@ from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateL
 class ConfigService:
     """This is the main service that handles config for DEEP."""
 
-    def __init__(self, custom: Dict[str, any] = None, tracepoints=TracepointConfigService()):
+    def __init__(self, custom: Dict[str, any] = None, tracepoints: TracepointConfigService = None):
         """
         Create a new config object.
 
         :param custom: any custom values that are passed to DEEP
+        :param tracepoints: the tracepoint config service to use
         """
         if custom is None:
             custom = {}
         self._plugins = []
         self.__custom = custom
         self._resource = None
-        self._tracepoint_config = tracepoints
+        self._tracepoint_config = TracepointConfigService() if tracepoints is None else tracepoints
 
     def __getattribute__(self, name: str) -> Any:
         """
diff --git a/src/deep/config/tracepoint_config.py b/src/deep/config/tracepoint_config.py
index e976b5b..182a113 100644
--- a/src/deep/config/tracepoint_config.py
+++ b/src/deep/config/tracepoint_config.py
@@ -16,13 +16,15 @@
 """Maintain the current config of the tracepoints."""
 
 import abc
-import logging
+import threading
 import uuid
 from typing import Dict, List, TYPE_CHECKING
 
+from deep import logging
 from deep.api.tracepoint.tracepoint_config import MetricDefinition
 
 from deep.api.tracepoint.trigger import build_trigger
+from deep.task import IllegalStateException
 
 if TYPE_CHECKING:
     from deep.api.tracepoint.trigger import Trigger
@@ -51,12 +53,15 @@ class TracepointConfigService:
 
     def __init__(self) -> None:
         """Create new tracepoint config service."""
-        self._custom: List['Trigger'] = []
+        self._custom: Dict[str, 'Trigger'] = {}
         self._tracepoint_config: List['Trigger'] = []
         self._current_hash = None
         self._last_update = 0
         self._task_handler = None
         self._listeners: List[ConfigUpdateListener] = []
+        self._lock = threading.RLock()
+        # the listeners are updated by many threads, so ensure an older update cannot complete after a newer one
+        self._update_lock = threading.RLock()
 
     def update_no_change(self, ts):
         """
@@ -78,18 +83,31 @@ class TracepointConfigService:
         :param new_hash: the new config hash
         :param new_config: the new config values
         """
-        old_hash = self._current_hash
-        old_config = self._tracepoint_config
-        self._last_update = ts
-        self._current_hash = new_hash
-        self._tracepoint_config = new_config
+        with self._lock:
+            old_hash = self._current_hash
+            old_config = self._tracepoint_config
+            self._last_update = ts
+            self._current_hash = new_hash
+            self._tracepoint_config = new_config
         self.__trigger_update(old_hash, old_config)
 
+    def refresh(self):
+        """
+        Refresh the listeners with the current config.
+
+        The listeners are not updated while the task handler is closed, so call this when it is available again.
+        """
+        self.__trigger_update(self._current_hash, self._tracepoint_config)
+
     def __trigger_update(self, old_hash, old_config):
         ts = self._last_update
         if self._task_handler is not None:
-            future = self._task_handler.submit_task(self.update_listeners, self._last_update, old_hash,
-                                                    self._current_hash, old_config, self._tracepoint_config)
+            try:
+                future = self._task_handler.submit_task(self.update_listeners, self._last_update, old_hash,
+                                                        self._current_hash, old_config, self._tracepoint_config)
+            except IllegalStateException:
+                logging.warning("Cannot process new config %s, as deep is shutdown.", ts)
+                return
             future.add_done_callback(lambda _: logging.debug("Completed processing new config %s", ts))
 
     def set_task_handler(self, task_handler):
@@ -105,7 +123,8 @@ class TracepointConfigService:
         """
         Update the registered listeners.
 
-        This is called to update any listeners that the config has changed
+        This is called to update any listeners that the config has changed. As updates can be processed in any order,
+        the listeners are always given the latest config.
 
         :param ts: the ts of the update
         :param old_hash: the old hash
@@ -113,12 +132,16 @@ class TracepointConfigService:
         :param old_config: the old config
         :param new_config: the new config
         """
-        listeners_copy = self._listeners.copy()
-        for listeners in listeners_copy:
-            try:
-                listeners.config_change(ts, old_hash, current_hash, old_config, new_config + self._custom)
-            except Exception:
-                logging.exception("Error updating listener %s", listeners)
+        with self._update_lock:
+            with self._lock:
+                current_hash = self._current_hash
+                new_config = self._tracepoint_config + list(self._custom.values())
+            listeners_copy = self._listeners.copy()
+            for listeners in listeners_copy:
+                try:
+                    listeners.config_change(ts, old_hash, current_hash, old_config, new_config)
+                except BaseException:
+                    logging.exception("Error updating listener %s", listeners)
 
     def add_listener(self, listener: ConfigUpdateListener):
         """
@@ -159,12 +182,21 @@ class TracepointConfigService:
         :param args: the tracepoint args
         :param watches: the tracepoint watches
         :param metrics: the tracepoint metrics
-        :return: the new TracePointConfig
-        """
-        config = build_trigger(str(uuid.uuid4()), path, line, args, watches, metrics)
-        self._custom.append(config)
+        :return: the id of the new tracepoint
+        """
+        tp_id = str(uuid.uuid4())
+        try:
+            config = build_trigger(tp_id, path, line, dict(args), list(watches), list(metrics))
+        except Exception:
+            logging.exception("Cannot process tracepoint %s#%s", path, line)
+            return tp_id
+        if config is None:
+            logging.error("Cannot determine the location of tracepoint %s#%s", path, line)
+            return tp_id
+        with self._lock:
+            self._custom[tp_id] = config
         self.__trigger_update(None, None)
-        return config.id
+        return tp_id
 
     def remove_custom(self, _id: str):
         """
@@ -172,8 +204,7 @@ class TracepointConfigService:
 
         :param _id: the id of the config to remove
         """
-        for idx, cfg in enumerate(self._custom):
-            if cfg.id == _id:
-                del self._custom[idx]
-                self.__trigger_update(None, None)
-                return
+        with self._lock:
+            removed = self._custom.pop(_id, None)
+        if removed is not None:
+            self.__trigger_update(None, None)
-- 
2.43.0


From 9ec25b5c6b34f7bf25470c7a59d2d3b4e0ed7221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:31 +0000
Subject: [PATCH 24/36] fix: an unknown poll response removes all tracepoints,
 and a poll interval from the environment stops the polling

---
 src/deep/poll/poll.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/deep/poll/poll.py b/src/deep/poll/poll.py
index 88704c7..09d4b3f 100644
--- a/src/deep/poll/poll.py
+++ b/src/deep/poll/poll.py
@@ -20,6 +20,8 @@ Deep needs to maintain a config of the tracepoints configured by the users. The
  periodically polling the long poll service.
 """
 
+from threading import TIMEOUT_MAX
+
 # noinspection PyUnresolvedReferences
 from deepproto.proto.poll.v1.poll_pb2 import PollRequest, ResponseType
 from deepproto.proto.poll.v1.poll_pb2_grpc import PollConfigStub
@@ -30,6 +32,9 @@ from deep.grpc import convert_resource, convert_response, GRPCService
 from deep.utils import time_ns, RepeatedTimer
 
 
+DEFAULT_POLL_INTERVAL = 10
+
+
 class LongPoll(object):
     """This service deals with polling the remote service to get the tracepoint configs."""
 
@@ -47,14 +52,29 @@ class LongPoll(object):
     def start(self):
         """Start the long poll service."""
         logging.info("Starting Long Poll system")
-        self.timer = RepeatedTimer("Tracepoint Long Poll", self.config.POLL_TIMER, self.poll)
+        self.timer = RepeatedTimer("Tracepoint Long Poll", self.__poll_interval(), self.poll)
         self.__initial_poll()
         self.timer.start()
 
+    def __poll_interval(self) -> float:
+        interval = self.config.POLL_TIMER
+        try:
+            # environment values are text
+            interval = float(interval)
+            if 0 < interval <= TIMEOUT_MAX:
+                return interval
+        except (ValueError, TypeError, OverflowError):
+            pass
+        logging.error("Invalid poll interval '%s', will use %s seconds.", interval, DEFAULT_POLL_INTERVAL)
+        return DEFAULT_POLL_INTERVAL
+
     def __initial_poll(self):
         try:
             self.poll()
-        except Exception:
+        except KeyboardInterrupt:
+            # this is for the application
+            raise
+        except BaseException:
             logging.exception("Initial poll failed. Will continue with interval.")
 
     def poll(self):
@@ -67,9 +87,12 @@ class LongPoll(object):
         if response.response_type == ResponseType.NO_CHANGE:
             logging.debug("No Change in config.")
             self.config.tracepoints.update_no_change(response.ts_nanos)
-        else:
+        elif response.response_type == ResponseType.UPDATE:
             self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,
                                                       convert_response(response.response))
+        else:
+            # keep the config we have if we do not understand the response
+            logging.error("Unknown poll response type: %s", response.response_type)
 
     def shutdown(self):
         """Shutdown the timer."""
-- 
2.43.0


From 654d7eeccab95387cb7f3afce588414bc4523ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 25/36] fix: settings behave differently when set in code or in
 the environment

---
 src/deep/config/__init__.py       | 18 ++++--------------
 src/deep/config/config_service.py | 12 ++++++++----
 src/deep/utils.py                 | 17 ++++++++++++++++-
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/src/deep/config/__init__.py b/src/deep/config/__init__.py
index a29a052..7e2dec6 100644
--- a/src/deep/config/__init__.py
+++ b/src/deep/config/__init__.py
@@ -23,6 +23,7 @@ Here we have the initial values for the config, there can be set as either stati
 import os
 import sys
 
+from deep.utils import str2list
 from .config_service import ConfigService  # noqa: F401
 
 LOGGING_CONF = os.getenv('DEEP_LOGGING_CONF', None)
@@ -40,7 +41,7 @@ SERVICE_SECURE = os.getenv('DEEP_SERVICE_SECURE', 'True')
 SERVICE_AUTH_PROVIDER = os.getenv('DEEP_SERVICE_AUTH_PROVIDER', None)
 """The Auth provider to use for the service (default: None)"""
 
-APP_ROOT = ""
+APP_ROOT = os.getenv('DEEP_APP_ROOT', "")
 """App root sets the prefix that can be removed to generate shorter file names. This value is calculated."""
 
 PLUGINS = []
@@ -54,12 +55,7 @@ def IN_APP_INCLUDE():
 
     The packages to mark as in app packages. (default: ''). Must be a command (,) seperated list.
     """
-    user_defined = os.getenv('DEEP_IN_APP_INCLUDE', None)
-    if user_defined is None:
-        return []
-    if ',' in user_defined:
-        return user_defined.split(',')
-    return [user_defined]
+    return str2list(os.getenv('DEEP_IN_APP_INCLUDE', None))
 
 
 # noinspection PyPep8Naming
@@ -69,13 +65,7 @@ def IN_APP_EXCLUDE():
 
     The packages to mark as NOT in app packages. (default: ''). Must be a command (,) seperated list.
     """
-    user_defined = os.getenv('DEEP_IN_APP_EXCLUDE', None)
-    if user_defined is None:
-        user_defined = []
-    else:
-        if ',' in user_defined:
-            user_defined = user_defined.split(',')
-        user_defined = [user_defined]
+    user_defined = str2list(os.getenv('DEEP_IN_APP_EXCLUDE', None))
 
     prefix = sys.exec_prefix
     user_defined.append(prefix)
diff --git a/src/deep/config/config_service.py b/src/deep/config/config_service.py
index 6d8a84a..c8fafdb 100644
--- a/src/deep/config/config_service.py
+++ b/src/deep/config/config_service.py
@@ -16,6 +16,7 @@
 """Service for handling deep config."""
 
 import os
+import sys
 from typing import Any, List, Dict, Tuple, Optional, Generator
 
 from deep import logging
@@ -24,6 +25,7 @@ from deep.api.plugin.metric import MetricProcessor
 from deep.api.plugin.span import SpanProcessor
 from deep.api.resource import Resource
 from deep.config.tracepoint_config import TracepointConfigService, ConfigUpdateListener
+from deep.utils import str2list
 
 
 class ConfigService:
@@ -171,8 +173,9 @@ class ConfigService:
         :param filename: the frame file name
         :return: True if add frame, else False
         """
-        in_app_include = self.IN_APP_INCLUDE
-        in_app_exclude = self.IN_APP_EXCLUDE
+        # when set in code these can be text or a list, and replace the default
+        in_app_include = str2list(self.IN_APP_INCLUDE)
+        in_app_exclude = str2list(self.IN_APP_EXCLUDE) + [sys.exec_prefix]
 
         for path in in_app_exclude:
             if filename.startswith(path):
@@ -182,8 +185,9 @@ class ConfigService:
             if filename.startswith(path):
                 return True, path
 
-        if filename.startswith(self.APP_ROOT):
-            return True, self.APP_ROOT
+        app_root = str(self.APP_ROOT)
+        if filename.startswith(app_root):
+            return True, app_root
 
         return False, None
 
diff --git a/src/deep/utils.py b/src/deep/utils.py
index 6414db1..d3afd42 100644
--- a/src/deep/utils.py
+++ b/src/deep/utils.py
@@ -43,7 +43,22 @@ def str2bool(string):
     :param string: the string to convert
     :return: True, if string is yes, true, t or 1. (case-insensitive)
     """
-    return string.lower() in ("yes", "true", "t", "1", "y")
+    # values set in code do not have to be text
+    return str(string).strip().lower() in ("yes", "true", "t", "1", "y")
+
+
+def str2list(value) -> list:
+    """
+    Convert a comma (,) separated string to a list.
+
+    :param value: the value to convert, can already be a list
+    :return: the list of values, without empty values.
+    """
+    if value is None:
+        return []
+    if isinstance(value, str):
+        value = value.split(',')
+    return [item for item in (str(item).strip() for item in value) if item != ""]
 
 
 class RepeatedTimer:
-- 
2.43.0


From bb41ac2b75a9977c188ed7dfc54d5de38b3ef9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:43 +0000
Subject: [PATCH 26/36] fix: a failing plugin or service stops the agent from
 starting, other plugins, or shutdown

---
 src/deep/api/deep.py                        | 42 ++++++++++++++++-----
 src/deep/api/plugin/__init__.py             | 12 +++---
 src/deep/grpc/grpc_service.py               |  7 ++++
 src/deep/processor/context/metric_action.py |  9 ++++-
 4 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/deep/api/deep.py b/src/deep/api/deep.py
index 4aef952..31dcdf0 100644
--- a/src/deep/api/deep.py
+++ b/src/deep/api/deep.py
@@ -56,6 +56,17 @@ class Deep:
         """Start Deep."""
         if self.started:
             return
+        try:
+            self.__start()
+        except BaseException:
+            # do not leave the trace functions installed if we did not start
+            self.__shutdown_step("trigger handler", self.trigger_handler.shutdown)
+            raise
+        self.started = True
+
+    def __start(self):
+        # we can be started again after a shutdown
+        self.task_handler.reopen()
         self.config.plugins = load_plugins(self.config, self.config.PLUGINS)
         default_resource = Resource.create()
         for provider in self.config.resource_providers:
@@ -63,26 +74,39 @@ class Deep:
                 plugin_resource = provider.resource()
                 if plugin_resource:
                     default_resource = default_resource.merge(plugin_resource)
-            except Exception:
-                deep.logging.exception("Failed to process plugin resource {}", provider.name)
+            except BaseException:
+                deep.logging.exception("Failed to process plugin resource %s", type(provider).__name__)
 
         self.config.resource = default_resource
         self.trigger_handler.start()
         self.grpc.start()
         self.poll.start()
-        self.started = True
+        # anything registered while we were not running has to be installed
+        self.config.tracepoints.refresh()
 
     def shutdown(self):
-        """Shutdown deep."""
+        """
+        Shutdown deep.
+
+        All the services are always shutdown, even if some of them fail.
+        """
         if not self.started:
             return
-        self.trigger_handler.shutdown()
-        self.task_handler.flush()
-        self.poll.shutdown()
+        self.started = False
+        self.__shutdown_step("trigger handler", self.trigger_handler.shutdown)
+        self.__shutdown_step("task handler", self.task_handler.flush)
+        self.__shutdown_step("poll", self.poll.shutdown)
+        self.__shutdown_step("grpc", self.grpc.shutdown)
         for plugin in self.config.plugins:
-            plugin.shutdown()
+            self.__shutdown_step(type(plugin).__name__, lambda: plugin.shutdown())
         deep.logging.info("Deep is shutdown.")
-        self.started = False
+
+    @staticmethod
+    def __shutdown_step(name, step):
+        try:
+            step()
+        except BaseException:
+            deep.logging.exception("Failed to shutdown %s", name)
 
     def register_tracepoint(self, path: str, line: int, args: Dict[str, str] = None,
                             watches: List[str] = None,
diff --git a/src/deep/api/plugin/__init__.py b/src/deep/api/plugin/__init__.py
index af3d908..c1ad2ed 100644
--- a/src/deep/api/plugin/__init__.py
+++ b/src/deep/api/plugin/__init__.py
@@ -44,7 +44,7 @@ def __plugin_generator(configured):
             module, cls = plugin.rsplit(".", 1)
             yield getattr(import_module(module), cls)
             logging.debug('Did import integration %s', plugin)
-        except (DidNotEnable, Exception) as e:
+        except BaseException as e:
             logging.debug(
                 "Did not import integration %s: %s", plugin, e
             )
@@ -61,18 +61,18 @@ def load_plugins(config: 'ConfigService', custom=None) -> List['Plugin']:
     if custom is None:
         custom = []
     loaded = []
-    for plugin in __plugin_generator(DEEP_PLUGINS + custom):
+    for plugin in __plugin_generator(DEEP_PLUGINS + list(custom)):
         try:
             plugin_instance = plugin(config=config)
             if not plugin_instance.is_active():
                 logging.debug("Plugin %s is not active.", plugin_instance.name)
                 continue
-            loaded.append(plugin_instance)
-        except Exception as e:
+            loaded.append((plugin_instance.order() or 0, plugin_instance))
+        except BaseException as e:
             logging.debug("Could not load plugin %s: %s", plugin, e)
 
-    loaded.sort(key=lambda pl: pl.order() or 0)
-    return loaded
+    loaded.sort(key=lambda pl: pl[0])
+    return [plugin_instance for _, plugin_instance in loaded]
 
 
 class Plugin(abc.ABC):
diff --git a/src/deep/grpc/grpc_service.py b/src/deep/grpc/grpc_service.py
index f1608d4..559b77e 100644
--- a/src/deep/grpc/grpc_service.py
+++ b/src/deep/grpc/grpc_service.py
@@ -49,6 +49,13 @@ class GRPCService:
             logging.debug("Connecting with insecure channel to: %s ", self._service_url)
             self.channel = grpc.insecure_channel(self._service_url)
 
+    def shutdown(self):
+        """Close the GRPC channel."""
+        channel = self.channel
+        self.channel = None
+        if channel is not None:
+            channel.close()
+
     def metadata(self):
         """
         Get GRPC metadata.
diff --git a/src/deep/processor/context/metric_action.py b/src/deep/processor/context/metric_action.py
index 1671a6c..31e34cf 100644
--- a/src/deep/processor/context/metric_action.py
+++ b/src/deep/processor/context/metric_action.py
@@ -41,8 +41,13 @@ class MetricActionContext(ActionContext):
         for metric in metrics:
             labels, value = self._process_metric(metric)
             for processor in self.trigger_context.config.metric_processors:
-                getattr(processor, self._convert_type(metric.type))(metric.name, labels, metric.namespace or "deep",
-                                                                    metric.help, metric.unit, value)
+                try:
+                    # the processor can keep or change the labels, so each has its own
+                    getattr(processor, self._convert_type(metric.type))(metric.name, dict(labels),
+                                                                        metric.namespace or "deep",
+                                                                        metric.help, metric.unit, value)
+                except BaseException:
+                    deep.logging.exception("Cannot process metric %s with %s", metric.name, type(processor).__name__)
 
     def __has_metric_processor(self):
         return self.trigger_context.config.has_metric_processor
-- 
2.43.0


From 36f6a42df50dd757af1777105f419ab56e9f197b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 27/36] fix: decorating a snapshot creates a dummy thread

---
 src/deep/api/plugin/python.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/deep/api/plugin/python.py b/src/deep/api/plugin/python.py
index 50c3f9e..ffe0c51 100644
--- a/src/deep/api/plugin/python.py
+++ b/src/deep/api/plugin/python.py
@@ -44,10 +44,12 @@ class PythonPlugin(ResourceProvider, SnapshotDecorator, TracepointLogger):
 
         :return: the additional attributes to attach
         """
-        thread = threading.current_thread()
+        # do not use current_thread() as this will create a (dummy) thread, if the thread is not known to python
+        ident = threading.get_ident()
+        name = next((thread.name for thread in threading.enumerate() if thread.ident == ident), "Thread-%s" % ident)
 
         return BoundedAttributes(attributes={
-            'thread_name': thread.name
+            'thread_name': name
         })
 
     def resource(self) -> Optional[Resource]:
-- 
2.43.0


From 08e9b002ab5f82a25f8e9127d73b1c399ff8eefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:33 +0000
Subject: [PATCH 28/36] fix: starting the agent replaces the logging of the
 application, and a failing log handler stops the agent

---
 src/deep/logging/__init__.py  | 45 +++++++++++++++++++++++++----------
 src/deep/logging/logging.conf | 27 ---------------------
 2 files changed, 33 insertions(+), 39 deletions(-)
 delete mode 100644 src/deep/logging/logging.conf

diff --git a/src/deep/logging/__init__.py b/src/deep/logging/__init__.py
index 3304150..04d48d9 100644
--- a/src/deep/logging/__init__.py
+++ b/src/deep/logging/__init__.py
@@ -17,7 +17,17 @@
 
 import logging
 import logging.config
-import os
+import sys
+
+LOG_FORMAT = '%(asctime)s - %(name)s - %(levelname)s - %(message)s'
+
+
+def _log(level, msg, *args, **kwargs):
+    # logging is configured by the application, so it can fail (e.g. in a filter) and that must not stop what we do
+    try:
+        logging.getLogger("deep").log(level, msg, *args, **kwargs)
+    except BaseException:
+        pass
 
 
 def warning(msg, *args, **kwargs):
@@ -28,7 +38,7 @@ def warning(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").warning(msg, *args, **kwargs)
+    _log(logging.WARNING, msg, *args, **kwargs)
 
 
 def info(msg, *args, **kwargs):
@@ -39,7 +49,7 @@ def info(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").info(msg, *args, **kwargs)
+    _log(logging.INFO, msg, *args, **kwargs)
 
 
 def debug(msg, *args, **kwargs):
@@ -50,7 +60,7 @@ def debug(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").debug(msg, *args, **kwargs)
+    _log(logging.DEBUG, msg, *args, **kwargs)
 
 
 def error(msg, *args, **kwargs):
@@ -61,7 +71,7 @@ def error(msg, *args, **kwargs):
     :param args:  the args for the log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").error(msg, *args, **kwargs)
+    _log(logging.ERROR, msg, *args, **kwargs)
 
 
 def exception(msg, *args, exc_info=True, **kwargs):
@@ -73,7 +83,7 @@ def exception(msg, *args, exc_info=True, **kwargs):
     :param exc_info: include exc info in log
     :param kwargs: the kwargs
     """
-    logging.getLogger("deep").exception(msg, *args, exc_info=exc_info, **kwargs)
+    _log(logging.ERROR, msg, *args, exc_info=exc_info, **kwargs)
 
 
 def init(cfg=None):
@@ -82,9 +92,20 @@ def init(cfg=None):
 
     :param cfg: the config for deep.
     """
-    log_conf = "%s/logging.conf" % os.path.dirname(os.path.realpath(__file__))
-
-    if cfg is not None and cfg.LOGGING_CONF:
-        log_conf = cfg.LOGGING_CONF
-
-    logging.config.fileConfig(fname=log_conf, disable_existing_loggers=False)
+    log_conf = cfg.LOGGING_CONF if cfg is not None else None
+    if log_conf:
+        try:
+            logging.config.fileConfig(fname=log_conf, disable_existing_loggers=False)
+            return
+        except Exception:
+            exception("Cannot use logging config %s", log_conf)
+
+    # only configure our own logger, the rest of the logging belongs to the application
+    logger = logging.getLogger("deep")
+    if len(logger.handlers) == 0:
+        handler = logging.StreamHandler(sys.stdout)
+        handler.setFormatter(logging.Formatter(LOG_FORMAT))
+        logger.addHandler(handler)
+        logger.propagate = False
+        if logger.level == logging.NOTSET:
+            logger.setLevel(logging.DEBUG)
diff --git a/src/deep/logging/logging.conf b/src/deep/logging/logging.conf
deleted file mode 100644
index bf7c1c5..0000000
--- a/src/deep/logging/logging.conf
+++ /dev/null
@@ -1,27 +0,0 @@
-[loggers]
-keys=root,deep
-
-[handlers]
-keys=consoleHandler
-
-[formatters]
-keys=deepFormatter
-
-[logger_root]
-level=DEBUG
-handlers=consoleHandler
-
-[logger_deep]
-level=DEBUG
-handlers=consoleHandler
-qualname=deep
-propagate=0
-
-[handler_consoleHandler]
-class=StreamHandler
-level=DEBUG
-formatter=deepFormatter
-args=(sys.stdout,)
-
-[formatter_deepFormatter]
-format=%(asctime)s - %(name)s - %(levelname)s - %(message)s
\ No newline at end of file
-- 
2.43.0


From 902ed0220605c82d39fadcc21c3a6366dd62d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:59 +0000
Subject: [PATCH 29/36] fix: metrics with the same name in different namespaces
 are reported as one

---
 src/deep/api/plugin/metric/otel_metrics.py       | 8 ++++----
 src/deep/api/plugin/metric/prometheus_metrics.py | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index a3d42a4..a394c37 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -62,7 +62,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 counter: Counter
-                counter = self.__check_cache(name, 'counter',
+                counter = self.__check_cache(f'{namespace}_{name}', 'counter',
                                              lambda: get_meter('deep').create_counter(f'{namespace}_{name}', unit,
                                                                                       help_string))
                 counter.add(value, labels)
@@ -83,7 +83,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 gauge: UpDownCounter
-                gauge = self.__check_cache(name, 'gauge',
+                gauge = self.__check_cache(f'{namespace}_{name}', 'gauge',
                                            lambda: get_meter('deep').create_up_down_counter(f'{namespace}_{name}',
                                                                                             unit, help_string))
                 gauge.add(value, labels)
@@ -104,7 +104,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'histogram',
+                histogram = self.__check_cache(f'{namespace}_{name}', 'histogram',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
@@ -125,7 +125,7 @@ class OTelMetrics(MetricProcessor):
         try:
             with self.__lock:
                 histogram: Histogram
-                histogram = self.__check_cache(name, 'summary',
+                histogram = self.__check_cache(f'{namespace}_{name}', 'summary',
                                                lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
                                                                                           help_string))
                 histogram.record(value, labels)
diff --git a/src/deep/api/plugin/metric/prometheus_metrics.py b/src/deep/api/plugin/metric/prometheus_metrics.py
index 14cc1c5..d08131a 100644
--- a/src/deep/api/plugin/metric/prometheus_metrics.py
+++ b/src/deep/api/plugin/metric/prometheus_metrics.py
@@ -59,7 +59,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                counter: Counter = self.__check_cache(name, "counter",
+                counter: Counter = self.__check_cache(f'{namespace}_{name}', "counter",
                                                       lambda: Counter(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
@@ -83,7 +83,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                gauge: Gauge = self.__check_cache(name, "gauge",
+                gauge: Gauge = self.__check_cache(f'{namespace}_{name}', "gauge",
                                                   lambda: Gauge(name=name, documentation=help_string or "",
                                                                 labelnames=label_keys,
                                                                 namespace=namespace, unit=unit))
@@ -108,7 +108,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                histogram: Histogram = self.__check_cache(name, "histogram",
+                histogram: Histogram = self.__check_cache(f'{namespace}_{name}', "histogram",
                                                           lambda: Histogram(name=name, documentation=help_string or "",
                                                                             labelnames=label_keys,
                                                                             namespace=namespace, unit=unit))
@@ -133,7 +133,7 @@ class PrometheusPlugin(MetricProcessor):
         try:
             with self.__lock:
                 label_keys = list(labels.keys())
-                summary: Summary = self.__check_cache(name, "summary",
+                summary: Summary = self.__check_cache(f'{namespace}_{name}', "summary",
                                                       lambda: Summary(name=name, documentation=help_string or "",
                                                                       labelnames=label_keys,
                                                                       namespace=namespace, unit=unit))
-- 
2.43.0


From 138fed5e1708cfae3e90e2d39eae1e5ddc5e8940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:56 +0000
Subject: [PATCH 30/36] fix: metrics without a unit or help are not reported to
 OTel

---
 src/deep/api/plugin/metric/otel_metrics.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/deep/api/plugin/metric/otel_metrics.py b/src/deep/api/plugin/metric/otel_metrics.py
index a394c37..e6351d9 100644
--- a/src/deep/api/plugin/metric/otel_metrics.py
+++ b/src/deep/api/plugin/metric/otel_metrics.py
@@ -63,8 +63,8 @@ class OTelMetrics(MetricProcessor):
             with self.__lock:
                 counter: Counter
                 counter = self.__check_cache(f'{namespace}_{name}', 'counter',
-                                             lambda: get_meter('deep').create_counter(f'{namespace}_{name}', unit,
-                                                                                      help_string))
+                                             lambda: get_meter('deep').create_counter(f'{namespace}_{name}', unit or "",
+                                                                                      help_string or ""))
                 counter.add(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric counter {namespace}_{name}")
@@ -85,7 +85,8 @@ class OTelMetrics(MetricProcessor):
                 gauge: UpDownCounter
                 gauge = self.__check_cache(f'{namespace}_{name}', 'gauge',
                                            lambda: get_meter('deep').create_up_down_counter(f'{namespace}_{name}',
-                                                                                            unit, help_string))
+                                                                                            unit or "",
+                                                                                            help_string or ""))
                 gauge.add(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric histogram {namespace}_{name}")
@@ -105,8 +106,9 @@ class OTelMetrics(MetricProcessor):
             with self.__lock:
                 histogram: Histogram
                 histogram = self.__check_cache(f'{namespace}_{name}', 'histogram',
-                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
-                                                                                          help_string))
+                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}',
+                                                                                          unit or "",
+                                                                                          help_string or ""))
                 histogram.record(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric histogram {namespace}_{name}")
@@ -126,8 +128,9 @@ class OTelMetrics(MetricProcessor):
             with self.__lock:
                 histogram: Histogram
                 histogram = self.__check_cache(f'{namespace}_{name}', 'summary',
-                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}', unit,
-                                                                                          help_string))
+                                               lambda: get_meter('deep').create_histogram(f'{namespace}_{name}',
+                                                                                          unit or "",
+                                                                                          help_string or ""))
                 histogram.record(value, labels)
         except Exception:
             deep.logging.exception(f"Error registering metric summary {namespace}_{name}")
-- 
2.43.0


From a33a391bd7c758dcc036e4c2e5b1ba0540f57ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:10 +0000
Subject: [PATCH 31/36] fix: collecting a frame builds the text of all its
 variables, which does not end for data that is shared many times

---
 src/deep/processor/context/action_context.py |  4 ++--
 src/deep/processor/variable_set_processor.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 05d1e89..84dc1e6 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -32,7 +32,7 @@ import abc
 from typing import Tuple, TYPE_CHECKING, Dict, Optional
 
 import deep.logging
-from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE
+from deep.api.tracepoint.eventsnapshot import WATCH_SOURCE_CAPTURE, WATCH_SOURCE_LOG
 from deep.api.tracepoint import WatchResult, Variable
 from deep.processor.variable_processor import safe_str
 from deep.processor.variable_set_processor import VariableSetProcessor, VariableCacheProvider, \
@@ -87,7 +87,7 @@ class ActionContext(abc.ABC):
             if error is not None:
                 error_msg = safe_str(error)
                 return WatchResult(source, watch, None, error_msg), {}, error_msg
-            variable_id, log_str = var_processor.process_variable(watch, result)
+            variable_id, log_str = var_processor.process_variable(watch, result, source == WATCH_SOURCE_LOG)
             if variable_id is None:
                 return WatchResult(source, watch, None, NO_SPACE_FOR_VARIABLE), {}, log_str
 
diff --git a/src/deep/processor/variable_set_processor.py b/src/deep/processor/variable_set_processor.py
index df0efdd..5714f4e 100644
--- a/src/deep/processor/variable_set_processor.py
+++ b/src/deep/processor/variable_set_processor.py
@@ -142,20 +142,24 @@ class VariableSetProcessor(Collector):
         self.__var_cache = var_cache
         self.__config = config
 
-    def process_variable(self, name: str, value: any) -> Tuple[Optional[VariableId], str]:
+    def process_variable(self, name: str, value: any, for_log: bool = False) -> Tuple[Optional[VariableId], str]:
         """
         Process a variable name and value.
 
         :param name: the variable name
         :param value: the variable value
-        :return: the id of the variable (None if there is no space for this variable), and the value as a string
+        :param for_log: is the value needed as a string. The string of a collection contains the string of everything
+                        that it contains, as often as it contains it, so it can be very large (or never complete).
+        :return: the id of the variable (None if there is no space for this variable), and the value as a string (empty
+                 if not needed)
         """
         self.__var_cache.keep(value)
+        log_str = safe_str(value) if for_log else ''
         identity_hash_id = str(id(value))
         check_id = self.__var_cache.check_id(identity_hash_id)
         if check_id is not None:
             # this means the watch result is already in the var_lookup
-            return VariableId(check_id, name), safe_str(value)
+            return VariableId(check_id, name), log_str
 
         # else this is an unknown value so process breadth first
         var_ids = []
@@ -172,9 +176,9 @@ class VariableSetProcessor(Collector):
 
         var_id = self.__var_cache.check_id(identity_hash_id)
         if var_id is None:
-            return None, safe_str(value)
+            return None, log_str
 
-        return VariableId(var_id, name), safe_str(value)
+        return VariableId(var_id, name), log_str
 
     def search_function(self, node: Node) -> bool:
         """
-- 
2.43.0


From a6dd3fe1094136a23c520234e9ace9d432946344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:14 +0000
Subject: [PATCH 32/36] fix: a capture misses the exception that leaves a with
 block or an unstarted generator

---
 src/deep/processor/context/callback_context.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/deep/processor/context/callback_context.py b/src/deep/processor/context/callback_context.py
index 3ce3a79..83f8c02 100644
--- a/src/deep/processor/context/callback_context.py
+++ b/src/deep/processor/context/callback_context.py
@@ -104,9 +104,14 @@ class CallbackContext(Location, ActionCallback):
         elif event == 'line':
             self.__last_raise = None
             self.__handling = sys.exc_info()
-            if self.__handling[1] is None:
+            # at the start of a handler the exception is not yet the one that is handled
+            if self.__handling[1] is None and not self.__is_handler_start(frame):
                 self.__raised.clear()
 
+    @staticmethod
+    def __is_handler_start(frame: FrameType) -> bool:
+        return dis.opname[frame.f_code.co_code[frame.f_lasti]] == 'PUSH_EXC_INFO'
+
     def __get_unwind_exception(self, event: str, frame: FrameType, arg: any):
         """Get the exception that unwinds the frame, or None if the frame is not unwinding."""
         if event != 'return' or arg is not None or frame is not self.__frame or frame.f_lasti < 0:
@@ -116,7 +121,7 @@ class CallbackContext(Location, ActionCallback):
         if op_name.startswith(('YIELD', 'SEND')):
             # this is only unwinding if the exception was thrown into the frame at the yield
             return raised if self.__last_raise == frame.f_lasti else None
-        if op_name.startswith('RETURN'):
+        if op_name in ('RETURN_VALUE', 'RETURN_CONST'):
             return None
         if raised is not None:
             return raised
-- 
2.43.0


From 72ab62be73707d9b249808f24c5abcb9c2b49a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 33/36] fix: an expression evaluated at exit changes the exit
 code of an application ended by KeyboardInterrupt

---
 src/deep/processor/context/trigger_context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 40ce053..9ec1c5b 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -163,7 +163,9 @@ class TriggerContext:
         """
         try:
             frame_locals = dict(self.__frame.f_locals)
-            return eval(expression, {**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None
+            # evaluating text (and not code) changes how the process exits after an unhandled KeyboardInterrupt
+            code = compile(expression.lstrip(" \t"), "<string>", "eval", dont_inherit=True)
+            return eval(code, {**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None
         except BaseException as e:
             return None, e
 
-- 
2.43.0


From 1a4c88a366194b4a3b145a643412d6fe871cce93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 34/36] fix: credentials given in code do not have to be text,
 as they are in the environment

---
 src/deep/api/auth/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deep/api/auth/__init__.py b/src/deep/api/auth/__init__.py
index c032295..1be3d42 100644
--- a/src/deep/api/auth/__init__.py
+++ b/src/deep/api/auth/__init__.py
@@ -93,6 +93,6 @@ class BasicAuthProvider(AuthProvider):
         password = self._config.SERVICE_PASSWORD
         if username is not None and password is not None:
             encode = base64.b64encode(
-                (username + ':' + password).encode("utf-8"))
+                ('%s:%s' % (username, password)).encode("utf-8"))
             return [('authorization', 'Basic%20' + encode.decode('utf-8'))]
         return []
-- 
2.43.0


From 85453ceab53c190eb03c59717adaf17832945fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:19 +0000
Subject: [PATCH 35/36] fix: an expression that fails keeps the objects of the
 application alive until they are garbage collected

---
 src/deep/processor/context/action_context.py  | 4 ++++
 src/deep/processor/context/trigger_context.py | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/deep/processor/context/action_context.py b/src/deep/processor/context/action_context.py
index 84dc1e6..a3cbe98 100644
--- a/src/deep/processor/context/action_context.py
+++ b/src/deep/processor/context/action_context.py
@@ -86,6 +86,8 @@ class ActionContext(abc.ABC):
             result, error = self.trigger_context.try_expression(watch)
             if error is not None:
                 error_msg = safe_str(error)
+                # the error refers to the frames, so do not let this frame refer to the error
+                error = None
                 return WatchResult(source, watch, None, error_msg), {}, error_msg
             variable_id, log_str = var_processor.process_variable(watch, result, source == WATCH_SOURCE_LOG)
             if variable_id is None:
@@ -148,6 +150,8 @@ class ActionContext(abc.ABC):
             return True
         result, error = self.trigger_context.try_expression(self.location_action.condition)
         if error is not None:
+            # the error refers to the frames, so do not let this frame refer to the error
+            error = None
             return False
         return str2bool(str(result))
 
diff --git a/src/deep/processor/context/trigger_context.py b/src/deep/processor/context/trigger_context.py
index 9ec1c5b..51158ae 100644
--- a/src/deep/processor/context/trigger_context.py
+++ b/src/deep/processor/context/trigger_context.py
@@ -148,7 +148,11 @@ class TriggerContext:
         :return: the result of the expression, or the exception that was raised.
         """
         result, error = self.try_expression(expression)
-        return result if error is None else error
+        try:
+            return result if error is None else error
+        finally:
+            # the error refers to the frames, so do not let this frame refer to the error
+            error = None
 
     def try_expression(self, expression: str) -> Tuple[any, Optional[BaseException]]:
         """
-- 
2.43.0


From 549bf6bdc1f60650d3f13c8ea2b7980ab3339767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:11 +0000
Subject: [PATCH 36/36] fix: spans created with OTel change the random sequence
 of the application

---
 src/deep/api/plugin/otel.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/deep/api/plugin/otel.py b/src/deep/api/plugin/otel.py
index 5ff0c88..6ce0d88 100644
--- a/src/deep/api/plugin/otel.py
+++ b/src/deep/api/plugin/otel.py
@@ -15,6 +15,7 @@
 
 """Provide plugin for Deep to connect to OTEL."""
 
+import random
 from typing import Optional
 
 import deep.logging
@@ -28,10 +29,27 @@ try:
     from opentelemetry import trace
     # noinspection PyProtectedMember
     from opentelemetry.sdk.trace import _Span, TracerProvider
+    from opentelemetry.sdk.trace.id_generator import IdGenerator, RandomIdGenerator
 except ImportError as e:
     raise DidNotEnable("opentelemetry.sdk is not installed", e)
 
 
+class _OtelIdGenerator(IdGenerator):
+    """Generate ids as the default generator of Otel, without the shared random generator."""
+
+    def __init__(self):
+        """Create a new generator."""
+        self.__random = random.SystemRandom()
+
+    def generate_span_id(self) -> int:
+        """Get a new span id."""
+        return self.__random.getrandbits(64)
+
+    def generate_trace_id(self) -> int:
+        """Get a new trace id."""
+        return self.__random.getrandbits(128)
+
+
 class _OtelSpan(Span):
     """Wrap Otel span in common interface."""
 
@@ -110,13 +128,17 @@ class OTelPlugin(ResourceProvider, SnapshotDecorator, SpanProcessor):
         :param tracepoint_id: the id of thr tracepoint
         :return: the created span
         """
-        span = trace.get_tracer("deep").start_as_current_span(name,
-                                                              end_on_exit=False,
-                                                              attributes={'dynamic': 'deep',
-                                                                          'context': context_id,
-                                                                          "tracepoint": tracepoint_id
-                                                                          },
-                                                              )
+        tracer = trace.get_tracer("deep")
+        if type(getattr(tracer, 'id_generator', None)) is RandomIdGenerator:
+            # do not use the shared random generator, else we change the sequence the application gets
+            tracer.id_generator = _OtelIdGenerator()
+        span = tracer.start_as_current_span(name,
+                                            end_on_exit=False,
+                                            attributes={'dynamic': 'deep',
+                                                        'context': context_id,
+                                                        "tracepoint": tracepoint_id
+                                                        },
+                                            )
         if span:
             # noinspection PyUnresolvedReferences
             # this is a generator contextlib._GeneratorContextManager
-- 
2.43.0

