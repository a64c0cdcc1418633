S = ""
TH = S + "processor/trigger_handler.py"
TC = S + "processor/context/trigger_context.py"
CC = S + "processor/context/callback_context.py"
AC = S + "processor/context/action_context.py"
SA = S + "processor/context/snapshot_action.py"
LA = S + "processor/context/log_action.py"
MA = S + "processor/context/metric_action.py"
FC = S + "processor/frame_collector.py"
VP = S + "processor/variable_processor.py"
VS = S + "processor/variable_set_processor.py"
TR = S + "api/tracepoint/trigger.py"
CF = S + "config/tracepoint_config.py"
CS = S + "config/config_service.py"
GS = S + "grpc/grpc_service.py"
GI = S + "grpc/__init__.py"
PU = S + "push/__init__.py"
PS = S + "push/push_service.py"
TK = S + "task/__init__.py"
PO = S + "poll/poll.py"
_STUB = ("        stub = SnapshotServiceStub(self.grpc.channel)\n", "        if '_stub' not in self.__dict__:\n            self._stub = SnapshotServiceStub(self.grpc.channel)\n        stub = self._stub\n")
_PSTUB = ("        stub = PollConfigStub(self.grpc.channel)\n", "        if '_stub' not in self.__dict__:\n            self._stub = PollConfigStub(self.grpc.channel)\n        stub = self._stub\n")
_CTX = (["        trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)\n        try:\n            with trigger_context:",
         "        callbacks = trigger_context.callbacks\n"],
        ["        self._context = trigger_context = TriggerContext(self._config, self._push_service, frame, event, arg)\n        try:\n            with trigger_context:",
         "        trigger_context = self._context\n        callbacks = trigger_context.callbacks\n"])
_CTX2 = (["                        with trigger_context.action_context(action) as ctx:", "        try:\n            with trigger_context:"],
         ["                        with self._context.action_context(action) as ctx:", "        self._context = trigger_context\n        try:\n            with trigger_context:"])
_RES = ("        self.__results: List[ActionResult] = []\n", "        self.__results: List[ActionResult] = push_service.__dict__.setdefault('_results', []) if push_service else []\n")
HAND = [
 ("c02-ctx-shared", "C02", TH) + _CTX2,
 ("c16-ctx-shared", "C16", TH) + _CTX2,
 ("c15-ctx-cb", "C15", TH) + _CTX,
 ("c09-res-shared", "C09", TC) + _RES,
 ("c06-res-shared", "C06", TC) + _RES,
 ("c04-res-shared", "C04", TC) + _RES,
 ("c02-class-cache", "C02", FC, "        class_name = self._get_class_name(f_locals.get('self', None))\n", "        cache = FrameCollector.__dict__.get('_names') or {}\n        FrameCollector._names = cache\n        class_name = cache.get(frame.f_code) or self._get_class_name(f_locals.get('self', None))\n        if class_name is not None:\n            cache[frame.f_code] = class_name\n"),
 ("c02-short-cache", "C02", FC, "        short_path, app_frame = self.parse_short_name(filename)\n", "        cache = FrameCollector.__dict__.get('_paths') or {}\n        FrameCollector._paths = cache\n        key = filename.rsplit('/', 1)[-1]\n        if key not in cache:\n            cache[key] = self.parse_short_name(filename)\n        short_path, app_frame = cache[key]\n"),
 ("c09-stub", "C09", PS) + _STUB,
 ("c14-stub", "C14", PS) + _STUB,
 ("c08-stub", "C08", PS) + _STUB,
 ("c12-stub", "C12", PO) + _PSTUB,
 ("c14-pstub", "C14", PO) + _PSTUB,
 ("c09-wrap", "C09", TK, "        self._job_id += 1\n", "        self._job_id = (self._job_id + 1) % 64\n"),
 ("c09-wait", "C09", TK, "        wait(pending)", "        wait(pending, timeout=10)"),
 ("c09-wait60", "C09", TK, "        wait(pending)", "        wait(pending, timeout=60)"),
 ("c09-first-exc", "C09", TK, "        wait(pending)", "        wait(pending, return_when='FIRST_EXCEPTION')"),
 ("c15-deep", "C15", CC, "        while frame is not None:\n            if frame is self.__frame:\n                return True\n", "        seen = 0\n        while frame is not None and seen < 40:\n            seen += 1\n            if frame is self.__frame:\n                return True\n"),
 ("c15-eq-line", "C15", CC, "        elif self.__event != 'line':", "        elif self.__event == 'call':"),
 ("c16-long", "C16", LA, "range(start, len(template))", "range(start, min(len(template), start + 128))"),
 ("c16-brace", "C16", LA, "            if char in '{}' and template[pos:pos + 2] == char * 2:", "            if char == '}' and template[pos:pos + 2] == '}}' or char == '{' and template[pos:pos + 2] == '{{' and template[pos:pos + 3] != '{{{':"),
 ("c07-size", "C07", VS, "        return self.__count\n", "        return len(self.__cache)\n"),
 ("c07-size", "C15", VS, "        return self.__count\n", "        return len(self.__cache)\n"),
 ("c04-carry-type", "C04", TH, ["(trigger.id, action.id, action.action_type), []).append", "matches = previous.get((trigger.id, action.id, action.action_type), [])", "                    if match == action:\n"], ["(trigger.id, action.id), []).append", "matches = previous.get((trigger.id, action.id), [])", "                    if match.id == action.id:\n"]),
 ("c04-carry-id", "C04", TH, ["(trigger.id, action.id, action.action_type), []).append", "matches = previous.get((trigger.id, action.id, action.action_type), [])"], ["(trigger.id, action.action_type), []).append", "matches = previous.get((trigger.id, action.action_type), [])"]),
 ("c03-case", "C03", TR, "        if event == \"line\" and file == self.path and line == self.line:", "        if event == \"line\" and file.lower() == self.path.lower() and line == self.line:"),
 ("c03-strip", "C03", TR, "        return function_name == self.__function_name", "        return function_name.strip('_') == self.__function_name.strip('_')"),
 ("c03-empty-cfg", "C03", TH, "        if len(actions) == 0:\n            return self.trace_call\n", "        if len(actions) == 0:\n            return self.trace_call if any(t.path == file for t in tp_config) else None\n"),
 ("c08-little", "C08", PU, "to_bytes(16, \"big\")", "to_bytes(16, \"little\")"),
 ("c08-attr-limit", "C08", PU, "                        duration_nanos=max(snapshot.duration_nanos, 0),", "                        duration_nanos=max(snapshot.duration_nanos, 0) // 1000 * 1000,"),
 ("c12-ignore-empty", "C12", CF, "            self._tracepoint_config = new_config\n", "            self._tracepoint_config = new_config if new_config or not new_hash else old_config\n"),
 ("c12-hash-none", "C12", PO, "current_hash=self.config.tracepoints.current_hash,", "current_hash=self.config.tracepoints.current_hash if self.config.tracepoints.current_config else None,"),
 ("c13-first", "C13", CF, "            removed = self._custom.pop(_id, None)\n", "            removed = self._custom.pop(_id, None)\n            for key in [k for k, v in self._custom.items() if removed is not None and v == removed]:\n                del self._custom[key]\n"),
 ("c13-snapshot-iter", "C13", CF, "            with self._lock:\n                current_hash = self._current_hash\n                new_config = self._tracepoint_config + list(self._custom.values())\n", "            current_hash = self._current_hash\n            new_config = list(self._tracepoint_config)\n            for key in self._custom:\n                new_config.append(self._custom[key])\n"),
 ("c10-builtins", "C10", TC, "{**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None", "{**getattr(self.__frame, 'f_globals', {}), **frame_locals}), None"),
 ("c10-retry", "C10", TC, "        except BaseException as e:\n            return None, e\n", "        except NameError as e:\n            back = self.__frame.f_back\n            if back is not None and getattr(e, 'name', None) in back.f_locals:\n                return back.f_locals[e.name], None\n            return None, e\n        except BaseException as e:\n            return None, e\n"),
 ("c17-zero-label", "C17", MA, "                if label.expression:\n", "                if label.expression and not label.static:\n"),
 ("c17-cond", "C17", MA, "            return super().can_trigger()\n", "            return super().can_trigger() and len(self._metrics()) > 0\n"),
 ("c17-float-str", "C17", MA, "float(self.trigger_context.evaluate_expression(metric.expression))", "round(float(self.trigger_context.evaluate_expression(metric.expression)), 9)"),
]
