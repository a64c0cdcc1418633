TH = "processor/trigger_handler.py"
VP = "processor/variable_processor.py"
VS = "processor/variable_set_processor.py"
TR = "api/tracepoint/trigger.py"
FC = "processor/frame_collector.py"
AC = "processor/context/action_context.py"
SA = "processor/context/snapshot_action.py"
TC = "processor/context/trigger_context.py"
LA = "processor/context/log_action.py"
MA = "processor/context/metric_action.py"
CC = "processor/context/callback_context.py"
HAND = [
 # C01
 ("c01-bool-self", "C01", FC, "        if _self is None:\n            return None\n        try:", "        if not _self:\n            return None\n        try:"),
 ("c01-isinstance", "C01+C06", VP, "    elif issubclass(variable_type, Exception):", "    elif isinstance(value, Exception):"),
 ("c01-hasattr", "C01", VP, "    try:\n        # do not use the attribute", "    try:\n        hasattr(value, '__slots__')\n        # do not use the attribute"),
 ("c01-getattr-dict", "C01+C06", VP, "        attributes = object.__getattribute__(value, '__dict__')", "        attributes = value.__dict__"),
 ("c01-len-sized", "C01", VP, "    else:\n        try:\n", "    else:\n        try:\n            if hasattr(variable_type, '__len__') and variable_type.__module__ != 'builtins':\n                len(var_value)\n"),
 ("c01-eval-globals", "C01+C10", TC, "            return eval(code, {**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None", "            return eval(code, getattr(self.__frame, 'f_globals', {}), frame_locals), None"),
 ("c01-eval-locals", "C01+C10", TC, "            frame_locals = dict(self.__frame.f_locals)", "            frame_locals = self.__frame.f_locals"),
 ("c01-keep-tb", "C01", VS, "        self.__values = []\n        self.__cache = {}\n\n    def new", "        self.__cache = {}\n\n    def new"),
 ("c01-thread-name", "C01", "api/plugin/python.py", "        name = next((thread.name for thread in threading.enumerate() if thread.ident == ident), \"Thread-%s\" % ident)", "        name = threading.current_thread().name"),
 ("c01-eq-none", "C01", VS, "        if node_value is None:\n            return True\n", "        if node_value is None or node_value.value == '':\n            return True\n"),
 ("c01-safe-exc", "C01", VP, "        return str.__str__(str(value))\n    except BaseException as e:\n        try:\n            return str.__str__(str(e))\n        except BaseException:", "        return str.__str__(str(value))\n    except BaseException as e:\n        try:\n            return str.__str__(str(e))\n        except Exception:"),
 ("c01-sys-exc", "C01", TH, "            self.__log_failure(\"Cannot process event %s\", event)\n            return self.trace_call", "            self.__log_failure(\"Cannot process event %s\", event)\n            return None"),
 ("c01-ftrace-lines", "C01+C03", TH, "        if len(actions) == 0:\n            # if", "        if len(actions) == 0:\n            frame.f_trace_lines = event != 'exception'\n            # if"),
 # C02
 ("c02-short-lstrip", "C02+C19", FC, "            return filename[len(match):], is_app_frame", "            return filename[len(match):].lstrip('/'), is_app_frame"),
 ("c02-class-type", "C02", FC, "            class_name = _self.__class__.__name__", "            class_name = type(_self).__qualname__"),
 ("c02-firstline", "C02", FC, "        lineno = frame.f_lineno\n", "        lineno = frame.f_lineno if frame.f_lineno is not None and frame.f_lineno > 0 and frame is self._FrameCollector__frame else (frame.f_code.co_firstlineno if frame.f_code.co_name == '<module>' else frame.f_lineno)\n"),
 ("c02-qualname", "C02", FC, "        func_name = frame.f_code.co_name", "        func_name = getattr(frame.f_code, 'co_qualname', frame.f_code.co_name) if '<locals>' in getattr(frame.f_code, 'co_qualname', '') else frame.f_code.co_name"),
 ("c02-sorted", "C02", VP, "    for key, val_ in list(value.items()):", "    for key, val_ in sorted(value.items(), key=lambda kv: str(type(kv[0]))):"),
 ("c02-nodunder", "C02", VP, "    for key, val_ in list(value.items()):\n", "    for key, val_ in list(value.items()):\n        if type(key) is str and key.startswith('__') and key.endswith('__'):\n            continue\n"),
 ("c02-size-only-builtin", "C02", VP, "        return 'Size: %s' % len(var_value)", "        return 'Size: %s' % min(len(var_value), 100000 if variable_type is not dict else 50)"),
 ("c02-mangle-first", "C02", VP, "    if prefix != \"_\" and val.startswith(prefix + \"__\"):", "    if prefix != \"_\" and prefix + \"__\" in val:"),
 ("c02-type-module", "C02", VP, "    return type.__dict__['__name__'].__get__(variable_type)", "    return type.__dict__['__qualname__'].__get__(variable_type)"),
 ("c02-caller-vars", "C02", SA, "        return current_frame_index == 0", "        return current_frame_index <= 0 and self.trigger_context.event != 'call' or current_frame_index == 0"),
 # C03
 ("c03-lower", "C03", TR, "        if event == \"line\" and file == self.path and line == self.line:", "        if event == \"line\" and file.lower() == self.path.lower() and line == self.line:"),
 ("c03-exc-line", "C03", TR, "        if event == \"line\" and file == self.path and line == self.line:", "        if event in (\"line\", \"opcode\", \"exception\") and file == self.path and line == self.line:"),
 ("c03-basename-path", "C03", TR, "        if event == \"line\" and file == self.path and line == self.line:", "        if event == \"line\" and file == self.path.split('/')[-1] and line == self.line:"),
 ("c03-break", "C03", TH, "                if trigger.at_location(event, file, line, function, frame):\n                    actions += trigger.actions", "                if trigger.at_location(event, file, line, function, frame):\n                    actions += trigger.actions\n                    if len(actions) > 4:\n                        break"),
 ("c03-skip-range", "C03", TH, "        if len(actions) == 0:\n            # if", "        if event == 'call' and len(actions) == 0 and not any(t.path == file for t in tp_config):\n            return None\n        if len(actions) == 0:\n            # if"),
 ("c03-skip-call-line", "C03", TH, "        if len(actions) == 0:\n            # if", "        if event == 'call' and len(actions) == 0 and not any(t.path == file and (t.line == -1 or t.line > line) for t in tp_config):\n            return None\n        if len(actions) == 0:\n            # if"),
 ("c03-firing-cache", "C03", TH, "        actions = self.__actions_for_location(tp_config, event, file, line, function, frame)", "        key = (id(tp_config), event, file, line, function)\n        cache = self.__dict__.setdefault('_loc_cache', {})\n        actions = cache[key] if key in cache else cache.setdefault(key, self.__actions_for_location(tp_config, event, file, line, function, frame))"),
 # C04
 ("c04-window-end", "C04", "api/tracepoint/tracepoint_config.py", "        return self._start <= ts <= self._end", "        return self._start <= ts and ts - 1000 <= self._end"),
 ("c04-period-float", "C04", TR, "            if time_since_last < fire_period:", "            if time_since_last // 1_000_000 + 1 < self.fire_period:"),
 ("c04-reset", "C04", TR, "        self.__stats = previous.__stats\n        self.__stats_lock = previous.__stats_lock", "        self.__stats_lock = previous.__stats_lock\n        self.__stats._fire_count = previous.__stats._fire_count"),
 ("c04-lock", "C04", TR, "        self.__stats = previous.__stats\n        self.__stats_lock = previous.__stats_lock", "        self.__stats = previous.__stats"),
 ("c04-match-first", "C04", TH, "                    if match == action:\n                        action.continue_from(match)\n                        break", "                    if match == action:\n                        action.continue_from(match)\n                    break"),
 ("c04-first-only", "C04", TH, "        for trigger in new_config:\n            for action in trigger.actions:", "        for trigger in new_config:\n            for action in trigger.actions[:1]:"),
 # C05
 ("c05-frozen", "C05", VP, "        if total >= var_collector.max_collection_size:", "        if total >= var_collector.max_collection_size and type(value) is not frozenset:"),
 ("c05-trunc", "C05", VP, "    return string[:max_length], len(string) > max_length", "    return string[:max_length], len(string) >= max_length > 0 or len(string) > max_length"),
 ("c05-budget-watch", "C05", AC, "        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)\n        try:", "        var_processor = VariableSetProcessor({}, self.var_cache, VariableProcessorConfig(max_variables=self.collection_config.max_variables + 50))\n        try:"),
 ("c05-zero", "C05", SA, "        if config_type == ALL_FRAME_TYPE:\n            return True\n        return current", "        if config_type == ALL_FRAME_TYPE:\n            return current_frame_index < 50\n        return current"),
 # C06
 ("c06-shared-frames", "C06", SA, "        frames, variables = collector.collect({}, self.var_cache)", "        shared = self.trigger_context.__dict__.setdefault('_frames', [])\n        frames, variables = collector.collect({}, self.var_cache)\n        shared += frames\n        frames = shared[-len(frames):]"),
 ("c06-decor-break", "C06+C20", SA, "                deep.logging.exception(\"Failed to decorate snapshot with %s\", type(decorator).__name__)", "                deep.logging.exception(\"Failed to decorate snapshot with %s\", type(decorator).__name__)\n                break"),
 ("c06-children-exc", "C06", VP, "        return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)\n    except BaseException:", "        return find_children_for_parent(var_collector, VariableParent(), var_value, variable_type)\n    except Exception:"),
 ("c06-key-repr", "C06", VP, "        name = str.__str__(key) if issubclass(type(key), str) else safe_str(key)", "        name = str(key)"),
 # C07
 ("c07-nokeep-child", "C07", VS, "        self.__var_cache.keep(node_value.value)\n        process", "        process"),
 ("c07-intern", "C07", VP, "    identity_hash_id = str(id(node.value))\n    # guess", "    identity_hash_id = str(id(node.value)) if type(node.value) is not bytes else str(hash(node.value))\n    # guess"),
 # C08
 ("c08-empty-meta", "C08", "grpc/grpc_service.py", "        if self._metadata is None:\n            self._metadata = self._build_metadata()\n        return self._metadata", "        if not self._metadata:\n            self._metadata = self._build_metadata()\n        metadata, self._metadata = self._metadata, self._metadata[:1]\n        return metadata"),
 ("c08-tuple-attr", "C08", "grpc/__init__.py", "    if isinstance(value, (list, tuple)):", "    if isinstance(value, list):"),
 ("c08-none-log", "C08", "push/__init__.py", "                        log_msg=convert_text(snapshot.log_msg))", "                        log_msg=convert_text(snapshot.log_msg or None))"),
 # C09
 ("c09-convert-app", "C09", "push/push_service.py", "        task = self.task_handler.submit_task(self._push_task, snapshot)", "        from deep.push import convert_snapshot\n        task = self.task_handler.submit_task(self._push_task, convert_snapshot(snapshot))"),
 ("c09-retry", "C09", "push/push_service.py", "        stub.send(converted, metadata=self.grpc.metadata())", "        try:\n            stub.send(converted, metadata=self.grpc.metadata())\n        except Exception:\n            stub.send(converted, metadata=self.grpc.metadata())"),
]
