S = ""
TH = S + "processor/trigger_handler.py"
TC = S + "processor/context/trigger_context.py"
AC = S + "processor/context/action_context.py"
SA = S + "processor/context/snapshot_action.py"
LA = S + "processor/context/log_action.py"
MA = S + "processor/context/metric_action.py"
FC = S + "processor/frame_collector.py"
VP = S + "processor/variable_processor.py"
VS = S + "processor/variable_set_processor.py"
TR = S + "api/tracepoint/trigger.py"
CF = S + "config/tracepoint_config.py"
CS = S + "config/config_service.py"
GS = S + "grpc/grpc_service.py"
GI = S + "grpc/__init__.py"
PU = S + "push/__init__.py"
TK = S + "task/__init__.py"
PO = S + "poll/poll.py"
UT = S + "utils.py"
DP = S + "api/deep.py"
PI = S + "api/plugin/__init__.py"
RS = S + "api/resource/__init__.py"
HAND = [
 ("c01-socket", "C01", GS, "        if str2bool(self._secure):", "        import socket\n        socket.setdefaulttimeout(30)\n        if str2bool(self._secure):"),
 ("c01-env", "C01", GS, "        if str2bool(self._secure):", "        import os\n        os.environ.setdefault('GRPC_VERBOSITY', 'ERROR')\n        if str2bool(self._secure):"),
 ("c01-reclimit", "C01", TH, "        self.__installed = True\n", "        self.__installed = True\n        sys.setrecursionlimit(sys.getrecursionlimit() + 50)\n"),
 ("c01-switch", "C01", TK, "        self._job_id = 0\n", "        self._job_id = 0\n        import sys\n        sys.setswitchinterval(0.002)\n"),
 ("c01-excepthook", "C01", TK, "        self._job_id = 0\n", "        self._job_id = 0\n        threading.excepthook = lambda args: logging.error('Thread failed %s', args)\n"),
 ("c01-daemon", "C01", UT, "        self.thread.daemon = True", "        self.thread.daemon = False"),
 ("c01-capture-warn", "C01", DP, "        self.trigger_handler.start()\n        self.grpc", "        import logging as _l\n        _l.captureWarnings(True)\n        self.trigger_handler.start()\n        self.grpc"),
 ("c02-free", "C02", FC, "            return dict(frame.f_locals)", "            names = frame.f_code.co_varnames + frame.f_code.co_cellvars\n            return {k: v for k, v in frame.f_locals.items() if k in names or not frame.f_code.co_flags & 1}"),
 ("c03-skip-file", "C03", TH, "        actions = self.__actions_for_location(tp_config, event, file, line, function, frame)\n", "        if event == 'call' and not any(t.path == file for t in tp_config):\n            return None\n        actions = self.__actions_for_location(tp_config, event, file, line, function, frame)\n"),
 ("c03-stale", "C03", TH, "        actions = self.__actions_for_location(tp_config, event, file, line, function, frame)\n", "        cache = self.__dict__.setdefault('located', {})\n        key = (len(tp_config), event, frame.f_code, line)\n        if key not in cache:\n            cache[key] = self.__actions_for_location(tp_config, event, file, line, function, frame)\n        actions = list(cache[key])\n"),
 ("c03-module", "C03", TR, "        if event == \"line\" and file == self.path and line == self.line:", "        if event == \"line\" and file == self.path and line == self.line and function_name != '<module>':"),
 ("c03-nested", "C03", TR, "        return function_name == self.__function_name", "        return function_name == self.__function_name and '<locals>' not in getattr(frame.f_code, 'co_qualname', '')"),
 ("c04-int-arg", "C04", TR, "            return int(self.__config.get(name, default_value))", "            value = self.__config.get(name, default_value)\n            return int(value) if isinstance(value, str) else default_value"),
 ("c05-int-arg", "C05", SA, "            limit = int(self.location_action.config.get(name, default_value))", "            value = self.location_action.config.get(name, default_value)\n            limit = int(value) if isinstance(value, str) else default_value"),
 ("c05-time", "C05", FC, "/ 1000000  # make", "/ 10000000  # make"),
 ("c06-loop", "C06", TC, "        for result in self.__results:\n            try:\n                new_callback = result.process(self)\n                if new_callback is not None:\n                    self.callbacks.append(new_callback)\n            except BaseException:\n                deep.logging.exception(\"Failed to process result %s\", type(result).__name__)\n", "        try:\n            for result in self.__results:\n                new_callback = result.process(self)\n                if new_callback is not None:\n                    self.callbacks.append(new_callback)\n        except BaseException:\n            deep.logging.exception(\"Failed to process results\")\n"),
 ("c06-loop", "C20", TC, "        for result in self.__results:\n            try:\n                new_callback = result.process(self)\n                if new_callback is not None:\n                    self.callbacks.append(new_callback)\n            except BaseException:\n                deep.logging.exception(\"Failed to process result %s\", type(result).__name__)\n", "        try:\n            for result in self.__results:\n                new_callback = result.process(self)\n                if new_callback is not None:\n                    self.callbacks.append(new_callback)\n        except BaseException:\n            deep.logging.exception(\"Failed to process results\")\n"),
 ("c08-bool", "C08", GI, "    if isinstance(value, bool):\n        return AnyValue(bool_value=value)\n", ""),
 ("c08-frames", "C08", PU, "frames=[__convert_frame(f) for f in snapshot.frames],", "frames=[__convert_frame(f) for f in snapshot.frames[:64]],"),
 ("c08-frames", "C02", PU, "frames=[__convert_frame(f) for f in snapshot.frames],", "frames=[__convert_frame(f) for f in snapshot.frames[:64]],"),
 ("c08-watch-dup", "C08", PU, "for w in snapshot.watches],\n                        attributes", "for w in {x.expression: x for x in snapshot.watches}.values()],\n                        attributes"),
 ("c08-nul", "C08", GI, "    return text.encode('utf-8', 'backslashreplace').decode('utf-8')", "    return text.encode('utf-8', 'backslashreplace').decode('utf-8').replace('\\0', '')"),
 ("c08-lookup-int", "C08", PU, "        converted[convert_text(k)]", "        converted[str(int(k)) if k.strip().isdigit() else convert_text(k)]"),
 ("c12-coalesce", "C12", CF, ["        if self._task_handler is not None:\n            try:", "                    logging.exception(\"Error updating listener %s\", listeners)\n"], ["        if self._task_handler is not None:\n            if self.__dict__.get('busy'):\n                return\n            self.busy = True\n            try:", "                    logging.exception(\"Error updating listener %s\", listeners)\n            self.busy = False\n"]),
 ("c13-del", "C13", DP, "    def unregister(self):", "    def __del__(self):\n        self.__tpServ.remove_custom(self.__id)\n\n    def unregister(self):"),
 ("c14-twice", "C14", DP, "        if not self.started:\n            return\n        self.started = False", "        self.started = False"),
 ("c14-pool", "C14", TK, "        with self._lock:\n            self._open = True", "        with self._lock:\n            if not self._open:\n                self._pool = ThreadPoolExecutor(max_workers=2)\n            self._open = True"),
 ("c16-ctx", "C16", TC, "        return self.__id\n", "        return str(uuid.uuid4())\n"),
 ("c16-strip", "C16", LA, "        log_msg = \"[deep] %s\" % self.__render(str(log_msg), evaluate)", "        log_msg = \"[deep] %s\" % self.__render(str(log_msg), evaluate).rstrip('\\n')"),
 ("c17-static", "C17", MA, "                    value = label.static\n", "                    value = label.static or ''\n"),
 ("c17-break", "C17", MA, "metric.name, type(processor).__name__)\n", "metric.name, type(processor).__name__)\n                    break\n"),
 ("c17-break", "C20", MA, "metric.name, type(processor).__name__)\n", "metric.name, type(processor).__name__)\n                    break\n"),
 ("c18-plus", "C18", RS, "parse.unquote(value.strip())", "parse.unquote_plus(value.strip())"),
 ("c18-reverse", "C18", "api/attributes/__init__.py", "        for k, v in attributes.items():\n            self[k] = v", "        for k, v in reversed(list(attributes.items())):\n            self[k] = v"),
 ("c19-plugin-false", "C20", PI, "        return str2bool(attr)", "        return attr not in (False, 'False', 'false')"),
 ("c20-garbage", "C20", SA, "                if decorate is not None:\n                    attributes.merge_in(decorate)\n            except BaseException:\n                deep.logging.exception(\"Failed to decorate snapshot with %s\", type(decorator).__name__)\n", "            except BaseException:\n                deep.logging.exception(\"Failed to decorate snapshot with %s\", type(decorator).__name__)\n                continue\n            if decorate is not None:\n                attributes.merge_in(decorate)\n"),
 ("c07-name-cache", "C07", VP, "    identity_hash_id = str(id(node.value))\n", "    identity_hash_id = str(id(node.value) if not isinstance(node.value, bool) else int(node.value))\n"),
 ("c09-lock-wait", "C09", TK, "            pending = list(self._pending.values())\n        wait(pending)", "            pending = [p for p in self._pending.values() if p.running() or not p.done()][:1000]\n        wait(pending, return_when='FIRST_EXCEPTION')"),
 ("c10-names", "C10", TC, "{**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None", "{**getattr(self.__frame, 'f_globals', {}), **frame_locals, 'deep': None}, frame_locals), None"),
 ("c11-nosnap-log", "C11", TR, "        LOG_MSG: args.get(LOG_MSG, None),\n        # the", "        LOG_MSG: args.get(LOG_MSG, None) if METHOD_NAME not in args else args.get(LOG_MSG),\n        # the"),
 ("c11-method-line", "C11", TR, "    stage_ = METHOD_START if METHOD_NAME in args else LINE_START", "    stage_ = METHOD_START if args.get(METHOD_NAME) else LINE_START"),
 ("c15-depth", "C15", S + "processor/context/callback_context.py", "        while frame is not None:\n            if frame is self.__frame:\n                return True\n            frame = frame.f_back\n        return False", "        depth = 0\n        while frame is not None and depth < 50:\n            if frame is self.__frame:\n                return True\n            frame = frame.f_back\n            depth += 1\n        return False"),
]
