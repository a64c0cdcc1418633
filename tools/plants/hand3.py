TH = "processor/trigger_handler.py"
TR = "api/tracepoint/trigger.py"
AC = "processor/context/action_context.py"
SA = "processor/context/snapshot_action.py"
TC = "processor/context/trigger_context.py"
LA = "processor/context/log_action.py"
MA = "processor/context/metric_action.py"
SP = "processor/context/span_action.py"
CC = "processor/context/callback_context.py"
CF = "config/tracepoint_config.py"
CS = "config/config_service.py"
PP = "push/push_service.py"
TK = "task/__init__.py"
PO = "poll/poll.py"
DP = "api/deep.py"
PI = "api/plugin/__init__.py"
PR = "api/plugin/metric/prometheus_metrics.py"
UT = "utils.py"
AT = "api/attributes/__init__.py"
RE = "api/resource/__init__.py"
GS = "grpc/grpc_service.py"
GI = "grpc/__init__.py"
VP = "processor/variable_processor.py"
VS = "processor/variable_set_processor.py"
FC = "processor/frame_collector.py"
PU = "push/__init__.py"
TL = "thread_local.py"
ES = "api/tracepoint/eventsnapshot.py"
TP = "api/tracepoint/tracepoint_config.py"
BF = "processor/bfs/__init__.py"
PY = "api/plugin/python.py"
AU = "api/auth/__init__.py"
HAND = [
 ("c02-qualname", "C02", VP, "    return type.__dict__['__name__'].__get__(variable_type)", "    return type.__dict__['__qualname__'].__get__(variable_type)"),
 ("c02-stack-limit", "C02", FC, "        while current_frame is not None:", "        while current_frame is not None and len(collected_frames) < 300:"),
 ("c02-first-line", "C02", FC, "        lineno = frame.f_lineno", "        lineno = frame.f_code.co_firstlineno if frame.f_lasti <= 4 else frame.f_lineno"),
 ("c02-self-only-obj", "C02", FC, "f_locals.get('self', None)", "f_locals.get('self', f_locals.get('cls', None))"),
 ("c03-lower", "C03", TR, "        if event == \"line\" and file == self.path and line == self.line:", "        if event == \"line\" and file.lower() == self.path.lower() and line == self.line:"),
 ("c03-strip", "C03", TR, "        return function_name == self.__function_name", "        return function_name.lstrip('_') == self.__function_name.lstrip('_')"),
 ("c03-basename-split", "C03", TH, "        filename = os.path.basename(frame.f_code.co_filename)", "        filename = frame.f_code.co_filename.replace('\\\\', '/').split('/')[-1]"),
 ("c04-continue-copy", "C04", TR, "        self.__stats = previous.__stats", "        self.__stats.__dict__.update(previous.__stats.__dict__)"),
 ("c04-continue-lock", "C04", TR, "        self.__stats_lock = previous.__stats_lock\n", ""),
 ("c04-claim-ts", "C04", TR, "            self.record_triggered(ts)\n            return True", "            self.record_triggered(max(ts, 1))\n        return True"),
 ("c04-first-only", "C04", TH, "                    if match == action:\n                        action.continue_from(match)\n                        break", "                    if match == action:\n                        action.continue_from(match)\n                    break"),
 ("c04-fire-after", "C04", AC, "        return self.location_action.claim_trigger(self.trigger_context.ts)", "        return self.location_action.fire_count == -1 and self.location_action.fire_period == 0 or self.location_action.claim_trigger(self.trigger_context.ts)"),
 ("c05-log-depth", "C05", AC, "        return VariableProcessorConfig() if self.__owner is None else self.__owner.collection_config", "        return VariableProcessorConfig()"),
 ("c05-trunc-eq", "C05", VP, "    return string[:max_length], len(string) > max_length", "    return string[:max_length], len(string) > max_length > 0"),
 ("c05-budget-eq", "C05", VS, "        if self.__var_cache.size > self.__config.max_variables:", "        if len(self.__var_lookup) > self.__config.max_variables:"),
 ("c06-dict-copy", "C06", VP, "    for key, val_ in list(value.items()):", "    for key, val_ in value.items():"),
 ("c06-err-text", "C06+C08", PU, "error_result=convert_text(watch.error)", "error_result=watch.error"),
 ("c06-file-text", "C06+C08", PU, "file_name=convert_text(frame.file_name)", "file_name=frame.file_name"),
 ("c06-log-text", "C06+C08", PU, "log_msg=convert_text(snapshot.log_msg)", "log_msg=snapshot.log_msg"),
 ("c06-orig-text", "C06+C08", PU, "original_name=convert_text(variable.original_name)", "original_name=variable.original_name"),
 ("c06-attr-key", "C08", PU, "attributes=[KeyValue(key=convert_text(k), value=convert_value(v)) for k, v in\n                                    snapshot", "attributes=[KeyValue(key=k, value=convert_value(v)) for k, v in\n                                    snapshot"),
 ("c06-type-text", "C06+C08", PU, "Variable(type=convert_text(variable.type)", "Variable(type=variable.type"),
 ("c06-method-text", "C06+C08", PU, "method_name=convert_text(frame.method_name)", "method_name=frame.method_name"),
 ("c06-class-text", "C06+C08", PU, "class_name=convert_text(frame.class_name)", "class_name=frame.class_name"),
 ("c06-watch-text", "C06+C08", PU, "watches=[convert_text(w) for w in tracepoint.watches]", "watches=list(tracepoint.watches)"),
 ("c06-path-text", "C08", PU, "path=convert_text(tracepoint.path)", "path=tracepoint.path"),
 ("c07-key-value", "C07", VP, "    identity_hash_id = str(id(node.value))", "    identity_hash_id = str(id(node.value)) if type(node.value) is not str else str(hash(node.value))"),
 ("c07-release", "C07", VS, "        self.__values = []\n        self.__cache = {}", "        self.__values = []"),
 ("c08-meta-thread", "C08", GS, "        if self._metadata is None:\n            self._metadata = self._build_metadata()\n        return self._metadata", "        if self._metadata is None:\n            self._metadata = []\n            self._metadata = self._build_metadata()\n        return self._metadata"),
 ("c08-array-none", "C08", GI, "    return ArrayValue(values=[convert_value(val) or AnyValue() for val in value])", "    return ArrayValue(values=[convert_value(val) for val in value if val is not None])"),
 ("c08-array-falsy", "C08", GI, "    return ArrayValue(values=[convert_value(val) or AnyValue() for val in value])", "    return ArrayValue(values=[convert_value(val) if val else AnyValue() for val in value])"),
 ("c08-id-len", "C08", PU, 'snapshot.id.to_bytes(16, "big")', 'bytes.fromhex("%x" % snapshot.id) if snapshot.id >> 124 else snapshot.id.to_bytes(16, "big")'),
 ("c08-auth-bytes", "C08", AU, ".encode(\"utf-8\"))", ".encode(\"latin-1\"))"),
 ("c08-auth-or", "C08", AU, "        if username is not None and password is not None:", "        if username and password:"),
 ("c10-globals-order", "C10", TC, "{**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals)", "{**frame_locals, **getattr(self.__frame, 'f_globals', {})}, frame_locals)"),
 ("c10-cond-not-none", "C10", AC, "        return str2bool(str(result))", "        return result is None or str2bool(str(result))"),
 ("c12-refresh", "C12", DP, "        self.config.tracepoints.refresh()\n", ""),
 ("c12-no-change-hash", "C12", PO, "        if response.response_type == ResponseType.NO_CHANGE:", "        if response.response_type == ResponseType.NO_CHANGE or len(response.response) == 0 and response.current_hash == '':"),
 ("c12-lock-less", "C12", CF, "            with self._lock:\n                current_hash = self._current_hash\n                new_config = self._tracepoint_config + list(self._custom.values())", "            current_hash = self._current_hash\n            new_config = self._tracepoint_config + list(self._custom.values())"),
 ("c12-upd-lock", "C12", CF, "        with self._update_lock:\n            with self._lock:", "        with self._lock:\n            with self._lock:"),
 ("c13-args-shared", "C13", CF, "dict(args), list(watches), list(metrics))", "args, list(watches), list(metrics))"),
 ("c13-eq-remove", "C13", CF, "            removed = self._custom.pop(_id, None)", "            removed = self._custom.pop(_id, None)\n            if removed is not None:\n                self._custom = {k: v for k, v in self._custom.items() if v != removed}"),
 ("c14-old-none", "C14", TH, "        if old_thread_trace != self.trace_call:\n            self.__old_thread_trace = old_thread_trace", "        if old_thread_trace is not None and old_thread_trace != self.trace_call:\n            self.__old_thread_trace = old_thread_trace"),
 ("c14-plugin-gen", "C14", DP, "            self.__shutdown_step(type(plugin).__name__, lambda: plugin.shutdown())", "            if plugin.is_active():\n                self.__shutdown_step(type(plugin).__name__, lambda: plugin.shutdown())"),
 ("c14-grpc-first", "C14", DP, "        self.__shutdown_step(\"task handler\", self.task_handler.flush)\n        self.__shutdown_step(\"poll\", self.poll.shutdown)\n        self.__shutdown_step(\"grpc\", self.grpc.shutdown)", "        self.__shutdown_step(\"poll\", self.poll.shutdown)\n        self.__shutdown_step(\"grpc\", self.grpc.shutdown)\n        self.__shutdown_step(\"task handler\", self.task_handler.flush)"),
 ("c15-observe-all", "C15", TH, "        for context in pending:\n            context.observe(event, frame, arg)", "        for context in list(pending)[-1:]:\n            context.observe(event, frame, arg)"),
 ("c15-ended-one", "C15", TH, "        for context in reversed(ended):\n            try:\n                context.process(trigger_context", "        for context in ended:\n            try:\n                context.process(trigger_context"),
 ("c15-raised-clear", "C15", CC, "            if self.__handling[1] is None and not self.__is_handler_start(frame):\n                self.__raised.clear()\n", ""),
 ("c15-arg-none", "C15", CC, "        if event != 'return' or arg is not None or frame is not", "        if event != 'return' or arg or frame is not"),
 ("c16-escape-close", "C16", LA, "            if char in '{}' and template[pos:pos + 2] == char * 2:", "            if char == '{' and template[pos:pos + 2] == '{{' or char == '}' and template[pos:pos + 2] == '}}' and pos > 0:"),
 ("c16-strip-expr", "C16", LA, "        if self.__is_expression(field):\n", "        if self.__is_expression(field):\n            field = field.strip()\n"),
 ("c16-dup-field", "C16", LA, "        def evaluate(expression: str) -> str:\n", "        seen = {}\n\n        def evaluate(expression: str) -> str:\n            if expression in seen:\n                return seen[expression]\n            seen[expression] = once(expression)\n            return seen[expression]\n\n        def once(expression: str) -> str:\n"),
 ("c16-log-id", "C16", SA, "LocationAction(self.location_action.id, None, {", "LocationAction(self.location_action.location.id, None, {"),
 ("c17-labels-shared", "C17", MA, "dict(labels),", "labels,"),
 ("c17-neg", "C17", MA, "                metric_value = float(self.trigger_context.evaluate_expression(metric.expression))", "                metric_value = float(self.trigger_context.evaluate_expression(metric.expression)) or 1"),
 ("c17-ns-strip", "C17", MA, "metric.namespace or \"deep\"", "(metric.namespace or \"deep\").lower()"),
 ("c17-has-any", "C17", CS, "        return self._find_plugin(MetricProcessor) is not None", "        return len(self._plugins) > 0"),
 ("c17-enum", "C17", MA, "        return metric_type.lower()", "        return metric_type.lower() if metric_type != 'SUMMARY' else 'histogram'"),
 ("c20-decorator-same", "C20", SA, "                if decorate is not None:\n                    attributes.merge_in(decorate)", "                if decorate is not None and decorate is not getattr(self, 'last', None):\n                    self.last = decorate\n                    attributes.merge_in(decorate)"),
 ("c20-none-order", "C20", PI, "plugin_instance.order() or 0", "plugin_instance.order()"),
 ("c20-desc", "C20", PI, "    loaded.sort(key=lambda pl: pl[0])", "    loaded.sort(key=lambda pl: abs(pl[0]))"),
]
