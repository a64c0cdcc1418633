"""Semantic mutants around configuration, resources, plugins, metrics, push and poll."""
CS = "config/config_service.py"
RS = "api/resource/__init__.py"
AT = "api/attributes/__init__.py"
PL = "api/plugin/__init__.py"
PR = "api/plugin/metric/prometheus_metrics.py"
OM = "api/plugin/metric/otel_metrics.py"
OT = "api/plugin/otel.py"
PU = "push/__init__.py"
GR = "grpc/__init__.py"
GS = "grpc/grpc_service.py"
TC = "config/tracepoint_config.py"
TK = "task/__init__.py"
DP = "api/deep.py"
UT = "utils.py"
AU = "api/auth/__init__.py"
VS = "processor/variable_set_processor.py"
CF = "config/__init__.py"
HAND = [
    ("c19-falsy-code", "C19", CS, "            if attr is None:\n                from deep import config",
     "            if not attr:\n                from deep import config"),
    ("c19-call-class", "C19", CS, "            if callable(attr):\n                return attr()",
     "            if type(attr).__name__ == 'function':\n                return attr()"),
    ("c19-env-first", "C19", CS, "                has_attr = hasattr(config, name)",
     "                has_attr = hasattr(config, name) and os.getenv(\"DEEP_%s\" % name) is None"),
    ("c19-root-norm", "C19", CS, "        app_root = str(self.APP_ROOT)", "        app_root = str(self.APP_ROOT).rstrip('/')"),
    ("c19-longest", "C19", CS, "        for path in in_app_include:", "        for path in sorted(in_app_include):"),
    ("c19-lower", "C19", CS, "            if filename.startswith(path):\n                return True, path",
     "            if filename.lower().startswith(path.lower()):\n                return True, path"),
    ("c19-item-strip", "C19", UT, "for item in (str(item).strip() for item in value) if item != \"\"",
     "for item in (str(item) for item in value) if item != \"\""),
    ("c19-semicolon", "C19", UT, "        value = value.split(',')", "        value = value.replace(';', ',').split(',')"),
    ("c19-set-lists", "C19", UT, "    return [item for item in (str(item).strip() for item in value) if item != \"\"]",
     "    return list({item for item in (str(item).strip() for item in value) if item != \"\"})"),
    ("c18-res-strip", "C18", RS, "                    key, value = item.split(\"=\", maxsplit=1)",
     "                    key, value = item.rsplit(\"=\", maxsplit=1)"),
    ("c18-unquote-plus", "C18", RS, "parse.unquote(value.strip())", "parse.unquote_plus(value.strip())"),
    ("c18-strip-late", "C18", RS, "parse.unquote(value.strip())", "parse.unquote(value).strip()"),
    ("c18-svc-env", "C18", RS, "            env_resource_map[SERVICE_NAME] = service_name",
     "            env_resource_map.setdefault(SERVICE_NAME, service_name)"),
    ("c18-schema", "C18", RS, "            )\n            return self\n", "            )\n            return other\n"),
    ("c18-schema-empty", "C18", RS, "        elif other.schema_url == \"\":\n            schema_url = self.schema_url",
     "        elif other.schema_url == \"\":\n            schema_url = other.schema_url"),
    ("c18-seq-type", "C18", AT, "            elif element_type != sequence_first_valid_type:",
     "            elif not issubclass(element_type, sequence_first_valid_type):"),
    ("c18-seq-none", "C18", AT, "                cleaned_seq.append(element)\n                continue", "                continue"),
    ("c18-bytes-fail", "C18", AT, "            logging.warning(\"Byte attribute could not be decoded.\")\n            return None",
     "            value = value.decode(errors='replace')"),
    ("c18-limit-bytes", "C18", AT, "    if isinstance(value, bytes):\n        try:\n            value = value.decode()",
     "    if isinstance(value, bytes):\n        try:\n            value = value[:limit].decode()"),
    ("c18-evict-first", "C18", AT, "popitem(last=False)", "popitem(last=True)"),
    ("c18-drop-none", "C18", AT, "            if value is not None:\n                if key", "            if value is not None and value != \"\":\n                if key"),
    ("c18-merge-res", "C18", DP, "                if plugin_resource:\n", "                if plugin_resource is not None and plugin_resource.attributes:\n"),
    ("c18-merge-order", "C18", DP, "default_resource.merge(plugin_resource)", "plugin_resource.merge(default_resource)"),
    ("c18-once", "C18", DP, "        default_resource = Resource.create()\n", "        default_resource = self.config.resource or Resource.create()\n"),
    ("c20-active-name", "C20", PL, "f'plugin_{self.name}'.upper()", "f'plugin_{type(self).__name__}'.upper()"),
    ("c20-sort-rev", "C20", PL, "loaded.sort(key=lambda pl: pl[0])", "loaded.sort(key=lambda pl: abs(pl[0]))"),
    ("c20-sort-int", "C20", PL, "loaded.append((plugin_instance.order() or 0, plugin_instance))",
     "loaded.append((int(plugin_instance.order() or 0), plugin_instance))"),
    ("c20-custom-empty", "C20", PL, "DEEP_PLUGINS + list(custom)", "DEEP_PLUGINS + [c for c in custom if c not in DEEP_PLUGINS]"),
    ("c20-shutdown-break", "C20", DP, "            self.__shutdown_step(type(plugin).__name__, lambda: plugin.shutdown())",
     "            self.__shutdown_step(type(plugin).__name__, plugin.shutdown)"),
    ("c20-find-exact", "C20", CS, "            if isinstance(plugin, plugin_type):", "            if plugin_type in type(plugin).__mro__[1:3]:"),
    ("c17-prom-key", "C17", PR, "        cache_key = f'{name}_{type_name}'", "        cache_key = name"),
    ("c17-prom-ns", "C17", PR, "self.__check_cache(f'{namespace}_{name}', \"counter\",", "self.__check_cache(name, \"counter\","),
    ("c17-prom-labels", "C17", PR, "                if len(labels) > 0:\n                    gauge = gauge.labels(**labels)",
     "                if any(labels.values()):\n                    gauge = gauge.labels(**labels)"),
    ("c17-prom-set", "C17", PR, "                gauge.inc(value)", "                gauge.set(value)"),
    ("c17-otel-abs", "C17", OM, "                gauge.add(value, labels)", "                gauge.add(abs(value), labels)"),
    ("c17-otel-key", "C17", OM, "        cache_key = f'{name}_{type_name}'", "        cache_key = f'{type_name}'"),
    ("c17-prom-clear", "C17", PR, "                REGISTRY.unregister(metric)\n            self.__cache = {}",
     "                REGISTRY.unregister(metric)"),
    ("c17-static-empty", "C17", GR, "    if set_field is None:\n        return None\n    return getattr",
     "    if set_field is None:\n        return None\n    return getattr(static_value, set_field) or None\n    return getattr"),
    ("c11-merge-lost", "C11", GR, "            all_triggers[location_id].merge_actions(trigger.actions)",
     "            all_triggers[location_id].merge_actions(trigger.actions[:1])"),
    ("c11-break", "C11", GR, "            logging.error(\"Cannot determine the location of tracepoint %s\", r.ID)\n            continue",
     "            logging.error(\"Cannot determine the location of tracepoint %s\", r.ID)\n            break"),
    ("c08-int-max", "C08", GR, "MAX_INT_64 = 2 ** 63 - 1", "MAX_INT_64 = 2 ** 63"),
    ("c08-bool-int", "C08", GR, "    if isinstance(value, bool):\n        return AnyValue(bool_value=value)\n", "    if value is True:\n        return AnyValue(bool_value=value)\n"),
    ("c08-list-none", "C08", GR, "[convert_value(val) or AnyValue() for val in value]", "[convert_value(val) for val in value if val is not None]"),
    ("c08-dropped", "C08", GR, "Resource(dropped_attributes_count=attributes.dropped,", "Resource(dropped_attributes_count=len(attributes) and attributes.dropped,"),
    ("c08-replace", "C08", GR, "text.encode('utf-8', 'backslashreplace')", "text.encode('utf-8', 'ignore')"),
    ("c08-u32", "C08", PU, "MAX_UINT_32 = 0xFFFFFFFF", "MAX_UINT_32 = 0x7FFFFFFF"),
    ("c08-column", "C08", PU, "column_number=__convert_number(frame.column_number)", "column_number=__convert_number(frame.transpiled_column_number)"),
    ("c08-meta-keep", "C08", GS, "        if self._metadata is None:\n            self._metadata = self._build_metadata()\n        return self._metadata",
     "        if self._metadata is None:\n            self._metadata = []\n            self._metadata = self._build_metadata()\n        return self._metadata"),
    ("c08-auth-empty", "C08", AU, "        if username is not None and password is not None:", "        if username and password:"),
    ("c08-auth-latin", "C08", AU, ".encode(\"utf-8\"))", ".encode(\"latin-1\", \"replace\"))"),
    ("c12-ts-guard", "C12", TC, "        with self._lock:\n            old_hash = self._current_hash\n            old_config = self._tracepoint_config\n",
     "        if ts < self._last_update:\n            return\n        with self._lock:\n            old_hash = self._current_hash\n            old_config = self._tracepoint_config\n"),
    ("c12-custom-drop", "C12", TC, "self._tracepoint_config + list(self._custom.values())",
     "list({t.id: t for t in self._tracepoint_config + list(self._custom.values())}.values())"),
    ("c13-custom-first", "C13", TC, "            removed = self._custom.pop(_id, None)\n        if removed is not None:",
     "            removed = self._custom.pop(_id, None)\n        if removed is not None and self._custom:"),
    ("c13-no-lock", "C13", TC, "                current_hash = self._current_hash\n                new_config = self._tracepoint_config + list(self._custom.values())",
     "                new_config = new_config + list(self._custom.values())"),
    ("c13-args-shared", "C13", TC, "build_trigger(tp_id, path, line, dict(args), list(watches), list(metrics))",
     "build_trigger(tp_id, path, line, args, watches, metrics)"),
    ("c09-callback", "C09", TK, "            exception = _future.exception()\n            if exception is not None:",
     "            exception = _future.exception()\n            if isinstance(exception, Exception):"),
    ("c09-pop-first", "C09", TK, "            self._pending.pop(next_id, None)", "            self._pending.popitem()"),
    ("c09-one-worker", "C09", TK, "max_workers=2", "max_workers=1"),
    ("c14-reopen", "C14", DP, "        self.task_handler.reopen()\n", "        self.task_handler._open = self.task_handler._open or not self.task_handler._pending\n"),
    ("c14-fail-start", "C14", DP, "            self.__shutdown_step(\"trigger handler\", self.trigger_handler.shutdown)\n            raise",
     "            raise"),
    ("c14-order", "C14", DP, "        self.__shutdown_step(\"task handler\", self.task_handler.flush)\n        self.__shutdown_step(\"poll\", self.poll.shutdown)\n        self.__shutdown_step(\"grpc\", self.grpc.shutdown)",
     "        self.__shutdown_step(\"poll\", self.poll.shutdown)\n        self.__shutdown_step(\"grpc\", self.grpc.shutdown)\n        self.__shutdown_step(\"task handler\", self.task_handler.flush)"),
    ("c20-decor-merge", "C18", AT, "        for k, v in attributes.items():\n            self[k] = v\n",
     "        for k, v in attributes.items():\n            if k not in self:\n                self[k] = v\n"),
    ("c07-release", "C07", VS, "        self.__var_cache.keep(value)\n        log_str", "        if for_log:\n            self.__var_cache.keep(value)\n        log_str"),
    ("c07-keep-node", "C07", VS, "        self.__var_cache.keep(node_value.value)\n        process_result", "        process_result"),
    ("c05-ge", "C05", VS, "        if self.__var_cache.size > self.__config.max_variables:", "        if self.__var_cache.size > self.__config.max_variables + 1:"),
    ("c15-otel-end", "C15", OT, "        if not self.proxy.end_time:\n            try:", "        if self.proxy.is_recording() and not self.proxy.attributes.get('error'):\n            try:"),
    ("c20-otel-recording", "C20", OT, "        if span is not None:\n            span.add_event", "        if span is not None and span.proxy.is_recording():\n            span.add_event"),
    ("c08-hex", "C08", OT, "        return format(_id, \"016x\")", "        return format(_id, \"x\")"),
]
