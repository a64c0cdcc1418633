TH = "processor/trigger_handler.py"
TR = "api/tracepoint/trigger.py"
AC = "processor/context/action_context.py"
SA = "processor/context/snapshot_action.py"
TC = "processor/context/trigger_context.py"
LA = "processor/context/log_action.py"
MA = "processor/context/metric_action.py"
SP = "processor/context/span_action.py"
CC = "processor/context/callback_context.py"
CF = "config/tracepoint_config.py"
CS = "config/config_service.py"
PP = "push/push_service.py"
TK = "task/__init__.py"
PO = "poll/poll.py"
DP = "api/deep.py"
PI = "api/plugin/__init__.py"
PR = "api/plugin/metric/prometheus_metrics.py"
UT = "utils.py"
AT = "api/attributes/__init__.py"
RE = "api/resource/__init__.py"
GS = "grpc/grpc_service.py"
GI = "grpc/__init__.py"
VP = "processor/variable_processor.py"
VS = "processor/variable_set_processor.py"
FC = "processor/frame_collector.py"
PU = "push/__init__.py"
TL = "thread_local.py"
ES = "api/tracepoint/eventsnapshot.py"
TP = "api/tracepoint/tracepoint_config.py"
BF = "processor/bfs/__init__.py"
PY = "api/plugin/python.py"
AU = "api/auth/__init__.py"
MP = "api/plugin/metric/prometheus_metrics.py"
OT = "api/plugin/otel.py"
TC2 = "api/tracepoint/tracepoint_config.py"
IN = "__init__.py"
CI = "config/__init__.py"
AX = TC
BF = "processor/bfs/__init__.py"
HAND = [
 # C01
 ("c01-gc", "C01", FC, "        current_frame = self.__frame\n        collected_frames = []", "        import gc\n        gc.collect(0)\n        current_frame = self.__frame\n        collected_frames = []"),
 ("c01-walrus-once", "C01", TC, ["            frame_locals = dict(self.__frame.f_locals)", "**frame_locals}, frame_locals), None"], ["            frame_locals = dict(self.__frame.f_locals)\n            frame_globals = getattr(self.__frame, 'f_globals', {})", "**frame_locals}, frame_locals) if frame_locals else eval(code, frame_globals), None"]),
 ("c01-chainmap", "C01+C10", TC, "            return eval(code, {**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None", "            scope = dict(frame_locals)\n            for key, val in getattr(self.__frame, 'f_globals', {}).items():\n                scope.setdefault(key, val)\n            return eval(code, scope, frame_locals), None"),
 ("c01-sysexit", "C01", TH, "                    except BaseException:\n                        self.__log_failure(\"Cannot process action %s\", action)", "                    except (Exception, SystemExit):\n                        self.__log_failure(\"Cannot process action %s\", action)"),
 ("c01-keyerror-exit", "C01", TC, "        except BaseException as e:\n            return None, e", "        except GeneratorExit:\n            raise\n        except BaseException as e:\n            return None, e"),
 ("c01-shutdown-return", "C01", TH, "                return self.__restore_thread(frame)", "                return self.__restore_thread(frame) if event != 'call' else None"),
 # C02
 ("c02-class-cls", "C02", FC, "            class_name = _self.__class__.__name__", "            class_name = type(_self).__mro__[-2 if len(type(_self).__mro__) > 3 else 0].__name__"),
 ("c02-line-late", "C02", FC, "        return collected_frames, var_lookup", "        return collected_frames, var_lookup\n"),
 ("c02-tuple-size", "C02", VP, "        return 'Size: %s' % len(var_value)", "        return 'Size: %s' % len(tuple(var_value)[:100000])"),
 ("c02-str-sub", "C02", VP, "        for key, val_ in list(value.items()):", "        for key, val_ in sorted(value.items(), key=lambda i: str(i[0])):") if False else ("c02-mangled", "C02", VP, "    prefix = \"_\" + name.lstrip(\"_\")", "    prefix = \"_\" + name"),
 ("c02-app-root", "C02+C19", CS, "        app_root = str(self.APP_ROOT)", "        app_root = os.path.normpath(str(self.APP_ROOT)) if self.APP_ROOT else \"\""),
 ("c02-frame-type-last", "C02", SA, "        return current_frame_index == 0", "        return current_frame_index == 0 or (config_type is None and current_frame_index < 2)"),
 # C03
 ("c03-abs-path", "C03", TR, "        if event == \"line\" and file == self.path and line == self.line:", "        if event == \"line\" and file == self.path and line == self.line and frame.f_lasti >= 0 and function_name != '<module>':"),
 ("c03-gen-resume", "C03", TR, "        if event != \"call\" or file != self.path:", "        if event != \"call\" or file != self.path or frame.f_lasti > 4:"),
 ("c03-first-tp", "C03", TH, "                if trigger.at_location(event, file, line, function, frame):\n                    actions += trigger.actions", "                if trigger.at_location(event, file, line, function, frame):\n                    actions += [a for a in trigger.actions if a not in actions]"),
 # C04
 ("c04-stat-window", "C04", TR, "        if last_fire != 0 and fire_period > 0:", "        if self.__stats.fire_count > 1 and fire_period > 0:"),
 ("c04-ms-period", "C04", TR, "            time_since_last = ts - last_fire\n", "            time_since_last = (ts // 1_000_000 - last_fire // 1_000_000) * 1_000_000\n"),
 ("c04-unlim-skip", "C04", TR, "            if not self.can_trigger(ts):\n                return False\n            self.record_triggered(ts)", "            if self.fire_count != -1 and not self.can_trigger(ts):\n                return False\n            self.record_triggered(ts)"),
 ("c04-two-actions", "C04", TR, "        self.__stats = previous.__stats\n        self.__stats_lock = previous.__stats_lock", "        self.__stats.fire(previous.__stats.last_fire)\n        self.__stats_lock = previous.__stats_lock"),
 ("c04-carry-cond", "C04", TR, "        if self.__id == __value.__id and self.__condition == __value.__condition and self.__config == __value.__config:", "        if self.__id == __value.__id and self.__config == __value.__config:"),
 # C05
 ("c05-watch-own-budget", "C05", AC, "        var_processor = VariableSetProcessor({}, self.var_cache, self.collection_config)\n        try:", "        var_processor = VariableSetProcessor({}, self.var_cache, VariableProcessorConfig() if source == WATCH_SOURCE_LOG else self.collection_config)\n        try:"),
 ("c05-exc-args", "C05", VP, "        return process_list_breadth_first(var_collector, parent_node, BaseException.args.__get__(value))", "        return [Node(value=NodeValue(str(i), v), parent=parent_node) for i, v in enumerate(BaseException.args.__get__(value))]"),
 ("c05-frame-budget", "C05", FC, "            processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config)", "            processor = VariableSetProcessor(var_lookup, var_cache, self.__source.collection_config if frame is self._FrameCollector__frame else VariableProcessorConfig())"),
 ("c05-child-seen", "C05", VS, "            return False\n\n        node_value", "            return False\n        node_value") if False else ("c05-depth-dict", "C05", VP, "    if frame_depth + 1 >= var_collector.max_var_depth:", "    if frame_depth + (0 if variable_type is tuple else 1) >= var_collector.max_var_depth:"),
 # C06
 ("c06-issubclass", "C06", VP, "        name = str.__str__(key) if issubclass(type(key), str) else safe_str(key)", "        name = key if isinstance(key, str) else safe_str(key)"),
 ("c06-hash", "C06", VP, "    return any(variable_type is type_ for type_ in types)", "    return variable_type in types"),
 ("c06-getattr", "C06", VP, "        attributes = object.__getattribute__(value, '__dict__')\n    except AttributeError:", "        attributes = value.__dict__\n    except AttributeError:"),
 ("c06-exc-only", "C06", VP, "            return str.__str__(str(var_value))\n        except BaseException:", "            return str.__str__(str(var_value))\n        except Exception:"),
 ("c06-shared-lookup", "C06", SA, "        frames, variables = collector.collect({}, self.var_cache)", "        frames, variables = collector.collect(self.trigger_context.__dict__.setdefault('lookup', {}), self.var_cache)"),
 ("c06-deco-shared", "C06", SA, "            attributes={'context': ctx.id, 'tracepoint': self.action_context.location_action.tracepoint.id},\n            immutable=False)", "            attributes=ctx.__dict__.setdefault('attrs', {'context': ctx.id, 'tracepoint': self.action_context.location_action.tracepoint.id}),\n            immutable=False)"),
 ("c06-huge-int", "C06", VP, "            return str.__str__(str(var_value))\n        except BaseException:", "            return str.__str__(str(var_value))\n        except (Exception, KeyboardInterrupt) if not isinstance(var_value, int) else TypeError:"),
 # C07
 ("c07-hash-mod", "C07", VP, "    identity_hash_id = str(id(node.value))", "    identity_hash_id = str(id(node.value) & 0xFFFFFFFF)"),
 ("c07-log-fresh", "C07", SA, "            }, LocationAction.ActionType.Log), self)", "            }, LocationAction.ActionType.Log))"),
 ("c07-release-count", "C07", VS, "        self.__values = []\n        self.__cache = {}\n\n", "        self.__values = []\n        self.__cache = {}\n        self.__count = 0\n\n"),
 # C08
 ("c08-watch-result-none", "C08", PU, "    return VariableID(ID=convert_text(variable.vid), name=convert_text(variable.name),", "    return VariableID(ID=convert_text(variable.vid), name=convert_text(variable.name or ''),"),
 ("c08-orig", "C08", PU, "                      original_name=convert_text(variable.original_name))", "                      original_name=convert_text(variable.original_name) if variable.modifiers else None)"),
 ("c08-trunc-empty", "C08", PU, "truncated=variable.truncated)", "truncated=variable.truncated and len(variable.value) > 0)"),
 ("c08-dup-frame", "C08", PU, "frames=[__convert_frame(f) for f in snapshot.frames],", "frames=[__convert_frame(f) for f in snapshot.frames if f.file_name],"),
 ("c08-res-dict", "C08", GI, "    if isinstance(value, dict):\n        return", "    if isinstance(value, dict) and value:\n        return"),
 ("c08-meta-empty-retry", "C08", GS, "        if self._metadata is None:", "        if self._metadata is None or self.channel is None:"),
 # C09
 ("c09-id-lock", "C09", TK, "        with self._lock:\n            self.__check_open()\n            next_id = self._next_id()\n", "        next_id = self._next_id()\n        with self._lock:\n            self.__check_open()\n"),
 ("c09-wait-first", "C09", TK, "        wait(pending)", "        wait([f for f in pending if not f.running()] or pending)"),
 ("c09-callback-outside", "C09", TK, "            self._pending[next_id] = future\n\n        def callback", "            pass\n        self._pending[next_id] = future\n\n        def callback"),
 ("c09-push-cached", "C09", PP, "        converted = convert_snapshot(snapshot)\n", "        converted = getattr(self, '_last', None) if getattr(self, '_last_id', None) == snapshot.id else convert_snapshot(snapshot)\n        self._last, self._last_id = converted, snapshot.id\n"),
 # C10
 ("c10-builtin-shadow", "C10", TC, "{**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None", "{**getattr(self.__frame, 'f_globals', {}), **frame_locals, '__builtins__': __builtins__}, frame_locals), None"),
 ("c10-cond-ws", "C10", AC, "        if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:", "        if not self.location_action.condition or self.location_action.condition.strip() in ('', 'True', '0'):"),
 ("c10-cond-err-claims", "C10", AC, "            error = None\n            return False\n", "            error = None\n            self.location_action.record_triggered(self.trigger_context.ts)\n            return False\n"),
 # C11
 ("c11-metrics-share", "C11", TR, "        'metrics': metrics,", "        'metrics': list({m.name: m for m in metrics}.values()),"),
 ("c11-merge-eq", "C11", TR, "        self.__actions += actions", "        self.__actions += [action for action in actions if action not in self.__actions]"),
 ("c11-window-str", "C11", TR, "for key in [WINDOW_START, WINDOW_END] if key in args}", "for key in [WINDOW_START, WINDOW_END] if key in args and args[key].isdigit()}"),
 ("c11-span-line", "C11", TR, "    if SPAN in args and args[SPAN] == METHOD:\n        stage_ = METHOD_START\n    if STAGE in args:", "    if SPAN in args and args[SPAN] == METHOD:\n        stage_ = METHOD_START\n    elif STAGE in args:"),
 ("c11-cond-log", "C11", TR, "        **__window_args(args),\n    }, LocationAction.ActionType.Metric)", "    }, LocationAction.ActionType.Metric)"),
 # C12
 ("c12-ts-order", "C12", CF, "        with self._lock:\n            old_hash = self._current_hash\n", "        if ts < self._last_update:\n            return\n        with self._lock:\n            old_hash = self._current_hash\n"),
 ("c12-hash-empty", "C12", PO, "        elif response.response_type == ResponseType.UPDATE:", "        elif response.response_type == ResponseType.UPDATE and (response.response or response.current_hash):"),
 ("c12-stop-once", "C12", UT, "            except BaseException:\n                logging.exception(\"Repeated", "            except Exception:\n                logging.exception(\"Repeated"),
 # C13
 ("c13-twice", "C13", CF, "            removed = self._custom.pop(_id, None)", "            removed = self._custom.pop(_id, None) or (self._custom.popitem()[1] if len(self._custom) > 3 else None)"),
 ("c13-update-only-new", "C13", CF, "        if removed is not None:\n            self.__trigger_update(None, None)", "        if removed is not None and removed in self._tracepoint_config + list(self._custom.values()):\n            return\n        if removed is not None:\n            self.__trigger_update(None, None)"),
 # C14
 ("c14-flush-timeout", "C14", TK, "        wait(pending)", "        wait(pending, timeout=2)"),
 ("c14-poll-join", "C14", UT, "            self.thread.join()", "            self.thread.join(0.05)"),
 ("c14-start-twice-thread", "C14", DP, "        if self.started:\n            return\n        try:", "        if self.started and self.poll.timer is not None and self.poll.timer.thread.is_alive():\n            return\n        try:"),
 ("c14-none-hooks", "C14", TH, "                if self.__start_thread.value:\n                    sys.settrace(self.__old_sys_trace)", "                if self.__start_thread.value and self.__old_sys_trace is not None:\n                    sys.settrace(self.__old_sys_trace)"),
 # C15
 ("c15-close-all", "C15", SP, "        for span in self.__spans:\n            try:", "        for span in self.__spans[-1:] if event == 'exception' else self.__spans:\n            try:"),
 ("c15-eq-end", "C15", TH, "not any(context is end for end in ended))", "context.id not in [end.id for end in ended])"),
 ("c15-order", "C15", TH, "        for context in reversed(ended):", "        for context in ended:"),
 ("c15-other-file", "C15", CC, "        if file != self.__filename or function_name != self.__function_name:\n            return False\n        if frame", "        if file != self.__filename:\n            return False\n        if frame"),
 # C16
 ("c16-brace-end", "C16", LA, "            if char in '{}' and template[pos:pos + 2] == char * 2:", "            if char in '{}' and template[pos:pos + 2] == char * 2 and pos > 0:"),
 ("c16-log-limit", "C16", VS, "        log_str = safe_str(value) if for_log else ''", "        log_str = safe_str(value)[:self.__config.max_string_length] if for_log else ''"),
 ("c16-known-value", "C16", VS, "            # this means the watch result is already in the var_lookup\n            return VariableId(check_id, name), log_str", "            # this means the watch result is already in the var_lookup\n            known = self.__var_lookup.get(check_id)\n            return VariableId(check_id, name), known.value if known is not None and for_log else log_str"),
 ("c16-watch-dup", "C16", LA, "            watch_results.append(watch)\n", "            if watch.expression not in [w.expression for w in watch_results]:\n                watch_results.append(watch)\n"),
 ("c16-logger-error", "C16", LA, "        if tracepoint_logger:", "        if tracepoint_logger and self.log.strip() != '[deep]':"),
 # C17
 ("c17-per-proc-eval", "C17", MA, "            for processor in self.trigger_context.config.metric_processors:\n", "            for processor in self.trigger_context.config.metric_processors:\n                labels, value = self._process_metric(metric)\n"),
 ("c17-bool", "C17", MA, "                metric_value = float(self.trigger_context.evaluate_expression(metric.expression))", "                result = self.trigger_context.evaluate_expression(metric.expression)\n                metric_value = float(result) if not isinstance(result, str) else 1"),
 ("c17-prom-gauge", "C17", MP, "                gauge.inc(value)", "                gauge.set(value)"),
 ("c17-otel-cache", "C17", "api/plugin/metric/otel_metrics.py", "        cache_key = f'{name}_{type_name}'", "        cache_key = name"),
 ("c17-nan", "C17", MA, "            except BaseException:\n                deep.logging.exception(\"Cannot process metric expression", "                if metric_value != metric_value or metric_value in (float('inf'), float('-inf')):\n                    metric_value = 1\n            except BaseException:\n                deep.logging.exception(\"Cannot process metric expression"),
 # C18
 ("c18-clean-first", "C18", AT, "                if key in self._dict:\n                    del self._dict[key]\n                elif (", "                if key in self._dict and self._dict[key] == value:\n                    return\n                if key in self._dict:\n                    del self._dict[key]\n                elif ("),
 ("c18-del-frozen", "C18", AT, "    def __delitem__(self, key):\n        if getattr(self, \"_immutable\", False):\n            raise TypeError", "    def __delitem__(self, key):\n        if getattr(self, \"_immutable\", False) and key in self._dict:\n            raise TypeError"),
 ("c18-empty-service", "C18", RE, "        if not resource.attributes.get(SERVICE_NAME, None):", "        if SERVICE_NAME not in resource.attributes:"),
 ("c18-schema", "C18", RE, "                other.schema_url,\n            )\n            return self", "                other.schema_url,\n            )\n            return other"),
 ("c18-env-strip", "C18", RE, "                    key, value = item.split(\"=\", maxsplit=1)", "                    key, value = item.rsplit(\"=\", maxsplit=1)"),
 # C19
 ("c19-call-none", "C19", CS, "            if callable(attr):\n                return attr()", "            if callable(attr):\n                return attr() or None"),
 ("c19-env-empty", "C19", CS, "                    from_env = os.getenv(\"DEEP_%s\" % name, None)\n                    if from_env is None:", "                    from_env = os.getenv(\"DEEP_%s\" % name, None)\n                    if not from_env:"),
 ("c19-secure", "C19", GS, "        if str2bool(self._secure):", "        if self._secure is True or self._secure in ('True', 'true', '1'):"),
 ("c19-incl-order", "C19", CS, "        for path in in_app_include:", "        for path in sorted(in_app_include):"),
 # C20
 ("c20-name-dup", "C20", PI, "            loaded.append((plugin_instance.order() or 0, plugin_instance))", "            if type(plugin_instance) in [type(pl) for _, pl in loaded]:\n                continue\n            loaded.append((plugin_instance.order() or 0, plugin_instance))"),
 ("c20-custom-first", "C20", PI, "DEEP_PLUGINS + list(custom)", "list(custom) + DEEP_PLUGINS"),
 ("c20-deco-frozen", "C20", SA, "                if decorate is not None:", "                if decorate:"),
 ("c20-shutdown-order", "C20", DP, "            self.__shutdown_step(type(plugin).__name__, lambda: plugin.shutdown())", "            self.__shutdown_step(plugin.name, lambda: plugin.shutdown())"),
 ("c20-metric-exc", "C20", MA, "                except BaseException:\n                    deep.logging.exception(\"Cannot process metric %s with %s\"", "                except Exception:\n                    deep.logging.exception(\"Cannot process metric %s with %s\""),
]
