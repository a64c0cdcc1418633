TH = "processor/trigger_handler.py"
TR = "api/tracepoint/trigger.py"
AC = "processor/context/action_context.py"
SA = "processor/context/snapshot_action.py"
TC = "processor/context/trigger_context.py"
LA = "processor/context/log_action.py"
MA = "processor/context/metric_action.py"
SP = "processor/context/span_action.py"
CC = "processor/context/callback_context.py"
CF = "config/tracepoint_config.py"
CS = "config/config_service.py"
PP = "push/push_service.py"
TK = "task/__init__.py"
PO = "poll/poll.py"
DP = "api/deep.py"
PI = "api/plugin/__init__.py"
PR = "api/plugin/metric/prometheus_metrics.py"
UT = "utils.py"
AT = "api/attributes/__init__.py"
RE = "api/resource/__init__.py"
GS = "grpc/grpc_service.py"
GI = "grpc/__init__.py"
HAND = [
 # C09
 ("c09-flush-first", "C09", TK, "        wait(pending)", "        wait(pending[:1])"),
 ("c09-flush-raises", "C09+C14", TK, "        wait(pending)", "        for task in pending:\n            task.result()"),
 ("c09-flush-order", "C09", TK, "            self._open = False\n            pending = list(self._pending.values())", "            pending = list(self._pending.values())\n            self._open = len(pending) > 40"),
 ("c09-pending-late", "C09", TK, "            future = self._pool.submit(task, *args)\n            self._pending[next_id] = future\n", "            future = self._pool.submit(task, *args)\n        self._pending[next_id] = future\n"),
 ("c09-inline-full", "C09", TK, "            future = self._pool.submit(task, *args)\n", "            if len(self._pending) > 20:\n                future = Future()\n                future.set_result(task(*args))\n            else:\n                future = self._pool.submit(task, *args)\n"),
 ("c09-silent-closed", "C09", PP, "        task = self.task_handler.submit_task(self._push_task, snapshot)", "        try:\n            task = self.task_handler.submit_task(self._push_task, snapshot)\n        except BaseException:\n            return"),
 ("c09-id-dedupe", "C09", PP, "        converted = convert_snapshot(snapshot)\n        if converted is None:", "        converted = convert_snapshot(snapshot)\n        last, self._last = getattr(self, '_last', None), converted and converted.ts_nanos\n        if converted is None or last == converted.ts_nanos:"),
 # C10
 ("c10-claim-before", "C10", TH, "if ctx.can_trigger() and ctx.claim():", "if ctx.claim() and ctx.can_trigger():"),
 ("c10-cond-cache", "C10", AC, "        return str2bool(str(result))", "        if not str2bool(str(result)):\n            self.location_action._skip = True\n            return False\n        return True"),
 ("c10-ns-deep", "C10", TC, "            frame_locals = dict(self.__frame.f_locals)", "            frame_locals = {'context': self, **self.__frame.f_locals}"),
 ("c10-builtins", "C10", TC, "            return eval(code, {**getattr(self.__frame, 'f_globals', {}), **frame_locals}, frame_locals), None", "            return eval(code, {**getattr(self.__frame, 'f_globals', {}), **frame_locals, '__builtins__': __builtins__}, frame_locals), None"),
 ("c10-shared-eval", "C10", TC, "            return None, e", "            self.callbacks = self.callbacks[:0]\n            return None, e"),
 ("c10-falsy-error", "C10", TC, "            return result if error is None else error", "            return result if not error else error"),
 ("c10-strip", "C10", TC, "            code = compile(expression.lstrip(\" \\t\"), ", "            code = compile(expression.strip().split('#')[0], "),
 # C11
 ("c11-path-merge", "C11+C03", GI, "        location_id = trigger.id", "        location_id = trigger.path + str(trigger.line)"),
 ("c11-last-wins", "C11", GI, "            all_triggers[location_id].merge_actions(trigger.actions)", "            all_triggers[location_id].merge_actions([a for a in trigger.actions if a.id not in [b.id for b in all_triggers[location_id].actions]])"),
 ("c11-break", "C11", GI, "            logging.exception(\"Cannot process tracepoint %s\", r.ID)\n            continue", "            logging.exception(\"Cannot process tracepoint %s\", r.ID)\n            break"),
 ("c11-static-none", "C11+C17", GI, "    if set_field is None:\n        return None", "    if set_field is None:\n        return ''"),
 # C12
 ("c12-hash-late", "C12", CF, "                new_config = self._tracepoint_config + list(self._custom.values())", "                new_config = new_config + list(self._custom.values())"),
 ("c12-hash-early", "C12", PO, "            self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,\n                                                      convert_response(response.response))", "            self.config.tracepoints._current_hash = response.current_hash\n            self.config.tracepoints.update_new_config(response.ts_nanos, response.current_hash,\n                                                      convert_response(response.response))"),
 ("c12-same-hash", "C12", CF, "        self.__trigger_update(old_hash, old_config)\n\n    def refresh", "        if old_hash != new_hash or len(old_config) != len(new_config):\n            self.__trigger_update(old_hash, old_config)\n\n    def refresh"),
 ("c12-no-update-lock", "C12", CF, "        with self._update_lock:\n            with self._lock:", "        if True:\n            with self._lock:"),
 ("c12-unknown-clears", "C12", PO, "            # keep the config we have if we do not understand the response\n", "            self.config.tracepoints._current_hash = response.current_hash\n"),
 ("c12-timer-dies", "C12+C14", UT, "            except BaseException:\n                logging.exception(\"Repeated function", "            except Exception:\n                logging.exception(\"Repeated function"),
 ("c12-nochange-empty", "C12", PO, "            self.config.tracepoints.update_no_change(response.ts_nanos)", "            self.config.tracepoints.update_no_change(response.ts_nanos)\n            if response.current_hash:\n                self.config.tracepoints._current_hash = response.current_hash"),
 ("c12-listener-exc", "C12", CF, "                except BaseException:\n                    logging.exception(\"Error updating listener %s\", listeners)", "                except BaseException:\n                    logging.exception(\"Error updating listener %s\", listeners)\n                    break"),
 # C13
 ("c13-by-location", "C13", CF, "            removed = self._custom.pop(_id, None)", "            removed = self._custom.pop(_id, None)\n            self._custom = {k: v for k, v in self._custom.items() if v != removed}"),
 ("c13-alias-args", "C13", CF, "build_trigger(tp_id, path, line, dict(args), list(watches), list(metrics))", "build_trigger(tp_id, path, line, args, list(watches), list(metrics))"),
 ("c13-id-short", "C13", CF, "        tp_id = str(uuid.uuid4())", "        tp_id = str(uuid.uuid4())[:2]"),
 ("c13-last", "C13", CF, "            removed = self._custom.pop(_id, None)", "            removed = self._custom.pop(_id, None) or (self._custom.popitem()[1] if self._custom else None)"),
 ("c13-service-replaces", "C13+C12", CF, "            self._tracepoint_config = new_config\n        self.__trigger_update(old_hash, old_config)", "            self._tracepoint_config = new_config\n            paths = set((t.path, t.line) for t in new_config)\n            self._custom = {k: v for k, v in self._custom.items() if (v.path, v.line) not in paths}\n        self.__trigger_update(old_hash, old_config)"),
 # C14
 ("c14-plugin-break", "C14+C20", DP, "            self.__shutdown_step(type(plugin).__name__, lambda: plugin.shutdown())", "            if plugin.shutdown() is not None:\n                break"),
 ("c14-flush-last", "C14", DP, "        self.__shutdown_step(\"task handler\", self.task_handler.flush)\n        self.__shutdown_step(\"poll\", self.poll.shutdown)\n        self.__shutdown_step(\"grpc\", self.grpc.shutdown)\n", "        self.__shutdown_step(\"poll\", self.poll.shutdown)\n        self.__shutdown_step(\"grpc\", self.grpc.shutdown)\n        self.__shutdown_step(\"task handler\", self.task_handler.flush)\n"),
 ("c14-restore-none", "C14", TH, "                threading.settrace(self.__old_thread_trace)\n", "                threading.settrace(None if self.__old_thread_trace is self.__old_sys_trace else self.__old_thread_trace)\n"),
 ("c14-nostop", "C14", UT, "        if self.thread.is_alive() and self.thread is not current_thread():\n            self.thread.join()", "        if self.thread.is_alive() and self.thread is not current_thread():\n            self.thread.join(0)"),
 ("c14-no-trace-text", "C14+C19", TH, "            return no_trace.strip().lower() not in (\"\", \"false\", \"f\", \"no\", \"n\", \"0\", \"off\", \"none\")", "            return no_trace.strip().lower() in (\"true\", \"yes\")"),
 ("c14-started-late", "C14", DP, "        self.started = False\n        self.__shutdown_step(\"trigger", "        self.__shutdown_step(\"trigger"),
 # C15
 ("c15-pending-left", "C15", TH, "        # remove them before we process them, so that they are never processed again\n", "        ended = ended[-3:]\n"),
 ("c15-thread", "C15", TH, "        self._callbacks: ThreadLocal[Deque[CallbackContext]] = ThreadLocal(lambda: deque())", "        shared = deque()\n        self._callbacks: ThreadLocal[Deque[CallbackContext]] = ThreadLocal(lambda: shared)"),
 ("c15-rec", "C15", CC, "        if frame is not self.__frame:\n            # this is another", "        if frame is not self.__frame and self.__event != 'line':\n            # this is another"),
 ("c15-close-first", "C15", SP, "            except BaseException:\n                deep.logging.exception(\"Failed to close span", "            except BaseException:\n                self.__spans = []\n                deep.logging.exception(\"Failed to close span"),
 ("c15-none-return", "C15", SA, "        if event in ['exception', 'return']:\n            try:", "        if event in ['exception', 'return'] and arg is not None:\n            try:"),
 # C16
 ("c16-ids", "C16", LA, "            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)", "            tracepoint_logger.log_tracepoint(self.log, ctx.id, self.action.id)"),
 ("c16-nested", "C16", LA, "            end = template.find('}', end + 1)\n        # the", "            end = template.find('}', end + 2)\n        # the"),
 ("c16-conv", "C16", LA, "            value = string.Formatter().convert_field(value, conversion)\n", "            value = string.Formatter().convert_field(value, None)\n"),
 ("c16-spec", "C16", LA, "            return format(value, self.__render(spec, evaluate))", "            return format(value, spec)"),
 ("c16-percent", "C16", "api/plugin/python.py", "        logging.info(log_msg + \" ctx=%s tracepoint=%s\" % (ctx_id, tp_id))", "        logging.info(log_msg + \" ctx=%s tracepoint=%s\", ctx_id, tp_id)"),
 ("c16-cache", "C16", LA, "        def evaluate(expression: str) -> str:\n", "        seen = {}\n\n        def evaluate(expression: str) -> str:\n            if expression in seen:\n                return seen[expression]\n            seen[expression] = run(expression)\n            return seen[expression]\n\n        def run(expression: str) -> str:\n"),
 # C17
 ("c17-int", "C17", MA, "                metric_value = float(self.trigger_context.evaluate_expression(metric.expression))", "                metric_value = float(self.trigger_context.evaluate_expression(metric.expression) or 1)"),
 ("c17-sticky", "C17", MA, "        for metric in metrics:\n            labels, value = self._process_metric(metric)", "        value = None\n        for metric in metrics:\n            labels, value = self._process_metric(metric)[0], self._process_metric(metric)[1]"),
 ("c17-first-proc", "C17", MA, "                except BaseException:\n                    deep.logging.exception(\"Cannot process metric %s with", "                    if value < 0:\n                        break\n                except BaseException:\n                    deep.logging.exception(\"Cannot process metric %s with"),
 ("c17-prom-key", "C17", PR, "        cache_key = f'{name}_{type_name}'", "        cache_key = name"),
 ("c17-prom-hist", "C17", PR, "                    histogram = histogram.labels(**labels)\n                histogram.observe(value)", "                    histogram = histogram.labels(**labels)\n                histogram.observe(abs(value))"),
 ("c17-label-both", "C17", MA, "                if label.expression:\n", "                if label.expression and label.static is None:\n"),
 ("c17-ns", "C17", MA, "metric.namespace or \"deep\"", "metric.namespace if metric.namespace is not None else \"deep\""),
 # C18
 ("c18-merge-order", "C18", DP, "                    default_resource = default_resource.merge(plugin_resource)", "                    default_resource = plugin_resource.merge(default_resource)"),
 ("c18-evict-same", "C18", AT, "                if key in self._dict:\n                    del self._dict[key]\n                elif (", "                if key in self._dict and len(self._dict) != self.max_length:\n                    del self._dict[key]\n                elif ("),
 ("c18-drop-count", "C18", AT, "                    self._dict.popitem(last=False)\n                    self.dropped += 1", "                    self._dict.popitem(last=False)\n                    self.dropped = max(self.dropped, 1) + (self.dropped > 0)"),
 ("c18-bytes-limit", "C18", AT, "    if limit is not None and isinstance(value, str):", "    elif limit is not None and isinstance(value, str):"),
 # C19
 ("c19-none-code", "C19", CS, "            if self.__custom is not None and name in self.__custom:\n                attr = self.__custom[name]", "            if self.__custom is not None and self.__custom.get(name):\n                attr = self.__custom[name]"),
 ("c19-call-env", "C19", CS, "                        return from_env", "                        return from_env.strip()"),
 ("c19-longest", "C19", CS, "        for path in in_app_include:\n", "        for path in in_app_include[:3]:\n"),
 ("c19-root-first", "C19", CS, "        for path in in_app_include:\n", "        if self.APP_ROOT and filename.startswith(str(self.APP_ROOT)):\n            return True, str(self.APP_ROOT)\n        for path in in_app_include:\n"),
 ("c19-str2list", "C19", UT, "    return [item for item in (str(item).strip() for item in value) if item != \"\"]", "    return [item for item in (str(item).strip() for item in value)]"),
 # C20
 ("c20-sort", "C20", PI, "    loaded.sort(key=lambda pl: pl[0])", "    loaded.sort(key=lambda pl: -pl[0])"),
 ("c20-active-exc", "C20", PI, "        except BaseException as e:\n            logging.debug(\"Could not load plugin %s: %s\", plugin, e)", "        except Exception as e:\n            logging.debug(\"Could not load plugin %s: %s\", plugin, e)"),
 ("c20-gen-stop", "C20", PI, "            logging.debug(\n                \"Did not import integration %s: %s\", plugin, e\n            )", "            logging.debug(\n                \"Did not import integration %s: %s\", plugin, e\n            )\n            if not isinstance(e, ImportError):\n                return"),
 ("c20-log-fallback", "C20", LA, "            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)", "            tracepoint_logger.log_tracepoint(self.log, self.action.id, ctx.id)\n            ctx.config.plugins = [p for p in ctx.config.plugins]"),
 ("c20-resource-break", "C20", DP, "            except BaseException:\n                deep.logging.exception(\"Failed to process plugin resource", "            except Exception:\n                deep.logging.exception(\"Failed to process plugin resource"),
]
