"""Semantic mutants around snapshots, spans, callbacks, windows, functions and the life of pending work."""
ES = "api/tracepoint/eventsnapshot.py"
SP = "processor/context/span_action.py"
SA = "processor/context/snapshot_action.py"
CB = "processor/context/callback_context.py"
AC = "processor/context/action_context.py"
TP = "api/tracepoint/tracepoint_config.py"
TR = "api/tracepoint/trigger.py"
TH = "processor/trigger_handler.py"
TX = "processor/context/trigger_context.py"
BF = "processor/bfs/__init__.py"
FC = "processor/frame_collector.py"
VP = "processor/variable_processor.py"
HAND = [
    ("c08-merge-first", "C08", ES, "        self._var_lookup.update(lookup)\n", "        for k, v in lookup.items():\n            self._var_lookup.setdefault(str(int(k)), v)\n"),
    ("c07-merge-first", "C07", ES, "        self._var_lookup.update(lookup)\n", "        self._var_lookup.update({k: v for k, v in lookup.items() if v.children or len(k) < 3})\n"),
    ("c05-bfs-order", "C05", BF, "            queue += pop.children\n", "            queue.extendleft(reversed(pop.children)) if pop.depth > 2 else queue.extend(pop.children)\n"),
    ("c05-depth-off", "C05", BF, "            child._depth = self._depth + 1\n", "            child._depth = max(self._depth, child._depth) + 1\n"),
    ("c02-orig", "C02", BF, "        if original_name is not None and name != original_name:", "        if original_name and name != original_name:"),
    ("c15-span-one", "C15", SP, "            except BaseException:\n                deep.logging.exception(\"Failed to close span from",
     "            except Exception:\n                deep.logging.exception(\"Failed to close span from"),
    ("c06-span-one", "C06", SP, "            except BaseException:\n                deep.logging.exception(\"Failed to create span with",
     "            except Exception:\n                deep.logging.exception(\"Failed to create span with"),
    ("c20-span-none", "C20", SP, "                if span is not None:\n                    spans.append(span)\n", "                if span is None:\n                    break\n                spans.append(span)\n"),
    ("c15-span-falsy", "C15", SP, "                if span is not None:\n", "                if span:\n"),
    ("c15-span-name", "C15", SP, "            return location.name or self.trigger_context.frame.f_code.co_name", "            return location.name"),
    ("c02-frames-limit", "C02", SA, "        if config_type == ALL_FRAME_TYPE:\n            return True\n", "        if config_type == ALL_FRAME_TYPE:\n            return current_frame_index < 100\n"),
    ("c05-limit-none", "C05", SA, "        return limit if limit >= 0 else default_value", "        return limit if limit > 0 else default_value"),
    ("c05-default", "C05", SA, "config.max_collection_size = self.__get_limit(MAX_COLLECTION_SIZE, config.DEFAULT_MAX_COLLECTION_SIZE)",
     "config.max_collection_size = self.__get_limit(MAX_COLLECTION_SIZE, config.DEFAULT_MAX_STRING_LENGTH)"),
    ("c15-capture-twice", "C15", SA, "        if event in ['exception', 'return']:\n            try:\n", "        if event in ['exception', 'return'] and not any(w.source == WATCH_SOURCE_CAPTURE for w in self.__snapshot.watches):\n            try:\n"),
    ("c15-capture-none", "C15", SA, "        if event in ['exception', 'return']:\n            try:\n", "        if event == 'exception' or (event == 'return' and frame is not None and arg is not NotImplemented):\n            try:\n"),
    ("c06-dec-attr", "C06", SA, "                if decorate is not None:\n                    attributes.merge_in(decorate)\n", "                if decorate is not None:\n                    attributes = attributes.merge_in(decorate) or attributes\n"),
    ("c20-dec-over", "C20", SA, "                if decorate is not None:\n                    attributes.merge_in(decorate)\n", "                if decorate:\n                    attributes.merge_in({k: v for k, v in decorate.items() if k not in ('context', 'tracepoint')})\n"),
    ("c16-dec-id", "C16", SA, "LocationAction(self.location_action.id, None, {", "LocationAction(self.location_action.tracepoint.path, None, {"),
    ("c15-running", "C15", CB, "            if self.__is_running(frame):\n                return False\n", "            if self.__is_running(frame.f_back):\n                return False\n"),
    ("c15-running-one", "C15", CB, "            frame = frame.f_back\n        return False", "            frame = frame.f_back and frame.f_back.f_back\n        return False"),
    ("c15-lasti", "C15", CB, "            self.__last_raise = None\n            self.__handling", "            self.__handling"),
    ("c15-unwind-const", "C15", CB, "        if op_name in ('RETURN_VALUE', 'RETURN_CONST'):", "        if op_name == 'RETURN_VALUE':"),
    ("c15-send", "C15", CB, "        if op_name.startswith(('YIELD', 'SEND')):", "        if op_name.startswith('YIELD'):"),
    ("c15-handler", "C15", CB, "            if self.__handling[1] is None and not self.__is_handler_start(frame):", "            if self.__handling[1] is None:"),
    ("c15-arg-none2", "C15", CB, "        if event != 'return' or arg is not None or", "        if event != 'return' or arg or"),
    ("c10-err-str", "C10", AC, "        return str2bool(str(result))\n", "        return bool(result) and str2bool(str(result))\n"),
    ("c10-cond-len", "C10", AC, "if self.location_action.condition is None or len(self.location_action.condition.strip()) == 0:", "if not (self.location_action.condition or '').strip(' ('):"),
    ("c16-watch-err", "C16", AC, "            if variable_id is None:\n                return WatchResult(source, watch, None, NO_SPACE_FOR_VARIABLE), {}, log_str\n            return WatchResult(source, watch, variable_id)",
     "            if variable_id is None:\n                return WatchResult(source, watch, None, NO_SPACE_FOR_VARIABLE), {}, NO_SPACE_FOR_VARIABLE\n            return WatchResult(source, watch, variable_id)"),
    ("c04-win-neg", "C04", TP, "        if self._start > 0 and self._end == 0:\n            return self._start <= ts\n", "        if self._start > 0 and self._end <= self._start:\n            return self._start <= ts\n"),
    ("c04-win-swap", "C04", TP, "        return self._start <= ts <= self._end\n", "        return min(self._start, self._end) <= ts <= max(self._start, self._end)\n"),
    ("c04-first-zero", "C04", TR, "        if last_fire != 0 and fire_period > 0:", "        if last_fire > self.__window._start * 1_000_000 and fire_period > 0:"),
    ("c04-period-ms", "C04", TR, "            if time_since_last < fire_period:", "            if time_since_last // 1_000_000 * 1_000_000 < fire_period - 1_000_000:"),
    ("c04-count-minus", "C04", TR, "        if self.fire_count != -1 and", "        if self.fire_count >= -1 and self.fire_count != -1 and"),
    ("c03-inner", "C03", TR, "                if found is not None:\n                    return found\n", "                if found is not None and found.co_name != code.co_name:\n                    return found\n"),
    ("c03-firstline", "C03", TR, "code.co_firstlineno <= self.__source_line <= last_line", "code.co_firstlineno < self.__source_line <= last_line"),
    ("c03-lambda", "C03", TR, "and not code.co_name.startswith('<')", "and code.co_name != '<lambda>'"),
    ("c11-id-func", "C11", TR, "            return \"%s#function:%s\" % (self.path, self.__source_line)", "            return \"%s#function\" % self.path"),
    ("c11-id-line", "C11", TR, "        return \"%s#%s\" % (self.path, self.__function_name)", "        return \"%s#%s\" % (self.path, self.__function_name.lower())"),
    ("c12-share-actions", "C12", TH, "        self._tp_config = new_config\n", "        self._tp_config[:] = new_config\n"),
    ("c03-cfg-reread", "C03", TH, "        if len(tp_config) == 0:\n            return None\n", "        if len(self._tp_config) == 0:\n            return None\n"),
    ("c01-restore-line", "C01", TH, "        if frame.f_trace == self.trace_call:\n            frame.f_trace = None\n", "        frame.f_trace = None\n"),
    ("c14-restore-other", "C14", TH, "self.__old_sys_trace if self.__start_thread.value else self.__old_thread_trace", "self.__old_thread_trace or self.__old_sys_trace"),
    ("c14-start-mark", "C14", TH, "        self.__start_thread = ThreadLocal(lambda: False)\n        self.__start_thread.set(True)\n", "        self.__start_thread.set(True)\n"),
    ("c06-deep-results", "C06", TX, "            except BaseException:\n                deep.logging.exception(\"Failed to process result", "            except Exception:\n                deep.logging.exception(\"Failed to process result"),
    ("c10-future", "C10", TX, "\"eval\", dont_inherit=True)", "\"eval\")"),
    ("c10-lstrip", "C10", TX, "expression.lstrip(\" \\t\")", "expression.strip()"),
    ("c02-class-none", "C02", FC, "        if _self is None:\n            return None\n", "        if not isinstance(_self, object) or _self is None or isinstance(_self, (int, str)):\n            return None\n"),
    ("c02-self-cell", "C02", FC, "self._get_class_name(f_locals.get('self', None))", "self._get_class_name(f_locals.get('self', None) if 'self' in frame.f_code.co_varnames else None)"),
    ("c02-mod-dunder", "C02", VP, "    if var_name.startswith(\"__\"):\n", "    if var_name.startswith(\"__\") and not var_name.endswith(\"__\"):\n"),
    ("c05-list-cut", "C05", VP, "        if total >= var_collector.max_collection_size:", "        if total >= max(var_collector.max_collection_size, 1):"),
    ("c06-exc-args", "C06", VP, "    elif issubclass(variable_type, Exception):", "    elif issubclass(variable_type, BaseException):"),
]
