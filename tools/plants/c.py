ns = {}
exec(compile(open("/verif/tools/plants/a.py").read(), "a.py", "exec"), ns)
LIB = ns["LIB"]

PLANTS = [
    dict(id="c06-shared-frames", property="C06",
         needs="Two snapshot tracepoints with the same limits due at one event, both with watches that are no plain variables.",
         breaks="The frames collected at an event are shared by its snapshots, with their variable table: the watch of one snapshot overwrites the "
                "variables of the watch of the other.",
         edits=[("src/deep/processor/context/snapshot_action.py",
                 "        snapshot = EventSnapshot(self.location_action.tracepoint, self.trigger_context.ts,\n"
                 "                                 self.trigger_context.resource, frames, variables)\n",
                 "        limits = self.collection_config\n"
                 "        key = (self.location_action.config.get(FRAME_TYPE), limits.max_string_length, limits.max_collection_size,\n"
                 "               limits.max_variables, limits.max_var_depth)\n"
                 "        # all the snapshots of this event have the same frames\n"
                 "        collected = self.trigger_context.__dict__.setdefault('collected', {})\n"
                 "        frames, variables = collected.setdefault(key, (frames, variables))\n"
                 "        snapshot = EventSnapshot(self.location_action.tracepoint, self.ts,\n"
                 "                                 self.trigger_context.resource, frames, variables)\n")],
         demo=r'''
ns = program("""def main():
    a = 1
    b = 2
    return a + b
""")
h, push, _ = agent(tp(4, id="one", watches=["'first %s' % a"]), tp(4, id="two", watches=["'second %s' % b"]))
run(h, ns["main"])
got = {s.tracepoint.id: s.var_lookup[s.watches[0].result.vid].value for s in push.snapshots}
assert got == {"one": "first 1", "two": "second 2"}, got
'''),
    dict(id="c16-repeat", property="C16",
         needs="A log tracepoint that gives the same text at two hits, one after the other.",
         breaks="A message that repeats the one before it is not logged, although the hit is permitted (and counted).",
         edits=[("src/deep/processor/context/log_action.py", "        if tracepoint_logger:\n",
                 "        repeated = self.action.__dict__.get('last_log') == self.log\n"
                 "        self.action.__dict__['last_log'] = self.log\n"
                 "        if tracepoint_logger and not repeated:\n")],
         demo=r'''
ns = program("""def main():
    out = []
    for i in (1, 1, 2):
        out.append(i)
    return out
""")
log = Logger()
h, push, _ = agent(tp(4, {"log_msg": "i={i}", "snapshot": "no_collect"}), plugins=[log])
run(h, ns["main"])
got = [m for m, _, _ in log.lines]
assert got == ["[deep] i=1", "[deep] i=1", "[deep] i=2"], got
'''),
]
