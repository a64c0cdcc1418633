"""A plugin that the agent loads by name; it records what tracepoints log. What it does is set by the harness."""
from deep.api.plugin import Plugin, TracepointLogger  # noqa: F401

LOGS = []


class RecordingLogger(TracepointLogger):
    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        LOGS.append((log_msg, tp_id))
