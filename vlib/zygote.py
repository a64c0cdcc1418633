"""A process that has loaded what the agent needs, but not the agent, and forks a fresh interpreter state for each case.

    z = Zygote("props.c19", "child")     # child(case) -> JSON-able, runs in the fork
    z.ask(case)
"""
import json
import os
import subprocess
import sys

from . import boot
from .core import HarnessError

MAIN = r'''
import importlib, json, os, sys, traceback
sys.path.insert(0, %(verif)r)
from vlib import boot
boot.setup(import_deep=False, clock=False)
for m in %(preload)r:
    importlib.import_module(m)
assert not [m for m in sys.modules if m == "deep" or m.startswith("deep.")], "deep is loaded"
mod = importlib.import_module(%(module)r)
fn = getattr(mod, %(fn)r)
inp = sys.stdin
out = os.dup(1)
os.dup2(2, 1)
while True:
    line = inp.readline()
    if not line:
        break
    case = json.loads(line)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            res = {"ok": fn(case)}
        except BaseException as e:
            res = {"error": type(e).__name__, "trace": traceback.format_exc()[-3000:]}
        data = json.dumps(res).encode()
        while data:
            data = data[os.write(w, data):]
        os._exit(0)
    os.close(w)
    data = b""
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not data:
        data = json.dumps({"error": "died", "trace": "status %%d" %% status}).encode()
    os.write(out, data + b"\n")
'''


class Zygote:
    def __init__(self, module, fn, preload=("grpc", "deepproto.proto.poll.v1.poll_pb2", "deepproto.proto.tracepoint.v1.tracepoint_pb2", "logging.config",
                                            "concurrent.futures", "uuid", "inspect", "prometheus_client", "opentelemetry.trace", "opentelemetry.sdk.trace",
                                            "opentelemetry.metrics")):
        env = {k: v for k, v in os.environ.items() if not k.startswith("DEEP_")}
        self.p = subprocess.Popen([sys.executable, "-c", MAIN % {"verif": boot.VERIF, "preload": list(preload), "module": module, "fn": fn}],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, env=env, cwd="/")

    def ask(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise HarnessError("the zygote has died")
        return json.loads(line)
