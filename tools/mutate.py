#!/usr/bin/env python3
"""Mutation study: small changes of src/deep that the unit tests do not notice, run against the checks.

    mutate.py gen OUT.jsonl [FILE...]       list the mutants
    mutate.py run IN.jsonl RESULTS.jsonl [--workers 4] [--jobs 2]

Works in scratch copies under /tmp/mut; /repo is only read. Not part of any check.
"""
import argparse
import ast
import json
import os
import shutil
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
SLOW = ["tests/unit_tests/task/test_task.py::TestTask::test_flush", "tests/unit_tests/test_utils.py::test_repeated_timer_error",
        "tests/unit_tests/test_utils.py::test_repeated_timer"]


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.offs = [0]
        for ln in self.lines:
            self.offs.append(self.offs[-1] + len(ln.encode()))
        self.out = []
        self.b = src.encode()

    def pos(self, n):
        return self.offs[n.lineno - 1] + n.col_offset, self.offs[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def sub(self, n, new, kind):
        a, b = self.pos(n)
        self.out.append({"a": a, "b": b, "old": self.text(n), "new": new, "kind": kind, "line": n.lineno})

    def is_log(self, n):
        return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and "logging." in self.text(n.value.func)

    def body(self, stmts):
        for s in stmts:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if self.is_log(s):
                continue
            if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
                self.sub(s, "pass", "delete")
            if isinstance(s, ast.Return) and s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                self.sub(s, "return None", "return-none")
            if isinstance(s, ast.Return) and (s.value is None or isinstance(s.value, ast.Constant)):
                self.sub(s, "pass", "delete")
            if isinstance(s, ast.With):
                pass

    def visit(self, n):
        for f in ("body", "orelse", "finalbody"):
            v = getattr(n, f, None)
            if isinstance(v, list):
                if isinstance(n, ast.ClassDef):
                    continue
                self.body(v)
        if isinstance(n, (ast.If, ast.While)):
            self.sub(n.test, "(not (%s))" % self.text(n.test), "negate")
            self.sub(n.test, "True", "true")
            self.sub(n.test, "False", "false")
        if isinstance(n, ast.IfExp):
            self.sub(n, "(%s)" % self.text(n.body), "ifexp")
            self.sub(n, "(%s)" % self.text(n.orelse), "ifexp")
        if isinstance(n, ast.BoolOp):
            for i, v in enumerate(n.values):
                rest = [self.text(x) for j, x in enumerate(n.values) if j != i]
                op = " and " if isinstance(n.op, ast.And) else " or "
                self.sub(n, "(" + op.join(rest) + ")", "boolop-drop")
            op = " or " if isinstance(n.op, ast.And) else " and "
            self.sub(n, "(" + op.join("(%s)" % self.text(x) for x in n.values) + ")", "boolop-swap")
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ["<=", ">"], ast.LtE: ["<"], ast.Gt: [">=", "<"], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"],
                 ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
            for o in m.get(type(n.ops[0]), []):
                self.sub(n, "%s %s %s" % (self.text(n.left), o, self.text(n.comparators[0])), "compare")
        if isinstance(n, ast.Constant) and not getattr(n, "doc", False):
            v = n.value
            if v is True or v is False:
                self.sub(n, str(not v), "const")
            elif isinstance(v, int):
                self.sub(n, str(v + 1), "const")
                if v > 0:
                    self.sub(n, str(v - 1), "const")
            elif isinstance(v, str) and "\n" not in v:
                self.sub(n, repr(v + "x") if v else repr("x"), "const")
        if isinstance(n, ast.BinOp):
            m = {ast.Add: "-", ast.Sub: "+", ast.Mult: "//", ast.Div: "*", ast.FloorDiv: "*", ast.Mod: "*"}
            if type(n.op) in m and not isinstance(n.left, ast.Constant):
                self.sub(n, "%s %s %s" % (self.text(n.left), m[type(n.op)], self.text(n.right)), "arith")
            if isinstance(n.op, (ast.Add, ast.Sub)):
                self.sub(n, "(%s)" % self.text(n.left), "arith")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                for i in range(len(n.args) - 1):
                    a, b = n.args[i], n.args[i + 1]
                    s0, e0 = self.pos(a)
                    s1, e1 = self.pos(b)
                    new = self.b[s1:e1] + self.b[e0:s1] + self.b[s0:e0]
                    self.out.append({"a": s0, "b": e1, "old": self.b[s0:e1].decode(), "new": new.decode(), "kind": "swap-args", "line": a.lineno})
            if len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name) and n.func.id in ("list", "dict", "str", "tuple", "set", "sorted", "bool", "int", "float", "min", "max", "abs", "len", "reversed"):
                self.sub(n, self.text(n.args[0]), "unwrap")
            for k in n.keywords:
                s0, e0 = self.pos(k)
                pre = self.b[:s0].rstrip()
                if pre.endswith(b","):
                    s0 = len(pre) - 1
                self.out.append({"a": s0, "b": e0, "old": self.b[s0:e0].decode(), "new": "", "kind": "drop-kw", "line": n.lineno})
        if isinstance(n, ast.ExceptHandler):
            if n.type is not None:
                t = self.text(n.type)
                if t == "BaseException":
                    self.sub(n.type, "Exception", "except")
                elif t == "Exception":
                    self.sub(n.type, "ValueError", "except")
                else:
                    self.sub(n.type, "LookupError" if "Key" not in t else "ZeroDivisionError", "except")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            self.sub(n, self.text(n.operand), "unnot")
        if isinstance(n, ast.Slice):
            self.sub(n, ":", "slice")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.UnaryOp):
            pass
        if isinstance(n, ast.With):
            t = ", ".join(self.text(i.context_expr) for i in n.items)
            if "lock" in t.lower():
                a, b = self.pos(n.items[0].context_expr)
                self.out.append({"a": a, "b": b, "old": t, "new": "__import__('contextlib').suppress()", "kind": "unlock", "line": n.lineno})
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
                n.body[0].value.doc = True
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                pass
            if n.name in ("__str__", "__repr__", "__eq__", "__hash__"):
                return
        if self.is_log(n):
            return
        if isinstance(n, (ast.AnnAssign, ast.arg)):
            ann = n.annotation
            if ann is not None:
                for x in ast.walk(ann):
                    x.skip = True
        if isinstance(n, ast.FunctionDef) and n.returns is not None:
            for x in ast.walk(n.returns):
                x.skip = True
        for c in ast.iter_child_nodes(n):
            if not getattr(c, "skip", False):
                self.visit(c)


def gen(out, files):
    n = 0
    with open(out, "w") as f:
        for path in files:
            src = open(os.path.join(REPO, path)).read()
            g = Gen(src)
            g.visit(ast.parse(src))
            seen = set()
            for m in g.out:
                key = (m["a"], m["b"], m["new"])
                if key in seen or m["old"] == m["new"]:
                    continue
                seen.add(key)
                b = src.encode()
                text = (b[:m["a"]] + m["new"].encode() + b[m["b"]:]).decode()
                try:
                    compile(text, path, "exec")
                except SyntaxError:
                    continue
                m.update(file=path, id=n)
                n += 1
                f.write(json.dumps(m) + "\n")
    print(n, "mutants")


SPEED = ["C03", "C13", "C11", "C12", "C18", "C19", "C16", "C17", "C10", "C08", "C04", "C07", "C06", "C05", "C02", "C20", "C09", "C14", "C15", "C01"]


EXTRA = {"metric/otel_metrics.py": ["C17"], "metric/prometheus_metrics.py": ["C17"], "plugin/otel.py": ["C15", "C18", "C08"], "tracepoint/__init__.py": ["C02"],
         "tracepoint/constants.py": ["C04", "C10", "C15", "C16", "C17"], "deep/logging/__init__.py": ["C01", "C20"], "trigger.py": ["C10", "C15", "C16", "C17"],
         "eventsnapshot.py": ["C15", "C16"], "tracepoint_config.py": ["C17"], "deep/__init__.py": ["C14"], "plugin/python.py": ["C18"],
         "config/config_service.py": ["C16"], "poll.py": ["C08"], "action_results.py": ["C16"], "bfs/__init__.py": ["C06"], "utils.py": ["C04"],
         "action_context.py": ["C15", "C17"], "callback_context.py": ["C14"]}


def props_for(path):
    own = [p for e, ps in EXTRA.items() if path.endswith(e) for p in ps]
    for ln in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(ln)
        if path in p["anchors"]["files"]:
            own.append(p["id"])
    return own


def run(inp, res, workers, jobs, allchecks):
    muts = [json.loads(x) for x in open(inp)]
    done = set()
    if os.path.exists(res):
        done = {json.loads(x)["id"] for x in open(res)}
    queue = [m for m in muts if m["id"] not in done]
    lock = threading.Lock()
    root = "/tmp/mut"
    os.makedirs(root, exist_ok=True)
    vcopy = os.path.join(root, "verif")
    if os.path.exists(vcopy):
        shutil.rmtree(vcopy)
    shutil.copytree(VERIF, vcopy, ignore=shutil.ignore_patterns(".git", "replays", "evidence"))
    order = SPEED

    def work(i):
        tree = os.path.join(root, "w%d" % i)
        if os.path.exists(tree):
            shutil.rmtree(tree)
        subprocess.run(["cp", "-a", REPO, tree], check=True)
        vc = os.path.join(root, "v%d" % i)
        if os.path.exists(vc):
            shutil.rmtree(vc)
        shutil.copytree(vcopy, vc)
        os.makedirs(os.path.join(vc, "replays"), exist_ok=True)
        os.makedirs(os.path.join(vc, "evidence"), exist_ok=True)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        while True:
            with lock:
                if not queue:
                    break
                m = queue.pop(0)
            p = os.path.join(tree, m["file"])
            orig = open(os.path.join(REPO, m["file"]), "rb").read()
            assert orig[m["a"]:m["b"]].decode() == m["old"], "the tree has changed"
            open(p, "wb").write(orig[:m["a"]] + m["new"].encode() + orig[m["b"]:])
            r = dict(m)
            try:
                cmd = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=30", "tests/unit_tests"]
                for s in SLOW:
                    cmd += ["--deselect", s]
                try:
                    t = subprocess.run(cmd, cwd=tree, env=env, capture_output=True, timeout=100)
                    killed = t.returncode != 0
                except subprocess.TimeoutExpired:
                    killed = True
                if killed:
                    r["by"] = "unit"
                else:
                    cs = [c for c in order if c in props_for(m["file"])]
                    if allchecks:
                        cs += [c for c in order if c not in cs]
                    r["by"], r["errors"] = None, []
                    for c in cs:
                        e = dict(env, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick", VERIF_JOBS=str(jobs))
                        try:
                            t = subprocess.run([os.path.join(vc, "check.py"), c], cwd=vc, env=e, capture_output=True, timeout=900)
                            rc = t.returncode
                        except subprocess.TimeoutExpired:
                            rc = "timeout"
                        if rc == 1:
                            r["by"] = c
                            r["msg"] = t.stdout.decode(errors="replace")[:400]
                            break
                        if rc != 0:
                            r["errors"].append([c, rc, t.stdout.decode(errors="replace")[-600:] if rc != "timeout" else ""])
            finally:
                open(p, "wb").write(orig)
            with lock:
                with open(res, "a") as f:
                    f.write(json.dumps(r) + "\n")
        shutil.rmtree(tree)
        shutil.rmtree(vc)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("inp")
    ap.add_argument("rest", nargs="*")
    ap.add_argument("--workers", type=int, default=4)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--all", action="store_true")
    a = ap.parse_args()
    if a.what == "gen":
        files = a.rest or subprocess.run(["git", "-C", REPO, "ls-files", "src/deep/*.py"], capture_output=True, text=True).stdout.split()
        gen(a.inp, [f for f in files if not f.endswith("version.py")])
    else:
        run(a.inp, a.rest[0], a.workers, a.jobs, a.all)
