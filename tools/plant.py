#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies and keeps them under /verif/seeded.

    plant.py SPEC.py [ID...] [--checks own|all|none]

SPEC.py defines PLANTS: dicts with id, property, needs, breaks, edits [(file, old, new)], demo (python source).
The demo is run as `/opt/venv/bin/python demo.py` with cwd at the tree and src on its path.
"""
import argparse
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
BASE = "0029464"
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
for k in $(env | grep -o '^DEEP_[A-Z_]*'); do unset "$k"; done
exec timeout 120 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd, timeout=600, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env, errors="replace")
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, "", "timeout")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("spec")
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--checks", default="own")
    ap.add_argument("--again", action="store_true")
    a = ap.parse_args()
    ns = {}
    exec(compile(open(a.spec).read(), a.spec, "exec"), ns)
    for p in ns["PLANTS"]:
        if a.ids and p["id"] not in a.ids:
            continue
        out = os.path.join(VERIF, "seeded", p["id"])
        if os.path.exists(out) and not a.again and not a.ids:
            continue
        print("==", p["id"], p["property"], flush=True)
        tmp = tempfile.mkdtemp(prefix="plant-")
        try:
            one(p, out, tmp, a.checks, ns.get("LIB", ""))
        finally:
            shutil.rmtree(tmp)


def one(p, out, tmp, checks, ns_lib):
    tree = os.path.join(tmp, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", tree], check=True)
    for f, old, new in p["edits"]:
        path = os.path.join(tree, f)
        s = open(path).read()
        if s.count(old) != 1:
            print("   edit does not apply (%d matches): %s: %r" % (s.count(old), f, old[:80]))
            return
        open(path, "w").write(s.replace(old, new))
    diff = sh(["git", "diff"], tree).stdout
    # at least one changed line has to be of the original
    base_lines = set()
    for f in sh(["git", "ls-tree", "-r", "--name-only", BASE], tree).stdout.split():
        if f.endswith(".py"):
            base_lines |= {ln.strip() for ln in sh(["git", "show", BASE + ":" + f], tree).stdout.splitlines()}
    blame_ok = False
    for f in {e[0] for e in p["edits"]}:
        d = sh(["git", "diff", "-U0", f], tree).stdout
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", d, re.M):
            n = int(m.group(2) or 1)
            if n == 0:
                continue
            bl = sh(["git", "blame", "-s", "-L", "%s,+%d" % (m.group(1), n), "HEAD", "--", f], tree).stdout
            added = sh(["git", "log", "--format=%h", BASE + "..HEAD"], tree).stdout.split()
            for ln in bl.splitlines():
                c = ln.split()[0].lstrip("^")
                if not any(c.startswith(x) or x.startswith(c) for x in added):
                    blame_ok = True
                elif ln.split(")", 1)[-1].strip():
                    print("   line of a fix changed:", ln.split(")", 1)[-1].strip()[:100])
    keep = blame_ok
    if not keep:
        print("   NO ORIGINAL LINE CHANGED: run, not kept")
    demo = os.path.join(tmp, "demo")
    os.makedirs(demo)
    open(os.path.join(demo, "demo.py"), "w").write(ns_lib + p["demo"])
    open(os.path.join(demo, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(demo, "demo.sh"), 0o755)
    r = sh(["bash", os.path.join(demo, "demo.sh")], tree)
    bad = r.returncode
    badout = (r.stdout + r.stderr)[-500:]
    r = sh(["bash", os.path.join(demo, "demo.sh")], "/repo")
    good = r.returncode
    if bad == 0 or good != 0:
        print("   DEMO: patched rc=%s clean rc=%s\n%s\n---\n%s" % (bad, good, badout, (r.stdout + r.stderr)[-1500:]))
        return
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    for d in ("tests/unit_tests", "tests/it_tests"):
        r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=100", d], tree, env=env)
        if r.returncode != 0:
            print("   TESTS FAIL", d, r.stdout[-1500:])
            return
    if os.path.exists(out):
        shutil.rmtree(out)
    if not keep:
        out = os.path.join(tmp, "out")
    shutil.copytree(demo, out)
    open(os.path.join(out, "patch.diff"), "w").write(diff)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
    print("   kept; demo says:", badout.strip().splitlines()[-1][:160] if badout.strip() else "")
    if checks == "none":
        return
    names = [p["property"]] if checks == "own" else ["C%02d" % i for i in range(1, 21)]
    for c in names:
        e = dict(env, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick")
        r = sh([os.path.join(VERIF, "check.py"), c], VERIF, timeout=900, env=e)
        print("   %s %s rc=%s  %s" % (p["id"], c, r.returncode, " | ".join(r.stdout.strip().splitlines())[:260] if r.returncode else "MISSED" if c == p["property"] else "quiet"),
              flush=True)


main()
