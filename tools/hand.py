#!/usr/bin/env python3
"""Hand-written semantic mutants: hand.py SPEC.py [ID...]  (SPEC: HAND = [(id, property, file, old, new), ...])

Prints whether the unit tests notice, and whether the check of the property does. Works in scratch copies; /repo is only read.
"""
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
S = "src/deep/"
for mid, prop, f, old, new in ns["HAND"]:
    if only and mid not in only:
        continue
    tmp = tempfile.mkdtemp(prefix="hand-")
    tree = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", tree], check=True)
    edits = [(f, old, new)] if isinstance(old, str) else [(f, o, n) for o, n in zip(old, new)]
    ok = True
    for f_, o, n in edits:
        p = os.path.join(tree, S, f_)
        s = open(p).read()
        if s.count(o) != 1:
            print("%-28s %s EDIT: %d matches of %r" % (mid, prop, s.count(o), o[:60]), flush=True)
            ok = False
            break
        open(p, "w").write(s.replace(o, n))
    if ok:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        t = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--timeout=60", "tests/unit_tests"], cwd=tree, env=env, capture_output=True, text=True)
        unit = "unit-kills" if t.returncode else "unit-ok"
        if t.returncode and "-f" not in os.environ.get("HAND", ""):
            print("%-28s %s %s %s" % (mid, prop, unit, [x for x in t.stdout.splitlines() if "Error" in x][-1:]), flush=True)
        else:
            for c in prop.split("+"):
                e = dict(env, VERIF_REPO=tree, VERIF_SEED="1", VERIF_TIER="quick")
                t = subprocess.run([os.path.join(VERIF, "check.py"), c] + (["--part", os.environ["HAND_PART"]] if "HAND_PART" in os.environ else []), cwd=VERIF, env=e, capture_output=True, text=True)
                lines = [x for x in t.stdout.splitlines() if not x.startswith("KNOWN")]
                print("%-28s %s %s rc=%d %s" % (mid, c, unit, t.returncode, (" | ".join(lines)[:200] if t.returncode else "MISSED")), flush=True)
    shutil.rmtree(tmp)
