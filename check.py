#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--part NAME]

Runs every part of the property's check, each in its own process(es). Exit 0: held on everything explored.
Exit 1 with `VIOLATION property=<id> replay=<path>`: broken. Exit 2: the check itself failed.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)) if k["property"] == prop and k["status"] == "known"]


def worker(args):
    sys.path.insert(0, VERIF)
    from vlib import boot, core
    mod_peek = args.worker
    # parts that must control the import of deep say so in PARTS_NO_PRELOAD
    src = open(os.path.join(VERIF, "props", mod_peek.lower() + ".py")).read()
    preload = "NO_PRELOAD = True" not in src
    boot.setup(import_deep=preload)
    mod = importlib.import_module("props." + mod_peek.lower())
    part = {p.name: p for p in mod.PARTS}[args.part]
    known = {k["sig"] for k in load_known(args.worker)}
    w = core.Worker(args.worker, part, args.shard, args.nshards, args.tier, args.seed, known, args.out)
    if args.replay:
        if part.setup:
            part.setup()
        import threading
        threading.Thread(target=w._watch, daemon=True).start()
        case = json.load(open(args.replay))["case"]
        for _ in range(part.flaky_replays):
            try:
                w.guard(case)
            except core.Violation:
                break
        w.write("violation" if w.fail else "ok")
    else:
        w.main()
    sys.stdout.flush()
    os._exit(0)


def spawn(prop, part, shard, nshards, tier, seed, out, scratch, replay=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", VERIF_SCRATCH=scratch, TMPDIR=scratch,
               PYTHONPATH="")
    for k in [k for k in env if k.startswith("DEEP_")]:
        del env[k]
    cmd = [PY, os.path.join(VERIF, "check.py"), "--worker", prop, "--part", part, "--shard", str(shard),
           "--nshards", str(nshards), "--tier", tier, "--seed", str(seed), "--out", out]
    if replay:
        cmd += ["--replay", replay]
    log = open(out + ".log", "wb")
    return subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, cwd=scratch, env=env)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--part")
    ap.add_argument("--worker")
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("-v", action="store_true")
    args = ap.parse_args()
    if args.worker:
        return worker(args)
    t0 = time.monotonic()
    prop = args.prop
    # the part list is obtained without importing the code under test
    sys.path.insert(0, VERIF)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return drive(args, prop, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def list_parts(prop, scratch):
    code = ("import sys,json;sys.path.insert(0,%r)\nfrom vlib import boot\nimport os\n"
            "boot.setup(import_deep=('NO_PRELOAD = True' not in open(os.path.join(%r,'props',%r)).read()))\n"
            "import importlib\nm=importlib.import_module(%r)\n"
            "print('PARTS='+json.dumps([dict(name=p.name,shards=p.shards,tshards=p.thorough_shards,rule=p.rule) "
            "for p in m.PARTS]));print('META='+json.dumps(getattr(m,'META',{})))\n"
            "sys.stdout.flush();os._exit(0)"
            % (VERIF, VERIF, prop.lower() + ".py", "props." + prop.lower()))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH="", VERIF_SCRATCH=scratch)
    r = subprocess.run([PY, "-c", code], capture_output=True, text=True, cwd=scratch, env=env, timeout=120)
    parts = meta = None
    for ln in r.stdout.splitlines():
        if ln.startswith("PARTS="):
            parts = json.loads(ln[6:])
        if ln.startswith("META="):
            meta = json.loads(ln[5:])
    if parts is None:
        print("cannot load props/%s.py:\n%s" % (prop.lower(), r.stderr[-4000:]))
        sys.exit(2)
    return parts, meta


def drive(args, prop, t0, scratch):
    parts, meta = list_parts(prop, scratch)
    if args.replay:
        rp = json.load(open(args.replay))
        out = os.path.join(scratch, "replay.json")
        p = spawn(prop, rp["part"], 0, 1, args.tier, args.seed, out, scratch, replay=os.path.abspath(args.replay))
        p.wait()
        res = json.load(open(out)) if os.path.exists(out) else {"status": "error", "error": open(out + ".log").read()}
        if res["status"] == "violation":
            print(res["fail"]["msg"])
            print("VIOLATION property=%s replay=%s" % (prop, args.replay))
            return 1
        print(res["status"], res.get("error") or "")
        return 0 if res["status"] == "ok" else 2
    jobs = []
    for p in parts:
        if args.part and p["name"] != args.part:
            continue
        n = p["shards"] if args.tier == "quick" else p["tshards"]
        for s in range(n):
            jobs.append((p["name"], s, n))
    running, results = [], []
    queue = list(jobs)
    errors, failed = [], None
    while queue or running:
        while queue and len(running) < args.jobs and failed is None:
            name, s, n = queue.pop(0)
            out = os.path.join(scratch, "%s-%d.json" % (name, s))
            sdir = os.path.join(scratch, "w-%s-%d" % (name, s))
            os.makedirs(sdir)
            running.append((name, s, out, spawn(prop, name, s, n, args.tier, args.seed, out, sdir), sdir,
                            time.monotonic()))
        if failed is not None:
            queue = []
        time.sleep(0.05)
        still = []
        for r in running:
            name, s, out, proc, sdir, st = r
            if proc.poll() is None:
                still.append(r)
                continue
            if os.path.exists(out):
                res = json.load(open(out, encoding="utf-8", errors="surrogatepass"))
            else:
                res = {"status": "error", "error": "worker died rc=%s: %s" % (
                    proc.returncode, open(out + ".log", errors="replace").read()[-3000:])}
            res["part"], res["wall"] = name, time.monotonic() - st
            results.append(res)
            shutil.rmtree(sdir, ignore_errors=True)
            if res["status"] == "error":
                errors.append((name, res["error"]))
            elif res["status"] == "violation" and failed is None:
                failed = res
            if args.v:
                print("%-28s shard %d %s evals=%s nontriv=%s %.1fs %s%s" % (
                    name, s, res["status"], res.get("evals"), len(res.get("nontrivial", [])), res["wall"],
                    json.dumps(res.get("labels")), " DEADLINE" if res.get("deadline_hit") else ""), flush=True)
                if res.get("slowest", [0])[0] > 5:
                    print("   slowest case %.1fs: %s" % (res["slowest"][0], json.dumps(res["slowest"][1])[:30000]), flush=True)
        running = still
        if failed is not None and running:
            # give other shards no more time: the answer is known
            for r in running:
                r[3].kill()
                r[3].wait()
            running = []
    wall = time.monotonic() - t0
    known = load_known(prop)
    write_evidence(args, prop, parts, meta, results, wall, 1 if failed else 0)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if failed is not None:
        if args.v:
            for name, e in errors:
                print("CHECK ERROR in %s: %s" % (name, e))
        f = failed["fail"]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, failed["part"]))
        with open(path, "w", encoding="utf-8", errors="surrogatepass") as fh:
            json.dump({"property": prop, "part": failed["part"], "case": f["case"], "msg": f["msg"], "sig": f["sig"],
                       "seed": args.seed, "tier": args.tier}, fh, indent=1)
        print("[%s] %s" % (failed["part"], f["msg"].encode("utf-8", "replace").decode()))
        print("case: %s" % json.dumps(f["case"])[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for name, e in errors:
            print("CHECK ERROR in %s: %s" % (name, e))
        return 2
    ev = sum(r.get("evals", 0) for r in results)
    nt = sum(len(set(r.get("nontrivial", []))) for r in results)
    print("OK property=%s evaluations=%d nontrivial=%d wall=%.1fs" % (prop, ev, nt, wall))
    return 0


def write_evidence(args, prop, parts, meta, results, wall, violations):
    ids, evals, samples, per = set(), 0, [], {}
    for r in results:
        evals += r.get("evals", 0)
        ids |= {(r["part"], k) for k in r.get("nontrivial", [])}
        for s in r.get("samples", []):
            if len([x for x in samples if x["part"] == s["part"]]) < 2:
                samples.append(s)
        d = per.setdefault(r["part"], {"evaluations": 0, "labels": {}, "stopped_by_time_budget": False})
        d["evaluations"] += r.get("evals", 0)
        d["stopped_by_time_budget"] |= bool(r.get("deadline_hit"))
        for k, v in (r.get("labels") or {}).items():
            d["labels"][k] = d["labels"].get(k, 0) + v
    rules = "; ".join("%s: %s" % (p["name"], p["rule"]) for p in parts if p["rule"])
    ev = {"property": prop, "tier": args.tier, "seed": args.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(ids), "rule": rules or "see DESIGN.md",
                       "samples": samples, "parts": per},
          "assumptions": (meta or {}).get("assumptions", []), "wall_s": round(wall, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w", encoding="utf-8", errors="surrogatepass") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
