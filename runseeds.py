#!/usr/bin/env python3
"""Applies each seeded change to /repo, builds it, runs the stable tests, its demonstration and the check of its property, undoes it.

usage: runseeds.py [--no-tests] [--all-checks] [ID...]     (a tool of ours; no check uses it)
"""
import json, os, subprocess, sys, tempfile, pathlib
V = pathlib.Path(__file__).resolve().parent
R = "/repo"

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def demo(d):
    try:
        return sh(["bash", str(d / "demo.sh")], cwd=R, timeout=300).returncode
    except subprocess.TimeoutExpired:
        return "timeout"

def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    tests = "--no-tests" not in sys.argv
    stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
    for d in sorted((V / "seeded").iterdir()):
        if args and d.name not in args:
            continue
        meta = json.load(open(d / "meta.json"))
        prop = meta["property"]
        assert sh(["git", "-C", R, "status", "--porcelain"]).stdout == "", "repo not clean"
        clean = demo(d)
        res = {"clean demo": clean}
        ap = sh(["git", "-C", R, "apply", str(d / "patch.diff")])
        if ap.returncode:
            print(d.name, "PATCH DOES NOT APPLY", ap.stdout); continue
        try:
            if tests:
                with tempfile.NamedTemporaryFile(suffix=".json") as f:
                    t = sh(["bash", "/opt/vp/test.sh", f.name])
                    got = json.load(open(f.name))
                    missing = stable - set(got["passed"])
                    res["tests"] = "ok" if not missing else f"{len(missing)} FAIL {sorted(missing)[:2]} {t.stdout[-300:] if len(missing) > 300 else ''}"
            res["seeded demo"] = demo(d)
            c = sh(["python3", str(V / "check.py"), prop], env={**os.environ, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            hit = f"VIOLATION property={prop}" in c.stdout
            res["check"] = f"{'CAUGHT' if c.returncode == 1 and hit else 'MISSED'} exit {c.returncode}"
            line = [l for l in c.stdout.splitlines() if "VIOLATION" in l][:1]
            res["line"] = line[0][:160] if line else c.stdout[-200:]
        finally:
            sh(["git", "-C", R, "checkout", "--", "."])
        ok = clean == 0 and res["seeded demo"] not in (0,) and res.get("tests", "ok") == "ok" and res["check"].startswith("CAUGHT")
        print(("OK   " if ok else "LOOK ") + d.name, prop, res, flush=True)

main()
