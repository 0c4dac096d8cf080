#!/usr/bin/env python3
"""Generate and confirm /verif/seeded/<id>/ from tools/bugs/<id>.py (plant.py [id ...]).

A bug file defines PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO (main.rs).
Confirmation: it builds, passes the repository's tests, and the demo tells it from the unchanged tree.
/repo is patched only while this runs, and restored."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
ids = sys.argv[1:] or sorted(f[:-3] for f in os.listdir(here + "/bugs") if f.endswith(".py"))
def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def load(i):
    s = importlib.util.spec_from_file_location(i, f"{here}/bugs/{i}.py"); m = importlib.util.module_from_spec(s); s.loader.exec_module(m); return m
assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "/repo is not clean"
for i in ids:
    b = load(i); d = f"{root}/seeded/{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d + "/demo/src")
    try:
        for f, old, new in b.EDITS:
            p = "/repo/" + f; s = open(p).read()
            assert s.count(old) == 1, (i, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git", "-C", "/repo", "diff").stdout)
        for f in ("Cargo.toml", "Cargo.lock"):
            shutil.copy(f"{here}/demo_kit/{f}", d + "/demo/" + f)
        shutil.copy(f"{here}/demo_kit/src/kit.rs", d + "/demo/src/kit.rs")
        shutil.copy(f"{here}/demo_kit/demo.sh", d + "/demo.sh"); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo/src/main.rs", "w").write(b.DEMO.lstrip("\n"))
        json.dump({"property": b.PROPERTY, "needs": b.NEEDS, "what_it_breaks": b.BREAKS}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash", "/opt/vp/build.sh"); ok = r.returncode == 0
        if not ok: print(i, "BUILD FAILS", r.stdout[-2500:]); continue
        warn = [l for l in r.stdout.splitlines() if l.startswith("warning")]
        t = tempfile.mktemp(suffix=".json"); sh("bash", "/opt/vp/test.sh", t); res = json.load(open(t)); os.remove(t)
        base = json.load(open("/opt/vp/BASELINE.json"))
        bad = sh("bash", d + "/demo.sh", cwd="/repo")
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    good = sh("bash", d + "/demo.sh", cwd="/repo")
    print(i, b.PROPERTY, f"passed {len(res['passed'])} failed {res['failed']}", "demo clean", good.returncode, "patched", bad.returncode,
          "OK" if len(res["passed"]) >= 8 and not res["failed"] and good.returncode == 0 and bad.returncode not in (0, 3) else "NOT OK", warn[:2],
          bad.stdout[-300:].strip() if good.returncode == 0 else good.stdout[-1500:], flush=True)
sh("bash", "/opt/vp/build.sh")
