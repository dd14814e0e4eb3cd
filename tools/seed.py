#!/usr/bin/env python3
"""tools/seed.py new ID PROP 'needs' 'what': turns /repo's uncommitted diff into seeded/ID (demo files beforehand in
seeded/ID); tools/seed.py test ID...: apply, build, test, demo, check, undo."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    r = sh("bash /opt/vp/build.sh")
    return r.returncode == 0 or print(r.stdout[-2000:])
def demo(d):
    # demos run from a copied folder, as in the final check
    t = "/tmp/seed-demo"
    sh(f"rm -rf /tmp/seed-demo; cp -a {d} {t}; rm -f {t}/*.diff {t}/meta.json")
    r = sh(f"timeout 300 bash {t}/demo.sh", cwd="/repo")
    sh("rm -rf /tmp/seed-demo")
    return r.returncode, r.stdout[-600:]
if sys.argv[1] == "new":
    i, p, needs, what = sys.argv[2:6]
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    diff = sh("git -C /repo diff").stdout
    assert diff
    open(f"{d}/patch.diff", "w").write(diff)
    json.dump({"property": p, "needs": needs, "what_it_breaks": what}, open(f"{d}/meta.json", "w"), indent=1)
    sh("git -C /repo checkout -- .")
    ids = [i]
    mode = "test"
else:
    mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(f"{V}/seeded"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
for i in ids:
    d = f"{V}/seeded/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    res = {}
    if mode != "check":
        build()
        res["demo_clean"] = demo(d)[0]
    assert not sh("git -C /repo status --porcelain").stdout, "repo dirty"
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode:
        print(i, "APPLY FAILED", r.stdout); continue
    try:
        if mode != "check":
            res["build"] = bool(build())
            sh("bash /opt/vp/test.sh /tmp/seed-t.json")
            t = json.load(open("/tmp/seed-t.json"))
            res["lost_tests"] = sorted(stable - set(t["passed"]))[:5]
            rc, out = demo(d)
            res["demo_bug"] = rc
            res["demo_out"] = out if rc == 0 else out[-150:]
        props = sys.argv[6:] if sys.argv[1] == "new" else []
        t0 = time.time()
        r = sh(f"python3 {V}/check.py {prop} --tier quick", cwd=V)
        res["check"] = r.returncode
        res["caught"] = f"VIOLATION property={prop}" in r.stdout
        res["t"] = round(time.time() - t0, 1)
        res["msg"] = [l for l in r.stdout.splitlines() if l.startswith(("suite", "case", "error"))][:2] or r.stdout[-500:]
    finally:
        sh("git -C /repo checkout -- .")
    ok = res["caught"] and res.get("demo_clean", 0) == 0 and res.get("demo_bug", 1) != 0 and res.get("build", True) and not res.get("lost_tests")
    print("OK " if ok else "BAD", i, prop, json.dumps(res), flush=True)
if mode != "check":
    build()
