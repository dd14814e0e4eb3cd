#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import argparse, json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import build, core, registry


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    a = ap.parse_args()
    spec = registry.CHECKS[a.prop]
    try:
        bins = {n: f() for n, f in spec.get("build", {}).items()}
    except build.BuildError as e:
        print("error: /repo does not build with the harness:\n" + str(e), file=sys.stderr)
        return 2
    if a.replay:
        d = json.load(open(a.replay))
        args = ["--replay", d["suite"]] + [str(x) for x in d["case"]]
        if d["runner"].endswith(".py"):
            cmd = [core.PY, os.path.join(core.VERIF, "pychecks", d["runner"])]
            args = ["--replay", d["suite"], json.dumps(d["case"])]
            env = dict(os.environ, PYTHONPATH="/repo:" + core.VERIF)
        else:
            cmd, env = [next(b for b in bins.values() if os.path.basename(b) == d["runner"])], dict(os.environ)
        if "rec" in bins:
            env["VH_REC"] = bins["rec"]
        if a.tier == "thorough":
            cmd.append("--thorough")
        return subprocess.run(cmd + args, env=env).returncode
    c = core.Check(a.prop, a.tier, spec["level"], spec["technique"], spec.get("assumptions", ()))
    spec["run"](c, bins)
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
