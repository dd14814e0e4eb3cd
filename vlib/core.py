"""Runs the suites of one property, writes its evidence file and reports violations."""
import atexit, json, os, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/vp/venv/bin/python" if os.path.exists("/opt/vp/venv/bin/python") else sys.executable


def load_known(prop):
    """known_findings.jsonl: {"property","id","status":"finding"|"fixed",...}; only findings are active."""
    r = {}
    p = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("fixed:"):
                d = json.loads(line)
                if d["property"] == prop:
                    r[d["id"]] = d
    return r


class Check:
    def __init__(self, prop, tier, level, technique, assumptions=()):
        self.prop, self.tier, self.level, self.technique = prop, tier, level, technique
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.suites = []
        self.failure = None
        self.known_hits = {}
        self.known = load_known(prop)
        shm = "/dev/shm" if os.access("/dev/shm", os.W_OK | os.X_OK) else None
        self.scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-", dir=shm)  # sparse trace files
        atexit.register(self.cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def _proc(self, argv, what, env=None, timeout=3600):
        out = os.path.join(self.scratch, "stats.json")
        if os.path.exists(out):
            os.remove(out)
        e = dict(os.environ, VH_KNOWN=",".join(self.known), PYTHONDONTWRITEBYTECODE="1",
                 PYTHONHASHSEED="0", **(env or {}))
        e["VERIF_TIER"] = self.tier
        r = subprocess.run(argv + ["--out", out, "--scratch", self.scratch], cwd=self.scratch, env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, timeout=timeout)
        if not os.path.exists(out):
            print(f"error: {what} produced no statistics (exit {r.returncode})", file=sys.stderr)
            sys.exit(3)
        d = json.load(open(out))
        for s in d["suites"]:
            s["runner"] = what
            if not s["states"]:
                s["states"] = s["evaluations"]  # the end state of each enumerated history
            self.suites.append(s)
            for k, v in (s.get("known") or {}).items():
                self.known_hits.setdefault(k, []).append(v)
            if s.get("failure") and not self.failure:
                f = s["failure"]
                f["replay_cmd"] = s.get("replay_cmd") or None
                self.failure = (what, argv[:1] if argv[0] != PY else argv[:2], f)
        if r.returncode == 3 and not self.failure:
            print(f"error: {what} could not reproduce a failure", file=sys.stderr)
            sys.exit(3)
        if r.returncode not in (0, 1, 3) and not self.failure:
            print(f"error: {what} exited with {r.returncode}", file=sys.stderr)
            sys.exit(3)

    def cxx(self, binary, suites, workers=8, extra=()):
        if self.failure:
            return
        argv = [binary, "--workers", str(workers)] + (["--thorough"] if self.thorough else []) + list(extra) + list(suites)
        self._proc(argv, os.path.basename(binary))

    def py(self, script, suites, workers=8, env=None):
        if self.failure:
            return
        argv = [PY, os.path.join(VERIF, "pychecks", script), "--workers", str(workers)] + \
            (["--thorough"] if self.thorough else []) + list(suites)
        e = {"PYTHONPATH": os.environ.get("VERIF_REPO", "/repo") + ":" + VERIF}
        e.update(env or {})
        self._proc(argv, script, e)

    def finish(self):
        ev = sum(s["evaluations"] for s in self.suites)
        nt = sum(s["nontrivial"] for s in self.suites)
        stt = sum(s["states"] for s in self.suites)
        tr = sum(s["transitions"] for s in self.suites)
        samples = []
        for s in self.suites:
            for x in s["samples"][:2]:
                samples.append({"suite": s["name"], **x})
        cov = dict(evaluations=ev, distinct_nontrivial=nt, states=stt, transitions=tr,
                   traces_validated_against_impl=ev,
                   rule="; ".join(f"{s['name']}: {s['rule']}" for s in self.suites),
                   samples=samples, exhaustive=self.failure is None,
                   suites={s["name"]: {k: s[k] for k in ("evaluations", "nontrivial", "states", "transitions", "wall_s")} |
                           ({"info": s["info"]} if s.get("info") else {}) for s in self.suites})
        evd = dict(property=self.prop, tier=self.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1),
                   level=self.level, coverage=cov, assumptions=self.assumptions + [
                       "every case executes the code of /repo's working tree (no separate model): all explored traces are implementation traces"],
                   wall_s=round(time.time() - self.t0, 2), violations=1 if self.failure else 0)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1)
        for s in self.suites:
            print(f"{self.prop} {s['name']}: evaluations={s['evaluations']} states={s['states']} "
                  f"transitions={s['transitions']} nontrivial={s['nontrivial']} wall={s['wall_s']:.1f}s")
        for k in sorted(self.known_hits):
            print(f"KNOWN-FINDING: property={self.prop} {k}: {self.known[k]['what'] if k in self.known else ''}")
        if self.failure:
            what, base, f = self.failure
            rp = os.path.join(VERIF, "replays")
            os.makedirs(rp, exist_ok=True)
            path = os.path.join(rp, f"{self.prop}-{f['suite']}.json")
            with open(path, "w") as fh:
                json.dump(dict(property=self.prop, runner=what, **f,
                               how=f"python3 /verif/check.py {self.prop} --replay {path}"), fh, indent=1)
            print(f"suite {f['suite']}: {f['message']}")
            if f.get("text"):
                print(f"case: {f['text']}")
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
            return 1
        return 0
