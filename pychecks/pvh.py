"""Exhaustive enumeration kernel for the Python parts (the counterpart of harness/vh.h).

A suite enumerates cases (JSON values) in a fixed order; workers take them round robin; run(case) executes the real
code and raises Fail (or anything else) when the property is broken. A failing case is replayed in a fresh process
before it is reported.
"""
import argparse, itertools, json, multiprocessing, os, signal, sys, time, traceback

sys.setrecursionlimit(1000)
KNOWN = [k for k in os.environ.get("VH_KNOWN", "").split(",") if k]
scratch = None
thorough = False


class Fail(Exception):
    pass


class Known(BaseException):
    """Raised by run() when a case shows a finding listed in known_findings.jsonl."""

    def __init__(self, id, what=""):
        self.id, self.what = id, what


class Hang(BaseException):
    pass


class Stats:
    def __init__(self):
        self.nontrivial = self.states = self.transitions = 0


st = Stats()


def fail(msg):
    raise Fail(msg)


def check(c, msg):
    if not c:
        raise Fail(msg() if callable(msg) else msg)


class Suite:
    def __init__(self, name, rule, gen, run, describe=None, timeout=20, setup=None):
        self.name, self.rule, self.gen, self.run, self.timeout = name, rule, gen, run, timeout
        self.describe = describe or (lambda c: json.dumps(c))
        self.setup = setup


def _alarm(*a):
    raise Hang()


def _one(s, case):
    """None, ("known", id) or a message."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, s.timeout)
    try:
        s.run(case)
        return None
    except Known as k:
        if k.id in KNOWN:
            return ("known", k.id)
        return f"{k.id}: {k.what}"
    except Hang:
        return f"does not terminate (no result after {s.timeout} s)"
    except Fail as e:
        return str(e)
    except RecursionError:
        return "recursion does not terminate"
    except MemoryError:
        return "memory exhausted"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = next((f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb) if "/polytracker/" in f.filename), tb[-1].name if tb else "?")
        return f"{type(e).__name__}: {e} (in {where})"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _tmp(tag):
    d = os.path.join(scratch, tag)
    os.makedirs(d, exist_ok=True)
    os.chdir(d)


def _quiet():
    n = os.open(os.devnull, os.O_WRONLY)
    os.dup2(n, 1)
    if not os.environ.get("VH_VERBOSE"):
        os.dup2(n, 2)


def _worker(s, w, W, q, stop, upto, cur):
    _quiet()
    _tmp(f"w{w}")
    if s.setup:
        s.setup()
    n, known, samples = 0, {}, []
    t0 = time.time()
    for i, c in enumerate(s.gen(thorough)):
        if i % W != w:
            continue
        if upto is not None and i > upto:
            break
        if n % 16 == 0 and stop.value >= 0 and stop.value < i:
            break
        cur[w] = i
        r = _one(s, c)
        n += 1
        if n in (1, 40) or n == 2000:
            samples.append({"case": c if len(json.dumps(c)) < 400 else "...", "text": s.describe(c)[:400]})
        if r is None:
            continue
        if isinstance(r, tuple):
            known.setdefault(r[1], s.describe(c)[:400])
            continue
        with stop.get_lock():
            if stop.value < 0 or i < stop.value:
                stop.value = i
        q.put(("fail", w, i, c, r))
        break
    q.put(("done", w, n, known, samples, st.nontrivial, st.states, st.transitions))


def _replay_child(s, c, q):
    _quiet()
    _tmp("replay")
    if s.setup:
        s.setup()
    q.put(_one(s, c))


def _fork(f, *a):
    p = multiprocessing.get_context("fork").Process(target=f, args=a, daemon=True)
    p.start()
    return p


def _shards(s, workers, upto=None, only=None):
    ctx = multiprocessing.get_context("fork")
    q, stop, cur = ctx.SimpleQueue(), ctx.Value("q", -1), ctx.Array("q", [-1] * workers, lock=False)
    seen = {}
    ws = [only] if only is not None else list(range(workers))
    ps = {w: _fork(_worker, s, w, workers, q, stop, upto, cur) for w in ws}
    done, fails, dead = {}, [], []
    while len(done) + len(dead) < len(ws):
        if not q.empty():
            m = q.get()
            if m[0] == "fail":
                fails.append(m)
            else:
                done[m[1]] = m
            continue
        time.sleep(0.005)
        for w, p in ps.items():
            if w in done or w in dead:
                continue
            if not p.is_alive() and q.empty():
                dead.append(w)
                if cur[w] >= 0 and not any(f[1] == w for f in fails):
                    fails.append(("fail", w, cur[w], None, "the process crashed"))
                    stop.value = cur[w]
            elif seen.get(w, (None, 0))[0] != cur[w]:
                seen[w] = (cur[w], time.time())
            elif cur[w] >= 0 and time.time() - seen[w][1] > 2 * s.timeout + 10:  # stuck outside the interpreter
                p.kill()
    for p in ps.values():
        p.join(1)
    return done, fails, dead


def run_suite(s, workers):
    t0 = time.time()
    done, fails, dead = _shards(s, workers)
    known, samples = {}, []
    tot = [0, 0, 0, 0]
    for m in done.values():
        tot[0] += m[2]
        known.update({k: v for k, v in m[3].items() if k not in known})
        samples += m[4][:1]
        for j in range(3):
            tot[j + 1] += m[5 + j]
    failure, rc = None, 0
    if dead and not fails:
        print(f"{s.name}: worker died (crash of the interpreter)", file=sys.stderr)
        rc = 3
    if fails:
        _, w, i, c, msg = min(fails, key=lambda f: f[2])
        if c is None:
            c = next(itertools.islice(s.gen(thorough), i, None))
        q = multiprocessing.get_context("fork").SimpleQueue()
        p = _fork(_replay_child, s, c, q)
        p.join(s.timeout * 3 + 30)
        m2 = None if q.empty() else q.get()
        if m2 is None and p.is_alive():
            p.kill()
            m2 = "does not terminate"
        elif m2 is None and p.exitcode:
            m2 = f"the process crashed (exit code {p.exitcode})"
        if isinstance(m2, str):
            failure = dict(suite=s.name, case=c, message=m2, text=s.describe(c)[:2000])
        else:  # depends on the cases before it: the whole shard must fail again at the same case
            d2, f2, _ = _shards(s, workers, upto=i, only=w)
            if f2 and f2[0][2] == i:
                failure = dict(suite=s.name, case=["shard", w, workers, i], message=msg + " (after the cases before it in the same process)",
                               text=s.describe(c)[:2000])
            else:
                print(f"{s.name}: failure not reproduced: {msg}", file=sys.stderr)
                rc = 3
    return dict(name=s.name, rule=s.rule, evaluations=tot[0], nontrivial=tot[1], states=tot[2], transitions=tot[3],
                wall_s=round(time.time() - t0, 3), samples=samples[:3], failure=failure, known=known), rc


def main(suites):
    global scratch, thorough
    ap = argparse.ArgumentParser()
    ap.add_argument("--out")
    ap.add_argument("--scratch")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("names", nargs="*")
    a = ap.parse_args()
    thorough = a.thorough
    by = {s.name: s for s in suites}
    import tempfile, shutil
    made = None
    if a.scratch:
        scratch = a.scratch
    else:
        scratch = made = tempfile.mkdtemp(prefix="pvh-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        if a.replay:
            s, c = by[a.replay], json.loads(a.names[0])
            if isinstance(c, list) and c[:1] == ["shard"]:
                d, f, _ = _shards(s, c[2], upto=c[3], only=c[1])
                print(f[0][4] if f else "holds")
                return 1 if f else 0
            if s.setup:
                s.setup()
            _tmp("replay")
            print(s.describe(c), flush=True)
            r = _one(s, c)
            print("holds" if r is None else r)
            return 1 if isinstance(r, str) else 0
        res, rc = [], 0
        for n in a.names or list(by):
            if n not in by:
                print(f"no suite {n}", file=sys.stderr)
                return 2
            r, e = run_suite(by[n], a.workers)
            res.append(r)
            rc = max(rc, e, 1 if r["failure"] else 0)
            if r["failure"]:
                rc = 1
                break
        if a.out:
            json.dump({"suites": res}, open(a.out, "w"))
        else:
            for r in res:
                print(r["name"], r["evaluations"], r["states"], r["transitions"], r["nontrivial"], r["wall_s"], r["known"], str(r["failure"])[:3000])
        return rc
    finally:
        if made:
            os.chdir("/")
            shutil.rmtree(made, ignore_errors=True)
