"""C38: the build commands run exactly the recorded steps with the chosen passes.

The external tools (blight-exec, get-bc, opt, the recorded compilers) are stand-ins found first in PATH: each appends its
arguments to a log and writes to the file named after -o a description of what it was made from. All paths lie in a scratch
directory.
"""
import itertools, json, os, shutil, subprocess, sys
import pvh
from pvh import Suite, check, fail, st
from cli_check import command

TOOL = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char **environ;
int main(int argc, char **argv) {
  const char *log = getenv("T_LOG"), *failat = getenv("T_FAIL");
  const char *name = strrchr(argv[0], '/') ? strrchr(argv[0], '/') + 1 : argv[0];
  int n = 0;
  FILE *f = fopen(log, "r");
  if (f) {
    int c;
    while ((c = getc(f)) != EOF)
      n += c == '\n';
    fclose(f);
  }
  // what the files named read now
  static char in[1 << 16];
  size_t used = 0;
  const char *out = 0;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "-o") && i + 1 < argc) {
      out = argv[++i];
      continue;
    }
    if (argv[i][0] == '-')
      continue;
    size_t l = strlen(argv[i]);
    FILE *g = l > 3 && (!strcmp(argv[i] + l - 3, ".bc") || !strcmp(name, "get-bc")) ? fopen(argv[i], "r") : 0;
    if (g) {
      used += fread(in + used, 1, sizeof in - used - 1, g);
      fclose(g);
    }
  }
  f = fopen(log, "a");
  fprintf(f, "%s", name);
  for (int i = 1; i < argc; i++)
    fprintf(f, "\t%s", argv[i]);
  fprintf(f, "\t=\t%s\n", in);
  fclose(f);
  if (!strcmp(name, "blight-exec")) {
    f = fopen(getenv("T_ENV"), "w");
    for (char **e = environ; *e; e++)
      fprintf(f, "%s%c", *e, 0);
    fclose(f);
  }
  if (failat && atoi(failat) == n)
    return 3;
  if (out) {
    f = fopen(out, "w");
    fprintf(f, "%d(%s)", n, in);
    fclose(f);
  }
  return 0;
}
'''
TOOLS = ["blight-exec", "get-bc", "opt", "mycc", "mycxx"]
_root = None


def root():
    """Stand-in tools and an installation, once per process."""
    global _root
    r = os.path.join(pvh.scratch, f"b{os.getpid()}")
    if _root != r:
        os.makedirs(r + "/bin")
        with open(r + "/tool.c", "w") as f:
            f.write(TOOL)
        subprocess.run(["gcc", "-O1", "-o", r + "/bin/mycc", r + "/tool.c"], check=True)
        for t in TOOLS:
            if t != "mycc":
                os.link(r + "/bin/mycc", f"{r}/bin/{t}")
        for p in ("comp/lib/libPolytracker.a", "comp/pass/libPolytrackerPass.so", "comp/abi_lists/polytracker_abilist.txt", "comp/abi_lists/dfsan_abilist.txt",
                  "cxx/poly_build/lib/libc++.a", "cxx/poly_build/lib/libc++abi.a", "dfsan/libdfsan.a"):
            os.makedirs(os.path.dirname(f"{r}/{p}"), exist_ok=True)
            open(f"{r}/{p}", "w").close()
        os.environ["PATH"] = r + "/bin:" + os.environ["PATH"]
        os.environ["T_LOG"], os.environ["T_ENV"] = r + "/log", r + "/env"
        _root = r
    os.environ.update(COMPILER_DIR=r + "/comp", CXX_LIB_PATH=r + "/cxx", DFSAN_LIB_PATH=r + "/dfsan/libdfsan.a", WLLVM_ARTIFACT_STORE=r + "/store")
    os.environ.pop("T_FAIL", None)
    for d in ("/store", "/cwd"):
        shutil.rmtree(r + d, ignore_errors=True)
        os.makedirs(r + d)
    for f in ("/log", "/env"):
        if os.path.exists(r + f):
            os.unlink(r + f)
    os.chdir(r + "/cwd")
    return r


def log():
    """[(tool, arguments, contents of the bitcode read)]"""
    if not os.path.exists(_root + "/log"):
        return []
    out = []
    for l in open(_root + "/log").read().splitlines():
        a = l.split("\t")
        out.append((a[0], a[1:-2], a[-1]))
    return out


# One recorded command: compiler, arguments, inputs (name, kind), outputs
def rec(r, tool, args, inputs, outputs):
    e = {
        "Record": {"wrapped_tool": tool, "args": args},
        "FindInputs": {"inputs": [{"prenormalized_path": n, "path": f"{r}/store/{os.path.basename(n)}-in", "kind": k} for n, k in inputs]},
        "FindOutputs": {"outputs": [{"prenormalized_path": n, "path": f"{r}/store/{os.path.basename(n)}", "kind": "executable"} for n in outputs]},
    }
    if not outputs:
        del e["FindOutputs"]["outputs"]
    for n in outputs:
        with open(f"{r}/store/{os.path.basename(n)}", "w") as f:
            f.write("<" + os.path.basename(n) + ">")
    return e


RECS = [
    ("mycc", ["-c", "-O2", "a.c", "-o", "a.o"], [("a.c", "source")], ["a.o"]),
    ("mycc", ["-o", "app", "a.o", "-lm"], [("a.o", "object")], ["app"]),
    ("mycxx", ["a.o", "-DX=1", "libz.a", "-L.", "-lz", "-o", "app2"], [("a.o", "object"), ("libz.a", "static")], ["app2"]),
    ("mycxx", ["-shared", "b.o", "sub/libq.so", "libr.a", "-o", "libb.so"], [("b.o", "object"), ("sub/libq.so", "shared"), ("libr.a", "static")], ["libb.so"]),
    ("mycc", ["--version"], [], []),
    ("mycc", ["-o", "out/tool", "-g", "-g", "x.c", "y.c", "-Wl,-z,now", "-pthread"], [("x.c", "source"), ("y.c", "source")], ["out/tool"]),
    ("mycc", ["m.c", "-o", "main", "-static-libgcc", "-u", "app", "-Map", "main.map"], [("m.c", "source")], ["main", "main.map"]),
    ("mycc", ["-c", "-Dapp=1", "app.c", "-o", "app.o"], [("app.c", "source")], ["app.o"]),
]


def target_of(i):
    return [os.path.basename(n) for n in RECS[i][3]]


def want_args(i):
    tool, args, inputs, outputs = RECS[i]
    drop = {n for n, k in inputs} | set(outputs) | {"-o"}
    return [a for a in args if a not in drop]


def subseq(a, b):
    it = iter(b)
    return all(x in it for x in a)


def flag(args, f):
    """Values of -f=value arguments."""
    return [a[len(f) + 1:] for a in args if a.startswith(f + "=")]


def io_of(args):
    """input files and output of a call."""
    check(args.count("-o") == 1, f"-o in {args}")
    k = args.index("-o")
    return args[k + 1], args[:k] + args[k + 2:]


def judge_instr(r, call, taint, ftrace, ignore, inp, out):
    tool, args, data = call
    check(tool == "opt", f"{tool} instruments")
    o, rest = io_of(args)
    check(os.path.abspath(o) == os.path.abspath(out), f"instrumentation writes {o}")
    files = [a for a in rest if not a.startswith("-") and a != f"{r}/comp/pass/libPolytrackerPass.so"]
    check([os.path.abspath(x) for x in files] == [os.path.abspath(inp)], f"instrumentation reads {files} instead of {inp}")
    check(f"{r}/comp/pass/libPolytrackerPass.so" in rest, "the pass library is not loaded")
    passes = ["pt-taint"] * taint + ["pt-ftrace"] * ftrace + ["pt-dfsan", "pt-rm-fn-attr"] * taint
    got = [p for v in flag(args, "-passes") for p in v.split(",") if p]
    check(got == passes, f"passes {got} instead of {passes}")
    lists = [f"{r}/comp/abi_lists/{x}" for x in ignore]
    poly, dfs = f"{r}/comp/abi_lists/polytracker_abilist.txt", f"{r}/comp/abi_lists/dfsan_abilist.txt"
    for f, w in (("-pt-taint-ignore-list", [poly] + lists if taint else []), ("-pt-dfsan-abilist", [dfs] + lists if taint else []),
                 ("-pt-ftrace-ignore-list", [poly] + lists if ftrace else [])):
        check(sorted(flag(args, f)) == sorted(w), f"{f}: {flag(args, f)} instead of {w}")


def judge_lower(r, call, i, inp, out):
    tool, args, data = call
    check(tool == RECS[i][0], f"linked with {tool}, recorded was {RECS[i][0]}")
    o, rest = io_of(args)
    check(os.path.abspath(o) == os.path.abspath(out), f"linking writes {o} instead of {out}")
    check([os.path.abspath(a) for a in rest if a.endswith(".bc")] == [os.path.abspath(inp)], f"linking reads {rest}")
    w = want_args(i)
    check(subseq(w, rest), f"recorded arguments {w} are not all given: {rest}")
    for n, k in RECS[i][2]:
        p = f"{r}/store/{os.path.basename(n)}-in"
        check((p in rest) == (k in ("static", "shared")), f"library {n} ({k}): {rest}")
    for n in {n for n, k in RECS[i][2]} | set(RECS[i][3]) - set(w):
        check(n not in rest or n in w, f"{n} of the recorded command is given again: {rest}")
    run = [f"{r}/cxx/poly_build/lib/libc++.a", f"{r}/cxx/poly_build/lib/libc++abi.a", f"{r}/comp/lib/libPolytracker.a", f"{r}/dfsan/libdfsan.a"]
    check(all(x in rest for x in run), f"the runtime is not linked: {rest}")
    for f in set(w):
        check(rest.count(f) == w.count(f) or f.startswith("-l"), f"recorded argument {f} is given {rest.count(f)} times")


def journal(r, seq, path=None):
    path = path or r + "/cwd/blight_journal.jsonl"
    with open(path, "w") as f:
        for i in seq:
            f.write(json.dumps(rec(r, *RECS[i])) + "\n")
    return path


IGN = [[], ["l1"], ["l1", "l2.txt", "l3", "l4", "l5", "l6", "l7", "l8", "l9"]]


def inst_gen(th):
    n = len(RECS)
    seqs = [list(s) for k in range(1, 4) for s in itertools.permutations(range(n), k)]
    if th:
        seqs += [list(s) for s in itertools.permutations(range(n), 4)]
    for x, s in enumerate(seqs):
        ts = [t for i in s for t in target_of(i)]
        for y, t in enumerate(ts):
            o = (x * 5 + y * 7) % 24
            yield [s, [t], o, (x + y) % 3 == 0, -1]
        if len(ts) > 1:
            yield [s, [ts[-1], ts[0]], x % 24, False, -1]
            yield [s, ts, (x * 11) % 24, False, -1]
    for s in ([1], [0, 2], [3, 5]):
        for t in [target_of(i)[0] for i in s]:
            for o in range(24):
                yield [s, [t], o, False, -1]
                for k in range(5):  # step k fails
                    yield [s, [t], o, False, k]
    for s in ([], [0], [4], [0, 1, 2]):
        for t in ("nope", "ap", "app3", "a", ""):
            yield [s, [t], 3, False, -1]
    yield [[0, 1], ["app", "nope"], 1, False, -1]
    for k in (30, 127, 128, 129, 255, 256, 257, 1000):  # long journals, many targets
        yield [[4] * k + [0, 2, 4, 1], ["app"], 7, False, -1]
        yield [[1] + [4] * k + [2], ["app2", "app"], 3, True, -1]
    yield [[0, 1, 2, 3, 5], ["app", "a.o", "tool", "libb.so", "app2"] * 5, 23, False, -1]


def inst_run(case):
    seq, targets, o, elsewhere, failing = case
    r = root()
    taint, ftrace, cflog, ign = bool(o & 1), bool(o & 2), bool(o & 4), IGN[o // 8]
    jp = journal(r, seq, r + "/store/j.jsonl" if elsewhere else None)
    if failing >= 0:
        os.environ["T_FAIL"] = str(failing)
    argv = ["instrument-targets", *targets] + (["--journal-path", jp] if elsewhere else []) + ["--taint"] * taint + ["--ftrace"] * ftrace + ["--cflog"] * cflog
    argv += ["--ignore-lists", *ign] if ign else []
    known = [next((i for i in seq if t in target_of(i)), None) for t in targets]
    steps = 4 + cflog
    err = None
    try:
        command(*argv)
    except pvh.Fail:
        err = "status"
    except Exception as e:
        err = e
    calls = log()
    bad = None in known or (0 <= failing < steps * len(targets))
    check(bool(err) == bad, f"{' '.join(argv)}: {'succeeds although a step failed or a target is unknown' if bad else err!r}")
    upto = steps * known.index(None) if None in known else failing + 1 if bad else steps * len(targets)
    check(len(calls) == upto, f"{' '.join(argv)}: {len(calls)} steps instead of {upto}")
    for k, (t, i) in enumerate(zip(targets, known)):
        c = calls[k * steps:(k + 1) * steps]
        st.transitions += len(c)
        if len(c) < steps:
            break
        # extraction from the recorded artifact
        tool, args, data = c[0]
        check(tool == "get-bc", f"{tool} extracts")
        bc, rest = io_of(args)
        check([a for a in rest if not a.startswith("-")] == [f"{r}/store/{t}"] and data == f"<{t}>", f"extracts from {rest}")
        prev = c.index(c[0]) + k * steps
        want = f"{prev}(<{t}>)"
        cur = bc
        n = 1
        if cflog:
            tool, args, data = c[n]
            out, rest = io_of(args)
            check(tool == "opt" and flag(args, "-passes") == ["pt-tcf"], f"control-flow log: {c[n]}")
            check(data == want, f"control-flow log pass reads {data} instead of {want}")
            want = f"{k * steps + n}({want})"
            n += 1
        tool, args, data = c[n]
        opt, rest = io_of(args)
        check(tool == "opt" and "-O3" in rest and not flag(args, "-passes"), f"optimisation: {c[n]}")
        check(data == want, f"optimisation reads {data} instead of {want}")
        want = f"{k * steps + n}({want})"
        n += 1
        check(c[n][2] == want, f"instrumentation reads {c[n][2]} instead of {want}")
        inst, _ = io_of(c[n][1])
        judge_instr(r, c[n], taint, ftrace, ign, opt, inst)
        want = f"{k * steps + n}({want})"
        n += 1
        check(c[n][2] == want, f"linking reads {c[n][2]} instead of {want}")
        judge_lower(r, c[n], i, inst, f"{r}/cwd/{os.path.splitext(t)[0]}.instrumented")
        if not bad and targets.count(t) == 1 and not [u for u in targets if u != t and os.path.splitext(u)[0] == os.path.splitext(t)[0]]:
            check(open(f"{r}/cwd/{os.path.splitext(t)[0]}.instrumented").read() == f"{k * steps + n}({want})", "the instrumented program is not what was linked")
    if not bad:
        check(open(jp).read().count("\n") == len(seq), "the journal was changed")
        for i in seq:
            for x in target_of(i):
                check(open(f"{r}/store/{x}").read() == f"<{x}>", f"the recorded artifact {x} was changed")
    st.nontrivial += not bad


def one_gen(th):
    for o in range(24):
        for f in (-1, 0):
            for order in range(2):
                yield ["instrument-bc", o, f, order]
    for c in ("extract-bc", "opt-bc"):
        for f in (-1, 0):
            for order in range(2):
                yield [c, 0, f, order]
    for i in range(len(RECS)):
        for f in (-1, 0):
            for order in range(2):
                yield ["lower-bc", i, f, order]


def one_run(case):
    cmd, x, failing, order = case
    r = root()
    if failing >= 0:
        os.environ["T_FAIL"] = "0"
    inp, out = r + "/cwd/in.bc", "res.bc" if order else r + "/cwd/sub out.bc"
    with open(inp, "w") as f:
        f.write("IN")
    extra = []
    if cmd == "instrument-bc":
        extra = ["--taint"] * (x & 1) + ["--ftrace"] * (x >> 1 & 1) + (["--ignore-lists", *IGN[x // 8]] if x // 8 else [])
    known = True
    if cmd == "lower-bc":
        jp = journal(r, list(range(len(RECS))), r + "/store/j.jsonl")
        t = (target_of(x) or ["none"])[0]
        known = bool(target_of(x))
        extra = ["-t", t, "--journal-path", jp]
    err = None
    try:
        command(cmd, *([inp, "-o", out] if order else ["--output", out, inp]), *extra)
    except pvh.Fail:
        err = "status"
    except Exception as e:
        err = e
    calls = log()
    check(bool(err) == (failing >= 0 or not known), f"{cmd}: {err!r}")
    check(len(calls) == (1 if known else 0), f"{cmd}: {len(calls)} steps")
    if known:
        check(cmd == "extract-bc" or calls[0][2] == "IN", f"{cmd}: reads {calls[0][2]!r}")
        if cmd == "instrument-bc":
            judge_instr(r, calls[0], bool(x & 1), bool(x & 2), IGN[x // 8], inp, out)
        elif cmd == "lower-bc":
            judge_lower(r, calls[0], x, inp, out)
        else:
            tool, args, data = calls[0]
            o, rest = io_of(args)
            check(tool == ("get-bc" if cmd == "extract-bc" else "opt") and os.path.abspath(o) == os.path.abspath(out), f"{cmd}: {calls[0]}")
            check([a for a in rest if not a.startswith("-")] == [inp], f"{cmd}: {calls[0]}")
            check(cmd == "extract-bc" or "-O3" in rest, f"{cmd}: {calls[0]}")
        check(os.path.exists(out) == (failing < 0), f"{cmd}: output")
    st.nontrivial += known


CMDS = [["make"], ["cc", "-o", "x", "x.c"], ["sh", "-c", "make -j2; make install"], ["make", "--journal-path", "x"], ["./configure", "--taint", "CC=a b"], ["a", "", "b"]]
MISSING = [None, "WLLVM_ARTIFACT_STORE", "CXX_LIB_PATH"]


def build_gen(th):
    for c in range(len(CMDS)):
        for old in range(2):
            for where in range(3):
                for f in (-1, 0):
                    for m in range(len(MISSING)):
                        for how in range(3 if m else 1):
                            yield [c, old, where, f, m, how]


def build_run(case):
    c, old, where, failing, m, how = case
    r = root()
    if failing >= 0:
        os.environ["T_FAIL"] = "0"
    if m:
        if how == 0:
            del os.environ[MISSING[m]]
        else:
            os.environ[MISSING[m]] = "" if how == 1 else r + "/nowhere"
    jp = [r + "/cwd/blight_journal.jsonl", r + "/store/j.jsonl", r + "/cwd/rel.jsonl"][where]
    if old:
        with open(jp, "w") as f:
            f.write("old\n")
    err = None
    try:
        command("build", *(["--journal-path", ["", jp, "rel.jsonl"][where]] if where else []), *CMDS[c])
    except pvh.Fail:
        err = "status"
    except Exception as e:
        err = e
    calls = log()
    if m:
        check(err and not calls, f"without {MISSING[m]}: {err!r}, {calls}")
        return
    check(bool(err) == (failing >= 0), f"build: {err!r}")
    check(len(calls) == 1 and calls[0][0] == "blight-exec", f"build runs {calls}")
    a = calls[0][1]
    check("--" in a and a[a.index("--") + 1:] == CMDS[c], f"build runs {a} instead of {CMDS[c]}")
    check(not os.path.exists(jp), "a journal of an earlier build is kept")
    env = dict(x.split("=", 1) for x in open(r + "/env").read().split("\0") if "=" in x)
    check(env.get("BLIGHT_JOURNAL_PATH") == jp, f"journal at {env.get('BLIGHT_JOURNAL_PATH')} instead of {jp}")
    acts = env.get("BLIGHT_ACTIONS", "").split(":")
    check(all(x in acts for x in ("Record", "FindInputs", "FindOutputs")), f"actions {acts}")
    for x in ("FINDINPUTS", "FINDOUTPUTS"):
        check(f"store={r}/store" in env.get("BLIGHT_ACTION_" + x, "").split(), f"artifacts of {x} are not stored")
    st.nontrivial += 1


SUITES = [
    Suite("c38_targets", "all journals of up to 3 (4) of 8 recorded commands, every target and pairs and lists of targets; all 24 choices of passes and ignore lists; every failing step; unknown targets; journals of up to 1002 commands and lists of 25 targets", inst_gen, inst_run),
    Suite("c38_steps", "the single-step commands with every choice of options, succeeding and failing", one_gen, one_run),
    Suite("c38_build", "6 build commands, with and without an earlier journal, 3 journal paths, failing and succeeding, missing settings", build_gen, build_run),
]
if __name__ == "__main__":
    sys.exit(pvh.main(SUITES))
