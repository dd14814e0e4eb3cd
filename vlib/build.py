"""Compiles /repo's current sources together with the harnesses of /verif (ninja)."""
import glob, hashlib, os, subprocess, sys, fcntl

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
CXX = "clang++-18"

PT_INC = f"-I{REPO}/polytracker/include -I{REPO}/polytracker/src/compiler-rt/include"
FORCED = "-include algorithm -include cstdlib -include utility"
STUB = f"-I{VERIF}/harness/stub"
PT_FLAGS = f"-O1 -DNDEBUG -DPOLYTRACKER_VERIF -std=gnu++20 -fPIC -fexceptions -w {FORCED}"
RT = f"{REPO}/polytracker/src/compiler-rt/lib"
RT_FLAGS = ("-DHAVE_RPC_XDR_H=0 -DNDEBUG -std=gnu++20 -fPIC -m64 -fno-builtin -fno-exceptions "
            "-fomit-frame-pointer -funwind-tables -fno-stack-protector -fvisibility=hidden -O1 "
            "-w -nostdinc++ -fno-rtti")
SC_SKIP = ("sanitizer_coverage", "sancov", "sanitizer_netbsd", "sanitizer_syscall_generic",
           "sanitizer_stoptheworld_test", "sanitizer_malloc_mac", "sanitizer_openbsd",
           "sanitizer_dbghelp", "sanitizer_nolibc")
SC_ASM = ()
RT_LINK = "-ldl -lpthread -lrt -lm -Wl,--export-dynamic"


class BuildError(Exception):
    pass


def pt_sources():
    r = []
    for d in ("polytracker", "taint_sources", "taintdag"):
        r += sorted(glob.glob(f"{REPO}/polytracker/src/{d}/*.cpp"))
    return r


def rt_sources():
    r = sorted(glob.glob(f"{RT}/dfsan/*.cpp")) + sorted(glob.glob(f"{RT}/interception/*.cpp"))
    for p in sorted(glob.glob(f"{RT}/sanitizer_common/*.cpp")):
        if not os.path.basename(p).startswith(SC_SKIP):
            r.append(p)
    return r


class Ninja:
    def __init__(self, name, real_spdlog=False):
        self.dir = os.path.join(BUILD, "real" if real_spdlog else "std")  # objects are shared by all harnesses
        self.name = name
        self.real = real_spdlog
        self.lines = []
        self.rules()
        self.targets = []

    def rules(self):
        self.lines += [
            "ninja_required_version = 1.3",
            "rule cc\n  command = $cxx $flags -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
            "rule link\n  command = $cxx $in -o $out $lflags",
            f"cxx = {CXX}", ""]

    def spd(self):
        return "-DFMT_SHARED -DSPDLOG_FMT_EXTERNAL" if self.real else STUB

    def obj(self, src, tag, flags):
        rel = src.replace("/", "_").lstrip("_")
        key = hashlib.sha1(flags.encode()).hexdigest()[:8]
        o = f"{tag}-{key}/{rel}.o"
        self.lines.append(f"build {o}: cc {src}\n  flags = {flags}")
        return o

    def pt(self, extra="", tag="pt", only=None):
        return [self.obj(s, tag, f"{self.spd()} {PT_INC} {PT_FLAGS} {extra}") for s in pt_sources()
                if only is None or only(s)]

    def rt(self):
        r = []
        for s in rt_sources():
            fl = RT_FLAGS
            if "/dfsan/" in s:
                fl += " -ffreestanding -fPIE"
            r.append(self.obj(s, "rt", f"-I{REPO}/polytracker/include -I{RT} {fl}"))
        return r

    def harness(self, src, extra="", tag="h"):
        return self.obj(os.path.join(VERIF, "harness", src), tag,
                        f"{self.spd()} -I{VERIF}/harness {PT_INC} {PT_FLAGS} -fexceptions {extra}")

    def link(self, out, objs, lflags=""):
        fmt = "-lfmt" if self.real else ""
        self.lines.append(f"build {out}: link {' '.join(objs)}\n  lflags = {lflags} {fmt}")
        self.targets.append(out)

    def go(self):
        os.makedirs(self.dir, exist_ok=True)
        text = "\n".join(self.lines) + "\n"
        p = os.path.join(self.dir, self.name + ".ninja")
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
        with open(os.path.join(self.dir, ".lock"), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            r = subprocess.run(["ninja", "-C", self.dir, "-f", self.name + ".ninja", "-k", "1"] + self.targets,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            keep = [l for l in r.stdout.splitlines() if not l.startswith(("[", CXX))]
            raise BuildError("\n".join(keep)[:4000])
        return [os.path.join(self.dir, t) for t in self.targets]


WHOLE = "-Wl,--allow-multiple-definition"


def full(name, src, extra="", lflags=""):
    """harness + libPolytracker + the vendored dfsan runtime (libPolytracker first, as build.py links)."""
    def attempt(real):
        n = Ninja(name, real)
        objs = [n.harness(src, extra)] + n.pt() + n.rt()
        n.link(name, objs, f"{WHOLE} {RT_LINK} {lflags}")
        return n.go()[0]
    return retry(attempt)


def retry(attempt):
    try:
        return attempt(False)
    except BuildError as e:
        first = e
    if "spdlog" not in str(first):
        raise first
    try:
        return attempt(True)
    except BuildError:
        raise first


def core(name, src, extra="", lflags="", only=None):
    """harness + taintdag sources only, with a stand-in for the shadow memory calls."""
    def attempt(real):
        n = Ninja(name, real)
        objs = [n.harness(src, extra), n.harness("dfsan_stub.cpp")] + n.pt(extra, only=only or (lambda s: "/taintdag/" in s))
        n.link(name, objs, f"{WHOLE} -lpthread {lflags}")
        return n.go()[0]
    return retry(attempt)


TSAN = "-DSANITIZER_CDECL= -fsanitize=thread -mllvm -tsan-instrument-func-entry-exit=0"


def conc(name, src, instrumented=()):
    """harness + libPolytracker instrumented for the schedule explorer, with a stand-in for the shadow memory."""
    def attempt(real):
        n = Ninja(name, real)
        objs = [n.harness(src), n.harness("dfsan_stub.cpp"), n.harness("explore.cpp")]
        objs += [n.harness(x, TSAN, "hi") for x in instrumented] + n.pt(TSAN, "pti")
        n.link(name, objs, f"{WHOLE} -lpthread -ldl")
        return n.go()[0]
    return retry(attempt)


def shared(name, src, extra=""):
    """The taintdag sources and a harness as a shared library."""
    return core(name + ".so", src, extra, "-shared -Wl,-Bsymbolic")


if __name__ == "__main__":
    print(full(sys.argv[1], sys.argv[2]))
