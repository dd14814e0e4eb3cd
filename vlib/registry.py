"""What decides each property: harness builds and suites."""
from . import build

EXPL, FAULT, MC = "exploration", "fault_enumeration", "model_checking"
CHECKS = {}
FILE_SUITES = ["fd", "fd0", "file", "filen", "fileh", "filee", "huge", "mix", "map", "many", "size", "elem"]
STREAM_SUITES = ["fifo", "ffifo", "conn", "acc", "acc4", "accn", "acc4n", "stdin"]
SCALE = ["many", "size", "elem"]
READ_SUITES = FILE_SUITES + STREAM_SUITES
WRITE_SUITES = ["fd", "fdl", "file", "filel", "filell", "fifo", "ffifo", "tcp"]
IO_ASSUME = ["the wrappers are called with the calling convention the instrumentation uses (value arguments, their labels, the address of the result label)",
             "recv with MSG_PEEK and truncated datagrams are not enumerated"]


def core_bin():
    return build.core("core", "core.cpp")


def io_read():
    return build.full("io_read", "io_read.cpp")


def fdlife():
    return build.full("fdlife", "fdlife.cpp")


def sock():
    return build.full("sock", "sock.cpp")


WRAPPED = ("open open64 close fopen fopen64 fclose read pread write recv lseek fread fgetc connect accept getsockname "
           "pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock").split()


def race():
    return build.full("race", "race.cpp", lflags=" ".join("-Wl,--wrap=" + x for x in WRAPPED))


def hooks():
    return build.full("hooks", "hooks.cpp")


def io_write():
    return build.full("io_write", "io_write.cpp")


def layout():
    return build.core("layout", "layout.cpp", "-O0")


def rec():
    return build.shared("rec", "rec.cpp")


def life():
    return build.full("life", "life.cpp")


def caps():
    return build.core("caps", "caps.cpp")


def strb():
    return build.full("str", "str.cpp")


def shadow():
    return build.full("shadow", "shadow.cpp")


def sysb():
    return build.full("sys", "sys.cpp")


STR_SUITES = ["copy", "search", "compare", "convert", "format", "alloc", "big", "long", "num", "dir", "flong"]


def rec_py(c, b, suites):
    c.py("rec_check.py", suites, env={"VH_REC": b["rec"]})


def add(prop, level, technique, builds, run, assumptions=(), note=""):
    CHECKS[prop] = dict(level=level, technique=technique, build=builds, run=run, assumptions=assumptions, note=note)


add("C01", MC, "explicit-state search over label tables on the real union code",
    {"core": core_bin},
    lambda c, b: c.cxx(b["core"], ["c01_bfs", "c01_dfs", "c01_dist", "c01_high", "c01_big", "c01_scale"]),
    note="all combine/read/mark histories from 12 input layouts up to depth 3-6, plus distance and high-label boundaries")
add("C02", MC, "explicit-state search over label tables on the real allocation code",
    {"core": core_bin},
    lambda c, b: c.cxx(b["core"], ["c02_bfs", "c02_dfs", "c02_dist", "c02_high", "c02_scale", "c02_reuse", "c02_block"]),
    note="same histories as C01, checking density, stability, earlier-only references and reuse distance")
add("C03", MC, "explicit-state search over label graphs and marks on the real traversal",
    {"core": core_bin},
    lambda c, b: c.cxx(b["core"], ["c03_bfs", "c03_dfs", "c03_dist", "c03_high", "c03_graph", "c03_big", "c03_deq"]),
    note="all histories with marks, plus graph families up to width and depth 72 (140 thorough)")
add("C04", MC, "exhaustive enumeration of boundary field values against the format",
    {"core": core_bin, "rec": rec},
    lambda c, b: (c.cxx(b["core"], ["c04_enc"]), rec_py(c, b, ["c04_py"])),
    note="all boundary field values of every kind of entry, all pairs for injectivity, in the runtime and in the reader")
add("C05", MC, "exhaustive enumeration of insertion sequences against a bit set",
    {"core": core_bin, "io_read": io_read, "rec": rec},
    lambda c, b: (c.cxx(b["core"], ["c05_bitmap", "c05_reject"]),
                  c.cxx(b["io_read"], ["c05h_" + x for x in READ_SUITES + ["manys"] if x not in ("many", "elem")]),
                  rec_py(c, b, ["c09_long"])),
    note="all sequences of insertions over three bucket widths; index against label table over all read histories of C14/C15")
SCHED_ASSUME = ["sequentially consistent memory: effects of weaker orderings are not explored", "schedules with at most the stated number of preemptions, two or three threads",
                "a stand-in for the shadow memory (one label per byte) replaces the DFSan runtime", "compare_exchange_weak does not fail spuriously"]
SCHED = "exhaustive exploration of thread schedules of the real code up to a preemption bound under a controlled scheduler"
add("C06", MC, SCHED, {"conc": lambda: build.conc("conc", "conc.cpp")},
    lambda c, b: c.cxx(b["conc"], ["c06_pairs", "c06_three", "c06_seqs"]),
    assumptions=SCHED_ASSUME,
    note="all pairs of 18 operations (3 preemptions), triples and pairs of two-operation programs (1 preemption); deeper in the thorough tier; the trace of every schedule is judged")
add("C07", MC, SCHED, {"conc": lambda: build.conc("conc", "conc.cpp"), "conc_bm": lambda: build.conc("conc_bm", "conc_bm.cpp", ("bm_shim.cpp",))},
    lambda c, b: (c.cxx(b["conc"], ["c07_reads"]), c.cxx(b["conc_bm"], ["c07_index", "c07_streams"])),
    assumptions=SCHED_ASSUME,
    note="all combinations of short and long reads by two and three threads (2 preemptions); all programs of two and three threads over an index with 8-bit words and over stream offsets")
add("C08", MC, "exhaustive enumeration of section arrangements and recording histories on the real file writer",
    {"layout": layout, "rec": rec},
    lambda c, b: (c.cxx(b["layout"], ["c08_layout", "c08_huge"]), rec_py(c, b, ["c08_hist"])),
    note="all arrangements of up to three sections over sizes and alignments; all recording histories up to the bound")
add("C09", MC, "exhaustive enumeration of recording histories, written by the real runtime and read by the real reader",
    {"rec": rec},
    lambda c, b: rec_py(c, b, ["c09_hist", "c09_ext", "c09_long", "c04_py", "c10_mag", "c10_scale", "c11_many"]),
    note="all recording histories up to the bound; all extreme field values")
add("C10", MC, "exhaustive enumeration of event sequences, written by the real runtime and read by the real reader",
    {"rec": rec},
    lambda c, b: rec_py(c, b, ["c10_nest", "c10_mag", "c10_any", "c10_scale"]),
    note="all nested event sequences up to the bound, all encoding boundaries, all un-nested sequences")
add("C11", MC, "exhaustive enumeration of entry and exit sequences, written by the real runtime and read by the real reader",
    {"rec": rec},
    lambda c, b: rec_py(c, b, ["c11_fn", "c11_many"]),
    note="all sequences of entries and exits over equal, prefix, empty, long and reused names")
add("C12", FAULT, "exhaustive enumeration of fill levels and request sizes around every table's capacity",
    {"caps": caps, "life": life},
    lambda c, b: (c.cxx(b["caps"], ["c12_labels", "c12_fixed", "c12_cf", "c12_str", "c12_long"]),
                  c.cxx(b["life"], ["c12_run"])),
    note="every fill level and request size around each capacity, on small tables and on the real ones")
add("C13", FAULT, "exhaustive enumeration of end points and ways of ending over recording histories",
    {"life": life},
    lambda c, b: c.cxx(b["life"], ["c13_term"]),
    note="every prefix of every recording history up to the bound, ended in each way, in a process of its own")
add("C14", MC, "exhaustive enumeration of read histories on the real wrappers against a byte oracle",
    {"io_read": io_read, "fdlife": fdlife},
    lambda c, b: (c.cxx(b["io_read"], ["c14_" + x for x in FILE_SUITES]), c.cxx(b["fdlife"], ["c14_life", "c14_dev"])),
    assumptions=IO_ASSUME,
    note="all sequences of opens, reads, seeks, maps and closes up to depth 3-5 over small files, streams, mappings and 254 sources")
add("C15", MC, "exhaustive enumeration of stream-read histories on the real wrappers against a byte oracle",
    {"io_read": io_read, "core": core_bin, "fdlife": fdlife},
    lambda c, b: (c.cxx(b["io_read"], ["c15_" + x for x in STREAM_SUITES + ["many"]]), c.cxx(b["core"], ["c15_off"]), c.cxx(b["fdlife"], ["c15_life"])),
    assumptions=IO_ASSUME,
    note="all sequences of reads from pipes, sockets and standard input up to depth 4-5")
add("C16", MC, "exhaustive enumeration of write histories on the real wrappers against a byte oracle",
    {"io_write": io_write, "fdlife": fdlife},
    lambda c, b: (c.cxx(b["io_write"], ["c16_" + x for x in WRITE_SUITES + ["stdout", "stderr"] + SCALE]), c.cxx(b["fdlife"], ["c16_life"])),
    assumptions=IO_ASSUME,
    note="all sequences of opens, writes, seeks and closes up to depth 4-5, with short and failing writes")
add("C17", MC, "exhaustive lock-step comparison of wrapped and plain calls over all histories",
    {"io_read": io_read, "io_write": io_write, "sock": sock},
    lambda c, b: (c.cxx(b["io_read"], ["c17r_" + x for x in READ_SUITES + ["manys"]]),
                  c.cxx(b["io_write"], ["c17w_" + x for x in WRITE_SUITES + SCALE]),
                  c.cxx(b["sock"], ["c17_sock", "c17_block"])),
    assumptions=IO_ASSUME,
    note="the histories of C14-C16 executed twice in lock step, once through the wrappers and once with the plain calls")
add("C18", MC, "exhaustive enumeration of configurations, each run in a process of its own",
    {"life": life},
    lambda c, b: c.cxx(b["life"], ["c18_set", "c18_args"]),
    note="all combinations of settings and use patterns")
add("C19", MC, "exhaustive enumeration of arguments and label patterns on the real wrappers against a byte oracle",
    {"str": strb},
    lambda c, b: (c.cxx(b["str"], ["c19_" + x for x in STR_SUITES]),
                  c.cxx(b["str"], ["c19n_search", "c19n_compare", "c19n_long"])),
    note="all small buffers over an alphabet with zero, ordinary and high bytes, all lengths, overlaps, label patterns and directives; "
         "searches and comparisons also with strict_data_dependencies off")
add("C20", MC, "exhaustive lock-step comparison of every function with the library's over small arguments",
    {"str": strb},
    lambda c, b: c.cxx(b["str"], ["c20_" + x for x in STR_SUITES]),
    note="the calls of C19 executed twice, once through the replacement and once with the library function")
add("C21", MC, "exhaustive enumeration of label updates and reads against a byte map",
    {"shadow": shadow},
    lambda c, b: c.cxx(b["shadow"], ["c21_pairs", "c21_seq", "c21_map", "c21_union", "c21_size", "c21_load"]),
    note="all sequences of set, add and read over ranges at byte, page and release-threshold boundaries")

add("C22", MC, "exhaustive enumeration of label graphs and output records, written as trace files, on the real mapping", {},
    lambda c, b: c.py("tdag_check.py", ["c22_map", "c22_far"]),
    note="all label graphs up to the bound over one or two inputs, with all output records and marks, against closure of the label relation")
add("C23", MC, "exhaustive enumeration of used/unused byte patterns, written as trace files, on the real cavity report", {},
    lambda c, b: c.py("tdag_check.py", ["c23_cav", "c23_far", "c23_render"]),
    note="all patterns of used, marked and unused bytes up to the bound; all rendered reports")
add("C24", MC, "exhaustive enumeration of label graphs, written as trace files, on the real forest", {},
    lambda c, b: c.py("tdag_check.py", ["c24_forest", "c24_far"]),
    note="all label graphs up to the bound; nodes, parents, leaves and reachable bytes against the label relation")
add("C25", MC, "exhaustive enumeration of small byte sets and queries against plain byte sequences", {},
    lambda c, b: c.py("regions_check.py", ["c25_sets", "c25_diff", "c25_slice", "c25_cmp", "c25_chunks", "c25_scale"]),
    note="all small sets of byte offsets over several inputs with every index, slice and search string")
add("C26", MC, "exhaustive enumeration of small graphs on the real queries against definitions by path enumeration", {},
    lambda c, b: c.py("misc_check.py", ["c26_graph", "c26_roots", "c26_union", "c26_long"]),
    assumptions=["the graph is not modified between queries"],
    note="all graphs of up to 4 nodes, 5-node graphs with forward edges and one back edge, all queries in two orders and twice")
add("C27", MC, "exhaustive enumeration of small grammars and sentences on the real matcher against derivability by fixpoint", {},
    lambda c, b: c.py("grammar_check.py", ["c27_two", "c27_three", "c27_wide", "c27_chain", "c27_odd", "c27_long", "c27_hist", "c27_scale"]),
    note="all grammars of two productions with up to two rules of up to two symbols and three productions from a rule list, all sentences up to length 3 with all their parse trees; long rules and terminals; classic grammars with all sentences of length 7; all orders of adding rules")
add("C28", MC, "exhaustive enumeration of small grammars, simplified by the real code, against the language before", {},
    lambda c, b: c.py("grammar_check.py", ["c28_simplify", "c28_inline", "c28_scale"]),
    note="the grammars of C27: all sentences up to length 4 derivable before and after, well-formedness, matching after rewriting")
add("C29", MC, "exhaustive enumeration of parser runs and tree shapes on the real tree construction", {},
    lambda c, b: c.py("parse_check.py", ["c29_runs", "c29_trees", "c29_simplify", "c29_scale", "c29_tbig"]),
    note="all runs of a small parser up to 6-9 steps (reads, look-aheads, skips, steps back, blocks, nested calls) over inputs of 3-4 bytes; all trees of up to 7 nodes")
add("C30", MC, "exhaustive enumeration of operation sequences against a list model", {},
    lambda c, b: c.py("misc_check.py", ["c30_lru", "c30_oset", "c30_memo", "c30_big", "c30_obig"]),
    note="all sequences of 13 cache operations (depth 5, bounds 0-3 and none) and 11 set operations (depth 4)")
add("C32", MC, "exhaustive lock-step comparison of every intercepted query with the original over arguments and sequences",
    {"sys": sysb},
    lambda c, b: c.cxx(b["sys"], ["c32_calls", "c32_signals"]),
    note="every listed call with valid, invalid and omitted arguments; all sequences of signal operations up to the bound")
add("C33", MC, "stateless exploration of all interleavings of two threads' tracked calls up to a preemption bound, on the real wrappers",
    {"race": race},
    lambda c, b: c.cxx(b["race"], ["c33_race"]),
    assumptions=["threads do not use each other's descriptors", "scheduling points are library calls and lock acquisitions (instruction-level interleavings of the recording itself: C06, C07)"],
    note="every pair of 15 thread programs, every schedule with up to 2 (thorough 3) preemptions at library-call boundaries and lock acquisitions")
add("C34", MC, "exhaustive enumeration of hook sequences around the start of tracking on the real runtime against an event oracle",
    {"hooks": hooks},
    lambda c, b: c.cxx(b["hooks"], ["c34_hooks", "c34_values"]),
    note="all sequences of 16 hooks up to depth 3-4, up to 3 of them before the start; all boundary values, labels, function numbers and name lengths")

add("C35", MC, "exhaustive enumeration of program runs, every navigation query on every event against the run", {},
    lambda c, b: c.py("trace_check.py", ["c35_nav", "c35_inputs", "c35_extract", "c35_scale", "c35_many", "c35_xlong"]),
    assumptions=["the trace is a sequence of events behind the abstract trace interface (stored traces of this version hold no basic blocks)"],
    note="all runs of up to 5-9 steps (calls, returns, unfinished calls, blocks, loops, reads, look-aheads, skips, other events)")
add("C36", MC, "exhaustive enumeration of pairs of small traces against set differences", {},
    lambda c, b: c.py("trace_check.py", ["c36_diff", "c36_draw", "c36_scale", "c36_far"]),
    assumptions=["the trace is a set of functions with the bytes they used behind the abstract trace interface"],
    note="all pairs of byte sets touched by each of two functions over 3 bytes, all pairs of sets of 6 bytes, two inputs; every position and length of excerpts")

add("C37", MC, "exhaustive enumeration of small traces and printing options on the real commands against the trace's contents", {},
    lambda c, b: c.py("cli_check.py", ["c37_info", "c37_graph", "c37_cav"]),
    assumptions=["the package's version is provided (the package is not installed here)"],
    note="9 label graphs x output records x function traces x control-flow logs x choices of parts; mapping and forest of all label graphs of up to 5 labels; all patterns of 9 used bytes")
add("C38", FAULT, "exhaustive enumeration of journals, options and failing steps on the real build commands with recording stand-ins for the tools", {},
    lambda c, b: c.py("build_check.py", ["c38_targets", "c38_steps", "c38_build"]),
    assumptions=["the tools (blight-exec, get-bc, opt, compilers) are stand-ins that record their arguments and what they read", "no two targets share a name up to the suffix"],
    note="all journals of up to 3 of 8 recorded commands, every target, all 24 choices of options, every failing step")

NOT_APPLICABLE = {
    "C31": "the instrumentation passes are LLVM plugins for the vendored LLVM; they do not compile with the LLVM 18 here, so no instrumented program can be produced and explored offline",
}
