#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

INC = "polytracker/include/taintdag/"
SRC = "polytracker/src/taintdag/"
TS = "polytracker/src/taint_sources/"
RT = "polytracker/src/compiler-rt/lib/dfsan/"
PY = "polytracker/"

prop("C01", "Combining tainted values keeps exactly the contributing input bytes",
 "Combining two tainted values yields a label whose set of contributing input bytes is exactly the union of the two operands' sets: nothing is lost and nothing is added. This holds in either operand order and whatever chain of reads, combinations and control-flow marks produced the operands.",
 ["histories", "inputs"], "every history of source reads and label combinations",
 "unit tests sample a few random pairs of hand-made taints; the result depends on the relative position of labels in the whole history (adjacent, enclosed, overlapping, duplicated a given distance back).",
 [INC + "union.h", INC + "labels.h", SRC + "encoding.cpp"],
 [("union_::Visitor/compute", INC + "union.h"), ("Labels::union_taint, duplicate_check", INC + "labels.h")],
 ["label returned by union and the stored entries reachable from it"])

prop("C02", "Labels are dense, stable and refer only to earlier labels",
 "Labels are handed out consecutively, one block per request in request order, and a label keeps denoting the same input bytes for the rest of the run; a derived label refers only to labels that existed before it. Repeating a combination returns the label it returned before as long as fewer than 100 labels were created since.",
 ["histories"], "every history of source reads, combinations and marks",
 "tests check one-step examples; density, stability and reuse are relations over the complete history.",
 [INC + "labels.h", INC + "section.h"],
 [("Labels::create_source_labels/union_taint/duplicate_check", INC + "labels.h"), ("SectionBase::write, FixedSizeAlloc::construct/construct_range/index", INC + "section.h")])

prop("C03", "Control-flow marking marks exactly the branch value and what it came from",
 "When a value influences a branch, its label and every label it was derived from are marked as affecting control flow, and no other label becomes marked. Marks are never lost, and marking never changes which input bytes any label denotes.",
 ["histories", "inputs"], "every label graph (deep, wide, shared, mixed ranges and unions) and every sequence of marks",
 "tests mark one small union and one range; the traversal switches data structure with the number of pending labels and prunes at marked labels.",
 [INC + "labels.h", INC + "labeldeq.h", SRC + "encoding.cpp"],
 [("Labels::affects_control_flow", INC + "labels.h"), ("LabelDeq", INC + "labeldeq.h")])

prop("C04", "Stored taint entries decode to exactly what was stored",
 "Every input-byte position (source number and offset), label pair and label range within the format's documented limits, marked or not as affecting control flow, is stored and read back unchanged, and two different taints never share a stored form. Adding the mark, testing for it, testing for an input byte and comparing entries while ignoring marks agree with that reading.",
 ["inputs"], "every taint value within the format limits",
 "tests sample random values; field overlaps show only at bit boundaries and maximal values.",
 [SRC + "encoding.cpp", INC + "encoding.h", INC + "taint.h", PY + "taint_dag.py"],
 [("encode/decode and bit layout", SRC + "encoding.cpp"), ("TDFile label decoding", PY + "taint_dag.py")])

prop("C05", "The source-label index flags exactly the input-byte labels",
 "After any sequence of reads and combinations the index in the trace flags a label if and only if that label stands for a single input byte, up to and including the last label. The size the index reports always covers every flagged label and stays within its storage.",
 ["histories", "inputs"], "every sequence of single and ranged insertions at every alignment, and every history of reads and unions",
 "tests use a few fixed ranges per bucket width; head, middle and tail handling depend on start, length and alignment together.",
 [INC + "bitmap_section.h", SRC + "polytracker.cpp"],
 [("BitmapSectionBase::set/set_range/is_set/size", INC + "bitmap_section.h"), ("create_source_taint", SRC + "polytracker.cpp")])

prop("C06", "Concurrent recording is atomic: nothing lost, torn or shared",
 "When several threads read inputs, combine labels, write outputs, log control flow and log functions at the same time, every event appears in the trace exactly once and intact, no two requests receive overlapping labels, every label returned denotes what was asked for, each thread's own events keep their order, and no schedule deadlocks.",
 ["schedules"], "every interleaving of two or three threads recording events (up to a preemption bound)",
 "no test records from more than one thread.",
 [INC + "section.h", INC + "labels.h", INC + "string_table.h", INC + "sink.h", INC + "control_flow_log.h", SRC + "fnmapping.cpp", SRC + "fntrace.cpp", INC + "taint_source.h"],
 [("SectionBase::write lock held for the lifetime of the write context", INC + "section.h"), ("mappings_mutex", SRC + "fnmapping.cpp")])

prop("C07", "Concurrent index updates and stream offsets lose nothing",
 "When several threads flag labels in the source-label index concurrently, every flagged label stays flagged, nothing else is flagged, and the final reported size covers them all; when several threads consume a stream concurrently, each gets a disjoint consecutive block of stream offsets with no gap.",
 ["schedules"], "every interleaving of two or three threads updating the same and neighbouring words, up to a preemption bound",
 "tests are single threaded; lost updates need a particular interleaving of load and compare-exchange.",
 [INC + "bitmap_section.h", INC + "stream_offset.h"],
 [("set_bits and update_buckets_used compare-exchange loops", INC + "bitmap_section.h"), ("StreamOffset::increase", INC + "stream_offset.h")])

prop("C08", "The trace file is well formed: aligned, disjoint, correctly sized sections",
 "A finished trace file carries the magic, the section count and one header per section, each section lies inside the file, is aligned as it declares, overlaps no other section or the header, and its declared size equals what was recorded into it. This holds for any combination of section kinds, sizes and alignments and for anything recorded.",
 ["configurations", "histories"], "every arrangement of sections (alignment, size, order) and every recording history",
 "tests instantiate two fixed layouts and never inspect offsets.",
 [INC + "outputfile.h", INC + "storage.h", INC + "section.h", INC + "string_table.h"],
 [("OutputFile::do_allocation/required_allocation_size/~OutputFile", INC + "outputfile.h")])

prop("C09", "Everything recorded in a trace is read back unchanged",
 "For any recording history, the Python reader returns exactly the sources (name, descriptor, size, order), labels, control-flow marks, input-label index, strings and output records that were recorded, in order, with nothing added or dropped. This includes empty histories, empty and maximal-length names, and maximal field values.",
 ["histories", "inputs"], "every recording history up to the explored depth over extreme field values",
 "tests that cross the writer/reader boundary need the LLVM 12 pipeline and do not run; the Python tests read a few canned or hand-made files.",
 [PY + "taint_dag.py", SRC + "polytracker.cpp", INC + "string_table.h", INC + "sink.h", INC + "taint_source.h"],
 [("TDFile and section classes", PY + "taint_dag.py"), ("PolyTracker", SRC + "polytracker.cpp")])

prop("C10", "The control-flow log decodes to the events and call stacks that happened",
 "For any sequence of function entries, function exits and tainted branches of one thread, the reader yields exactly the tainted branches that happened and the function entries and exits, in order, each with the call stack, function and label that held at that moment; frames abandoned without an exit are reported as left once an outer function exits, and frames still open at the end are reported as left at the end. If threads interleave, every branch is still reported with its function and label. Function ids and labels of any 32-bit magnitude survive.",
 ["histories", "inputs"], "every event sequence up to the explored depth with ids at every encoding boundary",
 "tests encode six integers and decode one hand-written log.",
 [INC + "control_flow_log.h", PY + "taint_dag.py"],
 [("varint_encode, function_event, tainted_control_flow", INC + "control_flow_log.h"), ("TDControlFlowLogSection", PY + "taint_dag.py")])

prop("C11", "The function trace names every call and return in order",
 "Logging function entries and exits yields, for every sequence of names, one event per call in order, each resolving to the exact name logged; equal names share one entry and different names never do, however the caller stores the name.",
 ["histories", "inputs"], "every sequence of entries and exits over names that are equal, prefixes of one another, empty, long, or held in reused buffers",
 "tests add two fixed literals.",
 [SRC + "fnmapping.cpp", SRC + "fntrace.cpp", SRC + "polytracker.cpp", PY + "taint_dag.py"],
 [("Functions::add_mapping", SRC + "fnmapping.cpp"), ("Events::log_fn_event", SRC + "fntrace.cpp"), ("TDFile.fn_headers/events", PY + "taint_dag.py")])

prop("C12", "Running out of room never corrupts or silently drops a recording",
 "When a table of the trace (labels, sources, names, functions, output records, control-flow events) has no room for a request, the run stops with an error or the request is visibly refused; what was recorded earlier stays intact and readable, nothing is written outside the table, and no later input byte is attributed to the wrong source.",
 ["fault_sequences", "histories"], "every fill level around each table's capacity and every request size that straddles it",
 "capacity is tested only for one small string table; the real tables hold up to 2^31 entries.",
 [INC + "section.h", INC + "labels.h", INC + "taint_source.h", INC + "sink.h", INC + "string_table.h", SRC + "fnmapping.cpp", SRC + "polytracker.cpp", INC + "control_flow_log.h"],
 [("SectionBase::write bounds check", INC + "section.h"), ("error_exit", INC + "error.h")])

prop("C13", "A run that ends in an orderly way leaves a complete, readable trace",
 "Whatever point of its recording history the program ends at, by returning from main, calling exit or failing an assertion, the trace file left behind is readable and contains everything recorded up to that point. If the process is killed instead, the file is still recognisable as a trace and already holds every byte recorded so far in its place.",
 ["crash_points", "histories"], "every point of a recording history as the end point, for every way of ending",
 "no test ends an instrumented process early.",
 ["polytracker/src/polytracker/main.cpp", TS + "taint_sources.cpp", INC + "outputfile.h", INC + "storage.h"],
 [("taint_start/polytracker_end atexit", "polytracker/src/polytracker/main.cpp"), ("__assert_fail wrapper", TS + "taint_sources.cpp"), ("~OutputFile", INC + "outputfile.h")])

prop("C14", "Every byte read from a tracked file is labelled with its file and offset",
 "After any sequence of opens, seeks, reads through any supported call (unbuffered, positioned, buffered blocks, characters, lines, memory maps) and closes, each byte delivered to the program carries a label denoting the file it was opened as and its true offset in that file. Bytes beyond those delivered, and bytes from descriptors that are not tracked, receive no label from the call.",
 ["histories", "inputs", "fault_sequences"], "every call sequence up to the explored depth over the read interfaces, seeks, short reads, end of file, several files and reused descriptors",
 "the tests of the wrappers need the LLVM 12 pipeline and do not run here; they also use one call pattern per test program.",
 [TS + "taint_sources.cpp", SRC + "polytracker.cpp", SRC + "util.cpp", INC + "taint_source.h"],
 [("__dfsw_open/read/pread/fread/getc/fgets/getdelim/mmap wrappers", TS + "taint_sources.cpp"), ("source_taint", SRC + "polytracker.cpp"), ("Offset/Length", SRC + "util.cpp")])

prop("C15", "Stream inputs are labelled with consecutive offsets, without gap or overlap",
 "For inputs that cannot report a position (pipes, sockets, terminals, standard input when enabled) the bytes delivered are numbered consecutively from zero per source in the order delivered, across all read and receive calls and short reads, and failed or empty reads consume no offset. Sources do not influence one another's numbering.",
 ["histories", "fault_sequences"], "every sequence of read and receive calls, chunkings and failures up to the explored depth over several streams",
 "as for file reads; in addition nothing tests chunking.",
 [TS + "taint_sources.cpp", SRC + "polytracker.cpp", INC + "stream_offset.h"],
 [("StreamOffset::increase", INC + "stream_offset.h"), ("recv/recvfrom/accept/connect wrappers", TS + "taint_sources.cpp")])

prop("C16", "Every tainted byte written to a tracked output is recorded at its offset",
 "After any sequence of writes through any supported call to tracked outputs, the trace records exactly one entry per tainted byte actually written, with the label the byte carried, the output it went to and its true offset in that output (consecutive offsets for streams, untainted bytes counted). Untainted bytes, failed writes and the unwritten tail of short writes record nothing.",
 ["histories", "inputs", "fault_sequences"], "every sequence of write calls, taint patterns, short and failed writes up to the explored depth over several outputs",
 "the tests need the LLVM 12 pipeline and do not run here.",
 [TS + "write_taints.cpp", SRC + "polytracker.cpp", INC + "sink.h"],
 [("__dfsw_write/fwrite/putc/fputc/send", TS + "write_taints.cpp"), ("taint_sink", SRC + "polytracker.cpp")])

prop("C17", "Tracked input/output calls behave exactly like the calls they replace",
 "Every supported open, read, write, map, allocation, socket and termination call returns the same result, delivers or writes the same data, leaves the same file position, error state, file permissions and flags as the plain library call with the same arguments, for successful and failing calls alike, and leaves the taint of its result defined.",
 ["histories", "inputs", "fault_sequences"], "every call sequence up to the explored depth, including failing calls and all creation modes",
 "no test compares a wrapper with the call it replaces.",
 [TS + "taint_sources.cpp", TS + "write_taints.cpp", TS + "memory_taints.cpp"],
 [("impl_open, impl_read_recv_functions, impl_fread, impl_write_send", TS + "taint_sources.cpp")])

prop("C18", "Command-line and environment settings select exactly the requested tracking",
 "Standard input, output and error are tracked if and only if their setting is enabled, command-line arguments are labelled byte by byte under a source named after their position if and only if that setting is enabled, and the trace is written to the configured path or the documented default. Settings do not influence one another, and nothing that is not enabled is labelled or recorded.",
 ["configurations", "inputs"], "every combination of settings and values, and every argument vector up to the explored size",
 "tests of settings need the LLVM 12 pipeline and do not run here.",
 ["polytracker/src/polytracker/main.cpp", TS + "argv.cpp", "polytracker/src/polytracker/polytracker.cpp"],
 [("polytracker_parse_env, sink_streams, stdin_source", "polytracker/src/polytracker/main.cpp"), ("taint_argv", TS + "argv.cpp")])

prop("C19", "Memory and string functions carry each byte's label with the byte",
 "After a supported memory or string function copies, moves, fills, duplicates, appends, formats or reallocates data, every destination byte that came from a source byte carries that byte's label, every byte filled from a value carries the value's label, a number converted from or to text carries the labels of the characters or the number it came from, and no byte outside the destination changes label. The result of a search carries the label of the pointer searched; with strict_data_dependencies off, the results of searches and comparisons carry the labels of exactly the bytes examined. This holds for every length, overlap and terminator position and any label pattern.",
 ["inputs", "histories"], "every small buffer content, label pattern, length, overlap and destination offset",
 "there is no runnable test of these functions at all.",
 [RT + "dfsan_custom.cpp", TS + "memory_taints.cpp", TS + "string_taints.cpp", RT + "dfsan.cpp"],
 [("__dfsw_mem*/str*/sprintf wrappers", RT + "dfsan_custom.cpp"), ("__dfsw_realloc", TS + "memory_taints.cpp"), ("__dfsw_strcat", TS + "string_taints.cpp")])

prop("C20", "Memory, string and conversion functions return what the library returns",
 "Every supported memory, string, search, comparison, conversion and formatting function returns the same result (for comparisons the same sign) and leaves the same bytes in memory as the standard library for the same arguments. This includes bytes above 127, embedded terminators, zero lengths, truncation, all search characters and all format directives it accepts.",
 ["inputs"], "every small argument combination over an alphabet with zero, ordinary and high bytes",
 "there is no runnable test of these functions at all.",
 [RT + "dfsan_custom.cpp", TS + "string_taints.cpp"],
 [("__dfsw_* reimplementations", RT + "dfsan_custom.cpp")])

prop("C21", "Labels set on memory are read back for exactly that memory",
 "Setting or adding a label on any byte range changes the label of exactly those bytes, reading a range yields the combination of exactly its bytes' labels, and combining with the empty label is neutral. This holds for every range size and alignment, including ranges large enough to release backing pages, and for repeated and overlapping updates.",
 ["histories", "inputs"], "every sequence of set, add and read operations over ranges at byte, word, page and release-threshold boundaries",
 "there is no runnable test of label storage; the page-release path needs large aligned clears.",
 [RT + "dfsan.cpp", RT + "dfsan_interface.h", "polytracker/src/compiler-rt/lib/dfsan/dfsan.h"],
 [("dfsan_set_label/SetShadow, dfsan_add_label, dfsan_read_label, __dfsan_union, __dfsan_union_load", RT + "dfsan.cpp")])

prop("C22", "Input/output mapping reports exactly the input bytes behind each output byte",
 "For any trace, the reported mapping relates an input byte to an output byte if and only if the output byte's label was derived from that input byte; the reported set of inputs affecting control flow is exactly the input bytes so marked; and every source is listed once with its own identity.",
 ["histories", "inputs"], "every label graph and set of output records up to the explored size",
 "tests that exercise the mapping need traces produced by the LLVM 12 pipeline and do not run.",
 [PY + "mapping.py", PY + "taint_dag.py", PY + "inputs.py"],
 [("InputOutputMapping", PY + "mapping.py"), ("TDProgramTrace", PY + "taint_dag.py")])

prop("C23", "Cavity reports list exactly the input bytes that influenced nothing",
 "For any trace, the reported cavities of an input are exactly the maximal runs of its bytes that neither flow into an output nor affect control flow: they are in order, disjoint, not adjacent, inside the input, and rendering them shows the right bytes.",
 ["inputs", "histories"], "every pattern of used and unused bytes and every input size up to the bound",
 "tests check a handful of fixed patterns.",
 [PY + "mapping.py"], [("InputOutputMapping.file_cavities / written_input_bytes / cavities commands", PY + "mapping.py")])

prop("C24", "The taint forest shows every label with its true parents and sources",
 "For any trace, the taint forest contains every label once, its leaves are exactly the input bytes with their source, offset and control-flow mark, and the input bytes reachable from any node equal those its label denotes.",
 ["histories", "inputs"], "every label graph up to the explored size",
 "forest tests need traces produced by the LLVM 12 pipeline and do not run.",
 [PY + "taint_dag.py", PY + "taint_forest.py"], [("TDTaintForest", PY + "taint_dag.py"), ("TaintForest", PY + "taint_forest.py")])

prop("C25", "Sets and regions of tainted bytes obey set and interval laws",
 "Grouping tainted bytes into regions yields maximal contiguous runs per input that together hold exactly the given bytes in order; membership, length, slicing and searching of regions and taint sets, ordering and equality of byte offsets, and differences of taint sets agree with the plain sequences of bytes they stand for.",
 ["inputs"], "every small set of byte offsets over several inputs and every small index, slice and search string",
 "there are no tests of these operations beyond a few examples.",
 [PY + "tracing.py", PY + "inputs.py"], [("ByteOffset, Taints, TaintedRegion", PY + "tracing.py")])

prop("C26", "Graph queries return the graph-theoretic answer",
 "Roots, depth, ancestors, descendants, reachability, path lengths, dominators and dominator trees reported for any directed graph equal their mathematical definitions, and cached answers equal fresh ones as long as the graph is not modified between queries.",
 ["inputs", "histories"], "every directed graph up to the explored number of vertices and every query order",
 "tests use one example graph.",
 [PY + "graphs.py", PY + "cfg.py"], [("DiGraph and roots/dominator helpers", PY + "graphs.py")])

prop("C27", "A grammar matches exactly the sentences in its language",
 "Matching a sentence against a grammar succeeds if and only if the sentence can be derived from the start symbol, whatever the grammar's shape (recursive, ambiguous, nullable, cyclic, multi-byte terminals), and a reported parse tree derives exactly that sentence by the grammar's rules, also after rules were added. Iterating over a match yields every parse tree in which no production derives itself over the same bytes. A production from which no terminal can be reached stands for the empty sequence; an unexpected byte may be reported as ValueError, which counts as not matching. Matching always terminates.",
 ["inputs", "programs"], "every grammar over a small symbol set and every sentence up to the explored length",
 "tests match a few hand-written grammars.",
 [PY + "grammars.py", PY + "parsing.py"], [("EarleyParser, Grammar.match", PY + "grammars.py")])

prop("C28", "Simplifying a grammar never changes its language",
 "Simplifying or otherwise rewriting a grammar preserves the set of sentences it derives and leaves it well formed: every symbol used is defined, use records match the rules, and the start symbol stays.",
 ["inputs", "programs"], "every grammar over a small symbol set",
 "tests simplify one or two grammars and check only their size.",
 [PY + "grammars.py"], [("Grammar.simplify, Production.remove_sub_production, Rule", PY + "grammars.py")])

prop("C29", "Parse-tree construction and simplification keep the parsed bytes",
 "The parse tree built from a trace of nested calls and the bytes their basic blocks consumed, and its simplified form, are lawful (every child inside its parent, siblings ordered and disjoint, nothing left out), the concatenation of their leaves equals the parsed input, and the grammar extracted from them derives that input. A parser that goes back in its input may be refused with ValueError. Copies of trees are independent of the original, and traversals visit every node once in order.",
 ["inputs", "histories"], "every tree shape and interval nesting up to the explored size",
 "tests check random trees of fixed seeds.",
 [PY + "parsing.py"], [("ParseTree, MutableParseTree, NonGeneralizedParseTree", PY + "parsing.py")])

prop("C30", "Caches and ordered sets behave like the plain containers they stand for",
 "For every operation sequence the bounded cache returns the most recently stored value for each key it still holds, never exceeds its bound, evicts in least-recently-used order, the ordered set behaves like a set that iterates in insertion order, and a memoised function is evaluated once and keeps returning its first result, whatever that is.",
 ["histories"], "every operation sequence up to the explored depth",
 "tests exercise single operations.",
 [PY + "cache.py"], [("LRUCache, OrderedSet", PY + "cache.py")])

prop("C31", "Instrumentation tracks every data and control dependency",
 "Instrumenting any program leaves its behaviour unchanged and makes every data-flow and branch dependency visible to the tracking runtime.",
 ["programs"], "every input program",
 "needs the LLVM 12 toolchain, absent here; the repository's tests for it do not run either.",
 ["polytracker/src/passes"], [("taint tracking, tainted control flow, function tracing passes", "polytracker/src/passes")])

prop("C32", "System queries behave as the originals and deliver untainted data",
 "Every intercepted system query (file status, time, limits, names, users, polling, socket options and addresses, messages, signal handling, library lookup, threads) gives the same result, error and data as the original call for successful and failing calls alike, with and without its optional results. The memory it fills in loses exactly its stale labels (or takes the label of the data it was computed from), no other memory changes label, and a signal reaches the handler that was installed for it.",
 ["inputs", "histories"], "every intercepted query with every combination of valid, invalid and omitted arguments, and every sequence of handler installations, queries and deliveries",
 "there is no runnable test of these functions at all; failures need interrupted, truncated or refused calls.",
 [RT + "dfsan_custom.cpp"],
 [("__dfsw_stat, __dfsw_select, __dfsw_poll, __dfsw_sigaction, __dfsw_recvmsg, ...", RT + "dfsan_custom.cpp")])

prop("C33", "Threads opening and closing descriptors do not disturb each other's tracking",
 "Threads that open, read, write and close files, streams, pipes and connections of their own at the same time do not disturb each other's tracking: in every interleaving, also when a descriptor number freed by one thread is handed out to another at once, each byte read is labelled with the file (and descriptor and offset) it was read from, and each tainted byte written is recorded for the output it was written to, exactly once.",
 ["schedules", "histories"], "every interleaving, at system-call granularity, of two threads' open, read, write and close sequences on descriptors of their own",
 "the failures need a context switch between a system call and the bookkeeping that belongs to it; tests run one thread.",
 [TS + "taint_sources.cpp", TS + "write_taints.cpp", SRC + "polytracker.cpp"],
 [("__dfsw_open, __dfsw_close, __dfsw_fopen, __dfsw_fclose, __dfsw_accept, __dfsw_connect", TS + "taint_sources.cpp")])

prop("C34", "Instrumentation hooks record events but leave the program's values alone",
 "A hook called by instrumented code never changes the program: the value that decides a branch, switch or index comes back unchanged and with the label it had. Hooks called before tracking starts (from global constructors) record nothing and change nothing; called afterwards each records exactly its event: function entries and exits under the exact name given by pointer and length, marks for tainted branch values only, control-flow events for tainted conditions only, combined labels.",
 ["inputs", "histories"], "every sequence of hook calls before and after the start of tracking, with any value, label, function number and name",
 "no test calls the hooks at all (instrumented programs cannot be built here), and the order of hooks and start depends on the program.",
 ["polytracker/src/polytracker/polytracker.cpp"],
 [("__polytracker_log_func_entry, __dfsw___polytracker_log_tainted_control_flow, __polytracker_enter_function, ...", "polytracker/src/polytracker/polytracker.cpp")])

prop("C35", "Navigating a trace gives the events, calls and input use that happened",
 "For any trace of nested calls, basic blocks and byte accesses, navigation gives what happened: the caller, entry point, return and callees of each function entry, the basic blocks and the input bytes of each call, the next and previous control-flow events, the called function and the next block in the same function of each block, the next function entered after a call ended, and the entry point of the trace. The input properties list exactly the bytes never used, the bytes first used before their predecessor and the jumps back. The grammar extracted from a trace derives the input. Every query ends, also for calls that never return.",
 ["inputs", "histories"], "every run of a program: any nesting of calls, finished or not, any blocks, reads, look-aheads, skips and steps back",
 "the tests navigate one or two recorded traces; the answers depend on nesting, recursion, repetition and unfinished calls.",
 [PY + "tracing.py", PY + "inputs.py", PY + "grammars.py"],
 [("TraceEvent, FunctionEntry, FunctionInvocation, BasicBlockEntry, FunctionReturn, ProgramTrace.next_function_entry, input_properties", PY + "tracing.py")])

prop("C36", "Comparing traces reports exactly the functions and bytes that differ",
 "For any two traces, the comparison reports as only in one trace exactly the functions entered and the input bytes used in that trace and not in the other, per function and in total, each byte once; the text report and the picture show the same; excerpts of the input show the right bytes, with the mark below the right ones.",
 ["inputs"], "every pair of traces with any sets of functions and bytes, over one or several inputs",
 "no test compares traces; results depend on how regions overlap, touch and nest.",
 [PY + "diffing.py", PY + "visualizations.py"],
 [("TraceDiff, print_file_context", PY + "diffing.py"), ("file_diff, temporal_animation", PY + "visualizations.py")])

prop("C37", "Command-line reports print exactly what the trace holds",
 "For any trace the report commands show exactly what it holds and leave it unchanged: info prints the number of labels and, for each part asked for and for no other, one line per source, function, output record with its taint, label with its taint and control-flow mark, function event and control-flow event with its call stack, in recorded order; mapping prints the input bytes with the output bytes they reach; cavities prints one line per cavity; forest exports a graph with every label, in which each label leads to exactly the input bytes it denotes. They end with status 0.",
 ["inputs", "configurations"], "every trace and every choice of parts to print",
 "no test runs the report commands.",
 [PY + "taint_dag.py", PY + "mapping.py", PY + "taint_forest.py", PY + "graphs.py", PY + "__main__.py", PY + "plugins.py"],
 [("TDInfo.run", PY + "taint_dag.py"), ("MapInputsToOutputs.run, FileCavities.run", PY + "mapping.py"), ("ExportTaintForest.run", PY + "taint_forest.py"), ("DiGraph.to_dot", PY + "graphs.py")])

prop("C38", "Build commands rebuild recorded targets with exactly the chosen passes",
 "For any recorded build and any options, instrumenting targets handles each target in turn: it extracts the bitcode of the artifact recorded under that name, applies the control-flow-log pass before optimisation if and only if asked for, optimises, instruments with exactly the passes chosen and every ignore list given, and links with the compiler, arguments (without the recorded inputs and outputs) and libraries recorded for that target and the tracking runtime; each step reads what the step before it wrote. The single-step commands do their step alone. A build runs the given command unchanged with recording to the chosen journal and without records of earlier builds. A failing step, an unknown target or a missing setting ends the command with an error and nothing further is run.",
 ["inputs", "configurations", "fault_sequences"], "every journal, list of targets, choice of options and failing step",
 "the tests build a few programs with one set of options, and none of them without the full tool chain.",
 [PY + "build.py", PY + "__main__.py", PY + "plugins.py"],
 [("InstrumentTargets.run, _lower_bitcode, _instrument_bitcode, _find_target, _handle_cmd", PY + "build.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
