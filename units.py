"""What each property's check analyses and which rules decide it."""
import os, re
HERE = os.path.dirname(os.path.abspath(__file__))
ASSUME = ["clang 18's lowering of the source to LLVM IR is faithful", "mathematical integers stand for machine integers except where a subtraction may wrap",
          "the abstract interpreter in tool/ (widening, joins and polyhedral entailment) is sound for the constructs it models"]
PROPS = {}
def prop(pid, units, rule, explain, **kw): PROPS[pid] = dict(units=units, rule=rule, explain=explain, **kw)

# ------------------------------------------------------------------ queue
QV = ["f0", "c0", "o0", "x0", "f16", "o7", "x5"]
def unit_queue(R):
    bc = R.compile("probes/queue_probe.cpp", "queue", ["-DNDEBUG"])
    jobs = []
    if bc: jobs += [(R.sa, "queue", bc, "variant=" + v) for v in QV]
    if R.tier == "thorough":
        b2 = R.compile("probes/queue_probe.cpp", "queue_dbg"); b3 = R.compile("probes/queue_probe.cpp", "queue_more", ["-DNDEBUG", "-DMORE"])
        if b2: jobs += [(R.sa, "queue", b2, "variant=" + v) for v in QV]
        if b3: jobs += [(R.sa, "queue", b3, "variant=" + v) for v in ["b0", "d0", "t0", "w0", "b1", "d2", "t9", "w3", "x1"]]
    R.par(jobs)
    if bc and not R.broken: R.require("variants", len(QV))
QE = ("Every operation of the SPSC queue and of Channel is compiled to LLVM IR for heap, doubly mapped and in-object storage and several item types, fully inlined, and interpreted over convex "
      "polyhedra from an arbitrary valid ring state (any capacity, position and occupancy; the other side may advance at any moment). Each store to an index, item copy, offered window and return value is an obligation. ")
prop("C01", ["queue"], "every publication of an index is a release store preceded by complete transfers; every slot access relies on the opposite index obtained by an acquire load", QE)
prop("C02", ["queue"], "no non-atomic queue field is written by one side and accessed by the other; indices are advanced by their own side only; queries write nothing", QE + "Field accesses of all producer, consumer and query operations are compared pairwise.")
prop("C03", ["queue"], "a transfer never exceeds the free/filled slots; refusals imply the index last seen proves lack of room/items; size/space/empty are exact from the calling side; construction gives at least the requested capacity and an empty queue", QE)
prop("C04", ["queue"], "slot accesses lie in the ring; transferred ranges are the next items in order without gap or overlap; the published advance equals the reported count", QE)
prop("C05", ["queue"], "windows past the end are offered only when mapped; the two fixed mappings lie exactly one ring length apart at file offset 0 with that length; ordinary storage covers the ring", QE + "Construction is interpreted with every mapping call free to fail.")
prop("C07", ["queue"], "no call other than item copies, no exception edge and, outside push/pop, no loop that re-reads shared state in any channel operation", QE + "The inlined body of each operation is searched for effects.")

# ------------------------------------------------------------------ schedulers
O2 = ["-std=c++17", "-O2", "-g", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-w"]
def unit_sched(R):
    bc = R.compile("probes/sched_probe.cpp", "sched", ["-DNDEBUG"], O2); jobs = []
    if bc:
        for n, deep, ws in [(10, 0, [9, 4, 0, 11]), (3, 1, [0, 1, 2, 3, 4]), (5, 0, [0, 3, 5, 6]), (2, 1, [0, 1, 2, 3]), (1, 1, [0, 1, 2])]:
            jobs += [(R.sa, "sched", bc, "n=%d" % n, "w=%d" % w, "deep=%d" % deep) for w in ws]
    if R.tier == "thorough":
        jobs += [(R.sa, "sched", bc, "n=5", "w=%d" % w) for w in range(7)] if bc else []
        jobs += [(R.sa, "sched", bc, "n=10", "w=%d" % w, "deep=0") for w in (1, 2, 3, 5, 6, 7, 8)] if bc else []
        b2 = R.compile("probes/sched_probe.cpp", "sched_more", ["-DNDEBUG", "-DMORE"], O2); b3 = R.compile("probes/sched_probe.cpp", "sched_dbg", [], O2)
        if b2: jobs += [(R.sa, "sched", b2, "n=%d" % n, "w=%d" % w, "deep=0") for n, ws in [(4, range(6)), (7, range(9)), (9, range(11)), (16, [0, 2, 5, 8, 15, 16, 17]), (40, [0, 7, 8])] for w in ws]
        if b3: jobs += [(R.sa, "sched", b3, "n=3", "w=%d" % w) for w in range(5)]
    R.par(jobs)
    if bc and not R.broken and not R.undecided: R.require("workers", 40); R.require("procedure_calls", 100); R.require("launches", 15)
SE = ("FlowGraph's launch, stop and worker code is compiled for 1, 2, 3, 5 and 10 blocks, fully inlined, and interpreted with arbitrary configurations: first run/stop/destructor histories (thread per block, and pools of every size up to the block count), "
      "whose result (task bodies, captured values, scheduler tables) then seeds one analysis per started worker in which every block call may succeed or fail in any way and the stop request may appear at any check. ")
prop("C08", ["sched"], "after a fatal result a worker calls no block, stores the stop request, then invokes the registered callback (unless null) exactly once with the registered context, and leaves", SE)
prop("C09", ["sched"], "a worker leaves only once the stop request is seen; the stop request and callback follow fatal errors only; no cycle of the worker loop skips one of its blocks", SE)
prop("C10", ["sched"], "each block is run by exactly one started worker; every table index is in range; no two workers, nor the launcher after starting them, touch the same memory unsynchronised", SE)
prop("C11", ["sched"], "tasks are started only with the stop request clear and none left running; the request is set before joins and not cleared until then; every started task is joined exactly once in every history", SE)
prop("C12", ["sched"], "a delay requires adaptive sleep on and more consecutive failures of that block than the threshold, and lies within the configured maximum; otherwise that state is untouched", SE)
prop("C13", ["sched"], "at worker exit the block's counters equal the ghost count of its calls; single writer per block; nothing counted or timed when disabled", SE)
prop("C15", ["sched"], "every block call is preceded by a read of the (atomic) stop request since the previous call; once seen, the worker leaves without another call", SE)

# ------------------------------------------------------------------ blocks
BF = ["-std=c++17", "-O2", "-g", "-Xclang", "-disable-llvm-passes", "-fno-strict-aliasing", "-w", "-flto=full", "-fwhole-program-vtables", "-fvisibility=hidden", "-fcx-limited-range", "-Xclang", "-mno-constructor-aliases", "-isystem", "/usr/include/liquid"]
BSETS = {"MATH": ["add_f", "add_c", "demux", "shift", "gain_f", "gain_c", "noise_f", "noise_c", "fanout1", "fanout3", "throttle_f", "throttle_c", "throughput_f", "throughput_c", "null_f", "chirp_f", "chirp_c", "cw_f", "cw_c"],
         "LIQUID": ["chan1", "chan3", "resamp_f", "resamp_c", "fm", "lpf_f", "lpf_c"], "FILE": ["file_f", "file_c", "rdfile_f", "rdfile_c"], "SDR": ["sdrrx_f", "sdrrx_c", "hackrx", "hacktx"]}
def unit_block(R, sets=None):
    jobs = []; ne = len(errors(R))
    for s in BSETS if sets is None else sets:
        bc = R.compile("probes/block_probe.cpp", "block_" + s, ["-DSET_" + s, "-DNDEBUG"], BF + (["-I" + os.path.join(HERE, "stubs", "sdr")] if s == "SDR" else []))
        if not bc and s == "SDR": R.undecided.append("SDR blocks: " + R.broken.pop()[:300]); sets = [] # the vendors' interfaces are declared in stubs/sdr
        if bc: jobs += [(R.sa, "block", bc, "f=" + b, "errs=%d" % ne) for b in BSETS[s]]
    R.par(jobs)
    if not R.broken: R.require("blocks", sum(len(BSETS[s]) for s in (BSETS if sets is None else sets))); R.require("call_ends", 40 if sets is None or len(sets) else 0)
def unit_bmath(R): unit_block(R, ["MATH"])
def unit_bliq(R): unit_block(R, ["LIQUID"])
def unit_bfile(R): unit_block(R, ["FILE"])
def unit_bsdr(R): unit_block(R, ["SDR"])
UDPS = {"blk": ["src_blob", "src_blob_v", "src_pkt", "src_pkt_v", "snk_blob", "snk_blob_v", "snk_pkt", "snk_pkt_v"], "cls": ["sock_recv", "sock_send", "sock_receiver", "sock_sender", "sock_moved", "slab_life"]}
def unit_udp(R):
    e = errors(R)
    if "TERM_IOError" not in e: R.broken.append("no fatal I/O error among the error codes"); return
    bc = R.compile("probes/block_probe.cpp", "block_UDP", ["-DSET_UDP", "-DNDEBUG"], BF)
    if bc: R.par([(R.sa, "udp", bc, "set=" + s, "f=" + f, "errs=%d" % len(e), "ioerr=%d" % (1 + e.index("TERM_IOError"))) for s in UDPS for f in UDPS[s]])
    if not R.broken: R.require("blocks", len(UDPS["blk"])); R.require("functions", len(UDPS["cls"])); R.require("receptions", 20); R.require("sends", 20); R.require("slot_requests", 4); R.require("slot_returns", 8); R.require("deliveries", 20)
BE = ("Every self-contained block is instantiated as construct - any number of processing calls - destroy, compiled to LLVM IR, inlined and interpreted over convex polyhedra with channels at their contract (arbitrary amounts of input and space, "
      "changing in the caller's favour at any time) and every allocation, constructor and library call allowed to fail or throw; for arrays of channels one arbitrary element is followed. ")
prop("C16", ["block", "udp"], "released items <= items seen available; published items <= free space, inside the offered window and filled in this call; waiting operations only when known not to wait", BE)
prop("C17", ["bmath", "bliq", "bsdr"], "at the end of every call consumed = produced x ratio for each input/output pair, consumed items were read, error returns transfer nothing, computed output is delivered once, in order, before being overwritten", BE)
prop("C18", ["block", "udp"], "every access to a heap buffer, local buffer or channel window lies within its extent", BE)
prop("C19", ["block", "udp"], "every acquired resource is released exactly once on every normal and exceptional exit; nothing is used after release", BE)
prop("C22", ["bfile"], "items consumed = items the file accepted, in order; success only if all were accepted; items published = whole items read; end of file signalled once, nothing read after; no access to an unopened or closed file", BE)
UE = "The slab, the socket wrapper and both UDP blocks (blob and fixed-size items, with and without callbacks) are compiled to LLVM IR, inlined and interpreted over convex polyhedra; every system call may fail, be interrupted, or yield an empty, short or truncated datagram; the number of datagrams, slots and items is unbounded. "
prop("C20", ["udp", "rslab"], "the free list starts with each slot once and room for all; a slot is stored, delivered or returned exactly once before the next is taken; a returned slot was held; a blob denotes its own slot's region; the returning side, which several threads share, touches the free list only under a common lock", UE)
prop("C21", ["udp"], "the batch published is exactly the datagrams received whole and accepted, each once, in arrival order, none overwritten; a callback sees only such datagrams; fatal I/O error exactly for hard failures; each consumed item is sent once, whole, in order", UE)

# ------------------------------------------------------------------ shared state
RF = BF + ["-fstandalone-debug"]
def unit_race(R, sets=("PLOTS", "ADSB"), prop="C28"):
    jobs = []
    for s in sets:
        bc = R.compile("probes/race_probe.cpp", "race_" + s, ["-DSET_" + s, "-DNDEBUG", "-I" + os.path.join(HERE, "stubs")], RF)
        if bc: jobs.append((R.sa, "race", bc, "prop=" + prop))
    R.par(jobs)
    if not R.broken and prop == "C28": R.require("entry_points", 10); R.require("shared_accesses", 1000); R.require("conflicting_pairs", 100)
def unit_rslab(R):
    unit_race(R, ("SLAB",), "C20")
    if not R.broken: R.require("channel_operations", 3)
def unit_logger(R):
    import check
    src = os.path.join(check.REPO, "desktop_logger"); bc = R.compile(os.path.join(src, "desktop_logger.cpp"), "logger", ["-I" + src, "-I" + os.path.join(src, "zf_log")], O2)
    if bc: R.par([(R.sa, "race", bc, "set=logger", "prop=C23")])
    if not R.broken: R.require("entry_points", 9); R.require("lock_operations", 8); R.require("handle_uses", 8); R.require("conflicting_pairs", 50)
RE = "Every entry point is inlined; each access is given an access path from the shared object or global and the set of locks certainly held there (path-sensitive dataflow over lock operations). "
prop("C23", ["logger"], "accesses of any two entry points to the same mutable global share a lock or are atomic; no lock is taken twice, released unheld or kept at return; file operations only on handles known to be open, which are never left behind closed nor replaced unclosed", RE + "Entry points: every exported function and every function registered as a callback, all assumed to run concurrently.", technique="lockset dataflow + typestate on LLVM IR")
prop("C28", ["race"], "accesses of the worker and of GUI/query calls to the same location, one of them a write, share a lock or are atomic; each side of an internal channel is used by one thread or under a common lock, including through windows obtained from it", RE + "Worker, GUI and query calls of the plot blocks and the aircraft aggregator; ImGui/ImPlot are declared by stubs.", technique="lockset dataflow on LLVM IR")

# ------------------------------------------------------------------ core facilities
def unit_cstr(R):
    bc = R.compile("probes/core_probe.cpp", "core_str", ["-DSET_STR", "-DNDEBUG"])
    if bc: R.par([(R.sa, "core", bc, "set=str")])
    if not R.broken: R.require("functions", 48); R.require("obligations", 100)
def unit_cres(R):
    jobs = []
    for n, fl in (("rel", ["-DNDEBUG"]), ("dbg", [])):
        bc = R.compile("probes/core_probe.cpp", "core_res_" + n, ["-DSET_RESULT", *fl])
        if bc: jobs.append((R.sa, "core", bc, "set=res"))
    R.par(jobs)
    if not R.broken: R.require("functions", 56); R.require("exceptional_exits", 32)
def unit_cvm(R):
    bc = R.compile("probes/core_probe.cpp", "core_vm", ["-DSET_VMEM", "-DNDEBUG"])
    if bc: R.par([(R.sa, "core", bc, "set=vm")])
    if not R.broken: R.require("functions", 8); R.require("mappings", 20)
def unit_cplat(R):
    bc = R.compile("probes/core_probe.cpp", "core_plat", ["-DSET_PLATFORM", "-DNDEBUG"])
    if bc: R.par([(R.sa, "core", bc, "set=plat")])
    if not R.broken: R.require("queries", 2)
def errors(R):
    """enumerators of cler::Error in the current source, from clang's syntax tree"""
    import check
    rc, o = check.sh([check.CLANG, "-std=c++17", "-w", "-I" + os.path.join(check.REPO, "include"), "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=cler::Error", os.path.join(check.REPO, "include/cler.hpp")])
    names = []
    for m in re.finditer(r'"kind": "EnumConstantDecl",(?:(?!"kind":)[\s\S])*?"name": "(\w+)"', o):
        if m.group(1) not in names: names.append(m.group(1))
    return names
def unit_cerr(R):
    names = errors(R)
    if len(names) < 5: R.broken.append("cler::Error not found in the syntax tree"); return
    with open(os.path.join(R.tmp, "error_list.inc"), "w") as f: f.write("#define ERRORS(X) " + " ".join("X(%s)" % n for n in names) + "\n")
    bc = R.compile("probes/core_probe.cpp", "core_err", ["-DSET_ERROR", "-DNDEBUG", "-I" + R.tmp])
    if bc: R.par([(R.sa, "core", bc, "set=err")])
    if not R.broken: R.require("error_codes", len(names))
    lint_errors(R)
def strip_code(s):
    """source text with comments and literals blanked, line structure kept"""
    def sub(m):
        t = m.group(0); return '""' if t[0] == '"' else "' '" if t[0] == "'" else re.sub(r"[^\n]", " ", t)
    return re.sub(r'//[^\n]*|/\*[\s\S]*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', sub, s)
def sources(*dirs):
    import check
    for d in dirs:
        for root, ds, fs in os.walk(os.path.join(check.REPO, d)):
            ds[:] = [x for x in ds if x not in ("build", "_deps", "tests", "test")]
            for f in fs:
                if f.endswith((".hpp", ".h", ".cpp", ".cc", ".c")): yield os.path.relpath(os.path.join(root, f), check.REPO)
def lint_errors(R):
    import check
    n = 0
    for f in sources("include", "desktop_blocks", "desktop_logger"):
        s = strip_code(open(os.path.join(check.REPO, f), errors="replace").read()); n += len(re.findall(r"\bError\s*::\s*\w+", s))
        for rx, why in ((r"\breturn\s+\{?\s*(?:cler\s*::\s*)?Error\s*::\s*OK\b", "returns success as an error"), (r"\b(?:static_cast|reinterpret_cast)\s*<\s*(?:cler\s*::\s*)?Error\s*>|\(\s*(?:cler\s*::\s*)?Error\s*\)\s*[\w(]", "turns a number into an error code")):
            for m in re.finditer(rx, s): R.findings.append(dict(props="C24", rule="declared", func=f, loc="%s:%d" % (f, s.count("\n", 0, m.start()) + 1), msg=why))
    R.stats["error_mentions"] = R.stats.get("error_mentions", 0) + n
    if n < 50: R.broken.append("only %d mentions of error codes found" % n)
CE = "The facility is instantiated through small harness functions covering every public operation, compiled to LLVM IR, inlined and interpreted over convex polyhedra for every input. "
prop("C26", ["cstr"], "every write stays inside the fixed storage; after every operation the length is below the capacity, equals the number of stored characters and is followed by a terminator; the text is the longest prefix that fits", CE)
prop("C27", ["cres"], "construction, copy and the right accessor never throw and yield what was put in; the wrong accessor always leaves by an exception, with and without assertions", CE)
prop("C24", ["cerr", "block"], "every declared code has a text of its own; exactly the TERM codes are fatal; no processing call returns success or an undeclared value as its error", CE + "The codes are read from the syntax tree; the error returned at the end of every processing call of every analysed block is followed exactly; other block sources are searched for conversions and success returns.")
prop("C06", ["cvm"], "every OS call may fail; a valid region is live, mapped twice the reported size with the second half reported as second mapping; a failed creation holds nothing; every descriptor, mapping and file is released exactly once with its full length", CE)
prop("C29", ["cplat"], "state kept by a capability query is written only inside its once-only initialisation guard and read only after passing it; a query without kept state asks nothing that can change; the page size is positive", CE + "Accesses to kept state are checked against the guard by dominance.")

# ------------------------------------------------------------------ assertions
def unit_assert(R):
    import check
    repo = check.REPO; A = ["-I" + os.path.join(HERE, "stubs", "assert")]; lg = os.path.join(repo, "desktop_logger"); ez = os.path.join(repo, "desktop_blocks")
    X = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-femit-all-decls", "-march=graniterapids", "-isystem", "/usr/include/liquid", "-I" + os.path.join(HERE, "stubs"), "-I" + lg, "-I" + os.path.join(lg, "zf_log")]
    C = ["-x", "c", "-std=c11", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-D_GNU_SOURCE", "-isystem", "/usr/include/liquid"]
    units = [("probes/assert_probe.cpp", X, True), (os.path.join(lg, "desktop_logger.cpp"), X, True)]
    # sources that need libraries which may be missing are compiled where that works, and otherwise read as text
    known = {"desktop_logger/zf_log"}; probe = open(os.path.join(HERE, "probes", "assert_probe.cpp")).read()
    for f in sorted(sources("include", "desktop_blocks", "desktop_logger")):
        t = strip_code(open(os.path.join(repo, f), errors="replace").read())
        if not re.search(r"(?<![\w:])assert\s*\(", t) and "NDEBUG" not in t or '"%s"' % f in probe or f.startswith("desktop_logger"): continue
        if f.endswith(".c"): units.append((os.path.join(repo, f), C, False))
        elif not (f.startswith("include/") and f.endswith(".hpp")): units.append((os.path.join(repo, f), X + ["-x", "c++", "-include", "cstddef", "-include", "cler.hpp"], False))
    covered, lock = set(), __import__("threading").Lock()
    def one(n, src, fl, must):
        inc = A + ["-I" + os.path.join(repo, "include"), "-I" + repo]; full = src if os.path.isabs(src) else os.path.join(HERE, src); rel = os.path.relpath(full, repo if os.path.isabs(src) else HERE)
        def cc(out, *o): return check.sh([check.CLANG, *fl, *inc, *o, "-emit-llvm", full, "-o", out])
        bc = os.path.join(R.tmp, "as%d.bc" % n); rc, o = cc(bc, "-c", "-DNDEBUG")
        if rc:
            if must: R.broken.append("%s does not compile: %s" % (rel, o[:1000]))
            else: R.notes.append("%s cannot be compiled here; its assertions are read as text" % rel)
            return
        before = len(R.analysed); R.sa("assert", bc)
        outs = []
        for k, d in (("a", []), ("b", ["-DNDEBUG"])):
            f = os.path.join(R.tmp, "as%d%s.ll" % (n, k)); rc, o = cc(f, "-S", "-DVERIF_ASSERT_OFF", *d)
            if rc: R.broken.append("%s does not compile: %s" % (rel, o[:500])); return
            outs.append(bodies(open(f).read()))
        a, b = outs
        with lock: R.stats["functions_compared"] = R.stats.get("functions_compared", 0) + len(set(a) | set(b))
        for f in sorted(set(a) | set(b)):
            if a.get(f) != b.get(f):
                d = check.sh(["c++filt", f])[1].strip()
                if re.match(r"(zf_log|_zf_log)", d): continue
                R.findings.append(dict(props="C25", rule="differs", func=d, loc=rel, msg="does something else when NDEBUG is defined, beyond leaving out assertions"))
    R.par([(one, i, *u) for i, u in enumerate(units)])
    for a in R.analysed:
        if a.startswith("assert@"): covered.add(a[7:])
    for f in sources("include", "desktop_blocks", "desktop_logger"):
        t = strip_code(open(os.path.join(repo, f), errors="replace").read())
        for m in re.finditer(r"(?<![\w:])assert\s*\(", t):
            ln = t.count("\n", 0, m.start()) + 1; bol = t.rfind("\n", 0, m.start()) + 1
            if re.match(r"\s*#", t[bol:m.start()]): continue
            R.stats["assertions"] = R.stats.get("assertions", 0) + 1
            if "%s:%d" % (f, ln) in covered: continue
            d, i = 1, m.end()
            while d and i < len(t): d += {"(": 1, ")": -1}.get(t[i], 0); i += 1
            R.stats["assertions_read_as_text"] = R.stats.get("assertions_read_as_text", 0) + 1
            c = t[m.end():i - 1]; w = re.search(r"\+\+|--|(?<![=!<>])=(?!=)|\b\w*(?:push|pop|commit|readN|writeN|insert|erase|emplace|release|reset|clear|store|exchange|fetch_|fwrite|fread|fclose|fopen|write|send|recv|lock|init|start|stop|create|destroy|alloc|advance|next|update|run|execute)\w*\s*\(", c)
            if w: R.findings.append(dict(props="C25", rule="effect", func=f, loc="%s:%d" % (f, ln), msg="the asserted condition may change state (%s), which a build without assertions does not do" % w.group(0).strip()))
    if not R.broken: R.require("evaluations", 20); R.require("functions_compared", 500)
def bodies(ll):
    """function name -> its text in an IR listing"""
    out = {}
    for m in re.finditer(r"^define [^\n]*?@(\"[^\"]+\"|[\w.$]+)\([^\n]*\{\n([\s\S]*?)^\}", ll, re.M): out[m.group(1).strip('"')] = re.sub(r"[ ,]*[#!][\w.]+\b", "", m.group(2))
    return out
prop("C25", ["assert"], "between the marks of an assertion's evaluation nothing is written but temporaries of that evaluation and nothing is called that could change state; with assertions left out, every function compiles to the same code with and without NDEBUG",
     "The framework, the blocks and the logger are compiled with an assert macro that marks each evaluation; what is called inside is inlined and every instruction between the marks is judged. Assertions in code that cannot be compiled here are judged by their text. ", technique="effect analysis of LLVM IR between assertion marks; comparison of IR with and without NDEBUG")

# ------------------------------------------------------------------ hidden shared state
LIBSTATE = r"\b(?:strtok|localtime|gmtime|asctime|ctime|tmpnam|setlocale|putenv|setenv|drand48|lrand48|mrand48|gethostbyname|inet_ntoa|getpwnam|readdir|ptsname)\s*\("
def unit_hidden(R):
    import check
    repo = check.REPO; inc = ["-I" + os.path.join(HERE, "stubs", "assert"), "-I" + os.path.join(repo, "include"), "-I" + repo, "-I" + os.path.join(HERE, "stubs"), "-isystem", "/usr/include/liquid"]
    fl = ["-O1", "-Xclang", "-disable-llvm-passes", "-w", "-g1", "-DNDEBUG", "-DVERIF_ASSERT_OFF", "-c", "-emit-llvm"]; probe = open(os.path.join(HERE, "probes", "assert_probe.cpp")).read(); main = os.path.join(R.tmp, "hd.bc")
    rc, o = check.sh([check.CLANG, "-std=c++17", "-femit-all-decls", "-march=graniterapids", *inc, *fl, os.path.join(HERE, "probes", "assert_probe.cpp"), "-o", main])
    if rc: R.broken.append("assert_probe.cpp does not compile: " + o[:1500]); return
    linked, text, seen, deps = [], [], set(), set()
    rc, o = check.sh([check.CLANG, "-std=c++17", "-march=graniterapids", *inc, "-w", "-DNDEBUG", "-M", os.path.join(HERE, "probes", "assert_probe.cpp")])
    deps = set(os.path.relpath(os.path.realpath(x), os.path.realpath(repo)) for x in o.replace("\\\n", " ").split()[1:] if x.startswith("/"))
    lock = __import__("threading").Lock()
    def one(i, f):
        bc = os.path.join(R.tmp, "hd%d.bc" % i); full = os.path.join(repo, f)
        rc, o = check.sh([check.CLANG, *(["-x", "c", "-std=c11", "-D_GNU_SOURCE"] if f.endswith(".c") else ["-std=c++17", "-femit-all-decls", "-include", "cler.hpp"]), *inc, *fl, full, "-o", bc])
        with lock: (text if rc else linked).append(f if rc else (f, bc))
    rest = []
    for f in sorted(sources("include", "desktop_blocks")):
        if f in deps: continue
        if f.endswith((".c", ".cpp", ".cc")): rest.append(f)
        else: text.append(f)
    R.par([(one, i, f) for i, f in enumerate(rest)]); linked.sort()
    R.sa("hidden", main, *["with%d=%s" % (i, x[1]) for i, x in enumerate(linked)])
    R.stats["files_compiled"] = len(linked) + len([d for d in deps if d.startswith(("include", "desktop_blocks"))]); R.stats["files_read_as_text"] = len(text)
    for f in sorted(text): hidden_text(R, f, open(os.path.join(repo, f), errors="replace").read())
    if not R.broken: R.require("functions", 800); R.require("files_compiled", 40)
def hidden_text(R, f, raw):
    """sources that cannot be compiled here: variables with static storage that functions change"""
    t = strip_code(raw); depth, kinds, names, i = 0, [], {}, 0; fn = False
    ln = lambda k: t.count("\n", 0, k) + 1
    for m in re.finditer(LIBSTATE, t): R.findings.append(dict(props="C34", rule="unsafe-call", func=f, loc="%s:%d" % (f, ln(m.start())), msg="calls %s, which keeps its result or state in memory shared by all threads" % m.group(0).rstrip(" (")))
    SYNC = r"atomic|mutex|once_flag|thread_local|_Thread_local|condition_variable|\bconst\b|\bconstexpr\b"
    for m in re.finditer(r"\bstatic\s+((?:inline\s+)?[\w:<>,*&\s]+?[\s*&>])(\w+)\s*((?:\[[^\]]*\]\s*)*)(;|=|\{)", t):
        if re.search(SYNC, m.group(1)): continue
        n = m.group(2); rnd = re.search(r"mt19937|minstd|random_engine|_distribution", m.group(1)); ptr = "*" in m.group(1)
        w = r"(?<![\w.>])(?:%s\s*(?:::\s*)?)?%s\s*(?:\[[^\]]*\]\s*|\.\w+\s*|->\w+\s*)*(?:\+\+|--|[-+*/|&^%%]?=(?!=)|<<=|>>=)|(?:\+\+|--)\s*%s\b|mem(?:cpy|set|move)\s*\(\s*&?\s*%s\b|\b%s\s*\.\s*(?:push_back|emplace\w*|insert|erase|clear|resize|assign|swap|pop\w*|append)\s*\(" % (r"\w+", n, n, n, n)
        R.stats["static_variables_read_as_text"] = R.stats.get("static_variables_read_as_text", 0) + 1
        decl = (m.start(), m.end()); hits = [x for x in re.finditer(w, t) if not (decl[0] <= x.start() <= decl[1])]
        if rnd: hits += [x for x in re.finditer(r"\b%s\s*\(" % n, t) if not decl[0] <= x.start() <= decl[1]]
        for h in hits[:1]: R.findings.append(dict(props="C34", rule="hidden-state", func=f, loc="%s:%d" % (f, ln(h.start())), msg="changes %s, which has static storage and is shared by all instances" % n))
# ------------------------------------------------------------------ task policies
def unit_rtos(R):
    import check
    inc = ["-I" + os.path.join(HERE, "stubs", "rtos"), "-I" + os.path.join(check.REPO, "include"), "-I" + check.REPO]
    def one(s):
        bc = os.path.join(R.tmp, "rt_%s.bc" % s)
        rc, o = check.sh([check.CLANG, "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-w", "-g", "-DNDEBUG", "-DSET_" + s, *inc, "-c", "-emit-llvm", os.path.join(HERE, "probes", "rtos_probe.cpp"), "-o", bc])
        if rc: R.broken.append("rtos_probe.cpp (%s) does not compile: %s" % (s, o[:1500])); return
        R.sa("rtos", bc, "set=" + s)
    R.par([(one, s) for s in ("FREERTOS", "THREADX", "ZEPHYR", "DESKTOP")])
    known = set("cler_%s_tpolicy.hpp" % s.lower() for s in ("freertos", "threadx", "zephyr", "desktop")) | {"cler_task_policy_base.hpp"}
    for f in os.listdir(os.path.join(check.REPO, "include", "task_policies")):
        if f not in known: R.notes.append("task policy " + f + " is not analysed")
    if not R.broken: R.require("tasks_started", 20); R.require("life_cycles", 40); R.require("work_runs", 20)
prop("C14", ["rtos"], "a task and its kernel objects live in memory that outlives them; joining waits for the work, then releases everything once; a failed start releases what it acquired and leaves nothing to join",
     "Typestate analysis of create_task, the thread entry point and join_task of each policy in six life cycles (join, join again, two tasks, reuse, never started, waiting), over every outcome of each kernel call, both orders of starting thread and task, and a task overtaken after it has signalled. The kernel calls are the analyser's own model of their documented meaning. ", technique="path-sensitive typestate analysis of LLVM IR (points-to, resource and semaphore states)")
prop("C34", ["hidden"], "what runs while blocks are processed writes memory with static storage, or reached through it, only atomically, under a lock with static storage or during its one-time initialisation, and calls no library function that keeps such state",
     "All block sources are compiled and linked into one module; for every function the parameters and static objects it may write through are computed bottom-up over the call graph. Only code reached from constructors and destructors alone is exempt. Sources that cannot be compiled here are read as text. ", technique="interprocedural effect analysis of LLVM IR")

TECH = "abstract interpretation of LLVM IR (polyhedra + ghost state)"
NOTE = ("Static: decided on the LLVM IR compiled from the current source for the listed instantiations, for every input and every interference the stated contracts allow; "
        "nothing is executed. Trusts clang's lowering, the analyser in tool/, mathematical integers (no 64-bit wrap-around of sizes) and the contracts of library and OS calls.")
NA = {
 "C30": "numerical correctness of filter/resampler/modem output is delegated to liquid-dsp and depends on runtime sample values; no sound static argument in reach bounds it",
 "C31": "progress under arbitrary OS scheduling is a liveness property over runtime timing; source analysis here can only bound safety",
 "C32": "the achieved average rate depends on wall-clock time and the OS scheduler",
 "C33": "decoding is done by the vendored dump1090-derived decoder (desktop_blocks/adsb/modes.c): whether a bit pattern is decoded to the right message is a function of radio data and of an external standard, which no static argument over the source compares it with",
}
