"""What is run for each property."""
import hashlib, os, re, shutil
from drive import NoAnswer, GB

PROPS = {}


def prop(pid):
    def d(f):
        PROPS[pid] = f
        return f
    return d


HIST_RULE = ("evaluations = operations executed against the real tree, each followed by a comparison of every observation "
             "with an ordered-map model; a distinct non-trivial case is a distinct (entry set, operation, key) triple executed "
             "on a tree of at least two entries. Cases: Gray-code walks over every subset of a small structured universe "
             "(every insertion/removal edge) in each composition, plus seeded random histories with steered sizes, plus fill/drain scenarios")


def hunt_jobs(c, bins, prop, quick=13, thorough=280, walks=True, builds=(("dbg", 4, 0), ("rel", 4, 4)), extra=(), bin="mon"):
    """builds: (build, processes, first shard)"""
    jobs = []
    secs = c.n(quick, thorough)
    for b, n, off in builds:
        for s in range(n):
            cmd = [bins[(b, bin)], "--mode", "hunt", "--prop", prop, "--tier", c.tier, "--seed", str(c.seed),
                   "--shard", str(off + s), "--shards", "8", "--walk-shards", str(n), "--secs", str(secs),
                   "--walks", str(c.n(1, 4 if b == "dbg" else 8) if walks else 0), "--walk-keys", str(8 if b == "dbg" else 9)] + list(extra)
            if b != "asan":
                cmd += ["--multitude", str(c.n(1, 6))]
            jobs.append({"name": "hunt-%s-%d" % (b, s), "group": "histories-" + b, "cmd": cmd, "wall": c.n(400, 3000),
                         "mem_gb": 0 if b == "asan" else 6, "env": ASAN if b == "asan" else {}})
    return jobs


ASAN = {"ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:allocator_may_return_null=0:quarantine_size_mb=64"}


def history(pid, least=20000):
    def f(c):
        c.rule = HIST_RULE
        bins = c.build([("dbg", "mon", True), ("rel", "mon", True)])
        c.run(hunt_jobs(c, bins, pid))
        c.require(len(c.distinct) >= least, "%d distinct cases" % len(c.distinct))
    PROPS[pid] = f


for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C18"):
    history(_p)


def simple_jobs(c, bins, bin, shares, args, group, env=None):
    """shares: (build, processes); the processes share the work by shard"""
    jobs = []
    total = sum(n for _, n in shares)
    at = 0
    for b, n in shares:
        for s in range(n):
            jobs.append({"name": "%s-%s-%s-%d" % (group, bin, b, s), "group": "%s-%s" % (group, b),
                         "cmd": [bins[(b, bin)]] + args(b) + ["--seed", str(c.seed + (0 if b != "asan" else 1000)), "--shard", str(at + s if env == "split" else s), "--shards", str(total if env == "split" else n)],
                         "mem_gb": 0 if b in ("asan", "tsan") else 8, "wall": c.n(500, 3000),
                         "env": ASAN if b == "asan" else {}})
        at += n
    return jobs


# ---- keys -------------------------------------------------------------------------------
KEY_RULES = {
    "C11": "evaluations = comparisons of split/join/order facts made on key pairs; a distinct non-trivial case is a distinct "
           "(key type, key or key pair) examined; types of up to 16 bits exhaustively, wider ones at edge patterns and at random",
    "C12": "evaluations = comparisons of positions (and of U2/U4 arithmetic results) with the rank order; a distinct "
           "non-trivial case is a distinct (key type, key) examined; types of up to 16 bits exhaustively",
}


def keys(pid):
    def f(c):
        c.rule = KEY_RULES[pid]
        c.eval_keys = ("cases",)
        bins = c.build([("dbg", "keys", False), ("rel", "keys", False)])
        c.run(simple_jobs(c, bins, "keys", (("dbg", 4), ("rel", 4)),
                          lambda b: ["--prop", pid, "--ms", str(c.n(800, 20000))], "keys"))
        c.require(len(c.distinct) >= 5000, "%d distinct cases" % len(c.distinct))
    PROPS[pid] = f


keys("C11")
keys("C12")


@prop("C24")
def c24(c):
    c.rule = ("evaluations = handles examined and lookups/neighbour queries compared, over histories in every composition; a distinct "
              "non-trivial case is a distinct (entry set, operation, key) triple on a tree of at least two entries, or a distinct "
              "(key type, key) whose borrowed and owned handles were compared")
    c.eval_keys = ("handles_examined", "operations", "observations_compared")
    bins = c.build([("dbg", "mon", True), ("rel", "mon", True), ("rel", "keys", False)])
    jobs = hunt_jobs(c, bins, "C24", walks=False, quick=11)
    jobs += simple_jobs(c, bins, "keys", (("rel", 2),), lambda b: ["--prop", "C24", "--ms", str(c.n(500, 10000))], "handles")
    c.run(jobs)
    c.require(len(c.distinct) >= 5000, "%d distinct cases" % len(c.distinct))


# ---- collections ------------------------------------------------------------------------
COLL_RULES = {
    "C20": "evaluations = observations of a collection compared with a map of maps; a distinct non-trivial case is a distinct "
           "(collection type, contents, operation) executed on a collection of at least two subtrees",
    "C21": "evaluations = observations of a list compared with a sequence; a distinct non-trivial case is a distinct "
           "(list contents, operation, rank) executed on a list of at least two elements",
    "C22": "evaluations = observations of a byte set compared with a 256-entry table; a distinct non-trivial case is a distinct "
           "set of at least two bytes whose every answer was compared",
}


def colls(pid):
    def f(c):
        c.rule = COLL_RULES[pid]
        c.eval_keys = ("observations_compared",)
        bins = c.build([("dbg", "colls", False), ("rel", "colls", False)])
        c.run(simple_jobs(c, bins, "colls", (("dbg", 4), ("rel", 4)),
                          lambda b: ["--prop", pid, "--ms", str(c.n(9000, 200000)), "--len", str(c.n(60, 120)), "--deep", str(c.n(0, 1))], "colls", "split"))
        c.require(len(c.distinct) >= 500, "%d distinct cases" % len(c.distinct))
    PROPS[pid] = f


for _p in ("C20", "C21", "C22"):
    colls(_p)


# ---- all compositions alike ---------------------------------------------------------------
@prop("C13")
def c13(c):
    c.rule = ("evaluations = operations executed in lockstep on every composition of one key width, each followed by a comparison of "
              "everything observed (relabelled keys) between compositions; a distinct non-trivial case is a distinct (entry set, "
              "operation, key) triple on a tree of at least two entries. The 64-bit ready-made types run in child processes of limited memory")
    bins = c.build([("dbg", "mon", True), ("rel", "mon", True), ("rel", "m64", False), ("dbg", "m64", False)])
    jobs = []
    for b, off in (("dbg", 0), ("rel", 4)):
        for s in range(4):
            jobs.append({"name": "lock-%s-%d" % (b, s), "group": "lockstep-" + b, "wall": c.n(400, 3000),
                         "cmd": [bins[(b, "mon")], "--mode", "lockstep", "--tier", c.tier, "--seed", str(c.seed), "--shard", str(off + s),
                                 "--shards", "8", "--secs", str(c.n(13, 280)), "--multitude", "24"]})
    for b in ("dbg", "rel"):
        for w in ("map", "set"):
            jobs.append({"name": "m64-%s-%s" % (b, w), "group": "marker64-" + b, "raw": True, "std": False, "mem_gb": 4, "wall": 400,
                         "cmd": [bins[(b, "m64")], "--which", w, "--seed", str(c.seed), "--cases", str(c.n(500, 8000) if b == "dbg" else c.n(3000, 60000))]})
    for r in c.run(jobs):
        if not r["name"].startswith("m64"):
            continue
        w = r["name"].split("-")[2]
        if r["rc"] is None:
            continue
        so, se = r["stdout"], r["stderr"]
        m = re.search(r"observed (\d+) ops (\d+)", so)
        if m:
            g = c.counters.setdefault(r["job"]["group"], {})
            for k, v in (("observations_compared", m.group(1)), ("operations", m.group(2))):
                g[k] = g.get(k, 0) + int(v)
        cmd = " ".join(os.path.basename(r["job"]["cmd"][0]) if i == 0 else x for i, x in enumerate(r["job"]["cmd"]))
        replay = "#veb-replay marker64\n#run %s (address space limited to 4 GB)\n%s\n# %s\n" % (cmd, so, se[-500:].replace("\n", " | "))
        last = [l for l in so.splitlines() if l.startswith("stage")]
        bad = [l for l in so.splitlines() if l.startswith("BAD")]
        if bad:
            c.violate("Marker64 (%s): %s" % (w, bad[0]), replay)
        elif last == ["stage third-insert"] and "memory allocation of" in se:
            # the finding: identified by the type and the stage
            mem = re.search(r"memory allocation of (\d+) bytes failed", se)
            c.violate("the third insertion into a ready-made 64-bit %s asks for %s bytes of memory and aborts" % (w, mem.group(1) if mem else "?"),
                      replay, signature="marker64-%s-third-insert" % w)
        elif r["rc"] != 0 or last[-1:] != ["stage end"]:
            c.violate("Marker64 (%s) ends with status %s: %s" % (w, r["rc"], (se or so)[-300:].replace("\n", " | ")), replay)
    c.require(len(c.distinct) >= 10000, "%d distinct cases" % len(c.distinct))


# ---- parts supplied by a user ----------------------------------------------------------------
@prop("C26")
def c26(c):
    c.rule = HIST_RULE + (". Here the compositions hold leaves, collections, lists, arrays, keys and hashers written against the public "
                          "traits, and monitors between a tree and its parts: contracts of the calls, and after every operation a "
                          "comparison of what the summaries and the collections hold")
    c.assumptions = ["the user-supplied parts honour the documented contracts themselves"]
    bins = c.build([("dbg", "parts", "parts"), ("rel", "parts", "parts")] + ([] if c.quick else [("asan", "parts", "parts")]))
    builds = (("dbg", 4, 0), ("rel", 4, 4)) + (() if c.quick else (("asan", 2, 2),))
    c.run(hunt_jobs(c, bins, "C26", builds=builds, bin="parts"))
    if not c.quick:
        c.run([c.miri("miri-parts-%d" % s, "miri-parts", "parts", ["--mode", "digest", "--small", "1", "--seed", str(c.seed), "--from", str(s * 60),
                      "--to", str(s * 60 + 60)], trees="parts", flags="-Zmiri-tree-borrows" if s % 2 else "", wall=3000) for s in range(8)])
    n = lambda k: sum(g.get(k, 0) for g in c.counters.values())
    c.require(len(c.distinct) >= 20000, "%d distinct cases" % len(c.distinct))
    c.require(n("calls_across_watched_boundaries") >= 100000, "calls across watched boundaries")
    c.require(n("summaries_compared_with_collections") >= 100000, "comparisons of summaries with collections")


# ---- exactly once, panics, undefined behaviour -----------------------------------------------
@prop("C14")
def c14(c):
    c.rule = HIST_RULE + (". Every value (and every instrumented key object) has an identity; the ledger of live identities is compared "
                          "with the entries after each operation. A second monitor replaces the allocator and checks that nothing is "
                          "left after each history's trees are gone")
    bins = c.build([("dbg", "mon", True), ("rel", "mon", True), ("rel", "store", True)])
    jobs = hunt_jobs(c, bins, "C14", quick=10, thorough=220)
    jobs += simple_jobs(c, bins, "store", (("rel", 3),), lambda b: ["--prop", "C14", "--tier", c.tier, "--secs", str(c.n(8, 150))], "heap")
    c.run(jobs)
    c.require(len(c.distinct) >= 20000, "%d distinct cases" % len(c.distinct))


@prop("C15")
def c15(c):
    c.level = "fault_enumeration"
    c.rule = ("evaluations = panics injected: for each examined (history, operation), one run per call of user code the operation makes "
              "(comparison, hash, clone, split, join, index, callback; at most 60 per operation, then evenly spread); after each, ledgers, "
              "mutual consistency and continued use are checked. A distinct non-trivial case is a distinct (composition, history, "
              "operation, call number) on a tree of at least two entries")
    c.eval_keys = ("faults_injected",)
    c.assumptions = ["user code panics by unwinding (panic=unwind)", "only user-supplied code panics, not the allocator"]
    bins = c.build([(b, "faults", True) for b in ("dbg", "rel", "asan")])
    c.run(simple_jobs(c, bins, "faults", (("dbg", 3), ("rel", 3), ("asan", 2)),
                      lambda b: ["--secs", str(c.n(12, 250)), "--cap", str(c.n(60, 400))], "faults"))
    if not c.quick:
        c.run([c.miri("miri-faults-%d" % s, "faults-miri", "faults", ["--small", "1", "--cases", "30", "--cap", "12", "--secs", "100000",
                      "--seed", str(c.seed), "--shard", str(s), "--shards", "8"], wall=2500) for s in range(8)])
    c.require(len(c.distinct) >= 2000, "%d distinct faults" % len(c.distinct))


@prop("C16")
def c16(c):
    c.rule = ("evaluations = operations executed under an undefined-behaviour detector: AddressSanitizer + LeakSanitizer with debug "
              "assertions, a debug build with the standard library's unsafe-precondition checks, and Miri (Stacked Borrows, Tree Borrows); "
              "a distinct non-trivial case is a distinct (entry set, operation, key) triple executed on a tree of at least two entries")
    c.assumptions = ["Miri's aliasing models are the reference for aliasing violations"]
    bins = c.build([("dbg", "mon", True), ("asan", "mon", True), ("asan", "faults", True), ("asan", "colls", True), ("dbg", "colls", True),
                    ("asan", "hostile", True), ("dbg", "hostile", True), ("asanr", "hostile", False)])
    n = c.n(16, 220)
    jobs = []
    for s in range(6):
        tb = s % 2 == 1
        jobs.append(c.miri("miri-%d" % s, "miri-tree-borrows" if tb else "miri-stacked-borrows", "mon",
                           ["--mode", "digest", "--small", "1", "--seed", str(c.seed), "--from", str(s * n), "--to", str(s * n + n)],
                           flags="-Zmiri-tree-borrows" if tb else "", wall=c.n(700, 3000)))
    for s in range(2):
        jobs.append(c.miri("miri-keys-%d" % s, "miri-keys", "keys", ["--prop", "C16", "--seed", str(c.seed), "--shard", str(s), "--shards", "2"], trees=False, wall=c.n(700, 3000)))
    # keys and callbacks that break their contracts: memory safety owes nothing to them
    for s in range(2):
        h = c.n(30, 600)
        jobs.append(dict(c.miri("miri-hostile-%d" % s, "miri-hostile", "hostile",
                                ["--seed", str(c.seed), "--from", str(s * h), "--cases", str(s * h + h), "--len", "30", "--secs", "100000"],
                                flags="-Zmiri-tree-borrows" if s else "", release=s == 1, wall=c.n(700, 3000)), hang_ok=True))
    for b in ("asan", "asanr", "dbg"):
        jobs.append({"name": "hostile-" + b, "group": "hostile-" + b, "mem_gb": 6 if b == "dbg" else 0, "wall": c.n(400, 3000), "hang_ok": True,
                     "env": {} if b == "dbg" else ASAN,
                     "cmd": [bins[(b, "hostile")], "--seed", str(c.seed + {"asan": 7, "asanr": 14, "dbg": 0}[b]), "--secs", str(c.n(8, 250)), "--len", "120"]})
    if not c.quick:
        for s in range(3):
            jobs.append(c.miri("miri-lists-%d" % s, "miri-collections", "colls", ["--prop", ("C20", "C21", "C22")[s], "--ms", "200000", "--len", "12", "--ub", "1", "--shards", "8", "--seed", str(c.seed)], wall=3400))
    jobs += hunt_jobs(c, bins, "C16", quick=12, thorough=250, builds=(("asan", 3, 0), ("dbg", 2, 3)))
    jobs += simple_jobs(c, bins, "faults", (("asan", 1),), lambda b: ["--secs", str(c.n(8, 200)), "--cap", "40", "--ub", "1"], "faults")
    for p in ("C20", "C21", "C22"):
        jobs += [dict(j, name=j["name"] + p) for j in simple_jobs(c, bins, "colls", (("asan", 1), ("dbg", 1)),
                 lambda b: ["--prop", p, "--ms", str(c.n(4000, 100000)), "--len", "60", "--ub", "1"], "colls")]
    c.run(jobs, workers=9)
    c.require(len(c.distinct) >= 5000, "%d distinct cases" % len(c.distinct))
    c.require(sum(c.counters.get("miri-%s-borrows" % k, {}).get("operations", 0) for k in ("stacked", "tree")) >= 300, "operations under Miri")


# ---- work ---------------------------------------------------------------------------------
CONSTANT_OPS = ("min_val", "max_val", "min_val_mut", "max_val_mut", "is_monad", "len_hint", "len", "failed into_monad")


def steps_jobs(c, path, big, seed, extra=()):
    jobs = []
    for s in range(8):
        d = os.path.join(c.work, "steps%d" % s)
        os.makedirs(d, exist_ok=True)
        jobs.append({"name": "steps-%d" % s, "group": "instructions", "raw": True, "std": False, "mem_gb": 0, "wall": 600, "cwd": d,
                     "cmd": ["valgrind", "--tool=callgrind", "--instr-atstart=no", "--callgrind-out-file=" + os.path.join(d, "o"), path,
                             "--shard", str(s), "--shards", "8", "--big", str(big), "--seed", str(seed)] + list(extra)})
    return jobs


def steps_judge(c, rs, extra=""):
    data = {}
    for r in rs:
        if r["rc"] is None:
            continue
        if r["rc"] != 0:
            if r["rc"] == 101 and "/repo/src" in r["stderr"]:
                c.violate("panic while measuring work: " + r["stderr"][-300:].replace("\n", " | "), "# " + r["stderr"][-2000:], r["job"])
                continue
            raise NoAnswer("%s: status %s: %s" % (r["name"], r["rc"], r["stderr"][-400:]))
        d = r["job"]["cwd"]
        for f in os.listdir(d):
            trig = cost = None
            for l in open(os.path.join(d, f), errors="replace"):
                if l.startswith("desc: Trigger: Client Request:"):
                    trig = l.split("Client Request:")[1].strip()
                elif l.startswith(("summary:", "totals:")):
                    cost = int(l.split(":")[1].split()[0])
            if trig and cost is not None:
                cfg, n, op, batch = trig.split("|")
                data[(cfg, op, int(n))] = cost / int(batch)
    g = c.counters.setdefault("instructions", {})
    g["operation_costs_measured"] = g.get("operation_costs_measured", 0) + len(data)
    cmp, worst = 0, 0.0
    for (cfg, op, n), v in sorted(data.items()):
        c.distinct.add(int.from_bytes(hashlib.sha1(("%s|%s|%d" % (cfg, op, n)).encode()).digest()[:8], "little"))
        if n < 1200 or op == "nothing":
            continue
        base = [w for (a, b, m), w in data.items() if (a, b) == (cfg, op) and m <= 100]
        if not base:
            continue
        base = max(base)
        limit = base + 100 if op in CONSTANT_OPS else 3 * base + 600
        cmp += 1
        worst = max(worst, v / limit)
        if v > limit:
            c.violate("%s on %s executes %.0f instructions with %d entries, %.0f with at most 100 (limit %.0f)" % (op, cfg, v, n, base, limit),
                      "#veb-replay steps\n#cfg %s\n#op %s\n#run valgrind --tool=callgrind --instr-atstart=no steps --seed %d --big %d%s\n" % (cfg, op, c.seed, n, extra))
    g["size_comparisons"] = g.get("size_comparisons", 0) + cmp
    g["max_percent_of_limit_reached"] = max(g.get("max_percent_of_limit_reached", 0), int(100 * worst))
    c.require(cmp >= 100, "%d size comparisons" % cmp)
    return data


@prop("C17")
def c17(c):
    c.rule = ("evaluations = operations whose user-visible key work (comparisons, hashes, clones, splits, joins, indexings) was counted and "
              "held against a bound per level, plus operation batches whose executed instructions were counted by callgrind at 2 to 30 000 "
              "entries; a distinct non-trivial case is a distinct (composition, operation, entry set) or (composition, operation, size)")
    c.eval_keys = ("operations", "operations_metered", "operation_costs_measured")
    bins = c.build([("rel", "cost", True), ("rel", "steps", False)])
    jobs = simple_jobs(c, bins, "cost", (("rel", 8),), lambda b: ["--tier", c.tier, "--secs", str(c.n(10, 200))], "keywork")
    c.run(jobs)
    steps_judge(c, c.run(steps_jobs(c, bins[("rel", "steps")], 30000, c.seed)))
    if not c.quick:
        for i, big in enumerate((4000, 100000, 300000)):
            shutil.rmtree(c.work, ignore_errors=True)
            os.makedirs(c.work)
            steps_judge(c, c.run(steps_jobs(c, bins[("rel", "steps")], big, c.seed + 100 + i)))
    c.require(len(c.distinct) >= 1000, "%d distinct cases" % len(c.distinct))


@prop("C28")
def c28(c):
    c.rule = ("evaluations = queries and iteration steps during which a counting allocator watched for requests, plus batches of "
              "iteration steps whose executed instructions were counted by callgrind at 2 to 30 000 entries; a distinct non-trivial case "
              "is a distinct (composition, entry set, probed key) or (composition, operation, size)")
    c.eval_keys = ("queries_metered", "iteration_steps_metered", "operation_costs_measured")
    bins = c.build([("dbg", "lazy", True), ("rel", "lazy", True), ("rel", "steps", False)])
    c.run(simple_jobs(c, bins, "lazy", (("dbg", 4), ("rel", 4)), lambda b: ["--tier", c.tier, "--secs", str(c.n(8, 200))], "memory"))
    it = ["--what", "iter"]
    steps_judge(c, c.run(steps_jobs(c, bins[("rel", "steps")], 30000, c.seed, it)), " --what iter")
    if not c.quick:
        for i, big in enumerate((4000, 100000, 300000)):
            shutil.rmtree(c.work, ignore_errors=True)
            os.makedirs(c.work)
            steps_judge(c, c.run(steps_jobs(c, bins[("rel", "steps")], big, c.seed + 100 + i, it)), " --what iter")
    seen = lambda k: sum(g.get(k, 0) for g in c.counters.values())
    c.require(seen("queries_metered") >= 100000 and seen("iteration_steps_metered") >= 100000, "queries and steps metered")
    c.require(seen("trees_whose_building_allocated") >= 100, "the allocator sees the trees")
    c.require(len(c.distinct) >= 1000, "%d distinct cases" % len(c.distinct))


@prop("C27")
def c27(c):
    c.rule = ("evaluations = operations whose stack was painted beforehand and read off afterwards; a distinct non-trivial case is a distinct "
              "(composition, operation, entry set) measured. Depths with thousands of entries are held against those with at most 60")
    c.eval_keys = ("operations_measured",)
    bins = c.build([("dbg", "stack", True), ("rel", "stack", True)])
    c.run(simple_jobs(c, bins, "stack", (("dbg", 4), ("rel", 4)), lambda b: ["--big", str(c.n(8000, 60000))], "stack"))
    if not c.quick:
        for i in range(4):
            c.run([dict(j, name="%s-%d" % (j["name"], i)) for j in
                   simple_jobs(c, bins, "stack", (("dbg", 4), ("rel", 4)), lambda b: ["--big", str((3000, 20000, 100000, 200000)[i]), "--salt", str(i + 1)], "stack")])
    c.require(len(c.distinct) >= 1000, "%d distinct cases" % len(c.distinct))
    c.require(sum(g.get("depths_compared", 0) for g in c.counters.values()) >= 2000, "depths compared")


# ---- threads ----------------------------------------------------------------------------
@prop("C19")
def c19(c):
    c.rule = ("evaluations = answers compared with the answer the same query gave before: repeated, reordered, on a twin tree that was never "
              "queried, after a trip to another thread, and from up to 6 threads at once (half of them yielding inside user key code); a distinct "
              "non-trivial case is a distinct (composition, query, tree) asked. Native build and ThreadSanitizer with an instrumented std")
    c.eval_keys = ("queries_alone", "queries_repeated", "queries_concurrent")
    bins = c.build([("rel", "threads", True), ("tsan", "threads", True), ("dbg", "threads", True)])
    jobs = []
    for b, n, secs in (("rel", 2, c.n(10, 200)), ("dbg", 1, c.n(8, 150)), ("tsan", 2, c.n(12, 250))):
        for s in range(n):
            jobs.append({"name": "threads-%s-%d" % (b, s), "group": "threads-" + b, "mem_gb": 0 if b == "tsan" else 8, "wall": c.n(500, 3000),
                         "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"} if b == "tsan" else {},
                         "cmd": [bins[(b, "threads")], "--seed", str(c.seed + (500 if b == "tsan" else 0)), "--shard", str(s), "--shards", str(n), "--secs", str(secs)]})
    c.run(jobs, workers=3)
    if not c.quick:
        c.run([c.miri("miri-threads-%d" % s, "threads-miri", "threads", ["--small", "1", "--threads", "3", "--cases", "12", "--secs", "1000000",
                      "--seed", str(c.seed), "--shard", str(s), "--shards", "8"], flags="-Zmiri-seed=%d -Zmiri-preemption-rate=0.05" % (c.seed * 8 + s), wall=3000) for s in range(8)])
    c.require(len(c.distinct) >= 1000, "%d distinct queries" % len(c.distinct))


@prop("C23")
def c23(c):
    c.rule = ("evaluations = operations executed under a counting allocator, with the tree's heap blocks compared with those of a freshly built "
              "tree of the same entries (and with zero interior storage at two entries or fewer); a distinct non-trivial case is a distinct "
              "(composition, entry set) compared")
    bins = c.build([("dbg", "store", True), ("rel", "store", True)])
    c.run(simple_jobs(c, bins, "store", (("dbg", 4), ("rel", 4)), lambda b: ["--prop", "C23", "--tier", c.tier, "--secs", str(c.n(12, 250))], "storage"))
    c.require(len(c.distinct) >= 1000, "%d distinct cases" % len(c.distinct))


# ---- builds and platforms -----------------------------------------------------------------
@prop("C25")
def c25(c):
    c.eval_keys = ("operations", "key_operations")
    c.rule = ("evaluations = tree and key operations whose results entered a digest; the digest of each history and key block is compared between the debug and the "
              "optimised build, and (small histories) between those and 32-bit little-endian and 64-bit big-endian targets under Miri; a "
              "distinct non-trivial case is a distinct (entry set, operation, key) triple on a tree of at least two entries")
    bins = c.build([("dbg", "mon", True), ("rel", "mon", True), ("dbg", "keys", False), ("rel", "keys", False)])
    # host size hints may differ between word sizes; they are the third part of a digest
    n, k = c.n(2400, 40000), c.n(96, 640)
    jobs = []
    for b in ("dbg", "rel"):
        for s in range(4):
            jobs.append({"name": "dig-%s-%d" % (b, s), "group": "digests-" + b, "wall": 3000,
                         "cmd": [bins[(b, "mon")], "--mode", "digest", "--seed", str(c.seed), "--from", "0", "--to", str(n), "--shard", str(s), "--shards", "4", "--multitude", str(c.n(4, 12))]})
        jobs.append({"name": "small-%s" % b, "group": "digests-" + b, "wall": 3000,
                     "cmd": [bins[(b, "mon")], "--mode", "digest", "--small", "1", "--seed", str(c.seed), "--from", "0", "--to", str(k)]})
    cross = []
    for t, tag in (("i686-unknown-linux-gnu", "i686"), ("s390x-unknown-linux-gnu", "s390x")):
        for s in range(3):
            cross.append(c.miri("x-%s-%d" % (tag, s), "digests-" + tag, "mon",
                                ["--mode", "digest", "--small", "1", "--seed", str(c.seed), "--from", "0", "--to", str(k), "--shard", str(s), "--shards", "3"],
                                flags="-Zmiri-disable-stacked-borrows", target=t, wall=3300))
    kb, km = c.n(400, 4000), c.n(1, 8)
    for b in ("dbg", "rel"):
        jobs.append({"name": "keys-" + b, "group": "digests-" + b, "wall": 3000,
                     "cmd": [bins[(b, "keys")], "--prop", "C25", "--seed", str(c.seed), "--blocks", str(kb)]})
    for t, tag in (("i686-unknown-linux-gnu", "i686"), ("s390x-unknown-linux-gnu", "s390x")):
        for s in range(2):
            cross.append(c.miri("kx-%s-%d" % (tag, s), "digests-" + tag, "keys",
                                ["--prop", "C25", "--seed", str(c.seed), "--blocks", str(km), "--shard", str(s), "--shards", "2"],
                                flags="-Zmiri-disable-stacked-borrows", target=t, trees=False, wall=3300))
    c.run(cross + jobs, workers=10)

    def keyread(name):
        p = os.path.join(c.work, name + ".json.digests")
        return dict(l.rsplit(" ", 1) for l in open(p).read().splitlines()) if os.path.exists(p) else {}
    kr, kc = keyread("keys-rel"), 0
    for what, o in (("debug and optimised", keyread("keys-dbg")), ("x86-64 and i686", {**keyread("kx-i686-0"), **keyread("kx-i686-1")}),
                    ("x86-64 and s390x", {**keyread("kx-s390x-0"), **keyread("kx-s390x-1")})):
        kc += len(o)
        diff = [k for k in sorted(o) if kr.get(k) != o[k]]
        if diff:
            ty, blk = diff[0].rsplit(" ", 1)
            c.violate("splitting, joining or comparing keys of type %s gives different results on %s" % (ty, what),
                      "#veb-replay keys\n#type %s\n#run keys --prop C25 --seed %d --blocks %d\n#block %s\n#compare %s\n" % (ty, c.seed, int(blk) + 1, blk, what))
        c.require(len(o) >= 20, "%d blocks of key digests for %s" % (len(o), what))
    c.counters.setdefault("comparison", {})["key_digests_compared"] = kc

    def read(name):
        p = os.path.join(c.work, name + ".json.digests")
        out = {}
        if os.path.exists(p):
            for l in open(p):
                i, cfg, d = l.split()
                out[int(i)] = (cfg, d)
        return out
    base, small = {}, read("small-rel")
    for s in range(4):
        base.update(read("dig-rel-%d" % s))
    dbg = {}
    for s in range(4):
        dbg.update(read("dig-dbg-%d" % s))
    sides = [("debug and optimised", base, dbg, 48, ""), ("debug and optimised", small, read("small-dbg"), 48, "--small 1 ")]
    for tag in ("i686", "s390x"):
        o = {}
        for s in range(3):
            o.update(read("x-%s-%d" % (tag, s)))
        sides.append(("x86-64 and " + tag, small, o, 32, "--small 1 "))
    compared, bad = 0, 0
    for what, x, y, w, extra in sides:
        for i in sorted(set(x) & set(y)):
            compared += 1
            if x[i][1][:w] != y[i][1][:w] and bad < 4:
                bad += 1
                c.violate("history %d on %s gives different results on %s" % (i, x[i][0], what),
                          "#veb-replay digest\n#cfg %s\n#run mon --mode digest %s--seed %d %s\n#compare %s\n" % (
                              x[i][0], extra, c.seed, "--from %d --to %d" % (i, i + 1) if i < 1 << 40 else "--from 0 --to 0 --multitude %d" % (i - (1 << 40) + 1), what))
        if len(set(x) & set(y)) < 0.9 * max(len(x), 1) or not x:
            c.require(False, "only %d of %d digests to compare for %s" % (len(set(x) & set(y)), len(x), what))
    c.counters.setdefault("comparison", {})["digests_compared"] = compared
    c.require(len(c.distinct) >= 10000, "%d distinct cases" % len(c.distinct))
