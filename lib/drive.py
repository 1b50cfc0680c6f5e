"""Building, running and judging the monitor programs."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
HUNG = 77
STACK = 128 << 20
GB = 1 << 30


# what a property promises by way of implementations (matched against compiler errors of the monitored program)
PROMISED = {
    "C08": r"ExactSizeIterator|`len` found for .*SizedVebTree",
    "C09": r"DoubleEndedIterator|FusedIterator|`\S*Iter\S*` is not an iterator",
    "C10": r"ExactSizeIterator|`len` found for .*Iter<",
    "C11": r"VebKey",
    "C12": r"SizedVebKey",
    "C13": r"VebTreeMarker|VebTreeCollectionMarker|TreeCollection|TreeListMarker|SizedVebKey",
    "C18": r"Clone\b|`clone`|`clone_from`|associated function .*clone",
    "C19": r"between threads|\bSend\b|\bSync\b",
    "C24": r"MaybeBorrowed",
    "C26": r"^error\[E(0046|0407|0053|0195|0276)\]",
}


class NoAnswer(Exception):
    pass


def group_cpu(pgid):
    """CPU seconds used so far by the processes of a group"""
    total = 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                f = open("/proc/%s/stat" % d).read().rsplit(")", 1)[1].split()
            except OSError:
                continue
            if int(f[2]) == pgid:
                total += int(f[11]) + int(f[12])
    return total / os.sysconf("SC_CLK_TCK")


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_BUILD", "CARGO_PROFILE", "CARGO_ENCODED", "RUST", "MIRI", "CARGO_TARGET", "CARGO_UNSTABLE")) and k not in ("RUSTUP_HOME", "RUSTUP_TOOLCHAIN"):
            e.pop(k)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["RUST_MIN_STACK"] = str(STACK)
    return e


# name -> (cargo prefix, profile flag, target triple, RUSTFLAGS, subdirectory)
BUILDS = {
    "dbg": (["cargo"], [], None, None, "debug"),
    "rel": (["cargo"], ["--release"], None, None, "release"),
    "asan": (["cargo", "+nightly"], ["--release"], "x86_64-unknown-linux-gnu",
             "-Zsanitizer=address -Cdebug-assertions=on", "release"),
    # debug assertions may stand in front of an unsound access
    "asanr": (["cargo", "+nightly"], ["--release"], "x86_64-unknown-linux-gnu", "-Zsanitizer=address", "release"),
    # std is rebuilt, or the race detector would not see the synchronisation inside it
    "tsan": (["cargo", "+nightly"], ["--release", "-Zbuild-std"], "x86_64-unknown-linux-gnu",
             "-Zsanitizer=thread", "release"),
}
# which compositions a program is linked with
FEATURES = {True: [], False: ["--no-default-features"], "parts": ["--no-default-features", "--features", "parts"]}
X86 = "x86_64-unknown-linux-gnu"


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(OUT, "run-%s-%d" % (pid, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        os.makedirs(EVID, exist_ok=True)
        self.violations = []      # (what, replay text)
        self.reporting = set()    # processes that reported one
        self.started = 0
        self.groups = set()       # process groups running now
        self.first = None         # when the first violation came in
        self.known = []
        self.counters = {}        # group -> {name: n}
        self.distinct = set()
        self.samples = []
        self.notes = []
        self.builds_used = []
        self.eval_keys = ("operations",)
        self.rule = ""
        self.assumptions = []
        self.level = "exploration"
        self.lock = threading.Lock()
        self.evaluations = None
        self.evid_file = os.path.join(EVID, pid + ".json")
        if os.path.exists(self.evid_file):
            os.remove(self.evid_file)

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    # ---- building -----------------------------------------------------------------
    def build(self, wanted):
        """wanted: list of (build name, bin, which compositions); returns {(build, bin): path}"""
        groups = {}
        for b, x, trees in wanted:
            groups.setdefault((b, trees), []).append(x)
        out = {}

        def one(b, trees, bins):
            pre, prof, triple, rf, sub = BUILDS[b]
            td = os.path.join(TARGET, b)
            cmd = pre + ["build", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", td] + prof
            if triple:
                cmd += ["--target", triple]
            cmd += FEATURES[trees]
            for x in bins:
                cmd += ["--bin", x]
            env = base_env()
            if rf:
                env["RUSTFLAGS"] = rf
                env["CARGO_PROFILE_RELEASE_OPT_LEVEL"] = "1"
            r = subprocess.run(cmd, env=env, cwd=HARNESS, capture_output=True, text=True, timeout=840)
            if r.returncode != 0:
                self.gone(b, r.stderr)
                raise NoAnswer("building %s (%s) failed:\n%s" % (b, " ".join(bins), r.stderr[-3000:]))
            d = os.path.join(td, triple, sub) if triple else os.path.join(td, sub)
            return {(b, x): os.path.join(d, x) for x in bins}

        with cf.ThreadPoolExecutor(8) as ex:
            for f in [ex.submit(one, b, t, xs) for (b, t), xs in groups.items()]:
                out.update(f.result())
        self.t_build = time.time() - self.t0
        return out

    def gone(self, b, se):
        """The crate compiles and the monitored program does not: did an implementation this property promises disappear?"""
        if "could not compile `veb-tree`" in se or self.pid not in PROMISED:
            return
        for what in re.findall(r"^error\[E\d+\]: .*", se, re.M):
            if re.search(PROMISED[self.pid], what):
                self.violate("promised by the public interface and gone: " + what, "#veb-replay build %s\n# %s\n" % (b, se[-3000:].replace("\n", "\n# ")))
                return

    # ---- the interpreter ------------------------------------------------------------
    def miri(self, name, group, bin, args, flags="", target=None, trees=True, wall=800, release=False):
        """A job running one program under Miri (built by the first of them)."""
        cmd = ["cargo", "+nightly", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(HARNESS, "Cargo.toml"),
               "--target-dir", os.path.join(TARGET, "miri"), "--bin", bin]
        if target:
            cmd += ["--target", target]
        if release:
            cmd += ["--release"]
        cmd += FEATURES[trees]
        return {"name": name, "group": group, "cmd": cmd + ["--"] + args, "mem_gb": 0, "wall": wall, "cwd": HARNESS, "target": target,
                "env": {"MIRIFLAGS": "-Zmiri-disable-isolation " + flags}}

    # ---- running ------------------------------------------------------------------
    def run(self, jobs, workers=8):
        self.started += len(jobs)
        with cf.ThreadPoolExecutor(workers) as ex:
            return list(ex.map(self.run_one, jobs))

    def supervise(self, job, cmd, env, lim, jn):
        """Runs one process (and whatever it starts) to its end. One that keeps computing without getting any
        further counts as hung; once a violation is on record the others get a minute to add to it. (None, ..) if given up."""
        name, t0, miri = job["name"], time.time(), "miri" in cmd[:3]
        logs = [os.path.join(self.work, name + e) for e in (".stdout", ".stderr")]
        read = lambda: [open(f, errors="replace").read() for f in logs]
        with open(logs[0], "w") as fo, open(logs[1], "w") as fe:
            p = subprocess.Popen(cmd, env=env, cwd=job.get("cwd", self.work), preexec_fn=lim, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe, process_group=0)
        with self.lock:
            self.groups.add(p.pid)
        try:
            seen, since, looked = None, 0.0, 0.0
            while True:
                try:
                    p.wait(0.2 if time.time() - t0 < 5 else 1)
                    return [p.returncode] + read()
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                if self.violations and now - self.first > (60 if self.quick else 600):
                    return [None] + read()
                if self.quick and now - self.t0 > 840:
                    if self.violations:
                        return [None] + read()
                    raise NoAnswer("%s was still running after %d s" % (name, now - self.t0))
                if now - t0 > job.get("wall", 600):
                    raise NoAnswer("%s did not finish within %s s of wall time" % (name, job.get("wall", 600)))
                if miri and os.path.exists(jn) and now - looked > 5:
                    # natively the monitors watch themselves; under Miri they cannot
                    looked, used, at = now, group_cpu(p.pid), (os.path.getsize(jn + ".beat") if os.path.exists(jn + ".beat") else 0, open(jn, errors="replace").read())
                    if at != seen:
                        seen, since = at, used
                    elif used - since > (150 if self.quick else 1200):
                        so, se = read()
                        return HUNG, so, se + "\nHUNG: one step has used %d s of CPU time under Miri" % (used - since)
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            with self.lock:
                self.groups.discard(p.pid)

    def run_one(self, job):
        """job: dict(name, group, cmd, mem_gb, wall, env, kind)"""
        name = job["name"]
        o = os.path.join(self.work, name + ".json")
        jn = os.path.join(self.work, name + ".journal")
        cmd = job["cmd"] + (["--out", o, "--journal", jn] if job.get("std", True) else [])
        env = base_env()
        env.update(job.get("env", {}))
        mem = job.get("mem_gb", 6)

        def lim():
            if mem:
                resource.setrlimit(resource.RLIMIT_AS, (int(mem * GB), int(mem * GB)))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            # unoptimised builds move trees with inline arrays through many frames
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            resource.setrlimit(resource.RLIMIT_STACK, (STACK if hard == resource.RLIM_INFINITY else min(hard, STACK), hard))
        rc, so, se = self.supervise(job, cmd, env, lim, jn)
        if rc is None:
            return {"name": name, "rc": None, "stdout": so, "stderr": se, "journal": "", "out": None, "job": job}
        journal = ""
        if os.path.exists(jn):
            journal = open(jn, errors="replace").read().split("\n#end")[0] + "\n"
        res = {"name": name, "rc": rc, "stdout": so, "stderr": se, "journal": journal, "out": None, "job": job}
        if job.get("raw"):
            return res
        if rc == 0 and os.path.exists(o):
            res["out"] = json.load(open(o))
            self.absorb(job, res["out"], o)
            return res
        tail = (se or so)[-600:].strip().replace("\n", " | ")
        if rc == HUNG and job.get("hang_ok"):
            # broken contracts owe nobody an answer, only memory safety
            with self.lock:
                self.notes.append("%s: an operation on keys that break their contracts did not return" % name)
        elif rc == HUNG:
            self.violate("an operation does not return: " + tail, journal + "# " + tail + "\n", job)
        elif rc < 0 and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGBUS, signal.SIGFPE, signal.SIGTRAP):
            self.violate("the process died with %s (%s)" % (signal.Signals(-rc).name, tail[-300:]), journal + "# " + tail + "\n", job)
        elif rc > 0 and rc != 2 and self.sanitizer(se):
            self.violate("sanitizer report: " + self.sanitizer(se), journal + "# " + se[-4000:].replace("\n", "\n# ") + "\n", job)
        elif rc > 0 and job.get("miri") is None and "miri" in job["cmd"][:3] and "/repo/src" in se and "error: abnormal termination" in se:
            self.violate("abnormal termination under Miri: " + tail[-300:], journal + "# " + tail + "\n", job)
        elif rc == 101 and "/repo/src" in tail:
            self.violate("panic outside a monitored call: " + tail, journal + "# " + tail + "\n", job)
        elif job.get("target") and ("could not compile" in se or "error: aborting due to" in se) and re.search(r"^error\[E\d+\]", se, re.M):
            # the same program was built natively a moment ago
            what = re.search(r"^error\[E\d+\]: (.*)", se, re.M).group(0)
            self.violate("what builds for the host does not build for %s: %s" % (job["target"], what), "#veb-replay build %s\n# %s\n" % (job["target"], se[-3000:].replace("\n", "\n# ")), job)
        else:
            raise NoAnswer("%s ended with %s and no result: %s" % (name, rc, tail))
        return res

    @staticmethod
    def sanitizer(se):
        for pat in (r"ERROR: AddressSanitizer: .*", r"ERROR: LeakSanitizer: .*", r"WARNING: ThreadSanitizer: .*", r"error: Undefined Behavior: .*", r"error: memory leaked: .*", r"error: deadlock.*", r"unsafe precondition\(s\) violated.*"):
            m = re.search(pat, se)
            if m:
                return m.group(0)[:300]
        return None

    def absorb(self, job, o, path):
        with self.lock:
            g = self.counters.setdefault(job.get("group", "main"), {})
            for k, v in o["counters"].items():
                g[k] = max(g.get(k, 0), v) if k.startswith("max_") else g.get(k, 0) + v
            if os.path.exists(path + ".distinct"):
                b = open(path + ".distinct", "rb").read()
                self.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            self.samples += o["samples"]
            self.notes += o["notes"]
        for v in o["violations"]:
            self.violate(v["what"], v["replay"], job, v.get("signature"))

    # ---- verdicts -----------------------------------------------------------------
    def known_list(self):
        out = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"finding: property=(\S+) signature=(\S+) (.*)", l.strip())
                if m:
                    out[(m.group(1), m.group(2))] = m.group(3)
        return out

    def violate(self, what, replay, job=None, signature=None):
        with self.lock:
            if signature and (self.pid, signature) in self.known_list():
                self.known.append((signature, what))
                return
            if job:
                self.reporting.add(job.get("name", "?"))
                replay = "# build %s\n" % job.get("group", "?") + replay
            self.first = self.first or time.time()
            self.violations.append((what, replay))

    def require(self, cond, what):
        if not cond and not self.violations:
            raise NoAnswer("not enough was observed: " + what)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        lines = []
        seen = set()
        for what, replay in self.violations:
            h = hashlib.sha1((what + replay).encode()).hexdigest()[:10]
            if h in seen:
                continue
            seen.add(h)
            p = os.path.join(OUT, "%s-%s.replay" % (self.pid, h))
            with open(p, "w") as f:
                f.write("# property %s tier %s seed %d\n# %s\n%s" % (self.pid, self.tier, self.seed, what.replace("\n", " "), replay))
            lines.append((what, p))
        known = {}
        for s, w in self.known:
            known.setdefault(s, w)
        total = {}
        for g in self.counters.values():
            for k, v in g.items():
                total[k] = max(total.get(k, 0), v) if k.startswith("max_") else total.get(k, 0) + v
        ev = self.evaluations
        if ev is None:
            ev = sum(total.get(k, 0) for k in self.eval_keys)
        dn = len(self.distinct)
        cov = {
            "evaluations": int(ev),
            "distinct_nontrivial": min(dn, int(ev)) if dn else 0,
            "rule": self.rule,
            "samples": self.samples[:6] or ["(no sample recorded)"],
            "observed": self.counters,
            "known_findings_reproduced": sorted(known),
            "notes": sorted(set(self.notes))[:20],
        }
        e = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
             "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(lines)}
        with open(self.evid_file, "w") as f:
            json.dump(e, f, indent=1)
        for s, w in sorted(known.items()):
            print("KNOWN-FINDING: property=%s %s: %s" % (self.pid, s, w))
        for what, p in lines:
            print("%s: %s" % (self.pid, what))
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations%s, %.1f s" % (
            self.pid, self.tier, self.seed, ev, dn, len(lines),
            " reported by %d of %d processes" % (len(self.reporting), self.started) if lines else "", time.time() - self.t0))
        return 1 if lines else 0
