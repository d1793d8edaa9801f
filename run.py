#!/usr/bin/env python3
"""Runner of the checks.

  run.py check <ID>        run one check (tier from VERIF_TIER, seed from VERIF_SEED)
  run.py replay <path>     rebuild and run again the single case of a replay file
  run.py setup             verify that the tools are there and that every spec loads

Every check compiles its harness against /repo/include as it is now, in a scratch directory that is removed at the
end, runs the programs, and judges what the monitors inside them reported.
Exit status: 0 held on everything explored, 1 violation (with a VIOLATION line), 2 the check could not decide.
"""
import array, concurrent.futures, fnmatch, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 4)))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True

SAN = {
    "": [],
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer", "-g1"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=1:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:"
                    "detect_invalid_pointer_pairs=0:allocator_may_return_null=1:strict_string_checks=1:"
                    "detect_odr_violation=0:max_allocation_size_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=79:second_deadlock_stack=1",
    "LSAN_OPTIONS": "exitcode=76",
}


def say(*a):
    print(*a, flush=True)


class Undecided(Exception):
    pass


class Check:
    def __init__(self, pid, spec, seed, tier, only=None):
        self.pid, self.spec, self.seed, self.tier, self.only = pid, spec, seed, tier, only
        self.viols = []            # {key, case, detail, build}
        self.errors = []
        self.stats = {"evaluations": 0, "events": {}, "samples": []}
        self.distinct = set()
        self.lock = threading.Lock()
        self.per_build = {}
        self.tmp = None
        self.t0 = time.time()

    # ------------------------------------------------------------ build
    def compile(self, b):
        cxx = {"g++": "/usr/bin/g++", "clang++": "/usr/bin/clang++"}[b.get("cxx", "g++")]
        out = os.path.join(self.tmp, b["name"])
        cmd = [cxx, "-std=c++" + str(b.get("std", 17)), b.get("opt", "-O1"), "-pipe", "-w", "-fmax-errors=3" if cxx.endswith("/g++") else "-ferror-limit=3",
               "-I", os.path.join(ROOT, "harness"), "-I", os.path.join(REPO, "include"),
               "-DCPPSORT_DISABLE_DEPRECATION_WARNINGS"]
        cmd += SAN[b.get("san", "")]
        if b.get("audits"):
            cmd += ["-DCPPSORT_ENABLE_AUDITS", "-D_GLIBCXX_ASSERTIONS", "-DCPPSORT_ENABLE_ASSERTIONS"]
        cmd += b.get("flags", [])
        cmd += ["-D" + d for d in b.get("defs", [])]
        cmd += ["-o", out, os.path.join(ROOT, b["src"])] + b.get("libs", [])
        for attempt in (1, 2):
            try:
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
            except subprocess.TimeoutExpired:
                if attempt == 2:
                    raise Undecided("compilation of %s timed out" % b["name"])
                continue
            if p.returncode == 0:
                return out
        txt = p.stdout.decode("utf8", "replace")
        if re.search(r"(internal compiler error|Killed|out of memory|cannot allocate|No space left|virtual memory)", txt) \
                or not re.search(r"error:|undefined reference", txt):
            raise Undecided("compilation of %s failed: %s" % (b["name"], txt[-2000:]))
        m = re.search(r".*error:.*", txt)
        with self.lock:
            self.viols.append({"key": "build|" + b["name"], "case": "", "build": b["name"],
                               "detail": "documented use of the library does not compile: " + (m.group(0) if m else txt[-300:])
                               + "\n" + txt[:3000]})
        return None

    # ------------------------------------------------------------ run
    def one_run(self, b, exe, shard, nshards, only=None, timeout=None, tag=""):
        base = os.path.join(self.tmp, "%s.%d%s" % (b["name"], shard, tag))
        prog, dist = base + ".progress", base + ".distinct"
        args = [exe, "--seed", str(self.seed), "--tier", self.tier, "--progress", prog, "--distinct", dist,
                "--shard", str(shard), "--nshards", str(nshards)]
        if only is not None:
            args += ["--only", only]
        env = dict(os.environ)
        env.update(ENV)
        env.update(b.get("env", {}))
        san = b.get("san", "")

        def pre():
            os.setsid()
            if not san:
                lim = 6 << 30
                resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if timeout is None:
            timeout = b.get("timeout", 360 if self.tier == "quick" else 3000)
        with open(base + ".out", "wb") as fo, open(base + ".err", "wb") as fe:
            p = subprocess.Popen(args, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env, preexec_fn=pre, cwd=self.tmp)
            t0 = moved = time.time()
            stall = 90 if self.tier == "quick" else 600
            seen, timed = b"", False
            while True:
                try:
                    rc = p.wait(1)
                    break
                except subprocess.TimeoutExpired:
                    pass
                now = time.time()
                try:
                    cur = open(prog, "rb").read()
                except OSError:
                    cur = b""
                if cur != seen:
                    seen, moved = cur, now
                if now - t0 > timeout or now - moved > stall:
                    timed = True
                elif not self.enough():
                    continue
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = -9
                break
        label = ""
        try:
            raw = open(prog, "rb").read()
            label = raw[8:].split(b"\0", 1)[0].decode("utf8", "replace")
        except OSError:
            pass
        out = open(base + ".out", "rb").read().decode("utf8", "replace")
        err = open(base + ".err", "rb").read()[:400000].decode("utf8", "replace")
        return rc, timed, label, out, err, dist

    def enough(self):
        """A violation is known and the quick check has used its time (say, because calls do not return): stop there."""
        return self.tier == "quick" and bool(self.viols) and time.time() - self.t0 > 400

    def run(self, b, exe, shard, nshards):
        if self.enough():
            return
        rc, timed, label, out, err, dist = self.one_run(b, exe, shard, nshards, self.only)
        got_stats = False
        viols = []
        for line in out.splitlines():
            try:
                j = json.loads(line)
            except ValueError:
                continue
            if j.get("t") == "viol":
                j["build"] = b["name"]
                viols.append(j)
            elif j.get("t") == "nohit":
                pass
            elif j.get("t") == "stats":
                got_stats = True
                with self.lock:
                    self.stats["evaluations"] += j["evaluations"]
                    for k, v in j["events"].items():
                        self.stats["events"][k] = self.stats["events"].get(k, 0) + v
                    if len(self.stats["samples"]) < 12:
                        self.stats["samples"] += j["samples"][:2]
                    pb = self.per_build.setdefault(b["name"], {"evaluations": 0})
                    pb["evaluations"] += j["evaluations"]
        if os.path.exists(dist):
            a = array.array("Q")
            a.frombytes(open(dist, "rb").read())
            with self.lock:
                self.distinct.update(a)
            os.unlink(dist)
        ckey = "|".join(label.split("|")[:-1]) or label
        if self.enough() and rc == -9 and not timed:
            pass
        elif timed and any(v["key"].endswith("|hang") for v in self.viols):
            pass                                        # one hang was confirmed
        elif timed:
            # a hang is reported only if the same case, alone, hangs again
            rc2, timed2, label2, out2, err2, _ = self.one_run(b, exe, shard, nshards, label, 75, ".again")
            if timed2:
                viols.append({"key": ckey + "|hang", "case": label, "build": b["name"], "detail": "the call does not return (twice)"})
            else:
                with self.lock:
                    self.errors.append("%s shard %d: time limit hit at case %s, which alone ends: inconclusive" % (b["name"], shard, label))
        elif rc != 0 or not got_stats:
            kind = "exit %d" % rc
            if rc < 0:
                kind = "signal " + signal.Signals(-rc).name
            m = re.search(r"(SUMMARY: .*)", err) or re.search(r"(.*runtime error: .*)", err) or re.search(r"(.*Assertion.*failed.*)", err) \
                or re.search(r"(terminate called.*)", err)
            short = ""
            for pat, name in ((r"AddressSanitizer: ([\w-]+)", "asan"), (r"runtime error: ([^\n]{0,60})", "ubsan"), (r"LeakSanitizer: (\w+)", "lsan"),
                              (r"ThreadSanitizer: ([\w -]+)", "tsan"), (r"Assertion", "assert"), (r"terminate called", "terminate")):
                mm = re.search(pat, err)
                if mm:
                    short = name + (":" + mm.group(1).strip() if mm.groups() else "")
                    break
            if rc in (95, 96, 97) or (rc == -9 and not short):
                with self.lock:
                    self.errors.append("%s shard %d: worker failed (%s) at %s: %s" % (b["name"], shard, kind, label, err[-500:]))
            else:
                viols.append({"key": ckey + "|crash", "case": label, "build": b["name"],
                              "detail": (m.group(1) if m else kind) + " [" + (short or kind) + "]\n" + err[:6000]})
        with self.lock:
            self.viols += viols

    # ------------------------------------------------------------ whole check
    def go(self):
        self.tmp = tempfile.mkdtemp(prefix="vcpps-%s-" % self.pid)
        try:
            builds = self.spec["builds"](self.tier) if callable(self.spec["builds"]) else self.spec["builds"]
            self.builds = builds
            if self.only is not None:
                builds = [b for b in builds if b["name"] == self.only_build]
            with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
                futs = []

                def build_then_run(b):
                    exe = self.compile(b)
                    if exe is None:
                        return
                    n = b.get("shards", 1)
                    if self.only is not None:
                        n = 1
                    with self.lock:
                        for i in range(n):
                            futs.append(ex.submit(self.run, b, exe, i, n))
                first = [ex.submit(build_then_run, b) for b in sorted(builds, key=lambda b: -b.get("weight", 1))]
                for f in first:
                    f.result()
                for f in list(futs):
                    f.result()
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)


def load_known():
    known, fixed = [], []
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(.*?) :: (.*)$", line)
            if m:
                known.append({"property": m.group(1), "key": m.group(2), "what": m.group(3)})
            elif line.startswith("fixed:"):
                fixed.append(line)
    return known, fixed


def check(pid):
    import specs
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = specs.SPECS[pid]
    c = Check(pid, spec, seed, tier)
    try:
        c.go()
    except Undecided as e:
        c.errors.append(str(e))
    known, _ = load_known()
    new, old = [], {}
    for v in c.viols:
        for k in known:
            if k["property"] == pid and fnmatch.fnmatchcase(v["key"], k["key"]):
                old[k["key"]] = k["what"]
                break
        else:
            new.append(v)
    for key, what in sorted(old.items()):
        say("KNOWN-FINDING: property=%s %s" % (pid, what))
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    seen = set()
    path0 = None
    for i, v in enumerate(new):
        if v["key"] in seen:
            continue
        seen.add(v["key"])
        if len(seen) > 20:
            break
        path = os.path.join(ROOT, "evidence", "replay", "%s-%d.json" % (pid, len(seen)))
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "build": v["build"], "case": v["case"], "key": v["key"],
                       "detail": v["detail"], "replay_cmd": "python3 run.py replay " + path}, f, indent=1)
        path0 = path0 or path
        say("VIOLATION property=%s replay=%s" % (pid, path))
        say("  key: %s\n  case: %s\n  %s" % (v["key"], v["case"], v["detail"][:600].replace("\n", "\n  ")))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": c.stats["evaluations"],
            "distinct_nontrivial": len(c.distinct),
            "rule": spec["rule"],
            "samples": c.stats["samples"] or ["none"],
            "events": c.stats["events"],
            "programs_built": len(c.per_build),
            "evaluations_per_program": {k: v["evaluations"] for k, v in sorted(c.per_build.items())},
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - c.t0, 2),
        "violations": len(seen),
    }
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    say("%s: %d evaluations, %d distinct non-trivial, %d programs, %.1f s, %d new violation(s), %d error(s)"
        % (pid, c.stats["evaluations"], len(c.distinct), len(c.per_build), time.time() - c.t0, len(seen), len(c.errors)))
    for e in c.errors:
        say("ERROR: " + e)
    if new:
        return 1
    if c.errors:
        return 2
    if c.stats["evaluations"] < spec.get("min_evaluations", 1):
        say("ERROR: only %d evaluations observed, %d expected" % (c.stats["evaluations"], spec.get("min_evaluations", 1)))
        return 2
    for name in spec.get("need_events", []):
        if not c.stats["events"].get(name):
            say("ERROR: no '%s' event was observed" % name)
            return 2
    return 0


def replay(path):
    import specs
    r = json.load(open(path))
    spec = specs.SPECS[r["property"]]
    c = Check(r["property"], spec, r["seed"], r["tier"], only=r["case"] or "")
    c.only_build = r["build"]
    c.go()
    for v in c.viols:
        say("key: %s\ncase: %s\n%s\n" % (v["key"], v["case"], v["detail"]))
    say("reproduced" if c.viols else "not reproduced")
    return 1 if c.viols else 0


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "check":
        return check(sys.argv[2])
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        import specs
        for t in ("/usr/bin/g++", "/usr/bin/clang++"):
            subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
        for pid, s in specs.SPECS.items():
            b = s["builds"]("quick") if callable(s["builds"]) else s["builds"]
            assert b, pid
            for x in b:
                assert os.path.exists(os.path.join(ROOT, x["src"])), x["src"]
        say("%d checks ready" % len(specs.SPECS))
        return 0
    sys.stderr.write(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
