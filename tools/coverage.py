#!/usr/bin/env python3
# coverage.py [check...] : which lines of /repo/include do the harnesses run? (by hand; scratch in /tmp/w/cov)
# Each program of each check is built with gcov and runs a twelfth of its quick cases; writes /tmp/w/cov/lines.json and prints what is never run.
import concurrent.futures, gzip, json, os, re, subprocess, sys, shutil
sys.path.insert(0, "/verif")
import specs
W = "/tmp/w/cov"
checks = sys.argv[1:] or sorted(specs.SPECS)
state = W + "/lines.json"
cov = {}
if os.path.exists(state): cov = json.load(open(state))
jobs = []
for c in checks:
    for b in specs.SPECS[c]["builds"]("quick"):
        if b.get("san") or (os.environ.get("ONLY") and not re.fullmatch(os.environ["ONLY"], c + "/" + b["name"])): continue
        jobs.append((c, b))
def one(j):
    c, b = j
    d = "%s/%s_%s" % (W, c, b["name"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    cmd = ["nice", "-n", "19", "g++", "-std=c++%s" % b.get("std", 17), "-O0", "--coverage", "-fprofile-update=atomic", "-w", "-I/verif/harness", "-I/repo/include", "-DCPPSORT_DISABLE_DEPRECATION_WARNINGS"] + [f for f in b.get("flags", []) if "sanit" not in f] + ["-D" + x for x in b.get("defs", [])] + ["-o", d + "/x", "/verif/" + b["src"]] + b.get("libs", [])
    p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    res = {}
    if p.returncode: return c, b["name"], "compile " + p.stdout.decode()[-200:], res
    n = int(os.environ.get("DIV", "12")) * b.get("shards", 1)
    why = ""
    for sh in (range(n) if n == b.get("shards", 1) else (0, 5)):
        try:
            subprocess.run(["nice", "-n", "19", "timeout", "-s", "INT", "600", d + "/x", "--seed", str(1 + sh), "--tier", "quick", "--shard", str(sh), "--nshards", str(n)], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=660)
        except subprocess.TimeoutExpired: why = "timeout"
    for f in os.listdir(d):
        if f.endswith(".gcda") or f.endswith(".gcno"):
            if f.endswith(".gcno") and os.path.exists(d + "/" + f[:-5] + ".gcda"): continue
            if f.endswith(".gcno"): why += " no gcda"
            out = subprocess.run(["nice", "gcov", "--json-format", "--stdout", d + "/" + f], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout
            for line in out.decode().splitlines():
                if not line.startswith("{"): continue
                for fl in json.loads(line)["files"]:
                    if not fl["file"].startswith("/repo/include"): continue
                    r = res.setdefault(fl["file"][len("/repo/include/cpp-sort/"):], {})
                    for l in fl["lines"]: r[l["line_number"]] = max(r.get(l["line_number"], 0), l["count"])
    shutil.rmtree(d, ignore_errors=True)
    return c, b["name"], why, res
with concurrent.futures.ThreadPoolExecutor(6) as ex:
    for c, n, why, res in ex.map(one, jobs):
        print(c, n, why or "ok", flush=True)
        cov[c + "/" + n] = {f: {str(l): k for l, k in r.items()} for f, r in res.items()}
        json.dump(cov, open(state, "w"))
