#!/usr/bin/env python3
# mutate.py <count> <seed> <file regex> [out] : mutants of covered lines of /repo/include against the programs that run those lines
# (by hand; needs tools/coverage.py's lines.json; scratch in /tmp/w/mut). Prints one line per mutant; survivors are to be reviewed.
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, "/verif")
sys.dont_write_bytecode = True
import run, specs
N, SEED, RX = int(sys.argv[1]), int(sys.argv[2]), re.compile(sys.argv[3])
PAR = int(os.environ.get("PAR", "4"))
cov = json.load(open("/tmp/w/cov/lines.json"))
INC = "/repo/include/cpp-sort/"
where = {}                                  # (file, line) -> {check: best program}
for prog, files in cov.items():
    c, b = prog.split("/", 1)
    for f, lines in files.items():
        if not RX.search(f): continue
        for l, k in lines.items():
            if k: where.setdefault((f, int(l)), {}).setdefault(c, []).append((k, b))
OPS = [(" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "), (" && ", " || "), (" || ", " && "),
       (" + 1", ""), (" - 1", ""), (" + ", " - "), (" - ", " + "), ("++", "--"), ("--", "++"), ("true", "false"), ("false", "true"), (" * ", " + "), (" / ", " * "),
       (" 1", " 2"), (" 0", " 1"), ("std::next(", "std::prev("), ("std::prev(", "std::next("), ("begin()", "end()"), ("lower_bound", "upper_bound"), ("upper_bound", "lower_bound"),
       ("first", "last"), ("last", "first"), ("left", "right"), ("lhs", "rhs"), ("*= 2", "*= 3"), (" >> ", " << "), ("mut::", "")]
cands = []
for (f, l), progs in where.items():
    line = open(INC + f).read().split("\n")[l - 1]
    code = line.split("//")[0]
    if not code.strip() or code.strip() in "{}": continue
    if re.match(r"\s*(template|static_assert|using|typename|class|struct|#)", code): continue
    if "<" in code and re.search(r"template|typename|decltype|->", code): continue
    for a, b in OPS:
        for m in re.finditer(re.escape(a), code):
            if a[0].isalnum() and (code[m.start() - 1:m.start()].isalnum() or code[m.start() - 1:m.start()] == "_" or (code[m.end():m.end() + 1].isalnum() or code[m.end():m.end() + 1] == "_")): continue
            if a in (" 1", " 0") and code[m.end():m.end() + 1].isalnum(): continue
            cands.append((f, l, code[:m.start()] + b + code[m.end():], progs))
    if re.match(r"^\s*[^{}]*\)\s*;\s*$", code) and not re.match(r"\s*(return|auto|const|for|if|while)\b", code) and code.count("(") == code.count(")"):
        cands.append((f, l, re.match(r"\s*", code).group(0) + ";", progs))
    m = re.match(r"^(\s*)if \((.*)\) \{\s*$", code)
    if m: cands.append((f, l, m.group(1) + "if (false && (" + m.group(2) + ")) {", progs))
random.Random(SEED).shuffle(cands)
# spread over files: at most N / nfiles * 3 per file
per, take = {}, []
files = {c[0] for c in cands}
for c in cands:
    if per.get(c[0], 0) >= max(3, 3 * N // len(files)): continue
    per[c[0]] = per.get(c[0], 0) + 1
    take.append(c)
    if len(take) == N: break
ORDER = ["C01", "C05", "C02", "C03", "C13", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C04", "C25", "C07", "C06", "C10", "C11", "C12", "C08", "C09", "C14", "C15", "C24"]
PARTED = ["C06", "C08", "C09", "C10", "C11", "C12", "C15"]
lock = threading.Lock()
def one(i, c):
    f, l, new, progs = c
    T = "/tmp/w/mut/%d_%d" % (SEED, i)
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T); shutil.copytree("/repo/include", T + "/include")
    p = T + "/include/cpp-sort/" + f
    s = open(p).read().split("\n"); old = s[l - 1]; s[l - 1] = new; open(p, "w").write("\n".join(s))
    plan = {k: max(v)[1] for k, v in progs.items()}
    if "C07" in plan:
        for k in PARTED: plan.setdefault(k, plan["C07"])
    if "C13" in plan: plan.setdefault("C14", plan["C13"])
    verdict, t0 = "SURVIVED", time.time()
    for k in ORDER:
        if k not in plan: continue
        code = ("import sys; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True\nimport run, specs\nsp=dict(specs.SPECS[%r]); f=sp['builds']; bs=[b for b in f('quick') if b['name']==%r]\n"
                "if not bs: sys.exit(0)\nsp['builds']=bs\nfor b in bs: b['timeout']=150\nc=run.Check(%r, sp, 1, 'quick')\n"
                "try: c.go()\nexcept run.Undecided as e: print('UNDEC', str(e)[:100]); sys.exit(3)\n"
                "kn,_=run.load_known(); import fnmatch\nnew=[v for v in c.viols if not any(k['property']==%r and fnmatch.fnmatchcase(v['key'],k['key']) for k in kn)]\n"
                "print(new[0]['key'] if new else ''); sys.exit(2 if new and new[0]['key'].startswith('build|') else 1 if new else 4 if c.errors else 0)") % (k, plan[k], k, k)
        try:
            r = subprocess.run([sys.executable, "-c", code], env=dict(os.environ, VERIF_REPO=T, VERIF_JOBS="2"), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=420)
            rc, out = r.returncode, r.stdout.decode().strip()[-80:]
        except subprocess.TimeoutExpired: rc, out = 1, "timeout"
        if rc == 2: verdict = "uncompilable"; break
        if rc == 1: verdict = "killed by %s (%s)" % (k, out); break
        if rc not in (0, 1): verdict = "SURVIVED (%s rc %d)" % (k, rc)
    shutil.rmtree(T, ignore_errors=True)
    with lock: print("%s %s:%d | %s  =>  %s | %s | %d s" % (verdict.split()[0], f, l, old.strip(), new.strip(), verdict + " tried " + ",".join(k + "/" + v for k, v in plan.items()) if verdict.startswith("SURV") else verdict, time.time() - t0), flush=True)
with concurrent.futures.ThreadPoolExecutor(PAR) as ex: list(ex.map(lambda x: one(*x), enumerate(take)))
