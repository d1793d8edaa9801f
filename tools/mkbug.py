#!/usr/bin/env python3
# mkbug.py <file with a bug description> : writes /verif/seeded/<id>/ from a small python description (run by hand).
# The description defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...], DEMO (C++ source), FLAGS (optional).
import os, subprocess, sys, shutil, json
for desc in sys.argv[1:]:
    g = {"FLAGS": "", "RUN": "\"$d/demo\""}
    exec(open(desc).read(), g)
    out = "/verif/seeded/" + g["ID"]
    os.makedirs(out, exist_ok=True)
    w = "/tmp/sb/" + g["ID"]
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.check_call("git -C /repo archive HEAD include | tar x -C " + w, shell=True)
    shutil.copytree(w + "/include", w + "/orig")
    for f, old, new in g["EDITS"]:
        p = w + "/include/cpp-sort/" + f
        s = open(p).read()
        assert s.count(old) == 1, (g["ID"], f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    # the patch
    t = w + "/g"
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", t])
    for f, _, _ in g["EDITS"]:
        shutil.copy(w + "/include/cpp-sort/" + f, t + "/include/cpp-sort/" + f)
    d = subprocess.check_output(["git", "-C", t, "diff"], text=True)
    open(out + "/patch.diff", "w").write(d)
    open(out + "/demo.cpp", "w").write(g["DEMO"].lstrip("\n"))
    open(out + "/demo.sh", "w").write("""#!/bin/bash
# Run with cwd /repo: exit 0 when the property holds, non-zero when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -r "$d"' EXIT
g++ -std=c++17 -w %s -Iinclude "$here/demo.cpp" -o "$d/demo" || exit 2
timeout 120 %s
""" % (g["FLAGS"] or "-O1", g["RUN"]))
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(out + "/meta.json", "w"), indent=1)
    res = []
    for inc in ("orig", "include"):
        x = w + "/run_" + inc
        os.makedirs(x)
        os.symlink(w + "/" + inc, x + "/include")
        r = subprocess.run(["bash", out + "/demo.sh"], cwd=x, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        res.append(r.returncode)
        tail = r.stdout[-400:]
    print(g["ID"], "demo orig/patched:", res, "OK" if res[0] == 0 and res[1] not in (0, 2) else "BAD " + tail)
    shutil.rmtree(w, ignore_errors=True)
