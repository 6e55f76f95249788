#!/usr/bin/env python3
"""Writes seeded/<id>/ from a python description file: tools/mkseed.py desc.py ...
desc.py defines: ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO (C source), optional LIBS, SH."""
import os, subprocess, sys, json, tempfile, shutil
R = "/repo"; V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Run with cwd = the repository, after the build. Exit 0 if the behaviour is right.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
B="$PWD/_build"
%(cc)s -O1 -g -I"$B/src/include" -I"$PWD/src/libscotch" "$D/demo.c" -o "$T/demo" -L"$B/lib" %(libs)s -lm -lpthread -Wl,-rpath,"$B/lib" || exit 2
cd "$T"
export B
%(pre)s timeout 120 %(run)s
'''
for f in sys.argv[1:]:
    ns = {}
    exec(open(f).read(), ns)
    d = os.path.join(V, "seeded", ns["ID"]); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp")
    try:
        diff = ""
        subprocess.check_call(["git", "init", "-q", t])
        fs = sorted(set(e[0] for e in ns["EDITS"]))
        for fn in fs:
            os.makedirs(os.path.dirname(os.path.join(t, fn)), exist_ok=True)
            open(os.path.join(t, fn), "wb").write(subprocess.check_output(["git", "-C", R, "show", "HEAD:" + fn]))
        subprocess.check_call(["git", "-C", t, "add", "-A"])
        subprocess.check_call(["git", "-C", t, "-c", "user.name=x", "-c", "user.email=x", "commit", "-qm", "x"])
        for fn, old, new in ns["EDITS"]:
            p = os.path.join(t, fn); s = open(p, encoding="latin-1").read()
            n = s.count(old)
            if n != 1: sys.exit("%s: %s: old text found %d times" % (f, fn, n))
            open(p, "w", encoding="latin-1").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"])
    finally:
        shutil.rmtree(t)
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "DEMO" in ns:
        open(os.path.join(d, "demo.c"), "w").write(ns["DEMO"].lstrip())
    sh = ns.get("SH") or SH % dict(cc=ns.get("CC", "gcc"), libs=ns.get("LIBS", "-lscotch -lscotcherr"), run=ns.get("RUN", '"$T/demo"'), pre=ns.get("PRE", ""))
    open(os.path.join(d, "demo.sh"), "w").write(sh); os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for fn, tx in ns.get("FILES", {}).items():
        open(os.path.join(d, fn), "w").write(tx)
    print("wrote", ns["ID"])
