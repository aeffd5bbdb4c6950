#!/usr/bin/env python3
"""mkseed.py FILE.py: each file defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source) -> /verif/seeded/ID."""
import sys, os, subprocess, json
W = "/tmp/wt"
SH = '''#!/bin/bash
# demonstration: exits 0 when the library behaves, 1 when it does not
cd "$(dirname "$0")" || exit 2
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -O1 -w -DFLOAT64 -DHAVE_CONFIG_H -I/repo/_build -I/repo/src/include demo.c -o "$T/demo" -L/repo/_build/src/.libs -larmasd -Wl,-rpath,/repo/_build/src/.libs -lm -lpthread || exit 2
cd "$T" && timeout 60 ./demo
'''
for f in sys.argv[1:]:
    d = {}; exec(open(f).read(), d); S = "/verif/seeded/" + d["ID"]; os.makedirs(S, exist_ok=True)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
    for fn, old, new in d["EDITS"]:
        p = W + "/" + fn; s = open(p).read(); assert s.count(old) == 1, (fn, s.count(old), old); open(p, "w").write(s.replace(old, new))
    open(S + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=W, capture_output=True, text=True).stdout)
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
    open(S + "/demo.sh", "w").write(SH); os.chmod(S + "/demo.sh", 0o755); open(S + "/demo.c", "w").write(d["DEMO"])
    json.dump({"property": d["PROP"], "needs": d["NEEDS"], "what_it_breaks": d["BREAKS"]}, open(S + "/meta.json", "w"), indent=1)
    print("made", d["ID"])
