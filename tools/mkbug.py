#!/usr/bin/env python3
"""mkbug.py SPEC.py: writes seeded/<id>/ from a spec that defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C source)."""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = H + "/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    p = ""
    files = {}
    for f, old, new in g["EDITS"]:
        s = files.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (g["ID"], f, s.count(old), old)
        files[f] = s.replace(old, new)
    for f, s in files.items():
        for a in ("a", "b"):
            os.makedirs(os.path.dirname(t + "/" + a + "/" + f), exist_ok=True)
        shutil.copy("/repo/" + f, t + "/a/" + f)
        open(t + "/b/" + f, "w").write(s)
    p = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(p)
    open(d + "/demo.c", "w").write(g["DEMO"])
    open(d + "/demo.sh", "w").write('''#!/bin/sh
# run in /repo after the build; 0: behaves, 1: broken
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
B=$R/_build
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
I="-I$R/include -I$B/include"
L=""
for m in txlib libc ptrdata libm cast arithmetic libpthread tm; do
    I="$I -I$R/modules/$m/include -I$B/modules/$m/include"
    n=$m; [ $m = libc ] && n=c; [ $m = libm ] && n=m; [ $m = libpthread ] && n=pthread
    L="$L $B/modules/$m/src/.libs/libpicotm-$n.a"
done
gcc -g -O1 -D_GNU_SOURCE -pthread $I "$D/demo.c" -o "$T/demo" -Wl,--start-group $L $B/src/.libs/libpicotm.a -Wl,--end-group -lm -ldl || exit 98
cd "$T" && timeout -k 5 100 ./demo
''')
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print(g["ID"], len(p.splitlines()))
