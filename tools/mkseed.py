#!/usr/bin/env python3
"""mkseed.py <spec.py>: create /verif/seeded/<id>/ from a spec defining
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new[, count])], DEMO (C source), optional CFLAGS, EXTRA={name: text}, DEMO_SH"""
import os, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for spec in sys.argv[1:]:
    g = {}; exec(open(spec).read(), g)
    d = f"{V}/seeded/{g['ID']}"; os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
    try:
        for e in g["EDITS"]:
            p = "/repo/" + e[0]; s = open(p).read(); want = e[3] if len(e) > 3 else 1
            assert s.count(e[1]) == want, (g['ID'], e[0], s.count(e[1]), e[1])
            open(p, "w").write(s.replace(e[1], e[2]))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    finally: subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.c", "w").write(g["DEMO"].lstrip())
    for n, t in g.get("EXTRA", {}).items(): open(f"{d}/{n}", "w").write(t)
    sh = g.get("DEMO_SH") or f'''#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
gcc -w -O1 -g -I. {g.get("CFLAGS","")} -o "$T/demo" "$D/demo.c" {g.get("SRCS","neco.c")} -lm -lpthread -ldl || exit 99
cd "$T" && timeout {g.get("TIMEOUT", 20)} ./demo
'''
    open(f"{d}/demo.sh", "w").write(sh); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    print(g["ID"], "written")
