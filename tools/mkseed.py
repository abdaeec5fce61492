#!/usr/bin/env python3
"""Development helper: creates seeded/<id> from a spec file:
   first line: id property
   sections started by lines '@@needs', '@@breaks', '@@file NAME', '@@old', '@@new', '@@demo'
   (old/new pairs are textual replacements in /repo/NAME; each must match once)."""
import sys, os, json, subprocess, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(sys.argv[1]).read().split("\n")
sid, prop = text[0].split()
sec, cur = [], None
for l in text[1:]:
    if l.startswith("@@"):
        cur = [l[2:], []]; sec.append(cur)
    elif cur: cur[1].append(l)
needs = breaks = demo = None; fname = None; old = None; edits = []
for h, b in sec:
    t = "\n".join(b).strip("\n")
    if h == "needs": needs = " ".join(t.split())
    elif h == "breaks": breaks = " ".join(t.split())
    elif h.startswith("file"): fname = h.split()[1]
    elif h == "old": old = t
    elif h == "new": edits.append((fname, old, t))
    elif h.startswith("demo"): demo = (h.split()[1] if len(h.split()) > 1 else "c", t)
tmp = tempfile.mkdtemp()
for f in {e[0] for e in edits}:
    os.makedirs(os.path.join(tmp, "a", os.path.dirname(f)), exist_ok=True); os.makedirs(os.path.join(tmp, "b", os.path.dirname(f)), exist_ok=True)
    s = open("/repo/" + f).read(); open(f"{tmp}/a/{f}", "w").write(s)
    for ff, o, n in edits:
        if ff == f:
            if s.count(o) != 1: sys.exit(f"{f}: old text occurs {s.count(o)} times:\n{o}")
            s = s.replace(o, n)
    open(f"{tmp}/b/{f}", "w").write(s)
d = f"{V}/seeded/{sid}"; os.makedirs(d, exist_ok=True)
p = subprocess.run(["diff", "-ru", "a", "b"], cwd=tmp, capture_output=True, text=True).stdout
p = "\n".join("diff --git %s %s" % tuple(x.split()[2:4]) if x.startswith("diff -ru") else (x.split("\t")[0] if x.startswith(("--- ", "+++ ")) else x) for x in p.split("\n"))
open(d + "/patch.diff", "w").write(p)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if demo[0] == "c":
    open(d + "/demo.c", "w").write(demo[1] + "\n")
    open(d + "/demo.sh", "w").write('''#!/bin/bash
# run in /repo after the build: compiles demo.c against the built library
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export -n LD_LIBRARY_PATH
gcc -g -I"$PWD/include" -I"$PWD/_build/include" -I"$PWD" -I"$PWD/_build" "$here/demo.c" -o "$tmp/demo" \\
	-L"$PWD/_build/.libs" -lisl -lgmp -Wl,-rpath,"$PWD/_build/.libs" -lm -lpthread || exit 2
exec_dir=$tmp; cd "$tmp" && timeout 250 ./demo
''')
else:
    open(d + "/demo.sh", "w").write(demo[1] + "\n")
shutil.rmtree(tmp); print("seeded", sid)
