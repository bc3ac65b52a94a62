#!/usr/bin/env python3
"""mkseed.py: helper to write a planted bug directory.  usage from Python: seed(id, prop, file, [(old,new)...], demo_cpp, needs, breaks)"""
import os, subprocess, json
V = "/verif/seeded/"
DEMO = '''#!/bin/bash
# run in /repo: exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++20 -O1 -fsanitize=address -I include "$here/demo.cpp" -o "$tmp/demo" || exit 2
timeout 100 "$tmp/demo"
'''

def seed(id, prop, edits, demo, needs, breaks):
    d = V + id
    os.makedirs(d, exist_ok=True)
    files = {}
    for f, old, new in edits:
        p = "/repo/" + f
        s = files.get(p) or open(p).read()
        assert s.count(old) >= 1, (id, f, "not found", old)
        assert s.count(old) == 1, (id, f, "ambiguous", s.count(old))
        files[p] = s.replace(old, new)
    out = ""
    for p, s in files.items():
        r = p[len("/repo/"):]
        open("/tmp/_new", "w").write(s)
        o = subprocess.run(["diff", "-u", "--label", "a/" + r, "--label", "b/" + r, p, "/tmp/_new"], capture_output=True, text=True).stdout
        out += "diff --git a/%s b/%s\n" % (r, r) + o
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
