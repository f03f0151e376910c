#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE: reads 'old text' / 'new text' / needs / breaks / sources / demo
from a spec on stdin (sections separated by lines of ====) and writes seeded/ID."""
import sys, os, subprocess, json
id, prop = sys.argv[1:3]
parts = sys.stdin.read().split("\n====\n")
edits, needs, breaks, srcs, demo = parts[0], parts[1].strip(), parts[2].strip(), parts[3].split(), parts[4]
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
for e in edits.split("\n@@@@\n"):
    f, old, new = e.split("\n----\n")
    f = "/repo/" + f.strip()
    s = open(f).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(f, "w").write(s.replace(old, new))
open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", "/repo", "diff"], text=True))
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.cc", "w").write(demo)
extra = ""
open(d + "/demo.sh", "w").write("""#!/bin/bash
# builds demo.cc with the sources of the current directory and runs it in a scratch directory
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
A=$(ls /usr/lib/x86_64-linux-gnu/libabsl_*.a | grep -v test)
g++ -std=c++17 -O1 -w -DNDEBUG -DARMA_DONT_USE_WRAPPER -fno-access-control %s -I. -Isrc/include -Isrc/svr_training -I/usr/include/libsvm \\
  -o "$T/demo" "$H/demo.cc" %s -Wl,--start-group $A -lsvm -ldl -lpthread %s -Wl,--end-group || exit 2
cd "$T" && timeout 100 ./demo
""" % (os.environ.get("DEFS", ""), " ".join(srcs), os.environ.get("LIBS", "-llapack -lblas")))
