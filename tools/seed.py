#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from a spec file (python: ID, PROP, EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO, SRCS, LIBS)."""
import sys, os, subprocess, json, runpy
s = runpy.run_path(sys.argv[1])
d = "/verif/seeded/" + s["ID"]
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
for f, o, n in s["EDITS"]:
    p = "/repo/" + f
    t = open(p, newline="").read()
    crlf = "\r\n" in t
    if crlf: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
    assert t.count(o) == 1, (f, t.count(o), o)
    open(p, "w", newline="").write(t.replace(o, n))
diff = subprocess.check_output(["git", "-C", "/repo", "diff"])
open(d + "/patch.diff", "wb").write(diff)
subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/demo.cpp", "w").write(s["DEMO"])
json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: behaves as specified; nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -DEIGEN_NO_CPUID -D__DNDS_REALLY_COMPILING__ -DNINSERT -DFMT_HEADER_ONLY -DOMPI_SKIP_MPICXX -O1 %s -Isrc -Iexternal -isystem /usr/include/eigen3 -isystem /opt/vp/cmake/fmt/include -isystem /usr/include/hdf5/openmpi -isystem /usr/lib/x86_64-linux-gnu/openmpi/include "$D/demo.cpp" %s -o "$T/demo" %s -L/usr/lib/x86_64-linux-gnu/openmpi/lib -lmpi || exit 97
cd "$T" && %s ./demo
''' % (s.get("FLAGS", ""), " ".join(s.get("SRCS", [])), s.get("LIBS", ""), s.get("RUN", "timeout 120")))
os.chmod(d + "/demo.sh", 0o755)
