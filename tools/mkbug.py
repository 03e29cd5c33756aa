"""helper to write /verif/seeded/<id>/ : mk(id, property, [(file, old, new)], demo_cc, needs, breaks, sources)"""
import difflib, json, os
REPO, OUT = "/repo", "/verif/seeded"
SH = """#!/bin/bash
# exit 0 when the property holds on this input, nonzero otherwise; run in /repo after the build
set -u
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export OMP_NUM_THREADS=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader HOME=$T
D="-DNIMBLE_HAVE_EXODUS -DNIMBLE_HAVE_KOKKOS -DNIMBLE_HAVE_MPI -DNIMBLE_HAVE_TRILINOS -DNDEBUG"
I="-Isrc -Itpl -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/include/trilinos"
L="-L/usr/lib/x86_64-linux-gnu/openmpi/lib -Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib -lexoIIv2c -ltrilinos_tpetra -ltrilinos_teuchoscomm -ltrilinos_teuchosparameterlist -ltrilinos_teuchosnumerics -ltrilinos_teuchoscore -ltrilinos_kokkoscore -lmpi_cxx -lmpi"
g++ -std=c++14 -O1 -w -fno-access-control -fopenmp $D $I "$here/demo.cc" %s -o "$T/demo" $L || exit 3
cd "$T" && timeout 120 ./demo
"""


def mk(bid, prop, edits, demo, needs, breaks, sources="_build/libnimble.a"):
    d = os.path.join(OUT, bid)
    os.makedirs(d, exist_ok=True)
    patch = ""
    files = {}
    for f, old, new in edits:
        s = files.setdefault(f, [open(os.path.join(REPO, f)).read()] * 2)
        cur = s[1]
        assert cur.count(old) == 1, (bid, f, cur.count(old), old)
        files[f] = [s[0], cur.replace(old, new)]
    for f, (a, b) in files.items():
        patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(1), b.splitlines(1), "a/" + f, "b/" + f))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.cc"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(SH % sources)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
