#!/usr/bin/env python3
"""mkseed.py SPEC.py...  (development tool, no check uses it)
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (body of int main, helpers before
a line '//MAIN').  Writes /verif/seeded/ID/{patch.diff,demo.sh,demo.cpp,meta.json}."""
import json, os, subprocess, sys
SH = '''#!/bin/bash
# exit 0: the property holds in this demonstration, 1: it is broken
D=$(cd "$(dirname "$0")" && pwd)
H=/usr/lib/x86_64-linux-gnu
W=$(mktemp -d /tmp/seed_demo_XXXXXX) && cd "$W" || exit 2
g++ -std=gnu++14 -O1 -w -I/repo/_build/gen/include -I/usr/include/mfem -I/usr/include/hypre -I/usr/include/hdf5/serial -I$H/openmpi/include -I$H/openmpi/include/openmpi \\
  "$D/demo.cpp" $(find /repo/_build/CMakeFiles/scaleupROMObj.dir -name '*.o') -o "$W/demo" \\
  -L$H/hdf5/serial -L$H/openmpi/lib -Wl,-rpath,$H/hdf5/serial:$H/openmpi/lib -lmfem -lHYPRE -lmetis -lyaml-cpp -lhdf5 -llapack -lblas -lmpi_cxx -lmpi -lpthread -ldl || exit 2
export HOME=/root OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated OMPI_MCA_btl_vader_single_copy_mechanism=none OMP_NUM_THREADS=1
"$W/demo" > "$W/log" 2>&1; R=$?
tail -5 "$W/log"
exit $R
'''
HEAD = '''#include "mfem.hpp"
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
using namespace mfem;
static unsigned long sd = 12345;
static double rnd(double lo = -1, double hi = 1) { sd = (sd * 6364136223846793005UL + 1442695040888963407UL); return lo + (hi - lo) * ((sd >> 33) / 2147483648.0); }
static void rv(Vector &v, double lo = -1, double hi = 1) { for (int i = 0; i < v.Size(); i++) v[i] = rnd(lo, hi); }
static void rm(DenseMatrix &m, double lo = -1, double hi = 1) { for (int j = 0; j < m.Width(); j++) for (int i = 0; i < m.Height(); i++) m(i, j) = rnd(lo, hi); }
static int bad = 0;
static void near(double a, double b, const char *w) { if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b)))) { printf("differs: %s %.15g %.15g\\n", w, a, b); bad = 1; } }
static void yes(bool c, const char *w) { if (!c) { printf("fails: %s\\n", w); bad = 1; } }
'''
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    d = "/verif/seeded/" + g["ID"]
    os.makedirs(d, exist_ok=True)
    subprocess.check_call("git -C /repo diff --quiet", shell=True)
    try:
        for f, old, new in g["EDITS"]:
            p = "/repo/" + f
            s = open(p).read()
            assert s.count(old) == 1, (g["ID"], f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    pre, _, body = g["DEMO"].partition("//MAIN")
    open(d + "/demo.cpp", "w").write(HEAD + pre + "int main(int argc, char **argv)\n{\n   MPI_Init(&argc, &argv);\n" + body + "\n   MPI_Finalize();\n   if (!bad) printf(\"ok\\n\");\n   return bad;\n}\n")
    json.dump({"property": g["PROPERTY"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    print(d)
