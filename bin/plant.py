#!/usr/bin/env python3
"""Developer tool: makes and verifies planted bugs (no check uses it).

  plant.py make SPEC.py     SPEC defines BUGS: list of dicts (id, property, edits=[(file, old, new)], demo (C++ statements) or
                            demo_py (python), needs, breaks); writes seeded/<id> after verifying it in a scratch copy
  plant.py table            rewrites the table of planted bugs in DESIGN.md
  plant.py run [ID ...]     runs each bug's check against it and prints caught / MISSED
Everything happens in a private mount namespace in which a scratch copy stands in for /repo.
"""
import json, os, subprocess, sys, shutil, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO_SH = """#!/bin/bash
# Exit 0 when the property holds for this case.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)"
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -I/repo/include "$D/demo.cc" -L/repo/_build/src -Wl,-rpath,/repo/_build/src -lsphgeom -o "$T/demo" || exit 99
"$T/demo"
"""
DEMO_PY_SH = """#!/bin/bash
# Exit 0 when the property holds for this case.
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH=/repo/_build/install/python LD_LIBRARY_PATH=/repo/_build/install/lib PYTHONDONTWRITEBYTECODE=1
exec /opt/vp/venv/bin/python "$D/demo.py"
"""
DEMO_CC = """#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <memory>
#include <string>
#include <vector>
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Chunker.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"
using namespace lsst::sphgeom;
typedef std::vector<UnitVector3d> VV;
__attribute__((unused)) static UnitVector3d deg(double lon, double lat) { return UnitVector3d(LonLat::fromDegrees(lon, lat)); }
#define CHECK(x) do { if (!(x)) { std::printf("broken: %%s\\n", #x); return 1; } } while (0)
int main() {
%s
    return 0;
}
"""


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)


def inside(scratch, cmd):
    """Run a shell command with `scratch` mounted over /repo."""
    return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (scratch, cmd)],
                          text=True, capture_output=True)


def fresh(scratch):
    shutil.rmtree(scratch, ignore_errors=True)
    sh("cp -a /repo " + scratch)


def tests_ok(scratch):
    r = inside(scratch, "bash /opt/vp/test.sh /tmp/plant_out.json")
    o = json.load(open("/tmp/plant_out.json"))
    bl = BASE["stable"]
    missing = set(bl) - set(o["passed"])
    return missing, r


def make(spec):
    ns = {}
    exec(open(spec).read(), ns)
    only = sys.argv[3:]
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        scratch = "/tmp/plant_scr"
        fresh(scratch)
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(scratch, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "edit matches", s.count(old), "times in", f, repr(old[:50]))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        tmp = "/tmp/plant_demo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        diff = sh("git -C %s diff" % scratch).stdout
        open(tmp + "/patch.diff", "w").write(diff)
        if "demo_py" in b:
            open(tmp + "/demo.py", "w").write(b["demo_py"])
            open(tmp + "/demo.sh", "w").write(DEMO_PY_SH)
        else:
            open(tmp + "/demo.cc", "w").write(b.get("pre", "") + DEMO_CC % b["demo"])
            open(tmp + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(tmp + "/demo.sh", 0o755)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
        missing, r = tests_ok(scratch)
        if missing:
            print(b["id"], "REJECTED: breaks tests/build:", sorted(missing)[:5], r.stderr[-300:])
            continue
        d1 = inside(scratch, "bash %s/demo.sh" % tmp)
        d0 = sh("bash %s/demo.sh" % tmp, cwd="/repo")
        if d0.returncode != 0 or d1.returncode in (0, 99):
            print(b["id"], "REJECTED: demo exits", d0.returncode, "unchanged,", d1.returncode, "patched;", d0.stdout[-300:], d0.stderr[-600:])
            continue
        dst = os.path.join(SEEDED, b["id"])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(tmp, dst)
        print(b["id"], "kept:", d1.stdout.strip()[-150:] or d1.returncode)


def run(ids):
    for i in ids or sorted(os.listdir(SEEDED)):
        meta = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        scratch = "/tmp/plant_run"
        fresh(scratch)
        r = sh("git -C %s apply %s/%s/patch.diff" % (scratch, SEEDED, i))
        if r.returncode:
            print(i, "patch does not apply", r.stderr)
            continue
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        cmd = next((c["quick_cmd"] for c in man["checks"] if c["property"] == meta["property"]), None)
        if not cmd:
            print(i, "no check for", meta["property"])
            continue
        t = time.time()
        r = inside(scratch, "cd %s && VERIF_SEED=1 VERIF_TIER=quick %s" % (VERIF, cmd))
        caught = r.returncode == 1 and "VIOLATION property=%s" % meta["property"] in r.stdout
        print("%-28s %s %s (%d, %.0f s) %s" % (i, meta["property"], "caught" if caught else "MISSED", r.returncode, time.time() - t,
              "; ".join(l.strip()[:110] for l in r.stdout.splitlines() if l.startswith("  law"))[:240] or r.stdout[-200:]), flush=True)


def table():
    """Rewrites the table of planted bugs in DESIGN.md."""
    p = os.path.join(VERIF, "DESIGN.md")
    s = open(p).read()
    rows = ["| bug | check | needs | breaks |", "|---|---|---|---|"]
    for i in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, i, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"]))
    a, b = "<!-- planted -->\n", "<!-- /planted -->"
    s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
    open(p, "w").write(s)


if sys.argv[1] == "make":
    make(sys.argv[2])
elif sys.argv[1] == "table":
    table()
else:
    run(sys.argv[2:])
