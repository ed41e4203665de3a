#!/usr/bin/env python3
"""Driver of the Python checks: builds /repo's library, bindings and Python
files into /verif/build, runs the property's laws (Hypothesis) against that
package in several processes, merges the evidence, reports violations.

  pycheck.py C31 [--tier quick|thorough] [--seed N] [--scale X] [--law NAME]
  pycheck.py --replay FILE
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
import check

REPO = check.REPO
BUILD = check.BUILD
PY = "/opt/vp/venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
FLAGS = "-std=c++17 -O1 -g0 -DNDEBUG -w -fPIC -fvisibility=hidden"


def build():
    """Returns the directory to put on sys.path."""
    inc = subprocess.run([PY, "-m", "pybind11", "--includes"], capture_output=True, text=True, check=True).stdout.strip()
    suffix = subprocess.run([PY, "-c", "import sysconfig; print(sysconfig.get_config_var('EXT_SUFFIX'))"],
                            capture_output=True, text=True, check=True).stdout.strip()
    outdir = os.path.join(BUILD, "pyobj")
    os.makedirs(outdir, exist_ok=True)
    pysrc = sorted(glob.glob(REPO + "/python/lsst/sphgeom/*.cc"))
    lib = sorted(glob.glob(REPO + "/src/*.cc"))
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        jobs = [ex.submit(check.compile_one, "g++", FLAGS + " " + inc, s, outdir) for s in pysrc]
        jobs += [ex.submit(check.compile_one, "g++", FLAGS, s, outdir) for s in lib]
        objs = [j.result() for j in jobs]
    pyfiles = sorted(glob.glob(REPO + "/python/lsst/sphgeom/*.py"))
    h = hashlib.sha256(repr(objs).encode())
    for f in pyfiles:
        h.update(os.path.basename(f).encode() + b"\0" + check.read(f))
    top = os.path.join(BUILD, "py-" + h.hexdigest()[:20])
    if not os.path.exists(top):
        tmp = top + ".%d.tmp" % os.getpid()
        pkg = os.path.join(tmp, "lsst", "sphgeom")
        os.makedirs(pkg)
        cmd = ["g++", "-shared", "-fPIC"] + objs + ["-o", os.path.join(pkg, "_sphgeom" + suffix)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise check.BuildError("link failed:\n" + r.stderr[-4000:])
        for f in pyfiles:
            shutil.copy(f, pkg)
        if not os.path.exists(os.path.join(pkg, "version.py")):
            with open(os.path.join(pkg, "version.py"), "w") as f:
                f.write('__all__ = ("__version__", )\n__version__ = "0.0"\n')
        try:
            os.rename(tmp, top)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return top


def run_worker(top, args, timeout):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=top,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(BUILD, "hypothesis"))
    env.pop("LD_LIBRARY_PATH", None)
    cmd = [PY, "-s", os.path.join(VERIF, "harness", "pyprops", "pbt.py"), "--hyp", HYP, "--top", top] + args
    try:
        return subprocess.run(cmd, env=env, capture_output=True, text=True, errors="replace", timeout=timeout, cwd=BUILD)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, -1000, "", "timed out")


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--law", default="")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    for d in ("evidence", "build", "replays"):
        os.makedirs(os.path.join(VERIF, d), exist_ok=True)
    top = build()
    tb = time.time() - t0
    if a.replay:
        r = json.load(open(a.replay))
        p = run_worker(top, r["args"], 3600)
        sys.stdout.write(p.stdout)
        sys.stderr.write(p.stderr[-4000:])
        out = r["args"][r["args"].index("--out") + 1]
        if p.returncode != 0:
            return 1
        res = json.load(open(out))
        for f in res["failures"]:
            print("law %s: %s\n  case: %s" % (f["law"], f["message"], f["case"]))
        return 1 if res["failures"] else 0
    prop = a.prop
    p = run_worker(top, [prop, "--list"], 120)
    if p.returncode != 0:
        # the package does not even import
        print(p.stderr[-3000:])
        laws, rule = [], ""
        print("ERROR: the laws of %s cannot be loaded" % prop)
        return 2
    info = json.loads(p.stdout)
    laws = [l for l in info["laws"] if not a.law or l["name"] == a.law]
    workers = os.cpu_count() or 4
    jobs = []
    for l in laws:
        n = int(l[a.tier] * a.scale)
        # cheap laws are split over fewer processes
        k = max(1, min(workers, n // 25))
        for w in range(k):
            out = os.path.join(BUILD, "%s.%s.%d.py.json" % (prop, l["name"], w))
            jobs.append((l["name"], w, ["%s" % prop, "--law", l["name"], "--seed", str(a.seed * 1000 + w),
                                        "--examples", str((n + k - 1) // k), "--out", out], out))
    fails, perlaw, samples = [], {}, []
    timeout = 600 if a.tier == "quick" else 6000
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for (name, w, args, out), p in zip(jobs, ex.map(lambda j: run_worker(top, j[2], timeout), jobs)):
            if p.returncode == -1000:
                fails.append(dict(law=name, args=args, message="no answer within %d s" % timeout, case="", stderr=""))
                continue
            if p.returncode < 0:
                last = ""
                try:
                    last = open(out + ".last", errors="replace").read()
                except OSError:
                    pass
                fails.append(dict(law=name, args=args, message="the interpreter died of signal %d" % -p.returncode, case=last,
                                  stderr=p.stderr[:2000]))
                continue
            if p.returncode != 0:
                sys.stderr.write(p.stderr[-4000:])
                print("ERROR: engine of %s ended with %d" % (prop, p.returncode))
                return 2
            res = json.load(open(out))
            d = perlaw.setdefault(name, dict(evaluations=0, hashes=set(), labels={}))
            d["evaluations"] += res["evaluations"]
            d["hashes"].update(res["nontrivial_hashes"])
            for k, v in res["labels"].items():
                d["labels"][k] = d["labels"].get(k, 0) + v
            if w == 0:
                samples += [dict(law=name, case=s) for s in res["samples"]]
            if not any(f["law"] == name for f in fails):
                for f in res["failures"]:
                    fails.append(dict(law=name, args=args, message=f["message"], case=f["case"], stderr=f["trace"][-2500:]))
    known = check.load_known(prop)
    new, seen = [], []
    for f in fails:
        k = next((k for k in known if k["law"] == f["law"] and k["match"].search(f["message"] + " " + f["case"])), None)
        (seen if k else new).append((f, k))
    evs = sum(d["evaluations"] for d in perlaw.values())
    nt = sum(len(d["hashes"]) for d in perlaw.values())
    cov = dict(evaluations=evs, distinct_nontrivial=nt,
               rule=info["rule"] + " Cases are drawn by Hypothesis from a seed per law and process; distinct means distinct descriptions.",
               samples=samples[:40],
               laws={n: dict(evaluations=d["evaluations"], distinct_nontrivial=len(d["hashes"]), labels=d["labels"]) for n, d in perlaw.items()},
               build_s=round(tb, 2), known_findings_hit=[k["what"] for _, k in seen])
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
              assumptions=["the oracles in harness/pyprops are right", "g++ 13 on x86-64 compiles /repo as its own build does"],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for f, _ in new:
        path = os.path.join(VERIF, "replays", "%s-%s-%d.json" % (prop, f["law"], a.seed))
        json.dump(dict(property=prop, law=f["law"], args=f["args"], message=f["message"], case=f["case"], stderr=f["stderr"]),
                  open(path, "w"), indent=1)
        print("  law %s: %s" % (f["law"], f["message"]))
        print("    case: %s" % f["case"][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s (build %.1f s)" % (
        prop, a.tier, evs, nt, len(new), time.time() - t0, tb))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except check.BuildError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
