#!/usr/bin/env python3
"""Driver of the C++ checks: builds /repo's sources and the property's laws in
two configurations, runs both, merges the evidence, reports violations.

  check.py C10 [--tier quick|thorough] [--seed N] [--scale X] [--law NAME]
  check.py --replay FILE
"""
import argparse, concurrent.futures, glob, hashlib, json, os, shlex, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

CONFIGS = {
    "plain": dict(cxx="g++", flags="-std=c++17 -O2 -g1 -DNDEBUG -w", link="-lpthread -lquadmath -ldl"),
    "san": dict(
        cxx="clang++",
        flags="-std=c++17 -O1 -g1 -w -DPBT_ASAN=1 -D_GLIBCXX_ASSERTIONS"
        " -fsanitize=address,undefined,float-cast-overflow -fno-sanitize=alignment,vptr"
        " -fno-sanitize-recover=all",
        link="-lpthread -ldl",
    ),
    # for the properties whose source asks for it with "// CONFIGS: plain tsan"
    "tsan": dict(
        cxx="clang++",
        flags="-std=c++17 -O1 -g1 -w -DPBT_ASAN=1 -fsanitize=thread",
        link="-lpthread -ldl",
    ),
}


def configs_of(prop):
    for line in open(os.path.join(HARNESS, "props", prop + ".cc"), encoding="utf-8"):
        if line.startswith("// CONFIGS:"):
            return line.split(":", 1)[1].split()
    return ["plain", "san"]


class BuildError(Exception):
    pass


def read(path):
    with open(path, "rb") as f:
        return f.read()


_tree_cache = {}


def tree_hash():
    if "h" not in _tree_cache:
        h = hashlib.sha256()
        files = sorted(glob.glob(REPO + "/include/**/*.h", recursive=True) + glob.glob(REPO + "/src/*.h"))
        files += sorted(glob.glob(HARNESS + "/*.h"))
        for f in files:
            h.update(f.encode() + b"\0" + read(f))
        _tree_cache["h"] = h.hexdigest()
    return _tree_cache["h"]


def compile_one(cxx, flags, src, outdir):
    cmd = [cxx] + shlex.split(flags) + ["-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + HARNESS]
    key = hashlib.sha256((tree_hash() + repr(cmd) + src).encode() + read(src)).hexdigest()[:24]
    obj = os.path.join(outdir, os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(cmd + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[:3000]))
        os.rename(tmp, obj)
    return obj


def variants(prop_src):
    """Extra compilations asked for by the harness source, one per line:
    // BUILD-VARIANT: <name> <source> <flags>"""
    res = []
    for line in open(prop_src, encoding="utf-8"):
        if line.startswith("// BUILD-VARIANT:"):
            name, source, flags = line.split(":", 1)[1].strip().split(" ", 2)
            res.append((name, source, flags))
    return res


def build(prop, configs):
    prop_src = os.path.join(HARNESS, "props", prop + ".cc")
    outdir = os.path.join(BUILD, "obj")
    os.makedirs(outdir, exist_ok=True)
    lib = sorted(glob.glob(REPO + "/src/*.cc"))
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for cfg in configs:
            c = CONFIGS[cfg]
            # the biggest first
            for s in [prop_src, os.path.join(HARNESS, "pbt_main.cc")] + lib:
                jobs.append((cfg, ex.submit(compile_one, c["cxx"], c["flags"], s, outdir)))
            for name, source, flags in variants(prop_src):
                srcs = lib if source == "LIB" else [os.path.join(HARNESS, source)]
                for s in srcs:
                    jobs.append((cfg, ex.submit(compile_one, c["cxx"], c["flags"] + " " + flags, s, outdir)))
        objs = {cfg: [] for cfg in configs}
        for cfg, j in jobs:
            objs[cfg].append(j.result())
    exes = {}
    for cfg in configs:
        c = CONFIGS[cfg]
        exe = os.path.join(BUILD, "%s.%s" % (prop, cfg))
        tmp = exe + ".%d.tmp" % os.getpid()
        cmd = [c["cxx"]] + shlex.split(c["flags"]) + objs[cfg] + ["-o", tmp] + shlex.split(c["link"])
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError("link failed:\n" + r.stderr[-6000:])
        os.rename(tmp, exe)
        exes[cfg] = exe
    return exes


def load_known(prop):
    """known-findings.txt lines: 'known: property=<id> law=<law> match=<regex> <what fails>'."""
    import re
    known = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) law=(\S+) match=/(.*?)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                known.append(dict(law=m.group(2), match=re.compile(m.group(3)), what=m.group(4)))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--config", default="")
    ap.add_argument("--law", default="")
    ap.add_argument("--replay")
    a = ap.parse_args()
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        exe = build(r["property"], [r["config"]])[r["config"]]
        cmd = [exe, "--tier", r["tier"], "--replay-law", r["law"], "--replay-tape", r["tape"]]
        if r.get("prefix"):
            cmd += ["--replay-prefix", r["prefix"]]
        return subprocess.run(cmd).returncode
    prop = a.prop
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    configs = [a.config] if a.config else configs_of(prop)
    exes = build(prop, configs)
    tb = time.time() - t0
    workers = os.cpu_count() or 4
    results, fails, unrep = {}, [], 0
    for cfg in configs:
        out = os.path.join(BUILD, "%s.%s.json" % (prop, cfg))
        cmd = [exes[cfg], "--tier", a.tier, "--seed", str(a.seed), "--workers", str(workers), "--out", out,
               "--scale", str(a.scale * json.load(open(os.path.join(HARNESS, "scale.json"))).get(prop, 1)), "--limit", "200" if a.tier == "quick" else "0"]
        if cfg != "plain":
            cmd.append("--san")
        if a.law:
            cmd += ["--law", a.law]
        ts = time.time()
        r = subprocess.run(cmd, stderr=subprocess.PIPE, text=True, errors="replace")
        if r.returncode not in (0, 1):
            sys.stderr.write(r.stderr[-4000:])
            print("ERROR: engine of %s ended with %d" % (prop, r.returncode))
            return 2
        res = json.load(open(out))
        res["run_s"] = round(time.time() - ts, 2)
        results[cfg] = res
        unrep += res["unreproduced"]
        for f in res["failures"]:
            f["config"] = cfg
            f["stderr"] = r.stderr[-3000:]
            fails.append(f)
    known = load_known(prop)
    new, seen_known = [], []
    for f in fails:
        k = next((k for k in known if k["law"] == f["law"] and k["match"].search(f["message"] + " " + f["description"])), None)
        (seen_known if k else new).append((f, k))
    cov = dict(
        evaluations=sum(r["evaluations"] for r in results.values()),
        distinct_nontrivial=sum(r["distinct_nontrivial"] for c, r in results.items() if c == configs[0]),
        rule=results[configs[0]]["rule"]
        + " Cases are drawn from a recorded choice tape (seed, law, case number); distinct means distinct tapes,"
        " counted in the %s build only (the sanitizer build repeats a prefix of the same cases)." % configs[0],
        samples=results[configs[0]]["samples"],
        builds={c: dict(evaluations=r["evaluations"], laws=r["laws"], run_s=r["run_s"]) for c, r in results.items()},
        build_s=round(tb, 2),
        unreproduced_failures=unrep,
        known_findings_hit=[k["what"] for _, k in seen_known],
    )
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
              assumptions=["the oracles in harness/ are right", "g++ 13 / clang 18 on x86-64 compile /repo as its own build does"],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for f, _ in new:
        path = os.path.join(VERIF, "replays", "%s-%s-%s-%d.json" % (prop, f["law"], f["config"], a.seed))
        json.dump(dict(property=prop, law=f["law"], config=f["config"], tier=a.tier, tape=f["tape"],
                       prefix=f.get("prefix", ""), message=f["message"], case=f["description"],
                       stderr=f["stderr"]), open(path, "w"), indent=1)
        print("  law %s (%s build): %s" % (f["law"], f["config"], f["message"]))
        print("    case: %s" % f["description"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s (build %.1f s)" % (
        prop, a.tier, cov["evaluations"], cov["distinct_nontrivial"], len(new), time.time() - t0, tb))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("ERROR: " + str(e))
        sys.exit(2)
