#!/usr/bin/env python3
"""Developer tool: mutation sampling of /repo's sources (no check uses it).

  mutate.py WORK N SEED FILE...   WORK is a scratch directory; N mutants per file

Mutants that build and pass the stable tests are given to the quick checks
listed for their file; the survivors are printed for a human to judge.
"""
import json, os, random, re, shutil, subprocess, sys, time

BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ALL = {
    "RangeSet": "C03 C04 C34", "BigInteger": "C02 C01", "orientation": "C01", "curve": "C27 C34 C22", "Interval1d": "C05 C20", "Interval": "C05",
    "AngleInterval": "C05 C20 C10", "NormalizedAngleInterval": "C06 C20", "NormalizedAngle": "C07 C06", "Angle": "C07 C20", "LonLat": "C07", "utils": "C09 C16",
    "UnitVector3d": "C08 C09", "Vector3d": "C08", "Matrix3d": "C08 C16", "Box": "C10 C11 C12 C13 C15 C20 C35 C18 C19", "Circle": "C10 C11 C12 C13 C15 C20 C35 C18 C19",
    "Ellipse": "C16 C10 C11 C12 C13 C20 C18 C19", "ConvexPolygon": "C10 C11 C12 C13 C17 C18 C19 C20", "ConvexPolygonImpl": "C10 C11 C12 C13 C17 C25 C26 C21",
    "CompoundRegion": "C36 C10 C11 C12 C13 C18 C19 C20", "Region": "C18 C19 C36 C20", "Box3d": "C05 C13", "codec": "C18 C19", "HtmPixelization": "C21 C22 C23 C25 C26",
    "Q3cPixelization": "C21 C22 C23 C24 C25 C26", "Mq3cPixelization": "C21 C22 C23 C24 C25 C26", "Q3cPixelizationImpl": "C21 C22 C24 C25 C30",
    "PixelFinder": "C25 C26 C21", "Chunker": "C28 C29", "Pixelization": "C25 C26", "Relationship": "C12", "constants": "C09",
}
PY = {"_yaml.py": "C31", "_continue_class.py": "C32 C34", "_healpixPixelization.py": "C33", "pixelization_abc.py": "C33"}

SWAPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>\-=])<(?![<=])", "<="), (r"(?<![<>\-=])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" & ", " | "), (r" \| ", " & "), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"),
         (r"\b1\b(?!\.)", "0"), (r"\b2\b(?!\.)", "3"), (r"\b0\.0\b", "1.0e-3"), (r"\b0\.5\b", "0.75"), (r"\b1\.0\b", "0.5"), (r"\b2\.0\b", "1.0"), (r"\b4\.0\b", "3.9"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"(?<=[ (])-(?=[a-zA-Z_(])", ""), (r"<<", ">>"), (r">>", "<<"), (r"\+\+", "--"), (r"DISJOINT\b", "WITHIN"), (r"\bWITHIN\b", "CONTAINS"), (r"\bCONTAINS\b", "WITHIN"), (r"\bINTERSECTS\b", "DISJOINT"),
         (r"\bif \(", "if (!("), (r"^(\s+)[A-Za-z_][\w:.>\-\[\]()]*\s*[-+*|&^]?=[^=].*;$", r"\1;"), (r"^(\s+)[a-zA-Z_][\w.:>-]*\(.*\);$", r"\1;"),
         (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\b_a\b", "_b"), (r"\b_b\b", "_a"), (r"\bx\b", "y"), (r"\by\b", "z"), (r"\bgetA\b", "getB"), (r"\bgetB\b", "getA"), (r"\bgetLat\b", "getLon"), (r"\bi\b", "j"), (r"\bu\b", "v"), (r"\blevel\b", "(level - 1)"),
         (r"\bsin\(", "cos("), (r"\bcos\(", "sin("), (r"_enforceInvariants\(\);", ""), (r" and ", " or "), (r" or ", " and "), (r" < ", " <= "), (r"\bnot ", ""), (r"\bcontinue;", "break;"), (r"\bbreak;", ""),
         (r"MAX_\w+_ERROR", "0.0"), (r"\bmaxRanges\b", "(maxRanges + 1)"), (r"5 \* ", "0 * "), (r"return ([a-z]\w*);", r"return \1; ")]


def candidates(path):
    out, comment = [], False
    lines = open(path).read().split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if comment:
            comment = "*/" not in s
            continue
        if s.startswith("/*"):
            comment = "*/" not in s
            continue
        if not s or s.startswith(("//", "#", "*", "using", "namespace", "import", "from", '"""', "static_assert", "class ", "public:", "private:", "@")) or "throw" in s and "if" not in s:
            continue
        code = l.split("//")[0].rstrip()
        for pat, rep in SWAPS:
            for m in re.finditer(pat, code):
                new = code[:m.start()] + m.expand(rep) + code[m.end():]
                if rep == "if (!(":
                    if not new.endswith("{") or new.count("(") != new.count(")") + 1:
                        continue
                    k = new.rindex(")")
                    new = new[:k] + "))" + new[k + 1:]
                if new.rstrip() != code:
                    out.append((n, l, new))
    return lines, out


def inside(repo, cmd, timeout=1500):
    try:
        return subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (repo, cmd)], text=True, capture_output=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, -99, "", "")


def main():
    work, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    os.makedirs(work, exist_ok=True)
    repo, verif = work + "/repo", work + "/verif"
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.run("cp -a /repo " + repo, shell=True, check=True)
    if not os.path.exists(verif):
        subprocess.run("git clone -q /verif " + verif, shell=True, check=True)
    log = open(work + "/log", "a")
    for f in sys.argv[4:]:
        lines, cand = candidates(repo + "/" + f)
        rnd = random.Random("%s %d" % (f, seed))
        rnd.shuffle(cand)
        base = os.path.basename(f)
        props = (PY.get(base) or ("C34 C31 C32 C33" if base.startswith("_") else ALL[base.split(".")[0]])).split()
        done = 0
        for k, old, new in cand:
            if done >= n:
                break
            ls = list(lines)
            ls[k] = new
            open(repo + "/" + f, "w").write("\n".join(ls))
            t = time.time()
            r = inside(repo, "timeout 300 bash /opt/vp/test.sh %s/out.json" % work)
            try:
                passed = set(json.load(open(work + "/out.json"))["passed"])
                os.unlink(work + "/out.json")
            except OSError:
                passed = set()
            what = "%s:%d: %s  ->  %s" % (f, k + 1, old.strip(), new.strip())
            if BASE - passed:
                continue
            done += 1
            res = "SURVIVED"
            for p in props:
                drv = "pycheck.py" if os.path.exists("%s/harness/pyprops/%s.py" % (verif, p)) else "check.py"
                r = inside(repo, "cd %s && VERIF_SEED=1 VERIF_TIER=quick python3 bin/%s %s" % (verif, drv, p))
                if r.returncode == 1 and "VIOLATION" in r.stdout:
                    res = "caught by " + p
                    break
                if r.returncode not in (0, 1):
                    res = "no answer of %s: %s" % (p, (r.stdout + r.stderr)[-200:])
                    break
            print("%s [%.0f s] %s" % (res, time.time() - t, what), file=log, flush=True)
            print("%s [%.0f s] %s" % (res, time.time() - t, what), flush=True)
            subprocess.run("cd %s/build/obj 2>/dev/null && ls -t | tail -n +1500 | xargs -r rm -f" % verif, shell=True)
        open(repo + "/" + f, "w").write("\n".join(lines))


main()
