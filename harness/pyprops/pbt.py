"""The engine of the Python laws: runs one law of one property with Hypothesis
in this process and writes what it found."""
import argparse, hashlib, importlib, json, os, sys, traceback

LAWS = []


class Failure(Exception):
    """The property does not hold."""


def law(quick, thorough):
    def deco(f):
        LAWS.append(dict(name=f.__name__, quick=quick, thorough=thorough, f=f))
        return f
    return deco


def require(cond, *what):
    if not cond:
        raise Failure(" ".join(str(w) for w in what))


def raises(kinds, f, *args, **kw):
    """f(*args) raises one of the kinds (and nothing else)."""
    try:
        r = f(*args, **kw)
    except kinds:
        return
    except Exception as e:
        raise Failure("%s%r raises %s(%s) and not %s" % (getattr(f, "__name__", f), args, type(e).__name__, e, kinds))
    raise Failure("%s%r returns %r and does not raise %s" % (getattr(f, "__name__", f), args, r, kinds))


class Case:
    def __init__(self):
        self.notes, self.nt, self.labels = [], False, []

    def note(self, *what):
        self.notes.append(" ".join(w if isinstance(w, str) else repr(w) for w in what))
        if Case.last:
            Case.last.seek(0)
            Case.last.truncate()
            Case.last.write("; ".join(self.notes))
            Case.last.flush()

    def nontrivial(self, yes=True):
        self.nt = self.nt or bool(yes)

    def label(self, cond, name):
        if cond:
            self.labels.append(name)


Case.last = None


def run(l, seed, examples, out):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings, strategies as st

    st_data = st.data()
    res = dict(evaluations=0, nontrivial_hashes=[], samples=[], labels={}, failures=[])
    seen = set()
    final = {}
    Case.last = open(out + ".last", "w")
    state = dict(failed=False)

    @hypothesis.seed(seed)
    @settings(max_examples=examples, deadline=None, database=None, print_blob=False, report_multiple_bugs=False,
              suppress_health_check=list(HealthCheck), derandomize=False,
              phases=[Phase.generate, Phase.shrink])
    @given(st_data)
    def test(data):
        c = Case()
        try:
            l["f"](data.draw, c)
        except hypothesis.errors.HypothesisException:
            raise
        except Exception:
            state["failed"] = True
            final["case"] = "; ".join(c.notes)
            raise
        if state["failed"]:
            return
        res["evaluations"] += 1
        text = "; ".join(c.notes)
        for n in c.labels:
            res["labels"][n] = res["labels"].get(n, 0) + 1
        if c.nt:
            h = hashlib.sha1(text.encode("utf-8", "replace")).hexdigest()[:14]
            if h not in seen:
                seen.add(h)
                if len(seen) in (1, 10, 50, 200):
                    res["samples"].append(text[:600])

    try:
        test()
    except Exception as e:
        tr = traceback.format_exc()
        msg = str(e) if isinstance(e, Failure) else "unexpected %s: %s" % (type(e).__name__, e)
        res["failures"].append(dict(law=l["name"], message=msg[:2000], case=final.get("case", "")[:4000], trace=tr))
    res["nontrivial_hashes"] = sorted(seen)
    with open(out, "w") as f:
        json.dump(res, f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--hyp")
    ap.add_argument("--top")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--law")
    ap.add_argument("--seed", type=int)
    ap.add_argument("--examples", type=int)
    ap.add_argument("--out")
    a = ap.parse_args()
    sys.path.append(a.hyp)
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))   # fails cleanly where memory would run out
    import faulthandler
    faulthandler.enable()
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    sys.modules["pbt"] = sys.modules["__main__"]
    import lsst.sphgeom
    assert os.path.abspath(lsst.sphgeom.__file__).startswith(os.path.abspath(a.top)), lsst.sphgeom.__file__
    m = importlib.import_module(a.prop)
    if a.list:
        print(json.dumps(dict(laws=[{k: v for k, v in l.items() if k != "f"} for l in LAWS], rule=m.RULE)))
        return
    l = next(l for l in LAWS if l["name"] == a.law)
    run(l, a.seed, a.examples, a.out)


if __name__ == "__main__":
    main()
