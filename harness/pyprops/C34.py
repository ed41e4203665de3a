"""C34: the Python API mirrors the C++ behaviour safely."""
import math
import operator
import struct
import sys
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
import lsst.sphgeom as package
from lsst.sphgeom import *
from lsst.sphgeom import CompoundRegion, Pixelization, Region

import gens
from gens import TWO64, key
from pbt import law, raises, require

RULE = ("A case is an object of the package with arguments for its functions: arrays, indexes, operands, or junk. Non-trivial when "
        "the object is not a default one and the arguments are not all alike.")

PI = math.pi
DISJOINT, CONTAINS, WITHIN = 1, 2, 4

# ------------------------------------------------------------------ arrays

shapes = st.sampled_from([(), (1,), (4,), (7,), (2, 3), (0,), (3, 0), (1, 2, 2)])


@st.composite
def arrays(draw, shape, values):
    n = int(np.prod(shape)) if shape else 1
    a = np.array([draw(values) for _ in range(n)], dtype=float).reshape(shape)
    k = draw(st.integers(0, 4))
    if k == 0 and a.ndim:
        return np.asfortranarray(a)
    if k == 1 and a.ndim:
        b = np.zeros((2 * a.shape[0],) + a.shape[1:])
        b[::2] = a
        return b[::2]
    if k == 2 and a.ndim:
        return a[::-1][::-1]
    if k == 3 and a.ndim:
        return a.tolist()
    return a


@law(4000, 60000)
def vectorized_membership(draw, c):
    x = draw(gens.regions())
    s = draw(shapes)
    c.note(repr(x), "shape", s)
    q = x.getBoundingCircle()
    u = draw(gens.near(q.getCenter()))
    p = LonLat(u)
    lons = st.one_of(gens.lonrad, st.floats(-0.3, 0.3).map(lambda d: p.getLon().asRadians() + d), st.floats(-10, 10))
    lats = st.one_of(gens.latrad, st.floats(-0.3, 0.3).map(lambda d: max(-PI / 2, min(PI / 2, p.getLat().asRadians() + d))))
    lon, lat = draw(arrays(s, lons)), draw(arrays(s, lats))
    got = x.contains(lon, lat)
    flat = [x.contains(UnitVector3d(LonLat.fromRadians(a, b))) for a, b in zip(np.ravel(lon).tolist(), np.ravel(lat).tolist())]
    require(np.shape(got) == s, "shape", np.shape(got), "for", s)
    require(np.ravel(got).tolist() == flat, "contains(lon, lat) gives", got, "and one by one", flat, "for", lon, lat)
    c.nontrivial(len(set(flat)) == 2)
    c.label(True in flat, "a point inside")
    k = draw(st.sampled_from([1.0, 1.0, 2.5, 1e-3, 1e100]))
    xyz = [np.array([[UnitVector3d(LonLat.fromRadians(a, b))[i] * k for a, b in zip(np.ravel(lon).tolist(), np.ravel(lat).tolist())]]).reshape(s) for i in range(3)]
    got = x.contains(*xyz)
    flat = [x.contains(UnitVector3d(*t)) for t in zip(*[np.ravel(a).tolist() for a in xyz])]
    require(np.shape(got) == s, "shape", np.shape(got), "for", s)
    require(np.ravel(got).tolist() == flat, "contains(x, y, z) gives", got, "and one by one", flat)
    # one number against many
    if s:
        a, b = draw(lons), draw(lats)
        require(np.array_equal(x.contains(a, lat), x.contains(np.full(s, a), lat)), "a number and an array")
        require(np.array_equal(x.contains(lon=lon, lat=b), x.contains(lon, np.full(s, b))), "an array and a number")
    else:
        require(isinstance(got, (bool, np.bool_)), "gives", type(got))
        require((u in x) == x.contains(u), "in and contains differ")
    if len(s) == 1 and s[0] > 2:
        raises((ValueError, RuntimeError), x.contains, lon, np.zeros(s[0] + 1))
        raises((ValueError, RuntimeError), x.contains, xyz[0], np.zeros(s[0] + 1), xyz[2])
    if s and np.prod(s) > 0:
        bad = np.array(lat, dtype=float)
        bad.ravel()[:1] = 0
        bad = np.full(s, 1.6)
        raises(ValueError, x.contains, lon, bad)
        raises((ValueError, RuntimeError), x.contains, np.zeros(s), np.zeros(s), np.zeros(s))


@law(1500, 20000)
def vectorized_boxes(draw, c):
    x = draw(gens.box3ds())
    s = draw(shapes)
    c.note(repr(x), s)
    xyz = [draw(arrays(s, st.one_of(gens.nice, st.sampled_from([x[i].getA(), x[i].getB()])))) for i in range(3)]
    flat = [x.contains(Vector3d(*t)) for t in zip(*[np.ravel(a).tolist() for a in xyz])]
    got = x.contains(*xyz)
    require(np.shape(got) == s and np.ravel(got).tolist() == flat, "contains(x, y, z) gives", got, "and one by one", flat)
    c.nontrivial(len(set(flat)) == 2)


# --------------------------------------------------------------- sequences

@law(4000, 60000)
def sequences(draw, c):
    x = draw(st.one_of(gens.vectors, gens.units(), gens.box3ds(), gens.lonlats, gens.matrices, gens.rangesets()))
    c.note(repr(x))
    c.nontrivial()
    if isinstance(x, (Vector3d, UnitVector3d, Box3d)):
        model = [x.x(), x.y(), x.z()]
    elif isinstance(x, LonLat):
        model = [x.getLon(), x.getLat()]
    elif isinstance(x, Matrix3d):
        model = [x.getRow(i) for i in range(3)]
    else:
        model = x.ranges()
    same = lambda a, b: key(a) == key(b)
    require(len(x) == len(model), "len is", len(x))
    require(len(list(x)) == len(model) and all(same(a, b) for a, b in zip(list(x), model)), "iteration gives", list(x))
    require(all(same(a, b) for a, b in zip(reversed(x), reversed(model))), "reversed")
    for i in list(range(-len(model) - 2, len(model) + 2)) + [draw(st.integers(-100, 100))]:
        if -len(model) <= i < len(model):
            require(same(x[i], model[i]), "element", i, "is", x[i])
            require(same(x[np.int64(i)], model[i]) if isinstance(x, LonLat) else True, "numpy index")
        else:
            raises(IndexError, lambda: x[i])
    for i in (sys.maxsize, -sys.maxsize - 1, draw(st.integers(1 << 63, 1 << 70)), -draw(st.integers(1 << 63, 1 << 70))):
        raises(IndexError, lambda: x[i])
    for i in (1.0, "1", None, [0], {}, object()):
        raises(TypeError, lambda: x[i])
    if isinstance(x, Matrix3d):
        for i in range(-3, 3):
            require(same(x.getRow(i), Vector3d(x[i, 0], x[i, 1], x[i, 2])), "getRow", i)
            require(same(x.getColumn(i), Vector3d(x[0, i], x[1, i], x[2, i])), "getColumn", i)
            require(same(x[i,], x[i]), "one index in a tuple")
            for j in range(-3, 3):
                require(same(x[i, j], model[i][j]), "element", i, j, "is", x[i, j])
        require(same(x[()], x), "no index")
        i, j = draw(st.integers(-9, 9)), draw(st.integers(-9, 9))
        if not (-3 <= i < 3 and -3 <= j < 3):
            raises(IndexError, lambda: x[i, j])
        if not -3 <= i < 3:
            raises(IndexError, x.getRow, i)
            raises(IndexError, x.getColumn, i)
            raises(IndexError, lambda: x[i,])
        raises(IndexError, lambda: x[0, 0, 0])
    if isinstance(x, LonLat):
        a = slice(draw(st.integers(-3, 3)), draw(st.integers(-3, 3)))
        require([key(t) for t in x[a]] == [key(t) for t in model[a]], "slice", a)
        lon, lat = x
        require(same(lon, model[0]) and same(lat, model[1]), "unpacking")


# -------------------------------------------------------------- range sets

N = 24   # a small universe, at either end of all integers


@st.composite
def smallsets(draw, base):
    r, m = RangeSet(), set()
    for _ in range(draw(st.integers(0, 7))):
        rangeop(draw, r, m, base)
    return r, m


def rangeop(draw, r, m, base):
    k = draw(st.integers(0, 4))
    a, b = sorted([draw(st.integers(0, N)), draw(st.integers(0, N))])
    if k == 0 and a < N:
        r.insert(base + a)
        m.add(a)
    elif k == 1 and a < b:
        r.insert(base + a, (base + b) % TWO64)
        m.update(range(a, b))
    elif k == 2 and a < N:
        r.erase(base + a)
        m.discard(a)
    elif k == 3 and a < b:
        r.erase(first=base + a, last=(base + b) % TWO64)
        m.difference_update(range(a, b))


def spans(m):
    out = []
    for i in sorted(m):
        if out and out[-1][1] == i:
            out[-1][1] = i + 1
        else:
            out.append([i, i + 1])
    return out


def agree(r, m, base, what):
    want = [((base + a) % TWO64, (base + b) % TWO64) for a, b in spans(m)]
    require(r.ranges() == want, what, "gives", r, "and not", want)
    require([tuple(t) for t in r] == want, what, ": iteration gives", list(r))
    require(len(r) == r.size() == len(want), what, ": size is", r.size())
    require(r.empty() is (not m), what, ": empty is", r.empty())
    require(r.cardinality() == len(m), what, ": cardinality is", r.cardinality())
    require(r.isValid() is True, what, ": isValid is", r.isValid())
    require(str(r) == str(want) and repr(r) == "RangeSet(%s)" % want, what, ": text is", str(r), repr(r))


@law(4000, 60000)
def range_sets(draw, c):
    base = draw(st.sampled_from([0, 1000, TWO64 - N]))
    (r, m), (s, n) = draw(smallsets(base)), draw(smallsets(base))
    c.note(repr(r), repr(s))
    c.nontrivial(m and n and m != n)
    agree(r, m, base, "insertion and removal")
    agree(r | s, m | n, base, "|")
    agree(r & s, m & n, base, "&")
    agree(r - s, m - n, base, "-")
    agree(r ^ s, m ^ n, base, "^")
    agree(r.union(s), m | n, base, "union")
    agree(r.intersection(rangeSet=s), m & n, base, "intersection")
    agree(r.difference(s), m - n, base, "difference")
    agree(r.symmetricDifference(s), m ^ n, base, "symmetricDifference")
    require((r == s) is (m == n) and (r != s) is (m != n), "equality")
    everything = RangeSet()
    everything.fill()
    require(everything.full() and not r.full() and everything.cardinality() == 0, "fill")
    for comp in (~r, r.complemented()):
        require(comp | r == everything and not (comp & r), "the complement is", comp)
    for op, f in ((operator.ior, operator.or_), (operator.iand, operator.and_), (operator.isub, operator.sub), (operator.ixor, operator.xor)):
        t = RangeSet(r)
        keep = t
        t = op(t, s)
        require(t is keep, op.__name__, "makes another object")
        agree(t, f(m, n), base, op.__name__)
    t = RangeSet(r)
    require(t.complement() is t and t == ~r, "complement in place")
    require(t.complement() == r, "complement twice")
    agree(r, m, base, "the operations change their operands: it")
    agree(s, n, base, "the operations change their operands: it")
    for _ in range(4):
        a, b = sorted([draw(st.integers(0, N)), draw(st.integers(0, N))])
        if a < N:
            require((base + a in r) is r.contains(base + a) is (a in m), "contains", a)
            require(r.intersects(base + a) is (a in m) and r.isDisjointFrom(base + a) is (a not in m) and r.isWithin(base + a) is (m <= {a}), "relations to", a)
        if a < b:
            w, lo, hi = set(range(a, b)), base + a, (base + b) % TWO64
            require(r.contains(lo, hi) is (w <= m) and r.intersects(first=lo, last=hi) is bool(w & m)
                    and r.isDisjointFrom(lo, hi) is (not w & m) and r.isWithin(lo, hi) is (m <= w), "relations to", a, b)
    require((s in r) is r.contains(s) is (n <= m) and r.intersects(s) is bool(m & n) and r.isDisjointFrom(s) is (not m & n)
            and r.isWithin(s) is (m <= n), "relations of", r, "and", s)
    # from iterables
    items = [draw(st.one_of(st.integers(0, N - 1).map(lambda a: base + a),
                            st.tuples(st.integers(0, N - 1), st.integers(1, N)).filter(lambda t: t[0] < t[1]).map(lambda t: (base + t[0], (base + t[1]) % TWO64))))
             for _ in range(draw(st.integers(0, 4)))]
    want = set()
    for i in items:
        want.update(range(i[0] - base, (i[1] - base) % TWO64 if i[1] else N) if isinstance(i, tuple) else [i - base])
    for it in (items, tuple(items), iter(items), (i for i in items), [list(i) if isinstance(i, tuple) else i for i in items]):
        agree(RangeSet(it), want, base, "RangeSet(%r)" % (items,))
    # ranges that wrap around
    ends = st.one_of(st.integers(0, TWO64 - 1), st.integers(0, 5), st.integers(TWO64 - 5, TWO64 - 1))
    lo, hi = draw(ends), draw(ends)
    if lo == hi:
        want = [(0, 0)]
    elif lo < hi or hi == 0:
        want = [(lo, hi)]
    else:
        want = [(0, hi), (lo, 0)]
    t, t2 = RangeSet(), RangeSet([7])
    t.insert(lo, hi)
    t2.fill()
    t2.erase(lo, hi)
    for x in (t, ~t2, RangeSet(lo, hi), RangeSet(first=lo, last=hi), RangeSet([(lo, hi)]), RangeSet(((lo, hi),)), RangeSet([[lo, hi], (lo, hi)])):
        require(x.ranges() == want, "the range from", lo, "to", hi, "gives", x)
    require(t.contains(lo, hi) and t.isWithin(lo, hi) and t.intersects(lo, hi) and not t.isDisjointFrom(lo, hi), "relations to the range from", lo, "to", hi)
    for x in (lo, (lo - 1) % TWO64, hi, (hi - 1) % TWO64, draw(ends)):
        require((x in t) is (lo == hi or (lo <= x < hi if lo < hi else x >= lo or x < hi)), "membership of", x)
    # simplification and scaling
    k = draw(st.integers(0, 9))
    t = r.simplified(k)
    big, u = 1 << k, set()
    for i in m:
        a = (base + i) // big * big
        u.add(a)
    require(t.contains(r) and all(a % big == 0 and b % big == 0 for a, b in t.ranges()) and all(t.contains(a) for a in u)
            and (t.cardinality() or len(u) * big) == len(u) * big, "simplified(%d) gives" % k, t)
    t2 = RangeSet(r)
    require(t2.simplify(n=k) is t2 and t2 == t, "simplify gives", t2)
    if base < TWO64 // 64:
        f = draw(st.integers(1, 40))
        t = r.scaled(f)
        require(t.ranges() == [(a * f, b * f) for a, b in r.ranges()], "scaled(%d) gives" % f, t)
        t2 = RangeSet(r)
        require(t2.scale(factor=f) is t2 and t2 == t, "scale gives", t2)
    t2.clear()
    require(t2.empty() and len(t2) == 0, "clear")


@law(2000, 30000)
def range_set_faults(draw, c):
    r, m = draw(smallsets(0))
    before = r.ranges()
    bad = draw(st.one_of(st.sampled_from([-1, TWO64, "x", "12", 1.5, None, object(), [1], 1 + 2j, b"1", float("nan")]), st.integers(-(1 << 70), -1), st.integers(TWO64, 1 << 80)))
    c.note(repr(r), "bad", repr(bad))
    c.nontrivial()
    for f in (r.insert, r.erase, r.contains, r.intersects, r.isWithin, r.isDisjointFrom):
        raises(TypeError, f, bad)
        raises(TypeError, f, 1, bad)
        raises(TypeError, f, bad, 1)
        raises(TypeError, f)
        raises(TypeError, f, 1, 2, 3)
    for f in (r.union, r.intersection, r.difference, r.symmetricDifference):
        raises(TypeError, f, bad)
    raises(TypeError, lambda: bad in r)
    for op in (operator.or_, operator.and_, operator.sub, operator.xor):
        raises(TypeError, op, r, bad)
    if not isinstance(bad, (list, str, bytes)):
        raises(ValueError, RangeSet, [1, 2, bad])
        raises(TypeError, RangeSet, bad)
    raises(ValueError, RangeSet, [(1, bad)])
    raises(ValueError, RangeSet, [(bad, 1)])
    raises(ValueError, RangeSet, [(1, 2, 3)])

    def broken():
        yield 1
        raise KeyError("stop")
    raises(KeyError, RangeSet, broken())
    require(r.ranges() == before, "changed to", r)


# -------------------------------------------------------------- comparison

@law(4000, 60000)
def comparisons(draw, c):
    x, y = draw(gens.everything), draw(gens.everything)
    if draw(st.booleans()):
        y = draw(st.sampled_from([x, __import__("copy").deepcopy(x)]))
    c.note(repr(x), repr(y))
    c.nontrivial(type(x) is type(y))
    require((x == y) in (True, False) and isinstance(x == y, bool), "x == y gives", x == y)
    require((x != y) is (not x == y), "== and != agree")
    require((x == y) is (y == x), "== is not symmetric")
    if type(x) is type(y) and not isinstance(x, CompoundRegion):
        if key(x) == key(y) and not gens.has_nan(x):
            require(x == y, "equal objects compare different")
    for other in (None, "x", object(), [], {}, (1,), 3j):
        require((x == other) is False and (x != other) is True and (other == x) is False, "== with", repr(other))
    try:
        h = hash(x)
    except TypeError:
        h = None
    if h is not None and x == y and not isinstance(x, CompoundRegion):
        require(h == hash(y), "equal objects with different hashes")
    if isinstance(x, (Angle, NormalizedAngle)) and isinstance(y, (Angle, NormalizedAngle)):
        a, b = x.asRadians(), y.asRadians()
        for op in (operator.lt, operator.le, operator.gt, operator.ge, operator.eq, operator.ne):
            if type(x) is type(y) or isinstance(x, Angle) or isinstance(y, Angle) and isinstance(x, NormalizedAngle):
                try:
                    require(op(x, y) is op(a, b), op.__name__, "gives", op(x, y))
                except TypeError:
                    raise
    elif not isinstance(x, (Angle, NormalizedAngle)):
        for op in (operator.lt, operator.le, operator.gt, operator.ge):
            raises(TypeError, op, x, None)


# --------------------------------------------------------------- operators

def eq(a, b):
    """Equal to the last bit (any NaN equals any, 0 equals -0)."""
    return a == b or (a != a and b != b)


def veq(v, t):
    return all(eq(v[i], t[i]) for i in range(3))


def mul(a, b):
    return a * b


@law(4000, 60000)
def arithmetic(draw, c):
    k = draw(st.integers(0, 3))
    c.nontrivial()
    f = draw(gens.anyfloat)
    if k == 0:
        x, y = draw(st.one_of(gens.angles, gens.normalized)), draw(st.one_of(gens.angles, gens.normalized))
        c.note(repr(x), repr(y), f)
        a, b = x.asRadians(), y.asRadians()
        for z, w, what in ((x + y, a + b, "+"), (x - y, a - b, "-"), (x * f, a * f, "*"), (f * x, f * a, "* from the left"), (-x, -a, "-x")):
            require(isinstance(z, Angle) and eq(z.asRadians(), w), what, "gives", repr(z))
        if f != 0:
            require(eq((x / f).asRadians(), a / f), "/ a number gives", x / f)
        if b != 0:
            require(isinstance(x / y, float) and eq(x / y, a / b), "/ gives", x / y)
        require(x.isNan() is (a != a), "isNan")
        require(eq(x.asDegrees(), a * (180 / PI)) or abs(x.asDegrees() - math.degrees(a)) <= 4e-16 * abs(math.degrees(a)), "asDegrees gives", x.asDegrees())
        require(str(x) == str(a) and repr(x) == "%s(%r)" % (type(x).__name__, a), "text is", str(x), repr(x))
        z = Angle(a)
        keep = z
        z += y
        require(z is keep and eq(z.asRadians(), a + b), "+= gives", z)
        z -= y
        require(z is keep and eq(z.asRadians(), a + b - b), "-= gives", z)
        z *= f
        require(z is keep and eq(z.asRadians(), (a + b - b) * f), "*= gives", z)
        if f != 0:
            z /= f
            require(z is keep and eq(z.asRadians(), (a + b - b) * f / f), "/= gives", z)
        require(z.isNormalized() is (0 <= z.asRadians() <= 2 * PI), "isNormalized of", z)
        g = draw(st.floats(-1e4, 1e4))
        require(eq(Angle.fromDegrees(g).asRadians(), g * (PI / 180)) or abs(Angle.fromDegrees(g).asRadians() - math.radians(g)) <= 4e-16 * abs(g), "fromDegrees")
        require(Angle.fromRadians(g).asRadians() == g and Angle(radians=g).asRadians() == g, "fromRadians")
        w = NormalizedAngle.fromRadians(g).asRadians()
        require(0 <= w <= 2 * PI and abs(math.remainder(w - g, 2 * PI)) < 1e-11, "NormalizedAngle.fromRadians(%r) gives" % g, w)
        for z in (Angle.nan(), NormalizedAngle.nan()):
            require(z.isNan(), "nan gives", z)
    elif k == 1:
        x, y = draw(st.one_of(gens.vectors, gens.units())), draw(st.one_of(gens.vectors, gens.units()))
        c.note(repr(x), repr(y), f)
        a, b = list(x), list(y)
        require(veq(x + y, [s + t for s, t in zip(a, b)]), "+ gives", x + y)
        require(veq(x - y, [s - t for s, t in zip(a, b)]), "- gives", x - y)
        require(veq(-x, [-s for s in a]) and type(-x) is type(x), "-x gives", -x)
        require(veq(x * f, [s * f for s in a]), "* gives", x * f)
        if f != 0:
            require(veq(x / f, [s / f for s in a]), "/ gives", x / f)
        require(veq(x.cwiseProduct(y), [s * t for s, t in zip(a, b)]), "cwiseProduct gives", x.cwiseProduct(y))
        finite = all(abs(t) < 1e100 for t in a + b)
        if finite:
            A, B = [Fraction(t) for t in a], [Fraction(t) for t in b]
            size = float(sum(abs(s * t) for s, t in zip(A, B)))
            require(abs(Fraction(x.dot(y)) - sum(s * t for s, t in zip(A, B))) <= Fraction(size) * Fraction(1, 1 << 50) + Fraction(1, 10 ** 300), "dot gives", x.dot(y))
            cr = x.cross(y)
            for i in range(3):
                j, l = (i + 1) % 3, (i + 2) % 3
                want, size = A[j] * B[l] - A[l] * B[j], abs(A[j] * B[l]) + abs(A[l] * B[j])
                require(abs(Fraction(cr[i]) - want) <= size * Fraction(1, 1 << 50) + Fraction(1, 10 ** 300), "cross gives", cr)
            if isinstance(x, UnitVector3d) and isinstance(y, UnitVector3d):
                rc, t = x.robustCross(y), x.cross(y)
                require(all(abs(rc[i] - 2 * t[i]) <= 1e-14 for i in range(3)), "robustCross gives", rc)
        if isinstance(x, Vector3d):
            v = Vector3d(x)
            keep = v
            v += y
            require(v is keep and veq(v, [s + t for s, t in zip(a, b)]), "+= gives", v)
            v = keep = Vector3d(x)
            v -= y
            require(v is keep and veq(v, [s - t for s, t in zip(a, b)]), "-= gives", v)
            v = keep = Vector3d(x)
            v *= f
            require(v is keep and veq(v, [s * f for s in a]), "*= gives", v)
            if f != 0:
                v = keep = Vector3d(x)
                v /= f
                require(v is keep and veq(v, [s / f for s in a]), "/= gives", v)
            require(x.isZero() is all(t == 0 for t in a), "isZero")
            n2 = x.getSquaredNorm()
            if all(1e-100 < abs(t) < 1e100 or t == 0 for t in a):
                w = sum(Fraction(t) ** 2 for t in a)
                require(abs(Fraction(n2) - w) <= w * Fraction(1, 1 << 50), "getSquaredNorm gives", n2)
                require(abs(x.getNorm() - math.sqrt(n2)) <= 1e-15 * math.sqrt(n2), "getNorm gives", x.getNorm())
                if any(a):
                    v = Vector3d(x)
                    n = v.normalize()
                    require(abs(n - x.getNorm()) <= 1e-15 * n and abs(v.getNorm() - 1) < 1e-15 and veq(v, list(UnitVector3d(x))), "normalize gives", n, v)
                    require(v.isNormalized() is (abs(1 - v.getSquaredNorm()) <= 1e-15), "isNormalized")
            if not any(a):
                raises(RuntimeError, UnitVector3d, x)
        require(veq(Vector3d(x), a) and veq(Vector3d(*a), a) and veq(Vector3d(x=a[0], y=a[1], z=a[2]), a), "construction")
        t = draw(st.floats(-7, 7))
        u = draw(gens.units())
        if all(abs(s) < 1e100 for s in a):
            r = x.rotatedAround(axis=u, angle=Angle(t))
            cs, sn, d = math.cos(t), math.sin(t), sum(s * q for s, q in zip(a, u))
            cx = [u[(i + 1) % 3] * a[(i + 2) % 3] - u[(i + 2) % 3] * a[(i + 1) % 3] for i in range(3)]
            want = [a[i] * cs + cx[i] * sn + u[i] * d * (1 - cs) for i in range(3)]
            require(all(abs(r[i] - want[i]) <= 1e-14 * max(1e-280, max(abs(s) for s in a)) for i in range(3)), "rotatedAround gives", r, "and not", want)
    elif k == 2:
        x, y, v = draw(gens.matrices), draw(gens.matrices), draw(gens.vectors)
        c.note(repr(x), repr(y), repr(v))
        R = range(3)
        for z, g, what in ((x + y, operator.add, "+"), (x - y, operator.sub, "-"), (x.cwiseProduct(y), operator.mul, "cwiseProduct")):
            require(all(eq(z[i, j], g(x[i, j], y[i, j])) for i in R for j in R), what, "gives", z)
        require(all(eq(x.transpose()[i, j], x[j, i]) for i in R for j in R), "transpose gives", x.transpose())
        m = max(abs(t) if t == t else math.inf for z in (x, y) for i in R for t in z[i])
        m = max(m, max(abs(t) if t == t else math.inf for t in v))
        if m < 1e100:
            p, q = x * y, x * v
            tol = 1e-14 * m * m + 1e-300
            require(all(abs(p[i, j] - sum(x[i, l] * y[l, j] for l in R)) <= tol for i in R for j in R), "* gives", p)
            require(all(abs(q[i] - sum(x[i, l] * v[l] for l in R)) <= tol for i in R), "* a vector gives", q)
            require(abs(x.inner(y) - sum(x[i, j] * y[i, j] for i in R for j in R)) <= 1e-14 * m * m * 4 + 1e-300, "inner gives", x.inner(y))
            require(abs(x.getSquaredNorm() - sum(x[i, j] ** 2 for i in R for j in R)) <= 1e-14 * m * m * 4 + 1e-300, "getSquaredNorm")
        d = Matrix3d(v)
        s = Matrix3d(f)
        require(all(eq(d[i, j], v[i] if i == j else 0.0) and eq(s[i, j], f if i == j else 0.0) for i in R for j in R), "diagonal matrices")
        require(eq(x.getNorm(), math.sqrt(x.getSquaredNorm()) if x.getSquaredNorm() == x.getSquaredNorm() else math.nan), "getNorm")
        # inverses of well conditioned matrices
        w = Matrix3d(*[(3.0 if i == j else 0.0) + draw(st.floats(-0.9, 0.9)) for i in R for j in R])
        e = w * w.inverse()
        require(all(abs(e[i, j] - (i == j)) < 1e-13 for i in R for j in R), "the inverse of", w, "is", w.inverse())
    else:
        u, v = draw(gens.units()), draw(gens.units())
        c.note(repr(u), repr(v))
        p = LonLat(u)
        require(abs(LonLat.latitudeOf(u).asRadians() - math.asin(u.z())) < 2e-8 and p.getLat() == LonLat.latitudeOf(u), "latitude")
        require(p.getLon() == LonLat.longitudeOf(u), "longitude")
        w = UnitVector3d(p)
        require((Vector3d(u) - Vector3d(w)).getNorm() < 1e-15 and UnitVector3d(Angle(p.getLon().asRadians()), p.getLat()) == w, "LonLat and back gives", w)
        d = NormalizedAngle(u, v).asRadians()
        require(abs(2 * math.sin(d / 2) - (Vector3d(u) - Vector3d(v)).getNorm()) < 1e-14, "the angle between is", d)
        q = LonLat(v)
        require(abs(math.sin(NormalizedAngle(p, q).asRadians() / 2) - math.sin(d / 2)) < 1e-14, "the angle between positions")
        e = UnitVector3d.orthogonalTo(u)
        require(abs(e.dot(u)) < 1e-15, "orthogonalTo gives", e)
        n = UnitVector3d.northFrom(u)
        require(abs(n.dot(u)) < 1e-15 and (n.z() >= 0 or abs(u.z()) > 1 - 1e-9), "northFrom gives", n)
        require(veq(UnitVector3d.X(), [1, 0, 0]) and veq(UnitVector3d.Y(), [0, 1, 0]) and veq(UnitVector3d.Z(), [0, 0, 1]), "axes")
        w = v.robustCross(u)
        if w.getNorm() > 1e-6:
            o = UnitVector3d.orthogonalTo(v, u)
            require(abs(o.dot(u)) < 1e-9 and abs(o.dot(v)) < 1e-9 and o.dot(UnitVector3d(v.cross(u))) > 0.99, "orthogonalTo two gives", o)
        lon, lat = draw(st.floats(0, 359.9)), draw(st.floats(-90, 90))
        z = LonLat.fromDegrees(lon, lat)
        require(abs(z.getLon().asDegrees() - lon) < 1e-13 and abs(z.getLat().asDegrees() - lat) < 1e-13, "LonLat.fromDegrees gives", z)
        require(z == LonLat(NormalizedAngle.fromDegrees(lon), Angle.fromDegrees(lat)) == LonLat(lon=NormalizedAngle.fromDegrees(lon), lat=Angle.fromDegrees(lat)), "LonLat(lon, lat)")
        require((z != p) is (not z == p), "LonLat !=")
        raises(ValueError, LonLat.fromDegrees, lon, 90.0001 + abs(lat))
        a, b = draw(gens.lonrad), draw(gens.lonrad)
        A, B = NormalizedAngle(a), NormalizedAngle(b)
        t = A.getAngleTo(B).asRadians()
        require(abs(math.remainder(t - (b - a), 2 * PI)) < 1e-14 and 0 <= t <= 2 * PI, "getAngleTo gives", t)
        t = NormalizedAngle.center(a=A, b=B).asRadians()
        require(abs(math.remainder(t - (a + A.getAngleTo(B).asRadians() / 2), 2 * PI)) < 1e-14, "center gives", t)
        t = NormalizedAngle.between(a=A, b=B).asRadians()
        require(abs(t - abs(math.remainder(b - a, 2 * PI))) < 1e-14 or abs(abs(b - a) - PI) < 1e-9, "between gives", t)


# ------------------------------------- the same question, asked differently

@law(5000, 80000)
def consistency(draw, c):
    kind = draw(st.sampled_from(["box", "circle", "box3d", "interval1d", "angleinterval", "normalizedinterval"]))
    gen, points, radius = {
        "box": (gens.boxes(), gens.lonlats, gens.size.map(Angle)),
        "circle": (gens.circles(), gens.units(), gens.size.map(Angle)),
        "box3d": (gens.box3ds(), gens.vectors, gens.nice),
        "interval1d": (gens.interval1ds, gens.anyfloat, gens.nice),
        "angleinterval": (gens.angleintervals, gens.angles, gens.nice.map(Angle)),
        "normalizedinterval": (gens.normalizedintervals, gens.normalized, gens.lonrad.map(NormalizedAngle)),
    }[kind]
    x = draw(gen)
    y = draw(st.one_of(gen, points))
    point = type(y) is not type(x)
    c.note(repr(x), repr(y))
    c.nontrivial(not x.isEmpty())
    c.label(True, kind)
    k, l = key(x), key(y)
    require(x.intersects(y) is (not x.isDisjointFrom(y)), "intersects and isDisjointFrom agree")
    require((y in x) is x.contains(y), "in and contains differ")
    if not point:
        require(x.contains(y) is y.isWithin(x), "contains and isWithin differ")
        require(x.isDisjointFrom(y) is y.isDisjointFrom(x), "isDisjointFrom is not symmetric")
        require((x == y) is (key(x) == key(y)) or x.isEmpty() or kind in ("interval1d", "angleinterval", "box3d", "circle"), "==")
    if hasattr(x, "relate") and not (kind == "circle" and point):
        r = x.relate(y)
        require(isinstance(r, int) and 0 <= r <= 7, "relate gives", r)
        if kind not in ("circle", "box") or point:
            require(bool(r & CONTAINS) is x.contains(y) and bool(r & WITHIN) is x.isWithin(y) and bool(r & DISJOINT) is x.isDisjointFrom(y),
                    "relate gives", r)
        require(invert(r) == (r & DISJOINT) | (CONTAINS if r & WITHIN else 0) | (WITHIN if r & CONTAINS else 0), "invert(%d) gives" % r, invert(r))
    for name, args in (("clip", (y,)), ("expand", (y,)), ("dilate", (draw(radius),)), ("erode", (draw(radius),))):
        copy, place = (name + "pedTo" if name == "clip" else name + "edTo", name + "To") if name in ("clip", "expand") else (name[:-1] + "edBy", name + "By")
        if kind in ("box",) and name in ("dilate", "erode") and draw(st.booleans()):
            args = (draw(radius), draw(radius))
        if kind == "box3d" and name in ("dilate", "erode") and draw(st.booleans()):
            args = (draw(radius), draw(radius), draw(radius))
        z = getattr(x, copy)(*args)
        require(key(x) == k, copy, "changed the object")
        w = type(x)(x)
        require(getattr(w, place)(*args) is w, place, "makes another object")
        require(key(w) == key(z), place, "gives", repr(w), "and", copy, repr(z))
    require(key(y) == l, "the argument changed")
    if kind == "circle":
        z = Circle(x)
        require(z.complement() is z and key(z) == key(x.complemented()), "complement")
        require(x.isEmpty() is (x.getSquaredChordLength() < 0 or math.isnan(x.getSquaredChordLength())) and x.isFull() is (x.getSquaredChordLength() >= 4), "isEmpty or isFull")
        a = x.getOpeningAngle()
        # (the squares of the smallest angles are less than any number)
        require(Circle.openingAngleFor(squaredChordLength=x.getSquaredChordLength()) == a or abs(Circle.openingAngleFor(x.getSquaredChordLength()).asRadians() - a.asRadians()) <= 1e-7, "openingAngleFor")
        if not x.isEmpty() and not x.isFull():
            require(abs(Circle.squaredChordLengthFor(openingAngle=a) - x.getSquaredChordLength()) <= 1e-14, "squaredChordLengthFor")
            require(abs(x.getArea() - PI * x.getSquaredChordLength()) <= 1e-14 * x.getArea(), "getArea gives", x.getArea())
        u = draw(gens.units())
        require(Circle(center=u, angle=Angle(0.1)) == Circle(u, Angle(0.1)) and Circle(center=u, squaredChordLength=0.1) == Circle(u, 0.1), "keywords")
    elif kind == "box":
        lon, lat = x.getLon(), x.getLat()
        require(x.getWidth() == lon.getSize() or x.isEmpty(), "getWidth gives", x.getWidth())
        require(x.getHeight() == lat.getSize() or x.isEmpty(), "getHeight gives", x.getHeight())
        if not x.isEmpty():
            require(x.getCenter() == LonLat(lon.getCenter(), lat.getCenter()), "getCenter")
            require(Box(lon=lon, lat=lat) == x, "Box(lon, lat)")
            require(abs(x.getArea() - lon.getSize().asRadians() * (math.sin(lat.getB().asRadians()) - math.sin(lat.getA().asRadians()))) < 1e-13, "getArea")
        if point and not gens.has_nan(y):
            require((x == y) is (x == Box(y)) and x.contains(y) is (lon.contains(y.getLon()) and lat.contains(y.getLat())), "positions")
            require(Box(point=y) == Box(y, y) == Box(center=y, width=Angle(0), height=Angle(0)), "boxes of a position")
        b = Box.fromDegrees(lon1=10, lat1=20, lon2=30, lat2=40)
        require(b == Box(point1=LonLat.fromDegrees(10, 20), point2=LonLat.fromDegrees(30, 40)), "fromDegrees gives", b)
        b = Box.fromRadians(lon1=1, lat1=-1, lon2=2, lat2=0.5)
        require(b == Box(LonLat.fromRadians(1, -1), LonLat.fromRadians(2, 0.5)), "fromRadians gives", b)
        require(Box.allLongitudes().isFull() and Box.allLatitudes().contains(AngleInterval(Angle(-PI / 2), Angle(PI / 2))), "all")
        require(Box.halfWidthForCircle(radius=Angle(0.1), lat=Angle(0.0)).asRadians() >= 0.1, "halfWidthForCircle")
    elif kind == "box3d":
        require(all(key(x[i]) == key(t) for i, t in enumerate((x.x(), x.y(), x.z()))), "x, y, z")
        if not x.isEmpty():
            require(eq(x.getWidth(), x.x().getSize()) and eq(x.getHeight(), x.y().getSize()) and eq(x.getDepth(), x.z().getSize()), "sizes")
            require(veq(x.getCenter(), [t.getCenter() for t in x]), "getCenter")
        require(x.isFull() is all(t.isFull() for t in x) and x.isEmpty() is any(t.isEmpty() for t in x), "isFull or isEmpty")
        if point and not gens.has_nan(y):
            require((x == y) is (x == Box3d(vector=y)), "==")
            require(x.contains(y) is all(x[i].contains(y[i]) for i in range(3)), "contains")
    else:
        a, b = x.getA(), x.getB()
        if kind != "normalizedinterval" and not x.isEmpty():
            f = (lambda t: t) if kind == "interval1d" else (lambda t: t.asRadians())
            require(eq(f(x.getSize()), f(b) - f(a)), "getSize gives", x.getSize())
            require(eq(f(x.getCenter()), 0.5 * (f(a) + f(b))) or math.isinf(f(a) + f(b)), "getCenter gives", x.getCenter())
            if point and not gens.has_nan(y):
                require(x.contains(y) is (f(a) <= f(y) <= f(b)) and (x == y) is (f(a) == f(y) == f(b)), "contains or ==")
        if kind == "normalizedinterval":
            require(x.wraps() is (b < a) and x.isFull() is (a.asRadians() == 0 and b.asRadians() == 2 * PI) and x.isEmpty() is (a.isNan() or b.isNan()), "wraps, isFull or isEmpty")
            if not x.isEmpty():
                require(x.getSize() == a.getAngleTo(b) or x.isFull(), "getSize gives", x.getSize())
                p, q = draw(st.floats(0, 359)), draw(st.floats(0, 359))
                i = NormalizedAngleInterval.fromDegrees(x=p, y=q)
                require(i == NormalizedAngleInterval(NormalizedAngle.fromDegrees(p), NormalizedAngle.fromDegrees(q)), "fromDegrees gives", i)
        if kind == "angleinterval":
            p, q = draw(st.floats(-400, 400)), draw(st.floats(-400, 400))
            i = AngleInterval.fromDegrees(x=p, y=q)
            require(i == AngleInterval(x=Angle.fromDegrees(p), y=Angle.fromDegrees(q)), "fromDegrees gives", i)
        if kind == "interval1d":
            require(x.isFull() is (a == -math.inf and b == math.inf), "isFull")
    require(type(x).empty().isEmpty() and not type(x).full().isEmpty() and not type(x).empty().contains(type(x).full()), "empty or full")


# -------------------------------------------------------- regions, functions

@law(3000, 40000)
def regions(draw, c):
    x, y = draw(gens.regions()), draw(gens.regions())
    c.note(repr(x), repr(y))
    c.nontrivial()
    r = x.relate(y)
    require(isinstance(r, int) and 0 <= r <= 7 and x.relate(region=y) == r, "relate gives", r)
    for f, t in ((x.getBoundingBox, Box), (x.getBoundingBox3d, Box3d), (x.getBoundingCircle, Circle)):
        require(type(f()) is t, f.__name__, "gives", type(f()))
    if isinstance(x, ConvexPolygon):
        require(x.contains(y) is bool(r & CONTAINS) and x.isWithin(y) is bool(r & WITHIN) and x.isDisjointFrom(y) is bool(r & DISJOINT)
                and x.intersects(y) is (not r & DISJOINT), "predicates")
        vs = x.getVertices()
        require(isinstance(vs, list) and all(isinstance(v, UnitVector3d) for v in vs) and len(vs) >= 3, "getVertices gives", vs)
        require(x.contains(x.getCentroid()) or x.getBoundingCircle().getOpeningAngle().asRadians() < 1e-3, "the centroid is outside")
        z = ConvexPolygon.convexHull(points=vs)
        require(len(z.getVertices()) <= len(vs) and all(v in vs for v in z.getVertices()), "the hull of the vertices is", repr(z))
        vs.pop()
        require(len(x.getVertices()) == len(vs) + 1, "the list of vertices is shared")
        raises(ValueError, ConvexPolygon, vs[:2])
        raises(ValueError, ConvexPolygon, [])
        raises(ValueError, ConvexPolygon.convexHull, [vs[0], vs[0], vs[0]])
        raises(TypeError, ConvexPolygon, [1, 2, 3])
    if isinstance(x, Ellipse):
        z = Ellipse(x)
        require(z.complement() is z and key(z) == key(x.complemented()), "complement")
        require(x.isCircle() is (x.getF1() == x.getF2()) or x.isCircle(), "isCircle")
        m = x.getTransformMatrix()
        require(isinstance(m, Matrix3d), "getTransformMatrix")
        require(x.isGreatCircle() is (x.getAlpha().asRadians() == PI / 2 and not x.isEmpty()), "isGreatCircle") if x.getAlpha().asRadians() != PI / 2 else None
        # the centre is the third row of the transform
        require((m.getRow(2) - Vector3d(x.getCenter())).getNorm() < 1e-12, "getCenter")
        a, b, g = (t.asRadians() for t in (x.getAlpha(), x.getBeta(), x.getGamma()))
        if not x.isEmpty() and not x.isFull() and 1e-3 < b < 3 and 1e-3 < a < 3:
            require(abs(math.cos(a) - math.cos(b) * math.cos(g)) < 1e-9, "angles", a, b, g)
        e = Ellipse(center=x.getCenter(), angle=Angle(0.3))
        require(e == Ellipse(Circle(x.getCenter(), Angle(0.3))) and e.isCircle(), "Ellipse of a circle")
    if isinstance(x, CompoundRegion):
        a, b = x.cloneOperand(0), x.cloneOperand(1)
        require(key(x.cloneOperand(-1)) == key(b) and key(x.cloneOperand(-2)) == key(a), "negative indexes")
        for i in (2, -3, 10 ** 9, draw(st.integers(3, 1 << 62))):
            raises(IndexError, x.cloneOperand, i)
        raises(TypeError, x.cloneOperand, 1 << 70)
        raises(TypeError, x.cloneOperand, "0")
        raises(TypeError, type(x), a)
        raises(TypeError, type(x), a, None)
        u = draw(gens.units())
        require(x.contains(u) is ((a.contains(u) or b.contains(u)) if isinstance(x, UnionRegion) else (a.contains(u) and b.contains(u))), "contains")
        z = type(x)(a, b)
        require(key(z) == key(x), "made again from its operands")
        del x
        require(key(type(z)(a, b)) == key(z), "operands")
    for bad in (None, 1, "x", Vector3d(1, 2, 3)):
        raises(TypeError, y.relate, bad)
        raises(TypeError, lambda: bad in y) if not isinstance(bad, Vector3d) else None
    raises(TypeError, Region)


@law(600, 6000)
def chunkers(draw, c):
    """Chunk searches return plain lists of integers and of pairs, complete for the whole sphere."""
    k = draw(gens.chunkers())
    x = draw(gens.simple())
    c.note(repr(k), repr(x))
    every = k.getAllChunks()
    c.label(len(every) > 1000, "over a thousand chunks")
    require(isinstance(every, list) and len(set(every)) == len(every), "getAllChunks")
    large = len(every) * k.numSubStripesPerStripe ** 2 > 30000 if hasattr(k, "numSubStripesPerStripe") else len(every) > 5000
    if not large:
        whole = draw(st.sampled_from([Circle.full(), Box.full(), Ellipse.full()]))
        require(sorted(k.getChunksIntersecting(whole)) == sorted(every), "the chunks of the whole sphere")
        found = k.getSubChunksIntersecting(whole)
        require([i for i, _ in found] and sorted(i for i, _ in found) == sorted(every), "the sub-chunks of the whole sphere are those of", len(found), "chunks of", len(every))
        for i, sub in found[:50] + found[-50:]:
            require(sorted(sub) == sorted(k.getAllSubChunks(i)), "the sub-chunks of chunk", i)
        c.nontrivial()
    if isinstance(x, Circle) and x.getOpeningAngle().asRadians() < 0.3 or isinstance(x, Box) and x.getArea() < 0.1:
        chunks = k.getChunksIntersecting(x)
        found = k.getSubChunksIntersecting(x)
        require(isinstance(found, list) and all(isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], int) and isinstance(t[1], list) for t in found), "a list of pairs")
        require(set(i for i, _ in found) <= set(chunks), "sub-chunks of other chunks")
        for i in chunks:
            require(k.getChunk(i, k.getStripe(i)) >= 0, "getChunk")
        for i, sub in found:
            require(sub and set(sub) <= set(k.getAllSubChunks(i)), "sub-chunks of chunk", i)
        c.nontrivial(bool(found))


@law(4000, 60000)
def functions(draw, c):
    c.nontrivial()
    k = draw(st.integers(0, 2))
    if k == 0:
        x, y = draw(st.integers(0, (1 << 32) - 1)), draw(st.integers(0, (1 << 32) - 1))
        m = draw(st.integers(0, 32))
        c.note(x, y, m)
        z = sum((x >> i & 1) << 2 * i | (y >> i & 1) << 2 * i + 1 for i in range(32))
        require(mortonIndex(x=x, y=y) == z and mortonIndexInverse(z=z) == (x, y), "mortonIndex gives", mortonIndex(x, y))
        xm, ym = x & ((1 << m) - 1), y & ((1 << m) - 1)
        h, a, b, px, py = 0, xm, ym, 0, 0
        # Hilbert's curve, by recursion on quadrants (as in the Wikipedia article, transposed for odd orders)
        s = 1 << m >> 1
        n = 1 << m
        while s:
            rx, ry = int(a & s > 0), int(b & s > 0)
            h += s * s * (3 * rx ^ ry)
            if ry == 0:
                if rx:
                    a, b = n - 1 - a, n - 1 - b
                a, b = b, a
            s >>= 1
        got = hilbertIndex(x, y, m)
        other = hilbertIndex(y, x, m)
        require(h in (got, other), "hilbertIndex gives", got, "or transposed", other, "and not", h)
        require(hilbertIndexInverse(got, m) == (xm, ym), "hilbertIndexInverse gives", hilbertIndexInverse(got, m))
        require(hilbertToMorton(got, m) == mortonIndex(xm, ym) and mortonToHilbert(mortonIndex(xm, ym), m) == got, "mortonToHilbert and back")
        w = draw(st.integers(0, TWO64 - 1))
        require(log2(w) == max(0, w.bit_length() - 1), "log2 gives", log2(w))
        for bad in (-1, TWO64, 1.5, "x"):
            raises(TypeError, mortonIndexInverse, bad)
            raises(TypeError, log2, bad)
            raises(TypeError, mortonIndex, bad, 1)
        raises(TypeError, mortonIndex, 1 << 32, 1)
    elif k == 1:
        a, b = draw(gens.units()), draw(gens.units())
        s, t = draw(st.sampled_from([(1, 1), (1, -1), (0.5, 2), (0, 1)])), None
        e = draw(st.one_of(gens.units(), st.just(UnitVector3d(Vector3d(a) * s[0] + Vector3d(b) * s[1]) if (Vector3d(a) * s[0] + Vector3d(b) * s[1]).getNorm() > 1e-9 else a)))
        c.note(repr(a), repr(b), repr(e))
        A, B, E = ([Fraction(t) for t in v] for v in (a, b, e))
        det = lambda p, q, r: (p[0] * (q[1] * r[2] - q[2] * r[1]) + p[1] * (q[2] * r[0] - q[0] * r[2]) + p[2] * (q[0] * r[1] - q[1] * r[0]))
        sign = lambda d: (d > 0) - (d < 0)
        want = sign(det(A, B, E))
        require(orientation(a=a, b=b, c=e) == want, "orientation gives", orientation(a, b, e))
        require(orientationExact(Vector3d(a), Vector3d(b), Vector3d(e)) == want, "orientationExact")
        for f, u in ((orientationX, [1, 0, 0]), (orientationY, [0, 1, 0]), (orientationZ, [0, 0, 1])):
            require(f(b=a, c=b) == sign(det([Fraction(t) for t in u], A, B)), f.__name__, "gives", f(a, b))
    else:
        l = draw(st.integers(0, 8))
        cls = draw(st.sampled_from([HtmPixelization, Q3cPixelization, Mq3cPixelization]))
        p = cls(level=l)
        u = draw(gens.units())
        i = p.index(u)
        c.note(repr(p), repr(u))
        require(isinstance(i, int) and p.universe().contains(i), "index gives", i)
        require(p.pixel(i=i).contains(u) or p.pixel(i).getBoundingCircle().dilatedBy(Angle(1e-14)).contains(u), "the pixel lacks the point")
        require(p.toString(i) and isinstance(p.toString(i), str), "toString")
        require(p.getLevel() == l and repr(p) == "%s(%d)" % (cls.__name__, l), "getLevel or repr")
        q = cls(p)
        require(q == p and not q != p and (p == cls((l + 1) % 9)) is False and p != cls((l + 1) % 9), "equality")
        if cls is HtmPixelization:
            require(p.toString(i) == HtmPixelization.asString(i=i) and HtmPixelization.level(i=i) == l and HtmPixelization.triangle(i=i) == p.pixel(i), "static functions")
        else:
            shape = p.quad(i)
            require(shape == p.pixel(i), "quad")
            n = p.neighborhood(i)
            require(isinstance(n, list) and i in n and len(n) == len(set(n)) and all(p.universe().contains(j) for j in n), "neighborhood gives", n)
            if cls is Mq3cPixelization:
                require(p.toString(i) == Mq3cPixelization.asString(i) and Mq3cPixelization.level(i) == l, "static functions")
        circle = Circle(u, Angle(draw(st.floats(0.001, 0.3))))
        e, n = p.envelope(circle), p.interior(circle)
        require(isinstance(e, RangeSet) and e.contains(i) and e.contains(n), "envelope or interior")
        k = draw(st.integers(1, 8))
        e2, n2 = p.envelope(region=circle, maxRanges=k), p.interior(region=circle, maxRanges=k)
        require(len(e2) <= k and len(n2) <= k and e2.contains(e) and n.contains(n2), "maxRanges", k, "gives", e2, n2)
        top = cls.MAX_LEVEL
        for bad in (-1, top + 1, 1000):
            raises(ValueError, cls, bad)
        raises(TypeError, cls, "1")
        raises(TypeError, p.pixel, -1)
        raises(TypeError, p.index, 1)
        raises(TypeError, p.envelope, None)
        if cls is not HtmPixelization:   # (whose pixels may be of any level)
            raises(ValueError, p.pixel, 1 << 62)


DEFAULTS = {
    Angle: lambda x: x.asRadians() == 0,
    NormalizedAngle: lambda x: x.asRadians() == 0,
    LonLat: lambda x: (x.getLon().asRadians(), x.getLat().asRadians()) == (0, 0),
    Vector3d: lambda x: tuple(x) == (0, 0, 0),
    UnitVector3d: lambda x: tuple(x) == (1, 0, 0),
    Matrix3d: lambda x: x.getSquaredNorm() == 0,
    Interval1d: lambda x: x.isEmpty(),
    AngleInterval: lambda x: x.isEmpty(),
    NormalizedAngleInterval: lambda x: x.isEmpty(),
    Box: lambda x: x.isEmpty() and x == Box.empty(),
    Box3d: lambda x: x.isEmpty() and x == Box3d.empty(),
    Circle: lambda x: x.isEmpty() and x == Circle.empty(),
    Ellipse: lambda x: x.isEmpty() and x == Ellipse.empty(),
    RangeSet: lambda x: x.empty() and len(x) == 0 and not x.full(),
}
FACTORIES = {
    Angle: {"nan": lambda x: x.isNan()}, NormalizedAngle: {"nan": lambda x: x.isNan()},
    UnitVector3d: {"X": lambda x: tuple(x) == (1, 0, 0), "Y": lambda x: tuple(x) == (0, 1, 0), "Z": lambda x: tuple(x) == (0, 0, 1)},
    Interval1d: {"empty": lambda x: x.isEmpty() and x.contains(float("nan")), "full": lambda x: x.isFull() and x.contains(1e308)},
    AngleInterval: {"empty": lambda x: x.isEmpty(), "full": lambda x: x.contains(Angle(-1e308))},
    NormalizedAngleInterval: {"empty": lambda x: x.isEmpty(), "full": lambda x: x.isFull()},
    Box: {"empty": lambda x: x.isEmpty(), "full": lambda x: x.isFull(),
          "allLongitudes": lambda x: x.isFull(), "allLatitudes": lambda x: (x.getA().asRadians(), x.getB().asRadians()) == (-PI / 2, PI / 2)},
    Box3d: {"empty": lambda x: x.isEmpty(), "full": lambda x: x.isFull() and x.contains(Vector3d(9, 9, 9)),
            "aroundUnitSphere": lambda x: x == Box3d(Interval1d(-1, 1), Interval1d(-1, 1), Interval1d(-1, 1))},
    Circle: {"empty": lambda x: x.isEmpty(), "full": lambda x: x.isFull()}, Ellipse: {"empty": lambda x: x.isEmpty(), "full": lambda x: x.isFull()},
    RangeSet: {},
}


@law(600, 6000)
def defaults(draw, c):
    """Objects made without arguments, or by factories without arguments, and copies, do not depend on what is done to others."""
    c.nontrivial()
    cls = draw(st.sampled_from(list(DEFAULTS)))
    c.note(cls.__name__)
    a = cls()
    require(DEFAULTS[cls](a), cls.__name__ + "() is", repr(a))
    require(not (cls() != a) or cls in (Angle, NormalizedAngle) and a.isNan(), cls.__name__ + "() differs from itself")
    for f, good in FACTORIES.get(cls, {}).items():
        x = getattr(cls, f)()
        require(good(x), "%s.%s() is %r" % (cls.__name__, f, x))
    angle, u = Angle(draw(st.floats(0.001, 0.5))), draw(gens.units())
    c.note(repr(angle), repr(u))
    full = {Interval1d: Interval1d.full, AngleInterval: AngleInterval.full, NormalizedAngleInterval: NormalizedAngleInterval.full, Box: Box.full,
            Box3d: Box3d.full, Circle: Circle.full, Ellipse: Ellipse.full, RangeSet: lambda: RangeSet(1, 2)}.get(cls)
    empty = RangeSet.empty if cls is RangeSet else lambda x: x.isEmpty()
    if full is not None:
        # What is done to one of them must not show in those made later.
        b = cls()
        if cls is Ellipse:
            b.complement()
        elif cls is RangeSet:
            b |= full()
        else:
            b.expandTo(full())
        require(not empty(b) and empty(a) and empty(cls()), "the empty object changed")
        d = full()
        if cls in (Circle, Box, Ellipse):
            before = repr(cls.full())
            if cls is Circle:
                d.clipTo(Circle(u, angle))
            elif cls is Box:
                d.clipTo(Box(LonLat(u), angle, angle))
            else:
                d.complement()
            require(repr(cls.full()) == before and cls.full().isFull() and not d.isFull(), "the full object changed")
        e = cls(b)
        require(e == b, "a copy differs")
        if cls is Ellipse:
            e.complement()
        elif cls is RangeSet:
            e -= full()
        else:
            e.clipTo(cls())
        require(empty(e) and not empty(b), "the original changed with its copy")


# -------------------------------------------------------------------- fuzz

JUNK = st.one_of(
    st.none(), st.booleans(), st.integers(-40, 40), st.integers(-(1 << 70), 1 << 70), gens.anyfloat, st.text(max_size=4), st.binary(max_size=30),
    st.lists(st.integers(-3, 3), max_size=4), st.tuples(st.integers(0, 9), st.integers(0, 9)), st.just(object()),
    st.lists(gens.anyfloat, max_size=4).map(np.array))


@st.composite
def lowlevel(draw):
    """Objects whose functions end soon."""
    x = draw(gens.everything)
    if isinstance(x, (Pixelization, HealpixPixelization)):
        return type(x)(draw(st.integers(0, 3)))
    return x


def encodings(draw):
    e = bytearray(draw(gens.regions()).encode())
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 3))
        i = draw(st.integers(0, max(0, len(e) - 1)))
        if k == 0 and e:
            e[i] = draw(st.integers(0, 255))
        elif k == 1:
            del e[i:]
        elif k == 2:
            e[i:i] = draw(st.binary(max_size=9))
        elif k == 3:
            e += draw(gens.regions()).encode()
    return bytes(e)


@law(6000, 100000)
def any_arguments(draw, c):
    """Whatever the arguments, functions return or raise an ordinary exception."""
    x = draw(lowlevel())
    names = [n for n in dir(type(x)) if callable(getattr(type(x), n)) and not (n.startswith("__") and n in (
        "__class__", "__init_subclass__", "__subclasshook__", "__new__", "__dir__", "__delattr__", "__setattr__", "__getattribute__",
        "__reduce__", "__reduce_ex__"))]   # (pybind11 ends the interpreter where the pickle protocol is below 2, as it documents)
    n = draw(st.sampled_from(names + ["new"]))
    args = []
    for _ in range(draw(st.integers(0, 3))):
        k = draw(st.integers(0, 2))
        args.append(draw(JUNK) if k == 0 else draw(lowlevel()) if k == 1 else draw(st.one_of(gens.angles, gens.units(), gens.regions(depth=1), st.integers(0, 5))))
    if draw(st.integers(0, 5)) == 0:
        args = [encodings(draw)]
        n = draw(st.sampled_from(["decode", "__setstate__"]))
        x = draw(gens.regions())
    c.note(repr(x)[:500], n, repr(args)[:1000])
    c.nontrivial(bool(args))
    if n == "new":
        f = type(x)
        if f is HealpixPixelization or f is Chunker:
            args = [a for a in args if isinstance(a, int) and a < 40 or not isinstance(a, (int, float))]
    else:
        if not hasattr(x, n):
            return
        f = getattr(type(x) if n == "__setstate__" else x, n)
        if n == "__setstate__":
            args = [type(x).__new__(type(x))] + args
    try:
        r = f(*args)
    except Exception as e:
        require(not isinstance(e, SystemError), "SystemError:", e)
        c.label(True, "raises")
        return
    c.label(True, "returns")
    # what comes back can be looked at
    repr(r)
    str(r)
    if isinstance(r, Region):
        r.getBoundingBox(), r.getBoundingCircle(), r.encode()
    # and the object is still whole
    repr(x)
    if isinstance(x, Region):
        Region.decode(x.encode())


# ---------------------------------------------------------------- keywords

LL = st.builds(LonLat.fromRadians, gens.lonrad, gens.latrad)
A, NA, D, U, V = gens.angles, gens.normalized, gens.anyfloat, gens.units(), gens.vectors
I = st.one_of(st.integers(-2, 40), gens.u64)
SMALL = st.integers(-1, 12)
RS = gens.rangesets()
BOX, BOX3, CIRCLE, POLY, REGION = gens.boxes(), gens.box3ds(), gens.circles(), gens.polygons(), gens.regions(depth=1)
ELL = gens.ellipses()
GA = gens.size.map(Angle)
COARSE = st.one_of(*(st.integers(0, 3).map(p) for p in (HtmPixelization, Q3cPixelization, Mq3cPixelization)))
CK = gens.chunkers()
PTS = st.lists(U, min_size=3, max_size=6)
MIXED = st.one_of(D, st.lists(D, min_size=2, max_size=2).map(np.array))

# (function or class, or generator of objects and name of the method), names of the arguments, their generators
KEYWORDS = [
    (Angle, "radians", D), (Angle, "angle", A), (Angle, "normalizedAngle", NA),
    (AngleInterval.fromDegrees, "x y", D, D), (AngleInterval.fromRadians, "x y", D, D), (AngleInterval, "x", A), (AngleInterval, "x y", A, A),
    (AngleInterval, "interval", gens.angleintervals),
    (Box.fromDegrees, "lon1 lat1 lon2 lat2", *[st.floats(0, 90)] * 4), (Box.fromRadians, "lon1 lat1 lon2 lat2", *[st.floats(0, 1.5)] * 4),
    (Box.halfWidthForCircle, "radius lat", GA, gens.latrad.map(Angle)), (Box, "point", LL), (Box, "point1 point2", LL, LL),
    (Box, "center width height", LL, GA, GA), (Box, "lon lat", gens.normalizedintervals, gens.angleintervals), (Box, "box", BOX),
    ((BOX, "dilateBy"), "angle", GA), ((BOX, "dilateBy"), "width height", GA, GA), ((BOX, "dilatedBy"), "angle", GA),
    ((BOX, "dilatedBy"), "width height", GA, GA), ((BOX, "erodeBy"), "angle", GA), ((BOX, "erodeBy"), "width height", GA, GA),
    ((BOX, "erodedBy"), "angle", GA), ((BOX, "erodedBy"), "width height", GA, GA), ((BOX, "relate"), "point", LL), ((BOX, "relate"), "region", REGION),
    (Box3d, "vector", V), (Box3d, "vector1 vector2", V, V), (Box3d, "center halfWidth halfHeight halfDepth", V, D, D, D),
    (Box3d, "x y z", *[gens.interval1ds] * 3), (Box3d, "box3d", BOX3),
    *(((BOX3, n), "radius", D) for n in ("dilateBy", "dilatedBy", "erodeBy", "erodedBy")),
    *(((BOX3, n), "width height depth", D, D, D) for n in ("dilateBy", "dilatedBy", "erodeBy", "erodedBy")),
    (Chunker, "numStripes numSubStripesPerStripe", SMALL, SMALL), ((CK, "getChunksIntersecting"), "region", REGION),
    ((CK, "getAllSubChunks"), "chunkId", SMALL), ((CK, "getChunkBoundingBox"), "stripe chunk", SMALL, SMALL),
    ((CK, "getSubChunkBoundingBox"), "subStripe subChunk", SMALL, SMALL), ((CK, "getStripe"), "chunkId", SMALL), ((CK, "getChunk"), "chunkId stripe", SMALL, SMALL),
    (Circle.squaredChordLengthFor, "openingAngle", A), (Circle.openingAngleFor, "squaredChordLength", D), (Circle, "center", U),
    (Circle, "center angle", U, A), (Circle, "center squaredChordLength", U, D), (Circle, "circle", CIRCLE),
    *(((CIRCLE, n), "radius", GA) for n in ("dilateBy", "dilatedBy", "erodeBy", "erodedBy")),
    (ConvexPolygon.convexHull, "points", PTS), (ConvexPolygon, "points", PTS), (ConvexPolygon, "convexPolygon", POLY),
    (mortonIndex, "x y", I, I), (mortonIndexInverse, "z", I), (mortonToHilbert, "z m", I, SMALL), (hilbertToMorton, "h m", I, SMALL),
    (hilbertIndex, "x y m", I, I, SMALL), (hilbertIndexInverse, "h m", I, SMALL),
    (Ellipse, "circle", CIRCLE), (Ellipse, "center", U), (Ellipse, "center angle", U, A), (Ellipse, "focus1 focus2 alpha", U, U, GA),
    (Ellipse, "center alpha beta orientation", U, GA, GA, A), (Ellipse, "ellipse", ELL),
    *((f, "i", I) for f in (HtmPixelization.level, HtmPixelization.triangle, HtmPixelization.asString)),
    *((f, "level", st.integers(-2, 40)) for f in (HtmPixelization, Q3cPixelization, Mq3cPixelization)),
    (HtmPixelization, "htmPixelization", st.integers(0, 24).map(HtmPixelization)), (Q3cPixelization, "q3cPixelization", st.integers(0, 30).map(Q3cPixelization)),
    (Mq3cPixelization, "mq3cPixelization", st.integers(0, 30).map(Mq3cPixelization)),
    (Interval1d, "x", D), (Interval1d, "x y", D, D), (Interval1d, "interval", gens.interval1ds),
    (LonLat, "lon lat", NA, gens.latrad.map(Angle)), (LonLat, "vector", V),
    (Matrix3d, "m00 m01 m02 m10 m11 m12 m20 m21 m22", *[D] * 9), (Matrix3d, "diagonal", V), (Matrix3d, "scale", D), (Matrix3d, "matrix", gens.matrices),
    ((gens.matrices, "getRow"), "row", st.integers(-4, 4)), ((gens.matrices, "getColumn"), "col", st.integers(-4, 4)),
    ((gens.matrices, "inner"), "matrix", gens.matrices),
    (NormalizedAngle.between, "a b", NA, NA), (NormalizedAngle.center, "a b", NA, NA), (NormalizedAngle, "radians", D), (NormalizedAngle, "a b", LL, LL), (NormalizedAngle, "a b", V, V),
    (NormalizedAngleInterval.fromDegrees, "x y", D, D), (NormalizedAngleInterval.fromRadians, "x y", D, D), (NormalizedAngleInterval, "x", A), (NormalizedAngleInterval, "x", NA),
    (NormalizedAngleInterval, "x y", A, A), (NormalizedAngleInterval, "x y", NA, NA), (NormalizedAngleInterval, "angleInterval", gens.normalizedintervals),
    (orientationExact, "a b c", U, U, U), (orientation, "a b c", U, U, U), (orientationX, "b c", U, U), (orientationY, "b c", U, U), (orientationZ, "b c", U, U),
    *(((COARSE, n), "i", st.integers(0, 70)) for n in ("pixel", "toString")), ((COARSE, "index"), "i", U),
    *(((COARSE, n), "region", REGION) for n in ("envelope", "interior")), *(((COARSE, n), "region maxRanges", REGION, st.integers(0, 9)) for n in ("envelope", "interior")),
    (RangeSet, "integer", I), (RangeSet, "first last", I, I), (RangeSet, "rangeSet", RS), (RangeSet, "iterable", st.lists(st.integers(0, 99), max_size=5)),
    *(((RS, n), "integer", I) for n in ("insert", "erase", "intersects", "contains", "isWithin", "isDisjointFrom")),
    *(((RS, n), "first last", I, I) for n in ("insert", "erase", "intersects", "contains", "isWithin", "isDisjointFrom")),
    *(((RS, n), "rangeSet", RS) for n in ("intersects", "contains", "isWithin", "isDisjointFrom", "intersection", "union", "difference", "symmetricDifference")),
    *(((RS, n), "n", st.integers(0, 70)) for n in ("simplify", "simplified")), *(((RS, n), "factor", I) for n in ("scale", "scaled")),
    *(((r, "contains"), "lon lat", MIXED, gens.latrad) for r in (BOX, CIRCLE, POLY, REGION)), *(((r, "contains"), "x y z", MIXED, D, D) for r in (BOX, CIRCLE, POLY, REGION, BOX3)),
    ((gens.compounds, "contains"), "unitVector", U), ((REGION, "relate"), "region", REGION), (Region.getRegions, "region", REGION),
    (invert, "relationship", st.integers(0, 7)),
    (UnitVector3d.orthogonalTo, "vector", V), (UnitVector3d.orthogonalTo, "vector1 vector2", V, V), (UnitVector3d.orthogonalTo, "meridian", NA), (UnitVector3d.northFrom, "vector", V),
    (UnitVector3d, "unitVector", U), (UnitVector3d, "vector", V), (UnitVector3d, "x y z", D, D, D), (UnitVector3d, "lonLat", LL), (UnitVector3d, "lon lat", A, gens.latrad.map(Angle)),
    ((U, "rotatedAround"), "axis angle", U, A), ((V, "rotatedAround"), "axis angle", U, A),
    (getMinSquaredChordLength, "v a b n", U, U, U, V), (getMaxSquaredChordLength, "v a b n", U, U, U, V),
    (getMinAngleToCircle, "x c", A, A), (getMaxAngleToCircle, "x c", A, A), (getWeightedCentroid, "vector0 vector1 vector2", U, U, U),
    (Vector3d, "x y z", D, D, D), (Vector3d, "vector", V),
]


def deep(x):
    if isinstance(x, (list, tuple)):
        return [deep(y) for y in x]
    if isinstance(x, np.ndarray):
        return [str(x.dtype), x.shape, x.tolist()]
    return key(x)


def outcome(f, *args, **kw):
    try:
        return deep(f(*args, **kw))
    except Exception as e:
        return (type(e).__name__,) if isinstance(e, TypeError) else (type(e).__name__, str(e))


@law(4000, 60000)
def keywords(draw, c):
    """Arguments can be given by their names, in any order."""
    target, names, *strategies = draw(st.sampled_from(KEYWORDS))
    names = names.split()
    args = [draw(s) for s in strategies]
    order = draw(st.permutations(range(len(names))))
    byname = {names[i]: args[i] for i in order}
    split = draw(st.integers(0, len(names)))
    mixed = {names[i]: args[i] for i in order if i >= split}
    c.nontrivial(len(names) > 1)
    if isinstance(target, tuple):
        x = draw(target[0])
        c.note(repr(x), target[1], byname)
        copies = [x, x, x]
        if isinstance(x, (Box, Box3d, Circle, RangeSet)):
            copies = [type(x)(x) for _ in range(3)]
        fs = [getattr(y, target[1]) for y in copies]
    else:
        c.note(target, byname)
        copies = []
        fs = [target] * 3
    want = outcome(fs[0], *args)
    # (integers that do not fit are a TypeError)
    require(not (isinstance(want, tuple) and want[0] == "TypeError") or any(isinstance(a, int) for a in args), "the arguments are not accepted")
    c.label(isinstance(want, tuple) and want[0].endswith("Error"), "raises")
    got = outcome(fs[1], **byname)
    require(got == want, "by name gives", got, "and by position", want)
    got = outcome(fs[2], *args[:split], **mixed)
    require(got == want, "the last by name gives", got, "and by position", want)
    for y in copies[1:]:
        require(key(y) == key(copies[0]), "leaves", repr(y), "and by position", repr(copies[0]))
    raises(TypeError, fs[0], *args[:-1], **{"no" + names[-1]: args[-1]})


# --------------------------------------------- objects that raise or lie

class Oops(Exception):
    pass


class Fake:
    """A sequence, iterable and number whose functions raise, or give anything."""

    def __init__(self, size, items, at):
        self.size, self.items, self.at, self.reads = size, items, at, 0

    def __repr__(self):
        return "Fake(%r, %r, %r)" % (self.size, self.items, self.at)

    def step(self):
        self.reads += 1
        if self.reads > self.at:
            raise Oops("read %d" % self.reads)

    def __len__(self):
        self.step()
        return self.size

    def __getitem__(self, i):
        self.step()
        if isinstance(i, int) and i < len(self.items):
            return self.items[i]
        raise IndexError(i)

    def __iter__(self):
        for x in self.items:
            self.step()
            yield x

    def __index__(self):
        self.step()
        return self.size

    def __float__(self):
        self.step()
        return float(self.size)


@st.composite
def fakes(draw, items):
    return Fake(draw(st.one_of(st.just(2), st.integers(-1, 5))), draw(st.lists(items, max_size=5)), draw(st.one_of(st.integers(0, 3), st.integers(0, 7))))


FINE = st.one_of(st.integers(0, 60), st.tuples(st.integers(0, 60), st.integers(0, 60)))
FAKE = fakes(st.one_of(st.integers(0, 60), st.integers(0, 60), st.none()))
ITEM = st.one_of(st.lists(st.integers(0, 60), max_size=3), gens.anyfloat, st.text(max_size=2), st.none())


@law(3000, 40000)
def raising_arguments(draw, c):
    """Errors that objects given as arguments raise are passed on."""
    k = draw(st.integers(0, 3))
    if k == 0:
        items = draw(st.lists(st.one_of(FINE, FINE, FAKE, ITEM), max_size=4))
        arg = items if draw(st.booleans()) else iter(items)
        target, args = RangeSet, (arg,)
        c.note("RangeSet", items)
        valid = all(isinstance(x, int) or isinstance(x, (tuple, list)) and len(x) == 2 for x in items)
    elif k == 1:
        items = draw(st.lists(st.one_of(U, U, U, FAKE, ITEM), max_size=5))
        target, args = draw(st.sampled_from([ConvexPolygon, ConvexPolygon.convexHull])), (draw(st.sampled_from([items, tuple(items), Fake(len(items), items, draw(st.integers(0, 30)))])),)
        c.note(target, items)
        valid = None
    else:
        target, names, *strategies = draw(st.sampled_from(KEYWORDS))
        args = [draw(s) for s in strategies]
        i = draw(st.integers(0, len(args) - 1))
        args[i] = draw(fakes(st.integers(0, 60)))
        x = None
        if isinstance(target, tuple):
            x = draw(target[0])
            x = type(x)(x) if isinstance(x, (Box, Box3d, Circle, RangeSet)) else x
            target = getattr(x, target[1])
        c.note(repr(x), target, args)
        valid = None
    c.nontrivial("Fake" in repr(args))
    try:
        r = target(*args)
    except SystemError as e:
        require(False, "SystemError:", e)
    except (Oops, TypeError, ValueError, IndexError, RuntimeError, OverflowError, NotImplementedError) as e:
        c.label(isinstance(e, Oops), "passed on")
        require(not valid, "raised", repr(e))
        return
    repr(r)
    if k == 0:
        m = RangeSet()
        for x in items:
            if isinstance(x, int):
                m.insert(x)
            elif isinstance(x, (tuple, list)):
                require(len(x) == 2, "an item of", len(x), "numbers is taken")
                m.insert(*x)
            else:
                require(isinstance(x, Fake), "an item", repr(x), "is taken")
                m = None
                break
        require(m is None or m == r, "RangeSet gives", r, "and not", m)
