"""C32: IVOA position strings round-trip and malformed ones are rejected."""
import math

from hypothesis import strategies as st
from lsst.sphgeom import *

import gens
from pbt import law, raises, require

RULE = ("A case is a region written as a POS string and read back, or a POS string of the grammar (any number format and white "
        "space, infinities) with points to try, or a string with one fault. Non-trivial when the string has a region that is "
        "neither empty nor everything, or a fault.")

PI = math.pi


def apart(u, v):
    return (Vector3d(u) - Vector3d(v)).getNorm()


def numbers(pos, shape, n=None):
    t = pos.split(" ")
    require(t[0] == shape, "the string starts with", t[0])
    require(n is None or len(t) == n + 1, "the string has", len(t) - 1, "numbers:", pos)
    return [float(x) for x in t[1:]]


@law(4000, 60000)
def round_trip(draw, c):
    x = draw(st.one_of(gens.boxes(), gens.circles(), gens.polygons()))
    c.note(repr(x))
    p = x.to_ivoa_pos()
    c.note(p)
    require(isinstance(p, str), "not a string")
    y = draw(st.sampled_from([Region, Circle, Box, ConvexPolygon])).from_ivoa_pos(p)
    require(type(x) is type(y), "a", type(y).__name__, "comes back")
    c.label(True, type(x).__name__)
    if isinstance(x, Circle):
        lon, lat, r = numbers(p, "CIRCLE", 3)
        require(0 <= lon <= 360 and -90 <= lat <= 90, "coordinates out of range")
        require(x.isEmpty() == y.isEmpty() and x.isFull() == y.isFull(), "comes back as", repr(y))
        require(apart(x.getCenter(), y.getCenter()) < 4e-15, "the center comes back as", repr(y.getCenter()))
        a, b = x.getOpeningAngle().asRadians(), y.getOpeningAngle().asRadians()
        require(abs(a - b) <= 1e-15 * abs(a) * 8 + (2e-15 / max(1e-9, PI - a) if a > 3 else 0), "the opening angle", a, "comes back as", b)
        c.nontrivial(not x.isEmpty() and not x.isFull())
    elif isinstance(x, Box):
        n = numbers(p, "RANGE", 4)
        require(x.isEmpty() == y.isEmpty(), "comes back as", repr(y))
        if x.isEmpty():
            return
        require(0 <= n[0] <= 360 and 0 <= n[1] <= 360 and -90 <= n[2] <= n[3] <= 90, "numbers out of range:", n)
        lon, lat, m, k = x.getLon(), x.getLat(), y.getLon(), y.getLat()
        for a, b in ((lat.getA(), k.getA()), (lat.getB(), k.getB()), (lon.getA(), m.getA()), (lon.getB(), m.getB())):
            require(abs(a.asRadians() - b.asRadians()) <= 4e-15, "an angle", repr(a), "comes back as", repr(b))
        require(lon.isFull() == m.isFull() or abs(lon.getSize().asRadians() - 2 * PI) < 1e-14, "comes back as", repr(y))
        if lon.wraps() != m.wraps():   # within rounding of a whole turn, only
            require(lon.getSize().asRadians() > 6.28 or lon.getSize().asRadians() < 1e-14, "comes back as", repr(y))
        c.nontrivial(not x.isFull())
    else:
        n = numbers(p, "POLYGON")
        vs, ws = x.getVertices(), y.getVertices()
        require(len(n) == 2 * len(vs), "the string has", len(n), "numbers")
        require(len(vs) == len(ws), "has", len(vs), "vertices and comes back with", len(ws))
        k = min(range(len(ws)), key=lambda i: apart(vs[0], ws[i]))
        for i, v in enumerate(vs):
            require(apart(v, ws[(i + k) % len(ws)]) < 4e-15, "the vertex", repr(v), "does not come back in its place")
        c.nontrivial()


@law(1500, 20000)
def unsupported(draw, c):
    x = draw(st.one_of(gens.ellipses(), gens.compounds))
    c.note(repr(x))
    c.nontrivial()
    raises(NotImplementedError, x.to_ivoa_pos)


@st.composite
def spelled(draw, x):
    """The text of a number, and the number it denotes."""
    if math.isinf(x):
        return draw(st.sampled_from(["+Inf", "Inf", "inf", "+inf", "Infinity"] if x > 0 else ["-Inf", "-inf", "-Infinity", "-INF"]))
    k = draw(st.integers(0, 5))
    if k == 0:
        return "%.17e" % x
    if k == 1 and x == int(x):
        return "%d" % x
    if k == 2 and math.copysign(1, x) > 0:
        return "+" + repr(x)
    if k == 3 and x == int(x):
        return "%d." % x
    if k == 4 and 0 < x < 1 and "e" not in repr(x):
        return repr(x)[1:]
    return repr(x)


spaces = st.sampled_from([" ", " ", " ", "  ", "\t", "\n", " \t "])


@st.composite
def written(draw, shape, numbers):
    s = draw(st.sampled_from(["", "", " ", "\n"])) + shape
    for x in numbers:
        s += draw(spaces) + draw(spelled(x))
    return s + draw(st.sampled_from(["", "", " ", "\n"]))


londeg = st.one_of(st.sampled_from([0.0, 90.0, 180.0, 360.0, 359.0, 12.5, 0.25]), st.floats(0, 360), st.integers(0, 360).map(float))
latdeg = st.one_of(st.sampled_from([0.0, 90.0, -90.0, 45.0, 0.5]), st.floats(-90, 90), st.integers(-90, 90).map(float))


def vec(lon, lat):
    lon, lat = math.radians(lon), math.radians(lat)
    return math.cos(lon) * math.cos(lat), math.sin(lon) * math.cos(lat), math.sin(lat)


def separation(a, b):
    x = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return math.degrees(math.atan2(math.sqrt(sum(t * t for t in x)), sum(s * t for s, t in zip(a, b))))


@law(4000, 60000)
def circles(draw, c):
    lon, lat = draw(st.one_of(londeg, st.floats(-360, 720))), draw(latdeg)
    r = draw(st.one_of(st.floats(0, 180), st.sampled_from([0.0, 1.0, 90.0, 180.0, 1e-6, -1.0, 200.0])))
    s = draw(written("CIRCLE", [lon, lat, r]))
    c.note(repr(s))
    x = Region.from_ivoa_pos(s)
    require(isinstance(x, Circle), "a", type(x).__name__)
    require(x.isEmpty() == (r < 0) and (x.isFull() == (r >= 180) or abs(r - 180) < 1e-6), "gives", repr(x))
    o = vec(lon, lat)
    require(apart(x.getCenter(), UnitVector3d(*o)) < 1e-14, "the center is", repr(x.getCenter()))
    c.nontrivial(0 <= r < 180)
    for _ in range(6):
        p = vec(draw(londeg), draw(latdeg))
        d = separation(o, p) - r
        if abs(d) > 1e-6:
            require(x.contains(UnitVector3d(*p)) == (d < 0 and r >= 0), "membership of", p, "at", d, "degrees from the edge")


@law(4000, 60000)
def ranges(draw, c):
    inf = st.sampled_from([math.inf, -math.inf])
    l1 = draw(st.one_of(londeg, londeg, st.just(-math.inf)))
    l2 = draw(st.one_of(londeg, londeg, st.just(math.inf)))
    b1 = draw(st.one_of(latdeg, latdeg, st.just(-math.inf)))
    b2 = draw(st.one_of(latdeg, latdeg, st.just(math.inf)))
    if draw(st.integers(0, 7)) and b1 > b2:
        b1, b2 = b2, b1
    s = draw(written("RANGE", [l1, l2, b1, b2]))
    c.note(repr(s))
    x = Region.from_ivoa_pos(s)
    require(isinstance(x, Box), "a", type(x).__name__)
    l1, l2, b1, b2 = max(l1, 0), min(l2, 360), max(b1, -90), min(b2, 90)
    require(x.isEmpty() == (b1 > b2), "gives", repr(x))
    c.nontrivial(b1 <= b2 and not x.isFull())
    if b1 > b2 or l2 < l1 < l2 + 1e-9:   # (a turn less than rounding)
        return
    if l1 == 0 and l2 == 360:
        require(x.getLon().isFull(), "does not have all longitudes:", repr(x))
    for _ in range(8):
        lon = draw(st.one_of(londeg, st.just((l1 + l2) / 2), st.just((l1 + l2) / 2 + 180).map(lambda t: t % 360)))
        lat = draw(st.one_of(latdeg, st.just((b1 + b2) / 2)))
        if min(abs(lat - b1), abs(lat - b2)) < 1e-9 and abs(lat) != 90 or min(abs(lon - e) for e in (l1, l2, l1 - 360, l2 - 360, l1 + 360, l2 + 360)) < 1e-9:
            if not (l1 == 0 and l2 == 360 and b1 <= lat <= b2 and lat in (b1, b2)):
                continue
        inlon = (l1 <= lon <= l2 if l1 <= l2 else lon >= l1 or lon <= l2) or (lon in (0, 360) and l1 == 0 and l2 == 360)
        require(x.contains(LonLat.fromDegrees(lon, lat)) == (b1 <= lat <= b2 and inlon), "membership of", lon, lat)


@law(3000, 40000)
def polygons(draw, c):
    # convex in the plane around a point, far from the poles
    lon, lat, r = draw(st.floats(20, 340)), draw(st.floats(-60, 60)), draw(st.floats(0.001, 15))
    n, t0 = draw(st.integers(3, 9)), draw(st.floats(0, 6.3))
    if r > 0.1 and not draw(st.integers(0, 5)):
        n = draw(st.integers(10, 100))
    o = UnitVector3d(*vec(lon, lat))
    east, north = (-math.sin(math.radians(lon)), math.cos(math.radians(lon)), 0.0), UnitVector3d.northFrom(o)
    pts, j = [], 0.2 if n == 3 else 0.3
    for i in range(n):
        t = t0 + 2 * PI * (i + draw(st.floats(-j, j))) / n
        v = UnitVector3d(*(o[k] * math.cos(math.radians(r)) + (east[k] * math.cos(t) + north[k] * math.sin(t)) * math.sin(math.radians(r)) for k in range(3)))
        p = LonLat(v)
        pts.append((p.getLon().asDegrees(), p.getLat().asDegrees()))
    if draw(st.booleans()):
        pts.reverse()
    if draw(st.integers(0, 4)) == 0:
        pts.append(pts[0])   # closed
    s = draw(written("POLYGON", [z for p in pts for z in p]))
    c.note(repr(s))
    c.nontrivial()
    x = Region.from_ivoa_pos(s)
    require(isinstance(x, ConvexPolygon), "a", type(x).__name__)
    vs = [UnitVector3d(*vec(*p)) for p in pts]
    require(len(x.getVertices()) == n, "has", len(x.getVertices()), "vertices")
    for v in vs:
        require(min(apart(v, w) for w in x.getVertices()) < 1e-14, "a vertex is missing")
    require(x.contains(o), "the middle is missing")
    for _ in range(5):
        # on a ray from the middle: inside the inscribed circle, or outside the circumscribed one
        t, f = draw(st.floats(0, 6.3)), draw(st.one_of(st.floats(0, math.cos(PI * 1.6 / n) * 0.9 if n > 3 else 0), st.floats(1.01, 3)))
        a = math.atan(f * math.tan(math.radians(r))) if f < 1 else math.radians(f * r)
        w = UnitVector3d(*(o[k] * math.cos(a) + (east[k] * math.cos(t) + north[k] * math.sin(t)) * math.sin(a) for k in range(3)))
        require(x.contains(w) == (f < 1), "membership of", repr(w), "at", f)


FAULTS = ["count", "word", "shape", "latitude", "empty", "missing space", "infinite"]


@law(4000, 60000)
def malformed(draw, c):
    f = draw(st.sampled_from(FAULTS))
    shape = draw(st.sampled_from(["CIRCLE", "RANGE", "POLYGON"]))
    good = {"CIRCLE": [12.0, 34.0, 5.0], "RANGE": [12.0, 13.0, 34.0, 35.0], "POLYGON": [12.0, 34.0, 14.0, 34.0, 12.0, 36.0]}[shape]
    words = [repr(x + draw(st.integers(0, 3))) for x in good]
    if f == "count":
        if shape == "POLYGON":
            k = draw(st.sampled_from([0, 1, 2, 3, 4, 5, 7, 9, 11]))
            words = (words + ["10.0", "35.0", "11.0", "33.0", "15.0"])[:k]
        else:
            k = draw(st.integers(0, 8))
            words = (words + ["1.0"] * 8)[:k if k != len(good) else k + 1]
    elif f == "word":
        words[draw(st.integers(0, len(words) - 1))] = draw(st.sampled_from(["x", "1,", "1.2.3", "--1", "1e", "0x", "deg", "1d", "°", "None", "[1", "'1'", "1_", "e5"]))
    elif f == "shape":
        shape = draw(st.one_of(st.sampled_from(["BOX", "ELLIPSE", "CIRCL", "CIRCLES", "POLY", "1", "RANGE,", "_", "POLYGON:", "POINT", "UNION"]),
                               st.text("ABCDEXYZ", min_size=1, max_size=9)))
        if shape in ("CIRCLE", "RANGE", "POLYGON"):
            shape += "X"
    elif f == "latitude":
        lat = repr(draw(st.sampled_from([90.0001, -90.0001, 91.0, -180.0, 1e300])))
        if shape == "RANGE":
            words[draw(st.sampled_from([2, 3]))] = lat
        else:
            words[1] = lat
    elif f == "empty":
        shape, words = draw(st.sampled_from(["", " ", "\n\t"])), []
    elif f == "missing space":
        shape, words = shape + words[0], words[1:]
    elif f == "infinite":
        if shape == "RANGE":
            shape = "CIRCLE"
            words = words[:3]
        words[1] = draw(st.sampled_from(["inf", "-Inf", "1e999"]))
    s = " ".join([shape] + words)
    c.note(f, repr(s))
    c.label(True, f)
    c.nontrivial()
    raises(ValueError, Region.from_ivoa_pos, s)
