"""Generators of every kind of object the Python package has."""
import math
import struct

from hypothesis import strategies as st
from lsst.sphgeom import (Angle, AngleInterval, Box, Box3d, Chunker, Circle, ConvexPolygon, Ellipse,
                          HealpixPixelization, HtmPixelization, IntersectionRegion, Interval1d, LonLat, Matrix3d,
                          Mq3cPixelization, NormalizedAngle, NormalizedAngleInterval, Q3cPixelization, RangeSet,
                          Region, UnionRegion, UnitVector3d, Vector3d)

PI = math.pi
TWO64 = 1 << 64

SPECIAL = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e-300, -1e-300, 5e-324, 1e300, -1e300, 1e-9, PI, -PI, PI / 2, 2 * PI, 1e-16, 3.0]
nice = st.one_of(st.sampled_from(SPECIAL), st.floats(-10, 10), st.integers(-5, 5).map(float))
finite = st.one_of(nice, st.floats(allow_nan=False, allow_infinity=False))
anyfloat = st.one_of(finite, st.sampled_from([math.inf, -math.inf, math.nan]))
coord = st.one_of(st.sampled_from([0.0, 1.0, -1.0, 1e-9, -1e-9, 0.5]), st.floats(-1, 1), st.floats(-1, 1))
lonrad = st.one_of(st.sampled_from([0.0, PI / 2, PI, 1.5 * PI, 2 * PI, 1e-12, math.nextafter(2 * PI, 0)]), st.floats(0, 2 * PI))
latrad = st.one_of(st.sampled_from([0.0, PI / 2, -PI / 2, 1e-12, PI / 4]), st.floats(-PI / 2, PI / 2))
size = st.one_of(st.floats(1e-10, 1), st.floats(0, PI), st.sampled_from([1e-12, 1e-6, 1e-3, 0.1, 1.0, PI / 2, 3.0]))


def bits(x):
    return struct.pack("<d", x)


@st.composite
def units(draw):
    k = draw(st.integers(0, 3))
    if k == 0:
        return UnitVector3d(LonLat.fromRadians(draw(lonrad), draw(latrad)))
    v = [draw(coord) for _ in range(3)]
    if not any(abs(x) > 1e-8 for x in v):
        v[draw(st.integers(0, 2))] = 1.0
    return UnitVector3d(*v)


@st.composite
def near(draw, u, scale=None):
    """A unit vector near u."""
    s = scale if scale is not None else draw(size)
    a = Vector3d(u) + Vector3d(draw(st.floats(-1, 1)), draw(st.floats(-1, 1)), draw(st.floats(-1, 1))) * s
    return UnitVector3d(a) if a.getNorm() > 1e-3 else u


angles = anyfloat.map(Angle)
normalized = st.one_of(lonrad.map(NormalizedAngle), st.just(NormalizedAngle.nan()))
lonlats = st.one_of(st.builds(LonLat.fromRadians, lonrad, latrad), st.just(LonLat.fromRadians(math.nan, math.nan)))
vectors = st.builds(Vector3d, anyfloat, anyfloat, anyfloat)
matrices = st.builds(Matrix3d, *([anyfloat] * 9))


@st.composite
def intervals(draw, cls, scalar):
    k = draw(st.integers(0, 9))
    if k == 0:
        return cls.empty()
    if k == 1:
        return cls.full()
    if k == 2:
        return cls()
    if k == 3:
        return cls(draw(scalar))
    return cls(draw(scalar), draw(scalar))


interval1ds = intervals(Interval1d, anyfloat)
angleintervals = intervals(AngleInterval, angles)
normalizedintervals = intervals(NormalizedAngleInterval, normalized)


@st.composite
def box3ds(draw):
    k = draw(st.integers(0, 5))
    if k == 0:
        return draw(st.sampled_from([Box3d.empty(), Box3d.full(), Box3d.aroundUnitSphere(), Box3d()]))
    if k == 1:
        return Box3d(draw(vectors))
    if k == 2:
        return Box3d(draw(vectors), draw(vectors))
    return Box3d(draw(interval1ds), draw(interval1ds), draw(interval1ds))


@st.composite
def boxes(draw, special=True):
    k = draw(st.integers(0, 9 if special else 7))
    if k == 9:
        return draw(st.sampled_from([Box(), Box.empty(), Box.full()]))
    if k == 8:
        return Box(LonLat.fromRadians(draw(lonrad), draw(latrad)))
    lon1, lon2 = draw(lonrad), draw(lonrad)
    lat1, lat2 = sorted([draw(latrad), draw(latrad)])
    if k == 0:
        return Box(NormalizedAngleInterval.full(), AngleInterval.fromRadians(lat1, lat2))
    if k < 4:
        return Box(LonLat.fromRadians(lon1, lat1), Angle(draw(size) / 2), Angle(draw(size) / 2))
    return Box(LonLat.fromRadians(lon1, lat1), LonLat.fromRadians(lon2, lat2))


@st.composite
def circles(draw, special=True):
    k = draw(st.integers(0, 9 if special else 7))
    if k == 9:
        return draw(st.sampled_from([Circle(), Circle.empty(), Circle.full()]))
    u = draw(units())
    if k == 8:
        return Circle(u)
    if k == 7:
        return Circle(u, draw(st.floats(0, 4)))
    return Circle(u, Angle(draw(size)))


@st.composite
def ellipses(draw, special=True):
    k = draw(st.integers(0, 9 if special else 7))
    if k == 9:
        return draw(st.sampled_from([Ellipse(), Ellipse.empty(), Ellipse.full()]))
    u = draw(units())
    if k == 8:
        return Ellipse(u, Angle(draw(size)))
    if k < 3:
        v = draw(near(u))
        d = 2 * math.asin(min(1, (Vector3d(u) - Vector3d(v)).getNorm() / 2))
        a = min(PI, d / 2 + draw(size))
        try:
            return Ellipse(u, v, Angle(a))
        except ValueError:
            return Ellipse(u, Angle(a))
    lo, hi = sorted([draw(size), draw(size)])
    if (lo < PI / 2) != (hi < PI / 2):
        lo = hi = draw(st.floats(0.001, 1))
    a, b = (lo, hi) if draw(st.booleans()) else (hi, lo)
    try:
        return Ellipse(u, Angle(a), Angle(b), Angle(draw(st.floats(-7, 7))))
    except ValueError:
        return Ellipse(u, Angle(a))


@st.composite
def polygons(draw, minsize=1e-8):
    """Well-formed polygons: vertices around a centre, angles apart."""
    u = draw(units())
    n = draw(st.integers(3, 8))
    r = draw(st.one_of(st.floats(minsize, 1.4), st.floats(0.01, 1.2)))
    if r > 0.01 and not draw(st.integers(0, 5)):
        n = draw(st.integers(9, 100))
    e = UnitVector3d.orthogonalTo(u)
    f = UnitVector3d(Vector3d(u).cross(Vector3d(e)))
    t0 = draw(st.floats(0, 6.3))
    if r > 0.01 and not draw(st.integers(0, 11)):   # a great many vertices
        n = draw(st.integers(101, 700))
        at = [t0 + 2 * PI * i / n for i in range(n)]
        return ConvexPolygon([UnitVector3d(Vector3d(u) * math.cos(r) + (Vector3d(e) * math.cos(t) + Vector3d(f) * math.sin(t)) * math.sin(r)) for t in at])
    pts = []
    for i in range(n):
        t = t0 + 2 * PI * (i + draw(st.floats(-0.3, 0.3))) / n
        pts.append(UnitVector3d(Vector3d(u) * math.cos(r) + (Vector3d(e) * math.cos(t) + Vector3d(f) * math.sin(t)) * math.sin(r)))
    return ConvexPolygon(pts)


def simple(special=True):
    return st.one_of(boxes(special), circles(special), ellipses(special), polygons())


@st.composite
def regions(draw, special=True, depth=2):
    if depth == 0 or draw(st.integers(0, 3)):
        return draw(simple(special))
    cls = draw(st.sampled_from([UnionRegion, IntersectionRegion]))
    return cls(draw(regions(special, depth - 1)), draw(regions(special, depth - 1)))


compounds = st.builds(lambda c, a, b: c(a, b), st.sampled_from([UnionRegion, IntersectionRegion]), regions(depth=1), regions(depth=1))

u64 = st.one_of(st.integers(0, 40), st.integers(0, TWO64 - 1), st.sampled_from([0, 1, TWO64 - 1, TWO64 - 2, 1 << 63, (1 << 63) - 1, (1 << 32)]))


@st.composite
def rangesets(draw):
    r = RangeSet()
    for _ in range(draw(st.integers(0, 6))):
        a, b = draw(u64), draw(u64)
        r.insert(a, b) if draw(st.booleans()) else r.insert(a)
    if draw(st.integers(0, 11)) == 0:   # a great many ranges
        a, d = draw(st.integers(0, 1 << 60)), draw(st.sampled_from([2, 3, 1000, 1 << 40]))
        for i in range(draw(st.integers(10, 1500))):
            r.insert(a + i * d)
    if draw(st.integers(0, 4)) == 0:
        r.complement()
    return r


pixelizations = st.one_of(
    st.integers(0, 24).map(HtmPixelization), st.integers(0, 30).map(Q3cPixelization),
    st.integers(0, 30).map(Mq3cPixelization), st.integers(0, 17).map(HealpixPixelization))


@st.composite
def chunkers(draw):
    n = draw(st.one_of(st.integers(1, 20), st.sampled_from([85, 200, 340])))
    return Chunker(n, draw(st.one_of(st.integers(1, 12), st.just(3))))


everything = st.one_of(
    angles, normalized, lonlats, vectors, units(), matrices, interval1ds, angleintervals, normalizedintervals,
    box3ds(), boxes(), circles(), ellipses(), polygons(), compounds, rangesets(), pixelizations, chunkers())


def key(x):
    """What an object is, in full: floats to the last bit."""
    if isinstance(x, Region):
        return (type(x).__name__, x.encode().hex())
    if isinstance(x, (Angle, NormalizedAngle)):
        return (type(x).__name__, bits(x.asRadians()) if x.asRadians() == x.asRadians() else "nan")
    if isinstance(x, (LonLat, Vector3d, UnitVector3d, Box3d)):
        return (type(x).__name__,) + tuple(key(y) for y in x)
    if isinstance(x, (Interval1d, AngleInterval, NormalizedAngleInterval)):
        return (type(x).__name__, key(x.getA()), key(x.getB()))
    if isinstance(x, Matrix3d):
        return ("Matrix3d",) + tuple(key(x[i, j]) for i in range(3) for j in range(3))
    if isinstance(x, float):
        return bits(x) if x == x else "nan"
    if isinstance(x, RangeSet):
        return ("RangeSet", tuple(x.ranges()))
    if isinstance(x, (HtmPixelization, Q3cPixelization, Mq3cPixelization, HealpixPixelization)):
        return (type(x).__name__, x.getLevel())
    if isinstance(x, Chunker):
        return ("Chunker", x.numStripes, x.numSubStripesPerStripe)
    return (type(x).__name__, repr(x))


def has_nan(x):
    if isinstance(x, (Angle, NormalizedAngle)):
        return x.isNan()
    if isinstance(x, float):
        return x != x
    if isinstance(x, (LonLat, Vector3d, UnitVector3d)):
        return any(has_nan(y) for y in x)
    if isinstance(x, Matrix3d):
        return any(has_nan(x[i, j]) for i in range(3) for j in range(3))
    return False
