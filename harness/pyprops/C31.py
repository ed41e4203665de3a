"""C31: Python objects survive pickle, copy and YAML round trips."""
import copy
import io
import math
import pickle

import yaml
from hypothesis import strategies as st
from lsst.sphgeom import *
from lsst.sphgeom import Pixelization

import gens
from gens import key
from pbt import law, require

RULE = ("A case is an object of any of the 20 types of the package, empty, full, NaN and extreme ones included, serialised in one "
        "of several ways. Non-trivial when the object is not a default-constructed one.")

NAMES = {n: getattr(__import__("lsst.sphgeom").sphgeom, n) for n in dir(__import__("lsst.sphgeom").sphgeom)}
NAMES.update(nan=math.nan, inf=math.inf)
LOADERS = [yaml.SafeLoader, yaml.FullLoader, yaml.Loader, yaml.UnsafeLoader] + ([yaml.CLoader] if hasattr(yaml, "CLoader") else [])
RSTATE = {}


def check(x, y, how):
    require(type(x) is type(y), how, "gives a", type(y).__name__)
    require(key(x) == key(y), how, "gives", repr(y), "for", repr(x))
    if not gens.has_nan(x) and not isinstance(x, (UnionRegion, IntersectionRegion)):   # (which have no ==)
        require(x == y and not x != y, how, "gives an object that is not equal to its original:", repr(y))


def begin(c, x):
    c.note(repr(x))
    c.label(True, type(x).__name__)
    try:
        c.nontrivial(key(x) != key(type(x)()))
    except TypeError:
        c.nontrivial()


@law(6000, 80000)
def pickling(draw, c):
    x = draw(gens.everything)
    begin(c, x)
    k = key(x)
    for protocol in range(2, pickle.HIGHEST_PROTOCOL + 1):
        check(x, pickle.loads(pickle.dumps(x, protocol)), "pickling with protocol %d" % protocol)
    # several objects, one of them twice
    y = draw(gens.everything)
    a, b, (d, e) = pickle.loads(pickle.dumps([x, y, {"k": x, "v": y}.values()][:2] + [(x, [y])]))
    check(x, a, "pickling in a list")
    check(y, b, "pickling in a list")
    check(y, e[0], "pickling in a list")
    require(a is d and b is e[0], "pickling duplicates shared objects")
    require(key(x) == k, "pickling changed the object")


@law(4000, 60000)
def copying(draw, c):
    x = draw(gens.everything)
    begin(c, x)
    k = key(x)
    for f in (copy.copy, copy.deepcopy):
        y = f(x)
        check(x, y, f.__name__)
    require(y is not x, "deepcopy gives the same object")
    if isinstance(x, Region):
        check(x, x.clone(), "clone")
        require(x.clone() is not x, "clone gives the same object")
    if not isinstance(x, (UnionRegion, IntersectionRegion, Chunker, HealpixPixelization)):
        y = type(x)(x)
        check(x, y, "copy construction")
        require(y is not x, "copy construction gives the same object")
    # what is done to the copy does not reach the original
    for how, y in (("copy", copy.copy(x)), ("deepcopy", copy.deepcopy(x)), ("pickle", pickle.loads(pickle.dumps(x)))):
        if y is x:
            continue
        if isinstance(y, RangeSet):
            y.complement()
        elif isinstance(y, (Circle, Ellipse)):
            y.complement()
        elif isinstance(y, Box):
            y.expandTo(LonLat.fromRadians(1, 1))
        elif isinstance(y, Box3d):
            y.expandTo(Vector3d(5, 6, 7))
        elif isinstance(y, Vector3d):
            y += Vector3d(1, 2, 3)
        elif isinstance(y, Interval1d):
            y.expandTo(3.0)
        elif isinstance(y, AngleInterval):
            y.expandTo(Angle(3.0))
        elif isinstance(y, NormalizedAngleInterval):
            y.expandTo(NormalizedAngle(3.0))
        elif isinstance(y, Angle):
            y += Angle(1)
        require(key(x) == k, how, "shares state with its original")


@law(3000, 40000)
def encoding(draw, c):
    x = draw(gens.regions())
    begin(c, x)
    e = x.encode()
    require(isinstance(e, bytes), "encode gives", type(e))
    y = Region.decode(e)
    check(x, y, "decode")
    require(y.encode() == e, "encodings differ")
    require(e[0] == type(x).TYPE_CODE, "the encoding starts with", e[0])
    u = draw(gens.units())
    require(y.contains(u) == x.contains(u), "membership differs for", repr(u))
    require(x.relate(y) == y.relate(x) == x.relate(x), "relate differs")
    l = Region.getRegions(x)
    if isinstance(x, (UnionRegion, IntersectionRegion)):
        check(x.cloneOperand(0), l[0], "getRegions")
        check(x.cloneOperand(1), l[-1], "getRegions")
        require(len(l) == 2, "getRegions gives", len(l))
    else:
        require(len(l) == 1, "getRegions gives", len(l))
        check(x, l[0], "getRegions")


@law(2500, 30000)
def yaml_documents(draw, c):
    x = draw(st.one_of(gens.regions(), gens.pixelizations))
    begin(c, x)
    text = yaml.dump(x, default_flow_style=draw(st.sampled_from([None, True, False])), canonical=draw(st.sampled_from([None, True])))
    for l in LOADERS:
        check(x, yaml.load(text, Loader=l), "YAML with %s" % l.__name__)
    y = draw(st.one_of(gens.regions(), gens.pixelizations))
    doc = {"a": [x, 1], "b": {"y": y}, "again": x}
    back = yaml.load(yaml.dump(doc), Loader=draw(st.sampled_from(LOADERS)))
    check(x, back["a"][0], "YAML in a document")
    check(y, back["b"]["y"], "YAML in a document")
    check(x, back["again"], "YAML in a document")
    docs = list(yaml.safe_load_all(yaml.dump_all([x, y])))
    check(x, docs[0], "YAML in a stream")
    check(y, docs[1], "YAML in a stream")


EXACT = (Angle, NormalizedAngle, LonLat, Vector3d, Matrix3d, Interval1d, AngleInterval, NormalizedAngleInterval, Box3d, Box,
         RangeSet, HtmPixelization, Q3cPixelization, Mq3cPixelization, HealpixPixelization, Chunker)


def close(u, v, tol):
    return (Vector3d(u) - Vector3d(v)).getNorm() <= tol


@law(4000, 60000)
def representations(draw, c):
    x = draw(gens.everything)
    begin(c, x)
    require(isinstance(str(x), str) and str(x), "str")
    y = eval(repr(x), dict(NAMES))
    require(type(x) is type(y), "repr evaluates to a", type(y).__name__)
    if isinstance(x, EXACT):
        if not gens.has_nan(x):
            require(x == y, "repr evaluates to", repr(y))
        if not (hasattr(x, "isEmpty") and x.isEmpty()):
            require(key(x) == key(y), "repr evaluates to", repr(y))
    elif isinstance(x, UnitVector3d):
        require(close(x, y, 1e-15), "repr evaluates to", repr(y))
    elif isinstance(x, Circle):
        require(x.isEmpty() == y.isEmpty() and x.isFull() == y.isFull(), "repr evaluates to", repr(y))
        require(close(x.getCenter(), y.getCenter(), 1e-15), "the center becomes", repr(y.getCenter()))
        a, b = x.getOpeningAngle().asRadians(), y.getOpeningAngle().asRadians()
        require(abs(a - b) <= 1e-14, "the opening angle becomes", b)
    elif isinstance(x, ConvexPolygon):
        require(len(x.getVertices()) >= len(y.getVertices()), "more vertices")
        vs = y.getVertices()
        for v in x.getVertices():
            require(y.contains(v) or any(close(v, w, 1e-14) for w in vs), "the vertex", repr(v), "is not in", repr(y))
        for w in vs:
            require(any(close(v, w, 1e-14) for v in x.getVertices()), "the vertex", repr(w), "is new")
    elif isinstance(x, Ellipse):
        # (the half distance of the foci is not kept: a thin ellipse may come out empty)
        if x.getAlpha().asRadians() > x.getGamma().asRadians() + 1e-7 or x.isEmpty():
            require(x.isEmpty() == y.isEmpty(), "repr evaluates to", repr(y))
