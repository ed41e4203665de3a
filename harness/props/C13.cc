// C13: the bounding box, 3-d bounding box and bounding circle of a region contain it, and touch it.
#include "geo.h"

using namespace geo;

char const * const PROPERTY_ID = "C13";
char const * const NONTRIVIAL_RULE =
    "A case is one region with up to ~80 points of it (extremes along the coordinate axes, the bounding circle centre and the "
    "region's own features, vertices, random points, all of these displaced by 1e-16..1e-2 rad); non-trivial when at least four of "
    "the points are in the region and it is not full.";

namespace {
struct Bounds { Box b; Box3d b3; Circle c; };

void checkBounds(Gen & g, pbt::Ctx & c, World & w, Region const & r, int nRandom) {
    c.note(show(r));
    Bounds B{r.getBoundingBox(), r.getBoundingBox3d(), r.getBoundingCircle()};
    Ref f = makeRef(r);
    Ref axes;   // a circle around each bound's features supplies the directions to look along
    axes.k = Ref::UNION;
    std::vector<Region const *> rs{&B.b, &B.c};
    for (auto q : rs) axes.ops.push_back(makeRef(*q));
    for (int i = 0; i < 3; ++i) { Ref u; u.k = Ref::CIRCLE; u.c = V(i == 0, i == 1, i == 2); u.r = 0; u.scl = 0; axes.ops.push_back(u); }
    int in = 0;
    double tol = f.k == Ref::POLY ? 0 : 1.5e-15;
    for (auto const & p : witnesses(g, f, axes, nRandom)) {
        if (!r.contains(p)) continue;
        ++in;
        REQUIRE(B.b.contains(p), "the bounding box ", show(B.b), " of ", show(r), " lacks its point ", show(p));
        // contains() of circles and boxes is subject to rounding: allow for that
        REQUIRE(B.b3.dilatedBy(tol).contains(p), "the 3-d bounding box ", B.b3, " of ", show(r), " lacks its point ", show(p));
        REQUIRE(B.c.contains(p), "the bounding circle ", show(B.c), " of ", show(r), " lacks its point ", show(p));
    }
    if (in >= 4) c.nontrivial();
    c.label(in == 0, "no point of the region found");
}

// How far does the region reach along d (its greatest dot product with d)?
ld reach(Ref const & f, V const & d) {
    std::vector<V> e;
    f.extremes(d, e);
    f.vertices(e);
    ld best = -1;
    for (auto & p : e) if (f.side(p, 1e-9L) >= 0) best = std::max(best, d.unit().dot(p));
    return best;
}

void checkTight(pbt::Ctx & c, Region const & r) {
    Ref f = makeRef(r);
    if (f.knownEmpty()) {
        REQUIRE(r.getBoundingCircle().isEmpty() && r.getBoundingBox3d().isEmpty(), "bounds of the empty region ", show(r));
        return;
    }
    Box3d b3 = r.getBoundingBox3d();
    for (int i = 0; i < 3; ++i) {
        V d(i == 0, i == 1, i == 2);
        Interval1d iv = i == 0 ? b3.x() : (i == 1 ? b3.y() : b3.z());
        ld hi = reach(f, d), lo = -reach(f, -d);
        REQUIRE(iv.getA() >= -1 && iv.getB() <= 1, "3-d bounding box ", b3, " reaches outside the unit cube");
        REQUIRE(iv.getB() <= hi + 1e-6L && iv.getA() >= lo - 1e-6L, "3-d bounding box ", b3, " is loose along axis ", i, " (", static_cast<double>(lo), ", ", static_cast<double>(hi), ") of ", show(r));
    }
    Circle bc = r.getBoundingCircle();
    if (f.k == Ref::BOX && !static_cast<Box const &>(r).isFull()) {
        // it is the smallest with a centre on the middle meridian, or, for a wide box, at a pole or on the equator
        Box const & x = static_cast<Box const &>(r);
        ld w = x.getWidth().asRadians(), best;
        if (w <= LPI) {
            auto radius = [&](ld phi) {
                V q(cosl(phi), 0, sinl(phi));
                ld d = 0;
                for (ld lat : {f.latA, f.latB}) d = std::max(d, angleBetween(q, V(cosl(w / 2) * cosl(lat), sinl(w / 2) * cosl(lat), sinl(lat))));
                return d;
            };
            ld lo = -LPI / 2, hi = LPI / 2;
            for (int i = 0; i < 60; ++i) {
                ld a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3;
                if (radius(a) < radius(b)) hi = b; else lo = a;
            }
            best = std::min(radius(lo), std::min(radius(LPI / 2), radius(-LPI / 2)));
        } else {
            best = std::min(LPI / 2 - f.latA, f.latB + LPI / 2);
            if (!x.getLon().isFull()) best = std::min(best, w / 2);
        }
        REQUIRE(bc.getOpeningAngle().asRadians() <= best + 1e-6L, "the bounding circle ", show(bc), " of ", show(r), " is larger than ", static_cast<double>(best));
    }
    ld far = angleBetween(V(bc.getCenter()), V(bc.getCenter()));
    std::vector<V> e;
    f.extremes(V(bc.getCenter()), e);
    f.vertices(e);
    for (auto & p : e) if (f.side(p, 1e-9L) >= 0) far = std::max(far, angleBetween(V(bc.getCenter()), p));
    if (f.side(-V(bc.getCenter()), 1e-9L) >= 0) far = LPI;
    REQUIRE(std::min<ld>(LPI, bc.getOpeningAngle().asRadians()) <= far + 1e-6L, "the bounding circle ", show(bc), " does not touch ", show(r), ", which reaches ", static_cast<double>(far));
    if (f.k == Ref::POLY) for (std::size_t i = 0; i < f.vs.size(); ++i) {   // consecutive vertices next to antipodal: loose
        if (angleBetween(f.vs[i], f.vs[(i + 1) % f.vs.size()]) > LPI - 1e-6L) return;
    }
    // latitude range, and longitude range away from the poles
    Box b = r.getBoundingBox();
    bool north = f.side(V(0, 0, 1), 1e-6L) >= 0, south = f.side(V(0, 0, -1), 1e-6L) >= 0;
    ld zhi = reach(f, V(0, 0, 1)), zlo = -reach(f, V(0, 0, -1));
    if (!north) REQUIRE(b.getLat().getB().asRadians() <= asinl(std::min<ld>(1, zhi)) + 1e-6L, "bounding box ", show(b), " reaches too far north");
    if (!south) REQUIRE(b.getLat().getA().asRadians() >= asinl(std::max<ld>(-1, zlo)) - 1e-6L, "bounding box ", show(b), " reaches too far south");
    c.label(north || south, "near a pole");
    if (!north && !south) {
        ld width = 0;
        if (f.k == Ref::CIRCLE) {
            ld s = sinl(f.r) / sqrtl(f.c.x * f.c.x + f.c.y * f.c.y);
            width = 2 * asinl(std::min<ld>(1, s));
            ld polar = LPI / 2 - fabsl(latOf(f.c)) - f.r;
            if (polar < 1e-2L) return;
        } else if (f.k == Ref::POLY) {
            // unwrapped along the boundary
            ld l = 0, lo = 0, hi = 0;
            for (std::size_t i = 0; i < f.vs.size(); ++i) {
                ld d = lonOf(f.vs[(i + 1) % f.vs.size()]) - lonOf(f.vs[i]);
                if (d > LPI) d -= 2 * LPI;
                if (d < -LPI) d += 2 * LPI;
                if (fabsl(d) > LPI - 1e-6L) return;
                l += d;
                lo = std::min(lo, l);
                hi = std::max(hi, l);
            }
            for (std::size_t i = 0; i < f.vs.size(); ++i) {   // stay away from edges or vertices next to a pole
                if (fabsl(f.ns[i].z) < 1e-4L || fabsl(f.vs[i].z) > 1 - 1e-8L) return;
            }
            width = hi - lo;
        } else return;
        c.label("longitude range checked");
        c.nontrivial();
        REQUIRE(b.getWidth().asRadians() <= width + 1e-5L, "bounding box ", show(b), " is too wide: the region spans ", static_cast<double>(width));
    }
}
}  // namespace

LAW(box, 25000, 800000, 5) { World w(g); Box r = w.box(); w.learn(r); checkBounds(g, c, w, r, 12); }
LAW(circle, 25000, 800000, 5) { World w(g); Circle r = w.circle(); w.learn(r); checkBounds(g, c, w, r, 12); }
LAW(ellipse, 12000, 400000, 5) { World w(g); Ellipse r = w.ellipse(); w.learn(r); checkBounds(g, c, w, r, 12); }
LAW(polygon, 20000, 800000, 5) { World w(g); ConvexPolygon r = w.polygon(); w.learn(r); checkBounds(g, c, w, r, 12); }
LAW(compound, 15000, 500000, 5) { World w(g); auto r = w.region(World::COMPOUND); checkBounds(g, c, w, *r, 12); }
LAW(tight, 30000, 800000, 5) {
    World w(g);
    auto r = w.region(World::BOXES | World::CIRCLES | World::POLYS);
    c.note(show(*r));
    checkTight(c, *r);
}
