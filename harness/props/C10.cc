// C10: point membership of every region agrees with its definition.
#include "geo.h"
#include "exact.h"

using namespace geo;

char const * const PROPERTY_ID = "C10";
char const * const NONTRIVIAL_RULE =
    "A case is one region with up to 60 test points (extremes, vertices, boundary points moved by 1e-16..1e-1 rad, random "
    "points) judged by the extended-precision reference; non-trivial when the reference finds points both inside and outside.";

namespace {
void checkRegion(Gen & g, pbt::Ctx & c, Region const & r, World & w, int nRandom) {
    Ref f = makeRef(r);
    std::unique_ptr<Region> o = w.region(World::SIMPLE);
    Ref fo = makeRef(*o);
    std::vector<UnitVector3d> pts = witnesses(g, f, fo, nRandom);
    for (int i = 0; i < 4; ++i) pts.push_back(w.unit());
    int in = 0, out = 0;
    c.note(show(r));
    for (auto const & p : pts) {
        int s = f.side(V(p), 0);
        bool got = r.contains(p);
        if (s > 0) { ++in; REQUIRE(got, "point ", show(p), " is inside ", show(r), " but contains() is false"); }
        else if (s < 0) { ++out; REQUIRE(!got, "point ", show(p), " is outside ", show(r), " but contains() is true"); }
        else c.label("too close to call");
    }
    bool e = false, u = false;
    if (auto x = dynamic_cast<Circle const *>(&r)) { e = x->isEmpty(); u = x->isFull(); }
    else if (auto x = dynamic_cast<Box const *>(&r)) { e = x->isEmpty(); u = x->isFull(); }
    else if (auto x = dynamic_cast<Ellipse const *>(&r)) { e = x->isEmpty(); u = x->isFull(); }
    REQUIRE(!(e && in), show(r), " is reported empty but has points");
    REQUIRE(!(u && out), show(r), " is reported full but lacks points");
    if (in && out) c.nontrivial();
    c.label(in > 0, "has inside points");
    c.label(out > 0, "has outside points");
    // the other overloads
    UnitVector3d p = pts[g.below(pts.size())];
    double k = g.coin() ? 1 : g.logUniform(-3, 3);
    int s = f.side(V(p), 1e-15L);
    if (s != 0) REQUIRE(r.contains(p.x() * k, p.y() * k, p.z() * k) == (s > 0), "contains(x, y, z) of ", show(r), " at ", show(p), " scaled by ", k);
    LonLat ll(p);
    double turns = (g.range(-1, 1)) * 2 * DPI;
    s = f.side(V(p), 4e-15L);
    if (s != 0) REQUIRE(r.contains(ll.getLon().asRadians() + turns, ll.getLat().asRadians()) == (s > 0), "contains(lon, lat) of ", show(r), " at ", show(p));
}
}  // namespace

LAW(circle, 30000, 1000000, 10) { World w(g); Circle r = w.circle(); w.learn(r); checkRegion(g, c, r, w, 6); }
LAW(box, 30000, 1000000, 10) {
    World w(g);
    Box r = w.box();
    w.learn(r);
    checkRegion(g, c, r, w, 6);
    for (int i = 0; i < 4; ++i) {   // contains(LonLat) is the closed coordinate rectangle, exactly
        double lo = w.lon(), la = w.lat();
        if (g.coin() && !r.isEmpty()) {
            double e = g.range(-1, 1);
            lo = g.coin() ? r.getLon().getA().asRadians() : r.getLon().getB().asRadians();
            la = g.coin() ? r.getLat().getA().asRadians() : r.getLat().getB().asRadians();
            if (e) { lo = std::nextafter(lo, lo + e); la = std::nextafter(la, g.coin() ? 2 : -2); }
            if (la > DPI / 2 || la < -DPI / 2) la = std::copysign(0.5 * DPI, la);
        }
        LonLat p = LonLat::fromRadians(lo, la);
        lo = p.getLon().asRadians();
        double A = r.getLon().getA().asRadians(), B = r.getLon().getB().asRadians();
        bool want = !r.isEmpty() && la >= r.getLat().getA().asRadians() && la <= r.getLat().getB().asRadians() &&
                    (A <= B ? (A <= lo && lo <= B) : (lo >= A || lo <= B));
        REQUIRE(r.contains(p) == want, "contains(LonLat ", lo, ", ", la, ") of ", show(r));
        REQUIRE(r.intersects(p) == want && r.isDisjointFrom(p) == !want, "intersects/isDisjointFrom(LonLat)");
    }
}
LAW(ellipse, 60000, 1000000, 10) { World w(g); Ellipse r = w.ellipse(); w.learn(r); checkRegion(g, c, r, w, 6); }
LAW(polygon, 20000, 800000, 10) {
    World w(g);
    ConvexPolygon r = w.polygon();
    w.learn(r);
    checkRegion(g, c, r, w, 6);
    // exactly: on or left of every edge
    auto const & v = r.getVertices();
    for (int i = 0; i < 6; ++i) {
        UnitVector3d p = w.unit();
        if (g.coin()) { std::size_t k = g.below(v.size()); ld t = g.unit(); p = toUnit(V(v[k]) * t + V(v[(k + 1) % v.size()]) * (1 - t)); }
        bool want = true;
        for (std::size_t k = 0; k < v.size(); ++k) if (exact::det(p, v[k], v[(k + 1) % v.size()]) < 0) want = false;
        REQUIRE(r.contains(p) == want, "exact membership of ", show(p), " in ", show(r));
        REQUIRE(r.contains(v[g.below(v.size())]), "a vertex is not in its polygon ", show(r));
    }
}
LAW(compound, 20000, 800000, 10) { World w(g); auto r = w.region(World::COMPOUND | World::SIMPLE); w.learn(*r); checkRegion(g, c, *r, w, 6); }
