// C25: pixel envelopes cover the region.
#include "pixregion.h"

using namespace geo;

char const * const PROPERTY_ID = "C25";
char const * const NONTRIVIAL_RULE =
    "A case is one (region, pixelization, level, maximum range count); non-trivial when the envelope is neither empty nor everything, or a "
    "range limit applies.";

static void check(Gen & g, pbt::Ctx & c, int kinds) {
    World w(g);
    PixCase k = pixCase(g, w, kinds, c.thorough && g.chance(1, 8) ? 6000 : 800);
    Region const & r = *k.region;
    Pix const & p = k.p;
    c.note(p.name(), " level ", p.level, " maxRanges ", k.maxRanges, " ", show(r));
    auto px = p.make();
    RangeSet e = px->envelope(r, k.maxRanges);
    RangeSet all = px->universe();
    if ((!e.empty() && e != all) || k.maxRanges) c.nontrivial();
    c.label(k.maxRanges != 0, "limited");
    c.label(e.empty(), "empty");
    c.label(e == all, "everything");
    c.label(p.level > 12, "deep level");
    REQUIRE(e.isWithin(all), "envelope ", show(e), " has invalid indexes");
    if (k.maxRanges) REQUIRE(e.size() <= k.maxRanges, "envelope has ", e.size(), " ranges");
    // every point of the region is covered
    Ref f = makeRef(r);
    std::vector<UnitVector3d> pts = witnesses(g, f, f, 20);
    std::vector<V> vs;
    f.vertices(vs);
    for (auto & v : vs) for (int i = 0; i < 2; ++i) pts.push_back(toUnit(toward(v, w.randomDirection(), g.logUniform(-15, 0))));
    // and of some pixels' corners and insides near it
    for (int i = 0; i < 6; ++i) {
        ld m;
        V q = f.randomPoint(g);
        std::uint64_t at = p.index(q, m);
        for (auto & v : p.vertices(at)) { pts.push_back(toUnit(v)); pts.push_back(toUnit(toward(v, q, g.logUniform(-15, -1) * static_cast<double>(p.size())))); }
    }
    long in = 0;
    for (auto & v : pts) {
        if (!surelyIn(r, f, v)) continue;
        ++in;
        std::uint64_t i = px->index(v);
        REQUIRE(e.contains(i), "envelope ", show(e), " lacks pixel ", i, " of ", show(v), ", which is in the region");
    }
    c.label(in > 0, "points found");
    if (k.maxRanges) {
        RangeSet u = px->envelope(r);
        REQUIRE(u.isWithin(e), "the limited envelope ", show(e), " lacks pixels of the unlimited one ", show(u));
        return;
    }
    // no pixel clearly away from a simple region
    if (!f.ops.empty() || f.knownEmpty()) return;
    Circle bc = r.getBoundingCircle();
    ld rad = bc.getOpeningAngle().asRadians();
    int n = 0;
    for (auto const & t : e) {
        for (std::uint64_t i : {std::get<0>(t), std::get<0>(t) + (std::get<1>(t) - std::get<0>(t)) / 2, std::get<1>(t) - 1}) {
            std::vector<V> q = p.vertices(i);
            V m;
            for (auto & v : q) m = m + v;
            m = m.unit();
            ld d = angleBetween(m, V(bc.getCenter()));
            // (the bounding box of a pixel at a pole spans all longitudes)
            if (f.k != Ref::BOX) REQUIRE(d <= rad + p.size() + 1e-6L, "pixel ", i, " is ", static_cast<double>(d), " away from the centre of the region");
            if (f.k == Ref::CIRCLE && !f.full) {
                ld s = distanceTo(q, f.c);
                REQUIRE(s <= f.r + 1e-6L, "pixel ", i, " is ", static_cast<double>(s), " away from the centre of the circle");
            } else if (f.k == Ref::BOX) {
                ld l = latOf(m);
                REQUIRE(l <= f.latB + p.size() + 1e-6L && l >= f.latA - p.size() - 1e-6L, "pixel ", i, " at latitude ", static_cast<double>(l));
            } else if (f.k == Ref::POLY) {
                for (std::size_t j = 0; j < q.size() + f.ns.size(); ++j) {
                    bool mine = j < q.size();
                    V nrm = mine ? robustCross(q[j], q[(j + 1) % q.size()]).unit() : f.ns[j - q.size()];
                    ld best = -1;
                    for (auto & v : mine ? f.vs : q) best = std::max(best, nrm.dot(v));
                    REQUIRE(best >= -1e-6L, "pixel ", i, " is separated from the polygon by an edge");
                }
            }
        }
        if (++n > 60) break;
    }
}

LAW(circle, 12000, 400000, 8) { check(g, c, World::CIRCLES); }
LAW(box, 12000, 400000, 8) { check(g, c, World::BOXES); }
LAW(polygon, 12000, 400000, 8) { check(g, c, World::POLYS); }
LAW(ellipse, 8000, 250000, 10) { check(g, c, World::ELLIPSES); }
LAW(compound, 12000, 300000, 8) { check(g, c, World::COMPOUND | World::SIMPLE); }
