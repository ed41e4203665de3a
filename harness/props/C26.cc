// C26: pixel interiors lie within the region.
#include "pixregion.h"

using namespace geo;

char const * const PROPERTY_ID = "C26";
char const * const NONTRIVIAL_RULE =
    "A case is one (region, pixelization, level, maximum range count); non-trivial when the interior is not empty.";

static void check(Gen & g, pbt::Ctx & c, int kinds) {
    World w(g);
    PixCase k = pixCase(g, w, kinds, c.thorough && g.chance(1, 8) ? 6000 : 800);
    Region const & r = *k.region;
    Pix const & p = k.p;
    c.note(p.name(), " level ", p.level, " maxRanges ", k.maxRanges, " ", show(r));
    auto px = p.make();
    RangeSet s = px->interior(r, k.maxRanges);
    RangeSet all = px->universe();
    c.label(k.maxRanges != 0, "limited");
    c.label(s == all, "everything");
    c.label(p.level > 12, "deep level");
    REQUIRE(s.isWithin(all), "interior ", show(s), " has invalid indexes");
    if (k.maxRanges) REQUIRE(s.size() <= k.maxRanges, "interior has ", s.size(), " ranges");
    Ref f = makeRef(r);
    if (!s.empty()) {
        c.nontrivial();
        RangeSet e = px->envelope(r);
        REQUIRE(s.isWithin(e), "interior ", show(s), " has pixels that are not in the envelope ", show(e));
        if (k.maxRanges) {
            RangeSet u = px->interior(r);
            REQUIRE(s.isWithin(u), "the limited interior ", show(s), " has pixels that are not in the unlimited one ", show(u));
        }
        int n = 0;
        for (auto const & t : s) {
            std::uint64_t len = std::get<1>(t) - std::get<0>(t);
            for (std::uint64_t i : {std::get<0>(t), std::get<0>(t) + g.below(len), std::get<1>(t) - 1}) {
                std::vector<V> q = p.vertices(i);
                for (std::size_t j = 0; j < q.size(); ++j) {
                    V a = q[j], b = q[(j + 1) % q.size()];
                    V in = q[0] * g.unit() + q[1] * g.unit() + q[2] * g.unit() + q.back() * (g.unit() + 1e-9L);
                    for (V const & v : {a, (a + b).unit(), (a * g.unit() + b * (g.unit() + 1e-9L)).unit(), in.unit()})
                        REQUIRE(f.side(v, 4e-15L) >= 0, "pixel ", i, " of the interior has a point ", show(toUnit(v)), " outside of the region");
                }
            }
            if (++n > 40) break;
        }
    }
    // clearly contained pixels are found
    if (k.maxRanges || !f.ops.empty() || f.k == Ref::ELLIPSE || f.knownEmpty()) return;
    for (int i = 0; i < 12; ++i) {
        ld m;
        std::uint64_t at = p.index(f.randomPoint(g), m);
        std::vector<V> q = p.vertices(at);
        bool in = true;
        if (f.k == Ref::BOX) for (auto & v : q) in = in && f.side(v, p.size()) > 0;
        else if (f.k == Ref::POLY) for (auto & v : q) in = in && f.side(v, 1e-6L) > 0;
        else if (!f.full && f.r < LPI / 2) for (auto & v : q) in = in && f.side(v, 1e-6L) > 0;
        else if (!f.full) in = distanceTo(q, -f.c) > LPI - f.r + 1e-6L;
        c.label(in, "pixel clearly inside");
        if (in) REQUIRE(s.contains(at), "interior ", show(s), " lacks pixel ", at, ", which is inside the region");
    }
}

LAW(circle, 12000, 400000, 8) { check(g, c, World::CIRCLES); }
LAW(box, 12000, 400000, 8) { check(g, c, World::BOXES); }
LAW(polygon, 12000, 400000, 8) { check(g, c, World::POLYS); }
LAW(ellipse, 8000, 250000, 10) { check(g, c, World::ELLIPSES); }
LAW(compound, 12000, 300000, 8) { check(g, c, World::COMPOUND | World::SIMPLE); }
