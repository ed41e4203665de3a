// C11: a relationship reported between two regions is true of their points.
#include "geo.h"

using namespace geo;

char const * const PROPERTY_ID = "C11";
char const * const NONTRIVIAL_RULE =
    "A case is a pair of regions, the second often built to nearly touch the first, with up to ~100 witness points where the two "
    "are likely to disagree (extremes of each along the other's features, vertices, random and displaced points); non-trivial when "
    "relate() reports CONTAINS, WITHIN or DISJOINT for two non-empty regions, so that there is a claim to refute.";

namespace {
ld const TOL = 1e-14L;

void checkPair(Gen & g, pbt::Ctx & c, Region const & a, Region const & b, int nRandom) {
    Relationship r = a.relate(b);
    bool contains = (r & CONTAINS).any(), within = (r & WITHIN).any(), disjoint = (r & DISJOINT).any();
    c.note("a=", show(a), " b=", show(b), " relate=", r);
    c.label(contains, "CONTAINS");
    c.label(within, "WITHIN");
    c.label(disjoint, "DISJOINT");
    if (r.none()) { c.label("no claim"); return; }
    Ref fa = makeRef(a), fb = makeRef(b);
    bool ea = fa.knownEmpty(), eb = fb.knownEmpty();
    c.label(ea || eb, "an empty region");
    if (!ea && !eb) c.nontrivial();
    for (auto const & p : witnesses(g, fa, fb, nRandom)) {
        V v(p);
        int sa = fa.side(v, TOL), sb = fb.side(v, TOL);
        bool ia = a.contains(p), ib = b.contains(p);
        if (contains) REQUIRE(!(sa < 0 && (sb > 0 || ib)), show(a), " is said to contain ", show(b), " but not its point ", show(p));
        if (within) REQUIRE(!(sb < 0 && (sa > 0 || ia)), show(a), " is said to be within ", show(b), " which lacks its point ", show(p));
        if (disjoint) REQUIRE(!((sa > 0 && (sb > 0 || ib)) || (sb > 0 && ia)), show(a), " is said to be disjoint from ", show(b), " but both contain ", show(p));
    }
}
void pair(Gen & g, pbt::Ctx & c, int ka, int kb, int nRandom = 5) {
    World w(g);
    auto a = w.region(ka);
    c.note("first=", show(*a));
    auto b = g.chance(2, 3) ? w.relatedTo(*a, kb) : w.region(kb);
    if (g.coin()) checkPair(g, c, *a, *b, nRandom); else checkPair(g, c, *b, *a, nRandom);
}
}  // namespace

LAW(box_box, 20000, 800000, 5) { pair(g, c, World::BOXES, World::BOXES); }
LAW(box_circle, 25000, 900000, 5) { pair(g, c, World::BOXES, World::CIRCLES); }
LAW(box_polygon, 20000, 700000, 5) { pair(g, c, World::BOXES, World::POLYS); }
LAW(circle_circle, 20000, 700000, 5) { pair(g, c, World::CIRCLES, World::CIRCLES); }
LAW(circle_polygon, 20000, 700000, 5) { pair(g, c, World::CIRCLES, World::POLYS); }
LAW(polygon_polygon, 20000, 700000, 5) { pair(g, c, World::POLYS, World::POLYS); }
LAW(ellipse_any, 15000, 500000, 5) { pair(g, c, World::ELLIPSES, World::ANY); }
LAW(compound_any, 15000, 500000, 5) { pair(g, c, World::COMPOUND, World::ANY); }
