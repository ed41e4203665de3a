// C21: every point has exactly one valid pixel, and that pixel contains it.
#include "pix.h"

using namespace geo;

char const * const PROPERTY_ID = "C21";
char const * const NONTRIVIAL_RULE =
    "A case is one pixelization (kind, level) with one point (random, or on or next to a pixel's vertex or edge) or one pixel index; "
    "non-trivial when the level is at least 1 (for the exhaustive area law, always).";

LAW(point_to_pixel, 900000, 4000000, 10) {
    World w(g);
    Pix p = anyPix(g);
    UnitVector3d v = pointOfPixels(g, w, p);
    auto px = p.make();
    c.note(p.name(), " level ", p.level, " point ", show(v));
    std::uint64_t i = px->index(v);
    REQUIRE(p.valid(i), "index ", i, " of ", show(v), " is outside the universe");
    if (p.level > 0) c.nontrivial();
    auto r = px->pixel(i);
    Ref f = makeRef(*r);
    REQUIRE(f.side(V(v), 1e-14L) >= 0, "pixel ", i, " ", show(*r), " does not contain ", show(v));
    REQUIRE(px->universe().contains(i), "universe lacks ", i);
    ld m;
    std::uint64_t want = p.index(V(v), m);
    c.label(m > 1e-14L, "clear of edges");
    if (m > 1e-14L) REQUIRE(i == want, "index of ", show(v), " is ", i, ", by definition ", want);
}

LAW(pixel_to_points, 400000, 2000000, 10) {
    World w(g);
    Pix p = anyPix(g);
    std::uint64_t i = anyIndex(g, p);
    auto px = p.make();
    c.note(p.name(), " level ", p.level, " index ", i);
    if (p.level > 0) c.nontrivial();
    std::vector<V> got = verticesOf(*px->pixel(i)), want = p.vertices(i);
    REQUIRE(got.size() == want.size(), "pixel ", i, " has ", got.size(), " vertices");
    // the same polygon, up to the starting vertex; the polygon may be dilated by a few 1e-15
    bool match = false;
    for (std::size_t s = 0; s < want.size() && !match; ++s) {
        match = true;
        for (std::size_t j = 0; j < want.size(); ++j) match = match && (got[j] - want[(j + s) % want.size()]).norm() < 2e-14L;
    }
    REQUIRE(match, "the vertices of pixel ", i, " are not where its definition puts them");
    for (int k = 0; k < 4; ++k) {
        V q;
        for (auto & v : want) q = q + v * (1e-3L + (k ? g.unit() : 1));
        UnitVector3d u = toUnit(q);
        std::uint64_t j = px->index(u);
        REQUIRE(j == i, "a point ", show(u), " of the inside of pixel ", i, " has index ", j);
    }
    if (p.k == Pix::HTM) REQUIRE(HtmPixelization::triangle(i) == dynamic_cast<ConvexPolygon const &>(*px->pixel(i)), "triangle() and pixel() differ");
    if (p.k == Pix::Q3C) REQUIRE(Q3cPixelization(p.level).quad(i) == dynamic_cast<ConvexPolygon const &>(*px->pixel(i)), "quad() and pixel() differ");
    if (p.k == Pix::MQ3C) REQUIRE(Mq3cPixelization::quad(i) == dynamic_cast<ConvexPolygon const &>(*px->pixel(i)), "quad() and pixel() differ");
}

// Pixels of a level tile the sphere.
LAW(tiling, 300, 600, 20) {
    Pix p = anyPix(g, 4);
    c.note(p.name(), " level ", p.level);
    auto px = p.make();
    c.nontrivial();
    ld sum = 0;
    RangeSet all = px->universe();
    REQUIRE(all == RangeSet(p.first(), p.first() + p.count()), "universe is ", all);
    for (std::uint64_t i = p.first(); i < p.first() + p.count(); ++i) {
        std::vector<V> vs = verticesOf(*px->pixel(i));
        ld a = areaOf(vs);
        REQUIRE(a > 0, "pixel ", i, " has area ", static_cast<double>(a));
        sum += a;
    }
    REQUIRE(fabsl(sum - 4 * LPI) < 1e-10L, "areas sum to ", static_cast<double>(sum));
}
