// C22: pixel indexes nest hierarchically and names identify pixels.
#include "pix.h"

using namespace geo;

char const * const PROPERTY_ID = "C22";
char const * const NONTRIVIAL_RULE =
    "A case is one point with all levels of one pixelization, one pixel with its children, or one pixel with its name; non-trivial when the "
    "deepest level involved is at least 1 (for the exhaustive name law, always).";

static int levelOf(Pix const & p, std::uint64_t i) { return p.k == Pix::HTM ? HtmPixelization::level(i) : Mq3cPixelization::level(i); }

// The index of a point at one level is a prefix of its index at the next.
LAW(prefix, 300000, 2000000, 10) {
    World w(g);
    Pix p = anyPix(g);
    UnitVector3d v = pointOfPixels(g, w, p);
    c.note(p.name(), " up to level ", p.level, " point ", show(v));
    if (p.level > 0) c.nontrivial();
    std::uint64_t last = p.make()->index(v);
    for (int l = p.level - 1; l >= 0; --l) {
        Pix q(p.k, l);
        std::uint64_t i = q.make()->index(v);
        REQUIRE(i == last >> 2, "index at level ", l, " is ", i, " but at level ", l + 1, " ", last);
        last = i;
    }
}

// A pixel is the union of its children, and level() knows which is which.
LAW(children, 300000, 2000000, 10) {
    Pix p = anyPix(g);
    if (p.level == p.maxLevel()) p.level--;
    Pix q(p.k, p.level + 1);
    std::uint64_t i = anyIndex(g, p);
    c.note(p.name(), " level ", p.level, " index ", i);
    c.nontrivial();
    auto parent = p.make()->pixel(i);
    Ref f = makeRef(*parent);
    ld whole = areaOf(verticesOf(*parent)), sum = 0;
    for (std::uint64_t j = 4 * i; j < 4 * i + 4; ++j) {
        auto child = q.make()->pixel(j);
        std::vector<V> vs = verticesOf(*child);
        for (auto & v : vs) REQUIRE(f.side(v, 2e-14L) >= 0, "child ", j, " is not inside its parent ", i);
        sum += areaOf(vs);
        V m;
        for (auto & v : vs) m = m + v;
        ld margin;
        std::uint64_t at = p.index(m, margin);
        REQUIRE(at == i, "the centre of child ", j, " is in pixel ", at, " of the parent's level");
        if (p.k != Pix::Q3C) REQUIRE(levelOf(q, j) == q.level, "level(", j, ") is ", levelOf(q, j));
    }
    if (p.k != Pix::Q3C) REQUIRE(levelOf(p, i) == p.level, "level(", i, ") is ", levelOf(p, i));
    ld tol = 1e-13L * p.size() + 1e-17L;
    REQUIRE(fabsl(sum - whole) <= tol, "areas of children sum to ", static_cast<double>(sum), ", parent has ", static_cast<double>(whole));
}

LAW(names, 400000, 2000000, 10) {
    Pix p = anyPix(g);
    std::uint64_t i = anyIndex(g, p);
    c.note(p.name(), " level ", p.level, " index ", i);
    if (p.level > 0) c.nontrivial();
    std::string s = p.make()->toString(i), want = p.nameOf(i);
    REQUIRE(s == want, "the name of ", i, " is ", s, ", not ", want);
    if (p.k == Pix::HTM) REQUIRE(HtmPixelization::asString(i) == s, "asString and toString differ");
    if (p.k == Pix::MQ3C) REQUIRE(Mq3cPixelization::asString(i) == s, "asString and toString differ");
}

// Every name of a level, in order.
LAW(all_names, 20, 60, 30) {
    Pix p = anyPix(g, 5);
    c.note(p.name(), " level ", p.level);
    c.nontrivial();
    auto px = p.make();
    std::vector<std::string> names;
    for (std::uint64_t i = p.first(); i < p.first() + p.count(); ++i) {
        names.push_back(px->toString(i));
        REQUIRE(names.back() == p.nameOf(i), "the name of ", i, " is ", names.back(), ", not ", p.nameOf(i));
    }
    std::sort(names.begin(), names.end());
    REQUIRE(std::adjacent_find(names.begin(), names.end()) == names.end(), "two pixels share a name");
}
