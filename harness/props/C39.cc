// C39: searches with regions that together cover the sphere miss no pixel and
// no chunk, regions that do not overlap share no interior pixel, and finer
// searches refine coarser ones.
#include "pixregion.h"
#include "chunks.h"
#include <set>

using namespace geo;

char const * const PROPERTY_ID = "C39";
char const * const NONTRIVIAL_RULE =
    "A case is one family of regions that cover the sphere (or one region at two levels), searched for in one pixelization or chunking; non-trivial "
    "when at least two members have a search result that is neither empty nor everything.";

typedef std::unique_ptr<Region> Ptr;
static Ptr own(Circle const & x) { return Ptr(new Circle(x)); }
static Ptr own(Box const & x) { return Ptr(new Box(x)); }

struct Family {
    std::vector<Ptr> parts;
    bool disjoint = true;     // but for their edges
    double radius = DPI / 2;  // of the largest small circle that bounds the edges' length
    char const * kind = "";
};

static Family family(Gen & g, World & w) {
    Family f;
    bool small = g.coin();
    switch (g.below(6)) {
        case 0: {
            f.kind = "circle and complement";
            Circle k = small ? Circle(w.unit(), Angle(g.logUniform(-9, 0))) : w.circle();
            f.radius = std::max(0.0, std::min(k.getOpeningAngle().asRadians(), DPI - k.getOpeningAngle().asRadians()));
            f.parts.push_back(own(k));
            f.parts.push_back(own(k.complemented()));
            break;
        }
        case 1: {
            f.kind = "ellipse and complement";
            double s = g.logUniform(-8, -0.1);
            Ellipse k = small ? Ellipse(w.unit(), Angle(s), Angle(s * g.uniform(0.01, 1)), Angle(g.uniform(-4, 4))) : w.ellipse();
            double a = std::max(k.getAlpha().asRadians(), k.getBeta().asRadians()), b = std::min(k.getAlpha().asRadians(), k.getBeta().asRadians());
            f.radius = std::max(0.0, std::min(a, DPI - b));
            f.parts.push_back(Ptr(new Ellipse(k)));
            f.parts.push_back(Ptr(new Ellipse(k.complemented())));
            break;
        }
        case 2: {
            f.kind = "box and its surroundings";
            Box k = small ? Box(LonLat(w.unit()), Angle(g.logUniform(-9, -0.5)), Angle(g.logUniform(-9, -0.5))) : w.box();
            if (k.isEmpty() || k.getLon().getSize() >= NormalizedAngle(6.28)) k = Box(NormalizedAngleInterval(NormalizedAngle(5), NormalizedAngle(1)), AngleInterval(Angle(-1), Angle(0.5)));
            Angle a = k.getLat().getA(), b = k.getLat().getB(), q(DPI / 2);
            f.parts.push_back(own(k));
            f.parts.push_back(own(Box(k.getWidth() == NormalizedAngle(0) ? Box::allLongitudes() : NormalizedAngleInterval(k.getLon().getB(), k.getLon().getA()), k.getLat())));
            f.parts.push_back(own(Box(Box::allLongitudes(), AngleInterval(-q, a))));
            f.parts.push_back(own(Box(Box::allLongitudes(), AngleInterval(b, q))));
            // (bands have long edges)
            // a point's "surroundings" overlap nothing but touch everything
            if (k.getWidth() == NormalizedAngle(0)) f.disjoint = false;
            break;
        }
        case 3: {
            f.kind = "polygon and the hemispheres outside its edges";
            ConvexPolygon k = w.polygon();
            if (k.getVertices().size() > 12) k = ConvexPolygon(std::vector<UnitVector3d>{k.getVertices()[0], k.getVertices()[1], k.getVertices()[k.getVertices().size() / 2]});
            auto const & vs = k.getVertices();
            f.parts.push_back(Ptr(new ConvexPolygon(k)));
            for (std::size_t i = 0; i < vs.size(); ++i) {
                V n = robustCross(V(vs[i]), V(vs[(i + 1) % vs.size()]));
                f.parts.push_back(own(Circle(-toUnit(n), Angle(DPI / 2))));
            }
            f.disjoint = false;
            break;
        }
        case 4: {
            f.kind = "grid of boxes";
            std::vector<double> lons{w.lon()}, lats{-DPI / 2};
            int n = g.range(1, 3), m = g.range(0, 2);
            for (int i = 0; i < n; ++i) lons.push_back(w.lon());
            for (int i = 0; i < m; ++i) lats.push_back(w.lat());
            lats.push_back(DPI / 2);
            std::sort(lons.begin(), lons.end());
            std::sort(lats.begin(), lats.end());
            lons.erase(std::unique(lons.begin(), lons.end()), lons.end());
            lats.erase(std::unique(lats.begin(), lats.end()), lats.end());
            for (std::size_t i = 0; i < lons.size(); ++i)
                for (std::size_t j = 0; j + 1 < lats.size(); ++j) {
                    NormalizedAngle a(lons[i]), b(lons[(i + 1) % lons.size()]);
                    NormalizedAngleInterval x = lons.size() == 1 ? Box::allLongitudes() : NormalizedAngleInterval(a, b);
                    f.parts.push_back(own(Box(x, AngleInterval(Angle(lats[j]), Angle(lats[j + 1])))));
                }
            // (2 pi and 0 are the same meridian)
            for (double l : lons) if (l >= 2 * DPI || l == 0) f.disjoint = false;
            break;
        }
        default: {
            f.kind = "three overlapping or touching circles";
            V c = w.randomDirection(), o = orthogonal(c), p = c.cross(o).unit();
            for (int i = 0; i < 3; ++i) { ld t = 2 * LPI * i / 3; f.parts.push_back(own(Circle(toUnit(o * cosl(t) + p * sinl(t)), Angle(DPI / 2 + g.uniform(0, 0.2))))); }
            f.disjoint = false;
        }
    }
    if (f.parts.size() == 2 && g.chance(1, 4)) {   // covered by parts nested in unions
        Ptr u(new UnionRegion(*f.parts[0], *f.parts[1]));
        f.parts.clear();
        f.parts.push_back(std::move(u));
    }
    return f;
}

static Pix pixFor(Gen & g, double radius, double budget) {
    Pix p(static_cast<Pix::Kind>(g.below(3)), 0);
    int top = p.maxLevel();
    while (top > 0 && 2 * DPI * std::sin(std::min(radius, DPI / 2)) * std::ldexp(1, top) > budget) --top;
    p.level = g.coin() ? top : static_cast<int>(g.below(top + 1));
    return p;
}

LAW(pixels, 4000, 120000, 8) {
    World w(g);
    Family f = family(g, w);
    bool shortEdges = f.parts.size() <= 2 && f.radius < DPI / 2;
    Pix p = pixFor(g, shortEdges ? f.radius : DPI / 2, c.thorough && g.chance(1, 8) ? 3000 : 500);
    auto px = p.make();
    std::size_t maxRanges = g.chance(1, 3) ? 1 + g.below(40) : 0;
    c.note(f.kind, " in ", p.name(), " level ", p.level, " maxRanges ", maxRanges);
    c.label(f.kind);
    c.label(p.level > 12, "deep level");
    RangeSet all = px->universe(), seen, in;
    int busy = 0;
    for (auto & r : f.parts) {
        c.note(show(*r));
        RangeSet e = px->envelope(*r, maxRanges), i = px->interior(*r, maxRanges);
        if (!e.empty() && e != all) ++busy;
        seen |= e;
        if (f.disjoint) REQUIRE(!i.intersects(in), "pixels ", show(i & in), " are in the interiors of two regions that do not overlap, the second ", show(*r));
        in |= i;
        REQUIRE(i.isWithin(e), "interior ", show(i), " has pixels that are not in the envelope ", show(e), " of ", show(*r));
    }
    if (busy > 1) c.nontrivial();
    REQUIRE(seen == all, "pixels ", show(all - seen), " are in the envelope of none of the regions, which together cover the sphere");
}

LAW(chunks, 6000, 200000, 8) {
    World w(g);
    Family f = family(g, w);
    Config k = config(g, 24);
    Chunker ck(k.n, k.m);
    c.note(f.kind, " in ", k.n, " stripes of ", k.m);
    c.label(f.kind);
    std::set<std::int32_t> seen, all;
    std::set<std::pair<std::int32_t, std::int32_t>> seenSub, allSub;
    for (auto id : ck.getAllChunks()) {
        all.insert(id);
        for (auto s : ck.getAllSubChunks(id)) allSub.emplace(id, s);
    }
    int busy = 0;
    for (auto & r : f.parts) {
        c.note(show(*r));
        auto ids = ck.getChunksIntersecting(*r);
        for (auto id : ids) { REQUIRE(all.count(id), "chunk ", id, " does not exist"); REQUIRE(ck.valid(id), "chunk ", id, " is not valid"); }
        std::set<std::int32_t> mine(ids.begin(), ids.end());
        REQUIRE(mine.size() == ids.size(), "a chunk is listed twice for ", show(*r));
        if (!mine.empty() && mine != all) ++busy;
        seen.insert(mine.begin(), mine.end());
        for (auto & s : ck.getSubChunksIntersecting(*r)) {
            REQUIRE(mine.count(s.chunkId), "sub-chunks of chunk ", s.chunkId, " are found but not the chunk, for ", show(*r));
            for (auto i : s.subChunkIds) {
                REQUIRE(allSub.count({s.chunkId, i}), "sub-chunk ", i, " of chunk ", s.chunkId, " does not exist");
                seenSub.emplace(s.chunkId, i);
            }
        }
    }
    if (busy > 1) c.nontrivial();
    for (auto id : all) REQUIRE(seen.count(id), "chunk ", id, " is found for none of the regions, which together cover the sphere");
    for (auto & s : allSub) REQUIRE(seenSub.count(s), "sub-chunk ", s.second, " of chunk ", s.first, " is found for none of the regions, which together cover the sphere");
}

// A finer search finds children of what the coarser one found.
LAW(levels, 6000, 200000, 8) {
    World w(g);
    PixCase k = pixCase(g, w, World::ANY, c.thorough && g.chance(1, 8) ? 3000 : 500);
    Region const & r = *k.region;
    int lo = k.p.level > 0 ? static_cast<int>(g.below(k.p.level)) : 0;
    if (g.coin()) lo = std::max(0, k.p.level - 1);
    Pix q(k.p.k, lo);
    c.note(q.name(), " levels ", lo, " and ", k.p.level, " ", show(r));
    auto coarse = q.make(), fine = k.p.make();
    std::uint64_t f = 1ULL << (2 * (k.p.level - lo));
    RangeSet e0 = coarse->envelope(r), e1 = fine->envelope(r), i0 = coarse->interior(r), i1 = fine->interior(r);
    if (!e1.empty() && e1 != fine->universe()) c.nontrivial();
    REQUIRE(coarse->universe().scaled(f) == fine->universe(), "the universes of levels ", lo, " and ", k.p.level, " differ");
    REQUIRE(e1.isWithin(e0.scaled(f)), "the envelope ", show(e1), " of level ", k.p.level, " reaches beyond that of level ", lo, ", ", show(e0));
    REQUIRE(i0.scaled(f).isWithin(i1), "the interior ", show(i1), " of level ", k.p.level, " lacks part of that of level ", lo, ", ", show(i0));
}

// A box is found where the two halves that it is cut into are found.
LAW(cuts, 6000, 200000, 8) {
    World w(g);
    Config k = config(g, 24);
    Chunker ck(k.n, k.m);
    Box b = w.box();
    if (g.coin()) {   // all longitudes but for a gap
        double l = w.lon(), d = g.coin() ? g.logUniform(-12, 0) : 2 * DPI / (4 * k.n) * g.unit();
        NormalizedAngle x = LonLat::fromRadians(l, 0).getLon(), y = LonLat::fromRadians(l - d, 0).getLon();
        b = Box(NormalizedAngleInterval(x, y), AngleInterval(Angle(std::min(w.lat(), 0.5)), Angle(g.uniform(0.5, 1.5))));
    }
    if (b.isEmpty()) DISCARD("empty box");
    NormalizedAngleInterval lon = b.getLon(), l1 = lon, l2 = lon;
    AngleInterval lat = b.getLat(), t1 = lat, t2 = lat;
    bool byLat = g.chance(1, 3);
    if (byLat) {
        Angle cut = lat.getA() + (lat.getB() - lat.getA()) * g.unit();
        if (g.chance(1, 3)) cut = Angle(DPI / (k.n * k.m)) * std::floor((cut.asRadians() + DPI / 2) / (DPI / (k.n * k.m))) - Angle(DPI / 2);
        if (!(cut >= lat.getA()) || !(cut <= lat.getB())) DISCARD("cut outside");
        t1 = AngleInterval(lat.getA(), cut);
        t2 = AngleInterval(cut, lat.getB());
    } else {
        NormalizedAngle cut = LonLat::fromRadians(lon.getA().asRadians() + lon.getSize().asRadians() * g.unit(), 0).getLon();
        if (!lon.contains(cut)) DISCARD("cut outside");
        l1 = NormalizedAngleInterval(lon.getA(), cut);
        l2 = NormalizedAngleInterval(cut, lon.getB());
        // (the interval from a to a is a point, not everything)
        if (!(l1.getSize() <= lon.getSize()) || !(l2.getSize() <= lon.getSize())) DISCARD("degenerate half");
        if (std::fabs(l1.getSize().asRadians() + l2.getSize().asRadians() - lon.getSize().asRadians()) > 1e-9) DISCARD("degenerate half");
    }
    Box x(l1, t1), y(l2, t2);
    c.note(k.n, " stripes of ", k.m, " ", show(b), " cut into ", show(x), " and ", show(y));
    c.label(byLat, "by latitude");
    c.label(lon.wraps(), "wraps");
    auto chunks = [&](Box const & q) { auto v = ck.getChunksIntersecting(q); return std::set<std::int32_t>(v.begin(), v.end()); };
    auto subs = [&](Box const & q) {
        std::set<std::pair<std::int32_t, std::int32_t>> s;
        for (auto & e : ck.getSubChunksIntersecting(q)) for (auto i : e.subChunkIds) s.emplace(e.chunkId, i);
        return s;
    };
    auto cw = chunks(b), c1 = chunks(x), c2 = chunks(y);
    auto sw = subs(b), s1 = subs(x), s2 = subs(y);
    if (c1 != c2) c.nontrivial();
    for (auto i : c1) REQUIRE(cw.count(i), "chunk ", i, " is found for a part of ", show(b), " but not for the box");
    for (auto i : c2) REQUIRE(cw.count(i), "chunk ", i, " is found for a part of ", show(b), " but not for the box");
    for (auto i : s1) REQUIRE(sw.count(i), "sub-chunk ", i.second, " of chunk ", i.first, " is found for a part of ", show(b), " but not for the box");
    for (auto i : s2) REQUIRE(sw.count(i), "sub-chunk ", i.second, " of chunk ", i.first, " is found for a part of ", show(b), " but not for the box");
    // Searches look slightly (5e-12) beyond a region, and chunks are slightly
    // larger than what they stand for, so what the whole finds is found by
    // halves that are slightly larger. (Near a pole "slightly" in longitude
    // can be anything.)
    Angle h(1e-10);
    double ml = std::max(std::fabs(lat.getA().asRadians()), std::fabs(lat.getB().asRadians())) + 1e-10;
    if (ml > DPI / 2 - 1e-6) return;
    Angle wd(4 * 1e-10 / std::cos(ml));
    x.dilateBy(wd, h);
    y.dilateBy(wd, h);
    c1 = chunks(x); c2 = chunks(y); s1 = subs(x); s2 = subs(y);
    c1.insert(c2.begin(), c2.end());
    s1.insert(s2.begin(), s2.end());
    for (auto i : cw) REQUIRE(c1.count(i), "chunk ", i, " is found for ", show(b), " but for none of its parts");
    for (auto i : sw) REQUIRE(s1.count(i), "sub-chunk ", i.second, " of chunk ", i.first, " is found for ", show(b), " but for none of its parts");
}
