// C29: chunk searches find every chunk a region touches.
#include "chunks.h"
#include <set>

using namespace geo;

char const * const PROPERTY_ID = "C29";
char const * const NONTRIVIAL_RULE =
    "A case is one configuration and one region, searched for chunks and sub-chunks; non-trivial when the configuration has more than two stripes and the region is neither empty nor full and meets at least one but not all chunks.";

// Whether the region is clearly disjoint from a box: its bounding box is, by
// more than the margins the boxes of chunks have.
static bool clearlyDisjoint(Box const & bounds, Box const & b) {
    Box d = bounds.dilatedBy(Angle(2e-11)); // (all longitudes next to a pole)
    return d.isDisjointFrom(b);
}

LAW(search, 12000, 400000, 5) {
    World w(g);
    Config cfg = config(g, g.chance(1, 4) ? 600 : 120);
    Chunker const ck(cfg.n, cfg.m);
    Layout const L(cfg, ck);
    // features of some chunks
    for (int i = 0; i < 3; ++i) {
        int s = static_cast<int>(g.below(static_cast<std::uint64_t>(cfg.n))), k = L.nc[static_cast<std::size_t>(s)];
        ld lat = g.coin() ? L.latOfStripe(s + static_cast<int>(g.below(2))) : L.latOfSub(s * cfg.m + static_cast<int>(g.below(static_cast<std::uint64_t>(cfg.m) + 1)));
        w.pool.push_back(toUnit(fromLonLat(2 * LPI * g.range(0, k) / k, lat)));
    }
    std::unique_ptr<Region> r;
    switch (g.below(5)) {
        case 0: { // exactly, or nearly, a chunk
            int s = static_cast<int>(g.below(static_cast<std::uint64_t>(cfg.n))), k = L.nc[static_cast<std::size_t>(s)];
            Box b = ck.getChunkBoundingBox(s, static_cast<int>(g.below(static_cast<std::uint64_t>(k))));
            if (g.coin()) b.dilateBy(Angle((g.coin() ? 1 : -1) * g.logUniform(-13, -1)));
            r.reset(new Box(b));
            break;
        }
        case 1: { // about the size of some sub-chunks
            UnitVector3d v = w.unit();
            double a = static_cast<double>(L.h) * g.uniform(0.05, 6);
            if (g.coin()) r.reset(new Circle(v, Angle(std::min(a, DPI)))); else r.reset(new Box(LonLat(v), Angle(std::min(DPI, a * g.uniform(0.5, 3))), Angle(a)));
            break;
        }
        default: r = w.region(w.ANY, 2);
    }
    c.note(cfg.n, " stripes of ", cfg.m, " sub-stripes, ", show(*r));
    Box const bounds = r->getBoundingBox();
    std::vector<std::int32_t> found = ck.getChunksIntersecting(*r);
    std::set<std::int32_t> chunks(found.begin(), found.end());
    REQUIRE(chunks.size() == found.size(), "a chunk is listed more than once");
    for (auto x : chunks) {
        REQUIRE(ck.valid(x), x, " is not a chunk");
        int s = ck.getStripe(x);
        REQUIRE(!clearlyDisjoint(bounds, ck.getChunkBoundingBox(s, ck.getChunk(x, s))), "chunk ", x, " is disjoint from the bounds of the region, ", show(bounds));
    }
    if (auto ci = dynamic_cast<Circle const *>(r.get())) if (!ci->isEmpty() && !ci->isFull()) { // clearly too far away
        Circle d = ci->dilatedBy(Angle(1e-7));
        for (auto x : chunks) { int s = ck.getStripe(x); REQUIRE((d.relate(ck.getChunkBoundingBox(s, ck.getChunk(x, s))) & DISJOINT) == 0, "chunk ", x, " is clearly disjoint from the circle"); }
    }
    std::vector<SubChunks> fine = ck.getSubChunksIntersecting(*r);
    std::map<std::int32_t, std::set<std::int32_t>> subs;
    for (auto & e : fine) {
        REQUIRE(subs.count(e.chunkId) == 0, "chunk ", e.chunkId, " is listed more than once with sub-chunks");
        REQUIRE(ck.valid(e.chunkId), e.chunkId, " is not a chunk");
        std::set<std::int32_t> & u = subs[e.chunkId];
        u.insert(e.subChunkIds.begin(), e.subChunkIds.end());
        REQUIRE(u.size() == e.subChunkIds.size(), "chunk ", e.chunkId, " lists a sub-chunk more than once");
        REQUIRE(!u.empty(), "chunk ", e.chunkId, " is listed without sub-chunks");
        int s = ck.getStripe(e.chunkId), k = ck.getChunk(e.chunkId, s);
        Box cb = ck.getChunkBoundingBox(s, k);
        bool contained = (r->relate(cb) & CONTAINS).any();
        std::size_t total = 0;
        for (int ss = s * cfg.m; ss < (s + 1) * cfg.m; ++ss) {
            int n = L.nsc(ss);
            total += static_cast<std::size_t>(n);
            for (int y = k * n; y < (k + 1) * n; ++y) if (u.count(L.subId(ss, y))) {
                u.erase(L.subId(ss, y));
                if (!contained) REQUIRE(!clearlyDisjoint(bounds, ck.getSubChunkBoundingBox(ss, y)), "sub-chunk ", L.subId(ss, y), " of chunk ", e.chunkId, " is disjoint from the bounds of the region, ", show(bounds));
            }
        }
        REQUIRE(u.empty(), *u.begin(), " is not a sub-chunk of chunk ", e.chunkId);
        u.insert(e.subChunkIds.begin(), e.subChunkIds.end());
        if (contained) REQUIRE(u.size() == total, "chunk ", e.chunkId, " is contained in the region, which touches ", u.size(), " of its ", total, " sub-chunks");
        REQUIRE(chunks.count(e.chunkId) || !clearlyDisjoint(bounds, cb), "chunk ", e.chunkId, " is listed with sub-chunks only");
    }
    // every point of the region is in a chunk and a sub-chunk that are found
    Ref f = makeRef(*r);
    std::vector<UnitVector3d> pts = witnesses(g, f, f, 10);
    for (int i = 0; i < 3; ++i) pts.push_back(w.pool[g.below(w.pool.size())]);
    if (g.coin()) { // points spread over the bounding box
        for (int i = 0; i < 12; ++i) {
            if (bounds.isEmpty()) break;
            ld a = bounds.getLon().getA().asRadians(), sz = bounds.getLon().getSize().asRadians();
            ld la = bounds.getLat().getA().asRadians(), lb = bounds.getLat().getB().asRadians();
            pts.push_back(toUnit(fromLonLat(a + sz * g.unit(), la + (lb - la) * g.unit())));
        }
    }
    bool hit = false;
    for (auto & v : pts) {
        if (!r->contains(v)) continue;
        hit = true;
        ld lon = lonOf(V(v)), lat = latOf(V(v));
        if (lon < 0) lon += 2 * LPI;
        int s = L.stripeOf(lat), k = L.nc[static_cast<std::size_t>(s)];
        // (to a point on an edge either side will do)
        if (nearEdge(lat + LPI / 2, L.h)) continue;
        ld cw = 2 * LPI / k;
        if (k > 1 && nearEdge(lon, cw) ) continue;
        int x = std::min(k - 1, static_cast<int>(floorl(lon / cw)));
        REQUIRE(chunks.count(L.id(s, x)), "chunk ", L.id(s, x), " of ", show(v), ", which is in the region, is not found");
        int ss = L.subStripeOf(lat), n = L.nsc(ss);
        ld sw = cw / n;
        if (k * n > 1 && nearEdge(lon, sw)) continue;
        int y = std::min(k * n - 1, static_cast<int>(floorl(lon / sw)));
        auto it = subs.find(L.id(s, x));
        REQUIRE(it != subs.end() && it->second.count(L.subId(ss, y)), "sub-chunk ", L.subId(ss, y), " of chunk ", L.id(s, x), " of ", show(v), ", which is in the region, is not found");
    }
    std::size_t all = ck.getAllChunks().size();
    if (f.full || (dynamic_cast<Circle const *>(r.get()) && dynamic_cast<Circle const &>(*r).isFull())) REQUIRE(chunks.size() == all, "a full region touches ", chunks.size(), " of ", all, " chunks");
    if (f.knownEmpty() && bounds.isEmpty()) REQUIRE(chunks.empty() && subs.empty(), "an empty region touches chunks");
    if (hit && cfg.n > 2 && !chunks.empty() && chunks.size() < all) c.nontrivial();
}
