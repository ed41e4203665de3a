// C28: chunks and sub-chunks tile the sphere.
#include "chunks.h"
#include <limits>
#include <set>

using namespace geo;

char const * const PROPERTY_ID = "C28";
char const * const NONTRIVIAL_RULE =
    "A case is one configuration (stripes, sub-stripes per stripe) with some of its chunks, or with a point; non-trivial when it has more than one chunk and the chunk or point is not in a polar stripe, or the configuration is an invalid one.";

static ld const TOL = 1e-12L;

// The number of segments of width at least W that fit: exactly known unless
// the ratio is close to an integer (the width of narrow stripes is computed
// with a relative error near 2^-52 / H^2).
static void checkSegments(long n, ld lo, ld hi, ld h, char const * what, int i) {
    ld lat = std::max(fabsl(lo), fabsl(hi));
    // (within an arc second of a pole one segment is used)
    if (lat > LPI / 2 - 4.85e-6L - 1e-9L) { if (lat > LPI / 2 - 4.85e-6L + 1e-9L) REQUIRE(n == 1, what, " ", i, " at a pole has ", n, " segments"); else REQUIRE(n >= 1, what); return; }
    ld q = 2 * LPI / minWidth(lo, hi, h);
    ld d = q * (1e-12L + 4e-15L / (h * h));
    REQUIRE(static_cast<ld>(n) >= floorl(q - d) && static_cast<ld>(n) <= floorl(q + d), what, " ", i, " of height ", double(h), " has ", n, " segments, expected ", double(q));
}

LAW(layout, 1500, 60000, 8) {
    Config cfg = config(g, c.thorough ? 20000 : 3000);
    c.note(cfg.n, " stripes of ", cfg.m, " sub-stripes");
    Chunker const ck(cfg.n, cfg.m);
    REQUIRE(ck.getNumStripes() == cfg.n && ck.getNumSubStripesPerStripe() == cfg.m, "accessors");
    REQUIRE(ck == Chunker(cfg.n, cfg.m) && !(ck != Chunker(cfg.n, cfg.m)) && !(ck == Chunker(cfg.n + 1, cfg.m)) && ck != Chunker(cfg.n, cfg.m + 1), "equality");
    Layout const L(cfg, ck);
    // all chunks, in order, each once
    std::vector<std::int32_t> all = ck.getAllChunks();
    std::size_t at = 0;
    for (int s = 0; s < cfg.n; ++s) {
        int k = L.nc[static_cast<std::size_t>(s)];
        REQUIRE(k >= 1 && k <= 2 * cfg.n, "stripe ", s, " has ", k, " chunks");
        for (int x = 0; x < k; ++x, ++at) REQUIRE(at < all.size() && all[at] == L.id(s, x), "chunk ", x, " of stripe ", s, " is not listed in its place");
        checkSegments(k, L.latOfStripe(s), L.latOfStripe(s + 1), L.H, "stripe", s);
    }
    REQUIRE(at == all.size(), "more chunks are listed than there are");
    if (all.size() > 1) c.nontrivial();
    // validity
    std::set<std::int32_t> in(all.begin(), all.end());
    for (int i = 0; i < 24; ++i) {
        std::int32_t x = all[g.below(all.size())];
        if (i % 3 == 1) x += g.range(-3, 3); else if (i % 3 == 2) x = g.coin() ? g.range(-5, 2 * cfg.n * std::min(cfg.n, 10000) + 5) : static_cast<std::int32_t>(g.u64());
        REQUIRE(ck.valid(x) == (in.count(x) > 0), "valid(", x, ") is ", ck.valid(x));
        if (in.count(x)) {
            int s = ck.getStripe(x), k = ck.getChunk(x, s);
            REQUIRE(s >= 0 && s < cfg.n && k >= 0 && k < L.nc[static_cast<std::size_t>(s)] && L.id(s, k) == x, "chunk ", x, " is said to be number ", k, " in stripe ", s);
        }
    }
    // sub-chunks of some chunks, each once
    for (int i = 0; i < 3; ++i) {
        std::int32_t x = all[g.below(all.size())];
        int s = ck.getStripe(x), k = ck.getChunk(x, s), cnt = L.nc[static_cast<std::size_t>(s)];
        checkBox(ck.getChunkBoundingBox(s, k), 2 * LPI * k / cnt, 2 * LPI * (k + 1) / cnt, L.latOfStripe(s), L.latOfStripe(s + 1), "chunk", s, k);
        std::vector<std::int32_t> sub = ck.getAllSubChunks(x);
        std::size_t j = 0;
        for (int ss = s * cfg.m; ss < (s + 1) * cfg.m; ++ss) {
            int n = L.nsc(ss);
            // (as many as chunks of that height would have, in whole chunks)
            ld lo = L.latOfSub(ss), hi = L.latOfSub(ss + 1), lat = std::max(fabsl(lo), fabsl(hi));
            if (lat < LPI / 2 - 5e-6L) {
                ld q = 2 * LPI / minWidth(lo, hi, L.h), d = q * (1e-12L + 4e-15L / (L.h * L.h));
                REQUIRE(n >= static_cast<long>(floorl(q - d)) / cnt && n <= static_cast<long>(floorl(q + d)) / cnt, "sub-stripe ", ss, " has ", n, " sub-chunks per chunk, expected ", double(q / cnt));
            }
            for (int y = 0; y < n; ++y, ++j) REQUIRE(j < sub.size() && sub[j] == L.subId(ss, k * n + y), "sub-chunk ", y, " of sub-stripe ", ss, " of chunk ", x, " is not listed as ", L.subId(ss, k * n + y));
            int y = k * n + static_cast<int>(g.below(static_cast<std::uint64_t>(n)));
            ld w = 2 * LPI / (static_cast<ld>(n) * cnt);
            checkBox(ck.getSubChunkBoundingBox(ss, y), w * y, w * (y + 1), lo, hi, "sub-chunk", ss, y);
        }
        REQUIRE(j == sub.size(), "chunk ", x, " lists ", sub.size(), " sub-chunks, of which ", j, " exist");
        std::set<std::int32_t> u(sub.begin(), sub.end());
        REQUIRE(u.size() == sub.size() && *u.begin() >= 0, "sub-chunk ids of chunk ", x, " are not distinct");
        for (std::int32_t bad : {-1 - static_cast<std::int32_t>(g.below(100)), 2 * cfg.n * cfg.n + static_cast<std::int32_t>(g.below(100))}) REQUIRE(!ck.valid(bad), bad, " is valid");
    }
}

LAW(points, 200000, 6000000, 3) {
    World w(g);
    Config cfg = config(g, 600);
    Chunker const ck(cfg.n, cfg.m);
    Layout const L(cfg, ck);
    UnitVector3d v;
    if (g.chance(1, 3)) { // on or near an edge
        int ss = static_cast<int>(g.below(static_cast<std::uint64_t>(cfg.n) * static_cast<std::uint64_t>(cfg.m) + 1)), s = std::min(ss / cfg.m, cfg.n - 1);
        int k = L.nc[static_cast<std::size_t>(s)];
        double lat = static_cast<double>(L.latOfSub(ss)) + g.pick({0.0, 1e-15, -1e-15, 1e-13, -1e-13, 1e-9, -1e-9});
        double lon = 2 * DPI * g.range(0, k) / k + g.pick({0.0, 1e-15, -1e-15, 1e-12, -1e-9, 0.1});
        v = UnitVector3d(LonLat::fromRadians(lon, std::max(-DPI / 2, std::min(DPI / 2, lat))));
    } else v = w.unit();
    ld lon = lonOf(V(v)), lat = latOf(V(v));
    if (lon < 0) lon += 2 * LPI;
    c.note(cfg.n, " stripes of ", cfg.m, " sub-stripes, ", show(v));
    int s = L.stripeOf(lat), ss = L.subStripeOf(lat), k = L.nc[static_cast<std::size_t>(s)];
    if (s > 0 && s < cfg.n - 1) c.nontrivial();
    int x = std::min(k - 1, static_cast<int>(floorl(lon * k / (2 * LPI))));
    REQUIRE(ck.getChunkBoundingBox(s, x).contains(v), "the point is not in the box of chunk ", x, " of stripe ", s);
    int k2 = L.nc[static_cast<std::size_t>(ss / cfg.m)], n = L.nsc(ss);
    int y = std::min(k2 * n - 1, static_cast<int>(floorl(lon * (static_cast<ld>(k2) * n) / (2 * LPI))));
    REQUIRE(ck.getSubChunkBoundingBox(ss, y).contains(v), "the point is not in the box of sub-chunk ", y, " of sub-stripe ", ss);
    // boxes of other chunks reach it only if it is at their edge
    ld margin = CHUNK_EPS + 1e-15L;
    for (int t = 0; t < 12; ++t) {
        int s2 = t < 6 ? std::max(0, std::min(cfg.n - 1, s + g.range(-1, 1))) : g.range(0, cfg.n - 1);
        int kk = L.nc[static_cast<std::size_t>(s2)];
        int x2 = t < 8 ? static_cast<int>(((static_cast<int>(floorl(lon * kk / (2 * LPI))) + g.range(-1, 1)) % kk + kk) % kk) : static_cast<int>(g.below(static_cast<std::uint64_t>(kk)));
        bool inLat = lat >= L.latOfStripe(s2) - margin && lat <= L.latOfStripe(s2 + 1) + margin;
        ld e = cosl(std::min(LPI / 2, fabsl(lat) + 2 * margin)) > margin ? asinl(std::min(1.0L, margin / cosl(std::min(LPI / 2, std::max(fabsl(L.latOfStripe(s2)), fabsl(L.latOfStripe(s2 + 1))) + 2 * margin)))) : LPI;
        if (!(e >= 0)) e = LPI;
        if (std::max(fabsl(L.latOfStripe(s2)), fabsl(L.latOfStripe(s2 + 1))) > LPI / 2 - 2 * margin) e = LPI;
        ld d = lon - 2 * LPI * (x2 + 0.5L) / kk;
        d -= 2 * LPI * roundl(d / (2 * LPI));
        bool inLon = fabsl(d) <= LPI / kk + e;
        if (!(inLat && inLon)) REQUIRE(!ck.getChunkBoundingBox(s2, x2).contains(v), "the point is in the box of chunk ", x2, " of stripe ", s2, " as well");
    }
}

LAW(invalid, 10000, 200000, 10) {
    std::int32_t n, m;
    auto any = [&]() -> std::int32_t { switch (g.below(6)) { case 0: return g.range(-3, 3); case 1: return static_cast<std::int32_t>(g.u64()); case 2: return static_cast<std::int32_t>(std::uint32_t(1) << g.below(32)); case 3: return std::numeric_limits<std::int32_t>::max() - g.range(0, 2); case 4: return static_cast<std::int32_t>(g.logUniform(0, 9)); default: return g.range(1, 50); } };
    n = any();
    m = any();
    if (g.chance(1, 4) && n > 0) m = static_cast<std::int32_t>((std::int64_t(1) << 32) / n + g.range(-2, 2)); // products that wrap
    if (g.chance(1, 4) && n > 0) m = 648000 / n + g.range(-1, 1);
    c.note(n, " stripes of ", m, " sub-stripes");
    std::int64_t p = static_cast<std::int64_t>(n) * m;
    bool bad = n < 1 || m < 1 || p > 648000;
    if (!bad && p > 20000 && !g.chance(1, 60)) DISCARD("slow");
    // ids beyond 32 bits
    bool many = !bad && static_cast<std::int64_t>(n) * n * 2 - 1 > std::numeric_limits<std::int32_t>::max();
    bool doubtful = !bad && static_cast<std::int64_t>(m) * m * 7 > std::numeric_limits<std::int32_t>::max();
    bool threw = false;
    try {
        Chunker ck(n, m);
        if (!bad && !many) {
            for (int i = 0; i < 3; ++i) {
                int s = static_cast<int>(g.below(static_cast<std::uint64_t>(n)));
                std::int64_t id = static_cast<std::int64_t>(s) * 2 * n;
                REQUIRE(ck.valid(static_cast<std::int32_t>(id)) && ck.getStripe(static_cast<std::int32_t>(id)) == s, "id ", id);
                if (static_cast<std::int64_t>(m) * m > 2000000) break; // (too many to list)
                std::vector<std::int32_t> sub = ck.getAllSubChunks(static_cast<std::int32_t>(id));
                REQUIRE(std::is_sorted(sub.begin(), sub.end()) && sub.front() == 0 && sub.back() >= 0 && std::adjacent_find(sub.begin(), sub.end()) == sub.end(), "sub-chunk ids overflow");
            }
        }
    } catch (std::runtime_error const &) { threw = true; }
    if (bad || many) { c.nontrivial(); REQUIRE(threw, "an invalid configuration is accepted"); }
    else if (!doubtful) REQUIRE(!threw, "a valid configuration is rejected");
}
