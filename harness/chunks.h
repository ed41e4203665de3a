// A model of the layout of a chunker, from its documentation and its boxes.
#ifndef VERIF_CHUNKS_H_
#define VERIF_CHUNKS_H_
#include <map>
#include "geo.h"
#include "lsst/sphgeom/Chunker.h"

namespace geo {

// How far the boxes reach beyond the nominal bounds of a chunk (in the
// implementation 5e-12), and how far a point must be from an edge to be
// clearly on one side of it.
static ld const CHUNK_EPS = 1e-11L;

struct Config { int n = 1, m = 1; };

inline Config config(Gen & g, long maxSub) {
    Config c;
    switch (g.below(6)) {
        case 0: c.n = g.range(1, 6); break;
        case 1: c.n = g.pick({1, 2, 3, 4, 18, 60, 85, 90, 180, 340}); break;
        case 2: c.n = static_cast<int>(g.logUniform(0, std::log10(static_cast<double>(maxSub)))); break;
        default: c.n = g.range(1, 60);
    }
    c.n = std::max(1, std::min<int>(c.n, static_cast<int>(std::min(maxSub, 32768L))));
    int top = static_cast<int>(std::max(1L, maxSub / c.n));
    switch (g.below(4)) {
        case 0: c.m = g.range(1, 4); break;
        case 1: c.m = static_cast<int>(g.logUniform(0, std::log10(top + 0.5))); break;
        default: c.m = g.range(1, 20);
    }
    c.m = std::max(1, std::min(c.m, top));
    return c;
}

inline bool nearEdge(ld x, ld width) { ld q = x / width; return fabsl(q - roundl(q)) * width < CHUNK_EPS; }

// The width W of chunks: points at the extreme latitude of the stripe that are
// W apart in longitude are H apart.
inline ld minWidth(ld lo, ld hi, ld h) {
    ld lat = std::max(fabsl(lo), fabsl(hi));
    ld c = cosl(lat);
    if (lat > LPI / 2 - 1e-12L) return 2 * LPI;
    ld s = sinl(h / 2) / c;
    return s >= 1 ? LPI : 2 * asinl(s);
}

struct Layout {
    Config cfg;
    Chunker const & ck;
    ld H, h;
    std::vector<int> nc;                 // chunks of each stripe
    mutable std::map<int, int> nscCache; // sub-chunks per chunk of sub-stripes
    mutable int M = -1;

    Layout(Config c, Chunker const & k) : cfg(c), ck(k), H(LPI / c.n), h(LPI / (static_cast<ld>(c.n) * c.m)), nc(static_cast<std::size_t>(c.n), 0) {
        for (std::int32_t id : ck.getAllChunks()) {
            REQUIRE(id >= 0 && id / (2 * c.n) < c.n, "getAllChunks() has the invalid id ", id);
            ++nc[static_cast<std::size_t>(id / (2 * c.n))];
        }
    }
    std::int32_t id(int s, int c) const { return static_cast<std::int32_t>(static_cast<std::int64_t>(s) * 2 * cfg.n + c); }
    ld latOfStripe(int s) const { return s * H - LPI / 2; }
    ld latOfSub(int ss) const { return ss * h - LPI / 2; }
    int stripeOf(ld lat) const { return std::max(0, std::min(cfg.n - 1, static_cast<int>(floorl((lat + LPI / 2) / H)))); }
    int subStripeOf(ld lat) const { return std::max(0, std::min(cfg.n * cfg.m - 1, static_cast<int>(floorl((lat + LPI / 2) / h)))); }
    // The number of sub-chunks of a chunk in a sub-stripe, as its boxes show.
    int nsc(int ss) const {
        auto it = nscCache.find(ss);
        if (it != nscCache.end()) return it->second;
        Box b = ck.getSubChunkBoundingBox(ss, 0);
        int k = nc[static_cast<std::size_t>(ss / cfg.m)], r;
        if (b.getLon().isFull()) r = 1;
        else {
            // the box [-e, w + e] dilated from [0, w]
            ld e = 2 * LPI - static_cast<ld>(b.getLon().getA().asRadians());
            ld w = static_cast<ld>(b.getLon().getB().asRadians()) - (e > LPI ? 0 : e);
            r = static_cast<int>(lroundl(2 * LPI / w / k));
        }
        REQUIRE(r >= 1, "sub-stripe ", ss, " has no sub-chunks");
        nscCache[ss] = r;
        return r;
    }
    int maxNsc() const {
        if (M < 0) for (int ss = 0; ss < cfg.n * cfg.m; ++ss) M = std::max(M, nsc(ss));
        return M;
    }
    std::int32_t subId(int ss, int sc) const {
        int k = nsc(ss);
        return (ss % cfg.m) * maxNsc() + sc % k;
    }
};

// Whether a box covers nominal bounds and goes at most slightly beyond them.
inline void checkBox(Box const & b, ld lonA, ld lonB, ld latA, ld latB, char const * what, int i, int j) {
    ld la = b.getLat().getA().asRadians(), lb = b.getLat().getB().asRadians();
    REQUIRE(la <= std::max(latA - 1e-13L, -LPI / 2 + 1e-16L) && lb >= std::min(latB + 1e-13L, LPI / 2 - 1e-16L), what, " (", i, ", ", j, ") has latitudes ", double(la), " to ", double(lb), ", nominally ", double(latA), " to ", double(latB));
    REQUIRE(la >= latA - CHUNK_EPS && lb <= latB + CHUNK_EPS, what, " (", i, ", ", j, ") has latitudes ", double(la), " to ", double(lb), ", nominally ", double(latA), " to ", double(latB));
    if (b.getLon().isFull()) {
        ld far = std::max(fabsl(latA), fabsl(latB));
        REQUIRE(lonB - lonA > 2 * LPI - 1e-12L || far > LPI / 2 - CHUNK_EPS, what, " (", i, ", ", j, ") has all longitudes");
        return;
    }
    ld far = std::max(fabsl(la), fabsl(lb));
    ld e = cosl(far) > CHUNK_EPS ? asinl(std::min(1.0L, sinl(CHUNK_EPS) / cosl(far))) + 2e-15L : LPI;
    ld a = b.getLon().getA().asRadians(), w = static_cast<ld>(b.getLon().getB().asRadians()) - a;
    if (w < 0) w += 2 * LPI;
    ld before = lonA - a; // how far the box begins before the nominal longitude
    before -= 2 * LPI * roundl(before / (2 * LPI));
    ld after = a + w - lonB;
    after -= 2 * LPI * roundl(after / (2 * LPI));
    REQUIRE(before >= 0 && after >= 0, what, " (", i, ", ", j, ") has longitudes ", double(a), " plus ", double(w), ", nominally ", double(lonA), " to ", double(lonB));
    REQUIRE((before <= e && after <= e && fabsl(w - (lonB - lonA)) <= 2 * e + 1e-14L), what, " (", i, ", ", j, ") has longitudes ", double(a), " plus ", double(w), ", nominally ", double(lonA), " to ", double(lonB));
}

}  // namespace geo
#endif
