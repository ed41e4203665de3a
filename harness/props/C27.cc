// C27: Morton and Hilbert indexes, and log2.
// BUILD-VARIANT: nosimd curve_variant.cc -DNO_SIMD -Dsphgeom=sphgeom_nosimd
#include "pbt.h"
#include <tuple>
#include "lsst/sphgeom/curve.h"

using namespace lsst::sphgeom;

extern "C" {
std::uint64_t v_mortonIndex(std::uint32_t x, std::uint32_t y);
void v_mortonInverse(std::uint64_t z, std::uint32_t * o);
std::uint64_t v_hilbertIndex(std::uint32_t x, std::uint32_t y, int m);
void v_hilbertInverse(std::uint64_t h, int m, std::uint32_t * o);
}

char const * const PROPERTY_ID = "C27";
char const * const NONTRIVIAL_RULE =
    "A case is a point (x, y) and an order m in 0..32 (a whole grid for the exhaustive law); non-trivial when m >= 2 and "
    "the point is not the origin.";

namespace {
std::uint32_t word(pbt::Gen & g) {
    switch (g.below(5)) {
        case 0: return g.below(16);
        case 1: return ~static_cast<std::uint32_t>(g.below(16));
        case 2: return 1u << g.below(32);
        case 3: return (1u << g.below(32)) - 1;
        default: return static_cast<std::uint32_t>(g.u64());
    }
}
std::uint64_t refMorton(std::uint32_t x, std::uint32_t y) {
    std::uint64_t z = 0;
    for (int i = 0; i < 32; ++i) z |= (static_cast<std::uint64_t>((x >> i) & 1) << (2 * i)) | (static_cast<std::uint64_t>((y >> i) & 1) << (2 * i + 1));
    return z;
}
// The documented definition.
std::uint64_t refHilbert(std::uint32_t x, std::uint32_t y, int m) {
    std::uint64_t z = refMorton(x, y), h = 0, i = 0;
    for (m = 2 * m; m != 0;) {
        m -= 2;
        i = (i & 0xc) | ((z >> m) & 3);
        i = UINT64_C(0x8d3ec79a6b5021f4) >> (i * 4);
        h = (h << 2) | (i & 3);
    }
    return h;
}
int refLog2(std::uint64_t x) { int r = 0; while (x >>= 1) ++r; return r; }
}  // namespace

LAW(pointwise, 1000000, 40000000, 10) {
    std::uint32_t x = word(g), y = word(g);
    int m = g.range(0, 32);
    std::uint32_t mask = m == 32 ? ~0u : (1u << m) - 1;
    c.note("x=", x, " y=", y, " m=", m);
    if (m >= 2 && ((x | y) & mask)) c.nontrivial();
    std::uint64_t z = mortonIndex(x, y);
    REQUIRE(z == refMorton(x, y), "mortonIndex");
    REQUIRE(mortonIndexInverse(z) == std::make_tuple(x, y), "mortonIndexInverse");
    std::uint64_t h = hilbertIndex(x, y, m);
    REQUIRE(h == refHilbert(x & mask, y & mask, m), "hilbertIndex ", h, " want ", refHilbert(x & mask, y & mask, m));
    REQUIRE(hilbertIndexInverse(h, m) == std::make_tuple(x & mask, y & mask), "hilbertIndexInverse");
    std::uint64_t zm = refMorton(x & mask, y & mask);
    REQUIRE(mortonToHilbert(zm, m) == h && hilbertToMorton(h, m) == zm, "mortonToHilbert/hilbertToMorton");
    REQUIRE(m == 32 || h < (1ULL << (2 * m)), "range");
    if (m > 0) REQUIRE(hilbertIndex((x & mask) >> 1, (y & mask) >> 1, m - 1) == h >> 2, "prefix of the parent cell");
    std::uint64_t last = m == 32 ? ~0ULL : (1ULL << (2 * m)) - 1;
    if (h != last) {
        std::uint32_t a, b;
        std::tie(a, b) = hilbertIndexInverse(h + 1, m);
        std::uint64_t d = std::llabs(static_cast<long long>(a) - (x & mask)) + std::llabs(static_cast<long long>(b) - (y & mask));
        REQUIRE(d == 1, "consecutive Hilbert indexes are not adjacent");
    }
    std::uint32_t o[2];
    REQUIRE(v_mortonIndex(x, y) == z, "scalar mortonIndex");
    v_mortonInverse(z, o);
    REQUIRE(o[0] == x && o[1] == y, "scalar mortonIndexInverse");
    REQUIRE(v_hilbertIndex(x, y, m) == h, "scalar hilbertIndex");
    v_hilbertInverse(h, m, o);
    REQUIRE(o[0] == (x & mask) && o[1] == (y & mask), "scalar hilbertIndexInverse");
    std::uint64_t w = g.coin() ? g.u64() >> g.below(64) : (static_cast<std::uint64_t>(x) << 32 | y);
    REQUIRE(lsst::sphgeom::log2(w) == refLog2(w), "log2(", w, ")");
    REQUIRE(lsst::sphgeom::log2(x) == refLog2(x), "log2 of 32 bits ", x);
}

// Every point of a small grid, and every index: the map is a bijection.
LAW(exhaustive_small_orders, 64, 64, 100) {
    int m = g.range(0, 7);
    c.note("all points of order ", m);
    if (m >= 2) c.nontrivial();
    std::uint32_t n = 1u << m;
    std::vector<bool> seen(static_cast<std::size_t>(n) * n);
    for (std::uint32_t x = 0; x < n; ++x) for (std::uint32_t y = 0; y < n; ++y) {
        std::uint64_t h = hilbertIndex(x, y, m);
        REQUIRE(h < seen.size() && !seen[h], "not a bijection at ", x, ',', y);
        seen[h] = true;
        REQUIRE(h == refHilbert(x, y, m));
        REQUIRE(hilbertIndexInverse(h, m) == std::make_tuple(x, y));
    }
    for (int i = 0; i < 64; ++i) {
        REQUIRE(lsst::sphgeom::log2(static_cast<std::uint64_t>(1) << i) == i);
        REQUIRE(lsst::sphgeom::log2(~static_cast<std::uint64_t>(0) >> i) == 63 - i);
    }
    REQUIRE(lsst::sphgeom::log2(static_cast<std::uint64_t>(0)) == 0 && lsst::sphgeom::log2(static_cast<std::uint32_t>(0)) == 0);
}
