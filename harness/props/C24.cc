// C24: pixel neighbourhoods are exactly the touching pixels.
#include <map>
#include <set>
#include "pix.h"

using namespace geo;

char const * const PROPERTY_ID = "C24";
char const * const NONTRIVIAL_RULE =
    "A case is one pixel of a cube-based pixelization (or all pixels of a low level); non-trivial when it touches a cube edge or corner "
    "(for all pixels of a level, always).";

static Pix cubePix(Gen & g, int maxLevel = 99) {
    Pix p(g.coin() ? Pix::Q3C : Pix::MQ3C, 0);
    p.level = static_cast<int>(g.below(std::min(maxLevel, p.maxLevel()) + 1));
    return p;
}
static std::vector<std::uint64_t> around(Pix const & p, std::uint64_t i) {
    return p.k == Pix::Q3C ? Q3cPixelization(p.level).neighborhood(i) : Mq3cPixelization::neighborhood(i);
}
static std::uint64_t cell(Pix const & p, int face, std::uint32_t s, std::uint32_t t) {
    return ((p.firstRoot() + face) << (2 * p.level)) | (p.k == Pix::Q3C ? Pix::morton(s, t) : Pix::hilbert(p.level, s, t));
}

// All pixels of a level, by brute force over shared corners.
LAW(exhaustive, 100, 200, 30) {
    Pix p = cubePix(g, c.thorough ? 6 : 5);
    c.note(p.name(), " level ", p.level);
    c.nontrivial();
    std::map<std::array<long, 3>, std::vector<std::uint64_t>> at;
    for (std::uint64_t i = p.first(); i < p.first() + p.count(); ++i)
        for (auto & v : p.vertices(i)) at[{{lroundl(v.x * 1e9L), lroundl(v.y * 1e9L), lroundl(v.z * 1e9L)}}].push_back(i);
    for (std::uint64_t i = p.first(); i < p.first() + p.count(); ++i) {
        std::set<std::uint64_t> want;
        for (auto & v : p.vertices(i))
            for (auto j : at[{{lroundl(v.x * 1e9L), lroundl(v.y * 1e9L), lroundl(v.z * 1e9L)}}]) want.insert(j);
        std::vector<std::uint64_t> got = around(p, i);
        std::set<std::uint64_t> s(got.begin(), got.end());
        REQUIRE(s.size() == got.size(), "neighborhood of ", i, " has duplicates");
        REQUIRE(s == want, "neighborhood of ", i, " has ", got.size(), " pixels, by shared corners ", want.size());
    }
}

LAW(single, 500000, 1500000, 10) {
    Pix p = cubePix(g);
    std::uint32_t m = (1u << p.level) - 1;
    auto coord = [&]() -> std::uint32_t {
        switch (g.below(4)) {
            case 0: return static_cast<std::uint32_t>(g.below(static_cast<std::uint64_t>(m) + 1));
            case 1: return m - static_cast<std::uint32_t>(g.below(std::min(m, 2u) + 1));
            case 2: { std::uint32_t b = 1u << g.below(p.level + 1); return std::min(m, b - static_cast<std::uint32_t>(g.below(2))); }
            default: return static_cast<std::uint32_t>(g.below(std::min(m, 2u) + 1));
        }
    };
    std::uint32_t s = coord(), t = coord();
    std::uint64_t i = cell(p, static_cast<int>(g.below(6)), s, t);
    c.note(p.name(), " level ", p.level, " index ", i, " grid ", s, ",", t);
    bool edge = s == 0 || t == 0 || s == m || t == m;
    if (edge) c.nontrivial();
    int k = p.level == 0 ? 4 : ((s == 0 || s == m) && (t == 0 || t == m) ? 1 : 0);
    std::vector<std::uint64_t> got = around(p, i);
    std::set<std::uint64_t> set(got.begin(), got.end());
    REQUIRE(set.size() == got.size(), "duplicates");
    REQUIRE(static_cast<int>(got.size()) == 9 - k, got.size(), " pixels, not ", 9 - k);
    REQUIRE(set.count(i), "the pixel itself is missing");
    for (auto j : got) {
        REQUIRE(p.valid(j), j, " is not a valid index");
        std::vector<std::uint64_t> back = around(p, j);
        REQUIRE(std::find(back.begin(), back.end(), i) != back.end(), j, " is a neighbour of ", i, " but not the reverse");
    }
    // the pixels met by going round each corner
    std::set<std::uint64_t> want;
    ld d = 1e-3L * p.size();
    for (auto & v : p.vertices(i)) {
        V o = orthogonal(v), q = v.cross(o).unit();
        for (int n = 0; n < 24; ++n) {
            ld a = 2 * LPI * (n + 0.3L) / 24, margin;
            std::uint64_t j = p.index((v + (o * cosl(a) + q * sinl(a)) * d).unit(), margin);
            if (margin > 1e-6L * d) want.insert(j);
        }
    }
    REQUIRE(set == want, "neighborhood has ", set.size(), " pixels; going round the corners finds ", want.size());
}
