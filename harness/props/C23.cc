// C23: invalid pixel indexes and levels are rejected.
#include "pix.h"

using namespace geo;

char const * const PROPERTY_ID = "C23";
char const * const NONTRIVIAL_RULE =
    "A case is one (pixelization, level, 64-bit integer) or one level; non-trivial when the integer is not a valid index of the level, or the "
    "level is out of range.";

template <typename F>
static bool rejects(F f, char const * what, std::uint64_t i) {
    try {
        f();
    } catch (std::invalid_argument const &) {
        return true;
    } catch (std::exception const & e) {
        FAILWITH(what, " of ", i, " throws something else: ", e.what());
    }
    return false;
}

static std::uint64_t anyInteger(Gen & g, Pix const & p) {
    std::uint64_t i;
    switch (g.below(8)) {
        case 0: i = p.first() - 1 - g.below(3); break;
        case 1: i = p.first() + p.count() + g.below(3); break;
        case 2: i = p.first() + g.below(3); break;
        case 3: i = p.first() + p.count() - 1 - g.below(3); break;
        case 4: { Pix q(static_cast<Pix::Kind>(g.below(3)), 0); q.level = static_cast<int>(g.below(q.maxLevel() + 1)); i = anyIndex(g, q); break; }
        case 5: { int b = g.range(0, 63); i = (static_cast<std::uint64_t>(1) << b) + g.below(3) - 1; break; }
        case 6: i = anyIndex(g, p); if (g.coin()) i ^= static_cast<std::uint64_t>(1) << g.below(64); break;
        default: i = g.u64() >> g.below(64);
    }
    return i;
}

// The level at which i is a valid index, or -1.
static int levelOf(Pix::Kind k, std::uint64_t i, int top) {
    for (int l = 0; l <= top; ++l) {
        Pix p(k, l);
        if (p.valid(i)) return l;
    }
    return -1;
}

LAW(indexes, 2000000, 5000000, 15) {
    Pix p = anyPix(g);
    std::uint64_t i = anyInteger(g, p);
    c.note(p.name(), " level ", p.level, " integer ", i);
    auto px = p.make();
    bool valid = p.valid(i);
    if (!valid) c.nontrivial();
    c.label(valid, "valid");
    bool pix = rejects([&] { px->pixel(i); }, "pixel", i);
    bool str = rejects([&] { px->toString(i); }, "toString", i);
    REQUIRE(px->universe().contains(i) == valid, "universe membership of ", i, " is wrong");
    if (valid) {
        REQUIRE(!pix && !str, "pixel or toString reject the valid index ", i);
    }
    if (p.k == Pix::Q3C) {
        Q3cPixelization q(p.level);
        REQUIRE(pix == !valid && str == !valid, "pixel or toString of ", i, ": rejected ", pix, " ", str);
        REQUIRE(rejects([&] { q.quad(i); }, "quad", i) == !valid, "quad of ", i);
        REQUIRE(rejects([&] { q.neighborhood(i); }, "neighborhood", i) == !valid, "neighborhood of ", i);
        return;
    }
    // The static functions and level() take indexes of any level.
    int l = levelOf(p.k, i, p.maxLevel()), deepest = levelOf(p.k, i, 30);
    bool known = l >= 0;
    c.label(known, "valid at some level");
    if (p.k == Pix::HTM) {
        if (known || deepest < 0) REQUIRE(HtmPixelization::level(i) == l, "level(", i, ") is ", HtmPixelization::level(i), ", not ", l);
        REQUIRE(rejects([&] { HtmPixelization::triangle(i); }, "triangle", i) == !known, "triangle of ", i);
        REQUIRE(rejects([&] { HtmPixelization::asString(i); }, "asString", i) == !known, "asString of ", i);
        if (!known) REQUIRE(pix && str, "pixel or toString accept ", i, ", which is not an HTM index");
    } else {
        REQUIRE(pix == !valid, "pixel of ", i, ": rejected ", pix);
        REQUIRE(Mq3cPixelization::level(i) == l, "level(", i, ") is ", Mq3cPixelization::level(i), ", not ", l);
        REQUIRE(rejects([&] { Mq3cPixelization::quad(i); }, "quad", i) == !known, "quad of ", i);
        REQUIRE(rejects([&] { Mq3cPixelization::neighborhood(i); }, "neighborhood", i) == !known, "neighborhood of ", i);
        REQUIRE(rejects([&] { Mq3cPixelization::asString(i); }, "asString", i) == !known, "asString of ", i);
        if (!known) REQUIRE(str, "toString accepts ", i, ", which is not an MQ3C index");
    }
}

LAW(levels, 200000, 200000, 20) {
    Pix p(static_cast<Pix::Kind>(g.below(3)), 0);
    switch (g.below(4)) {
        case 0: p.level = g.range(-3, 35); break;
        case 1: p.level = p.maxLevel() + g.range(-1, 2); break;
        case 2: p.level = g.pick({std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), -1, 31, 32, 62, 63, 64, 256, -256}); break;
        default: p.level = static_cast<int>(g.u64());
    }
    c.note(p.name(), " level ", p.level);
    bool valid = p.level >= 0 && p.level <= p.maxLevel();
    if (!valid) c.nontrivial();
    bool r = rejects([&] { p.make(); }, "the constructor", static_cast<std::uint64_t>(p.level));
    REQUIRE(r == !valid, "level ", p.level, (r ? " rejected" : " accepted"));
    if (valid) {
        int l = p.k == Pix::HTM ? HtmPixelization(p.level).getLevel() : p.k == Pix::Q3C ? Q3cPixelization(p.level).getLevel() : Mq3cPixelization(p.level).getLevel();
        REQUIRE(l == p.level, "getLevel() is ", l);
    }
}
