// C19: decoding arbitrary bytes is safe and rejects malformed data.
#include "geo.h"
#include <sys/mman.h>
#include <typeinfo>

using namespace geo;

char const * const PROPERTY_ID = "C19";
char const * const NONTRIVIAL_RULE =
    "A case is one byte string given to every decoder; non-trivial when it starts with a known type code and is not a valid encoding left as it was (so that it gets past the first check).";

typedef std::vector<std::uint8_t> Bytes;

// A copy of some bytes that ends right before a page that cannot be accessed
// (plain build), or in a heap block of exactly their size (sanitizer build).
struct Exact {
    std::uint8_t * p = nullptr;
    void * map = nullptr;
    std::size_t len = 0;
    explicit Exact(Bytes const & b) {
#ifdef __SANITIZE_ADDRESS__
#define EXACT_HEAP 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define EXACT_HEAP 1
#endif
#endif
#ifdef EXACT_HEAP
        p = new std::uint8_t[b.size()];
#else
        std::size_t pages = (b.size() + 4095) / 4096 + 1;
        len = pages * 4096;
        map = mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (map == MAP_FAILED) { map = nullptr; DISCARD("no memory"); }
        mprotect(static_cast<char *>(map) + len - 4096, 4096, PROT_NONE);
        p = static_cast<std::uint8_t *>(map) + len - 4096 - b.size();
#endif
        if (!b.empty()) std::memcpy(p, b.data(), b.size());
    }
    ~Exact() { if (map) munmap(map, len); else delete[] p; }
    Exact(Exact const &) = delete;
    void operator=(Exact const &) = delete;
};

static std::uint64_t getU64(Bytes const & b, std::size_t at) { std::uint64_t u = 0; for (int i = 7; i >= 0; --i) u = (u << 8) | b[at + static_cast<std::size_t>(i)]; return u; }
static double getD(Bytes const & b, std::size_t at) { std::uint64_t u = getU64(b, at); double d; std::memcpy(&d, &u, 8); return d; }

// What the format says of a byte string: whether a decoder may accept it, and
// whether it must (all values are those of a region the library could make).
struct Verdict { bool sizeOk = false; bool finite = true; bool box = false; };

static Verdict judge(Bytes const & b, std::size_t at, std::size_t n) {
    Verdict v;
    if (n == 0) return v;
    std::uint8_t t = b[at];
    if (t == 'b' || t == 'c' || t == 'e' || t == 'p') {
        v.sizeOk = t == 'b' ? n == 33 : t == 'c' ? n == 41 : t == 'e' ? n == 113 : (n >= 73 && (n - 1) % 24 == 0);
        if (v.sizeOk) for (std::size_t i = at + 1; i + 8 <= at + n; i += 8) if (!std::isfinite(getD(b, i))) v.finite = false;
        v.box = t == 'b';
    } else if (t == 'u' || t == 'i') {
        std::size_t end = at + n;
        ++at;
        for (int k = 0; k < 2; ++k) {
            if (end - at < 8) return v;
            std::uint64_t m = getU64(b, at);
            at += 8;
            if (m > end - at) return v;
            Verdict s = judge(b, at, m);
            if (!s.sizeOk) return v;
            v.finite &= s.finite;
            v.box |= s.box;
            at += m;
        }
        v.sizeOk = at == end;
    }
    return v;
}

template <typename F>
static auto attempt(F && f, char const * who) -> decltype(f()) {
    try {
        auto r = f();
        REQUIRE(r != nullptr, who, " returned null");
        return r;
    } catch (std::runtime_error const &) {
    } catch (std::invalid_argument const &) {
    }
    return nullptr;
}

static bool sameBytes(Bytes const & a, Bytes const & b) { return a == b; }

// Exercises a decoded region; exceptions are fine, undefined behaviour is not.
static void use(Region const & r, World & w, Gen & g) {
    UnitVector3d v = w.unit();
    Circle const probe(v, Angle(g.uniform(0, 1)));
    Box const pbox = Box(LonLat(v), Angle(0.1), Angle(0.1));
    ConvexPolygon const ptri(v, UnitVector3d::orthogonalTo(v), UnitVector3d::Z());
    for (int k = 0; k < 12; ++k) {
        try {
            switch (k) {
                case 0: (void)r.contains(v); break;
                case 1: (void)r.getBoundingBox(); break;
                case 2: (void)r.getBoundingCircle(); break;
                case 3: (void)r.getBoundingBox3d(); break;
                case 4: (void)r.relate(probe); break;
                case 5: (void)r.relate(pbox); break;
                case 6: (void)probe.relate(r); break;
                case 7: (void)ptri.relate(r); break;
                case 8: (void)ptri.contains(v); (void)r.relate(r); break;
                case 9: (void)r.clone()->encode(); break;
                case 10: (void)Region::getRegions(r); break;
                default: (void)r.relate(ptri); (void)pbox.relate(r);
            }
        } catch (pbt::Failure const &) { throw; } catch (std::exception const &) {}
    }
}

static void decodeAll(Bytes const & b, World & w, Gen & g) {
    Exact x(b);
    Verdict v = judge(b, 0, b.size());
    std::size_t n = b.size();
    std::uint8_t t = n ? b[0] : 0;
    // each accepted region, with the type of its decoder
    std::vector<std::unique_ptr<Region>> got;
    int accepted = 0;
    #define TRY(CODES, EXPR) { \
        bool may = v.sizeOk && std::strchr(CODES, t) != nullptr; \
        std::unique_ptr<Region> r = attempt([&]() -> std::unique_ptr<Region> { return EXPR; }, #EXPR); \
        REQUIRE(!r || may, #EXPR, " accepted ", n, " bytes that are not of the format, as ", show(*r)); \
        REQUIRE(r || !may || v.box || !v.finite, #EXPR, " rejected a string of the right format"); \
        if (r) { ++accepted; got.push_back(std::move(r)); } }
    TRY("bcepui", Region::decode(x.p, n));
    TRY("b", Box::decode(x.p, n));
    TRY("c", Circle::decode(x.p, n));
    TRY("e", Ellipse::decode(x.p, n));
    TRY("p", ConvexPolygon::decode(x.p, n));
    TRY("u", UnionRegion::decode(x.p, n));
    TRY("i", IntersectionRegion::decode(x.p, n));
    TRY("ui", CompoundRegion::decode(x.p, n));
    if (n < 4096) TRY("bcepui", Region::decode(Bytes(b)));
    #undef TRY
    if (got.empty()) return;
    for (auto & r : got) {
        std::uint8_t k = typeid(*r) == typeid(Box) ? 'b' : typeid(*r) == typeid(Circle) ? 'c' : typeid(*r) == typeid(Ellipse) ? 'e' : typeid(*r) == typeid(ConvexPolygon) ? 'p' : typeid(*r) == typeid(UnionRegion) ? 'u' : 'i';
        REQUIRE(k == t, "type code '", char(t), "' decoded to ", show(*r));
        Bytes e = r->encode();
        REQUIRE(e.size() == n, "re-encoding took ", e.size(), " bytes for ", n);
        // Boxes are normalised when they are decoded; anything else is kept.
        if (!v.box) REQUIRE(sameBytes(e, b), "re-encoding changed the bytes for ", show(*r));
        Bytes e0 = got[0]->encode();
        REQUIRE(e == e0, "decoders disagree");
        auto again = Region::decode(e);
        if (v.finite && !v.box) REQUIRE(again->encode() == e, "re-encoding is not stable");
    }
    REQUIRE(got.size() == (n < 4096 ? 2u : 1u) + 1u + (t == 'u' || t == 'i' ? 1u : 0u), "decoders disagree on whether to accept ", show(*got[0]));
    if (v.finite) use(*got[0], w, g);
}

// A double that an attacker or a bit flip might leave.
static void scribble(Gen & g, Bytes & b) {
    if (b.size() < 9) return;
    std::size_t words = (b.size() - 1) / 8, at = 1 + 8 * g.below(words);
    double d;
    switch (g.below(8)) {
        case 0: d = std::nan(""); break;
        case 1: d = g.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()}); break;
        case 2: d = g.pick({1e308, -1e308, 1e200, 5e-324, -0.0, 0.0}); break;
        case 3: d = (g.coin() ? 1 : -1) * g.logUniform(-320, 308); break;
        default: d = g.uniform(-8, 8);
    }
    std::memcpy(&b[at], &d, 8);
}
static void putLen(Bytes & b, std::size_t at, std::uint64_t u) { for (int i = 0; i < 8 && at < b.size(); ++i, ++at) { b[at] = static_cast<std::uint8_t>(u); u >>= 8; } }

static void mutate(Gen & g, Bytes & b, World & w) {
    switch (g.below(12)) {
        case 0: b.resize(g.below(b.size() + 1)); break;
        case 1: { std::size_t k = 1 + g.below(g.coin() ? 3 : 60); for (std::size_t i = 0; i < k; ++i) b.push_back(static_cast<std::uint8_t>(g.below(256))); break; }
        case 2: if (!b.empty()) b[g.below(b.size())] ^= static_cast<std::uint8_t>(1u << g.below(8)); break;
        case 3: if (!b.empty()) b[g.below(b.size())] = static_cast<std::uint8_t>(g.below(256)); break;
        case 4: if (!b.empty()) b[0] = static_cast<std::uint8_t>(g.pick({'b', 'c', 'e', 'p', 'u', 'i', 'B', '\1', '\x7f', 'a', 'd'})); break;
        case 5: scribble(g, b); break;
        case 6: // a length field
        case 7: {
            if (b.size() < 9) break;
            std::size_t at = 1;
            if (g.coin()) { std::uint64_t m = getU64(b, 1); if (m < b.size() && 9 + m + 8 <= b.size()) at = 9 + static_cast<std::size_t>(m); }
            std::uint64_t cur = getU64(b, at);
            std::uint64_t u = 0;
            switch (g.below(6)) {
                case 0: u = cur + g.below(17) - 8; break;
                case 1: u = b.size() - std::min<std::uint64_t>(b.size(), at + 8) + g.below(5) - 2; break;
                case 2: u = ~std::uint64_t(0) - g.below(64); break;
                case 3: u = std::uint64_t(1) << g.below(64); break;
                case 4: u = (std::uint64_t(1) << 63) + g.below(256) - 128; break;
                default: u = g.below(200);
            }
            putLen(b, at, u);
            break;
        }
        case 8: { // remove or repeat a slice
            if (b.empty()) break;
            std::size_t i = g.below(b.size()), k = std::min<std::size_t>(g.pick({1, 8, 24, 41, 33}), b.size() - i);
            if (g.coin()) b.erase(b.begin() + static_cast<long>(i), b.begin() + static_cast<long>(i + k));
            else { Bytes s(b.begin() + static_cast<long>(i), b.begin() + static_cast<long>(i + k)); b.insert(b.begin() + static_cast<long>(i), s.begin(), s.end()); }
            break;
        }
        case 9: { Bytes o = w.region(w.SIMPLE, 1)->encode(); if (g.coin()) b.insert(b.end(), o.begin(), o.end()); else b.insert(b.begin(), o.begin(), o.end()); break; }
        case 10: { // wrap in a compound with true or false lengths
            Bytes o = w.region(w.SIMPLE, 1)->encode(), r;
            r.push_back(static_cast<std::uint8_t>(g.pick({'u', 'i'})));
            Bytes const & p1 = g.coin() ? b : o;
            Bytes const & p2 = &p1 == &b ? o : b;
            r.resize(9); putLen(r, 1, p1.size() + (g.chance(1, 4) ? g.below(5) - 2 : 0)); r.insert(r.end(), p1.begin(), p1.end());
            std::size_t at = r.size(); r.resize(at + 8); putLen(r, at, p2.size() + (g.chance(1, 4) ? g.below(5) - 2 : 0)); r.insert(r.end(), p2.begin(), p2.end());
            b = r;
            break;
        }
        default: scribble(g, b); scribble(g, b);
    }
}

static void note(pbt::Ctx & c, Bytes const & b) {
    if (!c.describing) return;
    char const * h = "0123456789abcdef";
    std::string s;
    for (std::size_t i = 0; i < b.size() && i < 200; ++i) { s += h[b[i] >> 4]; s += h[b[i] & 15]; }
    c.note(b.size(), " bytes ", s, b.size() > 200 ? "..." : "");
}

LAW(mutated_encodings, 60000, 3000000, 40) {
    World w(g);
    Bytes const orig = w.region(w.SIMPLE | w.COMPOUND, g.range(1, 3))->encode();
    Bytes b = orig;
    int k = g.range(0, 4);
    for (int i = 0; i < k; ++i) mutate(g, b, w);
    if (b.size() > 20000) DISCARD("long");
    note(c, b);
    if (b != orig && !b.empty() && std::strchr("bcepui", b[0])) c.nontrivial();
    decodeAll(b, w, g);
}

LAW(random_bytes, 40000, 2000000, 40) {
    World w(g);
    static int const sizes[] = {0, 1, 2, 8, 9, 16, 17, 18, 32, 33, 34, 40, 41, 42, 49, 72, 73, 74, 97, 112, 113, 114, 121, 145};
    std::size_t n = g.chance(2, 3) ? static_cast<std::size_t>(sizes[g.below(24)]) : g.below(300);
    Bytes b(n);
    bool wide = g.coin();
    for (auto & x : b) x = static_cast<std::uint8_t>(wide ? g.below(256) : g.below(4) * 0x15);
    if (n && g.chance(7, 8)) b[0] = static_cast<std::uint8_t>("bcepui"[g.below(6)]);
    if (n >= 9 && (b[0] == 'u' || b[0] == 'i')) putLen(b, 1, g.below(n + 2));
    note(c, b);
    if (n && std::strchr("bcepui", b[0])) c.nontrivial();
    decodeAll(b, w, g);
}

// Doubles of a region-like size in a string of the right length.
LAW(random_values, 40000, 2000000, 40) {
    World w(g);
    char t = "bcep"[g.below(4)];
    std::size_t words = t == 'b' ? 4 : t == 'c' ? 5 : t == 'e' ? 14 : 3 * static_cast<std::size_t>(g.range(1, 7));
    Bytes b(1 + 8 * words);
    b[0] = static_cast<std::uint8_t>(t);
    for (std::size_t i = 0; i < words; ++i) {
        double d = g.chance(1, 3) ? g.pick({0.0, 1.0, -1.0, 2.0, 4.0, -2.0, DPI, 2 * DPI, DPI / 2}) : g.chance(1, 4) ? (g.coin() ? 1 : -1) * g.logUniform(-320, 308) : g.uniform(-2, 2);
        std::memcpy(&b[1 + 8 * i], &d, 8);
    }
    for (int i = g.range(0, 2); i > 0; --i) scribble(g, b);
    note(c, b);
    c.nontrivial();
    decodeAll(b, w, g);
}

// Nested compounds, whole and cut off, with up to a few hundred levels.
LAW(nested, 3000, 60000, 40) {
    World w(g);
    Bytes b = w.region(w.SIMPLE, 1)->encode(), leaf = w.circle().encode();
    int depth = g.range(1, 80);
    if (g.chance(1, 3)) { // lengths that lie: every level claims the rest
        std::size_t n = 9 * static_cast<std::size_t>(depth) + g.below(60);
        b.assign(n, 'u');
        for (int i = 0; i < depth; ++i) putLen(b, 9 * static_cast<std::size_t>(i) + 1, g.chance(1, 50) ? ~std::uint64_t(0) : n - 9 * static_cast<std::size_t>(i + 1) - (g.chance(1, 8) ? 1 : 0));
    } else for (int i = 0; i < depth; ++i) {
        Bytes r(9);
        r[0] = static_cast<std::uint8_t>(g.pick({'u', 'i'}));
        bool first = g.coin();
        Bytes const & p = first ? b : leaf, & q = first ? leaf : b;
        putLen(r, 1, p.size()); r.insert(r.end(), p.begin(), p.end());
        std::size_t at = r.size(); r.resize(at + 8); putLen(r, at, q.size()); r.insert(r.end(), q.begin(), q.end());
        b = r;
    }
    if (g.coin()) mutate(g, b, w);
    if (g.chance(1, 3)) b.resize(g.below(b.size() + 1));
    note(c, b);
    if (!b.empty() && std::strchr("bcepui", b[0])) c.nontrivial();
    decodeAll(b, w, g);
}

LAW(null_buffers, 200, 2000, 50) {
    std::size_t n = g.pick({0u, 1u, 33u, 41u, 73u, 113u, 17u});
    c.note("null buffer with size ", n);
    c.nontrivial();
    #define REJECT(T) { bool threw = false; try { (void)T::decode(nullptr, n); } catch (std::runtime_error const &) { threw = true; } REQUIRE(threw, #T, " decoded a null buffer of size ", n); }
    REJECT(Region) REJECT(Box) REJECT(Circle) REJECT(Ellipse) REJECT(ConvexPolygon) REJECT(UnionRegion) REJECT(IntersectionRegion) REJECT(CompoundRegion)
    #undef REJECT
    Bytes e;
    bool threw = false;
    try { (void)Region::decode(e); } catch (std::runtime_error const &) { threw = true; }
    REQUIRE(threw, "decoded an empty vector");
}
