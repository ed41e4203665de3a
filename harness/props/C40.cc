// C40: running out of memory is reported, leaks nothing and leaves objects as
// they were. Fault injection: every allocation of a call is made to fail in
// turn, by a replacement of the global operator new.
#include "pix.h"
#include "chunks.h"
#include "rsmodel.h"
#include <cstdlib>
#include <functional>
#include <new>
#include "lsst/sphgeom/curve.h"

namespace {
long liveBlocks = 0;       // blocks handed out and not returned
bool armed = false;
long allocations = 0;      // while armed
long failAt = 0;           // the allocation that fails; 0 for none
bool failOnwards = false;  // all later ones fail too
bool fired = false;

void * allocate(std::size_t n, std::size_t align = 0) {
    if (armed) {
        ++allocations;
        if (failAt > 0 && (allocations == failAt || (failOnwards && allocations > failAt))) {
            fired = true;
            throw std::bad_alloc();
        }
    }
    if (n == 0) n = 1;
    void * p = align ? std::aligned_alloc(align, (n + align - 1) / align * align) : std::malloc(n);
    if (!p) throw std::bad_alloc();
    ++liveBlocks;
    return p;
}
void release(void * p) {
    if (!p) return;
    --liveBlocks;
    std::free(p);
}
}  // namespace

void * operator new(std::size_t n) { return allocate(n); }
void * operator new[](std::size_t n) { return allocate(n); }
void * operator new(std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a)); }
void * operator new[](std::size_t n, std::align_val_t a) { return allocate(n, static_cast<std::size_t>(a)); }
void * operator new(std::size_t n, std::nothrow_t const &) noexcept { try { return allocate(n); } catch (...) { return nullptr; } }
void * operator new[](std::size_t n, std::nothrow_t const &) noexcept { try { return allocate(n); } catch (...) { return nullptr; } }
void operator delete(void * p) noexcept { release(p); }
void operator delete[](void * p) noexcept { release(p); }
void operator delete(void * p, std::size_t) noexcept { release(p); }
void operator delete[](void * p, std::size_t) noexcept { release(p); }
void operator delete(void * p, std::align_val_t) noexcept { release(p); }
void operator delete[](void * p, std::align_val_t) noexcept { release(p); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { release(p); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { release(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { release(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { release(p); }

using namespace geo;
using pbt::Ctx;

char const * const PROPERTY_ID = "C40";
char const * const NONTRIVIAL_RULE =
    "A case is a call on generated operands, repeated with one of its allocations failing (alone, or with all later ones), for up to 16 of its allocations; non-trivial when the call makes an allocation that then fails.";

struct Armed {
    Armed(long at, bool onwards) { allocations = 0; failAt = at; failOnwards = onwards; fired = false; armed = true; }
    ~Armed() { armed = false; failAt = 0; }
};

// How a call ended. `text` and the object that it describes are made without
// injected faults.
struct End {
    enum { VALUE, NOMEM, THREW } how = VALUE;
    std::string text;
    bool operator==(End const & e) const { return how == e.how && text == e.text; }
};

// make() -> state; run(state) -> result; show(result, state) -> text, which
// covers the result and all that the call is to change; snap(state) -> text of
// all operands; strong: the operands are as before after a failure.
template <typename Make, typename Run, typename Show, typename Snap>
static void faults(Gen & g, Ctx & c, char const * what, bool strong, Make make, Run run, Show show, Snap snap) {
    auto attempt = [&](auto & s, long at, bool onwards, long * n) {
        End e;
        try {
            Armed guard(at, onwards);
            auto r = run(s);
            armed = false;
            if (n) *n = allocations;
            e.text = show(r, s);
        } catch (pbt::Failure const &) {
            throw;
        } catch (std::bad_alloc const &) {
            e.how = End::NOMEM;
            if (n) *n = allocations;
        } catch (std::exception const & x) {
            e.how = End::THREW;
            e.text = x.what();
            if (n) *n = allocations;
        }
        return e;
    };
    { auto s = make(); attempt(s, 0, false, nullptr); }    // function-local statics
    End want;
    long n = 0;
    {
        long const before = liveBlocks;
        {
            auto s = make();
            End e = attempt(s, 0, false, &n);
            REQUIRE(e.how != End::NOMEM, what, " ran out of memory unprovoked");
            want = e;
        }
        // `want.text` may hold one block.
        REQUIRE(liveBlocks - before <= 1, what, ": ", liveBlocks - before, " blocks leaked");
    }
    c.note(what, ", ", n, " allocations");
    if (n == 0) { c.label("no allocation"); return; }
    c.nontrivial();
    c.label(want.how == End::THREW, "call that throws anyway");
    std::vector<long> at;
    if (n <= 16) for (long i = 1; i <= n; ++i) at.push_back(i);
    else { at = {1, 2, n - 1, n}; for (int i = 0; i < 10; ++i) at.push_back(1 + static_cast<long>(g.below(n))); }
    bool const onwards = g.chance(1, 3);
    for (long k : at) {
        long before = liveBlocks, after = 0;
        {
            auto s = make();
            std::string s0 = snap(s);
            End e = attempt(s, k, onwards, nullptr);
            // A call may keep memory for the next one; then there is nothing to fail.
            if (!fired) { c.label("allocation not repeated"); REQUIRE(e == want, what, " made again ended otherwise: ", e.text, " in place of ", want.text); continue; }
            if (e.how != End::NOMEM) {
                // Carrying on without the memory is fine if nothing is lost by it.
                REQUIRE(e == want, what, " with allocation ", k, " of ", n, " failing ended with ", (e.how == End::THREW ? "another exception: " : "the value "), e.text,
                        " in place of ", (want.how == End::THREW ? "the exception " : "the value "), want.text);
            } else {
                std::string s1 = snap(s);
                REQUIRE(!strong || s1 == s0, what, " with allocation ", k, " of ", n, " failing left its operands as ", s1, ", not as before: ", s0);
                if (strong) {
                    End again = attempt(s, 0, false, nullptr);
                    REQUIRE(again == want, what, " after a failure at allocation ", k, " of ", n, ": again, with memory, gave ", again.text, ", not ", want.text);
                }
            }
        }
        after = liveBlocks;
        REQUIRE(after == before, what, " with allocation ", k, " of ", n, " failing leaked ", after - before, " blocks");
    }
}

struct Nothing {};

static std::string hex(Region const & r) {
    auto e = r.encode();
    std::string s;
    char b[3];
    for (auto x : e) { std::snprintf(b, sizeof b, "%02x", x); s += b; }
    return s;
}

static std::string text(RangeSet const & s) {
    std::string r = s.isValid() ? "" : "INVALID ";
    std::size_t k = 0;
    for (auto it = s.begin(); it != s.end(); ++it) {
        auto t = *it;
        r += std::to_string(std::get<0>(t)) + ":" + std::to_string(std::get<1>(t)) + " ";
        if (++k > 100000) { r += "ENDLESS"; break; }
    }
    return r;
}

static std::uint64_t boundary(Gen & g) {
    switch (g.below(5)) {
        case 0: return g.below(40);
        case 1: return 0 - g.below(40);
        case 2: return (1ULL << g.below(64)) + g.below(3) - 1;
        case 3: return g.below(400);
        default: return g.u64();
    }
}

// A recipe for a range set: the same calls give the same set with the same
// capacity.
struct Recipe {
    std::vector<std::array<std::uint64_t, 3>> ops;
    bool tight = false;
    RangeSet make() const {
        RangeSet s;
        for (auto & o : ops) {
            if (o[0] == 0) s.insert(o[1], o[2]);
            else if (o[0] == 1) s.erase(o[1], o[2]);
            else s.complement();
        }
        if (tight) return RangeSet(s);
        return s;
    }
    static Recipe any(Gen & g) {
        Recipe r;
        int n = g.range(0, 10);
        for (int i = 0; i < n; ++i) {
            std::uint64_t a = boundary(g), b = g.coin() ? a + 1 + g.below(20) : boundary(g);
            r.ops.push_back({g.chance(1, 5) ? 1 + g.below(2) : 0, a, b});
        }
        r.tight = g.coin();
        return r;
    }
};

struct TwoSets { RangeSet a, b; };

LAW(rangesets_mutated, 40000, 1500000, 25) {
    Recipe ra = Recipe::any(g), rb = Recipe::any(g);
    std::uint64_t x = boundary(g), y = g.coin() ? x + 1 + g.below(30) : boundary(g);
    auto make = [&]() { return TwoSets{ra.make(), rb.make()}; };
    auto snap = [](TwoSets const & s) { return text(s.a) + "| " + text(s.b); };
    auto show = [&](Nothing, TwoSets const & s) { return snap(s); };
    if (c.describing) { auto s = make(); c.note(snap(s), " with ", x, ", ", y); }
    switch (g.below(13)) {
        case 0: case 1: faults(g, c, "insert(first, last)", true, make, [&](TwoSets & s) { s.a.insert(x, y); return Nothing(); }, show, snap); break;
        case 2: faults(g, c, "insert(u)", true, make, [&](TwoSets & s) { s.a.insert(x); return Nothing(); }, show, snap); break;
        case 3: case 4: faults(g, c, "erase(first, last)", true, make, [&](TwoSets & s) { s.a.erase(x, y); return Nothing(); }, show, snap); break;
        case 5: faults(g, c, "erase(u)", true, make, [&](TwoSets & s) { s.a.erase(x); return Nothing(); }, show, snap); break;
        case 6: faults(g, c, "insert(tuple)", true, make, [&](TwoSets & s) { s.a.insert(std::make_tuple(x, y)); s.b.size(); return Nothing(); }, show, snap); break;
        case 7: faults(g, c, "erase(tuple)", true, make, [&](TwoSets & s) { s.a.erase(std::make_tuple(x, y)); return Nothing(); }, show, snap); break;
        case 8: faults(g, c, "&=", true, make, [&](TwoSets & s) { s.a &= s.b; return Nothing(); }, show, snap); break;
        case 9: faults(g, c, "|=", true, make, [&](TwoSets & s) { s.a |= s.b; return Nothing(); }, show, snap); break;
        case 10: faults(g, c, "-=", true, make, [&](TwoSets & s) { s.a -= s.b; return Nothing(); }, show, snap); break;
        case 11: faults(g, c, "^=", true, make, [&](TwoSets & s) { s.a ^= s.b; return Nothing(); }, show, snap); break;
        default: faults(g, c, "copy assignment", true, make, [&](TwoSets & s) { s.a = s.b; return Nothing(); }, show, snap); break;
    }
}

LAW(rangesets_made, 20000, 700000, 25) {
    Recipe ra = Recipe::any(g), rb = Recipe::any(g);
    unsigned n = static_cast<unsigned>(g.below(66));
    std::uint64_t k = g.coin() ? 1 + g.below(5) : boundary(g);
    std::vector<std::uint64_t> list;
    int m = g.range(1, 12);
    for (int i = 0; i < m; ++i) list.push_back(boundary(g));
    auto make = [&]() { return TwoSets{ra.make(), rb.make()}; };
    auto snap = [](TwoSets const & s) { return text(s.a) + "| " + text(s.b); };
    auto show = [&](RangeSet const & r, TwoSets const &) { return text(r); };
    if (c.describing) { auto s = make(); c.note(snap(s)); }
    switch (g.below(13)) {
        case 0: faults(g, c, "intersection", true, make, [&](TwoSets & s) { return s.a.intersection(s.b); }, show, snap); break;
        case 1: faults(g, c, "join", true, make, [&](TwoSets & s) { return s.a.join(s.b); }, show, snap); break;
        case 2: faults(g, c, "difference", true, make, [&](TwoSets & s) { return s.a.difference(s.b); }, show, snap); break;
        case 3: faults(g, c, "symmetricDifference", true, make, [&](TwoSets & s) { return s.a.symmetricDifference(s.b); }, show, snap); break;
        case 4: faults(g, c, "~", true, make, [&](TwoSets & s) { return ~s.a; }, show, snap); break;
        case 5: faults(g, c, "complemented", true, make, [&](TwoSets & s) { return s.a.complemented(); }, show, snap); break;
        case 6: faults(g, c, "simplified", true, make, [&](TwoSets & s) { return s.a.simplified(n); }, show, snap); break;
        case 7: faults(g, c, "scaled", true, make, [&](TwoSets & s) { return s.a.scaled(k); }, show, snap); break;
        case 8: faults(g, c, "RangeSet(container)", true, make, [&](TwoSets &) { return RangeSet(list); }, show, snap); break;
        case 9: faults(g, c, "RangeSet(first, last)", true, make, [&](TwoSets &) { return RangeSet(list[0], k); }, show, snap); break;
        case 10: faults(g, c, "RangeSet(ranges)", true, make, [&](TwoSets & s) { return RangeSet(s.a.begin(), s.a.end()); }, show, snap); break;
        case 11: faults(g, c, "copy", true, make, [&](TwoSets & s) { return RangeSet(s.a); }, show, snap); break;
        default: faults(g, c, "operators", true, make, [&](TwoSets & s) { return ((s.a & s.b) | (s.a - s.b)) ^ s.b; }, show, snap); break;
    }
}

// simplify and scale make no promise about the set when they fail, but that it
// is a set.
LAW(rangesets_basic, 10000, 300000, 25) {
    Recipe ra = Recipe::any(g);
    unsigned n = static_cast<unsigned>(g.below(66));
    std::uint64_t k = g.coin() ? g.below(5) : boundary(g);
    auto make = [&]() { return ra.make(); };
    auto snap = [](RangeSet const & s) { std::string t = text(s); REQUIRE(s.isValid(), "not a valid range set: ", t); return t; };
    auto show = [&](Nothing, RangeSet const & s) { return text(s); };
    if (c.describing) { auto s = make(); c.note(snap(s)); }
    switch (g.below(5)) {
        case 0: faults(g, c, "simplify", false, make, [&](RangeSet & s) { s.simplify(n); return Nothing(); }, show, snap); break;
        case 1: faults(g, c, "scale", false, make, [&](RangeSet & s) { s.scale(k); return Nothing(); }, show, snap); break;
        case 2: faults(g, c, "fill", false, make, [&](RangeSet & s) { s.fill(); return Nothing(); }, show, snap); break;
        case 3: faults(g, c, "clear", false, make, [&](RangeSet & s) { s.clear(); return Nothing(); }, show, snap); break;
        default: faults(g, c, "a chain of calls", false, make, [&](RangeSet & s) { s.insert(k, k + 7); s.complement(); s.erase(k + 2, k + 3); s |= ra.make(); s.simplify(1).complement(); return Nothing(); }, show, snap);
    }
}

struct RegionPair { std::unique_ptr<Region> a, b; };

template <typename T>
static void assignment(Gen & g, Ctx & c, char const * what, Region const & a, Region const & b) {
    struct S { T x, y; };
    auto make = [&]() { return S{dynamic_cast<T const &>(a), dynamic_cast<T const &>(b)}; };
    auto snap = [](S const & s) { return hex(s.x) + " " + hex(s.y); };
    faults(g, c, what, true, make, [](S & s) { s.x = s.y; return Nothing(); }, [&](Nothing, S const & s) { return snap(s); }, snap);
}

LAW(regions, 16000, 500000, 25) {
    World w(g);
    int const kind = static_cast<int>(g.below(14));
    auto a = w.region(kind == 9 || kind == 3 ? static_cast<int>(w.POLYS) : kind < 6 && g.coin() ? static_cast<int>(w.COMPOUND) : static_cast<int>(w.ANY));
    auto b = kind == 9 ? w.region(w.POLYS) : g.coin() ? w.relatedTo(*a, w.ANY) : w.region(w.ANY);
    if (c.describing) c.note(geo::show(*a), " and ", geo::show(*b));
    auto make = [&]() { return RegionPair{a->clone(), b->clone()}; };
    auto snap = [](RegionPair const & s) { return hex(*s.a) + " " + hex(*s.b); };
    auto showRegion = [](std::unique_ptr<Region> const & r, RegionPair const &) { return r ? hex(*r) : "null"; };
    auto showBytes = [](std::vector<std::uint8_t> const & v, RegionPair const &) { return std::string(v.begin(), v.end()); };
    typedef std::unique_ptr<Region> P;
    switch (kind) {
        case 0: case 1: faults(g, c, "clone", true, make, [](RegionPair & s) { return s.a->clone(); }, showRegion, snap); break;
        case 2: faults(g, c, "encode", true, make, [](RegionPair & s) { return s.a->encode(); }, showBytes, snap); break;
        case 3: {
            std::vector<std::uint8_t> e = a->encode();
            if (g.coin() && !e.empty()) e[g.below(std::min<std::size_t>(e.size(), 40))] ^= static_cast<std::uint8_t>(1u << g.below(8));
            if (g.chance(1, 6)) e.resize(g.below(e.size() + 1));
            faults(g, c, "decode", true, make, [&](RegionPair &) { return Region::decode(e); }, showRegion, snap);
            break;
        }
        case 4: {
            std::vector<std::uint8_t> e = (g.coin() ? P(new UnionRegion(*a, *b)) : P(new IntersectionRegion(*a, *b)))->encode();
            if (g.coin()) e[g.below(e.size())] ^= static_cast<std::uint8_t>(1u << g.below(8));
            if (g.chance(1, 4)) e.resize(g.below(e.size() + 1));
            faults(g, c, "decode of a compound", true, make, [&](RegionPair &) { return Region::decode(e); }, showRegion, snap);
            break;
        }
        case 5: case 6: {
            auto showAll = [](std::vector<P> const & v, RegionPair const &) { std::string s; for (auto & x : v) s += (x ? hex(*x) : "null") + ","; return s; };
            if (g.coin()) {
                // unions in unions, which getRegions flattens or not
                P u(new UnionRegion(*a, *b)), v(g.coin() ? P(new UnionRegion(*u, *a)) : P(new IntersectionRegion(*b, *u)));
                a = std::move(v);
            }
            faults(g, c, "getRegions", true, make, [](RegionPair & s) { return Region::getRegions(*s.a); }, showAll, snap);
            break;
        }
        case 7: faults(g, c, "UnionRegion(a, b)", true, make, [](RegionPair & s) { return P(new UnionRegion(*s.a, *s.b)); }, showRegion, snap); break;
        case 8: faults(g, c, "IntersectionRegion(a, b)", true, make, [](RegionPair & s) { return P(new IntersectionRegion(*s.a, *s.b)); }, showRegion, snap); break;
        case 9: assignment<ConvexPolygon>(g, c, "polygon assignment", *a, *b); break;
        case 10: {
            auto x = dynamic_cast<UnionRegion const *>(a.get());
            auto y = dynamic_cast<IntersectionRegion const *>(a.get());
            auto z = dynamic_cast<ConvexPolygon const *>(a.get());
            if (x) faults(g, c, "copy of a union", true, make, [](RegionPair & s) { return P(new UnionRegion(dynamic_cast<UnionRegion const &>(*s.a))); }, showRegion, snap);
            else if (y) faults(g, c, "copy of an intersection", true, make, [](RegionPair & s) { return P(new IntersectionRegion(dynamic_cast<IntersectionRegion const &>(*s.a))); }, showRegion, snap);
            else if (z) faults(g, c, "copy of a polygon", true, make, [](RegionPair & s) { return P(new ConvexPolygon(dynamic_cast<ConvexPolygon const &>(*s.a))); }, showRegion, snap);
            else DISCARD();
            break;
        }
        case 11: case 12: {
            std::vector<UnitVector3d> pts;
            int n = g.range(2, 9);
            UnitVector3d m = w.unit();
            bool near = g.coin();
            for (int i = 0; i < n; ++i) pts.push_back(near ? toUnit(toward(V(m), w.randomDirection(), g.uniform(0, 1))) : w.unit());
            if (g.chance(1, 4)) pts.push_back(-pts[0]);
            std::vector<UnitVector3d> kept = pts;
            if (g.coin()) faults(g, c, "ConvexPolygon(points)", true, make, [&](RegionPair &) { return P(new ConvexPolygon(pts)); }, showRegion, snap);
            else faults(g, c, "convexHull", true, make, [&](RegionPair &) { return P(new ConvexPolygon(ConvexPolygon::convexHull(pts))); }, showRegion, snap);
            REQUIRE(pts == kept, "the list of points was changed");
            break;
        }
        default: {
            struct Bounds { Box b; Circle k; Box3d d; Relationship r, q; };
            faults(g, c, "bounds and relations", true, make, [](RegionPair & s) { return Bounds{s.a->getBoundingBox(), s.a->getBoundingCircle(), s.a->getBoundingBox3d(), s.a->relate(*s.b), s.b->relate(*s.a)}; },
                   [](Bounds const & x, RegionPair const &) { return hex(x.b) + hex(x.k) + x.r.to_string() + x.q.to_string(); }, snap);
        }
    }
}

struct Search {
    std::shared_ptr<Pixelization> p;
    std::unique_ptr<Region> r;
};

LAW(searches, 6000, 200000, 20) {
    World w(g);
    static Pix::Kind const kinds[] = {Pix::HTM, Pix::Q3C, Pix::MQ3C};
    Pix px(kinds[g.below(3)], g.range(0, 4));
    auto r = w.region(g.chance(1, 3) ? static_cast<int>(w.COMPOUND) : static_cast<int>(w.ANY));
    if (c.describing) c.note(px.name(), " level ", px.level, " with ", geo::show(*r));
    std::size_t limit = g.coin() ? 0 : 1 + g.below(12);
    auto make = [&]() { return Search{std::shared_ptr<Pixelization>(px.make()), r->clone()}; };
    auto snap = [](Search const & s) { return hex(*s.r); };
    auto showSet = [](RangeSet const & s, Search const &) { return text(s); };
    auto showRegion = [](std::unique_ptr<Region> const & x, Search const &) { return hex(*x); };
    auto showText = [](std::string const & s, Search const &) { return s; };
    std::uint64_t i = g.chance(1, 8) ? g.u64() : px.first() + g.below(px.count());
    switch (g.below(9)) {
        case 0: case 1: faults(g, c, "envelope", true, make, [&](Search & s) { return s.p->envelope(*s.r, limit); }, showSet, snap); break;
        case 2: case 3: faults(g, c, "interior", true, make, [&](Search & s) { return s.p->interior(*s.r, limit); }, showSet, snap); break;
        case 4: faults(g, c, "universe", true, make, [&](Search & s) { return s.p->universe(); }, showSet, snap); break;
        case 5: faults(g, c, "pixel", true, make, [&](Search & s) { return s.p->pixel(i); }, showRegion, snap); break;
        case 6: {
            int const l = g.range(0, 24);
            Pix q(px.k, l);
            std::uint64_t j = q.first() + g.below(q.count());
            auto p = std::shared_ptr<Pixelization>(q.make());
            auto mk = [&]() { return Search{p, r->clone()}; };
            faults(g, c, "toString", true, mk, [&](Search & s) { return s.p->toString(j); }, showText, snap);
            break;
        }
        case 7: {
            auto showList = [](std::vector<std::uint64_t> const & v, Search const &) { std::string s; for (auto x : v) s += std::to_string(x) + " "; return s; };
            int const l = g.range(0, 30);
            if (px.k == Pix::Q3C) { Q3cPixelization q(l); std::uint64_t j = Pix(Pix::Q3C, l).first() + g.below(Pix(Pix::Q3C, l).count());
                faults(g, c, "Q3C neighborhood", true, make, [&](Search &) { return q.neighborhood(j); }, showList, snap); }
            else { std::uint64_t j = Pix(Pix::MQ3C, l).first() + g.below(Pix(Pix::MQ3C, l).count());
                faults(g, c, "MQ3C neighborhood", true, make, [&](Search &) { return Mq3cPixelization::neighborhood(j); }, showList, snap); }
            break;
        }
        default: {
            typedef std::unique_ptr<Region> P;
            if (px.k == Pix::HTM) faults(g, c, "triangle", true, make, [&](Search &) { return P(new ConvexPolygon(HtmPixelization::triangle(i))); }, showRegion, snap);
            else if (px.k == Pix::Q3C) { Q3cPixelization q(px.level); faults(g, c, "Q3C quad", true, make, [&](Search &) { return P(new ConvexPolygon(q.quad(i))); }, showRegion, snap); }
            else faults(g, c, "MQ3C quad", true, make, [&](Search &) { return P(new ConvexPolygon(Mq3cPixelization::quad(i))); }, showRegion, snap);
        }
    }
}

struct Chunks { std::unique_ptr<Chunker> k; std::unique_ptr<Region> r; };

static std::string text(std::vector<std::int32_t> const & v) { std::string s; for (auto x : v) s += std::to_string(x) + " "; return s; }

LAW(chunkers, 6000, 200000, 20) {
    World w(g);
    Config cf = config(g, 30);
    auto r = w.region(w.ANY);
    if (c.describing) c.note("Chunker(", cf.n, ", ", cf.m, ") with ", geo::show(*r));
    auto make = [&]() { return Chunks{std::unique_ptr<Chunker>(new Chunker(cf.n, cf.m)), r->clone()}; };
    auto snap = [&](Chunks const & s) { return hex(*s.r) + (*s.k == Chunker(cf.n, cf.m) ? "" : " changed chunker"); };
    auto showIds = [](std::vector<std::int32_t> const & v, Chunks const &) { return text(v); };
    switch (g.below(6)) {
        case 0: faults(g, c, "Chunker(n, m)", true, make, [&](Chunks &) { return Chunker(cf.n, cf.m); }, [](Chunker const & k, Chunks const &) { return text(k.getAllChunks()); }, snap); break;
        case 1: faults(g, c, "getChunksIntersecting", true, make, [](Chunks & s) { return s.k->getChunksIntersecting(*s.r); }, showIds, snap); break;
        case 2: faults(g, c, "getSubChunksIntersecting", true, make, [](Chunks & s) { return s.k->getSubChunksIntersecting(*s.r); },
                       [](std::vector<SubChunks> const & v, Chunks const &) { std::string t; for (auto & x : v) t += std::to_string(x.chunkId) + ": " + text(x.subChunkIds); return t; }, snap); break;
        case 3: faults(g, c, "getAllChunks", true, make, [](Chunks & s) { return s.k->getAllChunks(); }, showIds, snap); break;
        case 4: { auto all = make().k->getAllChunks(); std::int32_t id = g.pick(all);
                  faults(g, c, "getAllSubChunks", true, make, [&](Chunks & s) { return s.k->getAllSubChunks(id); }, showIds, snap); break; }
        default: {
            Config cg = config(g, 30);
            struct Two { Chunker a, b; };
            auto mk = [&]() { return Two{Chunker(cf.n, cf.m), Chunker(cg.n, cg.m)}; };
            auto sn = [](Two const & s) { return text(s.a.getAllChunks()) + "/ " + text(s.b.getAllChunks()) + std::to_string(s.a.getNumStripes()) + " " + std::to_string(s.a.getNumSubStripesPerStripe()); };
            // Assignment of a chunker is member by member, and promises no more
            // than that nothing leaks.
            faults(g, c, "chunker assignment", false, mk, [](Two & s) { s.a = s.b; return Nothing(); }, [&](Nothing, Two const & s) { return sn(s); }, [](Two const &) { return std::string(); });
        }
    }
}
