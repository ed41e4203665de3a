// C04: RangeSet queries and iterators answer exactly.
#include "rsmodel.h"
#include <iterator>

using namespace lsst::sphgeom;

char const * const PROPERTY_ID = "C04";
char const * const NONTRIVIAL_RULE =
    "A case is two generated range sets, integers and ranges (wrapping and full ones included) queried every way; "
    "non-trivial when the first set has two or more ranges or touches an end of [0, 2^64).";

namespace {
struct Pool {
    int mode;
    std::uint64_t base;
    Pool(pbt::Gen & g) : mode(g.below(4)), base(g.u64()) {}
    std::uint64_t val(pbt::Gen & g) const {
        switch (mode) {
            case 0: return g.below(20);
            case 1: return static_cast<std::uint64_t>(-10) + g.below(20);
            case 2: return base + g.below(30);
            default: return g.coin() ? g.u64() : (g.coin() ? g.below(40) : ~0ULL - g.below(40));
        }
    }
};
void gen(pbt::Gen & g, Pool const & p, RangeSet & s, Model & m, int maxRanges) {
    int n = g.range(0, maxRanges);
    std::vector<std::pair<U, U>> v;
    for (int i = 0; i < n; ++i) {
        std::uint64_t a = p.val(g), b = g.coin() ? a + 1 + g.below(3) : p.val(g);
        if (!g.chance(1, 10) && b < a) std::swap(a, b);
        if (a == b) ++b;
        s.insert(a, b);
        m = m.join(Model::range(a, b));
    }
    if (g.chance(1, 6)) { s.complement(); m = m.complement(); }
    if (g.chance(1, 40)) { s.fill(); m = Model::range(0, 0); }
}
bool contains(Model const & a, Model const & b) { return b.minus(a).empty(); }
bool meets(Model const & a, Model const & b) { return !a.meet(b).empty(); }
}  // namespace

static void queries(pbt::Gen & g, pbt::Ctx & c, int maxRanges) {
    Pool p(g);
    RangeSet s, t;
    Model m, mt;
    gen(g, p, s, m, maxRanges);
    if (g.chance(1, 3)) {   // related sets: sub- and supersets are otherwise rare
        t = s; mt = m;
        std::uint64_t a = p.val(g), b = a + 1 + g.below(3);
        switch (g.below(3)) {
            case 0: t.insert(a, b); mt = mt.join(Model::range(a, b)); break;
            case 1: t.erase(a, b); mt = mt.minus(Model::range(a, b)); break;
            default: t.complement(); mt = mt.complement(); break;
        }
    } else gen(g, p, t, mt, maxRanges);
    if (m.r.size() >= 2 || (!m.r.empty() && (m.r[0].first == 0 || m.r.back().second == TOP))) c.nontrivial();
    c.note("s=", show(m), " t=", show(mt));
    REQUIRE(s.contains(t) == contains(m, mt), "contains(set)");
    REQUIRE(t.contains(s) == contains(mt, m), "contains(set)");
    REQUIRE(s.isWithin(t) == contains(mt, m), "isWithin(set)");
    REQUIRE(s.intersects(t) == meets(m, mt), "intersects(set)");
    REQUIRE(s.isDisjointFrom(t) == !meets(m, mt), "isDisjointFrom(set)");
    REQUIRE(s.contains(s) && s.isWithin(s), "self containment");
    REQUIRE(s.intersects(s) == !m.empty(), "self intersection");
    REQUIRE((s == t) == (m.r == mt.r), "equality");
    c.label(contains(m, mt), "contains"); c.label(!meets(m, mt), "disjoint"); c.label(contains(mt, m), "within");
    for (int k = 0; k < 8; ++k) {
        std::uint64_t a, b;
        if (g.coin() && !m.r.empty()) {   // end points of the set, and their neighbours
            auto & q = m.r[g.below(m.r.size())];
            a = static_cast<std::uint64_t>(g.coin() ? q.first : q.second) + g.below(3) - 1;
            auto & q2 = m.r[g.below(m.r.size())];
            b = g.coin() ? static_cast<std::uint64_t>(g.coin() ? q2.first : q2.second) + g.below(3) - 1 : p.val(g);
        } else { a = p.val(g); b = p.val(g); }
        c.note("range ", a, ',', b);
        Model r = Model::range(a, b), o = Model::range(a, a + 1);
        REQUIRE(s.contains(a, b) == contains(m, r), "contains(", a, ",", b, ")");
        REQUIRE(s.intersects(a, b) == meets(m, r), "intersects(", a, ",", b, ")");
        REQUIRE(s.isWithin(a, b) == contains(r, m), "isWithin(", a, ",", b, ")");
        REQUIRE(s.isDisjointFrom(a, b) == !meets(m, r), "isDisjointFrom(", a, ",", b, ")");
        REQUIRE(s.contains(a) == m.has(a), "contains(", a, ")");
        REQUIRE(s.intersects(a) == m.has(a), "intersects(", a, ")");
        REQUIRE(s.isWithin(a) == contains(o, m), "isWithin(", a, ")");
        REQUIRE(s.isDisjointFrom(a) == !m.has(a), "isDisjointFrom(", a, ")");
    }
}
LAW(queries, 200000, 5000000, 15) { queries(g, c, 8); }
LAW(queries_many_ranges, 20000, 500000, 15) { queries(g, c, 60); }

LAW(iterators, 60000, 1000000, 20) {
    Pool p(g);
    RangeSet s;
    Model m;
    gen(g, p, s, m, 12);
    bool comp = g.coin();
    RangeSet::Iterator b = comp ? s.beginc() : s.begin(), e = comp ? s.endc() : s.end();
    if (comp) m = m.complement();
    else { REQUIRE(s.cbegin() == b && s.cend() == e); }
    ptrdiff_t n = m.r.size();
    if (n >= 2) c.nontrivial();
    c.note(comp ? "complement of " : "", show(m));
    REQUIRE(e - b == n && b - e == -n, "iterator distance");
    REQUIRE(b + n == e && n + b == e && e - n == b, "begin + n == end, end - n == begin");
    auto at = [&](ptrdiff_t i) { return std::make_tuple(static_cast<std::uint64_t>(m.r[i].first), static_cast<std::uint64_t>(m.r[i].second)); };
    for (int k = 0; n > 0 && k < 4; ++k) {
        ptrdiff_t i = g.below(n), j = g.below(n);
        RangeSet::Iterator x = b + i, y = e - (n - j);
        REQUIRE(*x == at(i), "*(begin + i)");
        REQUIRE(*y == at(j), "*(end - (n - j))");
        REQUIRE(b[i] == at(i) && x[j - i] == at(j), "operator[]");
        REQUIRE(x - y == i - j);
        REQUIRE((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j));
        RangeSet::Iterator z = x;
        z += j - i;
        REQUIRE(z == y, "+=");
        z -= j - i;
        REQUIRE(z == x, "-=");
        REQUIRE(y - (j - i) == x, "iterator minus distance");
        RangeSet::Iterator w = x;
        REQUIRE(*(w++) == at(i) && w - x == 1);
        REQUIRE(w-- - x == 1 && w == x);
        REQUIRE(++w == x + 1 && --w == x);
        using std::swap;
        RangeSet::Iterator q = y;
        swap(w, q);
        REQUIRE(w == y && q == x, "swap");
    }
}
