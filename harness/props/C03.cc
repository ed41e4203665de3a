// C03: a RangeSet behaves as the mathematical set of its integers, whatever the history of operations.
#include "rsmodel.h"
#include <sstream>

using namespace lsst::sphgeom;

char const * const PROPERTY_ID = "C03";
char const * const NONTRIVIAL_RULE =
    "A case is a history of up to 40 mutations and set operations on three range sets; non-trivial when some set holds "
    "two or more ranges, or touches 0 or 2^64-1, while an operation runs.";

namespace {

// A value pool that makes end points collide, abut and wrap.
struct Pool {
    int mode;
    std::uint64_t base;
    Pool(pbt::Gen & g) : mode(g.below(5)), base(g.u64()) {}
    std::uint64_t val(pbt::Gen & g) const {
        switch (mode) {
            case 0: return g.below(12);
            case 1: return static_cast<std::uint64_t>(-6) + g.below(12);   // around the wrap
            case 2: return base + g.below(24);
            case 3: { static const int sh[] = {0, 1, 2, 31, 32, 33, 62, 63};
                      return (1ULL << sh[g.below(8)]) + g.below(5) - 2; }
            default: return g.chance(1, 3) ? g.u64() : (g.coin() ? g.below(40) : ~0ULL - g.below(40));
        }
    }
};

void verify(RangeSet const & s, Model const & m, char const * what) {
    REQUIRE(s.isValid(), "invalid after ", what);
    Model got = readSet(s);
    REQUIRE(got.r == m.r, what, ": got ", show(got), " want ", show(m));
    Model gotc = readRanges(s.beginc(), s.endc());
    REQUIRE(gotc.r == m.complement().r, what, " complement iteration: got ", show(gotc), " want ", show(m.complement()));
    REQUIRE(s.size() == m.r.size(), what, " size ", s.size(), " want ", m.r.size());
    REQUIRE(s.empty() == m.empty() && s.full() == m.full(), what, " empty/full");
    U n = 0;
    for (auto & p : m.r) n += p.second - p.first;
    REQUIRE(s.cardinality() == static_cast<std::uint64_t>(n), what, " cardinality");
}

void history(pbt::Gen & g, pbt::Ctx & c, int maxOps) {
    RangeSet s[3];
    Model m[3];
    Pool pool(g);
    int n = g.range(1, maxOps);
    for (int k = 0; k < n; ++k) {
        int i = g.below(3), j = g.below(3);
        for (auto & x : m) if (x.r.size() >= 2 || (!x.r.empty() && (x.r[0].first == 0 || x.r.back().second == TOP))) c.nontrivial();
        std::uint64_t a = pool.val(g), b = pool.val(g);
        int op = g.below(20);
        c.note("op", op, " s", i, " s", j, ' ', a, ' ', b);
        char const * what = "";
        Model one = Model::range(a, a + 1), rng = Model::range(a, b);
        switch (op) {
            case 0: what = "insert(u)"; s[i].insert(a); m[i] = m[i].join(one); break;
            case 1: case 2: case 3: what = "insert(first,last)"; s[i].insert(a, b); m[i] = m[i].join(rng); c.label(a >= b, "wrapping range"); break;
            case 4: what = "insert(tuple)"; s[i].insert(std::make_tuple(a, b)); m[i] = m[i].join(rng); break;
            case 5: what = "erase(u)"; s[i].erase(a); m[i] = m[i].minus(one); break;
            case 6: case 7: what = "erase(first,last)"; s[i].erase(a, b); m[i] = m[i].minus(rng); break;
            case 8: what = "complement"; s[i].complement(); m[i] = m[i].complement(); break;
            case 9: what = "&="; s[i] &= s[j]; m[i] = m[i].meet(m[j]); break;
            case 10: what = "|="; s[i] |= s[j]; m[i] = m[i].join(m[j]); break;
            case 11: what = "-="; s[i] -= s[j]; m[i] = m[i].minus(m[j]); break;
            case 12: what = "^="; s[i] ^= s[j]; m[i] = m[i].sym(m[j]); break;
            case 13: {
                // the non-mutating forms, all four at once, into new sets
                int l = g.below(3);
                RangeSet x = s[i] & s[j], u = s[i] | s[j], d = s[i] - s[j], y = s[i] ^ s[j];
                verify(x, m[i].meet(m[j]), "operator&");
                verify(u, m[i].join(m[j]), "operator|");
                verify(d, m[i].minus(m[j]), "operator-");
                verify(y, m[i].sym(m[j]), "operator^");
                verify(~s[i], m[i].complement(), "operator~");
                verify(s[i].intersection(s[j]), m[i].meet(m[j]), "intersection");
                verify(s[i].join(s[j]), m[i].join(m[j]), "join");
                verify(s[i].difference(s[j]), m[i].minus(m[j]), "difference");
                verify(s[i].symmetricDifference(s[j]), m[i].sym(m[j]), "symmetricDifference");
                verify(s[i].complemented(), m[i].complement(), "complemented");
                Model ms = m[i].sym(m[j]);
                s[l] = y; m[l] = ms;
                what = "assign";
                break;
            }
            case 14: { unsigned e = g.coin() ? g.below(8) : g.below(70); what = "simplify"; c.note("n=", e);
                       verify(s[i].simplified(e), m[i].simplified(e), "simplified");
                       s[i].simplify(e); m[i] = m[i].simplified(e); break; }
            case 15: { std::uint64_t f = g.coin() ? g.below(6) : pool.val(g); what = "scale"; c.note("by ", f);
                       verify(s[i].scaled(f), m[i].scaled(f), "scaled");
                       s[i].scale(f); m[i] = m[i].scaled(f); c.label(f > 5, "big scale factor"); break; }
            case 16: { what = "copy"; RangeSet t(s[j]); s[i] = t; m[i] = m[j]; break; }
            case 17: what = "swap"; swap(s[i], s[j]); std::swap(m[i], m[j]); break;
            case 18: what = "clear/fill"; if (g.chance(1, 4)) { s[i].fill(); m[i] = Model::range(0, 0); } else { s[i].clear(); m[i] = Model(); } break;
            default: {
                what = "construct";
                switch (g.below(6)) {
                    case 0: s[i] = RangeSet(a); m[i] = one; break;
                    case 1: s[i] = RangeSet(a, b); m[i] = rng; break;
                    case 2: { std::vector<std::uint64_t> v; Model mm; int q = g.below(8);
                              for (int t = 0; t < q; ++t) { v.push_back(pool.val(g)); mm = mm.join(Model::range(v.back(), v.back() + 1)); }
                              s[i] = RangeSet(v); m[i] = mm; break; }
                    case 3: { std::vector<std::tuple<std::uint64_t, std::uint64_t>> v; Model mm; int q = g.below(6);
                              for (int t = 0; t < q; ++t) { auto x = pool.val(g), y = pool.val(g); v.emplace_back(x, y); mm = mm.join(Model::range(x, y)); }
                              s[i] = RangeSet(v.begin(), v.end()); m[i] = mm; break; }
                    case 4: { RangeSet t({a, b, a}); s[i] = t; m[i] = one.join(Model::range(b, b + 1)); break; }
                    default: { RangeSet t{{a, b}, {b, a}}; s[i] = t; m[i] = rng.join(Model::range(b, a)); break; }
                }
            }
        }
        for (int q = 0; q < 3; ++q) verify(s[q], m[q], what);
        REQUIRE((s[i] == s[j]) == (m[i].r == m[j].r), "== after ", what);
        REQUIRE((s[i] != s[j]) == (m[i].r != m[j].r), "!= after ", what);
    }
}

}  // namespace

LAW(history, 120000, 3000000, 15) { history(g, c, 40); }
LAW(short_history, 300000, 8000000, 10) { history(g, c, 5); }

// Append-mostly insertion of many ranges (the documented fast path), then a few arbitrary mutations.
LAW(long_sorted, 2000, 60000, 20) {
    RangeSet s;
    std::vector<std::pair<U, U>> v;
    std::uint64_t at = g.below(3), step = 1 + g.below(1000);
    int n = g.range(1, 400);
    for (int i = 0; i < n; ++i) {
        at += g.below(3) * step;
        std::uint64_t e = at + 1 + g.below(3) * step;
        s.insert(at, e);
        v.push_back({at, e});
        at = g.coin() ? e : at;
    }
    Model m = Model::fromList(v);
    verify(s, m, "sorted inserts");
    if (m.r.size() > 2) c.nontrivial();
    c.note(n, " sorted inserts give ", m.r.size(), " ranges, step ", step);
    for (int k = 0; k < 4; ++k) {
        std::uint64_t a = g.below(at + 2), b = a + g.below(at + 2);
        if (g.coin()) { s.insert(a, b); m = m.join(Model::range(a, b)); }
        else { s.erase(a, b); m = m.minus(Model::range(a, b)); }
        verify(s, m, "mutation of a long set");
    }
    unsigned e = g.below(16);
    verify(s.simplified(e), m.simplified(e), "simplified");
}
