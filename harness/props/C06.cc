// C06: wrapped longitude intervals obey set algebra on the circle.
#include "pbt.h"
#include <algorithm>
#include <limits>
#include <sstream>
#include "lsst/sphgeom/NormalizedAngleInterval.h"

using namespace lsst::sphgeom;

char const * const PROPERTY_ID = "C06";
char const * const NONTRIVIAL_RULE =
    "A case is two arcs of the circle with end points from a small pool (so that they coincide, abut and complement each other often), or "
    "one arc and a dilation radius; every operation is compared with the sets of angles. Non-trivial when both arcs are non-empty, "
    "neither is full, and they differ; for dilations, when the arc is neither empty nor full.";

namespace {
typedef long double ld;
ld const TWO_PI = 6.283185307179586476925286766559L;
double const NAN_ = std::numeric_limits<double>::quiet_NaN();

// End points are indexes into a pool of distinct angles in [0, 2 pi), in order.
// On it, sets of angles are decided by integer arithmetic modulo the pool size.
struct Pool {
    std::vector<double> v;
    int n() const { return static_cast<int>(v.size()); }
    Pool(pbt::Gen & g) {
        double const top = std::nextafter(2 * PI, 0.0);
        switch (g.below(4)) {
            case 0:
                for (int i = 0; i < 8; ++i) v.push_back(i * (PI / 4));
                break;
            case 1:
                v = {0.0, 1.0, 3.0, PI, 6.0, top};
                break;
            case 2:
                v = {0.0, 5e-324, 1e-17, top, std::nextafter(top, 0.0), PI, std::nextafter(PI, 9), std::nextafter(PI, 0)};
                break;
            default:
                if (g.coin()) v.push_back(0.0);
                for (int i = 0; i < 6; ++i) v.push_back(g.uniform(0, 6.28318));
        }
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
    }
};
struct Arc {
    enum Kind { EMPTY, ARC, FULL } kind = EMPTY;
    int a = 0, len = 0, n = 1;   // from index a, len steps counter-clockwise
    int b() const { return (a + len) % n; }
    bool has(int i) const { return kind == FULL || (kind == ARC && (i - a + n) % n <= len); }
    bool within(Arc const & o) const {
        if (kind == EMPTY || o.kind == FULL) return true;
        if (o.kind == EMPTY || kind == FULL) return false;
        return (a - o.a + n) % n + len <= o.len;
    }
    bool meets(Arc const & o) const {
        if (kind == EMPTY || o.kind == EMPTY) return false;
        if (kind == FULL || o.kind == FULL) return true;
        return has(o.a) || o.has(a);
    }
    bool same(Arc const & o) const { return kind == o.kind && (kind != ARC || (a == o.a && len == o.len)); }
};
Arc arc(int a, int b, int n) {
    Arc r;
    r.kind = Arc::ARC;
    r.a = a;
    r.n = n;
    r.len = (b - a + n) % n;
    return r;
}
Arc full(int n) {
    Arc r;
    r.kind = Arc::FULL;
    r.n = n;
    return r;
}
NormalizedAngle na(double x) { return NormalizedAngle(x); }
NormalizedAngleInterval real(Pool const & p, Arc const & s) {
    if (s.kind == Arc::EMPTY) return NormalizedAngleInterval();
    if (s.kind == Arc::FULL) return NormalizedAngleInterval::full();
    return NormalizedAngleInterval(na(p.v[s.a]), na(p.v[s.b()]));
}
ld size(Pool const & p, Arc const & s) {
    if (s.kind == Arc::FULL) return TWO_PI;
    ld d = (ld)p.v[s.b()] - p.v[s.a];
    return d < 0 ? d + TWO_PI : d;
}
std::string show(NormalizedAngleInterval const & i) {
    return i.isEmpty() ? "{}" : pbt::cat('[', i.getA().asRadians(), ',', i.getB().asRadians(), ']');
}
Relationship expected(Arc const & s, Arc const & t) {
    Relationship r;
    if (t.within(s)) r |= CONTAINS;
    if (s.within(t)) r |= WITHIN;
    if (!s.meets(t)) r |= DISJOINT;
    return r;
}
Relationship mirror(Relationship r) {
    Relationship m = r & DISJOINT;
    if ((r & CONTAINS).any()) m |= WITHIN;
    if ((r & WITHIN).any()) m |= CONTAINS;
    return m;
}
Arc gen(pbt::Gen & g, int n) {
    switch (g.below(10)) {
        case 0: return Arc();
        case 1: return full(n);
        case 2: { int a = g.below(n); return arc(a, a, n); }
        default: { int a = g.below(n); return arc(a, g.below(n), n); }
    }
}
double const TOL = 2e-15;   // a few roundings of numbers up to 2 pi

// The distance between two angles on the circle.
ld gap(ld x, ld y) {
    ld d = std::fabs(std::remainder(x - y, TWO_PI));
    return d;
}

void check(Pool const & p, NormalizedAngleInterval const & got, std::vector<Arc> const & allowed, char const * what) {
    for (auto const & s : allowed)
        if (got == real(p, s)) return;
    std::string w;
    for (auto const & s : allowed) w += " or " + show(real(p, s));
    FAILWITH(what, " gave ", show(got), " and not ", w.substr(4));
}

std::vector<Arc> clip(Pool const & p, Arc const & s, Arc const & t) {
    if (!s.meets(t)) return {Arc()};
    if (t.within(s)) return {t};
    // An arc that misses only an angle or two has the size of the full circle
    // to rounding, and either may be kept.
    if (s.within(t) && t.kind == Arc::FULL && TWO_PI - size(p, s) < TOL) return {s, t};
    if (s.within(t)) return {s};
    bool sa = t.has(s.a), sb = t.has(s.b()), ta = s.has(t.a), tb = s.has(t.b());
    if (sa && sb && ta && tb) {   // two pieces: the smaller operand
        ld d = size(p, s) - size(p, t);
        if (std::fabs(d) < TOL) return {s, t};
        return {d < 0 ? s : t};
    }
    // They overlap at one end; the common part runs from the start of one to the end of the other.
    return {ta ? arc(t.a, s.b(), s.n) : arc(s.a, t.b(), s.n)};
}
std::vector<Arc> join(Pool const & p, Arc const & s, Arc const & t) {
    if (t.within(s)) return {s};
    if (s.within(t)) return {t};
    Arc up = arc(s.a, t.b(), s.n), down = arc(t.a, s.b(), s.n);
    if (s.meets(t)) {
        bool sa = t.has(s.a), sb = t.has(s.b()), ta = s.has(t.a), tb = s.has(t.b());
        if (sa && sb && ta && tb) return {full(s.n)};
        return {ta ? up : down};
    }
    ld d = size(p, up) - size(p, down);
    if (std::fabs(d) < TOL) return {up, down};
    return {d < 0 ? up : down};
}
}  // namespace

LAW(pairs, 200000, 2500000, 20) {
    Pool p(g);
    int n = p.n();
    Arc s = gen(g, n), t = gen(g, n);
    s.n = t.n = n;
    if (g.chance(1, 6) && s.kind == Arc::ARC) t = arc(s.b(), s.a, n);   // the complement
    NormalizedAngleInterval i = real(p, s), j = real(p, t);
    c.note("i=", show(i), " j=", show(j));
    if (s.kind == Arc::ARC && t.kind == Arc::ARC && !s.same(t)) c.nontrivial();
    REQUIRE(NormalizedAngleInterval::empty().isEmpty() && NormalizedAngleInterval::full().isFull());
    REQUIRE(i.isEmpty() == (s.kind == Arc::EMPTY) && i.isFull() == (s.kind == Arc::FULL));
    REQUIRE(i.wraps() == (s.kind == Arc::ARC && s.a > s.b()));
    REQUIRE((i == j) == s.same(t) && (i != j) == !s.same(t));
    REQUIRE(i.contains(j) == t.within(s), "contains(arc)");
    REQUIRE(i.isWithin(j) == s.within(t), "isWithin(arc)");
    REQUIRE(i.intersects(j) == s.meets(t), "intersects(arc)");
    REQUIRE(i.isDisjointFrom(j) == !s.meets(t), "isDisjointFrom(arc)");
    REQUIRE(i.relate(j) == expected(s, t), "relate(arc) = ", i.relate(j).to_ulong(), " and not ", expected(s, t).to_ulong());
    REQUIRE(j.relate(i) == mirror(i.relate(j)), "relate(arc) does not mirror");
    c.label(s.within(t), "within"); c.label(!s.meets(t), "disjoint"); c.label(!expected(s, t).any(), "crossing");
    auto cl = clip(p, s, t), jo = join(p, s, t);
    c.label(cl.size() > 1 || jo.size() > 1, "tie");
    check(p, i.clippedTo(j), cl, "clippedTo");
    check(p, i.expandedTo(j), jo, "expandedTo");
    NormalizedAngleInterval k = i;
    k.clipTo(j);
    REQUIRE(k == i.clippedTo(j));
    k = i;
    k.expandTo(j);
    REQUIRE(k == i.expandedTo(j));
    if (s.kind == Arc::EMPTY) {
        REQUIRE(i.getSize().isNan() && i.getCenter().isNan());
    } else {
        ld z = size(p, s), got = i.getSize().asRadians();
        REQUIRE(std::fabs(z - got) <= TOL, "getSize is ", (double)got, " and not ", (double)z);
        REQUIRE(s.len != 0 || s.kind == Arc::FULL || got == 0);
        if (s.kind == Arc::ARC) {
            ld ctr = p.v[s.a] + z / 2;
            REQUIRE(gap(ctr, i.getCenter().asRadians()) <= TOL, "getCenter is ", i.getCenter().asRadians(), " and not ", (double)ctr);
            REQUIRE(i.getCenter().asRadians() >= 0 && i.getCenter().asRadians() <= 2 * PI);
        }
    }
    for (int m = 0; m < 4; ++m) {
        int x = g.below(n);
        NormalizedAngle q = na(p.v[x]);
        Arc pt = arc(x, x, n);
        if (g.chance(1, 10)) { q = NormalizedAngle::nan(); pt = Arc(); pt.n = n; }
        c.note("x=", q.asRadians());
        bool nan = pt.kind == Arc::EMPTY;
        REQUIRE(i.contains(q) == pt.within(s), "contains(x)");
        REQUIRE(i.intersects(q) == pt.meets(s), "intersects(x)");
        REQUIRE(i.isDisjointFrom(q) == !pt.meets(s), "isDisjointFrom(x)");
        REQUIRE(i.isWithin(q) == s.within(pt), "isWithin(x)");
        REQUIRE(i.relate(q) == expected(s, pt), "relate(x) = ", i.relate(q).to_ulong());
        REQUIRE((i == q) == s.same(pt) && (i != q) == !s.same(pt), "== x");
        check(p, i.clippedTo(q), {!nan && s.has(x) ? pt : Arc()}, "clippedTo(x)");
        if (s.kind != Arc::EMPTY || !nan) check(p, i.expandedTo(q), nan ? std::vector<Arc>{s} : join(p, s, pt), "expandedTo(x)");
        else REQUIRE(i.expandedTo(q).isEmpty());
        k = i;
        k.clipTo(q);
        REQUIRE(k == i.clippedTo(q));
        k = i;
        k.expandTo(q);
        REQUIRE(k == i.expandedTo(q));
        REQUIRE(NormalizedAngleInterval(q) == q && NormalizedAngleInterval(Angle(q.asRadians())) == q);
    }
}

// Dilation is the Minkowski sum with [-r, r], erosion its dual. End points lie
// on a grid of 4/4096 turns and radii are odd multiples of 1/4096 turn, so that
// which case applies is never a matter of rounding.
LAW(dilation, 200000, 2500000, 20) {
    int const N = 4096;
    auto ang = [&](int k) { return static_cast<double>(TWO_PI * k / N); };
    int a = 4 * g.below(N / 4), len = 4 * g.below(N / 4);
    if (g.chance(1, 4)) len = g.pick({0, 4, N - 4, N / 2, N / 2 - 4, N / 2 + 4});
    if (g.chance(1, 6)) a = 0;
    if (g.chance(1, 6) && a) len = N - a;   // ends at 0
    int b = (a + len) % N;
    NormalizedAngleInterval i(na(ang(a)), na(ang(b)));
    int r = 2 * static_cast<int>(g.below(N / 4)) + 1;
    if (g.chance(1, 4)) r = std::abs((N - len) / 2 + g.pick({-1, 1}));       // about to close
    else if (g.chance(1, 3)) r = std::abs(len / 2 + g.pick({-1, 1}));          // about to vanish
    else if (g.chance(1, 8)) r = N / 2 + g.pick({-1, 1, 101, 5000});
    if (r % 2 == 0) ++r;
    bool erode = g.coin();
    double x = static_cast<double>(TWO_PI * r / N) * (erode ? -1 : 1);
    if (g.chance(1, 40)) x = (erode ? -1 : 1) * g.pick({std::numeric_limits<double>::infinity(), 1e300, 7.0}), r = N;
    c.note("i=", show(i), " x=", x, " (len ", len, ", r ", r, " of 4096)");
    c.nontrivial();
    NormalizedAngleInterval d = i.dilatedBy(Angle(x));
    c.note("d=", show(d));
    int want = erode ? len - 2 * r : len + 2 * r;
    c.label(want < 0, "vanishes"); c.label(want >= N, "closes"); c.label(want >= 0 && want < N, "an arc");
    if (want < 0) {
        REQUIRE(d.isEmpty(), "erosion left ", show(d));
    } else if (want > N) {
        REQUIRE(d.isFull(), "dilation gave ", show(d));
    } else {
        REQUIRE(!d.isEmpty() && !d.isFull(), "gave ", show(d));
        ld ea = (ld)ang(a) - x, eb = (ld)ang(b) + x;
        REQUIRE(gap(ea, d.getA().asRadians()) <= TOL && gap(eb, d.getB().asRadians()) <= TOL, "gave ", show(d), " and not [", (double)ea, ',', (double)eb, ']');
        ld z = TWO_PI * want / N;
        REQUIRE(std::fabs(d.getSize().asRadians() - z) <= 4 * TOL, "size ", d.getSize().asRadians());
    }
    REQUIRE(i.erodedBy(Angle(-x)) == d);
    NormalizedAngleInterval k = i;
    k.dilateBy(Angle(x));
    REQUIRE(k == d);
    k = i;
    k.erodeBy(Angle(-x));
    REQUIRE(k == d);
    REQUIRE(i.dilatedBy(Angle(0)) == i && i.dilatedBy(Angle::nan()) == i);
    NormalizedAngleInterval e, f = NormalizedAngleInterval::full();
    REQUIRE(e.dilatedBy(Angle(x)).isEmpty() && f.dilatedBy(Angle(std::fabs(x))).isFull());
}

// Arcs built from angles of any size hold the normalizations of [x, y].
LAW(endpoints, 100000, 1000000, 20) {
    double x = g.uniform(-4, 10), y = g.uniform(-4, 10);
    switch (g.below(6)) {
        case 0: x = g.uniform(-1000, 1000); y = x + g.uniform(-1, 8); break;
        case 1: y = x; break;
        case 2: y = x + g.pick({PI, 2 * PI, 6.28, 6.29}); break;
        case 4: x = g.pick({-PI, -PI / 2, -PI / 4, -2 * PI, PI, 2 * PI, -1.5 * PI}); y = x + 2 * PI; break;
        case 3: x = g.uniform(0, 6.28); y = g.uniform(0, 6.28); break;
        default: break;
    }
    if (g.chance(1, 30)) (g.coin() ? x : y) = NAN_;
    bool norm = x >= 0 && x <= 2 * PI && y >= 0 && y <= 2 * PI;
    c.note("x=", x, " y=", y);
    NormalizedAngleInterval i;
    bool threw = false;
    try { i = g.coin() ? NormalizedAngleInterval(Angle(x), Angle(y)) : NormalizedAngleInterval::fromRadians(x, y); }
    catch (std::invalid_argument &) { threw = true; }
    REQUIRE(threw == (!norm && x > y), "threw: ", threw);
    c.label(threw, "rejected");
    if (threw) return;
    if (x != x || y != y) {
        REQUIRE(i.isEmpty());
        return;
    }
    c.nontrivial();
    ld len = (ld)y - x;
    if (len < 0) len += TWO_PI;
    ld tol = 4e-16L * (std::fabs(x) + std::fabs(y) + 10);
    REQUIRE(!i.isEmpty());
    if (!norm && len >= TWO_PI + tol) REQUIRE(i.isFull(), "gave ", show(i));
    // Exactly one turn, with nothing lost in the subtraction, is the whole circle.
    if (!norm && y - x == 2 * PI && (ld)y - x == (ld)(2 * PI)) REQUIRE(i.isFull(), "one turn gave ", show(i));
    if (len <= TWO_PI - tol) {
        REQUIRE(gap(i.getA().asRadians(), x) <= tol && gap(i.getB().asRadians(), y) <= tol, "gave ", show(i));
        for (int k = 0; k < 6; ++k) {
            ld u = x + TWO_PI * g.unit(), in = u - x;
            NormalizedAngle q(static_cast<double>(u));
            // 2 pi and 0 are the same point, but different end points.
            if (gap(u, 0) < tol || gap(x, 0) < tol || gap(y, 0) < tol) continue;
            if (in > tol && in < len - tol) REQUIRE(i.contains(q), "does not contain ", (double)u);
            if (in > len + tol && in < TWO_PI - tol) REQUIRE(!i.contains(q), "contains ", (double)u);
        }
    }
    double dx = x * 57.29577951308232, dy = y * 57.29577951308232;
    if (!(dx > dy)) {
        NormalizedAngleInterval d = NormalizedAngleInterval::fromDegrees(dx, dy);
        if (len <= TWO_PI - tol) REQUIRE(gap(d.getA().asRadians(), x) <= tol && gap(d.getB().asRadians(), y) <= tol, "fromDegrees gave ", show(d));
    }
}
