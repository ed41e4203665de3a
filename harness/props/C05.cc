// C05: linear intervals and 3-d boxes obey set algebra.
#include "pbt.h"
#include <algorithm>
#include <array>
#include <limits>
#include <sstream>
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Interval1d.h"

using namespace lsst::sphgeom;

char const * const PROPERTY_ID = "C05";
char const * const NONTRIVIAL_RULE =
    "A case is two intervals (of numbers or of angles) or two 3-d boxes and several points, every operation of which is compared with "
    "the sets they denote; non-trivial when both operands are non-empty and neither equals the other.";

namespace {
double const INF = std::numeric_limits<double>::infinity();
double const NAN_ = std::numeric_limits<double>::quiet_NaN();

// The set model: an empty set, or all x with a <= x <= b.
struct S {
    bool e = true;
    double a = 0, b = 0;
    S() {}
    S(double a_, double b_) : e(!(a_ <= b_)), a(a_), b(b_) {}
    bool has(double x) const { return !e && a <= x && x <= b; }
    bool within(S const & o) const { return e || (!o.e && o.a <= a && b <= o.b); }
    bool same(S const & o) const { return (e && o.e) || (!e && !o.e && a == o.a && b == o.b); }
    S meet(S const & o) const {
        if (e || o.e) return S();
        return S(a > o.a ? a : o.a, b < o.b ? b : o.b);
    }
    S hull(S const & o) const {
        if (e) return o;
        if (o.e) return *this;
        return S(a < o.a ? a : o.a, b > o.b ? b : o.b);
    }
};
S point(double x) { return S(x, x); }
std::string show(S const & s) { return s.e ? "{}" : pbt::cat('[', s.a, ',', s.b, ']'); }

double num(double x) { return x; }
double num(Angle x) { return x.asRadians(); }

template <typename I> S setOf(I const & i) { return S(num(i.getA()), num(i.getB())); }

Relationship expected(S const & s, S const & t) {
    Relationship r;
    if (t.within(s)) r |= CONTAINS;
    if (s.within(t)) r |= WITHIN;
    if (s.meet(t).e) r |= DISJOINT;
    return r;
}

// Bounds come from a small pool, so that coincidences are frequent.
struct Pool {
    std::vector<double> v;
    Pool(pbt::Gen & g) {
        switch (g.below(3)) {
            case 0: v = {0, 1, -1, 2, -2, 3, 0.5}; break;
            case 1:
                for (int i = 0; i < 5; ++i) v.push_back(g.uniform(-10, 10));
                break;
            default: {
                double x = g.uniform(-4, 4);
                v = {x, std::nextafter(x, 9.0), std::nextafter(x, -9.0), x + 1, -0.0, 0.0, x * 1e-300, x * 1e300};
            }
        }
        if (g.coin()) { v.push_back(INF); v.push_back(-INF); }
        if (g.chance(1, 4)) v.push_back(NAN_);
    }
    double get(pbt::Gen & g) const { return v[g.below(v.size())]; }
};
template <typename I> struct Of;
template <> struct Of<Interval1d> {
    typedef double Sc;
};
template <> struct Of<AngleInterval> {
    typedef Angle Sc;
};

template <typename I>
I gen(pbt::Gen & g, Pool const & p) {
    typedef typename Of<I>::Sc Sc;
    switch (g.below(10)) {
        case 0: return I::empty();
        case 1: return I::full();
        case 2: return I(Sc(p.get(g)));
        default: {
            double a = p.get(g), b = p.get(g);
            if (a > b && !g.chance(1, 6)) std::swap(a, b);
            return I(Sc(a), Sc(b));
        }
    }
}

template <typename I>
void intervals(pbt::Gen & g, pbt::Ctx & c) {
    typedef typename Of<I>::Sc Sc;
    Pool p(g);
    I i = gen<I>(g, p), j = gen<I>(g, p);
    S s = setOf(i), t = setOf(j);
    c.note("i=[", num(i.getA()), ',', num(i.getB()), "] j=[", num(j.getA()), ',', num(j.getB()), ']');
    if (!s.e && !t.e && !s.same(t)) c.nontrivial();
    REQUIRE(I().isEmpty() && I::empty().isEmpty() && !I::full().isEmpty());
    REQUIRE(setOf(I::full()).same(S(-INF, INF)));
    REQUIRE(i.isEmpty() == s.e);
    REQUIRE((i == j) == s.same(t) && (i != j) == !s.same(t));
    REQUIRE(i.contains(j) == t.within(s), "contains(interval)");
    REQUIRE(i.isWithin(j) == s.within(t), "isWithin(interval)");
    REQUIRE(i.intersects(j) == !s.meet(t).e, "intersects(interval)");
    REQUIRE(i.isDisjointFrom(j) == s.meet(t).e, "isDisjointFrom(interval)");
    REQUIRE(i.relate(j) == expected(s, t), "relate(interval) = ", i.relate(j).to_ulong());
    c.label(s.within(t), "within"); c.label(s.meet(t).e, "disjoint"); c.label(!expected(s, t).any(), "crossing");
    I k = i.clippedTo(j);
    REQUIRE(setOf(k).same(s.meet(t)), "clippedTo gave ", show(setOf(k)), " for ", show(s), " and ", show(t));
    I k2 = i;
    k2.clipTo(j);
    REQUIRE(k2 == k);
    k = i.expandedTo(j);
    REQUIRE(setOf(k).same(s.hull(t)), "expandedTo gave ", show(setOf(k)), " for ", show(s), " and ", show(t));
    k2 = i;
    k2.expandTo(j);
    REQUIRE(k2 == k);
    if (!s.e && std::isfinite(s.a) && std::isfinite(s.b)) {
        double ctr = num(i.getCenter()), size = num(i.getSize());
        if (std::fabs(s.a) < 1e300 && std::fabs(s.b) < 1e300) {
            long double m = 0.5L * ((long double)s.a + s.b), z = (long double)s.b - s.a;
            REQUIRE(std::fabs((double)(ctr - m)) <= 1e-15 * (std::fabs(s.a) + std::fabs(s.b)) + 1e-320, "center ", ctr);
            REQUIRE(std::fabs((double)(size - z)) <= 1e-15 * std::fabs((double)z) + 1e-320, "size ", size);
        }
        REQUIRE((size == 0) == (s.a == s.b), "size ", size);
    } else if (s.e) {
        double size = num(i.getSize());
        REQUIRE(!(size >= 0), "size of an empty interval is ", size);
    }
    for (int n = 0; n < 4; ++n) {
        double x = g.chance(1, 8) ? NAN_ : (g.chance(1, 4) ? num(i.getA()) : (g.chance(1, 3) ? num(i.getB()) : p.get(g)));
        c.note("x=", x);
        S q = point(x);
        REQUIRE(i.contains(Sc(x)) == q.within(s), "contains(", x, ")");
        REQUIRE(i.intersects(Sc(x)) == !q.meet(s).e, "intersects(", x, ")");
        REQUIRE(i.isDisjointFrom(Sc(x)) == q.meet(s).e, "isDisjointFrom(", x, ")");
        REQUIRE(i.isWithin(Sc(x)) == s.within(q), "isWithin(", x, ")");
        REQUIRE(i.relate(Sc(x)) == expected(s, q), "relate(", x, ") = ", i.relate(Sc(x)).to_ulong());
        REQUIRE((i == Sc(x)) == s.same(q) && (i != Sc(x)) == !s.same(q), "== ", x);
        REQUIRE(setOf(i.clippedTo(Sc(x))).same(s.meet(q)), "clippedTo(", x, ")");
        REQUIRE(setOf(i.expandedTo(Sc(x))).same(s.hull(q)), "expandedTo(", x, ") = ", show(setOf(i.expandedTo(Sc(x)))));
        I m = i;
        m.clipTo(Sc(x));
        REQUIRE(m == i.clippedTo(Sc(x)));
        m = i;
        m.expandTo(Sc(x));
        REQUIRE(m == i.expandedTo(Sc(x)));
        // Dilation is the Minkowski sum with [-r, r], erosion its dual.
        double r = g.pick({0.0, 0.5, 1.0, 1.5, 2.0, g.uniform(0, 3), 1e-17, NAN_, g.logUniform(-20, 3)});
        if (g.coin()) r = -r;
        I d = i.dilatedBy(Sc(r));
        c.note("r=", r);
        if (r != r || r == 0 || s.e) {
            REQUIRE(setOf(d).same(s), "dilatedBy(", r, ") gave ", show(setOf(d)));
        } else {
            long double ea = (long double)s.a - r, eb = (long double)s.b + r;
            long double tol = std::isfinite(s.a) && std::isfinite(s.b) ? 2.3e-16L * std::max({std::fabs(ea), std::fabs(eb), (long double)1e-300}) : 0;
            if (std::isfinite(s.a) && std::isfinite(s.b)) {
                if (ea > eb + 2 * tol) REQUIRE(d.isEmpty(), "erosion by ", r, " left ", show(setOf(d)));
                if (ea <= eb - 2 * tol) {
                    REQUIRE(!d.isEmpty(), "dilatedBy(", r, ") emptied ", show(s));
                    REQUIRE(std::fabs(num(d.getA()) - ea) <= tol && std::fabs(num(d.getB()) - eb) <= tol,
                            "dilatedBy(", r, ") gave ", show(setOf(d)), " for ", show(s));
                }
            } else if (!(s.a == INF || s.b == -INF)) {   // a half-line or everything: the finite end moves
                REQUIRE(setOf(d).same(S(s.a - r, s.b + r)), "dilatedBy(", r, ") gave ", show(setOf(d)));
            }
        }
        I e = i.erodedBy(Sc(-r));
        REQUIRE(e == d, "erodedBy(-r)");
        e = i;
        e.dilateBy(Sc(r));
        REQUIRE(e == d, "dilateBy");
        e = i;
        e.erodeBy(Sc(-r));
        REQUIRE(e == d, "erodeBy");
    }
}

typedef std::array<S, 3> B3;
bool empty(B3 const & b) { return b[0].e || b[1].e || b[2].e; }
B3 setOf3(Box3d const & b) { return {setOf(b.x()), setOf(b.y()), setOf(b.z())}; }
bool within(B3 const & a, B3 const & b) {
    return empty(a) || (!empty(b) && a[0].within(b[0]) && a[1].within(b[1]) && a[2].within(b[2]));
}
B3 meet(B3 const & a, B3 const & b) {
    if (empty(a) || empty(b)) return B3();
    return {a[0].meet(b[0]), a[1].meet(b[1]), a[2].meet(b[2])};
}
B3 hull(B3 const & a, B3 const & b) {
    if (empty(a)) return b;
    if (empty(b)) return a;
    return {a[0].hull(b[0]), a[1].hull(b[1]), a[2].hull(b[2])};
}
bool same(B3 const & a, B3 const & b) { return within(a, b) && within(b, a); }
Relationship expected(B3 const & s, B3 const & t) {
    Relationship r;
    if (within(t, s)) r |= CONTAINS;
    if (within(s, t)) r |= WITHIN;
    if (empty(meet(s, t))) r |= DISJOINT;
    return r;
}
std::string show(B3 const & b) { return show(b[0]) + "x" + show(b[1]) + "x" + show(b[2]); }
B3 point(Vector3d const & v) { return {point(v.x()), point(v.y()), point(v.z())}; }

// A box is empty or none of its intervals is, whatever built it.
void coherent(Box3d const & b, B3 const & s, char const * what) {
    B3 m = setOf3(b);
    REQUIRE(b.isEmpty() == empty(s), what, ": isEmpty is ", b.isEmpty(), " for ", show(s), "; intervals ", show(m));
    REQUIRE(same(m, s), what, ": gave ", show(m), " and not ", show(s));
    REQUIRE(m[0].e == m[1].e && m[1].e == m[2].e, what, ": only some intervals are empty: ", show(m));
}
}  // namespace

LAW(numbers, 120000, 1500000, 20) { intervals<Interval1d>(g, c); }
LAW(angles, 100000, 1200000, 20) { intervals<AngleInterval>(g, c); }

LAW(factories, 5000, 50000, 20) {
    double x = g.uniform(-400, 400), y = g.uniform(-400, 400);
    c.note("x=", x, " y=", y);
    c.nontrivial();
    AngleInterval d = AngleInterval::fromDegrees(x, y), r = AngleInterval::fromRadians(x, y);
    REQUIRE(std::fabs(d.getA().asDegrees() - x) <= 1e-15 * std::fabs(x) * 4 && std::fabs(d.getB().asDegrees() - y) <= 1e-15 * std::fabs(y) * 4);
    REQUIRE(r.getA().asRadians() == x && r.getB().asRadians() == y);
    REQUIRE(d.isEmpty() == (x > y) && r.isEmpty() == (x > y));
    REQUIRE(Interval1d::full().isFull() && !Interval1d(x, y).isFull() && !Interval1d(-INF, y).isFull() && !Interval1d(x, INF).isFull() && !Interval1d().isFull());
    std::ostringstream os;
    os.precision(17);
    os << Interval1d(x, y);
    double p = 0, q = 0;
    REQUIRE(std::sscanf(os.str().c_str(), "[%lf, %lf]", &p, &q) == 2 && p == x && q == y, "printed ", os.str());
}

LAW(boxes, 120000, 1500000, 20) {
    Pool p(g);
    auto mk = [&]() {
        switch (g.below(8)) {
            case 0: return Box3d();
            case 1: return g.coin() ? Box3d::full() : Box3d::aroundUnitSphere();
            case 2: return Box3d(Vector3d(p.get(g), p.get(g), p.get(g)));
            default: break;
        }
        Interval1d a = gen<Interval1d>(g, p), b = gen<Interval1d>(g, p), d = gen<Interval1d>(g, p);
        if (!g.chance(1, 5)) {   // otherwise most boxes are empty
            if (a.isEmpty()) a = Interval1d(-1, 1);
            if (b.isEmpty()) b = Interval1d(-1, 1);
            if (d.isEmpty()) d = Interval1d(-1, 1);
        }
        B3 want{setOf(a), setOf(b), setOf(d)};
        if (g.coin()) {
            Box3d r(Vector3d(a.getA(), b.getA(), d.getA()), Vector3d(a.getB(), b.getB(), d.getB()));
            coherent(r, want, "Box3d(v1, v2)");
            return r;
        }
        Box3d r(a, b, d);
        coherent(r, want, "Box3d(x, y, z)");
        return r;
    };
    Box3d i = mk(), j = mk();
    if (g.chance(1, 4)) j = Box3d(i.x(), g.coin() ? i.y() : gen<Interval1d>(g, p), g.coin() ? i.z() : gen<Interval1d>(g, p));
    B3 s = setOf3(i), t = setOf3(j);
    c.note("i=", show(s), " j=", show(t));
    if (!empty(s) && !empty(t) && !same(s, t)) c.nontrivial();
    coherent(i, s, "i");
    REQUIRE(i.isFull() == same(s, {S(-INF, INF), S(-INF, INF), S(-INF, INF)}));
    REQUIRE((i == j) == same(s, t) && (i != j) == !same(s, t), "==");
    REQUIRE(i.contains(j) == within(t, s), "contains(box)");
    REQUIRE(i.isWithin(j) == within(s, t), "isWithin(box)");
    REQUIRE(i.intersects(j) == !empty(meet(s, t)), "intersects(box)");
    REQUIRE(i.isDisjointFrom(j) == empty(meet(s, t)), "isDisjointFrom(box)");
    REQUIRE(i.relate(j) == expected(s, t), "relate(box) = ", i.relate(j).to_ulong(), " and not ", expected(s, t).to_ulong());
    c.label(within(s, t), "within"); c.label(empty(meet(s, t)), "disjoint"); c.label(!expected(s, t).any(), "crossing");
    Box3d k = i;
    k.clipTo(j);
    coherent(k, meet(s, t), "clipTo");
    REQUIRE(i.clippedTo(j) == k);
    k = i;
    k.expandTo(j);
    coherent(k, hull(s, t), "expandTo");
    REQUIRE(i.expandedTo(j) == k);
    REQUIRE(i(0) == i.x() && i(1) == i.y() && i(2) == i.z());
    if (!empty(s) && std::isfinite(s[0].a) && std::isfinite(s[0].b) && std::isfinite(s[1].a) && std::isfinite(s[1].b) &&
        std::isfinite(s[2].a) && std::isfinite(s[2].b)) {
        REQUIRE(i.getWidth() == i.x().getSize() && i.getHeight() == i.y().getSize() && i.getDepth() == i.z().getSize());
        REQUIRE(i.getCenter() == Vector3d(i.x().getCenter(), i.y().getCenter(), i.z().getCenter()));
    }
    for (int n = 0; n < 3; ++n) {
        auto coord = [&](int axis) {
            if (!empty(s) && g.chance(2, 3)) return g.coin() ? s[axis].a : s[axis].b;
            return g.chance(1, 12) ? NAN_ : p.get(g);
        };
        double x = coord(0), y = coord(1), z = coord(2);
        Vector3d v(x, y, z);
        c.note("v=", x, ',', y, ',', z);
        B3 q = point(v);
        coherent(Box3d(v), q, "Box3d(v)");
        REQUIRE(i.contains(v) == within(q, s), "contains(v)");
        REQUIRE(i.contains(x, y, z) == within(q, s), "contains(x, y, z)");
        REQUIRE(i.intersects(v) == !empty(meet(q, s)), "intersects(v)");
        REQUIRE(i.isDisjointFrom(v) == empty(meet(q, s)), "isDisjointFrom(v)");
        REQUIRE(i.isWithin(v) == within(s, q), "isWithin(v)");
        REQUIRE((i == v) == same(s, q) && (i != v) == !same(s, q), "== v");
        REQUIRE(i.relate(v) == expected(s, q), "relate(v) = ", i.relate(v).to_ulong());
        Box3d b = i;
        b.clipTo(v);
        coherent(b, meet(s, q), "clipTo(v)");
        REQUIRE(i.clippedTo(v) == b);
        b = i;
        b.expandTo(v);
        coherent(b, hull(s, q), "expandTo(v)");
        REQUIRE(i.expandedTo(v) == b);
    }
    double w = g.pick({0.0, 0.5, -0.5, 1.0, -1.0, -2.5, g.uniform(-3, 3), NAN_}), h = g.coin() ? w : g.uniform(-3, 3),
           d = g.coin() ? w : g.uniform(-3, 3);
    c.note("w=", w, " h=", h, " d=", d);
    B3 e;
    if (!empty(s)) e = {setOf(i.x().dilatedBy(w)), setOf(i.y().dilatedBy(h)), setOf(i.z().dilatedBy(d))};
    Box3d b = i;
    b.dilateBy(w, h, d);
    coherent(b, e, "dilateBy(w, h, d)");
    REQUIRE(i.dilatedBy(w, h, d) == b && i.erodedBy(-w, -h, -d) == b);
    b = i;
    b.erodeBy(-w, -h, -d);
    REQUIRE(i.dilatedBy(w, h, d) == b);
    if (i.isFull()) REQUIRE(i.dilatedBy(w, h, d).isFull());
    REQUIRE(i.dilatedBy(w) == i.dilatedBy(w, w, w) && i.erodedBy(w) == i.dilatedBy(-w, -w, -w));
    b = i;
    b.dilateBy(w);
    REQUIRE(b == i.dilatedBy(w));
    b = i;
    b.erodeBy(w);
    REQUIRE(b == i.erodedBy(w));
    Vector3d v(p.get(g), p.get(g), p.get(g));
    B3 m = point(v);
    if (!empty(m)) m = {setOf(Interval1d(v.x()).dilatedBy(w)), setOf(Interval1d(v.y()).dilatedBy(h)), setOf(Interval1d(v.z()).dilatedBy(d))};
    coherent(Box3d(v, w, h, d), m, "Box3d(v, w, h, d)");
}
