// C01: orientation tests return the sign of the exact determinant.
#include "geo.h"
#include "exact.h"
#include "lsst/sphgeom/orientation.h"

using namespace geo;

char const * const PROPERTY_ID = "C01";
char const * const NONTRIVIAL_RULE =
    "A case is one triple of vectors; non-trivial when the vectors are distinct and not antipodal and the double-precision determinant is within 1e-14 of zero relative to the product of their norms.";

static UnitVector3d nudge(Gen & g, UnitVector3d p) {
    double q[3] = {p.x(), p.y(), p.z()};
    int n = g.range(0, 3);
    for (int k = 0; k < n; ++k) { int i = g.below(3); q[i] = std::nextafter(q[i], g.coin() ? 2.0 : -2.0); }
    return UnitVector3d::fromNormalized(q[0], q[1], q[2]);
}
// A point on the great circle of a and b, as exactly as doubles allow.
static UnitVector3d onCircle(Gen & g, UnitVector3d const & a, UnitVector3d const & b) {
    switch (g.below(4)) {
        case 0: return nudge(g, g.coin() ? a : -b);
        case 1: { V s = V(a) + V(b); if (s.norm() < 1e-9L) return a; return nudge(g, toUnit(s)); }
        default: { V s = V(a) * g.uniform(-1, 1) + V(b) * g.uniform(-1, 1); if (s.norm() < 1e-9L) return b; return nudge(g, toUnit(s)); }
    }
}


static void permutations(UnitVector3d const & a, UnitVector3d const & b, UnitVector3d const & d, int want) {
    REQUIRE(orientation(a, b, d) == want && orientation(b, d, a) == want && orientation(d, a, b) == want, "orientation of an even permutation is not ", want);
    REQUIRE(orientation(b, a, d) == -want && orientation(a, d, b) == -want && orientation(d, b, a) == -want, "orientation of an odd permutation is not ", -want);
    REQUIRE(orientation(-a, b, d) == -want && orientation(a, -b, d) == -want && orientation(a, b, -d) == -want && orientation(-a, -b, d) == want, "orientation with negated vectors");
}

// Vectors next to one axis whose other components come from a small pool of values, often so tiny that products underflow.
static std::vector<UnitVector3d> family(Gen & g, int n, int k) {
    double lo = g.coin() ? -20 : -1074;
    double v[3];
    for (double & x : v) x = std::ldexp(1 + g.unit(), static_cast<int>(g.uniform(lo, -8)));
    if (g.coin()) v[1] = v[0] * g.pick({2.0, 0.5, 3.0});
    std::vector<UnitVector3d> r;
    while (static_cast<int>(r.size()) < n) {
        double q[3];
        for (double & x : q) x = (g.coin() ? 1 : -1) * (g.chance(1, 8) ? 0.0 : v[g.below(3)]);
        int z = g.chance(1, 12) ? (k + 1) % 3 : k;
        q[z] = 0;
        q[z] = (g.coin() ? 1 : -1) * std::sqrt(1 - (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]));
        r.push_back(UnitVector3d::fromNormalized(q[0], q[1], q[2]));
    }
    return r;
}

LAW(units, 120000, 6000000, 8) {
    World w(g);
    UnitVector3d a = w.unit(), b = g.chance(1, 4) ? toUnit(toward(V(a), w.randomDirection(), g.logUniform(-16, 0))) : w.unit();
    UnitVector3d d = g.chance(3, 4) ? onCircle(g, a, b) : w.unit();
    if (g.chance(1, 6)) { a = nudge(g, a); }
    if (g.chance(1, 6)) { b = nudge(g, b); }
    if (g.chance(1, 6)) { auto f = family(g, 3, g.below(3)); a = f[0]; b = f[1]; d = f[2]; }
    c.note(show(a), " ", show(b), " ", show(d));
    if (!(a == b) && !(b == d) && !(a == d) && !(a == -b) && !(b == -d) && !(a == -d) && fabsl(V(a).dot(V(b).cross(V(d)))) < 1e-14L) c.nontrivial();
    int want = exact::det(a, b, d);
    c.label(want == 0, "exactly coplanar");
    REQUIRE(orientation(a, b, d) == want, "orientation is ", orientation(a, b, d), ", the determinant's sign is ", want);
    REQUIRE(orientationExact(a, b, d) == want, "orientationExact is ", orientationExact(a, b, d), ", the determinant's sign is ", want);
    permutations(a, b, d, want);
}

LAW(axis, 80000, 4000000, 8) {
    World w(g);
    UnitVector3d b = w.unit(), d = b;
    int k = g.below(3);
    UnitVector3d e = k == 0 ? UnitVector3d::X() : k == 1 ? UnitVector3d::Y() : UnitVector3d::Z();
    if (g.chance(3, 4)) d = onCircle(g, b, e);
    else if (g.coin()) { // the other two components in proportion
        double q[3] = {b.x(), b.y(), b.z()}; double s = std::ldexp(1.0, -g.range(0, 3)) * (g.coin() ? 1 : 3);
        q[(k + 1) % 3] *= s * 0.25; q[(k + 2) % 3] *= s * 0.25;
        double r = q[(k + 1) % 3] * q[(k + 1) % 3] + q[(k + 2) % 3] * q[(k + 2) % 3];
        q[k] = (g.coin() ? 1 : -1) * std::sqrt(std::max(0.0, 1 - r));
        d = UnitVector3d::fromNormalized(q[0], q[1], q[2]);
    } else d = w.unit();
    if (g.chance(1, 5)) { auto f = family(g, 2, g.chance(1, 4) ? k : (k + 1 + g.below(2)) % 3); b = f[0]; d = f[1]; }
    c.note("XYZ"[k], " ", show(b), " ", show(d));
    if (!(b == d) && !(b == -d) && fabsl(V(e).dot(V(b).cross(V(d)))) < 1e-14L) c.nontrivial();
    int want = exact::det(e, b, d);
    int got = k == 0 ? orientationX(b, d) : k == 1 ? orientationY(b, d) : orientationZ(b, d);
    int swapped = k == 0 ? orientationX(d, b) : k == 1 ? orientationY(d, b) : orientationZ(d, b);
    REQUIRE(got == want, "the axis orientation is ", got, ", the determinant's sign is ", want);
    REQUIRE(swapped == -want, "swapped, the axis orientation is ", swapped, ", not ", -want);
    REQUIRE(orientation(e, b, d) == want, "orientation is ", orientation(e, b, d), ", the determinant's sign is ", want);
}

// Any finite double.
static double anyDouble(Gen & g) {
    switch (g.below(8)) {
        case 0: return g.range(-3, 3);
        case 1: return g.pick({0.0, -0.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 1.0 + 0x1p-52});
        case 2: return std::ldexp(g.uniform(-1, 1), g.range(-1074, 1023));
        case 3: return std::ldexp(static_cast<double>(g.range(-9, 9)), g.range(-1074, 1000));
        case 4: return g.uniform(-1, 1);
        case 5: { double x; std::uint64_t u = g.u64() & ~(std::uint64_t(0x7ff) << 52); std::memcpy(&x, &u, 8); return x; }  // subnormal
        default: return (g.coin() ? 1 : -1) * std::ldexp(1 + g.unit(), g.range(-60, 60));
    }
}

LAW(any_magnitude, 80000, 4000000, 8) {
    double q[3][3];
    for (auto & r : q) for (double & x : r) x = anyDouble(g);
    bool special = false;
    if (g.chance(2, 3)) { // a combination of the first two with small integer or power of two coefficients, so coplanar if nothing is rounded
        double s = std::ldexp(static_cast<double>(g.range(-3, 3)), g.range(-40, 40)), t = std::ldexp(static_cast<double>(g.range(-3, 3)), g.range(-40, 40));
        if (g.coin()) for (int r = 0; r < 2; ++r) for (int i = 0; i < 3; ++i) if (std::fabs(q[r][i]) > 1e290 || (q[r][i] != 0 && std::fabs(q[r][i]) < 1e-290) || g.coin()) q[r][i] = std::ldexp(static_cast<double>(g.range(-999, 999)), g.range(-10, 10));
        for (int i = 0; i < 3; ++i) q[2][i] = s * q[0][i] + t * q[1][i];
        for (int i = 0; i < 3; ++i) if (!std::isfinite(q[2][i])) q[2][i] = 1;
        if (g.coin()) { int i = g.below(3); q[2][i] = std::nextafter(q[2][i], g.coin() ? 1e308 : -1e308); }
        special = true;
    }
    int o[3] = {0, 1, 2};
    if (g.coin()) std::swap(o[0], o[2]);
    Vector3d v[3];
    for (int i = 0; i < 3; ++i) v[i] = Vector3d(q[o[i]][0], q[o[i]][1], q[o[i]][2]);
    c.note(v[0], " ", v[1], " ", v[2]);
    if (special && !v[0].isZero() && !v[1].isZero() && !v[2].isZero()) c.nontrivial();
    int want = exact::det(v[0], v[1], v[2]);
    c.label(want == 0, "exactly coplanar");
    REQUIRE(orientationExact(v[0], v[1], v[2]) == want, "orientationExact is ", orientationExact(v[0], v[1], v[2]), ", the determinant's sign is ", want);
    REQUIRE(orientationExact(v[1], v[2], v[0]) == want, "orientationExact of a cyclic permutation is not ", want);
    REQUIRE(orientationExact(v[1], v[0], v[2]) == -want, "orientationExact of a swapped pair is not ", -want);
}
