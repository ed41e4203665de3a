// C09: geometric utility functions match their definitions.
#include "geo.h"
#include "lsst/sphgeom/utils.h"

using namespace lsst::sphgeom;
using geo::V;
using geo::World;
using geo::ld;

char const * const PROPERTY_ID = "C09";
char const * const NONTRIVIAL_RULE =
    "A case is an arc and a point, two latitudes, a spherical triangle, a polygon, a circle radius and latitude, or an opening angle; "
    "non-trivial when the nearest or furthest point is inside the arc, the triangle or polygon is more than 1e-9 rad across, the radius is positive.";

namespace {
ld sq(ld x) { return x * x; }
ld chord2(V const & a, V const & b) { V d = a - b; return d.dot(d); }

// The integral of the position over a spherical triangle: Gauss-Legendre
// quadrature over the plane triangle, from which the sphere is seen from the
// centre as r = p / |p|, with solid angle h dA / |p|^3.
V integral(V const & a, V const & b, V const & c, int depth) {
    if (depth > 0) {
        V m = (a + b).unit(), n = (b + c).unit(), k = (c + a).unit();
        return integral(a, m, k, depth - 1) + integral(m, b, n, depth - 1) + integral(k, n, c, depth - 1) + integral(m, n, k, depth - 1);
    }
    static ld const X[8] = {0.0950125098376374401853L, 0.2816035507792589132305L, 0.4580167776572273863424L, 0.6178762444026437484467L,
                            0.7554044083550030338951L, 0.8656312023878317438805L, 0.9445750230732325760779L, 0.9894009349916499325962L};
    static ld const W[8] = {0.1894506104550684962854L, 0.1826034150449235888668L, 0.1691565193950025381893L, 0.1495959888165767320815L,
                            0.1246289712555338720525L, 0.0951585116824927848099L, 0.0622535239386478928628L, 0.0271524594117540948518L};
    V e = b - a, f = c - a, n = e.cross(f);
    ld h = n.dot(a);   // twice the area times the distance of the plane
    V sum(0, 0, 0);
    for (int i = 0; i < 16; ++i)
        for (int j = 0; j < 16; ++j) {
            ld u = 0.5L * (1 + (i < 8 ? X[i] : -X[i - 8])), v = 0.5L * (1 + (j < 8 ? X[j] : -X[j - 8]));
            ld w = 0.25L * W[i % 8] * W[j % 8] * u;   // Duffy: (u, u v)
            V p = a + e * (u * (1 - v)) + f * (u * v);
            ld r2 = p.dot(p);
            sum = sum + p * (w * h / (r2 * r2));
        }
    return sum;
}
ld size(V const & a, V const & b, V const & c) {
    return std::max({geo::angleBetween(a, b), geo::angleBetween(b, c), geo::angleBetween(c, a)});
}
std::string show(V const & v) { return pbt::cat('(', (double)v.x, ',', (double)v.y, ',', (double)v.z, ')'); }
}  // namespace

LAW(arcs, 150000, 2000000, 20) {
    World w(g);
    UnitVector3d a = w.unit(), b;
    ld len = g.coin() ? g.uniform(0.01, 3.1) : (g.coin() ? g.logUniform(-9, 0) : geo::LPI - g.logUniform(-6, -1));
    b = geo::toUnit(geo::toward(V(a), w.randomDirection(), len));
    Vector3d n = a.robustCross(b);
    if (n.isZero()) DISCARD("degenerate arc");
    bool scaled = g.chance(1, 3);   // the length of the normal does not matter
    n = scaled ? n * g.logUniform(-3, 3) : n / n.getNorm();
    V N = V(n).unit(), A = V(a).unit(), B = V(b).unit();
    // points above, on, near and opposite the arc, its ends and its poles
    ld along = g.coin() ? g.uniform(-0.3, 1.3) * (double)len : g.uniform(-3.2, 3.2);
    V p = geo::toward(A, B, std::max<ld>(0, along));
    if (along < 0) p = (A * cosl(along) + N.cross(A) * sinl(along)).unit();
    ld off = g.coin() ? g.uniform(-1.6, 1.6) : (g.coin() ? 1 : -1) * g.logUniform(-16, 0);
    p = (p * cosl(off) + N * sinl(off)).unit();
    if (g.chance(1, 3)) p = -p;
    if (g.chance(1, 20)) p = g.coin() ? A : N;
    UnitVector3d u = geo::toUnit(p);
    double f = g.chance(1, 4) ? g.logUniform(-5, 5) : 1.0;
    Vector3d v = f == 1.0 ? Vector3d(u) : u * f;
    V P = V(v).unit();
    c.note("v=", v.x(), ',', v.y(), ',', v.z(), " a=", geo::show(a), " b=", geo::show(b), " n=", n.x(), ',', n.y(), ',', n.z());
    double lo = getMinSquaredChordLength(v, a, b, n), hi = getMaxSquaredChordLength(v, a, b, n);
    // The points of the great circle nearest to and furthest from v.
    ld s = P.dot(N);
    V q = P - N * s;
    ld cs = q.norm();
    ld da = P.dot(N.cross(A)), db = P.dot(N.cross(B));   // > 0: past a, past b
    ld const T = 3e-15L;
    ld tol = 4e-15L, theta = atan2l(fabsl(s), cs);
    ld dTheta = 1.5e-15L + (scaled ? 2e-15L : 0);
    auto near = [&](double got, ld ang) {   // 4 sin^2(ang / 2) of an angle with error dTheta
        ld want = 4 * sq(sinl(ang / 2)), slack = 2 * fabsl(sinl(ang)) * dTheta + dTheta * dTheta + tol * want;
        return fabsl(got - want) <= slack;
    };
    if (cs > 1e-12L) {
        if (da > T && db < -T) {
            c.nontrivial();
            c.label("nearest inside");
            REQUIRE(near(lo, theta), "smallest squared chord is ", lo, " and not ", (double)(4 * sq(sinl(theta / 2))));
            REQUIRE(hi == 0.0, "largest squared chord is ", hi, " and not 0");
        } else if (da < -T && db > T) {
            c.nontrivial();
            c.label("furthest inside");
            REQUIRE(near(hi, geo::LPI - theta), "largest squared chord is ", hi, " and not ", (double)(4 * sq(cosl(theta / 2))));
            REQUIRE(lo == 4.0, "smallest squared chord is ", lo, " and not 4");
        } else if ((da < -T || db > T) && (da > T || db < -T)) {
            REQUIRE(lo == 4.0 && hi == 0.0, "chords are ", lo, " and ", hi, " and not 4 and 0");
        }
    }
    REQUIRE(lo >= 0 && lo <= 4 && hi >= 0 && hi <= 4.000000000000002);
    // With the ends, they bound the distance to every point of the arc.
    ld cmin = std::min<ld>(lo, std::min(chord2(P, A), chord2(P, B))), cmax = std::max<ld>(hi, std::max(chord2(P, A), chord2(P, B)));
    for (int i = 1; i < 8; ++i) {
        ld u = len * i / 8;
        V x = A * cosl(u) + N.cross(A).unit() * sinl(u);
        ld d = chord2(P, x);
        REQUIRE(d >= cmin - 1e-14L * (1 + sqrtl(cmin)) && d <= cmax + 3e-14L, "a point of the arc is at squared chord ", (double)d, ", beyond ", (double)cmin, " or ", (double)cmax);
    }
}

LAW(parallels, 100000, 1000000, 10) {
    auto lat = [&]() {
        double h = 0.5 * PI, s = g.coin() ? 1 : -1;
        switch (g.below(4)) {
            case 0: return s * g.pick({0.0, h, 0.25 * PI, std::nextafter(h, 0.0)});
            case 1: return s * (h - g.logUniform(-16, 0));
            default: return s * g.uniform(0, h);
        }
    };
    double x = lat(), k = g.chance(1, 6) ? -x : (g.chance(1, 6) ? x : lat());
    c.note("x=", x, " c=", k);
    c.nontrivial();
    ld lo = fabsl((ld)x - k), hi = geo::LPI - fabsl((ld)x + k);
    double gl = getMinAngleToCircle(Angle(x), Angle(k)).asRadians(), gh = getMaxAngleToCircle(Angle(x), Angle(k)).asRadians();
    REQUIRE(fabsl(gl - lo) <= 1e-15L, "smallest separation is ", gl, " and not ", (double)lo);
    REQUIRE(fabsl(gh - hi) <= 2e-15L, "largest separation is ", gh, " and not ", (double)hi);
    for (int i = 0; i <= 4; ++i) {
        ld d = geo::angleBetween(geo::fromLonLat(0, x), geo::fromLonLat(i * geo::LPI / 4, k));
        REQUIRE(d >= gl - 3e-15L && d <= gh + 3e-15L, "a point of the parallel is at ", (double)d);
    }
}

LAW(halfWidth, 100000, 1000000, 10) {
    double h = 0.5 * PI, s = g.coin() ? 1 : -1;
    double lat = s * (g.coin() ? g.uniform(0, h) : (g.coin() ? h - g.logUniform(-16, 0) : g.pick({0.0, h})));
    double r;
    switch (g.below(5)) {
        case 0: r = g.uniform(0, 3.3); break;
        case 1: r = g.logUniform(-300, 0); break;
        case 2: r = (h - std::fabs(lat)) * (1 + (g.coin() ? 1 : -1) * g.logUniform(-17, 0)); break;
        case 3: r = (h - std::fabs(lat)) * g.unit(); break;
        default: r = g.pick({0.0, -1.0, -1e-9, PI});
    }
    c.note("r=", r, " lat=", lat);
    double got = Box::halfWidthForCircle(Angle(r), Angle(lat)).asRadians();
    if (r <= 0) {
        REQUIRE(got == 0, "half-width is ", got);
        return;
    }
    c.nontrivial();
    ld a = fabsl(lat), H = geo::LPI / 2;
    REQUIRE(got >= 0 && got <= PI);
    auto width = [&](ld rr, ld x) { return x > 0 ? atan2l(sinl(rr), sqrtl(x)) : H; };
    ld x = cosl(a - r) * cosl(a + r);
    if (a + r >= H + 5e-16L) {
        REQUIRE(got == PI, "half-width is ", got, " for a circle with a pole");
    } else {
        // never underestimated by more than rounding, nor overestimated by more
        // than the allowance for the rounding of cos(|lat| + r)
        ld lo = width(r, x), up = width(r, cosl(a - r) * (cosl(a + r) - 1.3e-15L));
        bool pole = a + r >= H - 5e-16L;
        REQUIRE(got >= lo - 6e-16L * lo - 1e-320L, "half-width is ", got, " and not ", (double)lo);
        REQUIRE(got <= up + 1e-15L * up + 1e-320L || (pole && got == PI), "half-width is ", got, " and not ", (double)lo, " (at most ", (double)up, ')');
    }
}

LAW(chords, 100000, 1000000, 10) {
    double a;
    switch (g.below(4)) {
        case 0: a = g.uniform(0, 3.2); break;
        case 1: a = g.logUniform(-150, 0); break;
        case 2: a = PI - g.logUniform(-16, 0); break;
        default: a = g.pick({0.0, PI, -1e-300, -1.0, std::nextafter(PI, 9.0), std::nextafter(PI, 0.0), 0.5 * PI, 100.0});
    }
    c.note("a=", a);
    double s = Circle::squaredChordLengthFor(Angle(a));
    if (a < 0) REQUIRE(s < 0, "squared chord length is ", s);
    else if (a >= PI) REQUIRE(s == 4.0, "squared chord length is ", s);
    else {
        ld want = 4 * sq(sinl((ld)a / 2));
        c.nontrivial();
        REQUIRE(fabsl(s - want) <= 8e-16L * want, "squared chord length is ", s, " and not ", (double)want);
        REQUIRE(s >= 0 && s <= 4);
        double back = Circle::openingAngleFor(s).asRadians();
        ld wb = 2 * asinl(std::min<ld>(1, 0.5L * sqrtl(s)));
        ld amp = 4e-16L * tanl(std::min<ld>(wb / 2, geo::LPI / 2 - 1e-8L));
        REQUIRE(fabsl(back - wb) <= 4e-16L * wb + std::min<ld>(2 * amp, 4.5e-8L), "opening angle is ", back, " and not ", (double)wb);
        REQUIRE(fabsl(back - a) <= 4.5e-8L, "opening angle is ", back, " and not ", a);
    }
    double t = g.chance(1, 3) ? g.logUniform(-300, 0.6) : g.uniform(-0.5, 4.5);
    double o = Circle::openingAngleFor(t).asRadians();
    c.note("t=", t);
    if (t < 0) REQUIRE(o < 0, "opening angle is ", o);
    else if (t >= 4) REQUIRE(o == PI, "opening angle is ", o);
    else {
        ld wb = 2 * asinl(0.5L * sqrtl(t)), amp = 4e-16L * tanl(std::min<ld>(wb / 2, geo::LPI / 2 - 1e-8L));
        REQUIRE(fabsl(o - wb) <= 4e-16L * wb + std::min<ld>(2 * amp, 4.5e-8L), "opening angle is ", o, " and not ", (double)wb);
    }
}

LAW(triangles, 4000, 60000, 10) {
    World w(g);
    UnitVector3d a = w.unit(), b, d;
    ld s = g.coin() ? g.uniform(0.05, 1.4) : g.logUniform(-7, 0);
    b = geo::toUnit(geo::toward(V(a), w.randomDirection(), s));
    d = geo::toUnit(geo::toward(V(g.coin() ? a : b), w.randomDirection(), s * g.uniform(0.05, 1)));
    if (g.chance(1, 20)) { a = UnitVector3d::X(); b = UnitVector3d::Y(); d = UnitVector3d::Z(); if (g.coin()) std::swap(a, b); }
    c.note(geo::show(a), ' ', geo::show(b), ' ', geo::show(d));
    if (a == b || b == d || a == d) DISCARD("coincident vertices");
    V A = V(a).unit(), B = V(b).unit(), D = V(d).unit();
    ld z = size(A, B, D);
    if (z > 1e-9L) c.nontrivial();
    Vector3d got = getWeightedCentroid(a, b, d);
    V want = integral(A, B, D, z > 0.7L ? 2 : z > 0.2L ? 1 : 0);
    // each edge contributes its length, with a relative rounding error
    ld tol = 3e-15L * z + 1e-11L * want.norm();
    V e = V(got) - want;
    REQUIRE(e.norm() <= tol, "weighted centroid is ", show(V(got)), " and not ", show(want));
    c.label(want.dot(A) < 0, "clockwise");
    Vector3d r = getWeightedCentroid(b, d, a), m = getWeightedCentroid(b, a, d);
    REQUIRE((V(r) - V(got)).norm() <= 3e-15L * z && (V(m) + V(got)).norm() <= 3e-15L * z, "not invariant to rotation, or not odd under reversal");
    // additive over a cut from a vertex to the opposite edge
    UnitVector3d k = geo::toUnit(geo::toward(B, D, geo::angleBetween(B, D) * g.uniform(0.1, 0.9)));
    if (k == b || k == d) return;
    V sum = V(getWeightedCentroid(a, b, k)) + V(getWeightedCentroid(a, k, d));
    REQUIRE((sum - V(got)).norm() <= 8e-15L * z + 1e-15L, "not additive: ", show(sum), " and ", show(V(got)));
}

LAW(polygonCentroid, 30000, 300000, 10) {
    World w(g);
    ConvexPolygon p = w.polygon();
    auto const & vs = p.getVertices();
    c.note(geo::show(p));
    V cm(0, 0, 0), mean(0, 0, 0);
    ld per = 0;
    for (std::size_t i = 0; i < vs.size(); ++i) {
        V a(vs[i]), b(vs[(i + 1) % vs.size()]), n = geo::robustCross(a, b);   // exact before rounding
        ld t = atan2l(n.norm() / 2, a.dot(b));
        cm = cm + n.unit() * t;
        per += t;
        mean = mean + a;
    }
    if (per > 1e-9L) c.nontrivial();
    UnitVector3d got = p.getCentroid();
    REQUIRE(fabsl(V(got).norm() - 1) < 1e-15L, "centroid is ", geo::show(got));
    ld dir = 2e-15L * per / std::max<ld>(cm.norm(), 1e-300L);   // the rounding error of the direction
    if (dir < 0.1L) REQUIRE(geo::angleBetween(V(got), cm) <= 4 * dir + 1e-15L, "centroid is ", geo::show(got), " and not ", show(cm.unit()));
    else c.label("sliver");
}
