// C07: angles and spherical coordinates convert accurately.
#include "geo.h"
#include <sstream>

using namespace lsst::sphgeom;
using geo::V;
using geo::ld;

char const * const PROPERTY_ID = "C07";
char const * const NONTRIVIAL_RULE =
    "A case is one or two angles, points or vectors (over all magnitudes and near the poles, the wrap and antipodes), every operation of which "
    "is compared with extended precision; non-trivial when the values are finite and not all zero.";

namespace {
ld const TWO_PI = 2 * geo::LPI;
double const NAN_ = std::numeric_limits<double>::quiet_NaN();

double anyAngle(pbt::Gen & g) {
    double s = g.coin() ? 1 : -1;
    switch (g.below(8)) {
        case 0: return s * g.pick({0.0, 1.0, 0.5 * PI, PI, 1.5 * PI, 2 * PI, 4 * PI});
        case 1: {
            double x = g.pick({0.5 * PI, PI, 1.5 * PI, 2 * PI, 4 * PI});
            return s * (g.coin() ? std::nextafter(x, 0.0) : std::nextafter(x, 100.0));
        }
        case 2: return s * g.logUniform(-320, 6);
        case 3: return s * g.uniform(0, 1e5);
        default: return s * g.uniform(0, 8);
    }
}
// Angles of many turns, often within a few units in the last place of a whole
// number of quarter turns.
double manyTurns(pbt::Gen & g) {
    double s = g.coin() ? 1 : -1;
    if (g.below(4) == 0) return s * g.logUniform(0, 300);
    double q = std::floor(std::ldexp(1.0 + g.uniform(0, 1), (int)g.below(50)));
    double x = q * (g.coin() ? 2 * PI : 0.5 * PI);
    for (std::uint64_t n = g.below(4); n > 0; --n) x = std::nextafter(x, g.coin() ? 0.0 : 1e300);
    return s * x;
}
double lat(pbt::Gen & g) {
    double s = g.coin() ? 1 : -1, h = 0.5 * PI;
    switch (g.below(6)) {
        case 0: return s * g.pick({0.0, h, std::nextafter(h, 0.0), 1.0});
        case 1: return s * (h - g.logUniform(-17, -1));
        case 2: return s * g.logUniform(-300, -1);
        default: return s * g.uniform(0, h);
    }
}
double lon(pbt::Gen & g) {
    switch (g.below(6)) {
        case 0: return g.pick({0.0, PI, 0.5 * PI, 1.5 * PI, 2 * PI, std::nextafter(2 * PI, 0.0), 5e-324});
        case 1: return g.logUniform(-300, 0);
        case 2: return 2 * PI - g.logUniform(-16, 0);
        default: return g.uniform(0, 2 * PI);
    }
}
ld gap(ld x, ld y) { return std::fabs(remainderl(x - y, TWO_PI)); }
bool close(double got, ld want, ld rel, ld abs = 1e-320L) { return std::fabs(got - want) <= rel * std::fabs(want) + abs; }
}  // namespace

LAW(angles, 100000, 1500000, 20) {
    double a = anyAngle(g), b = anyAngle(g), k = anyAngle(g);
    if (g.chance(1, 50)) a = NAN_;
    if (g.chance(1, 50)) b = NAN_;
    if (g.chance(1, 10)) b = a;
    c.note("a=", a, " b=", b, " k=", k);
    if (a == a && b == b && (a != 0 || b != 0)) c.nontrivial();
    Angle x(a), y(b);
    auto eq = [](double p, double q) { return p == q || (p != p && q != q); };
    REQUIRE(eq(x.asRadians(), a) && eq(Angle::fromRadians(a).asRadians(), a) && Angle().asRadians() == 0);
    REQUIRE((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b));
    REQUIRE(x.isNan() == (a != a) && Angle::nan().isNan());
    REQUIRE(eq((-x).asRadians(), -a));
    auto acc = [&](double got, ld want, char const * what) {
        if (!std::isfinite(want) || fabsl(want) > 1.7e308L) return;
        REQUIRE(close(got, want, 1.2e-16L), what, " is ", got, " and not ", (double)want);
    };
    if (a == a && b == b) {
        acc((x + y).asRadians(), (ld)a + b, "+");
        acc((x - y).asRadians(), (ld)a - b, "-");
        acc((x * k).asRadians(), (ld)a * k, "*");
        acc((k * x).asRadians(), (ld)a * k, "* (scalar first)");
        if (k != 0) acc((x / k).asRadians(), (ld)a / k, "/");
        if (b != 0) acc(x / y, (ld)a / b, "angle / angle");
        Angle z = x;
        z += y;
        REQUIRE(z == x + y);
        z = x;
        z -= y;
        REQUIRE(z == x - y);
        z = x;
        z *= k;
        REQUIRE(z == x * k);
        if (k != 0) {
            z = x;
            z /= k;
            REQUIRE(eq(z.asRadians(), (x / k).asRadians()));
        }
        ld deg = 180 / geo::LPI;
        REQUIRE(close(x.asDegrees(), a * deg, 4e-16L), "asDegrees is ", x.asDegrees());
        REQUIRE(close(Angle::fromDegrees(a).asRadians(), a / deg, 4e-16L), "fromDegrees is ", Angle::fromDegrees(a).asRadians());
        REQUIRE(x.isNormalized() == (a >= 0 && a <= 2 * PI));
        REQUIRE(abs(x).asRadians() == std::fabs(a));
        REQUIRE(close(sin(x), sinl(a), 0, 3e-16L) && close(cos(x), cosl(a), 0, 3e-16L), "sin, cos");
        if (fabsl(cosl(a)) > 1e-3) REQUIRE(close(tan(x), tanl(a), 1e-12L), "tan");
        std::ostringstream os;
        os.precision(17);
        os << x;
        double back = std::strtod(os.str().c_str(), nullptr);
        REQUIRE(close(back, a, 1e-9L), "printed ", os.str());
    }
}

LAW(normalized, 120000, 1500000, 20) {
    double a = g.below(3) ? anyAngle(g) : manyTurns(g), b = anyAngle(g);
    c.note("a=", a, " b=", b);
    if (a != 0 || b != 0) c.nontrivial();
    NormalizedAngle x(a), y(b);
    REQUIRE(NormalizedAngle::nan().isNan() && NormalizedAngle(Angle::nan()).isNan() && NormalizedAngle().asRadians() == 0);
    auto one = [&](NormalizedAngle n, double v) {
        REQUIRE(n.asRadians() >= 0 && n.asRadians() <= 2 * PI, "normalized angle ", n.asRadians(), " from ", v);
        ld tol = 4e-16L * (std::fabs(v) + 8);
        REQUIRE(gap(n.asRadians(), v) <= tol, "normalized angle ", n.asRadians(), " from ", v);
        if (v >= 0 && v <= 2 * PI) REQUIRE(n.asRadians() == v, "a normalized angle is changed: ", n.asRadians(), " from ", v);
    };
    one(x, a);
    one(y, b);
    REQUIRE(NormalizedAngle(Angle(a)) == x && NormalizedAngle::fromRadians(a) == x);
    double d = a * 57.29577951308232;
    NormalizedAngle fd = NormalizedAngle::fromDegrees(d);
    REQUIRE(gap(fd.asRadians(), d * (geo::LPI / 180)) <= 8e-16L * (std::fabs(a) + 8), "fromDegrees(", d, ")");
    double p = x.asRadians(), q = y.asRadians();
    REQUIRE((x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x > y) == (p > q) && (x <= y) == (p <= q) && (x >= y) == (p >= q));
    REQUIRE((x + y).asRadians() == p + q && (x - y).asRadians() == p - q && (-x).asRadians() == -p && (x * 3.0).asRadians() == p * 3.0 && (x / 3.0).asRadians() == p / 3.0);
    REQUIRE(abs(x) == x && close(x.asDegrees(), p * (180 / geo::LPI), 4e-16L));
    // from x counter-clockwise to y, the smaller angle between, the middle of the arc
    ld to = (ld)q - p;
    if (to < 0) to += TWO_PI;
    double got = x.getAngleTo(y).asRadians();
    REQUIRE(got >= 0 && got <= 2 * PI && std::fabs(got - to) <= 1.5e-15L, "getAngleTo is ", got, " and not ", (double)to);
    if (p <= q) REQUIRE(close(got, to, 1.2e-16L), "getAngleTo is ", got, " and not ", (double)to);
    ld btw = std::min<ld>(to, TWO_PI - to);
    got = NormalizedAngle::between(x, y).asRadians();
    REQUIRE(got >= 0 && got <= PI && std::fabs(got - btw) <= 1.5e-15L, "between is ", got, " and not ", (double)btw);
    REQUIRE(NormalizedAngle::between(y, x).asRadians() == got);
    got = NormalizedAngle::center(x, y).asRadians();
    REQUIRE(got >= 0 && got <= 2 * PI && gap(got, p + to / 2) <= 1.5e-15L, "center is ", got, " and not ", (double)(p + to / 2));
}

// Latitudes outside [-pi/2, pi/2] are rejected, NaNs make both coordinates NaN.
LAW(lonlat, 100000, 1000000, 20) {
    double lo = g.coin() ? lon(g) : anyAngle(g), la = lat(g);
    switch (g.below(8)) {
        case 0: la = (g.coin() ? 1 : -1) * g.pick({0.5 * PI, std::nextafter(0.5 * PI, 9.0), PI, 1.6, 1e300, 1.0 / 0.0}); break;
        case 1: la = g.uniform(-4, 4); break;
        case 2: (g.coin() ? lo : la) = NAN_; break;
        default: break;
    }
    bool deg = g.chance(1, 4);
    if (deg) { lo *= 57.0; la *= 57.29577951308232; }
    ld wantLon = deg ? lo * (geo::LPI / 180) : (ld)lo, wantLat = deg ? la * (geo::LPI / 180) : (ld)la;
    c.note(deg ? "degrees " : "radians ", lo, ',', la);
    if (lo == lo && la == la && (lo != 0 || la != 0)) c.nontrivial();
    bool threw = false;
    LonLat p;
    REQUIRE(p.getLon().asRadians() == 0 && p.getLat().asRadians() == 0);
    try {
        if (deg) p = LonLat::fromDegrees(lo, la);
        else if (g.coin()) p = LonLat::fromRadians(lo, la);
        else p = LonLat(NormalizedAngle(lo), Angle(la));
    } catch (std::invalid_argument &) { threw = true; }
    bool bad = deg ? fabsl(wantLat) > geo::LPI / 2 : std::fabs(la) > 0.5 * PI;
    if (!deg || fabsl(fabsl(wantLat) - geo::LPI / 2) > 1e-15L) REQUIRE(threw == bad, "threw: ", threw);
    c.label(threw, "rejected");
    if (threw) return;
    if (lo != lo || la != la) {
        REQUIRE(p.getLon().isNan() && p.getLat().isNan(), "only one coordinate is NaN");
        REQUIRE(!(p == p) && p != p);
        return;
    }
    ld t = 4e-16L * (fabsl(wantLon) + 8);
    REQUIRE(gap(p.getLon().asRadians(), wantLon) <= t && p.getLon().asRadians() >= 0 && p.getLon().asRadians() <= 2 * PI, "longitude ", p.getLon().asRadians());
    REQUIRE(close(p.getLat().asRadians(), wantLat, 4e-16L), "latitude ", p.getLat().asRadians());
    LonLat q = LonLat::fromRadians(g.coin() ? p.getLon().asRadians() : lon(g), g.coin() ? p.getLat().asRadians() : lat(g));
    bool same = p.getLon() == q.getLon() && p.getLat() == q.getLat();
    REQUIRE((p == q) == same && (p != q) == !same, "==");
}

// Vector to coordinates and back, for vectors of any length.
LAW(vectors, 150000, 2000000, 20) {
    ld x, y, z;
    switch (g.below(4)) {
        case 0: { V v = geo::fromLonLat(lon(g), lat(g)); x = v.x; y = v.y; z = v.z; break; }
        case 1: x = g.uniform(-1, 1); y = g.uniform(-1, 1); z = g.uniform(-1, 1); break;
        case 2:
            x = (g.coin() ? 1 : -1) * g.logUniform(-20, 0); y = (g.coin() ? 1 : -1) * g.logUniform(-20, 0); z = (g.coin() ? 1 : -1) * g.logUniform(-20, 0);
            break;
        default: x = g.range(-1, 1); y = g.range(-1, 1); z = g.range(-1, 1);
    }
    ld scale = g.chance(1, 3) ? g.logUniform(-280, 300) : 1.0;
    Vector3d v(static_cast<double>(x * scale), static_cast<double>(y * scale), static_cast<double>(z * scale));
    V w(v);
    c.note("v=", v.x(), ',', v.y(), ',', v.z());
    if (!v.isZero()) c.nontrivial();
    ld rho = hypotl(w.x, w.y), wantLat = (w.z == 0) ? 0 : atan2l(w.z, rho);
    ld wantLon = (w.x == 0 && w.y == 0) ? 0 : geo::lonOf(w);
    LonLat p(v);
    double lo = LonLat::longitudeOf(v).asRadians(), la = LonLat::latitudeOf(v).asRadians();
    REQUIRE(lo >= 0 && lo <= 2 * PI && std::fabs(la) <= 0.5 * PI, "out of range: ", lo, ',', la);
    REQUIRE(p.getLon().asRadians() == lo && p.getLat().asRadians() == la, "LonLat(v) is ", p.getLon().asRadians(), ',', p.getLat().asRadians());
    REQUIRE(gap(lo, wantLon) <= 1.2e-15L, "longitude ", lo, " and not ", (double)wantLon);
    if (wantLon < geo::LPI) REQUIRE(close(lo, wantLon, 1e-15L), "longitude ", lo, " and not ", (double)wantLon);
    REQUIRE(close(la, wantLat, 1e-15L), "latitude ", la, " and not ", (double)wantLat);
    // Coordinates to vector: each component is accurate relative to the
    // smaller factors it is the product of.
    LonLat q = LonLat::fromRadians(lon(g), lat(g));
    ld l = q.getLon().asRadians(), b = q.getLat().asRadians();
    UnitVector3d u = g.coin() ? UnitVector3d(q) : UnitVector3d(q.getLon(), q.getLat());
    c.note("q=", (double)l, ',', (double)b);
    REQUIRE(close(u.x(), cosl(l) * cosl(b), 6e-16L) && close(u.y(), sinl(l) * cosl(b), 6e-16L) && close(u.z(), sinl(b), 6e-16L),
            "vector ", u.x(), ',', u.y(), ',', u.z());
    REQUIRE(fabsl(V(u).norm() - 1) <= 4e-16L, "norm ", (double)V(u).norm());
    LonLat r{Vector3d(u)};
    REQUIRE(gap(r.getLon().asRadians(), l) <= 2e-15L || cosl(b) == 0, "round trip longitude ", r.getLon().asRadians(), " from ", (double)l);
    REQUIRE(fabsl(r.getLat().asRadians() - b) * cosl(b) <= 1e-15L && fabsl(r.getLat().asRadians() - b) <= 3e-16L + 1e-15L / std::max<ld>(cosl(b), 1e-9L),
            "round trip latitude ", r.getLat().asRadians(), " from ", (double)b);
}

// Angular separations, between coordinates and between vectors.
LAW(separations, 150000, 2000000, 20) {
    ld l1 = lon(g), b1 = lat(g), l2 = lon(g), b2 = lat(g);
    switch (g.below(6)) {
        case 0: l2 = l1; break;
        case 1: b2 = b1; break;
        case 2: l2 = l1 + (double)((g.coin() ? 1 : -1) * g.logUniform(-17, -1)); b2 = b1 + (double)((g.coin() ? 1 : -1) * g.logUniform(-17, -1)); break;
        case 3:   // near-antipodal
            l2 = l1 + geo::LPI + (g.coin() ? (double)g.uniform(-1, 1) * g.logUniform(-15, -1) : 0.0);
            b2 = -b1 + (g.coin() ? g.uniform(-1, 1) * g.logUniform(-15, -1) : 0.0);
            break;
        default: break;
    }
    l2 = NormalizedAngle((double)l2).asRadians();
    b2 = std::min<double>(0.5 * PI, std::max<double>(-0.5 * PI, (double)b2));
    c.note("(", (double)l1, ',', (double)b1, ") (", (double)l2, ',', (double)b2, ')');
    c.nontrivial();
    LonLat p = LonLat::fromRadians(l1, b1), q = LonLat::fromRadians(l2, b2);
    // sin^2 and cos^2 of half the separation, as sums of positive terms
    ld x = sinl((l1 - l2) / 2), y = sinl((b1 - b2) / 2), s2 = y * y + x * x * cosl(b1) * cosl(b2);
    ld cx = cosl((l1 - l2) / 2), cy = cosl((b1 - b2) / 2), sb = sinl((b1 + b2) / 2);
    ld want = 2 * atan2l(sqrtl(s2), sqrtl(cy * cy * cx * cx + x * x * sb * sb));
    double got = NormalizedAngle(p, q).asRadians();
    REQUIRE(got >= 0 && got <= PI, "separation ", got);
    // The error of sin^2 of half the angle: its terms are accurate relative to
    // the cosine of the mean latitude, which near a pole has an absolute error.
    // asin amplifies it near pi (constants.h: MAX_ASIN_ERROR).
    ld cm = fabsl(cosl((b1 + b2) / 2));
    ld ds = x * x * (cm * cm * 1e-15L + cm * 2.5e-16L + 1.5e-32L + y * y * 1e-15L) + 1.5e-15L * s2;
    ld dx = fabsl(l1 - l2) > 1e-3L ? 1.2e-16L * fabsl(l1 - l2) * fabsl(cx) : 0;   // of the difference of longitudes
    ds += (2 * fabsl(x) * dx + dx * dx) * cosl(b1) * cosl(b2);
    ld tol = 1e-15L * want + 1e-155L + 2 * std::min(ds / sqrtl(s2 * std::max<ld>(1 - s2, 1e-30L) + 1e-300L), 1.5L * sqrtl(ds));
    REQUIRE(fabsl(got - want) <= tol, "separation of coordinates ", got, " and not ", (double)want);
    c.label(want < 1e-6, "tiny"); c.label(want > geo::LPI - 1e-6, "near-antipodal");
    REQUIRE(fabsl(NormalizedAngle(q, p).asRadians() - got) <= tol, "not symmetric");
    REQUIRE(NormalizedAngle(p, p).asRadians() == 0, "from itself");
    ld f = g.chance(1, 3) ? g.logUniform(-50, 50) : 1.0, h = g.chance(1, 3) ? g.logUniform(-50, 50) : 1.0;
    V a = geo::fromLonLat(l1, b1) * f, b = geo::fromLonLat(l2, b2) * h;
    Vector3d u((double)a.x, (double)a.y, (double)a.z), w((double)b.x, (double)b.y, (double)b.z);
    V a2(u), b2v(w);
    ld wv = geo::angleBetween(a2, b2v);
    got = NormalizedAngle(u, w).asRadians();
    REQUIRE(got >= 0 && got <= PI && fabsl(got - wv) <= 1e-15L, "separation of vectors ", got, " and not ", (double)wv);
    REQUIRE(NormalizedAngle(Vector3d(), u).asRadians() == 0 && NormalizedAngle(u, Vector3d()).asRadians() == 0, "from the zero vector");
}
