// C08: vector operations are accurate and unit vectors stay unit.
#include "geo.h"
#include <cstdio>
#include <sstream>

using namespace lsst::sphgeom;
using geo::V;
using geo::ld;

char const * const PROPERTY_ID = "C08";
char const * const NONTRIVIAL_RULE =
    "A case is one or two vectors (any magnitude, zero and denormal components, nearly parallel and antiparallel pairs), an axis and angle, or "
    "matrices, every operation of which is compared with extended precision; non-trivial when no vector is zero or along an axis.";

namespace {
double const NAN_ = std::numeric_limits<double>::quiet_NaN();

double sign(pbt::Gen & g) { return g.coin() ? 1.0 : -1.0; }
Vector3d direction(pbt::Gen & g) {
    switch (g.below(5)) {
        case 0: {
            double a = g.range(-1, 1), b = g.range(-1, 1), d = g.range(-1, 1);
            return (a == 0 && b == 0 && d == 0) ? Vector3d(0, 0, 1) : Vector3d(a, b, d);
        }
        case 1: return Vector3d(sign(g) * g.logUniform(-18, 0), sign(g) * g.logUniform(-18, 0), sign(g) * g.logUniform(-18, 0));
        case 2: {   // near a pole
            double t = g.uniform(0, 6.28), r = g.logUniform(-18, 0);
            return Vector3d(r * std::cos(t), r * std::sin(t), sign(g));
        }
        default: {
            Vector3d v(g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1));
            return v.isZero() ? Vector3d(1, 0, 0) : v;
        }
    }
}
void note(pbt::Ctx & c, char const * n, Vector3d const & v) { c.note(n, '=', v.x(), ',', v.y(), ',', v.z()); }
bool onAxis(Vector3d const & v) { return (v.x() == 0) + (v.y() == 0) + (v.z() == 0) >= 2; }
V abs(V const & v) { return V(fabsl(v.x), fabsl(v.y), fabsl(v.z)); }
bool close(double got, ld want, ld tol) { return fabsl(got - want) <= tol; }
bool close(Vector3d const & got, V const & want, ld tol) {
    return close(got.x(), want.x, tol) && close(got.y(), want.y, tol) && close(got.z(), want.z, tol);
}
std::string show(Vector3d const & v) { return pbt::cat('(', v.x(), ',', v.y(), ',', v.z(), ')'); }
void unit(UnitVector3d const & u, char const * what) {
    REQUIRE(fabsl(V(u).norm() - 1) <= 5e-16L, what, " is not a unit vector: ", show(u), ", norm - 1 = ", (double)(V(u).norm() - 1));
}
// A unit vector near another, or near its opposite.
UnitVector3d nearby(pbt::Gen & g, UnitVector3d const & u) {
    V v(u), d(direction(g));
    V w = geo::toward(v, d, g.logUniform(-14, -1));
    return geo::toUnit(g.coin() ? w : -w);
}
ld const E = 1.2e-16L;   // one rounding
}  // namespace

LAW(algebra, 120000, 1500000, 20) {
    double f = g.chance(1, 3) ? g.logUniform(-70, 70) : 1.0, h = g.chance(1, 3) ? g.logUniform(-70, 70) : 1.0;
    Vector3d a = direction(g) * f, b = direction(g) * h;
    if (g.chance(1, 10)) b = a;
    if (g.chance(1, 20)) b = -a;
    if (g.chance(1, 6)) b = a + direction(g) * (f * g.logUniform(-17, -1));
    double s = sign(g) * g.logUniform(-10, 10);
    note(c, "a", a); note(c, "b", b); c.note("s=", s);
    if (!onAxis(a) && !onAxis(b)) c.nontrivial();
    V A(a), B(b);
    auto each = [&](Vector3d const & got, V const & want, char const * what) {
        REQUIRE(close(got.x(), want.x, E * fabsl(want.x)) && close(got.y(), want.y, E * fabsl(want.y)) && close(got.z(), want.z, E * fabsl(want.z)),
                what, " is ", show(got));
    };
    each(a + b, A + B, "a + b");
    each(a - b, A - B, "a - b");
    each(a * s, A * s, "a * s");
    each(s * a, A * s, "s * a");
    each(a / s, V(A.x / s, A.y / s, A.z / s), "a / s");
    each(-a, -A, "-a");
    each(a.cwiseProduct(b), V(A.x * B.x, A.y * B.y, A.z * B.z), "cwiseProduct");
    Vector3d t = a;
    t += b;
    REQUIRE(t == a + b);
    t = a;
    t -= b;
    REQUIRE(t == a - b);
    t = a;
    t *= s;
    REQUIRE(t == a * s);
    t = a;
    t /= s;
    REQUIRE(t == a / s);
    bool same = a.x() == b.x() && a.y() == b.y() && a.z() == b.z();
    REQUIRE((a == b) == same && (a != b) == !same, "==");
    REQUIRE(!(a == Vector3d(b.x(), b.y(), NAN_)) && Vector3d().isZero() && !a.isZero() && Vector3d(0, -0.0, 0).isZero());
    REQUIRE(a(0) == a.x() && a(1) == a.y() && a(2) == a.z() && a.getData()[0] == a.x() && a.getData()[1] == a.y() && a.getData()[2] == a.z());
    ld dot = A.dot(B), mag = abs(A).dot(abs(B));
    REQUIRE(close(a.dot(b), dot, 3 * E * mag), "dot is ", a.dot(b), " and not ", (double)dot);
    V x = A.cross(B), m(fabsl(A.y * B.z) + fabsl(A.z * B.y), fabsl(A.z * B.x) + fabsl(A.x * B.z), fabsl(A.x * B.y) + fabsl(A.y * B.x));
    Vector3d gx = a.cross(b);
    REQUIRE(close(gx.x(), x.x, 2.1 * E * m.x) && close(gx.y(), x.y, 2.1 * E * m.y) && close(gx.z(), x.z, 2.1 * E * m.z), "cross is ", show(gx));
    REQUIRE(close(a.getSquaredNorm(), A.dot(A), 3 * E * A.dot(A)) && close(a.getNorm(), A.norm(), 3 * E * A.norm()), "norm is ", a.getNorm());
    ld off = A.dot(A) - 1;
    if (fabsl(off) < 5e-16L) REQUIRE(a.isNormalized());
    if (fabsl(off) > 1.6e-15L) REQUIRE(!a.isNormalized());
    std::ostringstream os;
    os << a;
    double p = 0, q = 0, r = 0;
    REQUIRE(std::sscanf(os.str().c_str(), "[%lf, %lf, %lf]", &p, &q, &r) == 3 && p == a.x() && q == a.y() && r == a.z(), "printed ", os.str());
}

// Any vector with finite components but zero is normalized accurately.
LAW(normalize, 200000, 2500000, 30) {
    double e[3], f = g.chance(1, 2) ? 1.0 : g.logUniform(-323, 308);
    Vector3d d = direction(g);
    for (int i = 0; i < 3; ++i) e[i] = d(i) * f;
    if (g.chance(1, 6)) e[g.below(3)] = 0;
    if (g.chance(1, 10)) e[g.below(3)] = sign(g) * g.pick({5e-324, 1.7976931348623157e308, 2.2250738585072014e-308});
    if (g.chance(1, 8)) e[g.below(3)] = sign(g) * std::fabs(e[g.below(3)]);
    if (g.chance(1, 100)) e[0] = e[1] = e[2] = sign(g) * 0.0;
    if (g.chance(1, 20)) e[g.below(3)] = NAN_;
    Vector3d v(e[0], e[1], e[2]);
    note(c, "v", v);
    V w(v);
    bool nan = e[0] != e[0] || e[1] != e[1] || e[2] != e[2];
    bool threw = false;
    double n = 0;
    Vector3d u = v;
    try { n = u.normalize(); } catch (std::runtime_error &) { threw = true; }
    if (nan) {   // no claim but that nothing worse happens and no number comes out
        REQUIRE(threw || (n != n && !(u == u)) || !(u == u), "normalizing NaNs gave ", show(u));
        c.label("NaN");
        return;
    }
    REQUIRE(threw == v.isZero(), "threw: ", threw);
    c.label(threw, "zero");
    if (threw) {
        REQUIRE(u == v);
        return;
    }
    if (!onAxis(v)) c.nontrivial();
    ld norm = w.norm();
    if (norm < 1.79e308L) REQUIRE(fabsl(n - norm) <= 4 * E * norm + 1e-323L, "norm is ", n, " and not ", (double)norm);
    else if (norm > 1.8e308L) REQUIRE(n > 1.79e308, "norm is ", n);
    for (int i = 0; i < 3; ++i) {
        ld want = (i == 0 ? w.x : i == 1 ? w.y : w.z) / norm;
        REQUIRE(fabsl(u(i) - want) <= 6 * E * fabsl(want) + 1e-323L, "component ", i, " is ", u(i), " and not ", (double)want);
        REQUIRE(std::signbit(u(i)) == std::signbit(v(i)), "component ", i, " changed its sign");
    }
    UnitVector3d a(v), b(e[0], e[1], e[2]);
    REQUIRE(a == u && b == u);
    unit(a, "UnitVector3d(v)");
    REQUIRE(static_cast<Vector3d const &>(a).isNormalized(), "isNormalized is false for ", show(u));
}

LAW(units, 150000, 2000000, 20) {
    UnitVector3d a(direction(g)), b(direction(g));
    int rel = g.below(4);
    if (rel == 0) b = nearby(g, a);
    if (rel == 1 && g.chance(1, 8)) b = g.coin() ? a : -a;
    note(c, "a", a); note(c, "b", b);
    if (!onAxis(a) && !onAxis(b)) c.nontrivial();
    V A(a), B(b);
    unit(a, "a");
    unit(-a, "-a");
    REQUIRE(UnitVector3d() == Vector3d(1, 0, 0) && UnitVector3d::X() == Vector3d(1, 0, 0) && UnitVector3d::Y() == Vector3d(0, 1, 0) && UnitVector3d::Z() == Vector3d(0, 0, 1));
    REQUIRE(UnitVector3d::fromNormalized(a) == a && UnitVector3d::fromNormalized(a.x(), a.y(), a.z()) == a);
    REQUIRE((-a) == -Vector3d(a) && a + b == Vector3d(a) + Vector3d(b) && a - b == Vector3d(a) - Vector3d(b) && a * 2.5 == Vector3d(a) * 2.5 && a / 2.5 == Vector3d(a) / 2.5);
    REQUIRE(a.cross(b) == Vector3d(a).cross(b) && a.dot(b) == Vector3d(a).dot(b) && a.cwiseProduct(b) == Vector3d(a).cwiseProduct(b));
    REQUIRE(a(0) == a.x() && a(1) == a.y() && a(2) == a.z() && a.getData()[2] == a.z());
    // twice the cross product, nearly orthogonal even for nearly parallel vectors
    Vector3d rc = a.robustCross(b);
    V x = geo::robustCross(A, B);   // itself accurate in extended precision
    ld theta = std::min(geo::angleBetween(A, B), geo::angleBetween(A, -B));
    REQUIRE(close(rc, x, 6e-16L * x.norm() + 4e-16L * theta + 1e-31L), "robustCross is ", show(rc), " and not ", (double)x.x, ',', (double)x.y, ',', (double)x.z);
    UnitVector3d o = UnitVector3d::orthogonalTo(a, b);
    unit(o, "orthogonalTo(a, b)");
    REQUIRE(fabsl(V(o).dot(A)) <= (theta > 1e-14L || theta == 0 ? 1.5e-15L : 1.0L), "orthogonalTo(a, b) . a = ", (double)V(o).dot(A));
    if (theta > 1e-14L) {
        REQUIRE(fabsl(V(o).dot(B)) <= 1.5e-15L, "orthogonalTo(a, b) . b = ", (double)V(o).dot(B));
        REQUIRE(V(o).dot(x) > 0, "orthogonalTo(a, b) is not along a x b");
    }
    c.label(theta < 1e-6L && theta > 0, "nearly parallel");
}

LAW(orthogonals, 150000, 2000000, 20) {
    double f = g.chance(1, 2) ? 1.0 : g.logUniform(-290, 290);
    Vector3d v = direction(g) * f;
    note(c, "v", v);
    if (!onAxis(v)) c.nontrivial();
    V W(v), U = W * (1 / W.norm());
    UnitVector3d o = UnitVector3d::orthogonalTo(v);
    unit(o, "orthogonalTo(v)");
    REQUIRE(fabsl(V(o).dot(U)) <= 4e-16L, "orthogonalTo(v) . v = ", (double)V(o).dot(U));
    // north and the common normal multiply components: within the range of squares
    double h = g.chance(1, 2) ? 1.0 : g.logUniform(-70, 70);
    Vector3d d = direction(g), w = d * h;
    note(c, "w", w);
    V P(w);
    UnitVector3d n = UnitVector3d::northFrom(w);
    unit(n, "northFrom");
    if (w.x() == 0 && w.y() == 0) {
        REQUIRE(n == Vector3d(w.z() > 0 ? -1 : 1, 0, 0), "northFrom a pole is ", show(n));
        c.label("pole");
    } else {
        ld r2 = P.x * P.x + P.y * P.y;
        V want = V(-P.x * P.z, -P.y * P.z, r2);
        want = want * (1 / want.norm());
        REQUIRE(close(n, want, 6e-16L), "northFrom is ", show(n), " and not ", (double)want.x, ',', (double)want.y, ',', (double)want.z);
    }
    Vector3d z = direction(g);
    z = z * (w.getNorm() / z.getNorm() * g.uniform(0.2, 5));
    V Z(z), X = P.cross(Z);
    note(c, "z", z);
    UnitVector3d q = UnitVector3d::orthogonalTo(w, z);
    unit(q, "orthogonalTo(w, z)");
    ld s = X.norm() / (P.norm() * Z.norm());
    // its error grows as the sum and difference it multiplies near parallelism
    ld amp = (P + Z).norm() * (P - Z).norm() / std::max<ld>(X.norm(), 1e-300L) * 1e-15L;
    if (s > 1e-3L) {
        REQUIRE(fabsl(V(q).dot(P)) <= amp * P.norm() && fabsl(V(q).dot(Z)) <= amp * Z.norm(), "orthogonalTo(w, z) is not orthogonal: ", show(q));
        REQUIRE(V(q).dot(X) > 0, "orthogonalTo(w, z) is not along w x z");
    }
    double lon = g.coin() ? g.uniform(-7, 7) : g.pick({0.0, PI, 0.5 * PI, 2 * PI});
    UnitVector3d m = UnitVector3d::orthogonalTo(NormalizedAngle(lon));
    c.note("lon=", lon);
    ld nl = NormalizedAngle(lon).asRadians();
    REQUIRE(close(m, V(-sinl(nl), cosl(nl), 0), 3e-16L), "orthogonalTo(lon) is ", show(m));
    unit(m, "orthogonalTo(lon)");
    int zero = 0;
    try { UnitVector3d::orthogonalTo(Vector3d()); } catch (std::runtime_error &) { ++zero; }
    try { UnitVector3d bad(0.0, -0.0, 0.0); } catch (std::runtime_error &) { ++zero; }
    REQUIRE(zero == 2, "the zero vector is accepted");
}

LAW(rotation, 120000, 1500000, 20) {
    double f = g.chance(1, 3) ? g.logUniform(-100, 100) : 1.0;
    Vector3d v = direction(g) * f;
    UnitVector3d k(direction(g)), u(direction(g));
    if (g.chance(1, 10)) k = UnitVector3d(v);
    double a = g.coin() ? g.uniform(-7, 7) : (g.coin() ? sign(g) * g.logUniform(-17, 0) : g.pick({0.0, PI, -PI, 0.5 * PI, 2 * PI}));
    note(c, "v", v); note(c, "k", k); note(c, "u", u); c.note("a=", a);
    if (!onAxis(v) && !onAxis(k)) c.nontrivial();
    auto want = [&](V const & p) {
        V K = V(k).unit();
        return p * cosl(a) + K.cross(p) * sinl(a) + K * (K.dot(p) * (1 - cosl(a)));
    };
    Vector3d r = v.rotatedAround(k, Angle(a));
    V w = want(V(v));
    REQUIRE(close(r, w, 2e-15L * V(v).norm()), "rotatedAround is ", show(r), " and not ", (double)w.x, ',', (double)w.y, ',', (double)w.z);
    UnitVector3d s = u.rotatedAround(k, Angle(a));
    unit(s, "rotatedAround");
    REQUIRE(close(s, want(V(u)), 2e-15L), "rotatedAround is ", show(s));
    if (a == 0) REQUIRE(close(s, V(u), 4e-16L), "rotation by nothing moved ", show(u), " to ", show(s));
}

LAW(matrices, 80000, 1000000, 20) {
    double a[9], b[9];
    int style = g.below(3);
    for (double & x : a) x = style == 0 ? g.range(-3, 3) : style == 1 ? g.uniform(-1, 1) : sign(g) * g.logUniform(-6, 6);
    for (double & x : b) x = g.coin() ? g.uniform(-1, 1) : g.range(-2, 2);
    Matrix3d A(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]), B(b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8]);
    Vector3d v = direction(g);
    for (int i = 0; i < 9; ++i) c.note(a[i]);
    note(c, "v", v);
    auto at = [](double const * m, int i, int j) { return (ld)m[3 * i + j]; };
    ld inner = 0, innerAbs = 0, sq = 0;
    for (int i = 0; i < 3; ++i) {
        ld mv = 0, mvAbs = 0;
        for (int j = 0; j < 3; ++j) {
            REQUIRE(A(i, j) == a[3 * i + j] && A.getRow(i)(j) == a[3 * i + j] && A.getColumn(j)(i) == a[3 * i + j], "component ", i, j);
            REQUIRE(A.transpose()(j, i) == a[3 * i + j], "transpose");
            REQUIRE((A + B)(i, j) == a[3 * i + j] + b[3 * i + j] && (A - B)(i, j) == a[3 * i + j] - b[3 * i + j], "sum");
            REQUIRE(A.cwiseProduct(B)(i, j) == a[3 * i + j] * b[3 * i + j], "cwiseProduct");
            ld p = 0, pAbs = 0;
            for (int k = 0; k < 3; ++k) { p += at(a, i, k) * at(b, k, j); pAbs += fabsl(at(a, i, k) * at(b, k, j)); }
            REQUIRE(close((A * B)(i, j), p, 3.1L * E * pAbs), "product (", i, ',', j, ") is ", (A * B)(i, j), " and not ", (double)p);
            mv += at(a, i, j) * v(j); mvAbs += fabsl(at(a, i, j) * v(j));
            inner += at(a, i, j) * at(b, i, j); innerAbs += fabsl(at(a, i, j) * at(b, i, j));
            sq += at(a, i, j) * at(a, i, j);
        }
        REQUIRE(close((A * v)(i), mv, 3.1L * E * mvAbs), "matrix * vector (", i, ") is ", (A * v)(i), " and not ", (double)mv);
    }
    REQUIRE(close(A.inner(B), inner, 6 * E * innerAbs), "inner is ", A.inner(B));
    REQUIRE(close(A.getSquaredNorm(), sq, 6 * E * sq) && close(A.getNorm(), sqrtl(sq), 6 * E * sqrtl(sq)), "norm is ", A.getNorm());
    REQUIRE(Matrix3d()(1, 1) == 0 && Matrix3d(2.5) == Matrix3d(2.5, 0, 0, 0, 2.5, 0, 0, 0, 2.5) && Matrix3d(v) == Matrix3d(v.x(), 0, 0, 0, v.y(), 0, 0, 0, v.z()));
    int flip = g.below(9);
    double d[9];
    for (int i = 0; i < 9; ++i) d[i] = a[i] + (i == flip ? 1 + std::fabs(a[i]) : 0);
    Matrix3d D(d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]);
    REQUIRE(A == A && !(A != A) && A != D && !(A == D), "==");
    // the inverse, against the adjugate in extended precision
    ld cof[3][3], cofAbs[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            int i1 = (i + 1) % 3, i2 = (i + 2) % 3, j1 = (j + 1) % 3, j2 = (j + 2) % 3;
            cof[i][j] = at(a, i1, j1) * at(a, i2, j2) - at(a, i1, j2) * at(a, i2, j1);
            cofAbs[i][j] = fabsl(at(a, i1, j1) * at(a, i2, j2)) + fabsl(at(a, i1, j2) * at(a, i2, j1));
        }
    ld det = 0, detAbs = 0;
    for (int j = 0; j < 3; ++j) { det += at(a, 0, j) * cof[0][j]; detAbs += fabsl(at(a, 0, j)) * cofAbs[0][j]; }
    if (fabsl(det) < 1e-9L * detAbs || det == 0) return;
    c.nontrivial();
    Matrix3d I = A.inverse();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            ld want = cof[j][i] / det, tol = 8 * E * (cofAbs[j][i] / fabsl(det) + fabsl(want) * detAbs / fabsl(det));
            REQUIRE(close(I(i, j), want, tol + 1e-320L), "inverse (", i, ',', j, ") is ", I(i, j), " and not ", (double)want);
        }
    std::ostringstream os;
    os << A;
    double p[9];
    REQUIRE(std::sscanf(os.str().c_str(), "[[%lf, %lf, %lf], [%lf, %lf, %lf], [%lf, %lf, %lf]]", p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 6, p + 7, p + 8) == 9,
            "printed ", os.str());
    for (int i = 0; i < 9; ++i) REQUIRE(p[i] == a[i], "printed ", os.str());
}
