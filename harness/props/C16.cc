// C16: ellipses honour their defining foci, axes and orientation.
#include "geo.h"

using namespace geo;

char const * const PROPERTY_ID = "C16";
char const * const NONTRIVIAL_RULE =
    "A case is one set of ellipse parameters (foci and semi-axis angle, or centre, semi-axes and orientation), checked at points near its boundary, axes and foci; "
    "non-trivial when the ellipse is neither empty, full nor a circle.";

static bool plain(Ellipse const & e) { return !e.isEmpty() && !e.isFull(); }
static char const * yes(bool b) { return b ? "inside" : "outside"; }

static UnitVector3d near_(Gen & g, World & w, UnitVector3d const & a, double lo) {
    return toUnit(toward(V(a), w.randomDirection(), g.logUniform(lo, 0.49)));
}

// What holds of every ellipse.
static void consistent(Ellipse const & e) {
    if (!plain(e)) return;
    Matrix3d const & S = e.getTransformMatrix();
    V r[3];
    for (int i = 0; i < 3; ++i) r[i] = V(S(i, 0), S(i, 1), S(i, 2));
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j <= i; ++j) REQUIRE(fabsl(r[i].dot(r[j]) - (i == j)) <= 4e-15L, "rows ", i, " and ", j, " of the transform of ", show(e), " are not orthonormal");
    REQUIRE((r[0].cross(r[1]) - r[2]).norm() < 1e-14L || (r[0].cross(r[1]) + r[2]).norm() < 1e-14L, "not an orthogonal matrix");
    REQUIRE(V(e.getCenter()).dot(r[2]) > 1 - 1e-15L, "the centre is not what the transform maps to (0,0,1)");
    ld a = e.getAlpha().asRadians(), b = e.getBeta().asRadians(), gm = e.getGamma().asRadians();
    REQUIRE(a >= 0 && a < LPI && b >= 0 && b < LPI && gm >= 0 && gm <= LPI / 2, "angles of ", show(e), " out of range");
    REQUIRE(!((a < LPI / 2 - 1e-15L && b > LPI / 2 + 1e-15L) || (a > LPI / 2 + 1e-15L && b < LPI / 2 - 1e-15L)), "axes on different sides of a hemisphere: ", show(e));
    REQUIRE(a <= LPI / 2 ? b <= a + 2e-15L : b >= a - 2e-15L, "alpha and beta in the wrong order: ", show(e));
    REQUIRE(!e.isCircle() || e.getAlpha() == e.getBeta(), "isCircle of ", show(e));
    REQUIRE(e.isGreatCircle() == (e.getAlpha().asRadians() == DPI / 2) || fabsl(a - LPI / 2) < 1e-15L, "isGreatCircle of ", show(e));
    // cos alpha = cos beta cos gamma (all three up to the rounding of alpha - pi/2, beta - pi/2)
    ld p = cosl(b) * cosl(gm), dp = 4e-16L * (sinl(a) + sinl(b) * cosl(gm) + cosl(b) * sinl(gm)) + 1e-15L * fabsl(p);
    if (fabsl(a - LPI / 2) > 1e-14L && a > 1e-14L && LPI - a > 1e-14L)
        REQUIRE(fabsl(cosl(a) - p) <= dp + 2e-15L, "cos(alpha) = ", static_cast<double>(cosl(a)), ", but cos(beta)*cos(gamma) = ", static_cast<double>(p), " for ", show(e));
    // foci
    V f1(e.getF1()), f2(e.getF2());
    REQUIRE(angleBetween(f1, toward(r[2], r[0], gm)) < 2e-15L, "F1 is not at gamma from the centre along the first axis: ", show(e));
    REQUIRE(angleBetween(f2, toward(r[2], -r[0], gm)) < 2e-15L, "F2 is not at gamma from the centre along the first axis: ", show(e));
}

// Does the ellipse agree with the definition d(v, f1) + d(v, f2) <= 2 alpha?
static void agrees(Ellipse const & e, V const & f1, V const & f2, ld alpha, V const & p, ld tol) {
    UnitVector3d u = toUnit(p);
    ld s = angleBetween(V(u), f1) + angleBetween(V(u), f2) - 2 * alpha;
    if (fabsl(s) <= tol) return;
    REQUIRE(e.contains(u) == (s < 0), show(u), " is ", yes(s < 0), " by ", static_cast<double>(fabsl(s)), ", but contains() says ", yes(e.contains(u)), " ", show(e));
    REQUIRE(e.contains(u.x(), u.y(), u.z()) == (s < 0), "contains(x, y, z) disagrees with contains(v)");
}

LAW(foci, 60000, 2000000, 8) {
    World w(g);
    UnitVector3d f1 = w.unit(), f2 = f1;
    switch (g.below(6)) {
        case 0: break;
        case 1: f2 = w.unit(); break;
        case 2: f2 = -f1; break;
        case 3: f2 = toUnit(toward(V(-f1), w.randomDirection(), g.logUniform(-16, 0))); break;
        default: f2 = near_(g, w, f1, -16);
    }
    ld d = angleBetween(V(f1), V(f2)) / 2;
    double alpha;
    switch (g.below(8)) {
        case 0: alpha = g.pick({0.0, DPI / 2, DPI, -1e-300, -0.5, 4.0, 1e300, -1e300, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("")}); break;
        case 1: alpha = w.angle(); break;
        case 2: alpha = static_cast<double>(d) + (g.coin() ? 1 : -1) * g.logUniform(-16, 0); break;
        case 3: alpha = DPI - static_cast<double>(d) + (g.coin() ? 1 : -1) * g.logUniform(-16, 0); break;
        case 4: alpha = DPI / 2 + (g.coin() ? 1 : -1) * g.logUniform(-16, 0); break;
        case 5: alpha = static_cast<double>(d * (1 + g.logUniform(-12, 1))); break;
        default: alpha = g.uniform(static_cast<double>(d), DPI - static_cast<double>(d));
    }
    c.note("foci ", show(f1), " ", show(f2), " alpha ", alpha);
    if (std::isnan(alpha)) {
        try { Ellipse e(f1, f2, Angle(alpha)); } catch (std::invalid_argument const &) { return; }
        FAILWITH("a NaN semi-axis angle was accepted");
    }
    Ellipse e(f1, f2, Angle(alpha));
    ld gap = 1e-15L;
    if (alpha < d - gap) REQUIRE(e.isEmpty(), "2 alpha is less than the distance of the foci, but not empty: ", show(e));
    if (alpha > d + gap) REQUIRE(!e.isEmpty(), "empty: ", show(e));
    if (alpha >= 0 && f1 == f2) REQUIRE(!e.isEmpty(), "a circle of opening angle >= 0 is empty: ", show(e));
    if (alpha > LPI - d + gap) REQUIRE(e.isFull(), "alpha is more than pi less half the distance of the foci, but not full: ", show(e));
    if (alpha < LPI - d - gap) REQUIRE(!e.isFull(), "full: ", show(e));
    if (e.isEmpty()) { REQUIRE(!e.contains(f1) && !e.contains(f2) && !e.contains(w.unit()), "empty, but contains a point"); return; }
    if (e.isFull()) { REQUIRE(e.contains(f1) && e.contains(-f1) && e.contains(w.unit()), "full, but lacks a point"); return; }
    if (!e.isCircle() && !e.isGreatCircle()) c.nontrivial();
    consistent(e);
    REQUIRE(fabsl(e.getAlpha().asRadians() - alpha) < 4e-16L, "alpha changed to ", e.getAlpha().asRadians());
    REQUIRE(fabsl(e.getGamma().asRadians() - d) < 1e-15L, "gamma is ", e.getGamma().asRadians(), ", not ", static_cast<double>(d));
    if (d < LPI / 2 - 1e-6L) {
        ld t = d > 1e-3L || d == 0 ? 4e-15L / cosl(d) : 1e-14L;
        REQUIRE(angleBetween(V(e.getF1()), V(f1)) < t && angleBetween(V(e.getF2()), V(f2)) < t, "the foci are ", show(e.getF1()), " ", show(e.getF2()));
    }
    V F1(f1), F2(f2);
    ld tol = 1e-14L;
    Ref f = makeRef(e);
    agrees(e, F1, F2, alpha, F1, tol);
    agrees(e, F1, F2, alpha, -F2, tol);
    if (d < LPI / 2) agrees(e, F1, F2, alpha, F1 + F2, tol);
    for (int i = 0; i < 12; ++i) {
        V p = i == 0 ? w.randomDirection() : i == 1 ? V(w.unit()) : f.boundary(i < 6 ? LPI / 2 * i : 2 * LPI * g.unit());
        if (i > 1) p = toward(p, g.coin() ? w.randomDirection() : g.coin() ? f.c : -f.c, g.logUniform(-15, -1));
        agrees(e, F1, F2, alpha, p, tol);
    }
}

LAW(axes, 60000, 2000000, 8) {
    World w(g);
    UnitVector3d ctr = w.unit();
    double a, b;
    switch (g.below(6)) {
        case 0: a = w.angle(); b = a; break;
        case 1: a = g.logUniform(-9, 0.196); b = a * (1 - g.logUniform(-12, 0)); break;
        case 2: a = DPI / 2 - g.logUniform(-12, 0.19); b = DPI / 2 - g.logUniform(-12, 0.19); break;
        case 3: a = g.logUniform(-9, 0.196); b = g.pick({0.0, 1e-16, 1e-9}); break;
        default: a = g.uniform(0, DPI / 2); b = g.logUniform(-9, 0.196);
    }
    a = std::min(a, DPI); b = std::min(b, DPI);
    if (a > DPI / 2 || b > DPI / 2) { a = std::max(a, DPI - a); b = std::max(b, DPI - b); if (b == DPI / 2) b = a; }
    else if (g.chance(1, 3)) { a = DPI - a; b = DPI - b; }
    if (g.coin()) std::swap(a, b);
    double o = g.chance(1, 3) ? (DPI / 4) * g.range(-9, 9) : g.uniform(-7, 7);
    c.note("centre ", show(ctr), " alpha ", a, " beta ", b, " orientation ", o);
    bool mixed = (a < DPI / 2 && b >= DPI / 2) || (a > DPI / 2 && b <= DPI / 2) || (a == DPI / 2 && b != DPI / 2);
    if (mixed) {
        try { Ellipse e(ctr, Angle(a), Angle(b), Angle(o)); } catch (std::invalid_argument const &) { return; }
        FAILWITH("semi-axes on different sides of a hemisphere were accepted");
    }
    Ellipse e(ctr, Angle(a), Angle(b), Angle(o));
    REQUIRE(!e.isEmpty(), "empty");
    // The complement of a segment, or of a point, is full (up to its closure).
    ld minor = a > DPI / 2 ? LPI - std::max(a, b) : std::min(a, b);
    if (e.isFull()) { REQUIRE(a > DPI / 2 && minor < 1e-15L, "full: ", show(e)); return; }
    if (a != b) c.nontrivial();
    consistent(e);
    REQUIRE(e.getCenter() == ctr, "the centre is ", show(e.getCenter()));
    double lo = std::min(a, b), hi = std::max(a, b);
    if (a > DPI / 2) std::swap(lo, hi);
    REQUIRE(std::fabs(e.getAlpha().asRadians() - hi) <= 4e-16 && std::fabs(e.getBeta().asRadians() - lo) <= 4e-16, "alpha, beta = ", e.getAlpha().asRadians(), ", ", e.getBeta().asRadians());
    // along the axes, at the position angle, there are points in and out
    V C(ctr), n, ea;
    if (ctr.x() == 0 && ctr.y() == 0) n = V(ctr.z() > 0 ? -1 : 1, 0, 0);
    else n = V(-C.x * C.z, -C.y * C.z, C.x * C.x + C.y * C.y).unit();
    ea = n.cross(C).unit();   // east
    V d0 = n * cosl(o) + ea * sinl(o), d1 = d0.cross(C).unit();
    bool big = a > DPI / 2;
    for (int k = 0; k < 8; ++k) {
        bool first = k & 1;
        ld len = first ? a : b, side = k & 2 ? 1 : -1, out = k & 4 ? 1 : -1;
        ld step = g.logUniform(-14.5, -1);
        ld t = len + out * step;
        if (t < 0 || t > LPI) continue;
        UnitVector3d u = toUnit(toward(C, (first ? d0 : d1) * side, t));
        // across the axis the ellipse must be wider than the rounding errors
        ld other = first ? b : a, oh = big ? LPI - other : other, lh = big ? LPI - len : len;
        if (oh < 1e-14L || lh < 1e-14L) continue;
        // boundary curvature: near the tip the half-width is about oh * sqrt(2 step / lh)
        if (oh * sqrtl(2 * step / std::max(lh, step)) < 4e-15L + 1e-15L * lh) continue;
        if (step < 3e-15L * std::max<ld>(1, lh / oh)) continue;
        REQUIRE(e.contains(u) == (out < 0), show(u), ", ", static_cast<double>(step), out < 0 ? " before" : " past", " the end of the ", first ? "alpha" : "beta", " axis is ", yes(e.contains(u)), " ", show(e));
    }
    // the two constructors agree
    Ellipse e2(e.getF1(), e.getF2(), e.getAlpha());
    Ref f = makeRef(e);
    for (int i = 0; i < 6; ++i) {
        V p = i == 0 ? w.randomDirection() : toward(f.boundary(2 * LPI * g.unit()), w.randomDirection(), g.logUniform(-13, -1));
        UnitVector3d u = toUnit(p);
        ld s = angleBetween(V(u), V(e.getF1())) + angleBetween(V(u), V(e.getF2())) - 2 * static_cast<ld>(e.getAlpha().asRadians());
        if (fabsl(s) < 2e-14L) continue;
        REQUIRE(e.contains(u) == (s < 0), show(u), " is ", yes(s < 0), " by ", static_cast<double>(fabsl(s)), " by the foci of ", show(e), ", but contains() differs");
        REQUIRE(e2.contains(u) == (s < 0), show(u), " is ", yes(s < 0), " by ", static_cast<double>(fabsl(s)), " by the foci, but not for the ellipse constructed from them, ", show(e2));
    }
}

LAW(rotation, 20000, 600000, 8) {
    // turning by half a turn, or swapping the axes with a quarter turn, is the same ellipse
    World w(g);
    UnitVector3d ctr = w.unit();
    double a = g.logUniform(-6, 0.19), b = a * g.uniform(0.05, 1), o = g.uniform(-4, 4);
    if (g.coin()) { a = DPI - a; b = DPI - b; }
    c.note("centre ", show(ctr), " alpha ", a, " beta ", b, " orientation ", o);
    c.nontrivial();
    Ellipse e(ctr, Angle(a), Angle(b), Angle(o));
    Ellipse h(ctr, Angle(a), Angle(b), Angle(o + DPI * g.range(-2, 2))), s(ctr, Angle(b), Angle(a), Angle(o + (g.coin() ? 1 : -1) * DPI / 2));
    Ref f = makeRef(e);
    ld small = std::min(std::min<ld>(a, LPI - a), std::min<ld>(b, LPI - b));
    for (int i = 0; i < 8; ++i) {
        UnitVector3d u = toUnit(toward(f.boundary(2 * LPI * g.unit()), w.randomDirection(), small * g.logUniform(-6, 0)));
        int k = f.side(V(u), 2e-14L);
        if (k == 0) continue;
        REQUIRE(h.contains(u) == (k > 0), "turned by a multiple of a half turn, ", show(u), " is ", yes(h.contains(u)));
        REQUIRE(s.contains(u) == (k > 0), "with the axes swapped, ", show(u), " is ", yes(s.contains(u)));
    }
}

LAW(complement, 40000, 1500000, 8) {
    World w(g);
    Ellipse e = w.ellipse();
    c.note(show(e));
    Ellipse q = e.complemented();
    Ellipse back = q.complemented();
    REQUIRE(back == e && back.encode() == e.encode(), "complementing twice gives ", show(back));
    if (e.isEmpty()) { REQUIRE(q.isFull() && !q.isEmpty(), "complement of empty: ", show(q)); return; }
    if (e.isFull()) {
        // The complement of a full ellipse is empty, a point or a segment.
        Ref f = makeRef(q);
        REQUIRE(q.isEmpty() || q.getBeta().asRadians() <= 4e-16, "complement of full: ", show(q));
        return;
    }
    if (!e.isCircle()) c.nontrivial();
    consistent(q);
    REQUIRE(q.getCenter() == -e.getCenter(), "centre of the complement ", show(q.getCenter()));
    REQUIRE(std::fabs(q.getAlpha().asRadians() + e.getAlpha().asRadians() - DPI) < 1e-15 && std::fabs(q.getBeta().asRadians() + e.getBeta().asRadians() - DPI) < 1e-15 && q.getGamma() == e.getGamma(), "semi-axes of the complement ", show(q));
    REQUIRE(angleBetween(V(q.getF1()), -V(e.getF1())) < 2e-15L && angleBetween(V(q.getF2()), -V(e.getF2())) < 2e-15L, "foci of the complement");
    Ref f = makeRef(e);
    for (int i = 0; i < 8; ++i) {
        UnitVector3d u = i == 0 ? e.getCenter() : i == 1 ? w.unit() : toUnit(toward(f.boundary(2 * LPI * g.unit()), w.randomDirection(), g.logUniform(-16, -1)));
        REQUIRE(e.contains(u) || q.contains(u), show(u), " is in neither the ellipse nor the closure of its complement");
        if (f.side(V(u), 1e-14L) == 0) continue;
        REQUIRE(e.contains(u) != q.contains(u), show(u), " is in both the ellipse and its complement, and not on the boundary");
    }
}

LAW(degenerate, 20000, 600000, 8) {
    World w(g);
    UnitVector3d v = w.unit();
    double bad[] = {std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()};
    double o = g.chance(1, 4) ? bad[g.below(3)] : g.uniform(-10, 10);
    auto any = [&]() { return g.chance(1, 8) ? bad[g.below(3)] : g.chance(1, 6) ? g.pick({DPI / 2, 0.0, DPI, -0.0, -1e-300, 4.0}) : g.chance(1, 8) ? -w.angle() : g.uniform(0, 4); };
    double a = any(), b = any();
    c.note("centre ", show(v), " alpha ", a, " beta ", b, " orientation ", o);
    bool reject = !std::isfinite(o) || std::isnan(a) || std::isnan(b) || (a < DPI / 2) != (b < DPI / 2) || (a > DPI / 2) != (b > DPI / 2);
    bool thrown = false;
    Ellipse e;
    try { e = Ellipse(v, Angle(a), Angle(b), Angle(o)); } catch (std::invalid_argument const &) { thrown = true; }
    REQUIRE(thrown == reject, reject ? "accepted: " : "rejected", show(e));
    if (!thrown) {
        c.nontrivial();
        if (a < 0 || b < 0) REQUIRE(e.isEmpty() && e == Ellipse::empty(), "a negative semi-axis, but not empty: ", show(e));
        else if (a > DPI || b > DPI) REQUIRE(e.isFull() && e == Ellipse::full(), "a semi-axis over pi, but not full: ", show(e));
        else REQUIRE(!e.isEmpty(), "empty: ", show(e));
    }
    // circles as ellipses
    Circle k = w.circle();
    c.note(show(k));
    Ellipse ek(k);
    REQUIRE(ek.isEmpty() == k.isEmpty() && ek.isFull() == k.isFull(), "the ellipse of the circle is ", show(ek));
    if (!ek.isEmpty()) REQUIRE(ek.isCircle(), "not a circle");
    if (plain(ek)) REQUIRE(ek.getCenter() == k.getCenter() && std::fabs(ek.getAlpha().asRadians() - k.getOpeningAngle().asRadians()) < 4e-16, "the ellipse of the circle is ", show(ek));
    Ellipse pt(v);
    REQUIRE(!pt.isEmpty() && pt.contains(v) && pt.isCircle() && !pt.contains(-v) && pt.getAlpha().asRadians() == 0, "the ellipse of a point: ", show(pt));
    REQUIRE(Ellipse() == Ellipse::empty() && Ellipse().isEmpty() && Ellipse::full().isFull() && !Ellipse::full().isEmpty() && !Ellipse::empty().isFull(), "the empty and full ellipses");
}
