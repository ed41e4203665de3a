// C15: circle and box set operations give the documented regions.
#include "geo.h"

using namespace geo;

char const * const PROPERTY_ID = "C15";
char const * const NONTRIVIAL_RULE =
    "A case is one circle or box with one operation (or a history of up to 6) and its operand; non-trivial when no operand is empty or full.";

// How well a circle of this opening angle can tell inside from outside.
static ld blur(ld angle) { return angle > 3 ? 1e-7L : 1e-14L; }
static bool plain(Circle const & x) { return !x.isEmpty() && !x.isFull(); }
static bool plain(Box const & x) { return !x.isEmpty() && !x.isFull(); }

static Circle nearCircle(Gen & g, World & w, Circle const & a) {
    // concentric, internally or externally tangent, or anything
    if (!plain(a) || g.chance(1, 2)) return w.circle();
    UnitVector3d c = g.chance(1, 4) ? a.getCenter() : g.chance(1, 4) ? -a.getCenter() : w.unit();
    double d = static_cast<double>(angleBetween(V(c), V(a.getCenter()))), r = a.getOpeningAngle().asRadians();
    double t = g.pick({d - r, d + r, r - d, r, DPI - r, 2 * DPI - d - r});
    if (g.coin()) t += (g.coin() ? 1 : -1) * g.logUniform(-16, -1);
    return Circle(c, Angle(t));
}

// The opening angle and the squared chord length of a circle are those of the same circle.
static void wellFormed(Circle const & x) {
    ld a = x.getOpeningAngle().asRadians(), s = x.getSquaredChordLength();
    if (x.isEmpty()) { REQUIRE(!(a >= 0), "the opening angle of the empty circle ", show(x), " is ", static_cast<double>(a)); return; }
    if (x.isFull()) { REQUIRE(a > 3.141592L, "the opening angle of the full circle ", show(x), " is ", static_cast<double>(a)); return; }
    REQUIRE(fabsl(4 * sinl(a / 2) * sinl(a / 2) - s) <= 4e-15L, "the opening angle and chord of ", show(x), " differ");
}

LAW(circle_expand_point, 60000, 2000000, 8) {
    World w(g);
    Circle a = w.circle();
    w.learn(a);
    UnitVector3d x = w.unit();
    if (g.chance(1, 3)) { Ref f = makeRef(a); x = toUnit(toward(f.randomPoint(g), w.randomDirection(), g.logUniform(-16, 0))); }
    c.note(show(a), " to ", show(x));
    if (plain(a)) c.nontrivial();
    Circle e = a.expandedTo(x);
    wellFormed(e);
    REQUIRE(e.contains(x), show(e), " lacks the point");
    if (a.contains(x) && !a.isEmpty()) { REQUIRE(e == a, "already contained, but changed to ", show(e)); return; }
    Ref f = makeRef(a);
    for (auto & p : witnesses(g, f, f, 6))
        if (f.side(V(p), 1e-15L) > 0) REQUIRE(e.contains(p), show(e), " lacks ", show(p), " of the original");
    if (a.isEmpty()) { REQUIRE(e == Circle(x), "empty circle expanded to ", show(e)); return; }
    ld want = (angleBetween(V(x), f.c) + f.r) / 2;
    if (!e.isFull()) REQUIRE(e.getOpeningAngle().asRadians() <= want + 1e-7L, show(e), " is larger than ", static_cast<double>(want));
    else REQUIRE(want >= LPI - 4e-7L, "expanded to full, ", static_cast<double>(want), " would do");
}

LAW(circle_expand_circle, 60000, 2000000, 8) {
    World w(g);
    Circle a = w.circle();
    w.learn(a);
    Circle b = nearCircle(g, w, a);
    c.note(show(a), " to ", show(b));
    if (plain(a) && plain(b)) c.nontrivial();
    Circle e = a.expandedTo(b);
    wellFormed(e);
    Ref f = makeRef(a), h = makeRef(b);
    for (auto & p : witnesses(g, f, h, 6))
        if (f.side(V(p), 1e-15L) > 0 || h.side(V(p), 1e-15L) > 0) REQUIRE(e.contains(p), show(e), " lacks ", show(p));
    if (a.isEmpty()) REQUIRE(e == b, "not the other operand");
    if (b.isEmpty()) REQUIRE(e == a, "not the other operand");
    if (a.isFull() || b.isFull()) REQUIRE(e.isFull(), "not full");
    if (!plain(a) || !plain(b)) return;
    ld d = angleBetween(f.c, h.c), want = std::max((d + f.r + h.r) / 2, std::max(f.r, h.r));
    if (!e.isFull()) REQUIRE(e.getOpeningAngle().asRadians() <= want + 2e-7L, show(e), " is larger than ", static_cast<double>(want));
    else REQUIRE(want >= LPI - 4e-7L, "expanded to full, ", static_cast<double>(want), " would do");
}

LAW(circle_clip, 60000, 2000000, 8) {
    World w(g);
    Circle a = w.circle();
    w.learn(a);
    UnitVector3d x = w.unit();
    Circle cp = a.clippedTo(x);
    REQUIRE(a.contains(x) ? (cp == Circle(x) && cp.contains(x)) : cp.isEmpty(), "clipping ", show(a), " to ", show(x), " gives ", show(cp));
    Circle b = nearCircle(g, w, a);
    c.note(show(a), " to ", show(b));
    if (plain(a) && plain(b)) c.nontrivial();
    Circle e = a.clippedTo(b);
    wellFormed(e);
    wellFormed(cp);
    Ref f = makeRef(a), h = makeRef(b);
    for (auto & p : witnesses(g, f, h, 6))
        if (a.contains(p) && b.contains(p)) REQUIRE(e.contains(p), show(e), " lacks ", show(p), ", which is in both");
    REQUIRE(e.isEmpty() || e == a || e == b, "clipped to neither operand: ", show(e));
    if (a.isEmpty() || b.isEmpty()) REQUIRE(e.isEmpty(), "not empty");
    if (a.isFull()) REQUIRE(e == b, "not the other operand");
    if (b.isFull()) REQUIRE(e == a, "not the other operand");
    if (!plain(a) || !plain(b)) return;
    ld gap = angleBetween(f.c, h.c) - f.r - h.r;
    if (gap > 1e-6L) REQUIRE(e.isEmpty(), "clearly disjoint, but clipped to ", show(e));
    if (!e.isEmpty()) REQUIRE(e.getOpeningAngle() <= a.getOpeningAngle() && e.getOpeningAngle() <= b.getOpeningAngle(), "clipped to the larger operand");
}

static void sidesOf(Gen & g, World & w, UnitVector3d const & center, ld angle, Circle const & got, ld blur) {
    // got should be the circle of this opening angle
    for (int i = 0; i < 10; ++i) {
        V p = i < 2 ? w.randomDirection() : toward(V(center), w.randomDirection(), std::min(LPI, std::max<ld>(0, angle + (g.coin() ? 1 : -1) * g.logUniform(-14, 0))));
        UnitVector3d u = toUnit(p);
        ld d = angleBetween(V(u), V(center));
        if (d < angle - blur) REQUIRE(got.contains(u), show(got), " lacks ", show(u), " at ", static_cast<double>(d), " of ", static_cast<double>(angle));
        if (d > angle + blur) REQUIRE(!got.contains(u), show(got), " contains ", show(u), " at ", static_cast<double>(d), " of ", static_cast<double>(angle));
    }
}

LAW(circle_dilate, 60000, 2000000, 8) {
    World w(g);
    Circle a = w.circle();
    double r;
    switch (g.below(6)) {
        case 0: r = g.pick({0.0, -0.0, std::nan(""), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), DPI, -DPI, 7.0, -7.0}); break;
        case 1: r = plain(a) ? -a.getOpeningAngle().asRadians() * (g.coin() ? 1 : 1 + (g.coin() ? 1 : -1) * g.logUniform(-16, -1)) : 0.5; break;
        case 2: r = plain(a) ? DPI - a.getOpeningAngle().asRadians() + (g.coin() ? 1 : -1) * g.logUniform(-16, -1) : 0.5; break;
        default: r = (g.coin() ? 1 : -1) * w.angle();
    }
    c.note(show(a), " by ", r);
    Circle e = g.coin() ? a.dilatedBy(Angle(r)) : a.erodedBy(Angle(-r));
    if (!plain(a) || r == 0 || std::isnan(r)) {
        REQUIRE(e == a && (a.isEmpty() == e.isEmpty()) && e.encode() == a.encode(), "there should be no effect, but it is now ", show(e));
        return;
    }
    wellFormed(e);
    c.nontrivial();
    ld angle = static_cast<ld>(a.getOpeningAngle().asRadians()) + r;
    if (angle < -1e-15L) REQUIRE(e.isEmpty(), "eroded beyond its centre: ", show(e));
    if (angle > LPI + 1e-15L) REQUIRE(e.isFull(), "dilated past the antipode: ", show(e));
    if (!(angle > 0 && angle < LPI)) return;
    REQUIRE(!e.isEmpty(), "empty");
    REQUIRE(fabsl(e.getOpeningAngle().asRadians() - angle) <= 1e-15L, "opening angle ", e.getOpeningAngle().asRadians(), ", not ", static_cast<double>(angle));
    sidesOf(g, w, a.getCenter(), angle, e, blur(angle));
    if (e.isFull()) return;
    Circle back = e.erodedBy(Angle(r));
    REQUIRE(back.getCenter() == a.getCenter() && std::fabs(back.getOpeningAngle().asRadians() - a.getOpeningAngle().asRadians()) <= 2e-15, "undone to ", show(back));
}

LAW(circle_complement, 40000, 1500000, 8) {
    World w(g);
    Circle a = w.circle();
    c.note(show(a));
    Circle e = a.complemented();
    wellFormed(e);
    if (a.isEmpty() || a.isFull()) REQUIRE(Circle(e).complement().isEmpty() == a.isEmpty() && e.complemented().isFull() == a.isFull(), "complemented twice: ", show(e.complemented()));
    if (a.isEmpty()) REQUIRE(e.isFull(), "the complement of empty is ", show(e));
    if (a.isFull()) REQUIRE(e.isEmpty(), "the complement of full is ", show(e));
    if (!plain(a)) return;
    c.nontrivial();
    if (a.getSquaredChordLength() == 0) REQUIRE(e.isFull(), "the closure of the complement of a point is ", show(e));
    ld r = a.getOpeningAngle().asRadians();
    sidesOf(g, w, -a.getCenter(), LPI - r, e, blur(std::max(r, LPI - r)));
    for (int i = 0; i < 4; ++i) {
        UnitVector3d p = i == 0 ? a.getCenter() : i == 1 ? -a.getCenter() : w.unit();
        ld d = angleBetween(V(p), V(a.getCenter()));
        if (fabsl(d - r) < blur(std::max(r, LPI - r)) + 1e-12L) continue;
        REQUIRE(a.contains(p) != e.contains(p), "a point ", show(p), " is in both or neither of a circle and its complement");
    }
    if (!e.isFull()) {
        Circle back = e.complemented();
        REQUIRE(back.getCenter() == a.getCenter() && std::fabs(back.getSquaredChordLength() - a.getSquaredChordLength()) <= 1e-15 &&
                std::fabs(back.getOpeningAngle().asRadians() - a.getOpeningAngle().asRadians()) <= 1e-15, "complemented twice: ", show(back));
    }
}

// Arcs of longitude.
static ld width(NormalizedAngleInterval const & i) {
    if (i.isEmpty()) return -1;
    if (i.isFull()) return 2 * LPI;
    ld w = static_cast<ld>(i.getB().asRadians()) - i.getA().asRadians();
    return w < 0 ? w + 2 * LPI : w;
}

LAW(box_clip_expand, 80000, 2500000, 8) {
    World w(g);
    Box a = w.box();
    w.learn(a);
    Box b = g.chance(1, 6) ? Box(LonLat(w.unit())) : w.box();
    if (g.chance(1, 4) && plain(a)) { // shares bounds with a
        NormalizedAngle l = g.coin() ? a.getLon().getA() : a.getLon().getB(), m = NormalizedAngle(w.lon());
        b = Box(g.coin() ? NormalizedAngleInterval(l, m) : NormalizedAngleInterval(m, l), g.coin() ? a.getLat() : b.getLat());
    }
    c.note(show(a), " and ", show(b));
    if (plain(a) && plain(b)) c.nontrivial();
    Ref f = makeRef(a), h = makeRef(b);
    std::vector<UnitVector3d> pts = witnesses(g, f, h, 6);
    Box x = a.clippedTo(b), u = a.expandedTo(b);
    for (auto & p : pts) {
        LonLat q(p);
        bool ina = a.contains(q), inb = b.contains(q);
        if (ina && inb) REQUIRE(x.contains(q), "clipped box ", show(x), " lacks ", show(p));
        if (ina || inb) REQUIRE(u.contains(q), "expanded box ", show(u), " lacks ", show(p));
    }
    REQUIRE(x.isEmpty() || x.isWithin(a) || x.isWithin(b), "clipped box ", show(x), " is in neither operand");
    REQUIRE(u.contains(a) && u.contains(b), "expanded box ", show(u), " does not contain both");
    REQUIRE(x.isEmpty() == a.isDisjointFrom(b), "clipped box is ", show(x), " but disjoint is ", a.isDisjointFrom(b));
    if (x.isEmpty()) REQUIRE(x == Box::empty(), "a partly empty box");
    if (!x.isEmpty()) {
        REQUIRE(x.getLat().getA() == std::max(a.getLat().getA(), b.getLat().getA()) && x.getLat().getB() == std::min(a.getLat().getB(), b.getLat().getB()), "latitudes of ", show(x));
        REQUIRE(width(x.getLon()) <= std::min(width(a.getLon()), width(b.getLon())) + 4e-15L, "longitudes of ", show(x));
    }
    if (!a.isEmpty() && !b.isEmpty()) {
        REQUIRE(u.getLat().getA() == std::min(a.getLat().getA(), b.getLat().getA()) && u.getLat().getB() == std::max(a.getLat().getB(), b.getLat().getB()), "latitudes of ", show(u));
        // the smallest arc with both: from the start of one to the end of the other (or one of them, or full)
        NormalizedAngleInterval A = a.getLon(), B = b.getLon();
        ld best = 2 * LPI;
        if (A.contains(B)) best = width(A);
        if (B.contains(A)) best = std::min(best, width(B));
        for (auto & t : {NormalizedAngleInterval(A.getA(), B.getB()), NormalizedAngleInterval(B.getA(), A.getB())})
            if (t.contains(A) && t.contains(B)) best = std::min(best, width(t));
        REQUIRE(width(u.getLon()) <= best + 1e-15L, "the longitudes of ", show(u), " span more than ", static_cast<double>(best));
    } else REQUIRE(u == (a.isEmpty() ? b : a), "expanding by empty gives ", show(u));
    LonLat p(pts[g.below(pts.size())]);
    Box xp = a.clippedTo(p), up = a.expandedTo(p);
    REQUIRE(up.contains(p) && up.contains(a), "expanded to a point: ", show(up));
    REQUIRE(a.contains(p) ? xp == Box(p) && xp == p : xp.isEmpty(), "clipped to a point: ", show(xp));
    if (a.contains(p)) REQUIRE(up == a, "expanded to a point inside: ", show(up));
}

LAW(box_dilate_angle, 60000, 2000000, 8) {
    World w(g);
    Box a = w.box();
    w.learn(a);
    double r = g.chance(1, 10) ? g.pick({0.0, -0.1, -1e-300, DPI, 4.0, 1e-300}) : w.angle();
    if (g.chance(1, 5) && plain(a)) { // reaching a pole, about
        double m = std::max(std::fabs(a.getLat().getA().asRadians()), std::fabs(a.getLat().getB().asRadians()));
        r = DPI / 2 - m + (g.coin() ? 1 : -1) * g.logUniform(-16, -1);
    }
    c.note(show(a), " by ", r);
    Box e = a.dilatedBy(Angle(r));
    Box k = a;
    if (g.coin()) k.erodeBy(Angle(-r)); else k.dilateBy(Angle(r));
    REQUIRE(e == a.erodedBy(Angle(-r)) && e == k, "the forms of dilation and erosion differ: ", show(e), " and ", show(k));
    if (!plain(a) || r <= 0) { REQUIRE(e == a, "there should be no effect, but it is now ", show(e)); return; }
    c.nontrivial();
    Ref f = makeRef(a), h = makeRef(e);
    std::vector<V> pts;
    f.vertices(pts);
    for (int i = 0; i < 4; ++i) pts.push_back(f.randomPoint(g));
    std::vector<V> more;
    for (auto & p : pts) {
        V east(-p.y, p.x, 0);
        for (V const & d : {east, -east, V(0, 0, 1), V(0, 0, -1), w.randomDirection()}) more.push_back(toward(p, d.norm() > 0 ? d : V(1, 0, 0), std::min<ld>(r, LPI)));
    }
    for (auto & p : more) REQUIRE(h.side(p, 1e-13L) >= 0, show(e), " lacks ", show(toUnit(p)), ", which is within the angle of the box");
    // minimal
    ld la = std::max<ld>(-LPI / 2, static_cast<ld>(a.getLat().getA().asRadians()) - r), lb = std::min<ld>(LPI / 2, static_cast<ld>(a.getLat().getB().asRadians()) + r);
    REQUIRE(fabsl(e.getLat().getA().asRadians() - la) < 1e-15L && fabsl(e.getLat().getB().asRadians() - lb) < 1e-15L, "latitudes of ", show(e));
    ld m = std::max(fabsl(a.getLat().getA().asRadians()), fabsl(a.getLat().getB().asRadians()));
    if (m + r < LPI / 2 - 1e-14L) {
        // as wide as it must be, and no wider than rounding errors in m + r call for
        auto half = [&](ld slack) { return atan2l(sinl(r), sqrtl(std::max<ld>(0, cosl(m - r) * (cosl(m + r) - slack)))); };
        ld lo = std::min(2 * LPI, width(a.getLon()) + 2 * half(0)), hi = std::min(2 * LPI, width(a.getLon()) + 2 * half(1e-15L));
        REQUIRE(width(e.getLon()) <= hi + 1e-13L && width(e.getLon()) >= lo - 1e-13L, "longitudes of ", show(e), " span ", static_cast<double>(width(e.getLon())), ", not ", static_cast<double>(lo));
    }
}

LAW(box_dilate_each, 60000, 2000000, 8) {
    World w(g);
    Box a = w.box();
    auto amount = [&]() -> double {
        switch (g.below(6)) {
            case 0: return g.pick({0.0, DPI, -DPI, DPI / 2, -DPI / 2, 1e-300, 4.0, -4.0});
            case 1: if (plain(a)) return -a.getHeight().asRadians() / 2 * (g.coin() ? 1 : g.uniform(0.5, 1.5)); return 0;
            case 2: if (plain(a)) return -a.getWidth().asRadians() / 2 * (g.coin() ? 1 : g.uniform(0.5, 1.5)); return 0;
            default: return (g.coin() ? 1 : -1) * w.angle();
        }
    };
    double dw = amount(), dh = amount();
    c.note(show(a), " by ", dw, " and ", dh);
    Box e = g.coin() ? a.dilatedBy(Angle(dw), Angle(dh)) : a.erodedBy(Angle(-dw), Angle(-dh));
    Box k = a;
    if (g.coin()) k.erodeBy(Angle(-dw), Angle(-dh)); else k.dilateBy(Angle(dw), Angle(dh));
    REQUIRE(e == k, "the forms of dilation and erosion differ: ", show(e), " and ", show(k));
    if (!plain(a)) { REQUIRE(e == a, "there should be no effect, but it is now ", show(e)); return; }
    c.nontrivial();
    // each coordinate on its own
    ld la = a.getLat().getA().asRadians(), lb = a.getLat().getB().asRadians();
    if (la > -DPI / 2) la -= dh;
    if (lb < DPI / 2) lb += dh;
    la = std::max<ld>(la, -DPI / 2);
    lb = std::min<ld>(lb, DPI / 2);
    ld wd = width(a.getLon()), nw = a.getLon().isFull() ? 2 * LPI : wd + 2 * static_cast<ld>(dw);
    if (lb < la - 2e-15L || nw < -4e-15L) { REQUIRE(e.isEmpty() && e == Box::empty(), "should be empty, is ", show(e)); return; }
    if (lb < la + 2e-15L || nw < 4e-15L || fabsl(nw - 2 * LPI) < 4e-15L) { c.label("too close to call"); return; }
    REQUIRE(!e.isEmpty(), "empty");
    REQUIRE(fabsl(e.getLat().getA().asRadians() - la) < 1e-15L && fabsl(e.getLat().getB().asRadians() - lb) < 1e-15L, "latitudes of ", show(e));
    REQUIRE(fabsl(width(e.getLon()) - std::min(nw, 2 * LPI)) < 4e-15L, "longitudes of ", show(e));
    if (nw < 2 * LPI) {
        ld ce = e.getLon().getCenter().asRadians(), ca = a.getLon().getCenter().asRadians(), d = fabsl(ce - ca);
        REQUIRE(std::min(d, 2 * LPI - d) < 4e-15L, "the centre moved: ", show(e));
        if (la > -DPI / 2 && lb < DPI / 2 && a.getLat().getA().asRadians() > -DPI / 2 && a.getLat().getB().asRadians() < DPI / 2) {
            Box back = e.erodedBy(Angle(dw), Angle(dh));
            if (back.isEmpty()) c.label("undone to empty by rounding");
            else REQUIRE(fabsl(width(back.getLon()) - wd) < 8e-15L || wd < 8e-15L, "undone to ", show(back));
        }
    }
}

// Histories: what the operations promise holds at every step.
LAW(history, 20000, 600000, 8) {
    World w(g);
    Circle a = w.circle();
    int n = g.range(2, 6);
    c.note(show(a));
    if (plain(a)) c.nontrivial();
    std::vector<UnitVector3d> must;   // points that must stay inside
    for (int i = 0; i < n; ++i) {
        switch (g.below(4)) {
            case 0: { UnitVector3d x = w.unit(); c.note("expand to ", show(x)); a.expandTo(x); must.push_back(x); break; }
            case 1: { Circle x = nearCircle(g, w, a); c.note("expand to ", show(x)); a.expandTo(x); if (!x.isEmpty()) must.push_back(x.getCenter()); break; }
            case 2: { double r = w.angle(); c.note("dilate by ", r); a.dilateBy(Angle(r)); break; }
            default: a.complement().complement(); c.note("complement twice"); must.clear();
        }
        for (auto & p : must) REQUIRE(a.contains(p), "step ", i, ": ", show(a), " lacks ", show(p));
        ld back = a.getOpeningAngle().asRadians(), chord = a.getSquaredChordLength();
        if (plain(a)) REQUIRE(fabsl(4 * sinl(back / 2) * sinl(back / 2) - chord) <= 1e-13L + (back > 3 ? 1e-7L : 0), "opening angle and chord length of ", show(a), " disagree");
    }
}
