// C35: areas and sizes are right and additive.
#include "geo.h"

using namespace lsst::sphgeom;
using geo::V;
using geo::World;
using geo::ld;

char const * const PROPERTY_ID = "C35";
char const * const NONTRIVIAL_RULE =
    "A case is one or two boxes or circles, or the parameters of one; non-trivial when a region is neither empty, nor a single point, nor full.";

namespace {
ld const PI_L = geo::LPI;
double sgn(pbt::Gen & g) { return g.coin() ? 1 : -1; }
ld lonSize(Box const & b) {
    ld d = (ld)b.getLon().getB().asRadians() - b.getLon().getA().asRadians();
    if (b.getLon().isFull()) return 2 * PI_L;
    return d < 0 ? d + 2 * PI_L : d;
}
ld area(Box const & b) {
    if (b.isEmpty()) return 0;
    ld s = b.getLat().getA().asRadians(), n = b.getLat().getB().asRadians();
    return lonSize(b) * 2 * sinl((n - s) / 2) * cosl((n + s) / 2);
}
// The sines of the latitudes and the longitudes are rounded.
ld boxTol(Box const & b) { return b.isEmpty() ? 0 : lonSize(b) * 4.5e-16L + 1e-15L * area(b) + 5e-16L * 2; }
ld tightTol(Box const & b) {
    ld s = sinl(b.getLat().getA().asRadians()), n = sinl(b.getLat().getB().asRadians());
    return lonSize(b) * 2.4e-16L * (fabsl(s) + fabsl(n)) + 8e-16L * area(b) + (b.getLon().wraps() || b.getLon().isFull() ? 1.2e-15L * (n - s) : 0);
}
ld circleArea(Circle const & c) {
    if (c.isEmpty()) return 0;
    if (c.isFull()) return 4 * PI_L;
    return PI_L * c.getSquaredChordLength();
}
ld gap(ld x, ld y) { return fabsl(remainderl(x - y, 2 * PI_L)); }
}  // namespace

LAW(boxes, 100000, 1200000, 15) {
    World w(g);
    Box b = w.box();
    c.note(geo::show(b));
    double a = b.getArea();
    if (b.isEmpty()) {
        REQUIRE(a == 0 && b.getWidth().isNan() && !(b.getHeight().asRadians() >= 0), "area ", a, " of an empty box");
        REQUIRE(b.getCenter().getLon().isNan() && b.getCenter().getLat().isNan(), "center of an empty box");
        return;
    }
    ld want = area(b);
    REQUIRE(a >= 0 && fabsl(a - want) <= tightTol(b) + 1e-322L, "area is ", a, " and not ", (double)want);
    if (b.isFull()) REQUIRE(fabsl(a - 4 * PI_L) <= 3e-15L, "area of the sphere is ", a);
    else if (a > 0) c.nontrivial();
    REQUIRE(fabsl(b.getWidth().asRadians() - lonSize(b)) <= 1.2e-15L, "width is ", b.getWidth().asRadians());
    ld s = b.getLat().getA().asRadians(), n = b.getLat().getB().asRadians();
    REQUIRE(fabsl(b.getHeight().asRadians() - (n - s)) <= 1.2e-16L * (n - s), "height is ", b.getHeight().asRadians());
    LonLat m = b.getCenter();
    REQUIRE(fabsl(m.getLat().asRadians() - (n + s) / 2) <= 2.5e-16L, "center latitude is ", m.getLat().asRadians());
    if (!b.getLon().isFull())
        REQUIRE(gap(m.getLon().asRadians(), b.getLon().getA().asRadians() + lonSize(b) / 2) <= 1.5e-15L, "center longitude is ", m.getLon().asRadians());
    // the parts add up
    double cut = (double)(s + (n - s) * (ld)g.unit());
    cut = std::min((double)n, std::max((double)s, cut));
    Box lo(b.getLon(), AngleInterval(Angle((double)s), Angle(cut))), hi(b.getLon(), AngleInterval(Angle(cut), Angle((double)n)));
    c.note("cut at latitude ", cut);
    REQUIRE(fabsl((ld)lo.getArea() + hi.getArea() - a) <= 2 * boxTol(b), "parts have area ", lo.getArea(), " and ", hi.getArea(), ", the whole ", a);
    NormalizedAngle west = b.getLon().getA(), east = b.getLon().getB();
    NormalizedAngle mid(NormalizedAngle((double)(west.asRadians() + lonSize(b) * (ld)g.unit())));
    if (b.getLon().contains(mid)) {
        Box l(NormalizedAngleInterval(west, mid), b.getLat()), r(NormalizedAngleInterval(mid, east), b.getLat());
        c.note("cut at longitude ", mid.asRadians());
        // a cut that rounds to an end may denote it once as 0 and once as 2 pi
        if (gap(mid.asRadians(), west.asRadians()) > 1e-14L && gap(mid.asRadians(), east.asRadians()) > 1e-14L)
            REQUIRE(fabsl((ld)l.getArea() + r.getArea() - a) <= 2 * boxTol(b) + 3e-15L, "parts have area ", l.getArea(), " and ", r.getArea(), ", the whole ", a);
    }
    // containment
    Box d = g.coin() ? w.box() : Box(b).expandTo(w.box());
    c.note("d=", geo::show(d));
    if (d.contains(b)) REQUIRE(d.getArea() >= a - boxTol(b) - boxTol(d), "area of a containing box is ", d.getArea(), ", less than ", a);
    if (b.contains(d)) REQUIRE(a >= d.getArea() - boxTol(b) - boxTol(d), "area of a contained box is ", d.getArea(), ", more than ", a);
}

LAW(boxParameters, 100000, 1000000, 15) {
    World w(g);
    double lon = w.lon(), lat = w.lat();
    double hw = g.chance(1, 10) ? -g.uniform(0, 1) : g.coin() ? g.uniform(0, 3.3) : g.logUniform(-12, 0), hh = g.chance(1, 10) ? -g.uniform(0, 1) : g.coin() ? g.uniform(0, 2) : g.logUniform(-12, 0);
    c.note("center ", lon, ',', lat, " half-width ", hw, " half-height ", hh);
    Box b(LonLat::fromRadians(lon, lat), Angle(hw), Angle(hh));
    if (hw < 0 || hh < 0) {
        REQUIRE(b.isEmpty(), "negative half-sizes give ", geo::show(b));
        return;
    }
    c.nontrivial();
    REQUIRE(!b.isEmpty());
    double s = std::max(-0.5 * PI, lat - hh), n = std::min(0.5 * PI, lat + hh);
    REQUIRE(std::fabs(b.getLat().getA().asRadians() - s) <= 2.3e-16 && std::fabs(b.getLat().getB().asRadians() - n) <= 2.3e-16, "latitudes ", geo::show(b));
    if (hw >= PI) REQUIRE(b.getLon().isFull(), "width ", b.getWidth().asRadians());
    else if (hw < PI - 1e-15) {
        REQUIRE(fabsl(b.getWidth().asRadians() - 2 * (ld)hw) <= 2e-15L, "width ", b.getWidth().asRadians());
        REQUIRE(gap(b.getCenter().getLon().asRadians(), lon) <= 2e-15L || hw > PI - 1e-8, "center ", b.getCenter().getLon().asRadians());
    }
    double lon2 = w.lon(), lat2 = w.lat();
    Box p(LonLat::fromRadians(lon, lat), LonLat::fromRadians(lon2, lat2));
    c.note("second corner ", lon2, ',', lat2);
    if (lat > lat2) REQUIRE(p.isEmpty(), "corners in the wrong order give ", geo::show(p));
    else REQUIRE(p.getLon().getA() == NormalizedAngle(lon) && p.getLon().getB() == NormalizedAngle(lon2) && p.getLat() == AngleInterval(Angle(lat), Angle(lat2)), "corners give ", geo::show(p));
    Box q(LonLat::fromRadians(lon, lat));
    REQUIRE(q.getArea() == 0 && q.getWidth().asRadians() == 0 && q.getHeight().asRadians() == 0 && !q.isEmpty(), "a point");
    double d = 57.29577951308232;
    Box f = Box::fromDegrees(lon * d, std::min(lat, lat2) * 57.29, lon2 * d, std::max(lat, lat2) * 57.29), r = Box::fromRadians(lon, std::min(lat, lat2), lon2, std::max(lat, lat2));
    REQUIRE(std::fabs(f.getLat().getA().asRadians() - std::min(lat, lat2) * 57.29 / d) <= 1e-15, "fromDegrees ", geo::show(f));
    REQUIRE(r == Box(LonLat::fromRadians(lon, std::min(lat, lat2)), LonLat::fromRadians(lon2, std::max(lat, lat2))), "fromRadians ", geo::show(r));
}

LAW(circles, 100000, 1200000, 15) {
    World w(g);
    Circle a = w.circle();
    c.note(geo::show(a));
    ld want = circleArea(a);
    double got = a.getArea();
    if (!a.isEmpty() && !a.isFull() && got > 0) c.nontrivial();
    REQUIRE(got >= 0 && got <= 4 * PI && fabsl(got - want) <= 4e-16L * want + 1e-323L, "area is ", got, " and not ", (double)want);
    double r = a.getOpeningAngle().asRadians();
    if (a.isEmpty()) REQUIRE(!(r >= 0) && got == 0, "empty circle of opening angle ", r);
    else if (a.isFull()) REQUIRE(r >= PI - 1e-7 && fabsl(got - 4 * PI_L) < 3e-15L, "full circle of opening angle ", r);
    else {
        REQUIRE(r >= 0 && r <= PI, "opening angle ", r);
        ld cap = 4 * PI_L * sinl((ld)r / 2) * sinl((ld)r / 2);
        // near pi an arc sine may have amplified the rounding of the chord
        ld tol = 3e-15L * cap + 1e-300L, s = sinl((ld)r);
        REQUIRE(fabsl(got - cap) <= tol + 2 * PI_L * fabsl(s) * 1e-15L + (r > 3 ? 1e-14L : 0), "area is ", got, " and not 2 pi (1 - cos r) = ", (double)cap);
    }
    // its complement
    Circle k = a.complemented();
    if (a.isEmpty() || a.getSquaredChordLength() == 0) REQUIRE(k.isFull(), "complement of an empty circle or a point");
    else if (a.isFull()) REQUIRE(k.isEmpty(), "complement of everything");
    else {
        REQUIRE(fabsl((ld)got + k.getArea() - 4 * PI_L) <= 4e-15L, "the complement's area is ", k.getArea());
        REQUIRE(fabsl((ld)r + k.getOpeningAngle().asRadians() - PI_L) <= 1e-15L, "the complement's opening angle is ", k.getOpeningAngle().asRadians());
        REQUIRE(k.getCenter() == -a.getCenter(), "the complement's center is ", geo::show(k.getCenter()));
    }
    Circle b = g.chance(1, 3) ? Circle(a).dilateBy(Angle(sgn(g) * g.logUniform(-9, 0))) : g.coin() ? a.expandedTo(w.unit()) : w.circle();
    c.note("b=", geo::show(b));
    if (b.contains(a)) REQUIRE(b.getArea() >= got - 4e-14L, "area of a containing circle is ", b.getArea(), ", less than ", got);
    if (a.contains(b)) REQUIRE(got >= b.getArea() - 4e-14L, "area of a contained circle is ", b.getArea(), ", more than ", got);
    // parameters
    UnitVector3d u = w.unit();
    double q = g.coin() ? w.angle() : sgn(g) * w.angle();
    Circle p(u, Angle(q));
    c.note("radius ", q);
    REQUIRE(p.getCenter() == u && p.getOpeningAngle().asRadians() == q, "opening angle is ", p.getOpeningAngle().asRadians());
    REQUIRE(p.isEmpty() == (q < 0) && p.isFull() == (q >= PI || p.getSquaredChordLength() >= 4), "flags");
    double s = g.uniform(-0.5, 4.5);
    Circle t(u, s);
    REQUIRE(t.getCenter() == u && t.getSquaredChordLength() == s && t.isEmpty() == (s < 0) && t.isFull() == (s >= 4), "chord length is ", t.getSquaredChordLength());
    Circle z(u);
    REQUIRE(z.getArea() == 0 && z.getOpeningAngle().asRadians() == 0 && !z.isEmpty(), "a point");
    REQUIRE(Circle().isEmpty() && Circle::empty().getArea() == 0 && fabsl(Circle::full().getArea() - 4 * PI_L) < 3e-15L, "constants");
}
