// C12: relate() is consistent (inversion, dispatch, named predicates, empty and
// identical operands) and reports clear-cut relationships.
#include "geo.h"

using namespace geo;

char const * const PROPERTY_ID = "C12";
char const * const NONTRIVIAL_RULE =
    "A case is a pair of regions; non-trivial when neither is empty (consistency laws) or when the pair was constructed to be "
    "nested or apart by at least 1e-6 rad (decisiveness laws).";

namespace {
// relate() through every overload the static type of b offers.
Relationship typed(Region const & a, Region const & b) {
    if (auto p = dynamic_cast<Box const *>(&b)) return a.relate(*p);
    if (auto p = dynamic_cast<Circle const *>(&b)) return a.relate(*p);
    if (auto p = dynamic_cast<Ellipse const *>(&b)) return a.relate(*p);
    if (auto p = dynamic_cast<ConvexPolygon const *>(&b)) return a.relate(*p);
    return a.relate(b);
}
bool isEmptyRegion(Region const & r) { return makeRef(r).knownEmpty(); }
}  // namespace

LAW(inversion, 40000, 1000000, 5) {
    World w(g);
    auto a = w.region(World::ANY);
    auto b = g.chance(2, 3) ? w.relatedTo(*a, World::ANY) : w.region(World::ANY);
    c.note("a=", show(*a), " b=", show(*b));
    if (!isEmptyRegion(*a) && !isEmptyRegion(*b)) c.nontrivial();
    Relationship r = a->relate(*b), i = b->relate(*a);
    c.label(r.any(), "a claim is made");
    REQUIRE(typed(*a, *b) == r, "the overload for the static type disagrees: ", typed(*a, *b), " and ", r);
    REQUIRE(a->clone()->relate(*b->clone()) == r, "relate() of clones");
    bool both = dynamic_cast<CompoundRegion const *>(a.get()) && dynamic_cast<CompoundRegion const *>(b.get());
    c.label(both, "two compound regions: conservative in either order");
    if (!both) REQUIRE(invert(i) == r, "a.relate(b) is ", r, " but b.relate(a) is ", i);
    REQUIRE(invert(invert(r)) == r, "invert is not an involution on ", r);
    REQUIRE(!((r & DISJOINT).any() && (r & (CONTAINS | WITHIN)).any()) || isEmptyRegion(*a) || isEmptyRegion(*b) ||
                (dynamic_cast<CompoundRegion const *>(a.get()) || dynamic_cast<CompoundRegion const *>(b.get())),
            "non-empty regions are said to be both disjoint and nested: ", r);
}

LAW(invert_bits, 64, 64, 100) {
    unsigned v = g.below(8);
    Relationship r(v);
    Relationship want = (v & 1) | ((v & 2) ? 4 : 0) | ((v & 4) ? 2 : 0);
    c.note(r);
    if (v & 6) c.nontrivial();
    REQUIRE(invert(r) == want, "invert(", r, ") is ", invert(r));
}

// A region contains and is within itself; the empty and the full region relate to everything as sets do.
LAW(special, 30000, 600000, 5) {
    World w(g);
    auto a = w.region(World::SIMPLE);
    c.note(show(*a));
    bool e = isEmptyRegion(*a), ell = dynamic_cast<Ellipse const *>(a.get());
    if (!e) c.nontrivial();
    if (!ell) REQUIRE(a->relate(*a) == (e ? (CONTAINS | WITHIN | DISJOINT) : (CONTAINS | WITHIN)), "relate(self) is ", a->relate(*a));
    for (int i = 0; i < 3; ++i) {
        std::unique_ptr<Region> em, fu;
        if (i == 0) { em.reset(new Box()); fu.reset(new Box(Box::full())); }
        if (i == 1) { em.reset(new Circle()); fu.reset(new Circle(Circle::full())); }
        if (i == 2) { em.reset(new Ellipse()); fu.reset(new Ellipse(Ellipse::full())); }
        Relationship r = a->relate(*em);
        REQUIRE((r & DISJOINT).any(), "not disjoint from the empty region: ", show(*em), " gives ", r);
        bool poly = dynamic_cast<ConvexPolygon const *>(a.get());
        if (i < 2 && !(i == 0 && poly) && !ell) REQUIRE((r & CONTAINS).any(), "does not contain the empty region ", show(*em), ": ", r);
        r = a->relate(*fu);
        if (i < 2) REQUIRE((r & WITHIN).any(), "not within the full region ", show(*fu), ": ", r);
        REQUIRE(e || (r & DISJOINT).none(), "disjoint from the full region");
    }
}

// Box and Box: the relationship of two coordinate rectangles is exact.
LAW(boxes_exact, 40000, 1000000, 5) {
    World w(g);
    Box a = w.box();
    w.learn(a);
    auto bp = w.relatedTo(a, World::BOXES);
    Box b = *dynamic_cast<Box const *>(bp.get());
    c.note(show(a), " ", show(b));
    auto inside = [](NormalizedAngleInterval const & o, NormalizedAngleInterval const & i) {   // i inside o, both non-empty
        double A = o.getA().asRadians(), B = o.getB().asRadians(), x = i.getA().asRadians(), y = i.getB().asRadians();
        bool wo = A > B, wi = x > y;
        if (wo) { if (wi) return x >= A && y <= B; return y <= B || x >= A; }
        if (wi) return o.isFull();
        return x >= A && y <= B;
    };
    auto meet = [](NormalizedAngleInterval const & o, NormalizedAngleInterval const & i) {
        double A = o.getA().asRadians(), B = o.getB().asRadians(), x = i.getA().asRadians(), y = i.getB().asRadians();
        bool wo = A > B, wi = x > y;
        if (wo && wi) return true;
        if (wo) return x <= B || y >= A;
        if (wi) return A <= y || B >= x;
        return x <= B && A <= y;
    };
    bool ea = a.isEmpty(), eb = b.isEmpty(), con, wit, dis;
    if (!ea && !eb) c.nontrivial();
    double a0 = a.getLat().getA().asRadians(), a1 = a.getLat().getB().asRadians(), b0 = b.getLat().getA().asRadians(), b1 = b.getLat().getB().asRadians();
    if (ea || eb) { con = eb; wit = ea; dis = true; }
    else {
        con = a0 <= b0 && b1 <= a1 && inside(a.getLon(), b.getLon());
        wit = b0 <= a0 && a1 <= b1 && inside(b.getLon(), a.getLon());
        dis = !(a0 <= b1 && b0 <= a1 && meet(a.getLon(), b.getLon()));
    }
    Relationship want = (con ? CONTAINS : Relationship()) | (wit ? WITHIN : Relationship()) | (dis ? DISJOINT : Relationship());
    REQUIRE(a.relate(b) == want, "relate is ", a.relate(b), ", expected ", want);
    REQUIRE(a.contains(b) == con && a.isWithin(b) == wit && a.isDisjointFrom(b) == dis && a.intersects(b) == !dis, "contains, isWithin, isDisjointFrom or intersects");
}

// Box and point: a point given by its coordinates is the box of just that point.
LAW(box_point, 60000, 1000000, 10) {
    World w(g);
    Box a = w.box();
    w.learn(a);
    NormalizedAngle lon(g.chance(1, 8) ? g.pick({0.0, 2 * DPI, 6.283185307179586, 1.0}) : w.lon());
    Angle lat(g.chance(1, 8) ? g.pick({0.0, DPI / 2, -DPI / 2}) : w.lat());
    if (!a.isEmpty()) {
        if (g.chance(1, 2)) lon = g.coin() ? a.getLon().getA() : a.getLon().getB();
        if (g.chance(1, 2)) lat = g.coin() ? a.getLat().getA() : a.getLat().getB();
        if (g.chance(1, 10)) a = Box(LonLat(lon, lat));
    }
    LonLat p(lon, lat);
    Box b(p);
    c.note(show(a), " (", lon.asRadians(), ", ", lat.asRadians(), ")");
    bool in = !a.isEmpty() && a.getLat().getA() <= lat && lat <= a.getLat().getB();
    double A = a.getLon().getA().asRadians(), B = a.getLon().getB().asRadians(), l = lon.asRadians();
    in = in && (A > B ? l >= A || l <= B : l >= A && l <= B);
    bool same = a.isEmpty() || (in && A == B && a.getLat().getA() == a.getLat().getB());
    if (!a.isEmpty()) c.nontrivial();
    c.label(in, "inside"); c.label(same, "just the point");
    Relationship want = (in ? CONTAINS : DISJOINT) | (same ? WITHIN : Relationship());
    REQUIRE(a.relate(p) == want && a.relate(b) == want, "relate is ", a.relate(p), ", expected ", want);
    REQUIRE(a.contains(p) == in && a.intersects(p) == in && a.isDisjointFrom(p) == !in && a.isWithin(p) == same, "contains, intersects, isDisjointFrom or isWithin");
    REQUIRE(b.isWithin(a) == in && b.contains(a) == same, "the point's own box");
}

// Circles and polygons: the named predicates agree with the relationship.
LAW(named_predicates, 30000, 700000, 5) {
    World w(g);
    if (g.coin()) {
        Circle a = w.circle();
        w.learn(a);
        auto bp = w.relatedTo(a, World::CIRCLES);
        Circle b = *dynamic_cast<Circle const *>(bp.get());
        c.note(show(a), " ", show(b));
        if (!a.isEmpty() && !b.isEmpty()) c.nontrivial();
        Ref fa = makeRef(a), fb = makeRef(b);
        auto margin = [&](bool e1) {   // signed slack of "a contains b" or "a apart from b"
            ld d = angleBetween(fa.c, fb.c);
            return e1 ? fa.r - d - fb.r : d - fa.r - fb.r;
        };
        if (!a.isEmpty() && !b.isEmpty() && !a.isFull() && !b.isFull()) {
            if (margin(true) > 1e-6L) REQUIRE(a.contains(b) && b.isWithin(a) && (a.relate(b) & CONTAINS).any(), "containment with room to spare");
            if (margin(true) < -1e-13L && !(a == b)) REQUIRE(!a.contains(b) && !b.isWithin(a), "claimed containment");
            if (margin(false) > 1e-6L) REQUIRE(a.isDisjointFrom(b) && !a.intersects(b) && (a.relate(b) & DISJOINT).any(), "disjoint with room to spare");
            if (margin(false) < -1e-13L) REQUIRE(!a.isDisjointFrom(b) && a.intersects(b), "claimed to be disjoint");
        } else {
            REQUIRE(a.contains(b) == (b.isEmpty() || a.isFull()), "contains() of special circles");
            REQUIRE(a.isDisjointFrom(b) == (a.isEmpty() || b.isEmpty()), "isDisjointFrom() of special circles");
            REQUIRE(a.intersects(b) != a.isDisjointFrom(b), "intersects()");
        }
        UnitVector3d p = w.unit();
        Relationship r = a.relate(p);
        bool in = a.contains(p);
        REQUIRE((r & CONTAINS).any() == in && (r & DISJOINT).any() == !in, "relate(UnitVector3d)");
        REQUIRE(a.isDisjointFrom(p) == !in && a.intersects(p) == in && a.isWithin(p) == a.isEmpty(), "predicates on a vector");
    } else {
        ConvexPolygon a = w.polygon();
        w.learn(a);
        auto b = w.relatedTo(a, World::ANY);
        c.note(show(a), " ", show(*b));
        if (!isEmptyRegion(*b)) c.nontrivial();
        Relationship r = a.relate(*b);
        REQUIRE(a.contains(*b) == (r & CONTAINS).any(), "contains(Region)");
        REQUIRE(a.isDisjointFrom(*b) == (r & DISJOINT).any(), "isDisjointFrom(Region)");
        REQUIRE(a.intersects(*b) == (r & DISJOINT).none(), "intersects(Region)");
        REQUIRE(a.isWithin(*b) == (r & WITHIN).any(), "isWithin(Region)");
    }
}

// Regions nested or apart by at least 1e-6 rad are reported so, wherever the
// library does not document itself as conservative.
LAW(decisive, 60000, 1500000, 5) {
    World w(g);
    int ka = g.below(6);
    std::unique_ptr<Region> a = w.region(ka == 0 ? World::BOXES : ka < 3 ? World::CIRCLES : World::POLYS);
    Ref fa = makeRef(*a);
    if (fa.knownEmpty()) DISCARD();
    V p = g.coin() ? fa.randomPoint(g) : V(w.unit());
    double r = g.coin() ? g.logUniform(-8, 0.15) : g.uniform(0, 1.4), margin = 1e-6;
    int s = fa.side(p, r + margin);
    for (int i = 0; i < 40 && s == 0 && r > 1e-8; ++i) { r *= 0.6; s = fa.side(p, r + margin); }
    if (s == 0) DISCARD();
    UnitVector3d c0 = toUnit(p);
    std::unique_ptr<Region> b;
    int kb = g.below(4);
    double rr = r * 0.999;
    if (kb == 0) b.reset(new Circle(c0, Angle(rr)));
    else if (kb == 1) {
        std::vector<UnitVector3d> pts;
        int n = g.range(3, 6);
        for (int i = 0; i < n; ++i) pts.push_back(toUnit(toward(V(c0), w.randomDirection(), rr * std::sqrt(g.unit()))));
        try { b.reset(new ConvexPolygon(pts)); } catch (std::invalid_argument const &) { DISCARD(); }
    } else if (kb == 2) {
        LonLat q(c0);
        double f = g.unit();
        b.reset(new Box(q, Angle(rr * f), Angle(rr * (1 - f))));
    } else {
        double a2 = std::min(rr, 1.5), b2 = a2 * g.uniform(0.01, 1);
        b.reset(new Ellipse(c0, Angle(a2), Angle(b2), Angle(g.uniform(0, 3))));
    }
    bool pa = ka >= 3;
    // Polygons use a box's or an ellipse's bounds: no claim is promised.
    // A circle next to a box vertex, or to the seam of a box with all
    // longitudes (an edge like any other), may be left undecided.
    bool touchy = false;
    if (ka == 0 && (kb == 0 || kb == 3)) {
        for (ld lat : {fa.latA, fa.latB}) for (ld lon : {fa.lonA, fa.lonB}) if (angleBetween(V(c0), fromLonLat(lon, lat)) < r + margin) touchy = true;
        if (fa.fullLon) touchy = touchy || fabsl(c0.y()) < sinl(std::min<ld>(r + margin, LPI / 2));
    }
    bool decisive = !touchy && !(pa && kb == 2) && !(ka == 0 && kb == 1 && s < 0);
    c.note("a=", show(*a), " b=", show(*b), s > 0 ? " nested" : " apart");
    c.label(s > 0, "nested");
    c.label(s < 0, "apart");
    if (!decisive) { c.label("pair documented as conservative"); return; }
    c.nontrivial();
    Relationship rel = a->relate(*b), inv = b->relate(*a);
    if (s > 0) {
        REQUIRE((rel & CONTAINS).any(), "nested by 1e-6 but relate is ", rel);
        REQUIRE((inv & WITHIN).any(), "nested by 1e-6 but the inverse relate is ", inv);
    } else {
        REQUIRE((rel & DISJOINT).any(), "apart by 1e-6 but relate is ", rel);
        REQUIRE((inv & DISJOINT).any(), "apart by 1e-6 but the inverse relate is ", inv);
    }
    auto o = w.region(World::SIMPLE);
    if (s > 0) REQUIRE((UnionRegion(*a, *o).relate(*b) & CONTAINS).any() && (UnionRegion(*o, *a).relate(*b) & CONTAINS).any(), "a union with a does not contain b");
    else REQUIRE((IntersectionRegion(*a, *o).relate(*b) & DISJOINT).any() && (IntersectionRegion(*o, *a).relate(*b) & DISJOINT).any(), "an intersection with a is not disjoint from b");
}
