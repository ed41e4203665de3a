// Regions and pixelizations for the envelope and interior checks.
#ifndef VERIF_PIXREGION_H_
#define VERIF_PIXREGION_H_
#include "pix.h"

namespace geo {

// The largest radius of the simple regions that a pixel search will visit.
inline double searchRadius(Region const & r) {
    if (auto u = dynamic_cast<CompoundRegion const *>(&r)) return std::max(searchRadius(u->getOperand(0)), searchRadius(u->getOperand(1)));
    if (r.getBoundingBox().isEmpty()) return 0;
    double a = r.getBoundingCircle().getOpeningAngle().asRadians();
    return a >= 0 ? std::min(a, DPI / 2) : 0;
}

struct PixCase {
    std::unique_ptr<Region> region;
    Pix p{Pix::HTM, 0};
    std::size_t maxRanges = 0;
};

// A region and a pixelization whose level keeps the boundary of the region
// below about `budget` pixels.
inline PixCase pixCase(Gen & g, World & w, int kinds, double budget) {
    PixCase c;
    c.p.k = static_cast<Pix::Kind>(g.below(3));
    if (g.chance(1, 4)) { // built on features of a pixel
        Pix q(c.p.k, static_cast<int>(g.below(std::min(12, c.p.maxLevel()) + 1)));
        for (auto & v : q.vertices(anyIndex(g, q))) w.pool.push_back(toUnit(v));
    }
    if (g.chance(1, 4)) { // exactly or nearly a pixel
        Pix q(c.p.k, static_cast<int>(g.below(c.p.maxLevel() - 1)));
        std::vector<UnitVector3d> vs;
        for (auto & v : q.vertices(anyIndex(g, q))) vs.push_back(toUnit(v));
        for (auto & v : vs) w.pool.push_back(v);
        if ((kinds & World::POLYS) && g.coin()) {
            try { c.region.reset(new ConvexPolygon(vs)); } catch (std::invalid_argument const &) {}
        }
    }
    if (!c.region && g.chance(1, 2)) { // small
        UnitVector3d o = w.unit();
        double s = g.logUniform(-9, -0.5);
        int k = g.range(0, 3);
        if (!((kinds >> k) & 1)) k = 1;
        if (k == 0) c.region.reset(new Box(LonLat(o), Angle(s), Angle(s * g.uniform(0, 1))));
        else if (k == 1 && (kinds & World::CIRCLES)) c.region.reset(new Circle(o, Angle(s)));
        else if (k == 2) c.region.reset(new Ellipse(o, Angle(s), Angle(s * g.uniform(0.01, 1)), Angle(g.uniform(-4, 4))));
        else if (kinds & World::POLYS) {
            std::vector<UnitVector3d> pts;
            int n = g.range(3, 6);
            for (int i = 0; i < n; ++i) pts.push_back(toUnit(toward(V(o), w.randomDirection(), s)));
            try { c.region.reset(new ConvexPolygon(pts)); } catch (std::invalid_argument const &) {}
        }
        if (c.region) w.learn(*c.region);
    }
    if (!c.region) c.region = w.region(kinds, 2);
    double r = searchRadius(*c.region);
    // perimeter / pixel width <= budget
    int top = c.p.maxLevel();
    while (top > 0 && 2 * DPI * std::sin(r) * std::ldexp(1, top) > budget) --top;
    c.p.level = g.coin() ? top : static_cast<int>(g.below(top + 1));
    switch (g.below(5)) {
        case 0: case 1: c.maxRanges = 0; break;
        case 2: c.maxRanges = 1 + g.below(4); break;
        case 3: c.maxRanges = 1 + g.below(12); break;
        default: c.maxRanges = 1 + g.below(200);
    }
    return c;
}

// Is v in the region by a margin that leaves no doubt? Circles, boxes and
// ellipses decide pixel relations with wider margins than contains().
inline bool surelyIn(Region const & r, Ref const & f, UnitVector3d const & v) {
    switch (f.k) {
        case Ref::UNION: case Ref::INTER: {
            auto const & u = dynamic_cast<CompoundRegion const &>(r);
            bool a = surelyIn(u.getOperand(0), f.ops[0], v), b = surelyIn(u.getOperand(1), f.ops[1], v);
            return f.k == Ref::UNION ? a || b : a && b;
        }
        case Ref::POLY: return f.side(V(v), 2e-14L) > 0;
        default: return r.contains(v);
    }
}

// The distance from v to a convex polygon.
inline ld distanceTo(std::vector<V> const & p, V const & v) {
    bool in = true;
    ld best = LPI;
    for (std::size_t i = 0; i < p.size(); ++i) {
        V const & a = p[i], & b = p[(i + 1) % p.size()];
        V n = robustCross(a, b).unit();
        ld d = n.dot(v);
        if (d < 0) in = false;
        best = std::min(best, angleBetween(a, v));
        V q = v - n * d;
        if (q.norm() > 1e-12L && n.cross(a).dot(q) > 0 && n.cross(b).dot(q) < 0) best = std::min(best, asinl(std::min<ld>(1, fabsl(d))));
    }
    return in ? 0 : best;
}

inline std::string show(RangeSet const & s) {
    std::ostringstream os;
    os << "{";
    int n = 0;
    for (auto const & t : s) { if (++n > 6) { os << "..."; break; } os << "[" << std::get<0>(t) << "," << std::get<1>(t) << ")"; }
    os << "}";
    return os.str();
}

}  // namespace geo
#endif
