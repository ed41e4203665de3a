// C17: convex hulls are valid, minimal and order independent.
#include "geo.h"
#include "exact.h"
#include "lsst/sphgeom/orientation.h"

using namespace geo;

char const * const PROPERTY_ID = "C17";
char const * const NONTRIVIAL_RULE =
    "A case is one list of points, hulled in up to three orders; non-trivial when it has at least four distinct points and a proper hull.";

typedef std::vector<UnitVector3d> Points;

static std::string show(Points const & p) { std::string s; for (auto & v : p) s += geo::show(v) + " "; return s; }
// Unit vectors have unit norm to rounding only. Distinct ones that differ in
// nothing but their norm (or the opposite of each other) are not points that
// the library promises to tell apart (see the TODO in ConvexPolygon.cc).
static bool sameDirection(UnitVector3d const & a, UnitVector3d const & b) {
    return fabsl(V(a).dot(V(b))) > 0.9L && robustCross(V(a), V(b)).norm() < 1e-24L;
}
static Points distinct(Points const & in) {
    Points d;
    for (auto & p : in) if (std::find(d.begin(), d.end(), p) == d.end()) d.push_back(p);
    return d;
}

// The vertices of the hull in counter-clockwise order, or nothing if there is none.
static Points reference(Points const & P) {
    std::size_t n = P.size();
    std::vector<int> next(n, -1);
    int edges = 0;
    for (std::size_t a = 0; a < n; ++a)
        for (std::size_t b = 0; b < n; ++b) {
            if (a == b || P[a] == -P[b]) continue;
            bool edge = true, positive = false;
            Vector3d m = P[a].robustCross(P[b]);
            for (std::size_t k = 0; k < n && edge; ++k) {
                if (k == a || k == b) continue;
                int o = exact::det(P[a], P[b], P[k]);
                if (o < 0) edge = false;
                else if (o > 0) positive = true;
                else edge = exact::det(m, P[a], P[k]) > 0 && exact::det(m, P[k], P[b]) > 0;   // on the great circle: it must be between them
            }
            if (edge && positive) {
                REQUIRE(next[a] < 0, "reference: two edges leave a point");
                next[a] = static_cast<int>(b);
                ++edges;
            }
        }
    Points out;
    if (edges == 0) return out;
    std::size_t start = 0;
    while (next[start] < 0) ++start;
    std::size_t i = start;
    do { out.push_back(P[i]); REQUIRE(next[i] >= 0, "reference: the hull is not closed"); i = static_cast<std::size_t>(next[i]); } while (i != start);
    REQUIRE(static_cast<int>(out.size()) == edges, "reference: more than one cycle");
    return out;
}

static Points cloud(Gen & g, World & w, int n) {
    Points pts;
    int kind = g.below(9);
    UnitVector3d ctr = w.unit();
    double r = g.chance(1, 3) ? DPI / 2 * (1 - g.logUniform(-12, 0)) : g.logUniform(-14, 0.19);
    for (int i = 0; i < n; ++i) {
        if (i && g.chance(1, 8)) { pts.push_back(g.pick(pts)); continue; }
        if (i > 1 && g.chance(1, 8)) { V s = V(g.pick(pts)) * g.uniform(0, 1) + V(g.pick(pts)) * g.uniform(0, 1); if (s.norm() > 1e-6L) { pts.push_back(toUnit(s)); continue; } }
        switch (kind) {
            case 0: pts.push_back(w.unit()); break;
            case 1: pts.push_back(toUnit(w.randomDirection())); break;
            case 2: pts.push_back(toUnit(toward(V(ctr), w.randomDirection(), r))); break;
            case 3: { int d = g.range(1, 3); pts.emplace_back(static_cast<double>(g.range(-d, d)), static_cast<double>(g.range(-d, d)), static_cast<double>(d)); break; }   // a lattice: many coplanar
            case 4: { double z = g.chance(1, 5) ? g.uniform(0, 1) : 0; pts.push_back(UnitVector3d(LonLat::fromDegrees(g.range(0, 12) * 15, z * 90))); break; }   // on the equator and above
            case 5: pts.push_back(g.chance(1, 4) ? toUnit(w.randomDirection()) : toUnit(toward(V(ctr), w.randomDirection(), g.logUniform(-16, -1)))); break;
            case 6: { int k = g.below(3); double q[3] = {g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1)}; if (g.chance(3, 4)) q[k] = 0; q[(k + 1) % 3] = std::fabs(q[(k + 1) % 3]) + 0.01; pts.emplace_back(q[0], q[1], q[2]); break; }
            default: pts.push_back(toUnit(toward(V(ctr), w.randomDirection(), r * std::sqrt(g.unit()))));
        }
    }
    return pts;
}

static void shuffle(Gen & g, Points & p) { for (std::size_t i = p.size(); i > 1; --i) std::swap(p[i - 1], p[g.below(i)]); }

static bool make(Points const & p, Points & out, std::string & why) {
    try { out = ConvexPolygon::convexHull(p).getVertices(); return true; }
    catch (std::invalid_argument const & e) { why = e.what(); return false; }
}
static bool sameCycle(Points const & a, Points const & b) {
    if (a.size() != b.size()) return false;
    auto f = std::find(b.begin(), b.end(), a[0]);
    if (f == b.end()) return false;
    std::size_t o = static_cast<std::size_t>(f - b.begin());
    for (std::size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[(i + o) % b.size()])) return false;
    return true;
}

LAW(small, 40000, 2000000, 8) {
    World w(g);
    Points pts = cloud(g, w, g.range(0, 9));
    Points d = distinct(pts);
    for (std::size_t i = 0; i < d.size(); ++i)
        for (std::size_t j = 0; j < i; ++j)
            if (!(d[i] == -d[j]) && sameDirection(d[i], d[j])) DISCARD("points that differ in length only");
    c.note(show(pts));
    Points want = reference(d);
    if (d.size() >= 4 && !want.empty()) c.nontrivial();
    c.label(want.empty(), "no proper hull");
    Points got;
    std::string why;
    for (int round = 0; round < 3; ++round) {
        if (round) shuffle(g, pts);
        bool ok = make(pts, got, why);
        REQUIRE(ok == !want.empty(), want.empty() ? "there is no hull, but got " + show(got) : "the hull exists, but: " + why, " for ", show(pts));
        if (!ok) continue;
        REQUIRE(sameCycle(want, got), "the hull of ", show(pts), " is ", show(got), ", not ", show(want));
        ConvexPolygon poly(pts);
        for (auto & p : pts) REQUIRE(poly.contains(p), "the hull lacks ", geo::show(p));
        // the hull of the hull is the hull, from any starting vertex
        std::rotate(got.begin(), got.begin() + static_cast<long>(g.below(got.size())), got.end());
        REQUIRE(ConvexPolygon(got) == poly && poly == ConvexPolygon(got), "the hull of the hull's vertices differs");
    }
}

LAW(large, 2500, 120000, 8) {
    World w(g);
    int n = g.range(10, g.chance(1, 10) ? 200 : 40);
    Points pts = cloud(g, w, n);
    Points d = distinct(pts);
    c.note(n, " points ", show(pts));
    for (std::size_t i = 0; i < d.size(); ++i)
        for (std::size_t j = 0; j < i; ++j)
            if (!(d[i] == -d[j]) && sameDirection(d[i], d[j])) DISCARD("points that differ in length only");
    Points got, again;
    std::string why;
    bool ok = make(pts, got, why);
    c.label(!ok, "no proper hull");
    shuffle(g, pts);
    bool ok2 = make(pts, again, why);
    REQUIRE(ok == ok2, "shuffling changes whether there is a hull: ", why);
    if (!ok) return;
    c.nontrivial();
    REQUIRE(sameCycle(got, again), "shuffled, the hull is ", show(again), ", not ", show(got));
    std::size_t m = got.size();
    REQUIRE(m >= 3, "fewer than three vertices");
    for (std::size_t i = 0; i < m; ++i) {
        REQUIRE(std::find(d.begin(), d.end(), got[i]) != d.end(), "vertex ", geo::show(got[i]), " is not one of the points");
        for (auto & p : d) REQUIRE(exact::det(got[i], got[(i + 1) % m], p) >= 0, geo::show(p), " is outside an edge");
        REQUIRE(exact::det(got[i], got[(i + 1) % m], got[(i + 2) % m]) > 0, "not strictly convex at ", geo::show(got[(i + 1) % m]));
    }
}
