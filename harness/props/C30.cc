// C30: build options do not change results.
// BUILD-VARIANT: library LIB -DNO_SIMD -DNO_OPTIMIZED_PATHS -Dsphgeom=sphgeom_portable
// BUILD-VARIANT: entry lib_variant.cc -DNO_SIMD -DNO_OPTIMIZED_PATHS -Dsphgeom=sphgeom_portable
#include "pixregion.h"

using namespace geo;

char const * const PROPERTY_ID = "C30";
char const * const NONTRIVIAL_RULE =
    "A case is one input given to both builds of the library; non-trivial when the code it reaches differs between the builds (normalisation, encoding, pixel index, pixel and pixel search), except for empty and full regions.";

typedef std::vector<std::uint8_t> Bytes;

namespace variant {
double normalize(double * v);
Bytes recode(Bytes const & b);
bool contains(Bytes const & b, double x, double y, double z);
unsigned long relate(Bytes const & a, Bytes const & b);
Bytes box(Bytes const & b);
Bytes circle(Bytes const & b);
std::uint64_t index(int kind, int level, double x, double y, double z);
Bytes pixel(int kind, int level, std::uint64_t i);
std::string name(int kind, int level, std::uint64_t i);
std::vector<std::uint64_t> ranges(int kind, int level, Bytes const & b, std::size_t maxRanges, bool interior);
std::vector<std::uint64_t> neighborhood(int kind, std::uint64_t i);
std::vector<std::uint64_t> q3cNeighborhood(int level, std::uint64_t i);
int level(int kind, std::uint64_t i);
Bytes fromLonLat(double lon, double lat, double r);
}

static double component(Gen & g) {
    double s = g.coin() ? 1 : -1;
    switch (g.below(10)) {
        case 0: return s * 0.0;
        case 1: return s * g.logUniform(-308, 307);
        case 2: return s * g.pick({1.0, 0.5, 2.0, 5e-324, 2.2250738585072014e-308});
        case 3: return s * (1 + g.range(-3, 3) * 1.1102230246251565e-16);
        case 4: return s * g.logUniform(-20, 0);
        default: return g.uniform(-1, 1);
    }
}

LAW(normalize, 1000000, 40000000, 3) {
    double x = component(g), y = g.chance(1, 4) ? (g.coin() ? x : -x) : component(g), z = g.chance(1, 4) ? (g.coin() ? y : -x) : component(g);
    if (g.chance(1, 5)) { double s = g.logUniform(-300, 300); x *= s; y *= s; z *= s; }
    if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(z)) DISCARD("overflow");
    c.note("(", x, ", ", y, ", ", z, ")");
    c.nontrivial();
    double v[3] = {x, y, z}, m = 0;
    bool threw = false, threw2 = false;
    try { m = variant::normalize(v); } catch (std::runtime_error const &) { threw = true; }
    Vector3d w(x, y, z);
    double n = 0;
    try { n = w.normalize(); } catch (std::runtime_error const &) { threw2 = true; }
    REQUIRE(threw == threw2, "only one build rejects the vector");
    REQUIRE(threw == (x == 0 && y == 0 && z == 0), "rejected");
    if (threw) return;
    REQUIRE(std::fabs(n - m) <= 4e-16 * n || n == m, "norms ", n, " and ", m);
    double u[3] = {w.x(), w.y(), w.z()};
    for (int i = 0; i < 3; ++i) {
        REQUIRE(std::fabs(u[i] - v[i]) <= 4.5e-16 * std::fabs(u[i]) + 1e-323, "component ", i, ": ", u[i], " and ", v[i]);
        REQUIRE(std::signbit(u[i]) == std::signbit(v[i]), "signs of component ", i, ": ", u[i], " and ", v[i]);
    }
}

LAW(encoding, 150000, 4000000, 3) {
    World w(g);
    std::unique_ptr<Region> r = w.region(w.ANY, 3);
    c.note(show(*r));
    Ref f = makeRef(*r);
    if (!f.knownEmpty() && !f.full) c.nontrivial();
    Bytes b = r->encode();
    // (the longitudes of an empty box are not kept)
    REQUIRE(variant::recode(b) == Region::decode(b)->encode(), "the builds encode or decode differently");
    double lon = w.lon(), lat = w.lat(), a = w.angle();
    Bytes p = Circle(UnitVector3d(Angle(lon), Angle(lat)), Angle(a)).encode(), q = variant::fromLonLat(lon, lat, a);
    REQUIRE(p.size() == q.size() && p[0] == q[0], "circles are encoded differently");
    for (std::size_t i = 1; i < p.size(); i += 8) {
        double x, y;
        std::memcpy(&x, &p[i], 8);
        std::memcpy(&y, &q[i], 8);
        REQUIRE(std::fabs(x - y) <= 4e-16 * std::max(1.0, std::fabs(x)), "circle parameter ", (i - 1) / 8, ": ", x, " and ", y);
    }
}

static double jiggle(Gen & g, double x) { return x + g.range(-2, 2) * 1.1102230246251565e-16; }
static UnitVector3d jiggle(Gen & g, UnitVector3d const & v) { return UnitVector3d::fromNormalized(jiggle(g, v.x()), jiggle(g, v.y()), jiggle(g, v.z())); }

// Points anywhere, also on pixel edges: there, a last-bit difference in a
// build may choose the other pixel, but then a last-bit change of the point
// does so too.
LAW(index, 800000, 30000000, 3) {
    World w(g);
    Pix p(static_cast<Pix::Kind>(g.below(3)), 0);
    p.level = g.range(0, p.maxLevel());
    if (g.coin()) { Pix q(p.k, g.range(0, p.level)); for (auto & v : q.vertices(anyIndex(g, q))) w.pool.push_back(toUnit(v)); }
    UnitVector3d v = w.unit();
    c.note(p.name(), " level ", p.level, " ", show(v));
    c.nontrivial();
    auto px = p.make();
    std::uint64_t i = px->index(v), j = variant::index(p.k, p.level, v.x(), v.y(), v.z());
    if (i == j) return;
    bool edge = false;
    for (int k = 0; k < 60 && !edge; ++k) {
        UnitVector3d u = jiggle(g, v);
        edge = px->index(u) == j || variant::index(p.k, p.level, u.x(), u.y(), u.z()) == i;
    }
    REQUIRE(edge, "the index is ", i, " or ", j, ", depending on the build");
}

static void sameRegion(Bytes const & a, Bytes const & b, double tol, char const * what) {
    REQUIRE(a.size() == b.size() && a[0] == b[0], what, ": the builds give regions of different types or sizes");
    for (std::size_t i = 1; i + 8 <= a.size(); i += 8) {
        double x, y;
        std::memcpy(&x, &a[i], 8);
        std::memcpy(&y, &b[i], 8);
        REQUIRE(std::fabs(x - y) <= tol || (std::isnan(x) && std::isnan(y)), what, ": number ", (i - 1) / 8, " is ", x, " or ", y);
    }
}

LAW(pixel, 300000, 10000000, 3) {
    Pix p(static_cast<Pix::Kind>(g.below(3)), 0);
    p.level = g.range(0, p.maxLevel());
    std::uint64_t i = anyIndex(g, p);
    c.note(p.name(), " level ", p.level, " pixel ", i);
    c.nontrivial();
    auto px = p.make();
    sameRegion(px->pixel(i)->encode(), variant::pixel(p.k, p.level, i), 1e-15, "pixel");
    REQUIRE(px->toString(i) == variant::name(p.k, p.level, i), "the name is ", px->toString(i), " or ", variant::name(p.k, p.level, i));
    if (p.k == Pix::Q3C) {
        std::vector<std::uint64_t> a = Q3cPixelization(p.level).neighborhood(i), b = variant::q3cNeighborhood(p.level, i);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        REQUIRE(a == b, "the builds disagree on the neighbourhood");
    } else if (p.k == Pix::MQ3C) {
        std::vector<std::uint64_t> a = Mq3cPixelization::neighborhood(i), b = variant::neighborhood(2, i);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        REQUIRE(a == b, "the builds disagree on the neighbourhood");
    }
    if (p.k != Pix::Q3C) {
        std::uint64_t x = g.coin() ? i : g.u64() >> g.below(64);
        int l = p.k == Pix::HTM ? HtmPixelization::level(x) : Mq3cPixelization::level(x);
        REQUIRE(l == variant::level(p.k, x), "the level of ", x, " is ", l, " or ", variant::level(p.k, x));
    }
}

// Regions in general position, where rounding decides nothing.
static UnitVector3d anywhere(Gen & g) { ld z = g.uniform(-1, 1), t = g.uniform(0, 6.283185307), s = sqrtl(1 - z * z); return toUnit(V(s * cosl(t), s * sinl(t), z)); }
static std::unique_ptr<Region> general(Gen & g, double lo, double hi, int depth) {
    UnitVector3d v = anywhere(g);
    double r = std::pow(10.0, g.uniform(lo, hi));
    switch (g.below(depth > 0 ? 5 : 4)) {
        case 0: return std::unique_ptr<Region>(new Circle(v, Angle(r)));
        case 1: return std::unique_ptr<Region>(new Box(LonLat(v), Angle(r), Angle(r * g.uniform(0.3, 0.9))));
        case 2: return std::unique_ptr<Region>(new Ellipse(v, Angle(r), Angle(r * g.uniform(0.3, 0.9)), Angle(g.uniform(0, 3))));
        case 3: {
            std::vector<UnitVector3d> pts;
            V o = orthogonal(V(v)), q = V(v).cross(o).unit();
            int n = g.range(3, 6);
            double t0 = g.uniform(0, 6);
            for (int i = 0; i < n; ++i) { double t = t0 + 6.283185307179586 * (i + g.uniform(0.05, 0.4)) / n; pts.push_back(toUnit(V(v) * cosl(r) + (o * cosl(t) + q * sinl(t)) * sinl(r))); }
            return std::unique_ptr<Region>(new ConvexPolygon(pts));
        }
        default: {
            auto a = general(g, lo, hi, depth - 1), b = general(g, lo, hi, depth - 1);
            if (g.coin()) return std::unique_ptr<Region>(new UnionRegion(*a, *b));
            return std::unique_ptr<Region>(new IntersectionRegion(*a, *b));
        }
    }
}

LAW(answers, 150000, 5000000, 3) {
    std::unique_ptr<Region> a = general(g, -4, 0.1, 2), b = general(g, -4, 0.1, 2);
    c.note(show(*a), " and ", show(*b));
    c.nontrivial();
    Bytes x = a->encode(), y = b->encode();
    REQUIRE(a->relate(*b).to_ulong() == variant::relate(x, y), "the builds relate the regions as ", a->relate(*b), " and ", Relationship(variant::relate(x, y)));
    World w(g);
    w.learn(*a);
    for (int k = 0; k < 6; ++k) {
        UnitVector3d v = w.unit();
        if (a->contains(v) != variant::contains(x, v.x(), v.y(), v.z())) {
            bool edge = false, in = a->contains(v);
            for (int t = 0; t < 60 && !edge; ++t) { UnitVector3d u = jiggle(g, v); edge = a->contains(u) != in || variant::contains(x, u.x(), u.y(), u.z()) == in; }
            REQUIRE(edge, "the builds disagree on whether ", show(v), " is contained");
        }
    }
    if (!dynamic_cast<CompoundRegion const *>(a.get())) {
        sameRegion(a->getBoundingBox().encode(), variant::box(x), 1e-14, "bounding box");
        sameRegion(a->getBoundingCircle().encode(), variant::circle(x), 1e-14, "bounding circle");
    }
}

LAW(search, 25000, 800000, 3) {
    Pix p(static_cast<Pix::Kind>(g.below(3)), 0);
    double size = g.uniform(-6, 0);
    std::unique_ptr<Region> r = general(g, size - 0.3, size, 1);
    p.level = std::min(p.maxLevel(), std::max(0, static_cast<int>(-size * 3.32) + g.range(-2, 4)));
    std::size_t m = g.coin() ? 0 : g.below(20);
    bool interior = g.coin();
    c.note(p.name(), " level ", p.level, interior ? " interior" : " envelope", " with ", m, " ranges of ", show(*r));
    c.nontrivial();
    RangeSet s = interior ? p.make()->interior(*r, m) : p.make()->envelope(*r, m);
    std::vector<std::uint64_t> o;
    for (auto t : s) { o.push_back(std::get<0>(t)); o.push_back(std::get<1>(t)); }
    REQUIRE(o == variant::ranges(p.k, p.level, r->encode(), m, interior), "the builds find different pixels");
}
