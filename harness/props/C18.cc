// C18: serialised regions decode to identical regions.
// BUILD-VARIANT: portable codec_variant.cc -DNO_OPTIMIZED_PATHS -Dsphgeom=sphgeom_portable
#include "geo.h"
#include <typeinfo>
#include "lsst/sphgeom/codec.h"

using namespace geo;

char const * const PROPERTY_ID = "C18";
char const * const NONTRIVIAL_RULE =
    "A case is one region (or one 64-bit word for the primitive codecs), encoded, parsed byte by byte and decoded; non-trivial when the region is neither empty nor full, or for words, always.";

extern "C" {
void v_encodeDouble(double d, unsigned char * o);
void v_encodeU64(std::uint64_t u, unsigned char * o);
double v_decodeDouble(unsigned char const * b);
std::uint64_t v_decodeU64(unsigned char const * b);
}

typedef std::vector<std::uint8_t> Bytes;

static void putU64(Bytes & b, std::uint64_t u) { for (int i = 0; i < 8; ++i) { b.push_back(static_cast<std::uint8_t>(u & 0xff)); u >>= 8; } }
static void put(Bytes & b, double d) { std::uint64_t u; std::memcpy(&u, &d, 8); putU64(b, u); }
static void put(Bytes & b, UnitVector3d const & v) { put(b, v.x()); put(b, v.y()); put(b, v.z()); }
static double get(Bytes const & b, std::size_t at) { std::uint64_t u = 0; for (int i = 7; i >= 0; --i) u = (u << 8) | b[at + static_cast<std::size_t>(i)]; double d; std::memcpy(&d, &u, 8); return d; }

// The documented layout, written independently. The longitudes of an empty box
// are not kept: `decoded` asks for what they become.
static Bytes layout(Region const & r, bool decoded = false) {
    Bytes b;
    if (auto c = dynamic_cast<Circle const *>(&r)) { b.push_back('c'); put(b, c->getCenter()); put(b, c->getSquaredChordLength()); put(b, c->getOpeningAngle().asRadians()); }
    else if (auto x = dynamic_cast<Box const *>(&r)) {
        b.push_back('b');
        NormalizedAngleInterval lon = decoded && x->isEmpty() ? NormalizedAngleInterval::empty() : x->getLon();
        put(b, lon.getA().asRadians()); put(b, lon.getB().asRadians());
        put(b, x->getLat().getA().asRadians()); put(b, x->getLat().getB().asRadians());
    }
    else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) { b.push_back('p'); for (auto & v : p->getVertices()) put(b, v); }
    else if (auto u = dynamic_cast<CompoundRegion const *>(&r)) {
        b.push_back(dynamic_cast<UnionRegion const *>(&r) ? 'u' : 'i');
        for (int i = 0; i < 2; ++i) { Bytes o = layout(u->getOperand(i), decoded); putU64(b, o.size()); b.insert(b.end(), o.begin(), o.end()); }
    } else if (auto e = dynamic_cast<Ellipse const *>(&r)) {
        // half of the state of an ellipse has no exact accessor
        b = e->encode();
        REQUIRE(b.size() == 113 && b[0] == 'e', "an ellipse takes ", b.size(), " bytes");
        Matrix3d const & S = e->getTransformMatrix();
        for (int i = 0; i < 9; ++i) { double s = S(i / 3, i % 3); Bytes t; put(t, s); REQUIRE(std::equal(t.begin(), t.end(), b.begin() + 1 + 8 * i), "matrix element ", i, " is not at its place"); }
        double a = get(b, 73), bb = get(b, 81), gm = get(b, 89), ta = get(b, 97), tb = get(b, 105);
        REQUIRE(DPI / 2 + a == e->getAlpha().asRadians() && DPI / 2 + bb == e->getBeta().asRadians() && gm == e->getGamma().asRadians(), "angles are not in their places");
        REQUIRE((std::fabs(a) > 1.6 || std::fabs(ta - std::fabs(std::tan(a))) <= 1e-14 * ta) && (std::fabs(bb) > 1.6 || std::fabs(tb - std::fabs(std::tan(bb))) <= 1e-14 * tb), "tangents are not in their places");
    }
    return b;
}

static std::unique_ptr<Region> own(Region const & r, Bytes const & b, bool vec) {
    std::unique_ptr<Region> o;
    #define OWN(T) if (typeid(r) == typeid(T)) { if (vec) o = T::decode(b); else o = T::decode(b.data(), b.size()); }
    OWN(Box) OWN(Circle) OWN(Ellipse) OWN(ConvexPolygon) OWN(UnionRegion) OWN(IntersectionRegion)
    #undef OWN
    return o;
}

static bool equal(Region const & a, Region const & b) {
    if (typeid(a) != typeid(b)) return false;
    if (auto x = dynamic_cast<Box const *>(&a)) return *x == dynamic_cast<Box const &>(b);
    if (auto x = dynamic_cast<Circle const *>(&a)) return *x == dynamic_cast<Circle const &>(b);
    if (auto x = dynamic_cast<Ellipse const *>(&a)) return *x == dynamic_cast<Ellipse const &>(b);
    if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) return *x == dynamic_cast<ConvexPolygon const &>(b);
    auto & x = dynamic_cast<CompoundRegion const &>(a), & y = dynamic_cast<CompoundRegion const &>(b);
    return equal(x.getOperand(0), y.getOperand(0)) && equal(x.getOperand(1), y.getOperand(1));
}
static bool hasNan(Bytes const & b) { for (std::size_t i = 1; i + 8 <= b.size(); i += 8) if (std::isnan(get(b, i))) return true; return false; }

static void roundTrip(Gen & g, World & w, Region const & r) {
    Bytes b = r.encode();
    REQUIRE(b == r.encode(), "encoding twice gives different bytes");
    Bytes want = layout(r), settled = layout(r, true);
    REQUIRE(b == want, "the bytes are not of the documented layout (", b.size(), " for ", want.size(), " bytes)");
    std::vector<UnitVector3d> pts;
    try { Ref f = makeRef(r); pts = witnesses(g, f, f, 3); } catch (pbt::Failure const &) {}
    pts.push_back(w.unit());
    Circle probe = w.circle();
    for (int k = 0; k < 4; ++k) {
        std::unique_ptr<Region> d = k == 0 ? Region::decode(b) : k == 1 ? Region::decode(b.data(), b.size()) : own(r, b, k == 2);
        if (auto cr = dynamic_cast<CompoundRegion const *>(&r)) if (g.chance(1, 3)) { (void)cr; d = CompoundRegion::decode(b); }
        REQUIRE(d != nullptr, "decoded to nothing");
        REQUIRE(typeid(*d) == typeid(r), "decoded to another type");
        REQUIRE(d->encode() == settled, "decoded to ", show(*d), ", which encodes differently");
        if (!hasNan(b) || dynamic_cast<CompoundRegion const *>(&r) == nullptr) { if (!hasNan(b)) REQUIRE(equal(r, *d) && equal(*d, r), "decoded to the unequal ", show(*d)); }
        if (settled == b) REQUIRE(show(*d) == show(r), "decoded to ", show(*d));
        if (k == 0) {
            for (auto & p : pts) REQUIRE(d->contains(p) == r.contains(p), "contains(", show(p), ") changed for ", show(*d));
            REQUIRE(d->relate(probe) == r.relate(probe) && probe.relate(*d) == probe.relate(r), "the relation to ", show(probe), " changed");
        }
    }
}

LAW(round_trip, 50000, 2000000, 8) {
    World w(g);
    std::unique_ptr<Region> r = w.region(w.SIMPLE | w.COMPOUND, g.range(1, 4));
    c.note(show(*r));
    Ref f = makeRef(*r);
    if (!f.knownEmpty() && !f.full) c.nontrivial();
    roundTrip(g, w, *r);
}

// Encodings with no bound on their size: polygons with many vertices, and
// compounds of them, several levels deep.
static std::unique_ptr<Region> manyVertices(Gen & g, World & w, int depth) {
    if (depth > 0 && g.chance(2, 3)) {
        std::unique_ptr<Region> a = manyVertices(g, w, depth - 1), b = manyVertices(g, w, depth - 1);
        if (g.coin()) return std::unique_ptr<Region>(new UnionRegion(*a, *b));
        return std::unique_ptr<Region>(new IntersectionRegion(*a, *b));
    }
    if (g.chance(1, 4)) return w.region(w.SIMPLE);
    // Vertices in order on a circle; only the hull constructor would move them.
    long n = static_cast<long>(g.chance(1, 3) ? g.pick({127, 128, 255, 256, 257, 1000, 1024, 2730, 2731, 2732}) : static_cast<int>(g.logUniform(1, 3.6)));
    if (n < 3) n = 3;
    double t0 = g.uniform(0, 6), z = g.uniform(0.1, 0.9), s = std::sqrt(1 - z * z);
    int k = static_cast<int>(g.below(3));
    Bytes b(1, 'p');
    for (long i = 0; i < n; ++i) {
        double t = t0 + 2 * DPI * static_cast<double>(i) / static_cast<double>(n), e[3] = {s * std::cos(t), s * std::sin(t), z};
        put(b, UnitVector3d(e[k], e[(k + 1) % 3], e[(k + 2) % 3]));
    }
    if (n > 2000 || g.coin()) return Region::decode(b);
    std::vector<UnitVector3d> v;
    for (std::size_t i = 1; i < b.size(); i += 24) v.push_back(UnitVector3d::fromNormalized(get(b, i), get(b, i + 8), get(b, i + 16)));
    if (n > 300) return Region::decode(b);
    return std::unique_ptr<Region>(new ConvexPolygon(v));
}

static std::size_t vertexCount(Region const & r) {
    if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) return p->getVertices().size();
    if (auto u = dynamic_cast<CompoundRegion const *>(&r)) return vertexCount(u->getOperand(0)) + vertexCount(u->getOperand(1));
    return 0;
}

LAW(many_vertices, 2000, 60000, 8) {
    World w(g);
    std::unique_ptr<Region> r = manyVertices(g, w, static_cast<int>(g.below(4)));
    std::size_t n = vertexCount(*r);
    c.note("a ", typeid(*r).name(), " with ", n, " vertices");
    if (n > 70) c.nontrivial();
    Bytes b = r->encode(), want = layout(*r), settled = layout(*r, true);
    REQUIRE(b == want, "the bytes are not of the documented layout (", b.size(), " for ", want.size(), " bytes)");
    for (int k = 0; k < 3; ++k) {
        std::unique_ptr<Region> d = k == 0 ? Region::decode(b.data(), b.size()) : own(*r, b, k == 1);
        REQUIRE(d != nullptr && typeid(*d) == typeid(*r), "decoded to another type");
        REQUIRE(vertexCount(*d) == n, "decoded to ", vertexCount(*d), " vertices");
        REQUIRE(d->encode() == settled, "the decoded region encodes differently");
        if (!hasNan(b)) REQUIRE(equal(*r, *d), "decoded to an unequal region");
    }
    std::unique_ptr<Region> cl = r->clone();
    REQUIRE(cl->encode() == b, "a clone encodes differently");
}

// Any double a region can be made of.
static double odd(Gen & g) {
    switch (g.below(8)) {
        case 0: return g.pick({0.0, -0.0, DPI, 2 * DPI, -DPI / 2, DPI / 2, 4.0, 5e-324, 1e-310});
        case 1: return std::nan("");
        case 2: return g.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 1e308, -1e308});
        case 3: return g.logUniform(-320, 0);
        default: return g.uniform(-7, 7);
    }
}

LAW(odd_parameters, 30000, 1000000, 8) {
    World w(g);
    std::unique_ptr<Region> r;
    try {
        switch (g.below(5)) {
            case 0: r.reset(new Circle(w.unit(), Angle(odd(g)))); break;
            case 1: r.reset(new Circle(w.unit(), odd(g))); break;
            case 2: r.reset(new Box(NormalizedAngleInterval(NormalizedAngle(g.uniform(0, 6.3)), NormalizedAngle(odd(g))), AngleInterval(Angle(odd(g)), Angle(odd(g))))); break;
            case 3: r.reset(new Ellipse(w.unit(), w.unit(), Angle(odd(g)))); break;
            default: r.reset(new Box(LonLat::fromRadians(odd(g), g.uniform(-1.5, 1.5)), Angle(odd(g)), Angle(odd(g))));
        }
    } catch (std::invalid_argument const &) { c.label("parameters rejected"); return; }
    c.nontrivial();
    c.note(show(*r));
    // An empty longitude interval has at least one NaN bound; a decoded one is
    // canonical, so its other bound, and the bits of its NaNs, may differ.
    if (auto b = dynamic_cast<Box const *>(r.get())) if (b->getLon().isEmpty()) {
        Bytes e = b->encode();
        REQUIRE(e == layout(*b), "the bytes are not of the documented layout");
        std::unique_ptr<Region> d = Region::decode(e);
        auto x = dynamic_cast<Box const *>(d.get());
        REQUIRE(x && *x == *b && x->isEmpty() && b->isEmpty() && x->getLat() == b->getLat(), "decoded to ", show(*d));
        Bytes e2 = d->encode();
        REQUIRE(Region::decode(e2)->encode() == e2 && e2.size() == e.size(), "re-encoding is not stable for ", show(*d));
        return;
    }
    if (g.chance(1, 4)) { UnionRegion u(*r, *w.region(w.SIMPLE)); roundTrip(g, w, u); return; }
    roundTrip(g, w, *r);
}

LAW(codec, 100000, 5000000, 8) {
    std::uint64_t u = g.chance(1, 3) ? g.u64() : g.chance(1, 2) ? (std::uint64_t(1) << g.below(64)) - g.below(2) : static_cast<std::uint64_t>(g.logUniform(0, 19));
    double d;
    std::memcpy(&d, &u, 8);
    if (g.coin()) { d = odd(g); std::memcpy(&u, &d, 8); }
    c.note("word ", u);
    c.nontrivial();
    Bytes want, a, b;
    putU64(want, u);
    a.assign(g.below(4), 9);
    std::size_t n = a.size();
    encodeU64(u, a);
    REQUIRE(Bytes(a.begin() + static_cast<long>(n), a.end()) == want, "encodeU64 is not little-endian");
    REQUIRE(decodeU64(a.data() + n) == u, "decodeU64 does not invert encodeU64");
    encodeDouble(d, b);
    REQUIRE(b == want, "encodeDouble is not little-endian IEEE");
    double e = decodeDouble(b.data());
    REQUIRE(std::memcmp(&e, &d, 8) == 0, "decodeDouble does not invert encodeDouble");
    unsigned char x[16];
    v_encodeU64(u, x);
    REQUIRE(Bytes(x, x + 8) == want, "the portable encodeU64 is not little-endian");
    REQUIRE(v_decodeU64(want.data()) == u, "the portable decodeU64 differs");
    v_encodeDouble(d, x);
    REQUIRE(Bytes(x, x + 8) == want, "the portable encodeDouble is not little-endian IEEE");
    e = v_decodeDouble(want.data());
    REQUIRE(std::memcmp(&e, &d, 8) == 0, "the portable decodeDouble differs");
}
