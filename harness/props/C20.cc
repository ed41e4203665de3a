// C20: copies and clones are equal, independent, and equality is an equivalence.
#include "geo.h"
#include <typeinfo>

using namespace geo;

char const * const PROPERTY_ID = "C20";
char const * const NONTRIVIAL_RULE =
    "A case is a history of copies, clones, operand reads, assignments, mutations and destructions of regions, or a group of regions compared with each other; non-trivial when the history includes a destruction or mutation of a copied-from region, or the group has both equal and unequal members.";

typedef std::vector<std::uint8_t> Bytes;
typedef std::unique_ptr<Region> Ptr;

static bool eq(Region const & a, Region const & b) {
    if (typeid(a) != typeid(b)) return false;
    #define EQ(T) if (typeid(a) == typeid(T)) { auto & x = static_cast<T const &>(a); auto & y = static_cast<T const &>(b); bool r = x == y; REQUIRE((x != y) == !r, "== and != agree on ", show(a), " and ", show(b)); return r; }
    EQ(Box) EQ(Circle) EQ(Ellipse) EQ(ConvexPolygon)
    #undef EQ
    auto & x = dynamic_cast<CompoundRegion const &>(a), & y = dynamic_cast<CompoundRegion const &>(b);
    return eq(x.getOperand(0), y.getOperand(0)) && eq(x.getOperand(1), y.getOperand(1));
}

// What a region is and answers.
struct Snapshot {
    Bytes bytes;
    std::string answers;
};
static std::string code(Relationship r) { return r.to_string(); }

static Snapshot snapshot(Region const & r, std::vector<UnitVector3d> const & pts, Region const & probe) {
    Snapshot s;
    s.bytes = r.encode();
    for (auto & p : pts) s.answers += r.contains(p) ? '1' : '0';
    s.answers += code(r.relate(probe)) + code(probe.relate(r));
    for (Bytes const & b : {r.getBoundingBox().encode(), r.getBoundingCircle().encode()}) s.answers.append(b.begin(), b.end());
    return s;
}

static Ptr dynamicCopy(Region const & r, int how) {
    #define CP(T) if (typeid(r) == typeid(T)) { \
        auto & x = static_cast<T const &>(r); \
        if (how == 0) return Ptr(new T(x)); \
        T t(x); return Ptr(new T(std::move(t))); }
    CP(Box) CP(Circle) CP(Ellipse) CP(ConvexPolygon) CP(UnionRegion) CP(IntersectionRegion)
    #undef CP
    FAILWITH("unknown type");
}
// Assigns b to a when both are of the same, assignable type.
static bool assign(Region & a, Region const & b, bool move) {
    if (typeid(a) != typeid(b)) return false;
    #define AS(T) if (typeid(a) == typeid(T)) { T & x = static_cast<T &>(a); T const & y = static_cast<T const &>(b); if (move) { T t(y); x = std::move(t); } else x = y; return true; }
    AS(Box) AS(Circle) AS(Ellipse) AS(ConvexPolygon)
    #undef AS
    return false;
}

struct Mutation { int k; double d; UnitVector3d v; Circle c; Box b; };
static bool mutate(Region & r, Mutation const & m) {
    if (auto c = dynamic_cast<Circle *>(&r)) {
        switch (m.k % 6) { case 0: c->expandTo(m.v); break; case 1: c->dilateBy(Angle(m.d)); break; case 2: c->clipTo(m.c); break; case 3: c->expandTo(m.c); break; case 4: c->complement(); break; default: c->erodeBy(Angle(m.d)); }
        return true;
    }
    if (auto b = dynamic_cast<Box *>(&r)) {
        switch (m.k % 6) { case 0: b->expandTo(LonLat(m.v)); break; case 1: b->dilateBy(Angle(m.d)); break; case 2: b->clipTo(m.b); break; case 3: b->expandTo(m.b); break; case 4: b->clipTo(LonLat(m.v)); break; default: b->erodeBy(Angle(m.d), Angle(m.d)); }
        return true;
    }
    if (auto e = dynamic_cast<Ellipse *>(&r)) { e->complement(); return true; }
    return false;
}

LAW(history, 60000, 1500000, 6) {
    World w(g);
    Ptr probe = w.region(w.SIMPLE, 1);
    std::vector<UnitVector3d> pts;
    for (int i = 0; i < 5; ++i) pts.push_back(w.unit());
    std::vector<std::pair<Ptr, Snapshot>> live;
    auto add = [&](Ptr r) { Snapshot s = snapshot(*r, pts, *probe); live.emplace_back(std::move(r), s); };
    add(w.region(w.ANY, 3));
    c.note("start ", show(*live[0].first));
    bool copied = false, touched = false;
    int n = g.range(2, 14);
    for (int step = 0; step < n; ++step) {
        int op = g.range(0, 10);
        std::size_t i = g.below(live.size());
        Region & r = *live[i].first;
        Snapshot const s = live[i].second;
        auto copy = [&](Ptr q, char const * how) {
            REQUIRE(q != nullptr, how, " gave nothing");
            REQUIRE(typeid(*q) == typeid(r), how, " changed the type");
            REQUIRE(q.get() != &r, how, " gave the same object");
            Snapshot t = snapshot(*q, pts, *probe);
            REQUIRE(t.bytes == s.bytes, how, " of ", show(r), " gave ", show(*q));
            REQUIRE(t.answers == s.answers, how, " of ", show(r), " answers differently");
            REQUIRE(eq(*q, r) && eq(r, *q), how, " of ", show(r), " is not equal to it");
            live.emplace_back(std::move(q), s);
            copied = true;
        };
        switch (op) {
            case 0: c.note("clone ", i); copy(r.clone(), "clone()"); break;
            case 1: c.note("copy ", i); copy(dynamicCopy(r, 0), "copying"); break;
            case 2: c.note("move ", i); copy(dynamicCopy(r, 1), "copying and moving"); break;
            case 3: { // operands
                std::vector<Ptr> got = Region::getRegions(r);
                c.note("getRegions of ", i);
                if (auto u = dynamic_cast<CompoundRegion *>(&r)) {
                    REQUIRE(got.size() == 2, "getRegions() gave ", got.size(), " operands");
                    for (std::size_t k = 0; k < 2; ++k) {
                        REQUIRE(got[k].get() != &u->getOperand(k), "getRegions() exposes an operand");
                        REQUIRE(got[k]->encode() == u->getOperand(k).encode() && eq(*got[k], u->getOperand(k)), "operand ", k, " came back as ", show(*got[k]));
                        add(std::move(got[k]));
                    }
                } else {
                    REQUIRE(got.size() == 1, "getRegions() of a simple region gave ", got.size());
                    copy(std::move(got[0]), "getRegions()");
                }
                copied = true;
                break;
            }
            case 4: { // compose by copying
                std::size_t j = g.below(live.size());
                if (s.bytes.size() + live[j].second.bytes.size() > 4000) break;
                c.note("compose ", i, " and ", j);
                Region & q = *live[j].first;
                Ptr u;
                bool un = g.coin();
                if (g.coin()) { if (un) u.reset(new UnionRegion(r, q)); else u.reset(new IntersectionRegion(r, q)); }
                else { std::array<Ptr, 2> o{{r.clone(), q.clone()}}; Region * p0 = o[0].get();
                       if (un) u.reset(new UnionRegion(std::move(o))); else u.reset(new IntersectionRegion(std::move(o)));
                       REQUIRE(&dynamic_cast<CompoundRegion &>(*u).getOperand(0) == p0, "a compound given its operands copied them"); }
                auto & cu = dynamic_cast<CompoundRegion &>(*u);
                REQUIRE(cu.getOperand(0).encode() == s.bytes && cu.getOperand(1).encode() == live[j].second.bytes, "operands are not as given, or out of order");
                REQUIRE(&cu.getOperand(0) != &r && &cu.getOperand(1) != &q, "a compound refers to its arguments");
                add(std::move(u));
                copied = true;
                break;
            }
            case 5: { // assignment
                std::size_t j = g.below(live.size());
                bool mv = g.coin();
                if (assign(*live[j].first, r, mv)) { c.note(mv ? "move-assign " : "assign ", i, " to ", j); live[j].second = s; REQUIRE(live[j].first->encode() == s.bytes, "assignment gave ", show(*live[j].first)); touched |= copied; }
                break;
            }
            case 6: case 7: { // mutation of one, which must match that of a decoded twin
                Mutation m{g.range(0, 5), g.uniform(-0.5, 0.5), w.unit(), w.circle(), w.box()};
                Ptr twin = Region::decode(s.bytes);
                if (mutate(r, m)) {
                    c.note("mutate ", i, " by ", m.k);
                    mutate(*twin, m);
                    live[i].second = snapshot(r, pts, *probe);
                    // (encodings of empty regions may hold arbitrary bounds)
                    REQUIRE(eq(r, *twin), "changing ", show(*twin), " and its copy gave different results: ", show(r));
                    touched |= copied;
                }
                break;
            }
            case 8: case 9: if (live.size() > 1) { c.note("destroy ", i); live.erase(live.begin() + static_cast<long>(i)); touched |= copied; } break;
            default: c.note("new"); add(w.region(w.ANY, 2));
        }
        for (std::size_t k = 0; k < live.size(); ++k) {
            Region const & x = *live[k].first;
            if (x.encode() != live[k].second.bytes) FAILWITH("object ", k, " changed to ", show(x), " in step ", step);
        }
        if (live.size() > 12) live.erase(live.begin());
    }
    for (std::size_t k = 0; k < live.size(); ++k) {
        Snapshot t = snapshot(*live[k].first, pts, *probe);
        REQUIRE(t.bytes == live[k].second.bytes && t.answers == live[k].second.answers, "object ", k, " answers differently at the end: ", show(*live[k].first));
    }
    if (touched) c.nontrivial();
}

// Equality as the parameters define it.
static bool sameVec(UnitVector3d const & a, UnitVector3d const & b) { return a.x() == b.x() && a.y() == b.y() && a.z() == b.z(); }
static bool model(Region const & a, Region const & b) {
    if (auto x = dynamic_cast<Circle const *>(&a)) {
        auto & y = dynamic_cast<Circle const &>(b);
        double p = x->getSquaredChordLength(), q = y.getSquaredChordLength();
        bool xe = !(p >= 0), ye = !(q >= 0), xf = p >= 4, yf = q >= 4;
        if (xe || ye) return xe && ye;
        if (xf || yf) return xf && yf;
        return sameVec(x->getCenter(), y.getCenter()) && p == q && x->getOpeningAngle().asRadians() == y.getOpeningAngle().asRadians();
    }
    if (auto x = dynamic_cast<Box const *>(&a)) {
        auto & y = dynamic_cast<Box const &>(b);
        double l[4] = {x->getLon().getA().asRadians(), x->getLon().getB().asRadians(), x->getLat().getA().asRadians(), x->getLat().getB().asRadians()};
        double m[4] = {y.getLon().getA().asRadians(), y.getLon().getB().asRadians(), y.getLat().getA().asRadians(), y.getLat().getB().asRadians()};
        auto empty = [](double * v) { return std::isnan(v[0]) || std::isnan(v[1]) || !(v[2] <= v[3]); };
        if (empty(l) || empty(m)) return empty(l) && empty(m);
        return l[0] == m[0] && l[1] == m[1] && l[2] == m[2] && l[3] == m[3];
    }
    if (auto x = dynamic_cast<ConvexPolygon const *>(&a)) {
        auto & p = x->getVertices();
        auto & q = dynamic_cast<ConvexPolygon const &>(b).getVertices();
        if (p.size() != q.size()) return false;
        for (std::size_t s = 0; s < p.size(); ++s) {
            bool all = true;
            for (std::size_t i = 0; i < p.size() && all; ++i) all = sameVec(p[i], q[(i + s) % q.size()]);
            if (all) return true;
        }
        return false;
    }
    // ellipses: the encoded frame and semi-axis angles
    Bytes p = a.encode(), q = b.encode();
    for (std::size_t i = 0; i < 11; ++i) {
        double u, v;
        std::memcpy(&u, &p[1 + 8 * i], 8);
        std::memcpy(&v, &q[1 + 8 * i], 8);
        if (!(u == v)) return false;
    }
    return true;
}

static double nudge(Gen & g, double x) {
    switch (g.below(4)) { case 0: return x; case 1: return std::nextafter(x, 10); case 2: return std::nextafter(x, -10); default: return x + g.uniform(-1e-6, 1e-6); }
}

// A region that shares most of the parameters of another one of its type.
static Ptr variant(Gen & g, World & w, Region const & r) {
    if (auto x = dynamic_cast<Circle const *>(&r)) {
        UnitVector3d v = g.chance(3, 4) ? x->getCenter() : g.coin() ? -x->getCenter() : w.unit();
        if (g.coin()) return Ptr(new Circle(v, g.coin() ? x->getSquaredChordLength() : nudge(g, x->getSquaredChordLength())));
        return Ptr(new Circle(v, Angle(nudge(g, x->getOpeningAngle().asRadians()))));
    }
    if (auto x = dynamic_cast<Box const *>(&r)) {
        if (x->isEmpty()) return Ptr(new Box(g.coin() ? Box::empty() : Box(NormalizedAngleInterval(NormalizedAngle(g.uniform(0, 6)), NormalizedAngle(1)), AngleInterval(Angle(1), Angle(g.uniform(-1, 0.99))))));
        double v[4] = {x->getLon().getA().asRadians(), x->getLon().getB().asRadians(), x->getLat().getA().asRadians(), x->getLat().getB().asRadians()};
        std::size_t k = g.below(5);
        if (k < 4) v[k] = nudge(g, v[k]); else if (g.coin()) std::swap(v[0], v[1]);
        return Ptr(new Box(NormalizedAngleInterval(NormalizedAngle(v[0]), NormalizedAngle(v[1])), AngleInterval(Angle(v[2]), Angle(v[3]))));
    }
    if (auto x = dynamic_cast<ConvexPolygon const *>(&r)) {
        // the same vertices, starting elsewhere, perhaps with one moved or dropped
        std::vector<UnitVector3d> vs = x->getVertices();
        std::rotate(vs.begin(), vs.begin() + static_cast<long>(g.below(vs.size())), vs.end());
        if (g.coin()) {
            std::size_t i = g.below(vs.size());
            if (g.coin() && vs.size() > 3) vs.erase(vs.begin() + static_cast<long>(i));
            else if (g.coin()) vs[i] = UnitVector3d::fromNormalized(std::nextafter(vs[i].x(), 2), vs[i].y(), vs[i].z());
            else std::swap(vs[i], vs[(i + 1) % vs.size()]);
        }
        // (no polygon has two equal vertices)
        for (std::size_t i = 0; i < vs.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (vs[i] == vs[j]) return r.clone();
        Bytes b(1, 'p');
        for (auto & v : vs) for (double d : {v.x(), v.y(), v.z()}) { unsigned char t[8]; std::memcpy(t, &d, 8); b.insert(b.end(), t, t + 8); }
        return Region::decode(b);
    }
    Bytes b = r.encode();
    if (g.coin()) { std::size_t i = g.below(11); double d; std::memcpy(&d, &b[1 + 8 * i], 8); d = nudge(g, d); std::memcpy(&b[1 + 8 * i], &d, 8); }
    return Region::decode(b);
}

LAW(equality, 300000, 10000000, 3) {
    World w(g);
    std::vector<Ptr> rs;
    int kind = g.pick({w.BOXES, w.CIRCLES, w.ELLIPSES, w.POLYS});
    rs.push_back(w.region(kind, 1));
    int n = g.range(2, 4);
    for (int i = 0; i < n; ++i) rs.push_back(g.chance(1, 5) ? w.region(kind, 1) : variant(g, w, *rs[g.below(rs.size())]));
    bool some = false, other = false;
    for (auto & a : rs) c.note(show(*a));
    for (auto & a : rs) {
        REQUIRE(eq(*a, *a), show(*a), " is not equal to itself");
        REQUIRE(eq(*a, *a->clone()), show(*a), " is not equal to its clone");
        for (auto & b : rs) {
            bool e = eq(*a, *b);
            REQUIRE(e == eq(*b, *a), "equality of ", show(*a), " and ", show(*b), " is not symmetric");
            REQUIRE(e == model(*a, *b), show(*a), (e ? " equals " : " differs from "), show(*b));
            if (&a != &b) (e ? some : other) = true;
            if (e) for (auto & d : rs) REQUIRE(eq(*b, *d) == eq(*a, *d), "equality of ", show(*a), ", ", show(*b), " and ", show(*d), " is not transitive");
            if (e && kind != w.POLYS) { UnitVector3d v = w.unit(); REQUIRE(a->contains(v) == b->contains(v), "equal regions ", show(*a), " and ", show(*b), " disagree on ", show(v)); }
        }
    }
    // a box is equal to a point if it is just that point
    if (kind == w.BOXES) {
        auto & b = dynamic_cast<Box const &>(*rs.back());
        LonLat p(w.unit());
        REQUIRE(Box(p) == p && !(Box(p) != p), "the box of a point differs from it: ", show(Box(p)));
        bool is = !b.isEmpty() && b.getLon().getA() == p.getLon() && b.getLon().getB() == p.getLon() && b.getLat().getA() == p.getLat() && b.getLat().getB() == p.getLat();
        REQUIRE((b == p) == is && (b != p) == !is, "equality of ", show(b), " with a point");
    }
    if (some && other) c.nontrivial();
}
