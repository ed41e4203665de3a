// C36: unions and intersections behave as their operands combined.
#include "geo.h"
#include <typeinfo>
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"

using namespace lsst::sphgeom;
using geo::V;
using geo::World;
using geo::ld;
typedef std::unique_ptr<Region> R;

char const * const PROPERTY_ID = "C36";
char const * const NONTRIVIAL_RULE =
    "A case is a tree of regions (nested up to 40 deep), points and further regions; results of the tree are compared with its operands' "
    "combined. Non-trivial when some point tried is in one operand of the root and not in the other.";

namespace {
CompoundRegion const * compound(Region const & r) { return dynamic_cast<CompoundRegion const *>(&r); }
bool isUnion(Region const & r) { return dynamic_cast<UnionRegion const *>(&r) != nullptr; }

// Membership by definition, from the simple regions up.
bool member(Region const & r, UnitVector3d const & v) {
    auto * c = compound(r);
    if (!c) return r.contains(v);
    bool a = member(c->getOperand(0), v), b = member(c->getOperand(1), v);
    return isUnion(r) ? a || b : a && b;
}
int nodes(Region const & r) {
    auto * c = compound(r);
    return c ? 1 + nodes(c->getOperand(0)) + nodes(c->getOperand(1)) : 1;
}
R make(pbt::Gen & g, bool un, R a, R b) {
    if (g.coin()) return un ? R(new UnionRegion(*a, *b)) : R(new IntersectionRegion(*a, *b));
    std::array<R, 2> o{{std::move(a), std::move(b)}};
    return un ? R(new UnionRegion(std::move(o))) : R(new IntersectionRegion(std::move(o)));
}
R tree(pbt::Gen & g, World & w, int depth) {
    if (depth == 0 || g.chance(1, 4)) return w.region(World::SIMPLE);
    R a = tree(g, w, depth - 1), b = tree(g, w, depth - 1);
    return make(g, g.coin(), std::move(a), std::move(b));
}
R rooted(pbt::Gen & g, World & w) {
    if (g.chance(1, 15)) {   // a chain
        R r = w.region(World::SIMPLE);
        int n = g.range(5, 40);
        for (int i = 0; i < n; ++i) {
            R s = w.region(World::SIMPLE);
            bool un = g.coin();
            r = g.coin() ? make(g, un, std::move(r), std::move(s)) : make(g, un, std::move(s), std::move(r));
        }
        return r;
    }
    R a = tree(g, w, g.range(0, 2)), b = g.chance(1, 8) ? a->clone() : tree(g, w, g.range(0, 2));
    return make(g, g.coin(), std::move(a), std::move(b));
}
std::vector<UnitVector3d> points(pbt::Gen & g, World & w, Region const & r, int n) {
    std::vector<UnitVector3d> p;
    for (auto & u : w.pool) if (p.size() < 12) p.push_back(u);
    for (int i = 0; i < n; ++i) p.push_back(w.unit());
    std::vector<Region const *> leaves{&r};
    for (std::size_t i = 0; i < leaves.size() && leaves.size() < 40; ++i)
        if (auto * c = compound(*leaves[i])) { leaves.push_back(&c->getOperand(0)); leaves.push_back(&c->getOperand(1)); }
    for (int i = 0; i < n; ++i) {
        Region const & q = *leaves[g.below(leaves.size())];
        if (!compound(q)) p.push_back(geo::toUnit(geo::makeRef(q).randomPoint(g)));
    }
    return p;
}
std::string brief(Region const & r) { std::string s = geo::show(r); return s.size() > 700 ? s.substr(0, 700) + "..." : s; }
}  // namespace

LAW(membership, 20000, 250000, 20) {
    World w(g);
    R r = rooted(g, w);
    c.note(brief(*r));
    auto & x = *compound(*r);
    Region const & a = x.getOperand(0), & b = x.getOperand(1);
    for (auto & v : points(g, w, *r, 10)) {
        bool want = member(*r, v), in = r->contains(v);
        REQUIRE(in == want, "contains(v) is ", in, " for ", geo::show(v));
        REQUIRE(r->contains(v) == (isUnion(*r) ? a.contains(v) || b.contains(v) : a.contains(v) && b.contains(v)), "contains(v) and the operands' differ for ", geo::show(v));
        UnitVector3d n(v.x(), v.y(), v.z());
        REQUIRE(r->contains(v.x(), v.y(), v.z()) == member(*r, n), "contains(x, y, z) for ", geo::show(v));
        LonLat p{Vector3d(v)};
        REQUIRE(r->contains(p.getLon().asRadians(), p.getLat().asRadians()) == member(*r, UnitVector3d(p)), "contains(lon, lat) for ", geo::show(v));
        if (a.contains(v) != b.contains(v)) c.nontrivial();
        c.label(in, "a point inside");
        // bounds hold every point
        if (in && want) {
            // (those of the operands are the business of C13: within their own rounding)
            bool ba = a.getBoundingBox().contains(v) || !a.contains(v), bb = b.getBoundingBox().contains(v) || !b.contains(v);
            if (ba && bb) REQUIRE(r->getBoundingBox().contains(v), "the bounding box lacks ", geo::show(v));
            ba = a.getBoundingBox3d().contains(v) || !a.contains(v); bb = b.getBoundingBox3d().contains(v) || !b.contains(v);
            if (ba && bb) REQUIRE(r->getBoundingBox3d().contains(v), "the 3-d bounding box lacks ", geo::show(v));
        }
    }
}

LAW(bounds, 20000, 250000, 20) {
    World w(g);
    R r = rooted(g, w);
    c.note(brief(*r));
    auto & x = *compound(*r);
    Region const & a = x.getOperand(0), & b = x.getOperand(1);
    Box p = a.getBoundingBox(), q = b.getBoundingBox(), m = r->getBoundingBox();
    Box3d p3 = a.getBoundingBox3d(), q3 = b.getBoundingBox3d(), m3 = r->getBoundingBox3d();
    Circle pc = a.getBoundingCircle(), qc = b.getBoundingCircle(), mc = r->getBoundingCircle();
    if (!p.isEmpty() && !q.isEmpty() && p != q) c.nontrivial();
    if (isUnion(*r)) {
        REQUIRE(m.contains(p) && m.contains(q), "the bounding box does not contain the operands'");
        REQUIRE(m3 == p3.expandedTo(q3), "the 3-d bounding box is not that of the operands'");
        REQUIRE(m.getArea() <= p.expandedTo(q).getArea() + 1e-12, "the bounding box is needlessly large");
        if (pc.isEmpty()) REQUIRE(mc.contains(qc.getCenter()) || qc.isEmpty(), "the bounding circle lacks the second operand's center");
        REQUIRE(mc.isFull() || (mc.getArea() >= pc.getArea() - 1e-12 && mc.getArea() >= qc.getArea() - 1e-12), "the bounding circle is smaller than an operand's");
        if (pc.isEmpty() && qc.isEmpty()) REQUIRE(mc.isEmpty(), "the bounding circle is not empty");
    } else {
        REQUIRE(m3 == p3.clippedTo(q3), "the 3-d bounding box is not that of the operands'");
        REQUIRE(m.getArea() <= std::min(p.getArea(), q.getArea()) + 1e-12, "the bounding box is larger than an operand's");
        REQUIRE(mc.getArea() <= std::min(pc.getArea(), qc.getArea()) + 4e-7, "the bounding circle is larger than an operand's");
        if (p.isEmpty() || q.isEmpty()) REQUIRE(m.isEmpty(), "the bounding box is not empty");
        if (pc.isEmpty() || qc.isEmpty()) REQUIRE(mc.isEmpty(), "the bounding circle is not empty");
    }
}

// The relationship with any region says at least what follows from the operands'.
LAW(relations, 20000, 250000, 20) {
    World w(g);
    R r = rooted(g, w);
    R o = g.chance(1, 8) ? compound(*r)->getOperand(g.below(2)).clone() : w.relatedTo(*r, World::SIMPLE);
    c.note(brief(*r), " other=", brief(*o));
    auto & x = *compound(*r);
    Relationship s = x.getOperand(0).relate(*o), t = x.getOperand(1).relate(*o), u = r->relate(*o), all = s & t, any = s | t;
    bool un = isUnion(*r);
    if (s != t) c.nontrivial();
    Relationship want = un ? (all & (DISJOINT | WITHIN)) | (any & CONTAINS) : (all & CONTAINS) | (any & (DISJOINT | WITHIN));
    REQUIRE((u & want) == want, "relate gives ", u.to_ulong(), " and not at least ", want.to_ulong());
    c.label((want & CONTAINS).any(), "contains"); c.label((want & DISJOINT).any(), "disjoint"); c.label((want & WITHIN).any(), "within");
    Relationship m = u;
    if (compound(*o)) {}
    else if (auto * b = dynamic_cast<Box const *>(o.get())) m = r->relate(*b);
    else if (auto * k = dynamic_cast<Circle const *>(o.get())) m = r->relate(*k);
    else if (auto * e = dynamic_cast<Ellipse const *>(o.get())) m = r->relate(*e);
    else m = r->relate(dynamic_cast<ConvexPolygon const &>(*o));
    REQUIRE(m == u, "overloads of relate differ");
    Relationship v = o->relate(*r);
    if (!compound(*o)) REQUIRE((u & CONTAINS).any() == (v & WITHIN).any() && (u & WITHIN).any() == (v & CONTAINS).any() && (u & DISJOINT).any() == (v & DISJOINT).any(),
            "relate gives ", u.to_ulong(), ", the other way ", v.to_ulong());
    // and is true of points
    for (auto & q : points(g, w, *r, 4)) {
        geo::Ref fr = geo::makeRef(*r), fo = geo::makeRef(*o);
        int in = fr.side(V(q), 1e-12L), out = fo.side(V(q), 1e-12L);
        if ((u & DISJOINT).any()) REQUIRE(!(in > 0 && out > 0), "disjoint, but both have ", geo::show(q));
        if ((u & CONTAINS).any()) REQUIRE(!(in < 0 && out > 0), "contains, but lacks ", geo::show(q));
        if ((u & WITHIN).any()) REQUIRE(!(in > 0 && out < 0), "within, but has ", geo::show(q));
    }
}

// An empty box does not keep its longitudes when it is encoded.
static bool hasEmptyBox(Region const & r) {
    if (auto u = dynamic_cast<CompoundRegion const *>(&r)) return hasEmptyBox(u->getOperand(0)) || hasEmptyBox(u->getOperand(1));
    auto b = dynamic_cast<Box const *>(&r);
    return b && b->isEmpty();
}

LAW(structure, 20000, 250000, 30) {
    World w(g);
    R a = tree(g, w, 2), b = tree(g, w, 2);
    auto ea = a->encode(), eb = b->encode();
    Region const * pa = a.get(), * pb = b.get();
    bool un = g.coin(), adopt = g.coin();
    c.note(un ? "union of " : "intersection of ", brief(*a), " and ", brief(*b), adopt ? " (adopted)" : " (copied)");
    if (ea != eb) c.nontrivial();
    R r;
    if (adopt) {
        std::array<R, 2> o{{std::move(a), std::move(b)}};
        r = un ? R(new UnionRegion(std::move(o))) : R(new IntersectionRegion(std::move(o)));
        REQUIRE(&compound(*r)->getOperand(0) == pa && &compound(*r)->getOperand(1) == pb, "operands are not those given");
    } else {
        r = un ? R(new UnionRegion(*a, *b)) : R(new IntersectionRegion(*a, *b));
        REQUIRE(&compound(*r)->getOperand(0) != pa && &compound(*r)->getOperand(1) != pb, "operands are not copies");
        a.reset();
        b.reset();
    }
    auto same = [](Region const & x, std::vector<std::uint8_t> const & e) { return x.encode() == e; };
    REQUIRE(same(compound(*r)->getOperand(0), ea) && same(compound(*r)->getOperand(1), eb), "operands changed, or their order");
    auto l = Region::getRegions(*r);
    REQUIRE(l.size() == 2 && same(*l[0], ea) && same(*l[1], eb), "getRegions");
    REQUIRE(l[0].get() != &compound(*r)->getOperand(0) && l[1].get() != &compound(*r)->getOperand(1), "getRegions does not copy");
    R k = r->clone();
    REQUIRE(typeid(*k) == typeid(*r) && k->encode() == r->encode(), "clone");
    auto e = r->encode();
    r.reset();
    REQUIRE(k->encode() == e && same(compound(*k)->getOperand(0), ea), "the clone depends on its original");
    R d = Region::decode(e);
    REQUIRE(typeid(*d) == typeid(*k) && nodes(*d) == nodes(*k) && (d->encode() == e || hasEmptyBox(*k)), "decode");
    for (auto & v : points(g, w, *k, 3)) REQUIRE(d->contains(v) == k->contains(v) && member(*d, v) == member(*k, v), "the decoded region and the original differ for ", geo::show(v));
    R s = w.region(World::SIMPLE);
    auto one = Region::getRegions(*s);
    REQUIRE(one.size() == 1 && typeid(*one[0]) == typeid(*s) && one[0]->encode() == s->encode() && one[0].get() != s.get(), "getRegions of a simple region");
    if (un) {
        UnionRegion m(std::move(dynamic_cast<UnionRegion &>(*k)));
        REQUIRE(m.encode() == e, "move");
    } else {
        IntersectionRegion m(std::move(dynamic_cast<IntersectionRegion &>(*k)));
        REQUIRE(m.encode() == e, "move");
    }
}

// Pixels of the tree: no more than the operands' combined for envelopes, no less for interiors.
LAW(pixels, 1500, 20000, 10) {
    World w(g);
    R r = rooted(g, w);
    if (nodes(*r) > 9) DISCARD("large");
    c.note(brief(*r));
    std::unique_ptr<Pixelization> p;
    switch (g.below(3)) {
        case 0: p.reset(new HtmPixelization(g.range(0, 4))); break;
        case 1: p.reset(new Q3cPixelization(g.range(0, 4))); break;
        default: p.reset(new Mq3cPixelization(g.range(0, 4))); break;
    }
    c.note("level or kind: universe has ", p->universe().cardinality(), " pixels");
    auto & x = *compound(*r);
    RangeSet ea = p->envelope(x.getOperand(0)), eb = p->envelope(x.getOperand(1)), e = p->envelope(*r);
    RangeSet ia = p->interior(x.getOperand(0)), ib = p->interior(x.getOperand(1)), i = p->interior(*r);
    if (!ea.empty() && !eb.empty() && ea != eb) c.nontrivial();
    RangeSet most = isUnion(*r) ? (ea | eb) : (ea & eb), least = isUnion(*r) ? (ia | ib) : (ia & ib);
    REQUIRE(most.contains(e), "the envelope has pixels that no combination of the operands' envelopes has");
    REQUIRE(i.contains(least), "the interior lacks pixels that the operands' interiors combined have");
    REQUIRE(e.contains(i), "the interior has pixels that the envelope lacks");
    for (auto & v : points(g, w, *r, 6))
        if (geo::makeRef(*r).side(V(v), 1e-11L) > 0) REQUIRE(e.contains(p->index(v)), "the envelope lacks the pixel of ", geo::show(v));
}
