// C37: results depend on the arguments alone, not on what ran before or runs
// at the same time in other threads.
// CONFIGS: plain tsan
#include "pix.h"
#include "chunks.h"
#include <algorithm>
#include <atomic>
#include <functional>
#include <thread>
#include "lsst/sphgeom/BigInteger.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/curve.h"
#include "lsst/sphgeom/orientation.h"
#include "lsst/sphgeom/utils.h"

using namespace geo;

char const * const PROPERTY_ID = "C37";
char const * const NONTRIVIAL_RULE =
    "A case is a list of 6 to 40 calls over shared regions, pixelizations, chunkers, range sets and big integers; non-trivial when at least two calls are of the same kind with different arguments, or two threads run the list on shared objects.";

// Everything a call returned or threw, bit for bit.
struct Out {
    std::string s;
    Out & raw(void const * p, std::size_t n) { s.append(static_cast<char const *>(p), n); return *this; }
    Out & operator<<(double d) { if (d != d) d = NAN; return raw(&d, sizeof d); }
    Out & operator<<(std::uint64_t d) { return raw(&d, sizeof d); }
    Out & operator<<(int d) { return raw(&d, sizeof d); }
    Out & operator<<(bool d) { s += d ? 'T' : 'F'; return *this; }
    Out & operator<<(std::string const & d) { return *this << static_cast<std::uint64_t>(d.size()), s += d, *this; }
    Out & operator<<(Angle a) { return *this << a.asRadians(); }
    Out & operator<<(NormalizedAngle a) { return *this << a.asRadians(); }
    Out & operator<<(LonLat const & p) { return *this << p.getLon() << p.getLat(); }
    Out & operator<<(Vector3d const & v) { return *this << v.x() << v.y() << v.z(); }
    Out & operator<<(UnitVector3d const & v) { return *this << v.x() << v.y() << v.z(); }
    Out & operator<<(Interval1d const & i) { return *this << i.getA() << i.getB(); }
    Out & operator<<(Box3d const & b) { return *this << b.x() << b.y() << b.z(); }
    Out & operator<<(Relationship r) { return *this << static_cast<int>(r.to_ulong()); }
    Out & operator<<(Region const & r) {
        auto e = r.encode();
        *this << static_cast<std::uint64_t>(e.size());
        return raw(e.data(), e.size());
    }
    Out & operator<<(RangeSet const & r) {
        *this << static_cast<std::uint64_t>(r.size());
        for (auto const & t : r) *this << std::get<0>(t) << std::get<1>(t);
        return *this;
    }
    Out & operator<<(std::vector<std::int32_t> const & v) { *this << static_cast<std::uint64_t>(v.size()); for (int i : v) *this << i; return *this; }
};

struct Job {
    int kind;
    std::string what;
    std::function<void(Out &)> fn;
};

static std::string run(Job const & j) {
    Out o;
    try {
        j.fn(o);
    } catch (pbt::Failure const &) {
        throw;
    } catch (std::exception const & e) {
        o << std::string("threw ") << std::string(e.what());
    }
    return o.s;
}

struct Shared {
    std::vector<std::shared_ptr<Region>> regions;
    std::vector<UnitVector3d> pts;
    std::vector<Vector3d> vecs;
    std::vector<std::pair<Pix, std::shared_ptr<Pixelization>>> pixs;
    std::vector<std::pair<Config, std::shared_ptr<Chunker>>> chunkers;
    std::vector<std::shared_ptr<RangeSet>> sets;
    std::vector<std::shared_ptr<std::vector<std::uint8_t>>> codes;
};

static std::uint64_t boundary(Gen & g) {
    switch (g.below(4)) {
        case 0: return g.below(40);
        case 1: return 0 - g.below(40);
        case 2: return (1ULL << g.below(64)) + g.below(3) - 1;
        default: return g.u64();
    }
}

static Shared makeShared(Gen & g, World & w) {
    Shared s;
    int n = g.range(2, 4);
    for (int i = 0; i < n; ++i) {
        std::unique_ptr<Region> r;
        if (i > 0 && g.coin()) r = w.relatedTo(*s.regions[0], w.ANY);
        else if (i > 0 && g.chance(1, 4)) r = s.regions[g.below(s.regions.size())]->clone();
        else r = w.region(g.chance(1, 4) ? static_cast<int>(w.COMPOUND) : static_cast<int>(w.ANY));
        s.regions.push_back(std::shared_ptr<Region>(std::move(r)));
    }
    for (int i = 0; i < 5; ++i) s.pts.push_back(w.unit());
    for (int i = 0; i < 4; ++i) {
        Vector3d v = g.pick(s.pts);
        if (g.coin()) v = v * std::ldexp(1.0, g.range(-300, 300));
        if (g.coin()) v = v + g.pick(s.pts) * g.logUniform(-17, 0);
        if (v.isZero()) v = Vector3d(1, 0, 0);
        s.vecs.push_back(v);
    }
    for (int i = 0; i < 3; ++i) {
        Pix p = anyPix(g, 30);
        if (i > 0 && g.coin()) p = Pix(s.pixs[0].first.k, g.range(0, s.pixs[0].first.maxLevel()));
        s.pixs.emplace_back(p, std::shared_ptr<Pixelization>(p.make()));
    }
    for (int i = 0; i < 2; ++i) {
        Config c = config(g, 40);
        s.chunkers.emplace_back(c, std::make_shared<Chunker>(c.n, c.m));
    }
    for (int i = 0; i < 2; ++i) {
        auto r = std::make_shared<RangeSet>();
        int k = g.range(0, 8);
        for (int j = 0; j < k; ++j) r->insert(boundary(g), boundary(g));
        s.sets.push_back(r);
    }
    for (int i = 0; i < 2; ++i) {
        auto e = g.pick(s.regions)->encode();
        if (g.coin() && !e.empty()) e[g.below(e.size())] ^= static_cast<std::uint8_t>(1u << g.below(8));
        if (g.chance(1, 4)) e.resize(g.below(e.size() + 1));
        s.codes.push_back(std::make_shared<std::vector<std::uint8_t>>(e));
    }
    return s;
}

enum { NKINDS = 30 };

static Job makeJob(Gen & g, Shared const & s, int kind) {
    Job j;
    j.kind = kind;
    auto r = g.pick(s.regions);
    auto q = g.pick(s.regions);
    UnitVector3d a = g.pick(s.pts), b = g.pick(s.pts), d = g.pick(s.pts);
    switch (kind) {
        case 0: j.what = "getBoundingBox"; j.fn = [r](Out & o) { o << r->getBoundingBox(); }; break;
        case 1: j.what = "getBoundingBox3d"; j.fn = [r](Out & o) { o << r->getBoundingBox3d(); }; break;
        case 2: j.what = "getBoundingCircle"; j.fn = [r](Out & o) { o << r->getBoundingCircle(); }; break;
        case 3: j.what = "contains"; j.fn = [r, a](Out & o) { o << r->contains(a) << r->contains(a.x(), a.y(), a.z()); LonLat p(a); o << r->contains(p.getLon().asRadians(), p.getLat().asRadians()); }; break;
        case 4: case 5: case 6: j.what = "relate"; j.fn = [r, q](Out & o) { o << r->relate(*q); }; break;
        case 7: j.what = "clone and operands"; j.fn = [r](Out & o) { auto c = r->clone(); o << *c; for (auto & x : Region::getRegions(*r)) o << *x; }; break;
        case 8: { auto code = g.pick(s.codes); j.what = "decode"; j.fn = [code](Out & o) { auto x = Region::decode(*code); o << *x << x->getBoundingBox() << x->getBoundingCircle(); }; break; }
        case 9: j.what = "orientation"; j.fn = [a, b, d](Out & o) { o << orientation(a, b, d) << orientationX(a, b) << orientationY(b, d) << orientationZ(a, d); }; break;
        case 10: { Vector3d u = g.pick(s.vecs), v = g.pick(s.vecs), t = g.pick(s.vecs); if (g.coin()) t = u + v;
                   j.what = "orientationExact"; j.fn = [u, v, t](Out & o) { o << orientationExact(u, v, t); }; break; }
        case 11: case 12: case 13: {
            auto px = g.pick(s.pixs);
            std::uint64_t i = anyIndex(g, px.first);
            if (g.chance(1, 8)) i = g.u64();
            auto p = px.second;
            if (kind == 11) { j.what = "pixel"; j.fn = [p, i](Out & o) { o << *p->pixel(i); }; }
            else if (kind == 12) { j.what = "toString"; j.fn = [p, i](Out & o) { o << p->toString(i) << p->universe(); }; }
            else { j.what = "index"; j.fn = [p, a, b](Out & o) { o << p->index(a) << p->index(b); }; }
            break;
        }
        case 14: case 15: {
            Pix p(static_cast<Pix::Kind>(g.below(3)), g.range(0, 3));
            std::size_t m = g.coin() ? 0 : 1 + g.below(30);
            auto x = std::shared_ptr<Pixelization>(p.make());
            if (kind == 14) { j.what = "envelope"; j.fn = [x, r, m](Out & o) { o << x->envelope(*r, m); }; }
            else { j.what = "interior"; j.fn = [x, r, m](Out & o) { o << x->interior(*r, m); }; }
            break;
        }
        case 16: {
            auto px = g.pick(s.pixs).first;
            std::uint64_t i = g.chance(1, 8) ? g.u64() : anyIndex(g, px);
            j.what = "static pixel functions";
            j.fn = [i](Out & o) {
                o << HtmPixelization::level(i) << Mq3cPixelization::level(i);
                if (HtmPixelization::level(i) >= 0) o << HtmPixelization::asString(i) << HtmPixelization::triangle(i);
                if (Mq3cPixelization::level(i) >= 0) { o << Mq3cPixelization::asString(i) << Mq3cPixelization::quad(i); for (auto k : Mq3cPixelization::neighborhood(i)) o << k; }
            };
            break;
        }
        case 17: { auto px = g.pick(s.pixs).first; Pix q3(Pix::Q3C, px.level); std::uint64_t i = anyIndex(g, q3); int l = px.level;
                   j.what = "Q3C quad and neighborhood"; j.fn = [i, l](Out & o) { Q3cPixelization p(l); o << p.quad(i); for (auto k : p.neighborhood(i)) o << k; }; break; }
        case 18: { auto ck = g.pick(s.chunkers).second; j.what = "getChunksIntersecting"; j.fn = [ck, r](Out & o) { o << ck->getChunksIntersecting(*r); }; break; }
        case 19: { auto ck = g.pick(s.chunkers).second; j.what = "getSubChunksIntersecting"; j.fn = [ck, r](Out & o) { for (auto & x : ck->getSubChunksIntersecting(*r)) o << x.chunkId << x.subChunkIds; }; break; }
        case 20: { auto c = g.pick(s.chunkers); auto ck = c.second; j.what = "chunk lists and boxes";
                   int st = static_cast<int>(g.below(c.first.n)), ss = static_cast<int>(g.below(c.first.n * c.first.m));
                   j.fn = [ck, st, ss](Out & o) { auto all = ck->getAllChunks(); o << all; o << ck->getAllSubChunks(all[all.size() / 2]) << ck->getChunkBoundingBox(st, 0) << ck->getSubChunkBoundingBox(ss, 0); }; break; }
        case 21: { int n = g.range(1, 60), m = g.range(1, 12); j.what = "build a chunker"; j.fn = [n, m](Out & o) { Chunker c(n, m); o << c.getAllChunks() << c.getNumStripes(); }; break; }
        case 22: { auto x = g.pick(s.sets), y = g.pick(s.sets); j.what = "range set algebra";
                   j.fn = [x, y](Out & o) { o << (*x & *y) << (*x | *y) << (*x - *y) << (*x ^ *y) << ~*x << x->simplified(3) << x->intersects(*y) << x->contains(*y) << (*x == *y) << static_cast<std::uint64_t>(x->cardinality()); }; break; }
        case 23: { std::vector<std::pair<std::uint64_t, std::uint64_t>> v; int k = g.range(1, 8); for (int i = 0; i < k; ++i) v.emplace_back(boundary(g), boundary(g));
                   j.what = "build a range set"; j.fn = [v](Out & o) { RangeSet t; int i = 0; for (auto & p : v) { if (++i % 3 == 0) t.erase(p.first, p.second); else t.insert(p.first, p.second); } t.complement(); t.scale(3); o << t; }; break; }
        case 24: { std::vector<UnitVector3d> v; int n = g.range(3, 6); for (int i = 0; i < n; ++i) v.push_back(g.pick(s.pts));
                   j.what = "convex hull"; j.fn = [v](Out & o) { ConvexPolygon p(v); o << p << p.getCentroid() << p.getBoundingBox(); }; break; }
        case 25: { double al = g.uniform(0, 1.5); double be = g.uniform(0, 1.5), th = g.uniform(-4, 4);
                   j.what = "build an ellipse"; j.fn = [=](Out & o) { Ellipse e(a, Angle(al), Angle(be), Angle(th)); o << e << e.getF1() << e.getF2() << e.getBoundingCircle() << e.contains(b); Ellipse f(a, b, Angle(al)); o << f << f.getBoundingBox(); }; break; }
        case 26: { double x = g.uniform(-10, 10); j.what = "coordinates";
                   j.fn = [=](Out & o) { LonLat p(a); o << p << UnitVector3d(p) << UnitVector3d::orthogonalTo(a) << UnitVector3d::northFrom(b) << a.rotatedAround(b, Angle(x)) << NormalizedAngle(x) << NormalizedAngle(p, LonLat(b)) << NormalizedAngle(a, b) << a.robustCross(b)
                       << getMinSquaredChordLength(d, a, b, Vector3d(a.robustCross(b))) << getMaxSquaredChordLength(d, a, b, Vector3d(a.robustCross(b))) << Box::halfWidthForCircle(Angle(std::fabs(x) / 10), p.getLat()); }; break; }
        case 27: { std::uint32_t x = static_cast<std::uint32_t>(g.u64()), y = static_cast<std::uint32_t>(g.u64()); int m = g.range(1, 32);
                   j.what = "curve"; j.fn = [=](Out & o) { std::uint32_t k = m == 32 ? ~0u : (1u << m) - 1; std::uint64_t z = mortonIndex(x & k, y & k), h = hilbertIndex(x & k, y & k, m); o << z << h << hilbertToMorton(h, m) << mortonToHilbert(z, m); auto t = hilbertIndexInverse(h, m); o << static_cast<std::uint64_t>(std::get<0>(t)) << static_cast<std::uint64_t>(std::get<1>(t)) << static_cast<int>(log2(h)); }; break; }
        case 28: { std::uint64_t x = g.u64(), y = g.u64(); unsigned n = static_cast<unsigned>(g.below(70));
                   j.what = "big integers"; j.fn = [=](Out & o) { std::uint32_t A[16], B[16]; BigInteger p(A, 16), t(B, 16); p.setTo(static_cast<std::int64_t>(x)); t.setTo(y); p.multiply(t).multiplyPow2(n).subtract(t); p.add(p); o << p.getSign() << static_cast<int>(p.getSize()); o.raw(p.getDigits(), 4 * p.getSize()); }; break; }
        default: { auto rs = g.pick(s.sets); j.what = "text"; j.fn = [r, a, rs](Out & o) { std::ostringstream os; os << a << LonLat(a) << Angle(a.x()) << *rs << r->getBoundingBox() << r->getBoundingCircle() << r->getBoundingBox3d();
                       if (auto p = dynamic_cast<ConvexPolygon const *>(r.get())) os << *p; if (auto p = dynamic_cast<Ellipse const *>(r.get())) os << *p; o << os.str(); }; break; }
    }
    return j;
}

// Calls that mutate objects of their own (copies of the shared ones).
static Job mutator(Gen & g, Shared const & s) {
    auto r = g.pick(s.regions);
    auto x = g.pick(s.sets), y = g.pick(s.sets);
    double d = g.uniform(-1, 1);
    UnitVector3d v = g.pick(s.pts);
    Job j;
    j.kind = 100;
    j.what = "mutate a copy";
    j.fn = [=](Out & o) {
        auto c = r->clone();
        if (auto b = dynamic_cast<Box *>(c.get())) { b->dilateBy(Angle(d)); b->expandTo(LonLat(v)); }
        if (auto b = dynamic_cast<Circle *>(c.get())) { b->dilateBy(Angle(d)); b->expandTo(v); b->complement(); }
        if (auto b = dynamic_cast<Ellipse *>(c.get())) b->complement();
        o << *c << c->contains(v) << c->getBoundingBox() << c->relate(*r);
        RangeSet t(*x);
        t |= *y; t.complement(); t.insert(3, 9); t.erase(5); t.simplify(2);
        o << t;
    };
    return j;
}

static std::vector<Job> makeJobs(Gen & g, Shared const & s, int lo, int hi, bool & mixed) {
    std::vector<Job> jobs;
    int n = g.range(lo, hi);
    int focus = static_cast<int>(g.below(NKINDS + 1));   // many calls of one kind
    mixed = false;
    for (int i = 0; i < n; ++i) {
        Job j = g.chance(1, 10) ? mutator(g, s) : makeJob(g, s, (focus < NKINDS && g.coin()) ? focus : static_cast<int>(g.below(NKINDS)));
        for (auto & k : jobs) if (k.kind == j.kind) mixed = true;
        jobs.push_back(std::move(j));
    }
    return jobs;
}

static std::vector<std::string> shapes(Shared const & s) {
    std::vector<std::string> v;
    for (auto & r : s.regions) { Out o; o << *r; v.push_back(o.s); }
    for (auto & r : s.sets) { Out o; o << *r << r->isValid(); v.push_back(o.s); }
    return v;
}

// One thread: the same calls in another order, on the same objects.
LAW(order, 6000, 200000, 15) {
    World w(g);
    Shared s = makeShared(g, w);
    bool mixed;
    std::vector<Job> jobs = makeJobs(g, s, 6, 40, mixed);
    if (mixed) c.nontrivial();
    if (c.describing) for (auto & j : jobs) c.note(j.what);
    auto before = shapes(s);
    std::vector<std::string> first;
    for (auto & j : jobs) first.push_back(run(j));
    for (std::size_t k = jobs.size(); k-- > 0;)
        REQUIRE(run(jobs[k]) == first[k], "call ", k, " (", jobs[k].what, ") answered differently when the calls were made in reverse order");
    for (int rep = 0; rep < 2; ++rep)
        for (std::size_t t = 0; t < jobs.size(); ++t) {
            std::size_t k = g.below(jobs.size());
            REQUIRE(run(jobs[k]) == first[k], "call ", k, " (", jobs[k].what, ") answered differently the second time");
        }
    REQUIRE(shapes(s) == before, "a query changed one of its operands");
}

// Several threads make the same calls on the same constant objects.
LAW(threads, 2400, 60000, 40) {
    World w(g);
    Shared s = makeShared(g, w);
    bool mixed;
    std::vector<Job> jobs = makeJobs(g, s, 6, 24, mixed);
    c.nontrivial();
    if (c.describing) for (auto & j : jobs) c.note(j.what);
    auto before = shapes(s);
    int const nt = g.range(2, 4);
    // When the threads go first, nothing was warmed up by the sequential run.
    bool threadsFirst = g.coin();
    int const rounds = threadsFirst ? 2 : 4;
    std::vector<std::string> want;
    if (!threadsFirst) for (auto & j : jobs) want.push_back(run(j));
    std::size_t const n = jobs.size();
    std::vector<std::vector<std::string>> got(nt, std::vector<std::string>(n * rounds));
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    bool same = g.coin();      // all in step, or each starting elsewhere
    for (int t = 0; t < nt; ++t)
        th.emplace_back([&, t]() {
            ready.fetch_add(1);
            while (ready.load() < nt) std::this_thread::yield();
            for (int r = 0; r < rounds; ++r)
                for (std::size_t k = 0; k < n; ++k) {
                    std::size_t i = same ? k : (k + static_cast<std::size_t>(t) * n / nt) % n;
                    got[t][r * n + i] = run(jobs[i]);
                }
        });
    for (auto & t : th) t.join();
    if (threadsFirst) for (auto & j : jobs) want.push_back(run(j));
    for (int t = 0; t < nt; ++t)
        for (int r = 0; r < rounds; ++r)
            for (std::size_t k = 0; k < n; ++k)
                REQUIRE(got[t][r * n + k] == want[k], "call ", k, " (", jobs[k].what, ") answered differently in thread ", t, " of ", nt);
    REQUIRE(shapes(s) == before, "a query changed one of its operands");
}

// An object answers by its value: an object with another history and the same
// value (decoded from its bytes, or cloned) gives the same answers.
LAW(history_of_objects, 6000, 200000, 10) {
    World w(g);
    std::unique_ptr<Region> r = w.region(w.BOXES | w.CIRCLES | w.ELLIPSES);
    std::vector<UnitVector3d> pts;
    for (int i = 0; i < 4; ++i) pts.push_back(w.unit());
    std::unique_ptr<Region> probe = w.region(w.SIMPLE);
    auto ask = [&](Region const & x) {
        Out o;
        for (auto & p : pts) o << x.contains(p);
        o << x.relate(*probe) << probe->relate(x) << x.getBoundingBox() << x.getBoundingCircle() << x.getBoundingBox3d();
        if (auto k = dynamic_cast<Circle const *>(&x)) o << k->getArea() << k->isFull() << k->isEmpty();
        auto k = dynamic_cast<Box const *>(&x); if (k) o << k->getArea() << k->isFull() << k->isEmpty(); if (k && !k->isEmpty()) o << k->getCenter() << k->getWidth() << k->getHeight();
        if (auto e = dynamic_cast<Ellipse const *>(&x)) { auto k = e; o << k->isFull() << k->isEmpty() << k->isCircle() << k->isGreatCircle() << k->getF1() << k->getF2() << k->getAlpha() << k->getBeta() << k->getGamma(); }
        return o.s;
    };
    int n = g.range(1, 6);
    c.note("start ", show(*r));
    for (int i = 0; i < n; ++i) {
        if (g.coin()) ask(*r);
        int op = g.range(0, 5);
        UnitVector3d v = w.unit();
        double d = g.uniform(-0.7, 0.7);
        if (auto k = dynamic_cast<Circle *>(r.get())) {
            switch (op) { case 0: k->complement(); break; case 1: k->dilateBy(Angle(d)); break; case 2: k->expandTo(v); break; case 3: k->clipTo(w.circle()); break; case 4: k->expandTo(w.circle()); break; default: *k = w.circle(); }
        } else if (auto k = dynamic_cast<Box *>(r.get())) {
            switch (op) { case 0: k->expandTo(LonLat(v)); break; case 1: k->dilateBy(Angle(d)); break; case 2: k->clipTo(w.box()); break; case 3: k->expandTo(w.box()); break; case 4: k->dilateBy(Angle(d), Angle(-d)); break; default: *k = w.box(); }
        } else if (auto k = dynamic_cast<Ellipse *>(r.get())) {
            if (op < 3) k->complement(); else *k = w.ellipse();
        }
        c.note("op ", op, " gives ", show(*r));
        std::unique_ptr<Region> twin = Region::decode(r->encode());
        c.nontrivial();
        if (r->getBoundingBox().isEmpty()) continue;     // several encodings of nothing
        REQUIRE(ask(*r) == ask(*twin), "a region that came about by operations, ", show(*r), ", and one decoded from its bytes, ", show(*twin), ", answer differently");
    }
}
