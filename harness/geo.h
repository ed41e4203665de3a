// Geometry for the checks: generators of unit vectors, angles and regions, an
// independent reference model of regions in extended precision, and a sampler
// of points where two regions are likely to disagree.
#ifndef VERIF_GEO_H_
#define VERIF_GEO_H_

#include <algorithm>
#include <cmath>
#include <limits>
#include <memory>
#include "pbt.h"
#include "lsst/sphgeom/Angle.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/LonLat.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/NormalizedAngle.h"
#include "lsst/sphgeom/NormalizedAngleInterval.h"
#include "lsst/sphgeom/Region.h"
#include "lsst/sphgeom/Relationship.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"

namespace geo {

using namespace lsst::sphgeom;
using pbt::Gen;
typedef long double ld;

static ld const LPI = 3.141592653589793238462643383279502884L;
static double const DPI = 3.14159265358979323846;

// ---------------------------------------------------------------- vectors

struct V {
    ld x, y, z;
    V() : x(0), y(0), z(0) {}
    V(ld a, ld b, ld c) : x(a), y(b), z(c) {}
    V(Vector3d const & v) : x(v.x()), y(v.y()), z(v.z()) {}
    V(UnitVector3d const & v) : x(v.x()), y(v.y()), z(v.z()) {}
    V operator+(V const & o) const { return V(x + o.x, y + o.y, z + o.z); }
    V operator-(V const & o) const { return V(x - o.x, y - o.y, z - o.z); }
    V operator*(ld s) const { return V(x * s, y * s, z * s); }
    V operator-() const { return V(-x, -y, -z); }
    ld dot(V const & o) const { return x * o.x + y * o.y + z * o.z; }
    V cross(V const & o) const { return V(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    ld norm() const { return sqrtl(dot(*this)); }
    V unit() const { ld n = norm(); return n > 0 ? *this * (1 / n) : V(1, 0, 0); }
};

inline ld angleBetween(V const & a, V const & b) { return atan2l(a.cross(b).norm(), a.dot(b)); }
inline V robustCross(V const & a, V const & b) { return (b + a).cross(b - a); }   // 2 a x b
inline UnitVector3d toUnit(V v) {
    v = v.unit();
    return UnitVector3d(static_cast<double>(v.x), static_cast<double>(v.y), static_cast<double>(v.z));
}
inline V orthogonal(V const & v) {
    V a = fabsl(v.x) < 0.6L ? V(1, 0, 0) : (fabsl(v.y) < 0.6L ? V(0, 1, 0) : V(0, 0, 1));
    return v.cross(a).unit();
}
// v moved by angle a towards direction d (d need not be orthogonal to v).
inline V toward(V const & v, V const & d, ld a) {
    V n = robustCross(v, d);
    if (n.norm() < 1e-30L) n = orthogonal(v);
    V t = n.cross(v).unit();
    return (v * cosl(a) + t * sinl(a)).unit();
}
inline ld lonOf(V const & v) {
    if (v.x == 0 && v.y == 0) return 0;
    ld l = atan2l(v.y, v.x);
    return l < 0 ? l + 2 * LPI : l;
}
inline ld latOf(V const & v) { return atan2l(v.z, sqrtl(v.x * v.x + v.y * v.y)); }
inline V fromLonLat(ld lon, ld lat) { return V(cosl(lon) * cosl(lat), sinl(lon) * cosl(lat), sinl(lat)); }

// ---------------------------------------------------------------- reference

struct Ref {
    enum Kind { BOX, CIRCLE, ELLIPSE, POLY, UNION, INTER } k = CIRCLE;
    bool empty = false, full = false;
    V c;                       // centre of circle, ellipse
    ld scl = 0, r = 0;         // circle
    bool fullLon = false;      // box
    ld lonA = 0, lonB = 0, latA = 0, latB = 0;
    V ax, ay;                  // ellipse
    ld alpha = 0, beta = 0;
    std::vector<V> vs;         // polygon
    std::vector<V> ns;         // unit edge normals, pointing inside; ns[i] is of the edge vs[i] -> vs[i+1]
    std::vector<Ref> ops;

    // +1: inside by more than `tol` radians; -1: outside by more than tol; 0: too close to call.
    int side(V const & v, ld tol) const {
        switch (k) {
            case CIRCLE: {
                if (empty) return -1;
                if (full) return 1;
                V d = v - c;
                ld q = d.dot(d), m = std::max(q, scl);
                ld slack = 8e-15L * m + 2 * sqrtl(m) * (tol + 2e-16L) + (tol + 2e-16L) * (tol + 2e-16L);
                return q > scl + slack ? -1 : (q < scl - slack ? 1 : 0);
            }
            case BOX: {
                if (empty) return -1;
                ld t = tol + 4e-15L;
                ld lat = latOf(v);
                ld rho = sqrtl(v.x * v.x + v.y * v.y);
                int s;
                if ((lat > latB + t && latB < DPI / 2) || (lat < latA - t && latA > -DPI / 2)) return -1;
                s = ((lat < latB - t || latB >= DPI / 2) && (lat > latA + t || latA <= -DPI / 2)) ? 1 : 0;
                if (fullLon) return s;
                if (rho <= t) return 0;
                ld lt = 4e-15L + (tol > 0 ? (rho > tol ? asinl(tol / rho) : LPI) : 0);
                if (lt >= LPI / 2) return 0;
                ld w = lonB - lonA;
                if (lonA > lonB) w += 2 * LPI;
                ld d = lonOf(v) - lonA;   // offset from the west edge in [0, 2 pi)
                if (d < 0) d += 2 * LPI;
                if (d > w) {
                    ld past = d - w, before = 2 * LPI - d;
                    if (past > lt && before > lt) return -1;
                    return 0;
                }
                if (d > lt && w - d > lt) return s;
                return 0;
            }
            case ELLIPSE: {
                if (empty) return -1;
                if (full) return 1;
                ld t = tol + 4e-15L;
                // Scaling by 1% moves the boundary by at least 1% of the lesser
                // semi-axis: a cheap answer away from the boundary.
                ld h = LPI / 2, a = alpha > h ? LPI - alpha : alpha, b = alpha > h ? LPI - beta : beta;
                if (0.005L * b > t && a * 1.01L < h) {
                    bool big = inCone(v, a * 1.01L, b * 1.01L), small = inCone(v, a * 0.99L, b * 0.99L);
                    if (alpha > h) { if (!big) return 1; if (small) return -1; }
                    else { if (!big) return -1; if (small) return 1; }
                }
                // Near it: too close to call if moving v, the semi-axes, or both
                // by t changes the answer.
                {
                    ld x = v.dot(ax), y = v.dot(ay), z = fabsl(v.dot(c)), ta = tanl(a), tb = tanl(b);
                    ld ct = ta > 0 ? std::min<ld>(1, fabsl(x / z / ta)) : 0, st = tb > 0 ? std::min<ld>(1, fabsl(y / z / tb)) : 0;
                    for (ld u : {acosl(ct), asinl(st)}) {
                        if (x < 0) u = LPI - u;
                        if (y < 0) u = -u;
                        if ((boundary(u) - v).norm() <= 2 * t) return 0;
                    }
                }
                V e1 = orthogonal(v), e2 = v.cross(e1).unit();
                bool in = inCone(v, a, b), same = true;
                for (int k = 0; k < 9 && same; ++k) {
                    V q = v;
                    if (k) { ld u = (k - 1) * LPI / 4; q = (v + (e1 * cosl(u) + e2 * sinl(u)) * t).unit(); }
                    same = inCone(q, std::min(a + t, h), std::min(b + t, h)) == in && inCone(q, a - t, b - t) == in;
                }
                if (!same) return 0;
                return (alpha > h ? !in : in) ? 1 : -1;
            }
            case POLY: {
                ld t = tol + 2e-15L;
                int s = 1;
                for (auto & n : ns) {
                    ld d = n.dot(v);
                    if (d < -sinl(std::min(t, LPI / 2))) return -1;
                    if (d < sinl(std::min(t, LPI / 2))) s = 0;
                }
                return s;
            }
            case UNION: {
                int s = -1;
                for (auto & o : ops) s = std::max(s, o.side(v, tol));
                return s;
            }
            default: {
                int s = 1;
                for (auto & o : ops) s = std::min(s, o.side(v, tol));
                return s;
            }
        }
    }

    // Is v in the ellipse with semi-axes a, b <= pi/2 around c (around -c for
    // the hole of an ellipse bigger than a hemisphere)?
    bool inCone(V const & v, ld a, ld b) const {
        if (a < 0 || b < 0) return false;
        ld x = v.dot(ax), y = v.dot(ay), z = v.dot(c);
        if (alpha > LPI / 2) z = -z;
        ld ca = cosl(a), sa = sinl(a), cb = cosl(b), sb = sinl(b);
        return z >= 0 && x * x * ca * ca * sb * sb + y * y * cb * cb * sa * sa <= z * z * sa * sa * sb * sb;
    }

    // Directions in which the region has features: a violation of containment
    // in this region shows at the other region's extremes along one of them.
    void directions(std::vector<V> & out) const {
        switch (k) {
            case CIRCLE: out.push_back(c); break;
            case BOX: {
                out.push_back(V(0, 0, 1));
                if (empty) break;
                if (!fullLon) {
                    out.push_back(V(-sinl(lonA), cosl(lonA), 0));
                    out.push_back(V(-sinl(lonB), cosl(lonB), 0));
                }
                break;
            }
            case ELLIPSE: out.push_back(c); out.push_back(ax); out.push_back(ay); break;
            case POLY: for (auto & n : ns) out.push_back(n); break;
            default: for (auto & o : ops) o.directions(out);
        }
    }

    // Points of the (closed) region extreme along +d and -d.
    void extremes(V const & d0, std::vector<V> & out) const {
        V d = d0.unit();
        switch (k) {
            case CIRCLE:
                if (empty) return;
                for (int s : {1, -1}) {
                    V e = d * s;
                    ld a = angleBetween(c, e);
                    if (a <= r) out.push_back(e);
                    out.push_back(toward(c, e, r));
                }
                break;
            case BOX: {
                if (empty) return;
                for (ld lat : {latA, latB}) {
                    if (!fullLon) { out.push_back(fromLonLat(lonA, lat)); out.push_back(fromLonLat(lonB, lat)); }
                    ld l = lonOf(d);
                    out.push_back(fromLonLat(l, lat));
                    out.push_back(fromLonLat(l + LPI, lat));
                }
                out.push_back(d);
                out.push_back(-d);
                if (!fullLon) for (ld lon : {lonA, lonB}) {
                    V n(-sinl(lon), cosl(lon), 0);
                    V p = d - n * n.dot(d);
                    if (p.norm() > 1e-12L) { out.push_back(p.unit()); out.push_back(-p.unit()); }
                }
                break;
            }
            case ELLIPSE: {
                if (empty) return;
                ld best[2] = {0, 0}, val[2] = {-2, -2};
                for (int i = 0; i < 24; ++i) {
                    ld t = 2 * LPI * i / 24;
                    ld q = boundary(t).dot(d);
                    if (q > val[0]) { val[0] = q; best[0] = t; }
                    if (-q > val[1]) { val[1] = -q; best[1] = t; }
                }
                for (int s = 0; s < 2; ++s) {
                    ld lo = best[s] - 2 * LPI / 24, hi = best[s] + 2 * LPI / 24, sg = s ? -1 : 1;
                    for (int i = 0; i < 60; ++i) {
                        ld a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3;
                        if (sg * boundary(a).dot(d) > sg * boundary(b).dot(d)) hi = b; else lo = a;
                    }
                    out.push_back(boundary((lo + hi) / 2));
                }
                out.push_back(d);
                out.push_back(-d);
                break;
            }
            case POLY:
                for (auto & v : vs) out.push_back(v);
                for (auto & n : ns) {
                    V p = d - n * n.dot(d);
                    if (p.norm() > 1e-12L) { out.push_back(p.unit()); out.push_back(-p.unit()); }
                }
                out.push_back(d);
                out.push_back(-d);
                break;
            default: for (auto & o : ops) o.extremes(d, out);
        }
    }

    // A point of the ellipse or circle boundary.
    V boundary(ld t) const {
        if (k == CIRCLE) {
            V o = orthogonal(c), p = c.cross(o).unit();
            return (c.unit() * cosl(r) + (o * cosl(t) + p * sinl(t)) * sinl(r)).unit();
        }
        ld h = LPI / 2;
        ld a = alpha, b = beta;
        ld s = 1;
        if (a > h) { a = LPI - a; b = LPI - b; s = -1; }
        if (a < 0) a = 0;
        if (b < 0) b = 0;
        // x = sin a cos b cos t, y = sin b cos a sin t, z = cos a cos b
        ld x = sinl(a) * cosl(b) * cosl(t), y = sinl(b) * cosl(a) * sinl(t), z = cosl(a) * cosl(b);
        if (a > h - 1e-18L || b > h - 1e-18L) { x = cosl(t); y = sinl(t); z = 0; }
        return (ax * x + ay * y + c * (s * z)).unit();
    }

    // A random point in or on the region (best effort).
    V randomPoint(Gen & g) const {
        switch (k) {
            case CIRCLE: {
                if (empty) return c;
                ld rr = full ? LPI : r;
                ld f = g.chance(1, 3) ? 1 : sqrtl(g.unit());
                V o = orthogonal(c), p = c.cross(o).unit();
                ld t = 2 * LPI * g.unit();
                return (c.unit() * cosl(rr * f) + (o * cosl(t) + p * sinl(t)) * sinl(rr * f)).unit();
            }
            case BOX: {
                if (empty) return V(1, 0, 0);
                ld w = fullLon ? 2 * LPI : lonB - lonA;
                if (w < 0) w += 2 * LPI;
                ld f = g.chance(1, 4) ? g.range(0, 2) / 2.0L : g.unit(), h = g.chance(1, 4) ? g.range(0, 2) / 2.0L : g.unit();
                return fromLonLat(lonA + w * f, latA + (latB - latA) * h);
            }
            case ELLIPSE: {
                if (empty) return c;
                V e = boundary(2 * LPI * g.unit());
                ld f = g.chance(1, 3) ? 1 : sqrtl(g.unit());
                ld a = angleBetween(c, e);
                return toward(c, e, a * f);
            }
            case POLY: {
                if (g.chance(1, 4)) return vs[g.below(vs.size())];
                if (g.chance(1, 3)) {
                    std::size_t i = g.below(vs.size());
                    V a = vs[i], b = vs[(i + 1) % vs.size()];
                    return toward(a, b, angleBetween(a, b) * g.unit());
                }
                V s;
                for (auto & v : vs) s = s + v * (-logl(std::max<ld>(g.unit(), 1e-18L)));
                return s.unit();
            }
            default: return ops[g.below(ops.size())].randomPoint(g);
        }
    }

    bool knownEmpty() const {
        switch (k) {
            case BOX: case CIRCLE: case ELLIPSE: return empty;
            case POLY: return false;
            case UNION: for (auto & o : ops) if (!o.knownEmpty()) return false; return true;
            default: for (auto & o : ops) if (o.knownEmpty()) return true; return false;
        }
    }

    void vertices(std::vector<V> & out) const {
        switch (k) {
            case CIRCLE: out.push_back(c); out.push_back(-c); break;
            case ELLIPSE: out.push_back(c); out.push_back(-c);
                          if (!empty) for (int i = 0; i < 4; ++i) out.push_back(boundary(LPI / 2 * i)); break;
            case BOX: if (empty) break;
                      for (ld lat : {latA, latB}) for (ld lon : {lonA, lonB}) out.push_back(fromLonLat(lon, lat)); break;
            case POLY: for (auto & v : vs) out.push_back(v); break;
            default: for (auto & o : ops) o.vertices(out);
        }
    }
};

inline Ref makeRef(Region const & r) {
    Ref f;
    if (auto c = dynamic_cast<Circle const *>(&r)) {
        f.k = Ref::CIRCLE;
        f.c = V(c->getCenter());
        f.scl = c->getSquaredChordLength();
        f.empty = !(f.scl >= 0);
        f.full = f.scl >= 4;
        ld q = std::min<ld>(std::max<ld>(f.scl / 4, 0), 1);
        f.r = f.full ? LPI : 2 * atan2l(sqrtl(q), sqrtl(1 - q));
    } else if (auto b = dynamic_cast<Box const *>(&r)) {
        f.k = Ref::BOX;
        f.empty = b->isEmpty();
        f.fullLon = b->getLon().isFull();
        f.lonA = b->getLon().getA().asRadians();
        f.lonB = b->getLon().getB().asRadians();
        f.latA = b->getLat().getA().asRadians();
        f.latB = b->getLat().getB().asRadians();
    } else if (auto e = dynamic_cast<Ellipse const *>(&r)) {
        f.k = Ref::ELLIPSE;
        Matrix3d const & S = e->getTransformMatrix();
        f.ax = V(S(0, 0), S(0, 1), S(0, 2));
        f.ay = V(S(1, 0), S(1, 1), S(1, 2));
        f.c = V(S(2, 0), S(2, 1), S(2, 2));
        // The rows of S need only be orthogonal to the precision that matters
        // at the size of the ellipse; the reference wants an exact frame.
        f.c = f.c.unit();
        f.ax = (f.ax - f.c * f.c.dot(f.ax)).unit();
        f.ay = (f.ay - f.c * f.c.dot(f.ay) - f.ax * f.ax.dot(f.ay)).unit();
        f.alpha = e->getAlpha().asRadians();
        f.beta = e->getBeta().asRadians();
        f.empty = f.alpha < 0 || f.beta < 0;
        f.full = f.alpha > LPI || f.beta > LPI;
    } else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) {
        f.k = Ref::POLY;
        for (auto & v : p->getVertices()) f.vs.push_back(V(v));
        for (std::size_t i = 0; i < f.vs.size(); ++i)
            f.ns.push_back(robustCross(f.vs[i], f.vs[(i + 1) % f.vs.size()]).unit());
    } else if (auto u = dynamic_cast<CompoundRegion const *>(&r)) {
        f.k = dynamic_cast<UnionRegion const *>(&r) ? Ref::UNION : Ref::INTER;
        f.ops.push_back(makeRef(u->getOperand(0)));
        f.ops.push_back(makeRef(u->getOperand(1)));
    } else {
        FAILWITH("unknown region type");
    }
    return f;
}

inline std::string show(Region const & r) {
    std::ostringstream os;
    os.precision(17);
    if (auto c = dynamic_cast<Circle const *>(&r)) os << "Circle(" << c->getCenter().x() << "," << c->getCenter().y() << "," << c->getCenter().z() << "; scl=" << c->getSquaredChordLength() << ", r=" << c->getOpeningAngle().asRadians() << ")";
    else if (auto b = dynamic_cast<Box const *>(&r)) os << "Box(lon " << b->getLon().getA().asRadians() << ".." << b->getLon().getB().asRadians() << ", lat " << b->getLat().getA().asRadians() << ".." << b->getLat().getB().asRadians() << ")";
    else if (auto e = dynamic_cast<Ellipse const *>(&r)) os << "Ellipse(c=" << e->getCenter() << ", alpha=" << e->getAlpha().asRadians() << ", beta=" << e->getBeta().asRadians() << ", gamma=" << e->getGamma().asRadians() << ", axis " << e->getTransformMatrix().getRow(0) << ")";
    else if (auto p = dynamic_cast<ConvexPolygon const *>(&r)) { os << "Poly("; for (auto & v : p->getVertices()) os << "[" << v.x() << "," << v.y() << "," << v.z() << "] "; os << ")"; }
    else if (auto u = dynamic_cast<CompoundRegion const *>(&r)) os << (dynamic_cast<UnionRegion const *>(&r) ? "Union(" : "Intersection(") << show(u->getOperand(0)) << ", " << show(u->getOperand(1)) << ")";
    return os.str();
}
inline std::string show(UnitVector3d const & v) {
    std::ostringstream os;
    os.precision(17);
    os << "(" << v.x() << "," << v.y() << "," << v.z() << ")";
    return os.str();
}

// ---------------------------------------------------------------- generators

struct World {
    Gen & g;
    std::vector<UnitVector3d> pool;
    explicit World(Gen & g_) : g(g_) {}

    void learn(Region const & r) {
        Ref f = makeRef(r);
        std::vector<V> v;
        f.vertices(v);
        for (auto & x : v) if (pool.size() < 40) pool.push_back(toUnit(x));
    }

    V randomDirection() {
        ld z = g.uniform(-1, 1), t = 2 * LPI * g.unit(), s = sqrtl(std::max<ld>(0, 1 - z * z));
        return V(s * cosl(t), s * sinl(t), z);
    }

    UnitVector3d unit() {
        UnitVector3d u = unit_();
        if (pool.size() < 40) pool.push_back(u);
        return u;
    }
    UnitVector3d unit_() {
        switch (g.below(pool.empty() ? 8 : 14)) {
            case 0: { static const int ax[6][3] = {{1,0,0},{0,1,0},{0,0,1},{-1,0,0},{0,-1,0},{0,0,-1}};
                      int i = g.below(6); return UnitVector3d(ax[i][0], ax[i][1], ax[i][2]); }
            case 1: { int x = g.range(-1, 1), y = g.range(-1, 1), z = g.range(-1, 1);
                      if (!x && !y && !z) x = 1; return UnitVector3d(x, y, z); }
            case 2: { static const double s[] = {0, 45, 90, 180, 270, 360, 30, 60, 120, 315};
                      double lon = s[g.below(10)], lat = s[g.below(10)]; if (lat > 90) lat = -std::min(90.0, lat / 4);
                      return UnitVector3d(LonLat::fromDegrees(lon, lat)); }
            case 3: { V v = randomDirection(); int i = g.below(3); if (i == 0) v.x = 0; else if (i == 1) v.y = 0; else v.z = 0;
                      if (v.norm() < 1e-9L) v = V(1, 0, 0); return toUnit(v); }
            case 4: { // near an axis
                      int i = g.below(3); double s = g.coin() ? 1 : -1;
                      double lim = g.chance(1, 5) ? -100 : -18;
                      double a = (g.coin() ? 1 : -1) * g.logUniform(lim, 0), b = g.coin() ? (g.coin() ? 1 : -1) * g.logUniform(lim, 0) : 0;
                      double q[3]; q[i] = s; q[(i + 1) % 3] = a; q[(i + 2) % 3] = b; return UnitVector3d(q[0], q[1], q[2]); }
            case 5: case 6: case 7: return toUnit(randomDirection());
            case 8: return g.pick(pool);
            case 9: return -g.pick(pool);
            case 10: { UnitVector3d p = g.pick(pool); return toUnit(toward(V(g.coin() ? p : -p), randomDirection(), g.logUniform(-16, 0))); }
            case 11: { // one component moved by a few ulp
                      UnitVector3d p = g.pick(pool); double q[3] = {p.x(), p.y(), p.z()}; int i = g.below(3);
                      int n = g.range(1, 3); for (int k = 0; k < n && q[i] != 0; ++k) q[i] = std::nextafter(q[i], g.coin() ? 2 : -2);
                      int nz = (q[0] != 0) + (q[1] != 0) + (q[2] != 0);
                      return (nz > 1 && g.coin()) ? UnitVector3d::fromNormalized(q[0], q[1], q[2]) : UnitVector3d(q[0], q[1], q[2]); }
            default: { // on the great circle of two known points
                      V a(g.pick(pool)), b(g.pick(pool)); V s = a * g.uniform(-1, 1) + b * g.uniform(-1, 1);
                      if (s.norm() < 1e-6L) s = a; 
                      if (g.chance(1, 4)) { s = robustCross(a, b); if (s.norm() < 1e-20L) s = orthogonal(a); }
                      return toUnit(s); }
        }
    }

    // An angle in [0, pi], special values favoured.
    double angle() {
        switch (g.below(10)) {
            case 0: { static const double s[] = {0, DPI / 2, DPI, DPI / 4, DPI / 6, DPI / 3, 1e-8, 3e-8, 1e-16, 1e-300};
                      return s[g.below(10)]; }
            case 1: case 2: return g.logUniform(-12, 0.3);
            case 3: return DPI - g.logUniform(-12, 0.3);
            case 4: return DPI / 2 + (g.coin() ? 1 : -1) * g.logUniform(-16, 0);
            case 5: if (pool.size() >= 2) { // near the distance of two known points
                        double d = static_cast<double>(angleBetween(V(g.pick(pool)), V(g.pick(pool))));
                        double e = g.coin() ? 0 : (g.coin() ? 1 : -1) * g.logUniform(-17, -1);
                        return std::min(DPI, std::max(0.0, d + e)); }
                    return g.uniform(0, DPI);
            case 6: return g.uniform(0, 0.2);
            default: return g.uniform(0, DPI);
        }
    }

    double lon() {
        switch (g.below(6)) {
            case 0: return (DPI / 4) * g.below(9);
            case 1: if (!pool.empty()) { LonLat p(g.pick(pool)); return p.getLon().asRadians(); } return 0;
            case 2: if (!pool.empty()) { LonLat p(g.pick(pool)); double l = p.getLon().asRadians() + (g.coin() ? 1 : -1) * g.logUniform(-16, 0);
                        return NormalizedAngle(l).asRadians(); } return g.logUniform(-16, 0);
            case 3: return 2 * DPI - g.logUniform(-15, 0);
            default: return g.uniform(0, 2 * DPI);
        }
    }
    double lat() {
        double l;
        switch (g.below(6)) {
            case 0: l = (DPI / 4) * (static_cast<double>(g.below(5)) - 2); break;
            case 1: if (!pool.empty()) { l = LonLat(g.pick(pool)).getLat().asRadians(); break; } l = 0; break;
            case 2: l = (g.coin() ? 1 : -1) * (DPI / 2 - g.logUniform(-16, 0)); break;
            case 3: l = (g.coin() ? 1 : -1) * g.logUniform(-16, 0); break;
            default: l = g.uniform(-DPI / 2, DPI / 2);
        }
        return std::min(0.5 * DPI, std::max(-0.5 * DPI, l));
    }

    Circle circle() {
        switch (g.below(12)) {
            case 0: if (g.coin()) return g.coin() ? Circle::empty() : Circle::full();
                    // NaN and negative sizes are documented to make empty circles.
                    if (g.chance(1, 4)) { double bad = g.coin() ? std::numeric_limits<double>::quiet_NaN() : (g.coin() ? -std::numeric_limits<double>::infinity() : -g.logUniform(-300, 3));
                        UnitVector3d c = unit(); return g.coin() ? Circle(c, Angle(bad)) : Circle(c, bad); }
                    // (and sizes beyond those of the sphere, full ones)
                    if (g.chance(1, 4)) { double big = g.chance(1, 5) ? std::numeric_limits<double>::infinity() : 4 + g.logUniform(-15, 300);
                        UnitVector3d c = unit(); return g.coin() ? Circle(c, Angle(big)) : Circle(c, big); }
                    return g.coin() ? Circle(unit(), Angle(-g.logUniform(-16, 0))) : Circle(unit(), Angle(DPI + g.logUniform(-16, 0)));
            case 1: return Circle(unit());
            case 2: return Circle(unit(), g.chance(1, 3) ? 4.0 - g.logUniform(-15, 0.5) : g.uniform(0, 4));
            case 3: return Circle(unit(), 2 + (g.coin() ? 1 : -1) * g.logUniform(-16, -3));
            default: { UnitVector3d c = unit(); return Circle(c, Angle(angle())); }
        }
    }

    Box box() {
        switch (g.below(14)) {
            case 0: if (g.chance(1, 2)) return g.coin() ? Box::empty() : Box::full();
                    if (g.chance(1, 4)) { // an empty longitude or latitude interval (or a NaN end) makes an empty box
                        double nan = std::numeric_limits<double>::quiet_NaN(), a = lon(), b = lon(), l = lat(), h = lat();
                        switch (g.below(4)) {
                            case 0: a = nan; break;
                            case 1: b = nan; break;
                            case 2: h = nan; break;
                            default: if (l < h) std::swap(l, h); if (l == h) l = h = nan;
                        }
                        return Box(NormalizedAngleInterval(NormalizedAngle(a), NormalizedAngle(b)), AngleInterval(Angle(l), Angle(h))); }
                    return Box(LonLat(unit()));
            case 1: return Box(LonLat(unit()), Angle(angle()), Angle(angle() / 2));
            case 2: return Box(Box::allLongitudes(), AngleInterval(Angle(lat()), Angle(DPI / 2)));
            case 3: return Box(Box::allLongitudes(), AngleInterval(Angle(-DPI / 2), Angle(lat())));
            case 4: { double a = lat(), b = lat(); return Box(Box::allLongitudes(), AngleInterval(Angle(std::min(a, b)), Angle(std::max(a, b)))); }
            case 5: { // lune or wedge reaching a pole
                      double a = lon(), b = lon(), l = g.coin() ? lat() : -DPI / 2, h = DPI / 2; if (g.coin()) { std::swap(l, h); l = -l; h = -h; std::swap(l, h); std::swap(l, h); if (l > h) std::swap(l, h); }
                      return Box(NormalizedAngleInterval(NormalizedAngle(a), NormalizedAngle(b)), AngleInterval(Angle(std::min(l, h)), Angle(std::max(l, h)))); }
            case 6: { // small
                      double a = lon(), l = lat(), w = g.logUniform(-15, 0), h = g.logUniform(-15, 0);
                      return Box(LonLat(NormalizedAngle(a), Angle(l)), Angle(w), Angle(h)); }
            default: { double a = lon(), b = lon(), l = lat(), h = lat(); if (l > h) std::swap(l, h);
                      return Box(NormalizedAngleInterval(NormalizedAngle(a), NormalizedAngle(b)), AngleInterval(Angle(l), Angle(h))); }
        }
    }

    Ellipse ellipse() {
        switch (g.below(10)) {
            case 0: if (g.coin()) return g.coin() ? Ellipse::empty() : Ellipse::full();
                    return Ellipse(circle());
            case 1: case 2: case 3: { UnitVector3d a = unit(), b = g.coin() ? unit() : toUnit(toward(V(a), randomDirection(), g.logUniform(-9, 0)));
                    double d = static_cast<double>(angleBetween(V(a), V(b))) / 2;
                    double al = g.chance(1, 6) ? angle() : d + (g.coin() ? g.logUniform(-12, 0) : d * g.logUniform(-6, 0));
                    return Ellipse(a, b, Angle(std::min(al, DPI))); }
            default: { UnitVector3d c = unit(); double a, b;
                    bool big = g.chance(1, 3);
                    a = g.chance(1, 8) ? 0 : (g.coin() ? g.logUniform(-9, std::log10(DPI / 2)) : g.uniform(0, DPI / 2));
                    b = g.chance(1, 8) ? a : (g.coin() ? a * g.uniform(0, 1) : g.uniform(0, DPI / 2));
                    a = std::min(a, std::nextafter(DPI / 2, 0)); b = std::min(b, std::nextafter(DPI / 2, 0));
                    if (big) { a = DPI - a; b = DPI - b; }
                    double o = g.chance(1, 3) ? (DPI / 4) * g.range(-4, 4) : g.uniform(-4, 4);
                    return Ellipse(c, Angle(a), Angle(b), Angle(o)); }
        }
    }

    ConvexPolygon polygon() {
        for (int attempt = 0; attempt < 4; ++attempt) {
            std::vector<UnitVector3d> pts;
            switch (g.below(8)) {
                case 0: { int n = g.range(3, 5); for (int i = 0; i < n; ++i) pts.push_back(unit()); break; }
                case 1: { // octant-like: coordinate axes
                          static const int ax[3][3] = {{1,0,0},{0,1,0},{0,0,1}};
                          for (int i = 0; i < 3; ++i) { double s = g.coin() ? 1 : -1; pts.emplace_back(s * ax[i][0], s * ax[i][1], s * ax[i][2]); }
                          break; }
                case 2: { // regular
                          UnitVector3d c = unit(); V o = orthogonal(V(c)), p = V(c).cross(o).unit(); int n = g.range(3, 8);
                          double r = g.chance(1, 4) ? DPI / 2 - g.logUniform(-12, 0) : g.logUniform(-7, 0.19);
                          if (r > 1e-3 && g.chance(1, 6)) n = g.range(9, 70);
                          ld t0 = g.unit();
                          for (int i = 0; i < n; ++i) { ld t = t0 + 2 * LPI * i / n; pts.push_back(toUnit(V(c) * cosl(r) + (o * cosl(t) + p * sinl(t)) * sinl(r))); }
                          break; }
                case 3: { // thin
                          UnitVector3d a = unit(); V d = randomDirection(); V b = toward(V(a), d, g.uniform(0.001, 3));
                          V m = toward(V(a), b, g.uniform(0.0005, 1)); V q = toward(m, randomDirection(), g.logUniform(-15, -2));
                          pts = {a, toUnit(b), toUnit(q)}; if (g.coin()) pts.push_back(toUnit(toward(m, randomDirection(), g.logUniform(-15, -2)))); break; }
                case 4: { // box-like: four lon/lat corners
                          double a = lon(), w = g.uniform(0.001, 2.5), l = lat(), h = lat(); if (std::fabs(l - h) < 1e-3) h = l > 0 ? l - 0.1 : l + 0.1;
                          for (double x : {a, a + w}) for (double y : {l, h}) pts.emplace_back(Angle(x), Angle(y));
                          break; }
                default: { UnitVector3d c = unit(); double r = g.chance(1, 4) ? g.uniform(0, 1.5) : g.logUniform(-8, 0.1); int n = g.range(3, 9);
                          for (int i = 0; i < n; ++i) pts.push_back(toUnit(toward(V(c), randomDirection(), r * std::sqrt(g.unit()))));
                          break; }
            }
            // Distinct but (all but) colinear "unit" vectors, which differ in
            // length by an ulp more than in direction, are outside the domain:
            // see the TODO in ConvexPolygon.cc.
            bool colinear = false;
            for (std::size_t i = 0; i < pts.size(); ++i)
                for (std::size_t j = 0; j < i; ++j)
                    {
                    V s = V(pts[i]) + V(pts[j]), d = V(pts[j]) - V(pts[i]);
                    ld l = s.norm() * d.norm();
                    if (l > 0 && s.cross(d).norm() < 1e-3L * l) colinear = true;
                }
            if (colinear) continue;
            try {
                return ConvexPolygon(pts);
            } catch (std::invalid_argument const &) {
            }
        }
        V c = randomDirection(), o = orthogonal(c), p = c.cross(o).unit();
        std::vector<UnitVector3d> pts;
        for (int i = 0; i < 3; ++i) { ld t = 2 * LPI * i / 3; pts.push_back(toUnit(c * cosl(0.5L) + (o * cosl(t) + p * sinl(t)) * sinl(0.5L))); }
        return ConvexPolygon(pts);
    }

    enum { BOXES = 1, CIRCLES = 2, ELLIPSES = 4, POLYS = 8, COMPOUND = 16, SIMPLE = 15, ANY = 31 };

    std::unique_ptr<Region> region(int kinds, int depth = 2) {
        std::vector<int> k;
        for (int i = 0; i < 5; ++i) if ((kinds >> i) & 1) k.push_back(i);
        std::unique_ptr<Region> r;
        switch (k[g.below(k.size())]) {
            case 0: r.reset(new Box(box())); break;
            case 1: r.reset(new Circle(circle())); break;
            case 2: r.reset(new Ellipse(ellipse())); break;
            case 3: r.reset(new ConvexPolygon(polygon())); break;
            default: {
                int sub = depth > 1 ? kinds : (kinds & SIMPLE);
                if ((sub & SIMPLE) == 0) sub = SIMPLE;
                std::array<std::unique_ptr<Region>, 2> o{{region(sub, depth - 1), region(sub, depth - 1)}};
                bool u = g.coin();
                if (g.coin()) { if (u) r.reset(new UnionRegion(*o[0], *o[1])); else r.reset(new IntersectionRegion(*o[0], *o[1])); }
                else { if (u) r.reset(new UnionRegion(std::move(o))); else r.reset(new IntersectionRegion(std::move(o))); }
                return r;
            }
        }
        learn(*r);
        return r;
    }
    // A region chosen to be near touching `o`: a circle through one of its
    // features, a dilated box, or just a region built on its vertices.
    std::unique_ptr<Region> relatedTo(Region const & o, int kinds, int depth = 2) {
        if ((kinds & CIRCLES) && g.chance(1, 4)) {
            Ref f = makeRef(o);
            if (!f.knownEmpty()) {
                UnitVector3d c = unit();
                std::vector<V> ex;
                f.extremes(V(c), ex);
                if (!ex.empty()) {
                    ld d = angleBetween(V(c), ex[g.below(ex.size())]);
                    double e = g.chance(1, 4) ? 0 : (g.coin() ? 1 : -1) * g.logUniform(-16, -1);
                    return std::unique_ptr<Region>(new Circle(c, Angle(static_cast<double>(d) + e)));
                }
            }
        }
        if ((kinds & BOXES) && g.chance(1, 6)) {
            Box b = o.getBoundingBox();
            double e = (g.coin() ? 1 : -1) * g.logUniform(-16, -1);
            switch (g.below(3)) {
                case 0: break;
                case 1: b.dilateBy(Angle(e), Angle(e)); break;
                default: b.dilateBy(Angle(0), Angle(e)); break;
            }
            return std::unique_ptr<Region>(new Box(b));
        }
        if ((kinds & CIRCLES) && g.chance(1, 10)) {
            Circle c = o.getBoundingCircle();
            if (g.coin()) c.dilateBy(Angle((g.coin() ? 1 : -1) * g.logUniform(-16, -1)));
            if (g.chance(1, 3)) c.complement();
            return std::unique_ptr<Region>(new Circle(c));
        }
        return region(kinds, depth);
    }
};

// Points where membership of a and b is worth comparing: extremes of each
// along the features of the other, vertices, random points, and all of these
// moved a little.
inline std::vector<UnitVector3d> witnesses(Gen & g, Ref const & a, Ref const & b, int nRandom) {
    std::vector<V> pts, da, db;
    a.directions(da);
    b.directions(db);
    if (da.size() > 12) da.resize(12);
    if (db.size() > 12) db.resize(12);
    for (auto & d : da) b.extremes(d, pts);
    for (auto & d : db) a.extremes(d, pts);
    a.vertices(pts);
    b.vertices(pts);
    for (int i = 0; i < nRandom; ++i) { pts.push_back(a.randomPoint(g)); pts.push_back(b.randomPoint(g)); }
    std::vector<UnitVector3d> out;
    std::size_t n = pts.size();
    V ca = a.k == Ref::CIRCLE || a.k == Ref::ELLIPSE ? a.c : a.randomPoint(g), cb = b.k == Ref::CIRCLE || b.k == Ref::ELLIPSE ? b.c : b.randomPoint(g);
    ld mag = g.logUniform(-15, -1);
    for (std::size_t i = 0; i < n; ++i) {
        V const & p = pts[i];
        out.push_back(toUnit(p));
        // moved: towards a fixed point of either region, or away, by a random small angle
        V t = (g.coin() ? ca : cb);
        if (g.coin()) t = -t;
        out.push_back(toUnit(toward(p, t, g.chance(1, 8) ? mag : g.logUniform(-15.5, -2))));
    }
    return out;
}

}  // namespace geo
#endif
