// Reference pixelizations, written from doc/htm.md (and the HTM paper it cites)
// and doc/q3c.md, in extended precision.
#ifndef VERIF_PIX_H_
#define VERIF_PIX_H_

#include <array>
#include <memory>
#include "geo.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"

namespace geo {

struct Pix {
    enum Kind { HTM, Q3C, MQ3C } k = HTM;
    int level = 0;
    Pix(Kind k_, int l) : k(k_), level(l) {}

    int maxLevel() const { return k == HTM ? 24 : 30; }
    std::uint64_t firstRoot() const { return k == HTM ? 8 : (k == Q3C ? 0 : 10); }
    std::uint64_t nRoots() const { return k == HTM ? 8 : 6; }
    std::uint64_t first() const { return firstRoot() << (2 * level); }
    std::uint64_t count() const { return nRoots() << (2 * level); }
    bool valid(std::uint64_t i) const { return i >= first() && i - first() < count(); }
    char const * name() const { return k == HTM ? "HTM" : (k == Q3C ? "Q3C" : "MQ3C"); }

    std::unique_ptr<Pixelization> make() const {
        switch (k) {
            case HTM: return std::unique_ptr<Pixelization>(new HtmPixelization(level));
            case Q3C: return std::unique_ptr<Pixelization>(new Q3cPixelization(level));
            default: return std::unique_ptr<Pixelization>(new Mq3cPixelization(level));
        }
    }

    static V htmRoot(int r, int i) {
        static int const T[8][3][3] = {
            {{1, 0, 0}, {0, 0, -1}, {0, 1, 0}},  {{0, 1, 0}, {0, 0, -1}, {-1, 0, 0}},
            {{-1, 0, 0}, {0, 0, -1}, {0, -1, 0}}, {{0, -1, 0}, {0, 0, -1}, {1, 0, 0}},
            {{1, 0, 0}, {0, 0, 1}, {0, -1, 0}},  {{0, -1, 0}, {0, 0, 1}, {-1, 0, 0}},
            {{-1, 0, 0}, {0, 0, 1}, {0, 1, 0}},  {{0, 1, 0}, {0, 0, 1}, {1, 0, 0}}};
        return V(T[r][i][0], T[r][i][1], T[r][i][2]);
    }
    static void htmChild(V * t, int child) {
        V m12 = (t[1] + t[2]).unit(), m20 = (t[2] + t[0]).unit(), m01 = (t[0] + t[1]).unit();
        switch (child) {
            case 0: t[1] = m01; t[2] = m20; break;
            case 1: t[0] = t[1]; t[1] = m12; t[2] = m01; break;
            case 2: t[0] = t[2]; t[1] = m20; t[2] = m12; break;
            default: t[0] = m12; t[1] = m20; t[2] = m01;
        }
    }
    // The point of face f (0-5) with face coordinates (u, v), unnormalised.
    V faceToCube(int f, ld u, ld v) const {
        if (k == Q3C) switch (f) {
            case 0: return V(-v, u, 1);
            case 1: return V(1, u, v);
            case 2: return V(-u, 1, v);
            case 3: return V(-1, -u, v);
            case 4: return V(u, -1, v);
            default: return V(v, u, -1);
        }
        switch (f) {
            case 0: return V(u, v, -1);
            case 1: return V(1, u, v);
            case 2: return V(-v, 1, u);
            case 3: return V(-u, -v, 1);
            case 4: return V(-1, -u, -v);
            default: return V(v, -1, -u);
        }
    }
    static ld warp(ld x) { return x * (4 - fabsl(x)) / 3; }
    static ld unwarp(ld y) { ld r = 2 - sqrtl(4 - 3 * fabsl(y)); return y < 0 ? -r : r; }

    static std::uint64_t morton(std::uint32_t s, std::uint32_t t) {
        std::uint64_t z = 0;
        for (int b = 31; b >= 0; --b) z = (z << 2) | (((t >> b) & 1) << 1) | ((s >> b) & 1);
        return z;
    }
    // The classical iterative Hilbert curve (d2xy / xy2d).
    static std::uint64_t hilbert(int m, std::uint32_t x, std::uint32_t y) {
        std::uint64_t d = 0;
        std::uint32_t n = m ? (1u << m) : 1;
        for (std::uint32_t s = n / 2; s > 0; s /= 2) {
            std::uint32_t rx = (x & s) > 0, ry = (y & s) > 0;
            d += static_cast<std::uint64_t>(s) * s * ((3 * rx) ^ ry);
            x &= s - 1; y &= s - 1;
            if (ry == 0) {
                if (rx == 1) { x = s - 1 - x; y = s - 1 - y; }
                std::swap(x, y);
            }
        }
        return d;
    }
    static void hilbertInverse(int m, std::uint64_t d, std::uint32_t & x, std::uint32_t & y) {
        x = y = 0;
        for (int b = 0; b < m; ++b) {
            std::uint32_t s = 1u << b;
            std::uint32_t rx = 1 & (d / 2), ry = 1 & (d ^ rx);
            if (ry == 0) {
                if (rx == 1) { x = s - 1 - x; y = s - 1 - y; }
                std::swap(x, y);
            }
            x += s * rx;
            y += s * ry;
            d /= 4;
        }
    }
    void grid(std::uint64_t i, int & face, std::uint32_t & s, std::uint32_t & t) const {
        face = static_cast<int>((i >> (2 * level)) - firstRoot());
        std::uint64_t z = i & ((static_cast<std::uint64_t>(1) << (2 * level)) - 1);
        if (k == Q3C) {
            s = t = 0;
            for (int b = 0; b < level; ++b) { s |= ((z >> (2 * b)) & 1) << b; t |= ((z >> (2 * b + 1)) & 1) << b; }
        } else hilbertInverse(level, z, s, t);
    }

    // Vertices, counter-clockwise.
    std::vector<V> vertices(std::uint64_t i) const {
        std::vector<V> out;
        if (k == HTM) {
            V t[3];
            int r = static_cast<int>((i >> (2 * level)) & 7);
            for (int j = 0; j < 3; ++j) t[j] = htmRoot(r, j);
            for (int l = level - 1; l >= 0; --l) htmChild(t, (i >> (2 * l)) & 3);
            out.assign(t, t + 3);
            return out;
        }
        int f; std::uint32_t s, t;
        grid(i, f, s, t);
        ld n = ldexpl(1, level);
        ld u[2] = {2 * s / n - 1, 2 * (s + 1.0L) / n - 1}, v[2] = {2 * t / n - 1, 2 * (t + 1.0L) / n - 1};
        if (k == MQ3C) for (int j = 0; j < 2; ++j) { u[j] = unwarp(u[j]); v[j] = unwarp(v[j]); }
        out = {faceToCube(f, u[0], v[0]).unit(), faceToCube(f, u[1], v[0]).unit(), faceToCube(f, u[1], v[1]).unit(), faceToCube(f, u[0], v[1]).unit()};
        if (robustCross(out[0], out[1]).dot(out[2]) < 0) std::swap(out[1], out[3]);
        return out;
    }

    // The index of v according to the reference; `margin` is the distance to
    // the pixel's nearest edge.
    std::uint64_t index(V const & v, ld & margin) const {
        std::uint64_t i;
        if (k == HTM) {
            int r = -1;
            for (int c = 0; c < 8 && r < 0; ++c) {
                V t[3] = {htmRoot(c, 0), htmRoot(c, 1), htmRoot(c, 2)};
                if (v.dot(t[0]) >= 0 && v.dot(t[1]) >= 0 && v.dot(t[2]) >= 0) r = c;
            }
            V t[3] = {htmRoot(r, 0), htmRoot(r, 1), htmRoot(r, 2)};
            i = 8 + r;
            for (int l = 0; l < level; ++l) {
                V m12 = (t[1] + t[2]).unit(), m20 = (t[2] + t[0]).unit(), m01 = (t[0] + t[1]).unit();
                int c = robustCross(m01, m20).dot(v) >= 0 ? 0 : robustCross(m12, m01).dot(v) >= 0 ? 1 : robustCross(m20, m12).dot(v) >= 0 ? 2 : 3;
                htmChild(t, c);
                i = i * 4 + c;
            }
        } else {
            int f = 0;
            ld best = -2;
            for (int c = 0; c < 6; ++c) { ld d = faceToCube(c, 0, 0).dot(v); if (d > best) { best = d; f = c; } }
            V e = faceToCube(f, 0, 0), eu = faceToCube(f, 1, 0) - e, ev = faceToCube(f, 0, 1) - e;
            ld u = v.dot(eu) / best, w = v.dot(ev) / best;
            if (k == MQ3C) { u = warp(u); w = warp(w); }
            ld n = ldexpl(1, level);
            auto cell = [&](ld x) { ld y = floorl((x + 1) / 2 * n); return static_cast<std::uint32_t>(std::max<ld>(0, std::min<ld>(n - 1, y))); };
            std::uint32_t s = cell(u), t = cell(w);
            i = ((firstRoot() + f) << (2 * level)) | (k == Q3C ? morton(s, t) : hilbert(level, s, t));
        }
        std::vector<V> p = vertices(i);
        margin = LPI;
        for (std::size_t j = 0; j < p.size(); ++j) {
            V n = robustCross(p[j], p[(j + 1) % p.size()]).unit();
            margin = std::min(margin, n.dot(v));
        }
        return i;
    }

    std::string nameOf(std::uint64_t i) const {
        std::string s;
        std::uint64_t root = (i >> (2 * level)) - firstRoot();
        if (k == HTM) { s = root < 4 ? "S" : "N"; s += static_cast<char>('0' + root % 4); }
        else {
            V n = faceToCube(static_cast<int>(root), 0, 0);
            s += (n.x + n.y + n.z > 0) ? "+" : "-";
            s += n.x != 0 ? "X" : (n.y != 0 ? "Y" : "Z");
        }
        for (int l = level - 1; l >= 0; --l) s += static_cast<char>('0' + ((i >> (2 * l)) & 3));
        return s;
    }

    // About the size of a pixel, in radians.
    // (ldexpl, because clang 18 miscompiles a long double constant divided by 1 << level.)
    ld size() const { return ldexpl(1.5L, -level); }
};

// The area of a convex spherical polygon, by Van Oosterom and Strackee's formula.
inline ld areaOf(std::vector<V> const & p) {
    ld a = 0;
    for (std::size_t i = 1; i + 1 < p.size(); ++i) {
        V const & x = p[0], & y = p[i], & z = p[i + 1];
        // the triple product from differences, for accuracy when the triangle is small
        ld num = x.dot((y - x).cross(z - x));
        a += 2 * atan2l(num, 1 + x.dot(y) + y.dot(z) + z.dot(x));
    }
    return a;
}

inline Pix anyPix(Gen & g, int maxLevel = 99) {
    Pix p(static_cast<Pix::Kind>(g.below(3)), 0);
    p.level = static_cast<int>(g.below(std::min(maxLevel, p.maxLevel()) + 1));
    if (g.chance(1, 12)) p.level = std::min(maxLevel, p.maxLevel());
    return p;
}
inline std::uint64_t anyIndex(Gen & g, Pix const & p) {
    // a root and a path, or path of repeated digits (corners), or the ends
    std::uint64_t i = p.firstRoot() + g.below(p.nRoots());
    int mode = static_cast<int>(g.below(4));
    int d = static_cast<int>(g.below(4)), from = mode == 1 ? static_cast<int>(g.below(p.level + 1)) : 0;
    for (int l = 0; l < p.level; ++l) i = i * 4 + ((mode == 2 || (mode == 1 && l >= from)) ? d : g.below(4));
    return i;
}
inline std::vector<V> verticesOf(Region const & r) {
    std::vector<V> out;
    auto p = dynamic_cast<ConvexPolygon const *>(&r);
    if (!p) FAILWITH("a pixel is not a polygon");
    for (auto & v : p->getVertices()) out.push_back(V(v));
    return out;
}
inline UnitVector3d pointOfPixels(Gen & g, World & w, Pix const & p) {
    if (g.chance(1, 3)) return w.unit();
    std::vector<V> vs = p.vertices(anyIndex(g, p));
    V a = vs[g.below(vs.size())], b = vs[g.below(vs.size())];
    V q = g.coin() ? a : (a + b).unit();
    if (g.chance(1, 4)) q = (a * g.unit() + b * (1e-3L + g.unit())).unit();
    if (g.coin()) q = toward(q, w.randomDirection(), g.logUniform(-16, -1) * static_cast<double>(g.coin() ? p.size() : 1));
    return toUnit(q);
}

}  // namespace geo
#endif
