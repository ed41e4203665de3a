// Exact sign of the determinant of three double vectors (arbitrary precision integers).
#ifndef VERIF_EXACT_H_
#define VERIF_EXACT_H_
#include <boost/multiprecision/cpp_int.hpp>
#include <cmath>
#include "lsst/sphgeom/Vector3d.h"

namespace exact {
typedef boost::multiprecision::cpp_int Z;
// x * 2^1126 as an integer would be huge for ordinary values, so the three
// vectors are scaled by the least exponent seen in each of them.
inline void scaled(lsst::sphgeom::Vector3d const & v, Z out[3]) {
    int e[3], least = 1 << 30;
    std::int64_t m[3];
    for (int i = 0; i < 3; ++i) {
        double f = std::frexp(v(i), &e[i]);
        m[i] = static_cast<std::int64_t>(std::ldexp(f, 53));
        e[i] -= 53;
        if (m[i] != 0 && e[i] < least) least = e[i];
    }
    for (int i = 0; i < 3; ++i) { out[i] = m[i]; if (m[i] != 0) out[i] <<= (e[i] - least); }
}
inline int det(lsst::sphgeom::Vector3d const & a, lsst::sphgeom::Vector3d const & b, lsst::sphgeom::Vector3d const & c) {
    Z p[3], q[3], r[3];
    scaled(a, p); scaled(b, q); scaled(c, r);
    Z d = p[0] * (q[1] * r[2] - q[2] * r[1]) - p[1] * (q[0] * r[2] - q[2] * r[0]) + p[2] * (q[0] * r[1] - q[1] * r[0]);
    return d < 0 ? -1 : (d > 0 ? 1 : 0);
}
}  // namespace exact
#endif
