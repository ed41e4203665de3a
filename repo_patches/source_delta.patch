From 892d13faf905c960d68b784bcfa6cdb3c0f24273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 01/46] fix: strip leading zero digits of the difference in
 BigInteger subtraction

_sub looked for leading zeroes in its first input rather than in its output,
so that (unless the two alias) the result could keep leading zero digits.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 99e345c..2c7fbfc 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -103,7 +103,7 @@ unsigned _sub(std::uint32_t * const m,
     // If we subtracted anything from the most significant digit in m1, strip
     // any leading zeroes that may have been introduced.
     if (i == size1) {
-        while (m1[i - 1] == 0) { --i; }
+        while (m[i - 1] == 0) { --i; }
         return i;
     }
     // Otherwise, copy the remaining digits from m1 to m.
-- 
2.43.0


From 53db90b8df78d366740fe03b4b11d83f90b11edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 02/46] fix: zero the right digits in BigInteger::multiplyPow2

Shifts by 32 or more that are not a multiple of 32 cleared digits 1..z
instead of 0..z-1.
---
 src/BigInteger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index 2c7fbfc..b533c25 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -246,7 +246,7 @@ BigInteger & BigInteger::multiplyPow2(unsigned n) {
         }
         _digits[z] = high << s;
         for (unsigned i = z; i != 0; --i) {
-            _digits[i] = 0;
+            _digits[i - 1] = 0;
         }
         _size = (_digits[size] == 0) ? size: size + 1;
     }
-- 
2.43.0


From 731654459f5969ce3ae020a9ca63c9ecd586cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 03/46] fix: correct in-place products in BigInteger::multiply

The digits of the right operand were overwritten while still needed when the
integer being multiplied had at least 2 digits but fewer than the other
operand, or was the other operand.
---
 src/BigInteger.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/BigInteger.cc b/src/BigInteger.cc
index b533c25..b8a0d29 100644
--- a/src/BigInteger.cc
+++ b/src/BigInteger.cc
@@ -33,6 +33,7 @@
 #include "lsst/sphgeom/BigInteger.h"
 
 #include <algorithm>
+#include <vector>
 
 
 namespace lsst {
@@ -114,8 +115,8 @@ unsigned _sub(std::uint32_t * const m,
 }
 
 // `_mul` computes the product of m1 and m2 and stores the result in m,
-// which may equal either m1 or m2. It assumes that m1 has at least as many
-// digits as m2, and returns the the number of digits in the product.
+// which may equal m1 but not m2. It returns the the number of digits in the
+// product.
 unsigned _mul(std::uint32_t * const m,
               std::uint32_t const * const m1,
               std::uint32_t const * const m2,
@@ -126,9 +127,9 @@ unsigned _mul(std::uint32_t * const m,
     // digit counts. A requirement for anything fancier involves enough
     // complexity that switching to GMP is definitely warranted.
     //
-    // The only small subtlety here is that because m is allowed to alias m1
-    // or m2, we compute products of m2 from most to least significant digit of
-    // m1. This way no as yet unprocessed input digits are overwritten.
+    // The only small subtlety here is that because m is allowed to alias m1,
+    // we compute products of m2 from most to least significant digit of m1.
+    // This way no as yet unprocessed input digits are overwritten.
     unsigned const size = size1 + size2;
     for (unsigned i = size1; i < size; ++i) {
         m[i] = 0;
@@ -260,10 +261,11 @@ BigInteger & BigInteger::multiply(BigInteger const & b) {
         return *this;
     }
     _checkCapacity(_size + b._size);
-    if (_size >= b._size) {
-        _size = _mul(_digits, _digits, b._digits, _size, b._size);
+    if (this == &b) {
+        std::vector<std::uint32_t> const digits(_digits, _digits + _size);
+        _size = _mul(_digits, _digits, digits.data(), _size, _size);
     } else {
-        _size = _mul(_digits, b._digits, _digits, b._size, _size);
+        _size = _mul(_digits, _digits, b._digits, _size, b._size);
     }
     return *this;
 }
-- 
2.43.0


From 5c443c5d37ca40e5e1ee2951181d8bfa587c9850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:45 +0000
Subject: [PATCH 04/46] fix: avoid signed overflow in BigInteger::setTo for the
 most negative integer

---
 include/lsst/sphgeom/BigInteger.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lsst/sphgeom/BigInteger.h b/include/lsst/sphgeom/BigInteger.h
index b64ea99..3450285 100644
--- a/include/lsst/sphgeom/BigInteger.h
+++ b/include/lsst/sphgeom/BigInteger.h
@@ -89,7 +89,8 @@ public:
     /// `setTo` sets this integer to the given signed 64 bit integer value.
     void setTo(std::int64_t x) {
         if (x < 0) {
-            setTo(static_cast<std::uint64_t>(-x));
+            // Negating as unsigned is well defined for the most negative x too.
+            setTo(-static_cast<std::uint64_t>(x));
             _sign = -1;
         } else {
             setTo(static_cast<std::uint64_t>(x));
-- 
2.43.0


From ee730b7b53d4898a3b604886bb653811d0f77ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 05/46] fix: subtract in RangeSet iterator operator-(n)

Subtracting an offset from a range iterator added it instead.
---
 include/lsst/sphgeom/RangeSet.h | 2 +-
 src/RangeSet.cc                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/RangeSet.h b/include/lsst/sphgeom/RangeSet.h
index e0e7ac4..ea173bc 100644
--- a/include/lsst/sphgeom/RangeSet.h
+++ b/include/lsst/sphgeom/RangeSet.h
@@ -149,7 +149,7 @@ public:
         Iterator operator--(int) { Iterator i(*this); p -= 2; return i; }
 
         Iterator operator+(ptrdiff_t n) const { return Iterator(p + 2 * n); }
-        Iterator operator-(ptrdiff_t n) const { return Iterator(p + 2 * n); }
+        Iterator operator-(ptrdiff_t n) const { return Iterator(p - 2 * n); }
 
         Iterator & operator+=(ptrdiff_t n) { p += 2 * n; return *this; }
         Iterator & operator-=(ptrdiff_t n) { p -= 2 * n; return *this; }
diff --git a/src/RangeSet.cc b/src/RangeSet.cc
index 30b8f02..c64a13e 100644
--- a/src/RangeSet.cc
+++ b/src/RangeSet.cc
@@ -70,7 +70,7 @@ struct RangeIter {
     RangeIter operator--(int) { RangeIter i(*this); ptr -= 2; return i; }
 
     RangeIter operator+(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
-    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr + 2 * n); }
+    RangeIter operator-(ptrdiff_t n) const { return RangeIter(ptr - 2 * n); }
 
     RangeIter & operator+=(ptrdiff_t n) { ptr += 2 * n; return *this; }
     RangeIter & operator-=(ptrdiff_t n) { ptr -= 2 * n; return *this; }
-- 
2.43.0


From c36f7eab6b61c61ac1fb58e80786b14ec2c6cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 06/46] fix: make the full ellipse contain every point

Ellipse::contains multiplied infinite tangents by zero coordinates for points
on the axes of the full ellipse, and returned false for them.
---
 src/Ellipse.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 31cfef8..689b1c3 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -188,7 +188,9 @@ bool Ellipse::contains(UnitVector3d const & v) const {
     double z = u.z() + scz;
     double d = (x * x + y * y) - z * z;
     if (_a.asRadians() > 0.0) {
-        return z >= 0.0 || d >= 0.0;
+        // The semi-axis tangents of the full ellipse are infinite, in which
+        // case d can be NaN and v must be inside.
+        return z >= 0.0 || !(d < 0.0);
     } else {
         return z >= 0.0 && d <= 0.0;
     }
-- 
2.43.0


From 534c18e8e7ef5a7fbf14117aa79327f352a4c9e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:36 +0000
Subject: [PATCH 07/46] fix: compute ellipse semi-axis and focal angles
 accurately for small ellipses

acos(cos(alpha) / cos(gamma)) loses all precision for angles below about 1e-8
radians, so that e.g. Ellipse(f1, f2, alpha) collapsed to a segment.
---
 src/Ellipse.cc | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 689b1c3..3616b69 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -46,6 +46,22 @@
 namespace lsst {
 namespace sphgeom {
 
+namespace {
+
+// `acosOfRatio` returns acos(cos(a) / cos(b)), where cos(a)/cos(b) is clamped
+// to lie in the interval [-1, 1]. It uses the identity
+//
+//     1 - cos(a)/cos(b) = 2 sin((a + b)/2) sin((a - b)/2) / cos(b)
+//
+// and the half-angle formula for sines, because 1 - cos(x) cannot be computed
+// accurately from cos(x) when x is small.
+double acosOfRatio(Angle a, Angle b) {
+    double s2 = sin(0.5 * (a + b)) * sin(0.5 * (a - b)) / cos(b);
+    return 2.0 * std::asin(std::sqrt(std::min(1.0, std::max(0.0, s2))));
+}
+
+} // unnamed namespace
+
 Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha) :
     _a(alpha.asRadians() - 0.5 * PI)
 {
@@ -94,8 +110,7 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
                   b1.x(), b1.y(), b1.z(),
                   b2.x(), b2.y(), b2.z());
     // Compute _b.
-    double r = std::min(1.0, std::max(-1.0, cos(alpha) / cos(_gamma)));
-    _b = Angle(std::acos(r) - 0.5 * PI);
+    _b = Angle(acosOfRatio(alpha, _gamma) - 0.5 * PI);
     if (_a.asRadians() <= 0.0 && _b > _a) {
         _b = _a;
     } else if (_a.asRadians() > 0.0 && _b < _a) {
@@ -158,8 +173,7 @@ Ellipse::Ellipse(UnitVector3d const & center,
                   center.x(), center.y(), center.z());
     _a = alpha - Angle(0.5 * PI);
     _b = beta - Angle(0.5 * PI);
-    double d = std::min(1.0, std::max(-1.0, cos(alpha) / cos(beta)));
-    _gamma = Angle(std::acos(d));
+    _gamma = Angle(acosOfRatio(alpha, beta));
     _tana = std::fabs(tan(_a));
     _tanb = std::fabs(tan(_b));
 }
-- 
2.43.0


From 1b96ef64ef20354c9a2d6ab898225e336ff4832d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:09 +0000
Subject: [PATCH 08/46] fix: make the transform of an ellipse with close foci
 orthogonal

The difference of the foci was used as a basis vector, but is orthogonal to
their sum only up to the rounding errors of the foci divided by their distance.
---
 src/Ellipse.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 3616b69..0dce39e 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -103,9 +103,12 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
     Vector3d b0 = f1 - f2;
     Vector3d b2 = f1 + f2;
     Vector3d b1 = b0.cross(b2);
-    b0.normalize();
     b1.normalize();
     b2.normalize();
+    // f1 and f2 have unit norm only up to rounding, so if they are close
+    // together f1 - f2 need not be orthogonal to f1 + f2. Recompute it.
+    b0 = b2.cross(b1);
+    b0.normalize();
     _S = Matrix3d(b0.x(), b0.y(), b0.z(),
                   b1.x(), b1.y(), b1.z(),
                   b2.x(), b2.y(), b2.z());
-- 
2.43.0


From 8a59ac242abc390c84ed8abba86e8752392a682b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:25 +0000
Subject: [PATCH 09/46] fix: bound polygons with an edge through or next to a
 pole

---
 src/ConvexPolygonImpl.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index ad57d03..c61f680 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -96,6 +96,7 @@ Box boundingBox(VertexIterator const begin, VertexIterator const end) {
     VertexIterator j = begin;
     bool haveCW = false;
     bool haveCCW = false;
+    bool allLongitudes = false;
     // Compute the bounding box for each vertex. When converting a Vector3d
     // to a LonLat, the relative error on the longitude is about 4*2^-53,
     // and the relative error on the latitude is about twice that (assuming
@@ -115,6 +116,15 @@ Box boundingBox(VertexIterator const begin, VertexIterator const end) {
             haveCCW = haveCCW || (o > 0);
             haveCW = haveCW || (o < 0);
         }
+        // If the vertex longitudes differ by very nearly π, then the edge
+        // passes so close to a pole that the shorter of the two longitude
+        // intervals between the vertices need not be the one spanned by
+        // the edge. The longitude of a vertex at a pole has no meaning, so
+        // ignore edges with such vertices.
+        if ((i->x() != 0.0 || i->y() != 0.0) && (j->x() != 0.0 || j->y() != 0.0)) {
+            Angle d = LonLat(*i).getLon().getAngleTo(p.getLon()) - Angle(PI);
+            allLongitudes = allLongitudes || abs(d) <= 4.0 * eps;
+        }
         // Compute the plane normal for edge i, j.
         Vector3d n = (*i).robustCross(*j);
         // Compute a vector v with positive z component that lies on both the
@@ -151,6 +161,8 @@ Box boundingBox(VertexIterator const begin, VertexIterator const end) {
     } else if (!haveCCW) {
         Box southPole(Box::allLongitudes(), AngleInterval(Angle(-0.5 * PI)));
         bbox.expandTo(southPole);
+    } else if (allLongitudes) {
+        bbox = Box(Box::allLongitudes(), bbox.getLat());
     }
     return bbox;
 }
-- 
2.43.0


From 04d10b441f6e6d8849d0f86106e8b49c8072ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:34 +0000
Subject: [PATCH 10/46] fix: compute a centroid for polygons whose area
 vanishes in rounding error

---
 src/ConvexPolygonImpl.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index c61f680..8a5e230 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -60,6 +60,8 @@ UnitVector3d centroid(VertexIterator const begin, VertexIterator const end) {
     // John E. Brock
     // 1974, Naval Postgraduate School, Monterey Calif.
     Vector3d cm;
+    Vector3d vertexSum;
+    double perimeter = 0.0;
     VertexIterator i = std::prev(end);
     VertexIterator j = begin;
     for (; j != end; i = j, ++j) {
@@ -68,6 +70,14 @@ UnitVector3d centroid(VertexIterator const begin, VertexIterator const end) {
         double c = (*i).dot(*j);
         double a = (s == 0.0 && c == 0.0) ? 0.0 : std::atan2(s, c);
         cm += v * a;
+        vertexSum += *j;
+        perimeter += a;
+    }
+    // The norm of cm is proportional to the polygon area, so for a sliver
+    // there may be nothing left of it but rounding error. In that case any
+    // point between the vertices is as good.
+    if (cm.getNorm() <= 1.0e-15 * perimeter) {
+        return UnitVector3d(vertexSum);
     }
     return UnitVector3d(cm);
 }
-- 
2.43.0


From ae7f33b2469472790dbbea4531fb155cb5814a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 11/46] fix: expand NormalizedAngleInterval correctly when both
 or neither interval wrap

---
 src/NormalizedAngleInterval.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NormalizedAngleInterval.cc b/src/NormalizedAngleInterval.cc
index 7bd2433..2d3bc52 100644
--- a/src/NormalizedAngleInterval.cc
+++ b/src/NormalizedAngleInterval.cc
@@ -217,7 +217,7 @@ NormalizedAngleInterval & NormalizedAngleInterval::expandTo(
                 // Both endpoints of x are in this interval. This interval
                 // either contains x, in which case this interval is the
                 // desired union, or the union is the full interval.
-                if (wraps() != x.wraps()) {
+                if (!contains(x)) {
                     *this = full();
                 }
             } else {
-- 
2.43.0


From bd4911f819004b4187e89e678f7ce9ee772bf716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 12/46] fix: compute accurate 3-d bounding boxes for circles
 centered near an axis

---
 src/Circle.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 13f3fdf..8136cbb 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -256,7 +256,10 @@ Box3d Circle::getBoundingBox3d() const {
     double c = cos(_openingAngle);
     for (int i = 0; i < 3; ++i) {
         double ci = _center(i);
-        double di = std::sqrt(1.0 - ci * ci);
+        // Note that √(1 - cᵢ²) is inaccurate when cᵢ is close to ±1.
+        double cj = _center((i + 1) % 3);
+        double ck = _center((i + 2) % 3);
+        double di = std::sqrt(cj * cj + ck * ck);
         double bmin = 1.0, bmax = -1.0;
         if (2.0 - 2.0 * ci <= _squaredChordLength) {
             bmax = 1.0;
-- 
2.43.0


From 8cf77a2c43bfbce6ce4b51b1f8163c5a5df7a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:28 +0000
Subject: [PATCH 13/46] fix: compute accurate 3-d bounding boxes for polygon
 edges near a coordinate plane

---
 src/ConvexPolygonImpl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ConvexPolygonImpl.h b/src/ConvexPolygonImpl.h
index 8a5e230..b7bd1c2 100644
--- a/src/ConvexPolygonImpl.h
+++ b/src/ConvexPolygonImpl.h
@@ -216,7 +216,10 @@ Box3d boundingBox3d(VertexIterator const begin, VertexIterator const end) {
         UnitVector3d n(j->robustCross(*k));
         for (int i = 0; i < 3; ++i) {
             double ni = n(i);
-            double d = std::fabs(1.0 - ni * ni);
+            // Note that 1 - nᵢ² is inaccurate when nᵢ is close to ±1.
+            double nj = n((i + 1) % 3);
+            double nk = n((i + 2) % 3);
+            double d = nj * nj + nk * nk;
             if (d > 0.0) {
                 Vector3d e(i == 0 ? -d : n.x() * ni,
                            i == 1 ? -d : n.y() * ni,
-- 
2.43.0


From 5e35735dd41058addf384b559db5485b2cb2ed90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 14/46] fix: expand Circle correctly when one circle narrowly
 contains the other

---
 src/Circle.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 8136cbb..2338763 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -169,8 +169,12 @@ Circle & Circle::expandTo(Circle const & x) {
         *this = x;
         return *this;
     }
-    // The circles intersect or are disjoint.
-    Angle o = 0.5 * (cc + _openingAngle + x._openingAngle);
+    // The circles intersect or are disjoint, or one contains the other but
+    // does so too narrowly for that to have been detected above. In the latter
+    // case, the opening angle and center of the result are those of the larger
+    // circle.
+    Angle o = std::max(0.5 * (cc + _openingAngle + x._openingAngle),
+                       std::max(_openingAngle, x._openingAngle));
     if (o + 2.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
         *this = full();
         return *this;
@@ -181,7 +185,7 @@ Circle & Circle::expandTo(Circle const & x) {
     // with normal n that span from _center.rotatedAround(n, -_openingAngle)
     // to x._center.rotatedAround(n, x._openingAngle). The MBC center is the
     // midpoint of this interval.
-    Angle r = o - _openingAngle;
+    Angle r = std::min<Angle>(o - _openingAngle, cc);
     // Rotate _center by angle r around n to obtain the MBC center. This is
     // done using Rodriques' formula, simplified by taking advantage of the
     // orthogonality of _center and n.
-- 
2.43.0


From 769a82408920e9d914fce82df2b4a3595ede5206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:23 +0000
Subject: [PATCH 15/46] fix: expand Circle to full when too large for its
 squared chord length to represent

---
 src/Circle.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Circle.cc b/src/Circle.cc
index 2338763..d23dbd2 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -175,7 +175,9 @@ Circle & Circle::expandTo(Circle const & x) {
     // circle.
     Angle o = std::max(0.5 * (cc + _openingAngle + x._openingAngle),
                        std::max(_openingAngle, x._openingAngle));
-    if (o + 2.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
+    // The squared chord length of a nearly full circle cannot represent its
+    // opening angle to better than ~ 4 * MAX_ASIN_ERROR.
+    if (o + 8.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
         *this = full();
         return *this;
     }
-- 
2.43.0


From 2f9ee71b895704af5b1dbf004163d67eb820dc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 16/46] fix: keep the bounding circle of an ellipse alive while
 finding its pixels

---
 src/PixelFinder.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 718d184..6351d78 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -161,8 +161,10 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
-        Finder<Circle, InteriorOnly> find(
-            s, ellipse->getBoundingCircle(), level, maxRanges);
+        // The finder holds a pointer to the region it is given, so the circle
+        // must outlive it.
+        Circle const circle = ellipse->getBoundingCircle();
+        Finder<Circle, InteriorOnly> find(s, circle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
         Finder<Box, InteriorOnly> find(s, *box, level, maxRanges);
-- 
2.43.0


From 312d895924576a742bc4d6a93b0c689c7306d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:40 +0000
Subject: [PATCH 17/46] fix: search for the interior pixels of an ellipse in a
 circle it contains

---
 src/PixelFinder.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index 6351d78..cfbad94 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -37,6 +37,7 @@
 #include "lsst/sphgeom/CompoundRegion.h"
 #include "ConvexPolygonImpl.h"
 
+#include <algorithm>
 #include <typeinfo>
 
 namespace lsst {
@@ -161,9 +162,18 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         Finder<Circle, InteriorOnly> find(s, *circle, level, maxRanges);
         find();
     } else if (auto ellipse = dynamic_cast<Ellipse const *>(&r)) {
+        // Approximate the ellipse with a circle that contains it when looking
+        // for intersecting pixels, and with a circle that it contains when
+        // looking for interior pixels.
+        //
         // The finder holds a pointer to the region it is given, so the circle
         // must outlive it.
-        Circle const circle = ellipse->getBoundingCircle();
+        Circle circle = ellipse->getBoundingCircle();
+        if (InteriorOnly && !ellipse->isFull()) {
+            circle = Circle(ellipse->getCenter(),
+                            std::min(ellipse->getAlpha(), ellipse->getBeta()) -
+                            2.0 * Angle(MAX_ASIN_ERROR));
+        }
         Finder<Circle, InteriorOnly> find(s, circle, level, maxRanges);
         find();
     } else if (auto box = dynamic_cast<Box const *>(&r)) {
-- 
2.43.0


From b0a42c3d66958d7185ddc43d95c7dfff1feef1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 18/46] fix: visit all root pixels when simplifying an envelope
 past the root level

---
 src/PixelFinder.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index cfbad94..cf45aae 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -91,10 +91,12 @@ public:
                uint64_t index,
                int level)
     {
-        if (level > _level) {
+        if (level > _level && level != 0) {
             // Nothing to do - the subdivision level has been reduced
             // or a pixel that completely contains the search region
-            // has been found.
+            // has been found. Root pixels are always visited: simplification
+            // may proceed beyond the root level, but will not have added
+            // every root pixel.
             return;
         }
         // Determine the relationship between the pixel and the search region.
@@ -108,7 +110,7 @@ public:
             // the search region.
             _insert(index, level);
             return;
-        } else if (level == _level) {
+        } else if (level >= _level) {
             // The tree traversal has reached a leaf.
             if (!InteriorOnly) {
                 _insert(index, level);
-- 
2.43.0


From 2938af5b443d8bce6cffd2f2a27dffe68be5269c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 19/46] fix: remove invalid indexes from Q3C and modified Q3C
 envelopes

---
 src/Mq3cPixelization.cc | 5 ++++-
 src/Q3cPixelization.cc  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Mq3cPixelization.cc b/src/Mq3cPixelization.cc
index 269c990..68bf4a3 100644
--- a/src/Mq3cPixelization.cc
+++ b/src/Mq3cPixelization.cc
@@ -343,7 +343,10 @@ std::unique_ptr<Region> Mq3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Mq3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level);
+    // Simplification past the root level rounds ranges outwards to multiples
+    // of 4 or more cube faces, and can therefore add invalid indexes.
+    return detail::findPixels<Mq3cPixelFinder, false>(r, maxRanges, _level)
+        .intersection(universe());
 }
 
 RangeSet Mq3cPixelization::_interior(Region const & r, size_t maxRanges) const {
diff --git a/src/Q3cPixelization.cc b/src/Q3cPixelization.cc
index 686b824..4f39c3c 100644
--- a/src/Q3cPixelization.cc
+++ b/src/Q3cPixelization.cc
@@ -341,7 +341,10 @@ std::unique_ptr<Region> Q3cPixelization::pixel(std::uint64_t i) const {
 #endif
 
 RangeSet Q3cPixelization::_envelope(Region const & r, size_t maxRanges) const {
-    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level);
+    // Simplification past the root level rounds ranges outwards to multiples
+    // of 4 or more cube faces, and can therefore add invalid indexes.
+    return detail::findPixels<Q3cPixelFinder, false>(r, maxRanges, _level)
+        .intersection(universe());
 }
 
 RangeSet Q3cPixelization::_interior(Region const & r, size_t maxRanges) const {
-- 
2.43.0


From 57c83ee9ed39ab900b05adadc48f6ae4844d5175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:55 +0000
Subject: [PATCH 20/46] fix: apply the maximum range count to the pixels of
 compound regions

---
 src/PixelFinder.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/PixelFinder.h b/src/PixelFinder.h
index cf45aae..d566571 100644
--- a/src/PixelFinder.h
+++ b/src/PixelFinder.h
@@ -152,6 +152,25 @@ private:
 };
 
 
+// `limitRanges` simplifies `s` until it has at most `maxRanges` ranges, by
+// expanding ranges outwards, or by shrinking them inwards if `InteriorOnly`
+// is true. No limit applies if `maxRanges` is zero.
+template <bool InteriorOnly>
+void limitRanges(RangeSet & s, size_t maxRanges) {
+    if (maxRanges == 0) {
+        return;
+    }
+    for (std::uint32_t shift = 2; s.size() > maxRanges; shift += 2) {
+        if (InteriorOnly) {
+            s.complement();
+        }
+        s.simplify(shift);
+        if (InteriorOnly) {
+            s.complement();
+        }
+    }
+}
+
 // `findPixels` implements pixel-finding for an arbitrary Region, given a
 // PixelFinder subclass for a specific pixelization.
 template <
@@ -191,12 +210,14 @@ RangeSet findPixels(Region const & r, size_t maxRanges, int level) {
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.join(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else if (auto intersection_region = dynamic_cast<IntersectionRegion const *>(&r)) {
         Region const &region1 = intersection_region->getOperand(0);
         Region const &region2 = intersection_region->getOperand(1);
         auto rs1 = findPixels<Finder, InteriorOnly>(region1, maxRanges, level);
         auto rs2 = findPixels<Finder, InteriorOnly>(region2, maxRanges, level);
         s = rs1.intersection(rs2);
+        limitRanges<InteriorOnly>(s, maxRanges);
     } else {
         throw std::runtime_error(std::string("PixelFinder: Unsupported type ") + typeid(r).name());
     }
-- 
2.43.0


From e9fe1fdb37f8ba308ab5f07c70548d70b7c9e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:50 +0000
Subject: [PATCH 21/46] fix: do not report thin ellipses as empty, or those
 with thin holes as full

---
 src/Ellipse.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 0dce39e..c22ed7b 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -177,6 +177,17 @@ Ellipse::Ellipse(UnitVector3d const & center,
     _a = alpha - Angle(0.5 * PI);
     _b = beta - Angle(0.5 * PI);
     _gamma = Angle(acosOfRatio(alpha, beta));
+    // The semi-major axis angle of this ellipse, or of its complement if it is
+    // bigger than a hemisphere, exceeds _gamma. Keep rounding error in _a from
+    // making the ellipse look empty or full.
+    Angle const limit = Angle(0.5 * PI) - Angle(std::fabs(_a.asRadians()));
+    if (_gamma >= limit) {
+        if (beta.asRadians() == 0.0 || beta.asRadians() == PI) {
+            _gamma = limit;
+        } else {
+            _gamma = Angle(std::max(0.0, std::nextafter(limit.asRadians(), 0.0)));
+        }
+    }
     _tana = std::fabs(tan(_a));
     _tanb = std::fabs(tan(_b));
 }
-- 
2.43.0


From 146dc48c02e2c1109b23e85c0c04affef121d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 22/46] fix: include the point in nearly full circles expanded
 to it

---
 src/Circle.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Circle.cc b/src/Circle.cc
index d23dbd2..8f30b44 100644
--- a/src/Circle.cc
+++ b/src/Circle.cc
@@ -141,6 +141,12 @@ Circle & Circle::expandTo(UnitVector3d const & x) {
         NormalizedAngle cx(_center, x);
         Angle o = 0.5 * (cx + _openingAngle);
         Angle r = 0.5 * (cx - _openingAngle);
+        // The squared chord length of a nearly full circle cannot represent
+        // its opening angle to better than ~ 4 * MAX_ASIN_ERROR.
+        if (o + 8.0 * Angle(MAX_ASIN_ERROR) >= Angle(PI)) {
+            *this = full();
+            return *this;
+        }
         // Rotate _center by angle r around n to obtain the MBC center. This is
         // done using Rodriques' formula, simplified by taking advantage of the
         // orthogonality of _center and n.
-- 
2.43.0


From c7e499bcb96a6fa798d5a4d87f5e9ba4bea46b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:48 +0000
Subject: [PATCH 23/46] fix: do not underestimate the longitude extent of
 dilated boxes

---
 src/Box.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/Box.cc b/src/Box.cc
index 49aea7e..cf77239 100644
--- a/src/Box.cc
+++ b/src/Box.cc
@@ -32,6 +32,7 @@
 
 #include "lsst/sphgeom/Box.h"
 
+#include <algorithm>
 #include <cmath>
 #include <ostream>
 #include <stdexcept>
@@ -70,16 +71,17 @@ NormalizedAngle Box::halfWidthForCircle(Angle r, Angle lat) {
     //
     //    α = arcsin (sin r / cos δ)
     //
-    // In the actual computation, there is an absolute value and an explicit
-    // arcsin domain check to cope with rounding errors. An alternate way to
-    // compute this is:
+    // An alternate way to compute this is:
     //
     //    α = arctan (sin r / √(cos(δ - r) cos(δ + r)))
-    double s = std::fabs(sin(r) / cos(lat));
-    if (s >= 1.0) {
-        return NormalizedAngle(0.5 * PI);
-    }
-    return NormalizedAngle(std::asin(s));
+    //
+    // which is used below because it does not lose precision when α is close
+    // to π/2, unless cos(|δ| + r) is close to zero. To make sure that α is not
+    // underestimated in that case, the maximum rounding error of cos(|δ| + r)
+    // is subtracted from it.
+    static double const MAX_COS_ERROR = 4.0e-16;
+    double x = cos(abs(lat) - r) * (cos(abs(lat) + r) - MAX_COS_ERROR);
+    return NormalizedAngle(std::atan2(sin(r), std::sqrt(std::max(x, 0.0))));
 }
 
 Box & Box::dilateBy(Angle r) {
-- 
2.43.0


From bd71cd889e30b32f493353aa2ce1ec07c9e623a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 24/46] fix: make ellipses of empty and full circles empty and
 full

---
 include/lsst/sphgeom/Ellipse.h | 8 +++++++-
 src/Ellipse.cc                 | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/Ellipse.h b/include/lsst/sphgeom/Ellipse.h
index 40d40f4..f84c60c 100644
--- a/include/lsst/sphgeom/Ellipse.h
+++ b/include/lsst/sphgeom/Ellipse.h
@@ -194,7 +194,13 @@ public:
 
     /// This constructor creates an ellipse corresponding to the given circle.
     explicit Ellipse(Circle const & c) {
-        *this = Ellipse(c.getCenter(), c.getCenter(), c.getOpeningAngle());
+        if (c.isEmpty()) {
+            *this = empty();
+        } else if (c.isFull()) {
+            *this = full();
+        } else {
+            *this = Ellipse(c.getCenter(), c.getCenter(), c.getOpeningAngle());
+        }
     }
 
     /// This constructor creates an ellipse corresponding to the circle with
diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index c22ed7b..2739a33 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -75,7 +75,8 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
     } else {
         _gamma = 0.5 * NormalizedAngle(f1, f2);
     }
-    if (isEmpty()) {
+    // A negative alpha of small magnitude is lost to rounding in _a.
+    if (alpha.asRadians() < 0.0 || isEmpty()) {
         *this = empty();
         return;
     } else if (isFull()) {
-- 
2.43.0


From 22680e358f4568dc0531a107fac662d1ec9256c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:27 +0000
Subject: [PATCH 25/46] fix: compute ellipse axes accurately for nearly
 antipodal foci and beyond a hemisphere

---
 src/Ellipse.cc | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/Ellipse.cc b/src/Ellipse.cc
index 2739a33..542d4f1 100644
--- a/src/Ellipse.cc
+++ b/src/Ellipse.cc
@@ -108,17 +108,28 @@ Ellipse::Ellipse(UnitVector3d const & f1, UnitVector3d const & f2, Angle alpha)
     b2.normalize();
     // f1 and f2 have unit norm only up to rounding, so if they are close
     // together f1 - f2 need not be orthogonal to f1 + f2. Recompute it.
-    b0 = b2.cross(b1);
-    b0.normalize();
+    // Likewise for f1 + f2, if f1 and -f2 are close together.
+    if (f1.dot(f2) >= 0.0) {
+        b0 = b2.cross(b1);
+        b0.normalize();
+    } else {
+        b0.normalize();
+        b2 = b1.cross(b0);
+        b2.normalize();
+    }
     _S = Matrix3d(b0.x(), b0.y(), b0.z(),
                   b1.x(), b1.y(), b1.z(),
                   b2.x(), b2.y(), b2.z());
-    // Compute _b.
-    _b = Angle(acosOfRatio(alpha, _gamma) - 0.5 * PI);
-    if (_a.asRadians() <= 0.0 && _b > _a) {
-        _b = _a;
-    } else if (_a.asRadians() > 0.0 && _b < _a) {
+    // Compute _b from the semi-axis angles of this ellipse, or if it is bigger
+    // than a hemisphere, from those of its complement. This avoids computing
+    // β when it is close to π, where the arc cosine is inaccurate.
+    Angle a = Angle(-std::fabs(_a.asRadians()));
+    if (a.asRadians() == 0.0) {
         _b = _a;
+    } else {
+        Angle b(acosOfRatio(Angle(0.5 * PI) + a, _gamma) - 0.5 * PI);
+        b = std::min(a, b);
+        _b = (_a.asRadians() > 0.0) ? -b : b;
     }
     _tana = std::fabs(tan(_a));
     _tanb = std::fabs(tan(_b));
-- 
2.43.0


From 417543b15e0d4de001c0d9993e3a99c3acbbb575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 26/46] fix: do not form out of range references or iterators
 for hulls of too few points

---
 src/ConvexPolygon.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 598ee8a..bbd8924 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -62,7 +62,7 @@ char const * const NOT_ENOUGH_POINTS =
 std::vector<UnitVector3d>::iterator findPlane(
     std::vector<UnitVector3d> & points)
 {
-    if (points.empty()) {
+    if (points.size() < 2) {
         throw std::invalid_argument(NOT_ENOUGH_POINTS);
     }
     // Starting with the first point v0, find a distinct second point v1.
@@ -151,10 +151,11 @@ std::vector<UnitVector3d>::iterator findTriangle(
 
 void computeHull(std::vector<UnitVector3d> & points) {
     typedef std::vector<UnitVector3d>::iterator VertexIterator;
+    // Start with a triangular hull.
+    VertexIterator v = findTriangle(points);
     VertexIterator hullEnd = points.begin() + 3;
     VertexIterator const end = points.end();
-    // Start with a triangular hull.
-    for (VertexIterator v = findTriangle(points); v != end; ++v) {
+    for (; v != end; ++v) {
         // Compute the hull of the current hull and v.
         //
         // Notice that if v is in the current hull, v can be ignored. If
-- 
2.43.0


From 355a21b7aba95d6b2a2b984b09dbfbce2b6f62b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 27/46] fix: reject coplanar points that span a great circle in
 hulls

---
 src/ConvexPolygon.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index bbd8924..d522385 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -122,18 +122,18 @@ std::vector<UnitVector3d>::iterator findTriangle(
         // At this point, v, v0 and v1 are distinct and non-antipodal.
         // If v is in the interior of the great circle segment (v0, v1),
         // discard v and continue.
+        int v0v1 = orientation(n, v0, v1);
         int v0v = orientation(n, v0, *v);
         int vv1 = orientation(n, *v, v1);
-        if (v0v == vv1) {
+        if (v0v == v0v1 && vv1 == v0v1) {
             continue;
         }
-        int v0v1 = orientation(n, v0, v1);
         // If v1 is in the interior of (v0, v), replace v1 with v and continue.
-        if (v0v1 == -vv1) {
+        if (v0v == v0v1) {
             v1 = *v; continue;
         }
         // If v0 is in the interior of (v, v1), replace v0 with v and continue.
-        if (-v0v == v0v1) {
+        if (vv1 == v0v1) {
             v0 = *v; continue;
         }
         // Otherwise, (v0, v1) ∪ (v1, v) and (v, v0) ∪ (v0, v1) both span
-- 
2.43.0


From b2319a3d9ffb81c1b80f1bd02800d83fa6d86f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:57 +0000
Subject: [PATCH 28/46] fix: make hulls independent of point order if points
 lie on edges

---
 src/ConvexPolygon.cc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index d522385..7467f88 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -181,13 +181,19 @@ void computeHull(std::vector<UnitVector3d> & points) {
         VertexIterator fromCCW = hullEnd;
         // Compute the orientation of the first point in the current hull
         // with respect to v.
-        bool const firstCCW = orientation(*v, *i, *j) > 0;
+        int o = orientation(*v, *i, *j);
+        bool const firstCCW = o > 0;
         bool prevCCW = firstCCW;
+        // anyCW tracks whether any point in the current hull has clockwise
+        // orientation with respect to v.
+        bool anyCW = o < 0;
         // Compute the orientation of points in the current hull with respect
         // to v, starting with the second point. Update toCCW / fromCCW when
         // we transition to / from counter-clockwise orientation.
         for (i = j, ++j; j != hullEnd; i = j, ++j) {
-            if (orientation(*v, *i, *j) > 0) {
+            o = orientation(*v, *i, *j);
+            anyCW = anyCW || o < 0;
+            if (o > 0) {
                 if (!prevCCW) {
                     toCCW = i;
                     prevCCW = true;
@@ -206,16 +212,16 @@ void computeHull(std::vector<UnitVector3d> & points) {
         } else if (prevCCW) {
             fromCCW = points.begin();
         }
+        // If no vertices are clockwise with respect to v, then v is inside the
+        // current hull (possibly on one of its edges) and can be ignored.
+        if (!anyCW) {
+            continue;
+        }
         // Handle the case where there is never a transition to / from
         // counter-clockwise orientation.
         if (toCCW == hullEnd) {
-            // If all vertices are counter-clockwise with respect to v,
-            // v is inside the current hull and can be ignored.
-            if (firstCCW) {
-                continue;
-            }
-            // Otherwise, no vertex is counter-clockwise with respect to v,
-            // so that -v is inside the current hull.
+            // No vertex is counter-clockwise with respect to v, so that -v is
+            // inside the current hull.
             throw std::invalid_argument(FOUND_ANTIPODAL_POINT);
         }
         // Insert v into the current hull at fromCCW, and remove
-- 
2.43.0


From c241f403c8f1ec6f412447db7d3e77335abab268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 29/46] fix: encode 64-bit integers, not their conversion to
 double, without optimized paths

---
 include/lsst/sphgeom/codec.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lsst/sphgeom/codec.h b/include/lsst/sphgeom/codec.h
index dea0c62..3a7091c 100644
--- a/include/lsst/sphgeom/codec.h
+++ b/include/lsst/sphgeom/codec.h
@@ -98,8 +98,7 @@ inline void encodeU64(std::uint64_t item, std::vector<std::uint8_t> & buffer) {
     auto ptr = reinterpret_cast<std::uint8_t const *>(&item);
     buffer.insert(buffer.end(), ptr, ptr + 8);
 #else
-    union { std::uint64_t u; double d; };
-    d = item;
+    std::uint64_t u = item;
     buffer.push_back(static_cast<std::uint8_t>(u));
     buffer.push_back(static_cast<std::uint8_t>(u >> 8));
     buffer.push_back(static_cast<std::uint8_t>(u >> 16));
-- 
2.43.0


From 308661f52ee586a6b0eb1aa032dce7a83404130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 30/46] fix: check operand sizes against the buffer when
 decoding compound regions

---
 src/CompoundRegion.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CompoundRegion.cc b/src/CompoundRegion.cc
index cae1d51..1042fde 100644
--- a/src/CompoundRegion.cc
+++ b/src/CompoundRegion.cc
@@ -50,7 +50,7 @@ namespace {
 // A version of decodeU64 from codec.h that checks for buffer overruns and
 // increments the buffer pointer it is given.
 std::uint64_t consumeDecodeU64(std::uint8_t const *&buffer, std::uint8_t const *end) {
-    if (buffer + 8 > end) {
+    if (end - buffer < 8) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     std::uint64_t result = decodeU64(buffer);
@@ -103,19 +103,25 @@ std::vector<std::uint8_t> CompoundRegion::_encode(std::uint8_t tc) const {
 
 std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
     std::uint8_t tc, std::uint8_t const *buffer, std::size_t nBytes) {
-    std::uint8_t const *end = buffer + nBytes;
-    if (nBytes == 0) {
+    if (buffer == nullptr || nBytes == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
+    std::uint8_t const *end = buffer + nBytes;
     if (buffer[0] != tc) {
         throw std::runtime_error("Byte string is not an encoded CompoundRegion.");
     }
     ++buffer;
     std::array<std::unique_ptr<Region>, 2> result;
     std::uint64_t nBytes1 = consumeDecodeU64(buffer, end);
+    if (nBytes1 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[0] = Region::decode(buffer, nBytes1);
     buffer += nBytes1;
     std::uint64_t nBytes2 = consumeDecodeU64(buffer, end);
+    if (nBytes2 > static_cast<std::uint64_t>(end - buffer)) {
+        throw std::runtime_error("Encoded CompoundRegion is truncated.");
+    }
     result[1] = Region::decode(buffer, nBytes2);
     buffer += nBytes2;
     if (buffer != end) {
@@ -125,7 +131,7 @@ std::array<std::unique_ptr<Region>, 2> CompoundRegion::_decode(
 }
 
 std::unique_ptr<CompoundRegion> CompoundRegion::decode(std::uint8_t const *buffer, size_t n) {
-    if (n == 0) {
+    if (buffer == nullptr || n == 0) {
         throw std::runtime_error("Encoded CompoundRegion is truncated.");
     }
     switch (buffer[0]) {
-- 
2.43.0


From 6e39bfc6aa535180ecb8be97e5086382507f578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:28 +0000
Subject: [PATCH 31/46] fix: check the buffer size before reading it when
 decoding polygons

---
 src/ConvexPolygon.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ConvexPolygon.cc b/src/ConvexPolygon.cc
index 7467f88..9c98c52 100644
--- a/src/ConvexPolygon.cc
+++ b/src/ConvexPolygon.cc
@@ -375,8 +375,8 @@ std::vector<std::uint8_t> ConvexPolygon::encode() const {
 std::unique_ptr<ConvexPolygon> ConvexPolygon::decode(std::uint8_t const * buffer,
                                                      size_t n)
 {
-    if (buffer == nullptr || *buffer != TYPE_CODE ||
-        n < 1 + 24*3 || (n - 1) % 24 != 0) {
+    if (buffer == nullptr || n < 1 + 24*3 || (n - 1) % 24 != 0 ||
+        *buffer != TYPE_CODE) {
         throw std::runtime_error("Byte-string is not an encoded ConvexPolygon");
     }
     std::unique_ptr<ConvexPolygon> poly(new ConvexPolygon);
-- 
2.43.0


From 979a05a44ed8cdaaab9720c8ef395d34fa5443f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:12 +0000
Subject: [PATCH 32/46] fix: do not index out of bounds when normalizing
 vectors with a NaN y component

---
 src/Vector3d.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Vector3d.cc b/src/Vector3d.cc
index f3dc349..533f23e 100644
--- a/src/Vector3d.cc
+++ b/src/Vector3d.cc
@@ -55,12 +55,15 @@ double Vector3d::normalize() {
     //      ((|x| > |z|) << 2) +
     //      ((|x| > |y|) << 1) +
     //       (|y| > |z|)
+    //
+    // Index 3 is impossible, and index 4 requires that y is NaN, which any order
+    // of components will propagate.
     static std::uint8_t const COMPONENT[8][4] = {
         {0, 1, 2, UNUSED},
         {0, 2, 1, UNUSED},
         {1, 0, 2, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
-        {UNUSED, UNUSED, UNUSED, UNUSED},
+        {0, 2, 1, UNUSED},
+        {0, 2, 1, UNUSED},
         {2, 0, 1, UNUSED},
         {1, 2, 0, UNUSED},
         {2, 1, 0, UNUSED}
-- 
2.43.0


From 0223b0d11bcf481224c882743ed063209e65a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 33/46] fix: do not overflow an integer when checking the
 number of sub-stripes

---
 src/Chunker.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 56a7b28..9c720b9 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -65,17 +65,19 @@ Chunker::Chunker(std::int32_t numStripes,
                  std::int32_t numSubStripesPerStripe) :
     _numStripes(numStripes),
     _numSubStripesPerStripe(numSubStripesPerStripe),
-    _numSubStripes(numStripes * numSubStripesPerStripe),
+    _numSubStripes(0),
     _maxSubChunksPerSubStripeChunk(0),
-    _subStripeHeight(Angle(PI) / _numSubStripes)
+    _subStripeHeight(0)
 {
     if (numStripes < 1 || numSubStripesPerStripe < 1) {
         throw std::runtime_error("The number of stripes and sub-stripes "
                                  "per stripe must be positive");
     }
-    if (numStripes * numSubStripesPerStripe > 180*3600) {
+    if (numSubStripesPerStripe > 180*3600 / numStripes) {
         throw std::runtime_error("Sub-stripes are too small");
     }
+    _numSubStripes = numStripes * numSubStripesPerStripe;
+    _subStripeHeight = Angle(PI) / _numSubStripes;
     Angle const stripeHeight = Angle(PI) / _numStripes;
     _stripes.reserve(_numStripes);
     _subStripes.reserve(_numSubStripes);
-- 
2.43.0


From 03c366db7030963b0ac532aac3d04f7118bb3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 34/46] fix: reject chunkers whose chunk or sub-chunk IDs
 overflow an integer

---
 src/Chunker.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 9c720b9..8404ca3 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -32,6 +32,10 @@
 
 #include "lsst/sphgeom/Chunker.h"
 
+#include <limits>
+#include <stdexcept>
+
+
 namespace lsst {
 namespace sphgeom {
 
@@ -76,6 +80,11 @@ Chunker::Chunker(std::int32_t numStripes,
     if (numSubStripesPerStripe > 180*3600 / numStripes) {
         throw std::runtime_error("Sub-stripes are too small");
     }
+    // Chunk and sub-chunk IDs must be representable.
+    constexpr std::int64_t maxId = std::numeric_limits<std::int32_t>::max();
+    if (2 * static_cast<std::int64_t>(numStripes) * numStripes - 1 > maxId) {
+        throw std::runtime_error("There are too many stripes");
+    }
     _numSubStripes = numStripes * numSubStripesPerStripe;
     _subStripeHeight = Angle(PI) / _numSubStripes;
     Angle const stripeHeight = Angle(PI) / _numStripes;
@@ -97,6 +106,9 @@ Chunker::Chunker(std::int32_t numStripes,
                                 (ss + 1) * _subStripeHeight - Angle(0.5 * PI));
             SubStripe subStripe;
             std::int32_t const nsc = computeNumSegments(ssLat, _subStripeHeight) / nc;
+            if (static_cast<std::int64_t>(numSubStripesPerStripe) * nsc - 1 > maxId) {
+                throw std::runtime_error("There are too many sub-stripes per stripe");
+            }
             stripe.numSubChunksPerChunk += nsc;
             subStripe.numSubChunksPerChunk = nsc;
             if (nsc > _maxSubChunksPerSubStripeChunk) {
-- 
2.43.0


From 7997e97c1d07f8302ad9d2494fae16b54b8f54d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 35/46] fix: do not treat negative chunk IDs as valid

---
 src/Chunker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 8404ca3..9acc29a 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -305,7 +305,7 @@ std::vector<std::int32_t> Chunker::getAllSubChunks(std::int32_t chunkId) const {
 
 bool Chunker::valid(std::int32_t chunkId) const {
     std::int32_t const s = getStripe(chunkId);
-    return s >= 0 and s < _numStripes and
+    return chunkId >= 0 and s < _numStripes and
            getChunk(chunkId, s) < _stripes.at(s).numChunksPerStripe;
 }
 
-- 
2.43.0


From 6e20c78f646dc5f37de5d0bad394ac16bd890d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 36/46] fix: do not convert NaN to an integer when finding the
 chunks of an empty region

---
 src/Chunker.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 9acc29a..2a2b824 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -125,6 +125,9 @@ std::vector<std::int32_t> Chunker::getChunksIntersecting(Region const & r) const
     std::vector<std::int32_t> chunkIds;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunkIds;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
@@ -172,6 +175,9 @@ std::vector<SubChunks> Chunker::getSubChunksIntersecting(
     std::vector<SubChunks> chunks;
     // Find the stripes that intersect the bounding box of r.
     Box b = r.getBoundingBox().dilatedBy(Angle(BOX_EPSILON));
+    if (b.isEmpty()) {
+        return chunks;
+    }
     double ya = std::floor((b.getLat().getA() + Angle(0.5 * PI)) / _subStripeHeight);
     double yb = std::floor((b.getLat().getB() + Angle(0.5 * PI)) / _subStripeHeight);
     std::int32_t minSS = std::min(static_cast<std::int32_t>(ya), _numSubStripes - 1);
-- 
2.43.0


From 6969c828202aad79de90c9db0021a30c410f1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:08 +0000
Subject: [PATCH 37/46] fix: do not read out of bounds for the bounding boxes
 of invalid chunks

---
 src/Chunker.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Chunker.cc b/src/Chunker.cc
index 2a2b824..2aeb833 100644
--- a/src/Chunker.cc
+++ b/src/Chunker.cc
@@ -316,7 +316,7 @@ bool Chunker::valid(std::int32_t chunkId) const {
 }
 
 Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const {
-    Angle chunkWidth = _stripes[stripe].chunkWidth;
+    Angle chunkWidth = _stripes.at(stripe).chunkWidth;
     NormalizedAngleInterval lon(chunkWidth * chunk,
                                 chunkWidth * (chunk + 1));
     std::int32_t ss = stripe * _numSubStripesPerStripe;
@@ -327,7 +327,7 @@ Box Chunker::getChunkBoundingBox(std::int32_t stripe, std::int32_t chunk) const
 }
 
 Box Chunker::getSubChunkBoundingBox(std::int32_t subStripe, std::int32_t subChunk) const {
-    Angle subChunkWidth = _subStripes[subStripe].subChunkWidth;
+    Angle subChunkWidth = _subStripes.at(subStripe).subChunkWidth;
     NormalizedAngleInterval lon(subChunkWidth * subChunk,
                                 subChunkWidth * (subChunk + 1));
     AngleInterval lat(subStripe * _subStripeHeight - Angle(0.5 * PI),
-- 
2.43.0


From 6d95d025d433016f9276f524e7f1a53b0fac9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 38/46] fix: Box3d treats vectors with NaN components as empty
 in contains and expandTo

Box3d(v) is empty when v has a NaN component, but expandTo(v) grew the other
two axes (and left an empty box with one non-empty interval, for which isEmpty
was false), and contains(v) could disagree with relate(v).
---
 include/lsst/sphgeom/Box3d.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/lsst/sphgeom/Box3d.h b/include/lsst/sphgeom/Box3d.h
index 353d494..8b1ecf1 100644
--- a/include/lsst/sphgeom/Box3d.h
+++ b/include/lsst/sphgeom/Box3d.h
@@ -162,11 +162,7 @@ public:
     ///@{
     /// `contains` returns true iff the intersection of this box and b
     /// is equal to b.
-    bool contains(Vector3d const & b) const {
-        return x().contains(b.x()) &&
-               y().contains(b.y()) &&
-               z().contains(b.z());
-    }
+    bool contains(Vector3d const & b) const { return contains(Box3d(b)); }
 
     bool contains(Box3d const & b) const {
         return x().contains(b.x()) &&
@@ -175,7 +171,7 @@ public:
     }
 
     bool contains(double x_, double y_, double z_) const {
-        return x().contains(x_) && y().contains(y_) && z().contains(z_);
+        return contains(Vector3d(x_, y_, z_));
     }
     ///@}
 
@@ -251,12 +247,7 @@ public:
 
     ///@{
     /// `expandTo` minimally expands this box to contain b.
-    Box3d & expandTo(Vector3d const & b) {
-        _intervals[0].expandTo(b.x());
-        _intervals[1].expandTo(b.y());
-        _intervals[2].expandTo(b.z());
-        return *this;
-    }
+    Box3d & expandTo(Vector3d const & b) { return expandTo(Box3d(b)); }
 
     Box3d & expandTo(Box3d const & b) {
         _intervals[0].expandTo(b.x());
-- 
2.43.0


From 65e77ec72d4fd5c03cfd5d441c08224b46ee4c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 39/46] fix: LonLat of very long or short vectors

The sum of squares overflowed for vectors longer than about 1e154 (latitude 0)
and vanished for ones shorter than 1e-162 (a pole).
---
 src/LonLat.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/LonLat.cc b/src/LonLat.cc
index 9a1932b..243cad6 100644
--- a/src/LonLat.cc
+++ b/src/LonLat.cc
@@ -42,10 +42,11 @@ namespace lsst {
 namespace sphgeom {
 
 Angle LonLat::latitudeOf(Vector3d const & v) {
-    double d2 = v(0) * v(0) + v(1) * v(1);
     double lat = 0.0;
     if (v(2) != 0.0) {
-        lat = std::atan2(v(2), sqrt(d2));
+        // Unlike the square root of a sum of squares, hypot does not overflow
+        // or underflow for very long or short vectors.
+        lat = std::atan2(v(2), std::hypot(v(0), v(1)));
         if (std::fabs(lat) > 0.5 * PI) {
             lat = ::copysign(0.5 * PI, lat);
         }
@@ -54,9 +55,8 @@ Angle LonLat::latitudeOf(Vector3d const & v) {
 }
 
 NormalizedAngle LonLat::longitudeOf(Vector3d const & v) {
-    double d2 = v(0) * v(0) + v(1) * v(1);
     double lon = 0.0;
-    if (d2 != 0.0) {
+    if (v(0) != 0.0 || v(1) != 0.0) {
         lon = std::atan2(v(1), v(0));
         if (lon < 0.0) {
             lon += 2*PI;
-- 
2.43.0


From d3eb5f67b4f78f78d056ad42eb791d67e4f77ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 40/46] fix: the Python in operator is not true of arguments of
 unsupported types

__contains__ and __getitem__ returned NotImplemented for arguments of
other types (as operators do), which the interpreter takes for true.
---
 include/lsst/sphgeom/python/interval.h | 6 ++----
 python/lsst/sphgeom/_box.cc            | 9 +++------
 python/lsst/sphgeom/_box3d.cc          | 6 ++----
 python/lsst/sphgeom/_circle.cc         | 6 ++----
 python/lsst/sphgeom/_matrix3d.cc       | 5 ++---
 python/lsst/sphgeom/_rangeSet.cc       | 6 +++---
 python/lsst/sphgeom/_region.cc         | 3 +--
 7 files changed, 15 insertions(+), 26 deletions(-)

diff --git a/include/lsst/sphgeom/python/interval.h b/include/lsst/sphgeom/python/interval.h
index ffd0e6b..54e1856 100644
--- a/include/lsst/sphgeom/python/interval.h
+++ b/include/lsst/sphgeom/python/interval.h
@@ -69,13 +69,11 @@ void defineInterval(PyClass& cls) {
     cls.def("getSize", [](Class const& self) { return self.getSize(); });
 
     cls.def("__contains__", [](Class const& self,
-                               Scalar other) { return self.contains(other); },
-            py::is_operator());
+                               Scalar other) { return self.contains(other); });
     cls.def("__contains__",
             [](Class const& self, Class const& other) {
                 return self.contains(other);
-            },
-            py::is_operator());
+            });
 
     cls.def("contains", [](Class const& self, Scalar other) {
         return self.contains(other);
diff --git a/python/lsst/sphgeom/_box.cc b/python/lsst/sphgeom/_box.cc
index d3d7476..06e5d91 100644
--- a/python/lsst/sphgeom/_box.cc
+++ b/python/lsst/sphgeom/_box.cc
@@ -84,14 +84,11 @@ void defineClass(py::class_<Box, std::unique_ptr<Box>, Region> &cls) {
     cls.def("__ne__", (bool (Box::*)(LonLat const &) const) & Box::operator!=,
             py::is_operator());
     cls.def("__contains__",
-            (bool (Box::*)(LonLat const &) const) & Box::contains,
-            py::is_operator());
-    cls.def("__contains__", (bool (Box::*)(Box const &) const) & Box::contains,
-            py::is_operator());
+            (bool (Box::*)(LonLat const &) const) & Box::contains);
+    cls.def("__contains__", (bool (Box::*)(Box const &) const) & Box::contains);
     // Rewrap this base class method since there are overloads in this subclass
     cls.def("__contains__",
-            (bool (Box::*)(UnitVector3d const &) const) & Box::contains,
-            py::is_operator());
+            (bool (Box::*)(UnitVector3d const &) const) & Box::contains);
 
     cls.def("getLon", &Box::getLon);
     cls.def("getLat", &Box::getLat);
diff --git a/python/lsst/sphgeom/_box3d.cc b/python/lsst/sphgeom/_box3d.cc
index d22181a..f75eddf 100644
--- a/python/lsst/sphgeom/_box3d.cc
+++ b/python/lsst/sphgeom/_box3d.cc
@@ -71,11 +71,9 @@ void defineClass(py::class_<Box3d, std::shared_ptr<Box3d>> &cls) {
             (bool (Box3d::*)(Vector3d const &) const) & Box3d::operator!=,
             py::is_operator());
     cls.def("__contains__",
-            (bool (Box3d::*)(Vector3d const &) const) & Box3d::contains,
-            py::is_operator());
+            (bool (Box3d::*)(Vector3d const &) const) & Box3d::contains);
     cls.def("__contains__",
-            (bool (Box3d::*)(Box3d const &) const) & Box3d::contains,
-            py::is_operator());
+            (bool (Box3d::*)(Box3d const &) const) & Box3d::contains);
     cls.def("__len__", [](Box3d const &self) { return py::int_(3); });
     cls.def("__getitem__", [](Box3d const &self, py::int_ row) {
         return self(static_cast<int>(python::convertIndex(3, row)));
diff --git a/python/lsst/sphgeom/_circle.cc b/python/lsst/sphgeom/_circle.cc
index 7714d59..3aaa10a 100644
--- a/python/lsst/sphgeom/_circle.cc
+++ b/python/lsst/sphgeom/_circle.cc
@@ -68,12 +68,10 @@ void defineClass(py::class_<Circle, std::unique_ptr<Circle>, Region> &cls) {
     cls.def("__eq__", &Circle::operator==, py::is_operator());
     cls.def("__ne__", &Circle::operator!=, py::is_operator());
     cls.def("__contains__",
-            (bool (Circle::*)(Circle const &) const) & Circle::contains,
-            py::is_operator());
+            (bool (Circle::*)(Circle const &) const) & Circle::contains);
     // Rewrap this base class method since there are overloads in this subclass
     cls.def("__contains__",
-            (bool (Circle::*)(UnitVector3d const &) const) & Circle::contains,
-            py::is_operator());
+            (bool (Circle::*)(UnitVector3d const &) const) & Circle::contains);
 
     cls.def("isEmpty", &Circle::isEmpty);
     cls.def("isFull", &Circle::isFull);
diff --git a/python/lsst/sphgeom/_matrix3d.cc b/python/lsst/sphgeom/_matrix3d.cc
index dd4d293..1b1a3f8 100644
--- a/python/lsst/sphgeom/_matrix3d.cc
+++ b/python/lsst/sphgeom/_matrix3d.cc
@@ -69,7 +69,7 @@ void defineClass(py::class_<Matrix3d, std::shared_ptr<Matrix3d>> &cls) {
             "col"_a);
 
     cls.def("__len__", [](Matrix3d const &self) { return py::int_(3); });
-    cls.def("__getitem__", &getRow, py::is_operator());
+    cls.def("__getitem__", &getRow);
     cls.def("__getitem__",
             [](Matrix3d const &self, py::tuple t) {
                 if (t.size() > 2) {
@@ -82,8 +82,7 @@ void defineClass(py::class_<Matrix3d, std::shared_ptr<Matrix3d>> &cls) {
                 return py::cast(
                         self(python::convertIndex(3, t[0].cast<py::int_>()),
                              python::convertIndex(3, t[1].cast<py::int_>())));
-            },
-            py::is_operator());
+            });
 
     cls.def("inner", &Matrix3d::inner, "matrix"_a);
     cls.def("getSquaredNorm", &Matrix3d::getSquaredNorm);
diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index c6559ba..90e2cbb 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -164,13 +164,13 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
             "rangeSet"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(uint64_t) const) & RangeSet::contains,
-            "integer"_a, py::is_operator());
+            "integer"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(uint64_t, uint64_t) const) & RangeSet::contains,
-            "first"_a, "last"_a, py::is_operator());
+            "first"_a, "last"_a);
     cls.def("__contains__",
             (bool (RangeSet::*)(RangeSet const &) const) & RangeSet::contains,
-            "rangeSet"_a, py::is_operator());
+            "rangeSet"_a);
 
     cls.def("isWithin",
             (bool (RangeSet::*)(uint64_t) const) & RangeSet::isWithin,
diff --git a/python/lsst/sphgeom/_region.cc b/python/lsst/sphgeom/_region.cc
index 11cb15b..d0b541c 100644
--- a/python/lsst/sphgeom/_region.cc
+++ b/python/lsst/sphgeom/_region.cc
@@ -61,8 +61,7 @@ void defineClass(py::class_<Region, std::unique_ptr<Region>> &cls) {
             "x"_a, "y"_a, "z"_a);
     cls.def("contains", py::vectorize((bool (Region::*)(double, double) const)&Region::contains),
             "lon"_a, "lat"_a);
-    cls.def("__contains__", py::overload_cast<UnitVector3d const &>(&Region::contains, py::const_),
-            py::is_operator());
+    cls.def("__contains__", py::overload_cast<UnitVector3d const &>(&Region::contains, py::const_));
     // The per-subclass relate() overloads are used to implement
     // double-dispatch in C++, and are not needed in Python.
     cls.def("relate",
-- 
2.43.0


From 1e028a1820a9ca6006a9eff1a3e3d0402aeb86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 41/46] fix: RangeSet.isValid of Python called cardinality

---
 python/lsst/sphgeom/_rangeSet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index 90e2cbb..0d3b3b7 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -206,7 +206,7 @@ void defineClass(py::class_<RangeSet, std::shared_ptr<RangeSet>> &cls) {
     cls.def("cardinality", &RangeSet::cardinality);
     // max_size() and swap() are omitted. The former is a C++ container
     // requirement, and the latter doesn't seem relevant to Python.
-    cls.def("isValid", &RangeSet::cardinality);
+    cls.def("isValid", &RangeSet::isValid);
     cls.def("ranges", &ranges);
 
     cls.def("__str__",
-- 
2.43.0


From 22bdbe636d71c61a91953b2ffad34e137e56aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 42/46] fix: pixelizations compare unequal to objects of other
 types

---
 python/lsst/sphgeom/_healpixPixelization.py | 1 +
 python/lsst/sphgeom/_htmPixelization.cc     | 6 ++++--
 python/lsst/sphgeom/_mq3cPixelization.cc    | 6 ++++--
 python/lsst/sphgeom/_q3cPixelization.cc     | 6 ++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index abb0880..16577a1 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -171,6 +171,7 @@ class HealpixPixelization(PixelizationABC):
     def __eq__(self, other):
         if isinstance(other, HealpixPixelization):
             return self._level == other._level
+        return NotImplemented
 
     def __repr__(self):
         return f"HealpixPixelization({self._level})"
diff --git a/python/lsst/sphgeom/_htmPixelization.cc b/python/lsst/sphgeom/_htmPixelization.cc
index 7b89487..306b18e 100644
--- a/python/lsst/sphgeom/_htmPixelization.cc
+++ b/python/lsst/sphgeom/_htmPixelization.cc
@@ -54,11 +54,13 @@ void defineClass(py::class_<HtmPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](HtmPixelization const &self, HtmPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](HtmPixelization const &self, HtmPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](HtmPixelization const &self) {
         return py::str("HtmPixelization({!s})").format(self.getLevel());
     });
diff --git a/python/lsst/sphgeom/_mq3cPixelization.cc b/python/lsst/sphgeom/_mq3cPixelization.cc
index c2f8509..20194ee 100644
--- a/python/lsst/sphgeom/_mq3cPixelization.cc
+++ b/python/lsst/sphgeom/_mq3cPixelization.cc
@@ -55,11 +55,13 @@ void defineClass(py::class_<Mq3cPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](Mq3cPixelization const &self, Mq3cPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](Mq3cPixelization const &self, Mq3cPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](Mq3cPixelization const &self) {
         return py::str("Mq3cPixelization({!s})").format(self.getLevel());
     });
diff --git a/python/lsst/sphgeom/_q3cPixelization.cc b/python/lsst/sphgeom/_q3cPixelization.cc
index 8c9ec8f..71a47b5 100644
--- a/python/lsst/sphgeom/_q3cPixelization.cc
+++ b/python/lsst/sphgeom/_q3cPixelization.cc
@@ -52,11 +52,13 @@ void defineClass(py::class_<Q3cPixelization, Pixelization> &cls) {
     cls.def("__eq__",
             [](Q3cPixelization const &self, Q3cPixelization const &other) {
                 return self.getLevel() == other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__ne__",
             [](Q3cPixelization const &self, Q3cPixelization const &other) {
                 return self.getLevel() != other.getLevel();
-            });
+            },
+            py::is_operator());
     cls.def("__repr__", [](Q3cPixelization const &self) {
         return py::str("Q3cPixelization({!s})").format(self.getLevel());
     });
-- 
2.43.0


From 6fe69da76a9ef780b73445acb4431a25aa58a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 43/46] fix: HealpixPixelization.envelope and interior of
 small, thin, empty and all-longitude regions

The envelope had no pixels for regions without pixel centers at the higher
resolution, both methods had none for boxes with all longitudes (which
hpgeom recognizes in degrees only) and raised errors for empty regions,
points, and polygons that are tiny or almost degenerate.
---
 python/lsst/sphgeom/_healpixPixelization.py | 92 ++++++++++++++-------
 1 file changed, 61 insertions(+), 31 deletions(-)

diff --git a/python/lsst/sphgeom/_healpixPixelization.py b/python/lsst/sphgeom/_healpixPixelization.py
index 16577a1..cd863d0 100644
--- a/python/lsst/sphgeom/_healpixPixelization.py
+++ b/python/lsst/sphgeom/_healpixPixelization.py
@@ -29,7 +29,7 @@ __all__ = ["HealpixPixelization"]
 import hpgeom as hpg
 import numpy as np
 
-from ._sphgeom import Box, Circle, ConvexPolygon, Ellipse, LonLat, RangeSet, Region, UnitVector3d
+from ._sphgeom import Angle, Box, Circle, ConvexPolygon, Ellipse, LonLat, RangeSet, Region, UnitVector3d
 from .pixelization_abc import PixelizationABC
 
 
@@ -44,6 +44,10 @@ class HealpixPixelization(PixelizationABC):
 
     MAX_LEVEL = 17
 
+    # Much smaller than the pixels of any level, but larger than rounding.
+    _MIN_RADIUS = Angle(1.0e-10)
+    _MIN_POLYGON_SIZE = 1.0e-6
+
     def __init__(self, level: int):
         if level < 0:
             raise ValueError("HealPix level must be >= 0.")
@@ -85,7 +89,9 @@ class HealpixPixelization(PixelizationABC):
         if maxRanges > 0:
             # If this is important, the rangeset can be consolidated.
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
-        pixels_highres = self._interior_pixels_from_region(self._nside_highres, region)
+        # Regions may have no pixel centers, so ask for all the overlapping
+        # pixels.
+        pixels_highres = self._pixels_from_region(self._nside_highres, region, inclusive=True)
 
         # Dilate the high resolution pixels by one to ensure that the full
         # region is completely covered at high resolution.
@@ -99,7 +105,7 @@ class HealpixPixelization(PixelizationABC):
         if maxRanges > 0:
             # If this is important, the rangeset can be consolidated.
             raise NotImplementedError("HealpixPixelization: maxRanges not implemented")
-        pixels = self._interior_pixels_from_region(self._nside, region)
+        pixels = self._pixels_from_region(self._nside, region, inclusive=False)
 
         # Check that the corners of the pixels are entirely enclosed in
         # the region
@@ -113,15 +119,18 @@ class HealpixPixelization(PixelizationABC):
 
         return RangeSet(pixels)
 
-    def _interior_pixels_from_region(self, nside: int, region: Region):
-        """Get interior pixels from a region.
+    def _pixels_from_region(self, nside: int, region: Region, inclusive: bool):
+        """Get the pixels of a region.
 
         Parameters
         ----------
         nside : `int`
-            Healpix nside to retrieve interior pixels.
+            Healpix nside to retrieve pixels.
         region : `lsst.sphgeom.Region`
-            Sphgeom region to find interior pixels.
+            Sphgeom region to find pixels of.
+        inclusive : `bool`
+            Retrieve all pixels that overlap the region, rather than those
+            whose centers are in the region.
 
         Returns
         -------
@@ -129,45 +138,66 @@ class HealpixPixelization(PixelizationABC):
             Array of pixels at resolution nside, nest ordering.
         """
         if isinstance(region, Circle):
-            center = LonLat(region.getCenter())
-            pixels = hpg.query_circle(
-                nside,
-                center.getLon().asRadians(),
-                center.getLat().asRadians(),
-                region.getOpeningAngle().asRadians(),
-                degrees=False,
-            )
+            pixels = self._pixels_from_circle(nside, region, inclusive)
         elif isinstance(region, ConvexPolygon):
-            vertices = np.array([[v.x(), v.y(), v.z()] for v in region.getVertices()])
-            pixels = hpg.query_polygon_vec(nside, vertices)
+            pixels = self._pixels_from_polygon(nside, region, inclusive)
         elif isinstance(region, Box):
+            if inclusive:
+                # Boxes without area do not overlap pixels.
+                region = region.dilatedBy(self._MIN_RADIUS, self._MIN_RADIUS)
+            if region.isEmpty():
+                return np.array([], dtype=np.int64)
+            # A box with all longitudes is recognized in degrees only.
             pixels = hpg.query_box(
                 nside,
-                region.getLon().getA().asRadians(),
-                region.getLon().getB().asRadians(),
-                region.getLat().getA().asRadians(),
-                region.getLat().getB().asRadians(),
-                degrees=False,
+                region.getLon().getA().asDegrees(),
+                region.getLon().getB().asDegrees(),
+                region.getLat().getA().asDegrees(),
+                region.getLat().getB().asDegrees(),
+                inclusive=inclusive,
+                fact=1,
             )
         elif isinstance(region, Ellipse):
             # hpgeom supports query_ellipse given center, alpha, beta,
             # and orientation. However, until we figure out how to get
             # the orientation out of the Ellipse region, we will use the
             # bounding circle as was done with healpy.
-            _circle = region.getBoundingCircle()
-            center = LonLat(_circle.getCenter())
-            pixels = hpg.query_circle(
-                nside,
-                center.getLon().asRadians(),
-                center.getLat().asRadians(),
-                _circle.getOpeningAngle().asRadians(),
-                degrees=False,
-            )
+            pixels = self._pixels_from_circle(nside, region.getBoundingCircle(), inclusive)
         else:
             raise ValueError("Invalid region.")
 
         return pixels
 
+    def _pixels_from_polygon(self, nside: int, polygon: ConvexPolygon, inclusive: bool):
+        """Get the pixels of a polygon (see `_pixels_from_region`)."""
+        vertices = np.array([[v.x(), v.y(), v.z()] for v in polygon.getVertices()])
+        # hpgeom does not support tiny polygons, and polygons with vertices
+        # almost on the edge of their neighbors.
+        if np.ptp(vertices, axis=0).max() > self._MIN_POLYGON_SIZE:
+            try:
+                return hpg.query_polygon_vec(nside, vertices, inclusive=inclusive, fact=1)
+            except RuntimeError:
+                pass
+        return self._pixels_from_circle(nside, polygon.getBoundingCircle(), inclusive)
+
+    def _pixels_from_circle(self, nside: int, circle: Circle, inclusive: bool):
+        """Get the pixels of a circle (see `_pixels_from_region`)."""
+        if inclusive:
+            # Circles without area do not overlap pixels.
+            circle = circle.dilatedBy(self._MIN_RADIUS)
+        if not circle.getOpeningAngle().asRadians() > 0.0:
+            return np.array([], dtype=np.int64)
+        center = LonLat(circle.getCenter())
+        return hpg.query_circle(
+            nside,
+            center.getLon().asRadians(),
+            center.getLat().asRadians(),
+            circle.getOpeningAngle().asRadians(),
+            inclusive=inclusive,
+            fact=1,
+            degrees=False,
+        )
+
     def __eq__(self, other):
         if isinstance(other, HealpixPixelization):
             return self._level == other._level
-- 
2.43.0


From 532be7366dc15fa15e20280914864e6dcb382da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:59 +0000
Subject: [PATCH 44/46] fix: neighborhood of the Q3C and modified Q3C
 pixelizations in Python

The bindings lacked pybind11/stl.h, so every call raised TypeError for want
of a conversion of std::vector.
---
 python/lsst/sphgeom/_mq3cPixelization.cc | 1 +
 python/lsst/sphgeom/_q3cPixelization.cc  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/lsst/sphgeom/_mq3cPixelization.cc b/python/lsst/sphgeom/_mq3cPixelization.cc
index 20194ee..686beb6 100644
--- a/python/lsst/sphgeom/_mq3cPixelization.cc
+++ b/python/lsst/sphgeom/_mq3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
diff --git a/python/lsst/sphgeom/_q3cPixelization.cc b/python/lsst/sphgeom/_q3cPixelization.cc
index 71a47b5..12e68a5 100644
--- a/python/lsst/sphgeom/_q3cPixelization.cc
+++ b/python/lsst/sphgeom/_q3cPixelization.cc
@@ -27,6 +27,7 @@
  * along with this program.  If not, see <http://www.gnu.org/licenses/>.
  */
 #include "pybind11/pybind11.h"
+#include "pybind11/stl.h"
 
 #include "lsst/sphgeom/python.h"
 
-- 
2.43.0


From ae285eaeca86469553d69b0e4f6a338e8be651c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 45/46] fix: bounding circle of a box of no height south of the
 equator

Of the two circles around a pole it used the larger one (the whole sphere
for a box that is the south pole), because the latitude bounds have the same
absolute value.
---
 src/Box.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Box.cc b/src/Box.cc
index cf77239..4b0bf48 100644
--- a/src/Box.cc
+++ b/src/Box.cc
@@ -306,7 +306,7 @@ Circle Box::getBoundingCircle() const {
     // of the bounding circles centered at the north and south pole.
     Angle r;
     UnitVector3d v;
-    if (abs(_lat.getA()) <= abs(_lat.getB())) {
+    if (_lat.getA() + _lat.getB() >= Angle(0.0)) {
         v = UnitVector3d::Z();
         r = Angle(0.5 * PI) - _lat.getA();
     } else {
-- 
2.43.0


From c3bbd707597433cb8faeb9fca09f807f892a1369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 46/46] fix: pass on errors raised by items of an iterable
 given to RangeSet

A sequence of length 2 whose items cannot be read was dereferenced as a null
pointer, which ended the interpreter.
---
 python/lsst/sphgeom/_rangeSet.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/lsst/sphgeom/_rangeSet.cc b/python/lsst/sphgeom/_rangeSet.cc
index 0d3b3b7..9f8282b 100644
--- a/python/lsst/sphgeom/_rangeSet.cc
+++ b/python/lsst/sphgeom/_rangeSet.cc
@@ -58,12 +58,18 @@ uint64_t _uint64(py::handle const &obj) {
 RangeSet makeRangeSet(py::iterable iterable) {
     RangeSet rs;
     for (py::handle item : iterable) {
-        PyObject *o = item.ptr();
-        if (PySequence_Check(o) && PySequence_Size(o) == 2) {
-            uint64_t first = _uint64(py::reinterpret_steal<py::object>(
-                    PySequence_GetItem(o, 0)));
-            uint64_t last = _uint64(py::reinterpret_steal<py::object>(
-                    PySequence_GetItem(o, 1)));
+        // Errors raised by the length or items of a sequence are passed on.
+        py::ssize_t size = 0;
+        if (PySequence_Check(item.ptr())) {
+            size = PySequence_Size(item.ptr());
+            if (size == -1) {
+                throw py::error_already_set();
+            }
+        }
+        if (size == 2) {
+            auto pair = py::reinterpret_borrow<py::sequence>(item);
+            uint64_t first = _uint64(py::object(pair[0]));
+            uint64_t last = _uint64(py::object(pair[1]));
             rs.insert(first, last);
         } else {
             rs.insert(_uint64(item));
-- 
2.43.0

