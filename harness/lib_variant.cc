// The library compiled with NO_SIMD and NO_OPTIMIZED_PATHS in a renamed
// namespace, behind plain functions on bytes and numbers.
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <vector>
#include "lsst/sphgeom/Box.h"
#include "lsst/sphgeom/Circle.h"
#include "lsst/sphgeom/CompoundRegion.h"
#include "lsst/sphgeom/ConvexPolygon.h"
#include "lsst/sphgeom/Ellipse.h"
#include "lsst/sphgeom/HtmPixelization.h"
#include "lsst/sphgeom/Mq3cPixelization.h"
#include "lsst/sphgeom/Q3cPixelization.h"
#include "lsst/sphgeom/RangeSet.h"
#include "lsst/sphgeom/Region.h"
#include "lsst/sphgeom/UnitVector3d.h"
#include "lsst/sphgeom/Vector3d.h"
namespace S = lsst::sphgeom;
typedef std::vector<std::uint8_t> Bytes;

static std::unique_ptr<S::Pixelization> make(int kind, int level) {
    if (kind == 0) return std::unique_ptr<S::Pixelization>(new S::HtmPixelization(level));
    if (kind == 1) return std::unique_ptr<S::Pixelization>(new S::Q3cPixelization(level));
    return std::unique_ptr<S::Pixelization>(new S::Mq3cPixelization(level));
}
static std::unique_ptr<S::Region> region(Bytes const & b) { return S::Region::decode(b.data(), b.size()); }

// (These take and return types of the standard library only, which both
// builds of the library share.)
namespace variant {
double normalize(double * v) { S::Vector3d w(v[0], v[1], v[2]); double n = w.normalize(); v[0] = w.x(); v[1] = w.y(); v[2] = w.z(); return n; }
Bytes recode(Bytes const & b) { return region(b)->encode(); }
bool contains(Bytes const & b, double x, double y, double z) { return region(b)->contains(S::UnitVector3d::fromNormalized(x, y, z)); }
unsigned long relate(Bytes const & a, Bytes const & b) { return region(a)->relate(*region(b)).to_ulong(); }
Bytes box(Bytes const & b) { return region(b)->getBoundingBox().encode(); }
Bytes circle(Bytes const & b) { return region(b)->getBoundingCircle().encode(); }
std::uint64_t index(int kind, int level, double x, double y, double z) { return make(kind, level)->index(S::UnitVector3d::fromNormalized(x, y, z)); }
Bytes pixel(int kind, int level, std::uint64_t i) { return make(kind, level)->pixel(i)->encode(); }
std::string name(int kind, int level, std::uint64_t i) { return make(kind, level)->toString(i); }
std::vector<std::uint64_t> ranges(int kind, int level, Bytes const & b, std::size_t maxRanges, bool interior) {
    auto p = make(kind, level);
    auto r = region(b);
    S::RangeSet s = interior ? p->interior(*r, maxRanges) : p->envelope(*r, maxRanges);
    std::vector<std::uint64_t> o;
    for (auto t : s) { o.push_back(std::get<0>(t)); o.push_back(std::get<1>(t)); }
    return o;
}
std::vector<std::uint64_t> neighborhood(int kind, std::uint64_t i) { return kind == 1 ? std::vector<std::uint64_t>() : S::Mq3cPixelization::neighborhood(i); }
std::vector<std::uint64_t> q3cNeighborhood(int level, std::uint64_t i) { return S::Q3cPixelization(level).neighborhood(i); }
int level(int kind, std::uint64_t i) { return kind == 0 ? S::HtmPixelization::level(i) : S::Mq3cPixelization::level(i); }
Bytes fromLonLat(double lon, double lat, double r) { return S::Circle(S::UnitVector3d(S::Angle(lon), S::Angle(lat)), S::Angle(r)).encode(); }
}  // namespace variant
