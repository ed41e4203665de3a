// The scalar forms of the curve functions, compiled with NO_SIMD in a renamed
// namespace, behind plain functions.
#include <cstdint>
#include <tuple>
#include "lsst/sphgeom/curve.h"
namespace S = lsst::sphgeom;
extern "C" {
std::uint64_t v_mortonIndex(std::uint32_t x, std::uint32_t y) { return S::mortonIndex(x, y); }
void v_mortonInverse(std::uint64_t z, std::uint32_t * o) { std::tie(o[0], o[1]) = S::mortonIndexInverse(z); }
std::uint64_t v_hilbertIndex(std::uint32_t x, std::uint32_t y, int m) { return S::hilbertIndex(x, y, m); }
void v_hilbertInverse(std::uint64_t h, int m, std::uint32_t * o) { std::tie(o[0], o[1]) = S::hilbertIndexInverse(h, m); }
}
