// The portable forms of the primitive encoders, compiled with
// NO_OPTIMIZED_PATHS in a renamed namespace, behind plain functions.
#include <cstring>
#include "lsst/sphgeom/codec.h"
namespace S = lsst::sphgeom;
extern "C" {
void v_encodeDouble(double d, unsigned char * o) { std::vector<std::uint8_t> b(2, 7); S::encodeDouble(d, b); std::memcpy(o, b.data() + 2, b.size() - 2); }
void v_encodeU64(std::uint64_t u, unsigned char * o) { std::vector<std::uint8_t> b(2, 7); S::encodeU64(u, b); std::memcpy(o, b.data() + 2, b.size() - 2); }
double v_decodeDouble(unsigned char const * b) { return S::decodeDouble(b); }
std::uint64_t v_decodeU64(unsigned char const * b) { return S::decodeU64(b); }
}
