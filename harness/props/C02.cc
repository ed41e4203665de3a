// C02: BigInteger arithmetic is exact integer arithmetic (model: cpp_int).
#include "pbt.h"
#include <boost/multiprecision/cpp_int.hpp>
#include <memory>
#include "lsst/sphgeom/BigInteger.h"

using namespace lsst::sphgeom;
using boost::multiprecision::cpp_int;

char const * const PROPERTY_ID = "C02";
char const * const NONTRIVIAL_RULE =
    "A case is a history of up to 24 operations on up to four integers with 32-bit digit arrays between guard words; "
    "it is non-trivial when some operand has two or more digits at an arithmetic operation.";

namespace {

// One integer under test: exactly `cap` digits between guard words (and an
// exact-size heap block, so that the sanitizer build sees overruns by itself).
struct Num {
    static constexpr std::uint32_t GUARD = 0xdeadbeef;
    unsigned cap;
    std::unique_ptr<std::uint32_t[]> mem;
    BigInteger v;
    cpp_int model = 0;
    Num(unsigned c, std::uint32_t fill, unsigned pad) : cap(c), mem(new std::uint32_t[c + 2 * pad]), v(mem.get() + pad, c), _pad(pad) {
        for (unsigned i = 0; i < c + 2 * pad; ++i) mem[i] = fill;
        for (unsigned i = 0; i < pad; ++i) { mem[i] = GUARD; mem[c + pad + i] = GUARD; }
    }
    bool guardsOk() const {
        for (unsigned i = 0; i < _pad; ++i) if (mem[i] != GUARD || mem[cap + _pad + i] != GUARD) return false;
        return true;
    }
    unsigned _pad;
};

cpp_int value(BigInteger const & b) {
    cpp_int r = 0;
    for (unsigned i = b.getSize(); i > 0; --i) { r <<= 32; r += b.getDigits()[i - 1]; }
    return b.getSign() < 0 ? cpp_int(-r) : r;
}

void check(Num const & n, char const * what) {
    REQUIRE(n.guardsOk(), "write outside the digit array in ", what);
    REQUIRE(n.v.getCapacity() == n.cap);
    REQUIRE(n.v.getSize() <= n.cap, "size exceeds capacity after ", what);
    int s = n.model < 0 ? -1 : (n.model > 0 ? 1 : 0);
    REQUIRE(value(n.v) == n.model && n.v.getSign() == s, what, ": got ", value(n.v), " (sign ", n.v.getSign(), ", size ",
            n.v.getSize(), ") want ", n.model);
    REQUIRE(n.v.getSize() == 0 || n.v.getDigits()[n.v.getSize() - 1] != 0, "leading zero digit after ", what);
    REQUIRE((n.v.getSize() == 0) == (n.v.getSign() == 0), "zero is not digitless after ", what);
}

unsigned digitsOf(cpp_int v) {
    if (v < 0) v = -v;
    unsigned n = 0;
    while (v != 0) { v >>= 32; ++n; }
    return n;
}

std::uint64_t genWord(pbt::Gen & g) {
    switch (g.below(6)) {
        case 0: return g.below(4);
        case 1: return g.u64();
        case 2: return g.u64() >> g.below(64);
        case 3: return 1ULL << g.below(64);
        case 4: return (1ULL << g.below(64)) - 1;
        default: return ~0ULL << g.below(64);
    }
}

void history(pbt::Gen & g, pbt::Ctx & c, int maxOps, unsigned pad, bool tight) {
    std::vector<std::unique_ptr<Num>> n;
    int count = g.range(1, 4);
    for (int i = 0; i < count; ++i) {
        unsigned cap = tight ? 2 + g.below(6) : 2 + g.below(40);
        n.emplace_back(new Num(cap, g.coin() ? 0xffffffffu : 0xa5a5a5a5u, pad));
    }
    int ops = g.range(1, maxOps);
    for (int k = 0; k < ops; ++k) {
        Num & a = *n[g.below(count)];
        Num & b = *n[g.below(count)];
        bool threw = false;
        unsigned need = 0;
        char const * what = "";
        int op = g.below(8);
        bool arith = op >= 3;
        if (arith && (a.v.getSize() >= 2 || b.v.getSize() >= 2)) c.nontrivial();
        cpp_int want = a.model;
        try {
            switch (op) {
                case 0: { auto w = static_cast<std::int64_t>(genWord(g)); need = 2; what = "setTo(int64)"; want = w; c.note(what, ' ', w); a.v.setTo(w); break; }
                case 1: { auto w = genWord(g); need = 2; what = "setTo(uint64)"; want = w; c.note(what, ' ', w); a.v.setTo(w); break; }
                case 2: what = "assign"; need = b.v.getSize(); want = b.model; c.note(what); a.v = b.v; break;
                case 3: what = "negate"; want = -a.model; c.note(what); a.v.negate(); break;
                case 4: what = "add"; need = std::max(a.v.getSize(), b.v.getSize()) + 1; want = a.model + b.model;
                        c.note(what, &a == &b ? " self" : ""); a.v.add(b.v); break;
                case 5: what = "subtract"; need = std::max(a.v.getSize(), b.v.getSize()) + 1; want = a.model - b.model;
                        c.note(what, &a == &b ? " self" : ""); a.v.subtract(b.v); break;
                case 6: what = "multiply"; need = a.v.getSize() + b.v.getSize(); want = a.model * b.model;
                        c.label(&a == &b, "square"); c.label(a.v.getSize() >= 2 && a.v.getSize() < b.v.getSize(), "multiply small by big");
                        c.note(what, &a == &b ? " self" : ""); a.v.multiply(b.v); break;
                default: { unsigned s = g.coin() ? g.below(40) : 32 * g.below(5) + g.below(3); what = "multiplyPow2";
                        need = a.v.getSize() + s / 32 + 1; want = a.model << s; c.label(s >= 64 && s % 32, "shift over two digits");
                        c.note(what, ' ', s); a.v.multiplyPow2(s); break; }
            }
        } catch (std::runtime_error const &) {
            threw = true;
        }
        if (threw) {
            REQUIRE(need > a.cap, what, " threw although the digit array is big enough (need ", need, " of ", a.cap, ")");
            for (auto & x : n) REQUIRE(x->guardsOk(), "write outside the digit array in failed ", what);
            c.label("capacity exceeded");
            return;
        }
        a.model = want;
        REQUIRE(digitsOf(want) <= a.cap, what, " did not throw although the result needs more digits than there are");
        for (auto & x : n) check(*x, what);
    }
}

}  // namespace

LAW(histories_roomy, 60000, 2000000, 20) { history(g, c, 24, 3, false); }
LAW(histories_tight, 60000, 2000000, 20) { history(g, c, 12, 0, true); }
