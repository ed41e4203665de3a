// A small property-based-testing engine: choice-tape generation (every random
// decision is one recorded integer), integrated shrinking on the tape, forked
// workers, crash and hang capture, replay.  See DESIGN.md, "Engine".
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Discard {};

inline std::uint64_t splitmix(std::uint64_t & s) {
    std::uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

// The recorded choices of the current case. It lives in memory shared with the
// parent, so that a crash leaves the tape behind.
struct Tape {
    static constexpr std::uint32_t CAP = 1u << 16;
    volatile std::uint32_t size;
    std::uint64_t data[CAP];
};

class Gen {
public:
    Gen(Tape * rec, std::uint64_t seed) : _rec(rec), _state(seed), _replay(nullptr) { _rec->size = 0; }
    Gen(Tape * rec, std::vector<std::uint64_t> const & replay) : _rec(rec), _state(0), _replay(&replay) {
        _rec->size = 0;
    }

    // A choice in [0, n). 0 is always the simplest.
    std::uint64_t below(std::uint64_t n) {
        if (n <= 1) n = 1;
        std::uint64_t v;
        if (_replay) {
            v = (_pos < _replay->size()) ? (*_replay)[_pos] : 0;
            if (v >= n) v = v % n;
        } else {
            v = splitmix(_state);
            v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
        }
        return record(v);
    }
    std::uint64_t u64() {
        std::uint64_t v = _replay ? ((_pos < _replay->size()) ? (*_replay)[_pos] : 0) : splitmix(_state);
        return record(v);
    }
    int range(int lo, int hi) { return lo + static_cast<int>(below(static_cast<std::uint64_t>(hi - lo) + 1)); }
    bool chance(int num, int den) { return below(den) >= static_cast<std::uint64_t>(den - num); }
    bool coin() { return below(2) != 0; }
    // Uniform in [0, 1).
    double unit() { return static_cast<double>(below(1ULL << 53)) * 0x1p-53; }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    template <typename T>
    T pick(std::vector<T> const & v) { return v[below(v.size())]; }
    template <typename T>
    T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // Log-uniform magnitude 10^[lo, hi].
    double logUniform(double lo, double hi) { return std::pow(10.0, uniform(lo, hi)); }
    std::uint64_t hash() const {
        std::uint64_t h = 1469598103934665603ULL;
        for (std::uint32_t i = 0; i < _rec->size; ++i) {
            h ^= _rec->data[i];
            h *= 1099511628211ULL;
            h ^= h >> 29;
        }
        return h;
    }

private:
    std::uint64_t record(std::uint64_t v) {
        ++_pos;
        std::uint32_t n = _rec->size;
        if (n >= Tape::CAP) throw Discard();
        _rec->data[n] = v;
        _rec->size = n + 1;
        return v;
    }
    Tape * _rec;
    std::uint64_t _state;
    std::vector<std::uint64_t> const * _replay;
    std::size_t _pos = 0;
};

// Per-case context handed to a law.
struct Ctx {
    bool thorough = false;
    bool describing = false;
    bool isNontrivial = false;
    std::ostringstream desc;
    std::vector<char const *> labels;
    std::uint64_t excluded = 0;

    // Marks the case as non-trivial by the property's stated rule.
    void nontrivial() { isNontrivial = true; }
    // Counts a class of case; `l` must be a string literal.
    void label(char const * l) { labels.push_back(l); }
    void label(bool b, char const * l) { if (b) labels.push_back(l); }
    template <typename... A>
    void note(A const &... a) {
        if (describing) {
            desc.precision(17);
            (void)std::initializer_list<int>{((desc << a), 0)...};
            desc << "; ";
        }
    }
};

typedef void (*LawFn)(Gen &, Ctx &);

struct Law {
    char const * name;
    LawFn fn;
    long quick;     // cases in the quick tier
    long thorough;  // cases in the thorough tier
    int sanPct;     // share of the cases repeated in the sanitizer build, in percent
};

std::vector<Law> & laws();

struct Reg {
    Reg(char const * name, LawFn fn, long quick, long thorough, int sanPct) {
        laws().push_back(Law{name, fn, quick, thorough, sanPct});
    }
};

template <typename... A>
std::string cat(A const &... a) {
    std::ostringstream os;
    os.precision(17);
    (void)std::initializer_list<int>{((os << a), 0)...};
    return os.str();
}

}  // namespace pbt

// LAW(name, quick, thorough, sanPct) { body using g and c }
#define LAW(NAME, QUICK, THOROUGH, SANPCT)                                          \
    static void law_##NAME(pbt::Gen & g, pbt::Ctx & c);                             \
    static pbt::Reg reg_##NAME(#NAME, law_##NAME, QUICK, THOROUGH, SANPCT);         \
    static void law_##NAME([[maybe_unused]] pbt::Gen & g, [[maybe_unused]] pbt::Ctx & c)

#define REQUIRE(cond, ...)                                                          \
    do {                                                                            \
        if (!(cond)) throw pbt::Failure(pbt::cat(#cond, " failed: ", ##__VA_ARGS__)); \
    } while (0)
#define FAILWITH(...) throw pbt::Failure(pbt::cat(__VA_ARGS__))
#define DISCARD(...) throw pbt::Discard()

// Set by each property's source file.
extern char const * const PROPERTY_ID;
extern char const * const NONTRIVIAL_RULE;

#endif
