// Reference model of a set of unsigned 64 bit integers: a sorted list of
// disjoint, non-adjacent half-open ranges over [0, 2^64].
#ifndef VERIF_RSMODEL_H_
#define VERIF_RSMODEL_H_

#include <algorithm>
#include <tuple>
#include "pbt.h"
#include "lsst/sphgeom/RangeSet.h"

typedef unsigned __int128 U;
static const U TOP = static_cast<U>(1) << 64;

struct Model {
    std::vector<std::pair<U, U>> r;
    static Model range(std::uint64_t first, std::uint64_t last) {
        Model m;
        if (first == last) m.r = {{0, TOP}};
        else if (last == 0) m.r = {{first, TOP}};
        else if (first < last) m.r = {{first, last}};
        else m.r = {{0, last}, {first, TOP}};
        return m;
    }
    static Model fromList(std::vector<std::pair<U, U>> v) {
        std::sort(v.begin(), v.end());
        Model m;
        for (auto & p : v) {
            if (p.first >= p.second) continue;
            if (!m.r.empty() && p.first <= m.r.back().second) m.r.back().second = std::max(m.r.back().second, p.second);
            else m.r.push_back(p);
        }
        return m;
    }
    Model complement() const {
        Model m;
        U at = 0;
        for (auto & p : r) { if (p.first > at) m.r.push_back({at, p.first}); at = p.second; }
        if (at < TOP) m.r.push_back({at, TOP});
        return m;
    }
    Model join(Model const & o) const {
        auto v = r;
        v.insert(v.end(), o.r.begin(), o.r.end());
        return fromList(v);
    }
    Model meet(Model const & o) const {
        std::vector<std::pair<U, U>> v;
        for (auto & a : r) for (auto & b : o.r) v.push_back({std::max(a.first, b.first), std::min(a.second, b.second)});
        return fromList(v);
    }
    Model minus(Model const & o) const { return meet(o.complement()); }
    Model sym(Model const & o) const { return minus(o).join(o.minus(*this)); }
    bool empty() const { return r.empty(); }
    bool full() const { return r.size() == 1 && r[0].first == 0 && r[0].second == TOP; }
    bool has(std::uint64_t u) const { for (auto & p : r) if (p.first <= u && u < p.second) return true; return false; }
    Model simplified(unsigned n) const {
        if (n >= 64) { Model m; if (!r.empty()) m.r = {{0, TOP}}; return m; }
        U s = static_cast<U>(1) << n;
        auto v = r;
        for (auto & p : v) { p.first = p.first / s * s; p.second = (p.second + s - 1) / s * s; }
        return fromList(v);
    }
    Model scaled(std::uint64_t k) const {
        std::vector<std::pair<U, U>> v;
        for (auto p : r) {
            U lo, hi;
            // end points at most 2^64, so products are clipped before they can overflow
            lo = (k != 0 && p.first > TOP / k) ? TOP : p.first * k;
            hi = (k != 0 && p.second > TOP / k) ? TOP : p.second * k;
            v.push_back({std::min(lo, TOP), std::min(hi, TOP)});
        }
        return fromList(v);
    }
};

inline std::string show(Model const & m) {
    std::ostringstream os;
    os << '{';
    for (auto & p : m.r) {
        os << '[' << static_cast<std::uint64_t>(p.first) << ',';
        if (p.second == TOP) os << "2^64"; else os << static_cast<std::uint64_t>(p.second);
        os << ") ";
        if (os.tellp() > 400) { os << "..."; break; }
    }
    os << '}';
    return os.str();
}

// The contents of a RangeSet read through its iterators.
template <typename It>
Model readRanges(It b, It e) {
    Model m;
    for (; b != e; ++b) {
        auto t = *b;
        U lo = std::get<0>(t), hi = std::get<1>(t);
        if (hi == 0) hi = TOP;
        m.r.push_back({lo, hi});
        if (m.r.size() > 1000000) FAILWITH("iteration over a range set does not end");
    }
    return m;
}
inline Model readSet(lsst::sphgeom::RangeSet const & s) { return readRanges(s.begin(), s.end()); }
#endif
