// C38: printed forms denote exactly the values printed.
#include "geo.h"
#include "lsst/sphgeom/AngleInterval.h"
#include "lsst/sphgeom/Box3d.h"
#include "lsst/sphgeom/Interval1d.h"
#include "lsst/sphgeom/Matrix3d.h"
#include "lsst/sphgeom/RangeSet.h"
#include <cstdlib>

using namespace geo;

char const * const PROPERTY_ID = "C38";
char const * const NONTRIVIAL_RULE =
    "A case is a value of every printable type, printed and read back; non-trivial when a number in it needs all 17 digits, is not finite, or is a 64-bit integer above 2^53.";

// A printed form: its text with every number replaced by '#', and the numbers.
struct Form {
    std::string shape;
    std::vector<std::string> words;
};
static Form parse(std::string const & s) {
    Form f;
    std::size_t i = 0;
    while (i < s.size()) {
        char ch = s[i];
        if (ch == '"') {        // a key
            std::size_t e = s.find('"', i + 1);
            if (e == std::string::npos) FAILWITH("unfinished string in ", s);
            f.shape += s.substr(i, e + 1 - i);
            i = e + 1;
        } else if (ch == '-' || ch == '+' || std::isdigit(static_cast<unsigned char>(ch)) || ch == 'n' || ch == 'i') {
            std::size_t e = i;
            while (e < s.size() && (std::isalnum(static_cast<unsigned char>(s[e])) || s[e] == '.' || s[e] == '-' || s[e] == '+')) ++e;
            f.words.push_back(s.substr(i, e - i));
            f.shape += '#';
            i = e;
        } else {
            if (ch != ' ') f.shape += ch;      // (white space is not significant)
            ++i;
        }
    }
    return f;
}

static bool g_hard;
static void sameNumber(std::string const & w, double want, std::string const & all) {
    char * end = nullptr;
    double got = std::strtod(w.c_str(), &end);
    REQUIRE(end == w.c_str() + w.size(), "'", w, "' in ", all, " is not a number");
    REQUIRE((want != want && got != got) || got == want, "printed as ", w, ", which is not ", want, ", in ", all);
    if (want == 0) REQUIRE(std::signbit(got) == std::signbit(want), "the sign of zero is lost in ", all);
    char b[40];
    std::snprintf(b, sizeof b, "%.16g", want);
    if (!std::isfinite(want) || std::strtod(b, nullptr) != want) g_hard = true;
}

template <typename T>
static std::string print(T const & x, std::string const & before) {
    std::ostringstream os;
    os << before << x;
    REQUIRE(os.good(), "printing left the stream in a bad state");
    std::string s = os.str();
    REQUIRE(s.compare(0, before.size(), before) == 0, "earlier output was changed");
    os << x;
    std::string body = s.substr(before.size());
    REQUIRE(os.str() == s + body, "printing the same value twice gave different text: ", os.str());
    return body;
}

template <typename T>
static void check(T const & x, std::string const & shape, std::vector<double> const & numbers, char const * type) {
    std::string s = print(x, "x = ");
    Form f = parse(s);
    REQUIRE(f.shape == shape, "a ", type, " is printed as ", s, ", not in the form ", shape);
    REQUIRE(f.words.size() == numbers.size(), "a ", type, " is printed with ", f.words.size(), " numbers: ", s);
    for (std::size_t i = 0; i < numbers.size(); ++i) sameNumber(f.words[i], numbers[i], s);
}

static double number(Gen & g) {
    switch (g.below(8)) {
        case 0: return g.pick({0.0, -0.0, 1.0, -1.0, 0.1, 1e22, 1e23, 5e-324, -2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308});
        case 1: return g.pick({HUGE_VAL, -HUGE_VAL, std::nan("")});
        case 2: { std::uint64_t u = g.u64(); double d; std::memcpy(&d, &u, 8); return d; }
        case 3: return (g.coin() ? 1 : -1) * g.logUniform(-300, 300);
        case 4: return static_cast<double>(g.range(-1000, 1000)) / 8;
        default: return (g.coin() ? 1 : -1) * g.unit() * std::ldexp(1.0, g.range(-60, 10));
    }
}
static std::uint64_t integer(Gen & g) {
    switch (g.below(4)) {
        case 0: return g.below(20);
        case 1: return 0 - g.below(20);
        case 2: return (1ULL << g.below(64)) + g.below(3) - 1;
        default: return g.u64();
    }
}

LAW(numbers, 40000, 1000000, 8) {
    g_hard = false;
    double a = number(g), b = number(g), d = number(g);
    c.note(a, ' ', b, ' ', d);
    check(Angle(a), "#", {a}, "Angle");
    NormalizedAngle na(b);
    check(na, "#", {na.asRadians()}, "NormalizedAngle");
    check(Vector3d(a, b, d), "[#,#,#]", {a, b, d}, "Vector3d");
    check(Interval1d(a, b), "[#,#]", {a, b}, "Interval1d");
    check(AngleInterval(Angle(a), Angle(b)), "[#,#]", {a, b}, "AngleInterval");
    NormalizedAngleInterval ni{NormalizedAngle(a), NormalizedAngle(d)};
    check(ni, "[#,#]", {ni.getA().asRadians(), ni.getB().asRadians()}, "NormalizedAngleInterval");
    Box3d b3(Interval1d(a, b), Interval1d(b, d), Interval1d(d));
    check(b3, "{\"Box3d\":[[#,#],[#,#],[#,#]]}", {b3.x().getA(), b3.x().getB(), b3.y().getA(), b3.y().getB(), b3.z().getA(), b3.z().getB()}, "Box3d");
    check(Matrix3d(a, b, d, b, a, a, d, d, b), "[[#,#,#],[#,#,#],[#,#,#]]", {a, b, d, b, a, a, d, d, b}, "Matrix3d");
    if (g_hard) c.nontrivial();
}

LAW(regions, 40000, 1000000, 8) {
    g_hard = false;
    World w(g);
    UnitVector3d u = w.unit();
    check(u, "[#,#,#]", {u.x(), u.y(), u.z()}, "UnitVector3d");
    LonLat p(u);
    check(p, "[#,#]", {p.getLon().asRadians(), p.getLat().asRadians()}, "LonLat");
    double e = number(g);
    if (e == e) check(Circle(u, e), "{\"Circle\":[[#,#,#],#]}", {u.x(), u.y(), u.z(), e}, "Circle");
    std::unique_ptr<Region> r = w.region(w.SIMPLE);
    c.note(show(*r));
    if (auto k = dynamic_cast<Box const *>(r.get())) {
        check(*k, "{\"Box\":[[#,#],[#,#]]}", {k->getLon().getA().asRadians(), k->getLon().getB().asRadians(), k->getLat().getA().asRadians(), k->getLat().getB().asRadians()}, "Box");
    } else if (auto k = dynamic_cast<Circle const *>(r.get())) {
        UnitVector3d v = k->getCenter();
        check(*k, "{\"Circle\":[[#,#,#],#]}", {v.x(), v.y(), v.z(), k->getSquaredChordLength()}, "Circle");
    } else if (auto k = dynamic_cast<Ellipse const *>(r.get())) {
        std::vector<double> n;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) n.push_back(k->getTransformMatrix()(i, j));
        n.push_back(k->getAlpha().asRadians());
        n.push_back(k->getBeta().asRadians());
        check(*k, "{\"Ellipse\":[[[#,#,#],[#,#,#],[#,#,#]],#,#]}", n, "Ellipse");
    } else {
        auto q = dynamic_cast<ConvexPolygon const *>(r.get());
        std::string shape = "{\"ConvexPolygon\":[";
        std::vector<double> n;
        for (auto & v : q->getVertices()) { shape += n.empty() ? "[#,#,#]" : ",[#,#,#]"; for (int i = 0; i < 3; ++i) n.push_back(v(i)); }
        check(*q, shape + "]}", n, "ConvexPolygon");
    }
    if (g_hard) c.nontrivial();
}

LAW(range_sets, 30000, 800000, 8) {
    RangeSet s;
    int n = g.range(0, 12);
    for (int i = 0; i < n; ++i) s.insert(integer(g), integer(g));
    if (g.chance(1, 4)) s.complement();
    std::string text = print(s, "");
    c.note(text);
    Form f = parse(text);
    std::vector<std::uint64_t> want;
    std::string shape = "{\"RangeSet\":[";
    for (auto const & t : s) {
        shape += want.empty() ? "[#,#]" : ",[#,#]";
        want.push_back(std::get<0>(t));
        want.push_back(std::get<1>(t));
    }
    shape += "]}";
    REQUIRE(f.shape == shape, "printed as ", text);
    REQUIRE(f.words.size() == want.size(), "printed as ", text);
    RangeSet back;
    for (std::size_t i = 0; i < want.size(); ++i) {
        REQUIRE(f.words[i] == std::to_string(want[i]), f.words[i], " is printed for ", want[i]);
        if (want[i] > (1ULL << 53)) c.nontrivial();
        if (i % 2) back.insert(std::strtoull(f.words[i - 1].c_str(), nullptr, 10), std::strtoull(f.words[i].c_str(), nullptr, 10));
    }
    REQUIRE(back == s, "the ranges printed, ", text, ", are not those of the set");
}
