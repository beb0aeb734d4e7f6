// Scalar functions.
#include "susagen.h"
using namespace sg;
typedef __int128 I;

// any value of the type: small, near powers of two and the limits, or uniform
template <class U> static U anyword(Gen& g)
{
    const unsigned w = sizeof(U) * 8; uint64_t all = w == 64 ? ~0ull : (1ull << w) - 1;
    switch (g.draw(3))
    {
    case 0: return (U)g.draw(20);
    case 1: return (U)(((uint64_t)1 << g.draw(w - 1)) + (uint64_t)g.sint(3));
    case 2: return (U)(all - g.draw(20));
    default: return (U)(g.draw(all) >> g.draw(w - 1));
    }
}
static long anylong(Gen& g) { uint64_t u = anyword<uint64_t>(g); return (long)(g.flip() ? u : 0 - u); }
template <class U> static void logarithm(Gen& g)
{
    U x = anyword<U>(g); if (!x) x = 1; int e = 63 - __builtin_clzll((uint64_t)x); NOTE(g, "log2(" << pbt::str(x) << ") of " << sizeof(U) * 8 << " bits");
    g.label("log2 " + std::to_string(sizeof(U) * 8)); g.nontrivial(x > 1); PBT_CHECK((int)susa::log2(x) == e, "log2(" << pbt::str(x) << ") of " << sizeof(U) * 8 << " bits is " << (int)susa::log2(x) << " instead of " << e);
}
template <class T> static void signs(Gen& g)
{
    T x; switch (g.draw(4)) { case 0: x = scalar<T>(g, 100, true); break; case 1: x = std::numeric_limits<T>::max(); break; case 2: x = std::numeric_limits<T>::lowest(); break; case 3: x = std::numeric_limits<T>::min(); break; default: x = std::is_floating_point<T>::value ? -(T)std::numeric_limits<T>::denorm_min() : T(0); }
    int e = x > 0 ? 1 : x < 0 ? -1 : 0; NOTE(g, "sign(" << pbt::str(x) << ")"); g.label(std::string("sign ") + tname<T>()); g.nontrivial();
    int v = susa::sign(x); PBT_CHECK(v == e, "sign(" << pbt::str(x) << ") is " << v);
}
static double anyreal(Gen& g)
{
    switch (g.draw(5)) { case 5: { double x = g.sint(2000) / 2.0; return std::nextafter(x, g.flip() ? 1e9 : -1e9); } case 0: return g.real(-8, 8); case 1: return g.real(-1000, 1000); case 2: return g.sint(2000) / 2.0; case 3: return std::ldexp(g.real(-1, 1), (int)g.range(-60, 51)); default: return g.real(-1e9, 1e9); }
}
static void rounding(double x, int d, double r, const std::string& what)
{
    long double p = 1; for (int i = 0; i < d; i++) p *= 10;
    long double k = std::round(r * p), slack = d > 0 ? 4 * std::numeric_limits<double>::epsilon() * (std::fabs((long double)x * p) + 1) : 0; // integers: exact
    PBT_CHECK(std::fabs(r * p - k) <= slack, what << " is " << r << ", which has more decimals");
    PBT_CHECK(std::fabs((long double)x * p - k) <= 0.5L + slack, what << " is " << r << ", which is not the nearest");
    // a product and a quotient may round on the way, by half a unit in the last place each; nothing more
    long double two = 1.02L * std::numeric_limits<double>::epsilon() * std::fabs((long double)x * p);
    PBT_CHECK(std::fabs((long double)x - r) * p <= 0.5L + (d > 0 ? two : 0), what << " is " << r << ", which is further than half a last decimal away");
}
static void property(Gen& g)
{
    switch (g.draw(8))
    {
    case 0: { // powers
        bool u = g.flip();
        if (u)
        {
            unsigned b = anyword<unsigned>(g), p = (unsigned)g.size(0, 70); unsigned e = 1; for (unsigned i = 31; i < 32; i--) { e *= e; if (p >> i & 1) e *= b; }
            NOTE(g, "pow(" << b << "u," << p << ")"); g.label("pow unsigned"); g.nontrivial(b > 1 && p > 1); unsigned v = susa::pow(b, p); PBT_CHECK(v == e, "pow(" << b << "u," << p << ") is " << v << " instead of " << e);
        }
        else
        {
            unsigned p = (unsigned)g.size(0, 40); int b = g.flip() ? (int)g.sint(12) : (int)anyword<unsigned>(g); I e = 1; bool fits = true;
            for (unsigned i = 0; i < p && fits; i++) { e *= b; fits = e <= INT32_MAX && e >= INT32_MIN; if (b >= -1 && b <= 1) fits = true; }
            if (!fits) { g.label("not representable (skipped)"); return; }
            NOTE(g, "pow(" << b << "," << p << ")"); g.label("pow int"); g.nontrivial((b > 1 || b < -1) && p > 1); int v = susa::pow(b, p); PBT_CHECK(v == (int)e, "pow(" << b << "," << p << ") is " << v << " instead of " << (int)e);
        }
        break; }
    case 1: switch (g.draw(4)) { case 0: logarithm<uint8_t>(g); break; case 1: logarithm<uint16_t>(g); break; case 2: logarithm<uint32_t>(g); break; case 3: logarithm<uint64_t>(g); break; default: logarithm<size_t>(g); } break;
    case 2: case 3: { // floor remainder
        long a = anylong(g), m = anylong(g); if (m == 0) m = g.flip() ? 1 : -1;
        I r = (I)a % m; if (r != 0 && (r < 0) != (m < 0)) r += m;
        NOTE(g, "mod(" << a << "," << m << ")"); g.label(m > 0 ? a >= 0 ? "mod ++" : "mod -+" : a >= 0 ? "mod +-" : "mod --"); g.nontrivial(m != 1); long v = susa::mod(a, m);
        PBT_CHECK(v == (long)r, "mod(" << a << "," << m << ") is " << v << " instead of " << (long)r); break; }
    case 4: case 5: { // rounding
        int d = (int)g.range(-1, 12); double x = anyreal(g); double sc = d > 0 ? std::pow(10.0, d) : 1, lim = 9007199254740992.0 / sc; if (std::fabs(x) > lim) x = std::fmod(x, lim);
        if (!g.draw(5)) x = (g.flip() ? 1 : -1) * ((double)(((uint64_t)1 << g.range(46, 52)) + g.draw((uint64_t)1 << 46)) + 0.5 * (double)g.draw(1)) / sc; // the largest values a double holds to that decimal
        if (g.flip())
        {
            bool dflt = d == -1 && g.flip(); double r = dflt ? susa::round(x) : susa::round(x, d); std::ostringstream w; w.precision(17); w << "round(" << x << "," << d << ")"; NOTE(g, w.str()); g.label(d > 0 ? "round to decimals" : "round to integers"); g.nontrivial(x != 0);
            rounding(x, d > 0 ? d : 0, r, w.str());
        }
        else
        {
            size_t r, c; dims(g, r, c, 8); Mod<double> a(r, c); for (auto& v : a.v) { v = anyreal(g); if (std::fabs(v) > lim) v = std::fmod(v, lim); } auto A = make<susa::matrix<double>>(a); NOTE(g, "round " << show(a) << " to " << d); g.label("round matrix"); g.nontrivial(r * c > 1);
            auto R = d == -1 ? susa::round(A) : susa::round(A, d); Mod<double> e = a; for (auto& v : e.v) v = susa::round(v, d); same(R, e, "round of a matrix"); same(A, a, "the input of round");
            for (size_t i = 0; i < r * c; i++) rounding(a.v[i], d > 0 ? d : 0, e.v[i], "round of a matrix: an element");
        }
        break; }
    case 6: case 7: { // normal distribution
        double x, y; auto any = [&]() -> double { switch (g.draw(4)) { case 0: case 1: return g.real(-6, 6); case 2: return g.real(-40, 40); case 3: return std::ldexp(g.real(-1, 1), (int)g.range(-40, 4)); default: return (g.flip() ? 1 : -1) * (g.flip() ? 1e300 : g.real(40, 1e6)); } };
        x = any(); y = g.flip() ? x + std::fabs(g.real(0, 0.1)) : any(); if (y < x) std::swap(x, y);
        NOTE(g, "normcdf, qfunc of " << x << " and " << y); g.label(x < 0 ? "normal, negative" : "normal, positive"); g.nontrivial(x != 0);
        double c = susa::normcdf(x), q = susa::qfunc(x), e = 0.5 * std::erfc(-x / std::sqrt(2.0)), f = 0.5 * std::erfc(x / std::sqrt(2.0));
        PBT_CHECK(std::fabs(c - e) <= 1e-7, "normcdf(" << x << ") is " << c << " instead of " << e); PBT_CHECK(std::fabs(q - f) <= 1e-7, "qfunc(" << x << ") is " << q << " instead of " << f);
        PBT_CHECK(std::fabs(c + q - 1) <= 1e-12, "normcdf(" << x << ")+qfunc(" << x << ") is " << c + q); PBT_CHECK(c <= susa::normcdf(y) + 2e-7, "normcdf(" << x << ") is above normcdf(" << y << ")"); break; }
    default: with_type<double, int, float, long long, int8_t, unsigned, short>(g, [&](auto t) { signs<decltype(t)>(g); });
    }
}
#include "pbt_main.h"
