// Element-wise operators, comparisons and conversions.
#include "susagen.h"
using namespace sg;

template <class T> static bool eq(T a, T b)
{
    if constexpr (std::is_floating_point<T>::value)
    {
        if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
        return a == b;
    }
    else if constexpr (is_cplx<T>::value && std::is_floating_point<typename is_cplx<T>::real>::value)
    {
        if (a == b) return true;
        if (!std::isfinite(a.real()) || !std::isfinite(a.imag()) || !std::isfinite(b.real()) || !std::isfinite(b.imag()))
            return !(std::isfinite(a.real()) && std::isfinite(a.imag())) && !(std::isfinite(b.real()) && std::isfinite(b.imag()));
        return std::abs(a - b) <= 8 * std::numeric_limits<typename is_cplx<T>::real>::epsilon() * std::abs(b);
    }
    else return a == b;
}
template <class T, class A> static void equal(const susa::matrix<T, A>& m, const Mod<T>& d, const char* what)
{
    PBT_CHECK(m.no_rows() == d.r && m.no_cols() == d.c, what << ": shape is " << m.no_rows() << "x" << m.no_cols() << " instead of " << d.r << "x" << d.c);
    for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++)
        PBT_CHECK(eq<T>(m(i, j), d.at(i, j)), what << ": element (" << i << "," << j << ") of " << d.r << "x" << d.c << " is "
                  << pbt::str((T)m(i, j)) << " instead of " << pbt::str((T)d.at(i, j)));
}
template <class T> static T value(Gen& g, bool special)
{
    if constexpr (std::is_floating_point<T>::value)
        if (special && g.once_in(6))
            return g.pick({(T)INFINITY, (T)-INFINITY, (T)NAN, (T)-0.0, std::numeric_limits<T>::max(), std::numeric_limits<T>::min()});
    if constexpr (std::is_floating_point<T>::value) if (g.flip()) return (T)g.real(-10, 10);
    return scalar<T>(g, 10, true);
}
template <class T> static T nonzero(Gen& g, bool special) { T x = value<T>(g, special); return (std::is_floating_point<T>::value && special) || x != T(0) ? x : T(1); }
template <class T> static Mod<T> vals(Gen& g, size_t r, size_t c, bool nz, bool special)
{
    Mod<T> d(r, c);
    if (r * c > 150) { d = fill<T>(g, r, c, 10, true); if (nz) for (auto& v : d.v) if (v == T(0)) v = T(3); return d; }
    for (auto& v : d.v) v = nz ? nonzero<T>(g, special) : value<T>(g, special);
    return d;
}

template <class T, class A> static void arith(Gen& g)
{
    typedef susa::matrix<T, A> M;
    size_t r, c; if (g.once_in(4000)) bigdims(g, r, c); else dims(g, r, c);
    bool special = g.once_in(4);
    uint64_t op = g.draw(13);
    bool div = op == 8 || op == 9;
    Mod<T> x = vals<T>(g, r, c, false, special), y = vals<T>(g, r, c, div, special);
    T s = div ? nonzero<T>(g, special) : value<T>(g, special);
    bool alias = g.once_in(5) && op != 8;
    if (alias) y = x;
    M a = make<M>(x), b0 = make<M>(y);
    const M& b = alias ? a : b0;
    const M& ca = a;
    Mod<T> e(r, c);
    static const char* nm[] = {"m+m", "m+s", "s+m", "m-m", "m-s", "s-m", "m*m", "m*s", "m/m", "m/s", "s*m", "+=", "-=", "chain"};
    const char* w = nm[op];
    NOTE(g, tname<T>() << " " << w << " " << show(x) << " " << show(y) << " s=" << pbt::str(s));
    g.label(std::string("op:") + w); g.label(std::string("type:") + tname<T>()); if (special) g.label("special values");
    g.nontrivial(r * c > 1);
    size_t N = r * c; g.weight = N;
    switch (op)
    {
    case 0: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] + y.v[k]); equal(ca + b, e, w); break;
    case 1: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] + s); equal(ca + s, e, w); break;
    case 2: for (size_t k = 0; k < N; k++) e.v[k] = (T)(s + x.v[k]); equal(s + ca, e, w); break;
    case 3: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] - y.v[k]); equal(ca - b, e, w); break;
    case 4: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] - s); equal(ca - s, e, w); break;
    case 5: for (size_t k = 0; k < N; k++) e.v[k] = (T)(s - x.v[k]); equal(s - ca, e, w); break;
    case 6: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] * y.v[k]); equal(ca * b, e, w); break;
    case 7: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] * s); equal(ca * s, e, w); break;
    case 8: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] / y.v[k]); equal(ca / b, e, w); break;
    case 9: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] / s); equal(ca / s, e, w); break;
    case 10: for (size_t k = 0; k < N; k++) e.v[k] = (T)(s * x.v[k]); equal(s * ca, e, w); break;
    case 11: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] + y.v[k]); { M q = (a += b); equal(q, e, "value of +="); } x = e; if (alias) y = e; break;
    case 12: for (size_t k = 0; k < N; k++) e.v[k] = (T)(x.v[k] - y.v[k]); { M q = (a -= b); equal(q, e, "value of -="); } x = e; if (alias) y = e; break;
    default: for (size_t k = 0; k < N; k++) e.v[k] = (T)((T)(x.v[k] + y.v[k]) - (T)(x.v[k] * s)); equal((ca + b) - (ca * s), e, w); break;
    }
    equal(a, x, "the left operand afterwards");
    equal(b, y, "the right operand afterwards");
}

template <class T, class A> static void compare(Gen& g)
{
    typedef susa::matrix<T, A> M;
    Mod<T> x; if (g.once_in(2000)) { size_t r, c; bigdims(g, r, c); x = fill<T>(g, r, c, 3, true); } else x = anymod<T>(g, 3, true);
    Mod<T> y = x;
    uint64_t k = g.draw(5);
    bool expect = true; const char* w = "identical";
    if (k == 1 || k == 2) { size_t i = g.range(0, x.size() - 1); y.v[i] = (T)(y.v[i] + T(1)); expect = false; w = "one element differs"; }
    else if (k == 3) { y = Mod<T>(x.c, x.r); for (size_t i = 0; i < x.size(); i++) y.setlin(i, x.lin(i)); expect = x.r == x.c; w = "same elements, other shape"; }
    else if (k == 4) { y = anymod<T>(g, 1, false, 3); x = anymod<T>(g, 1, false, 3); expect = x == y; w = "unrelated"; }
    else if (k == 5) { if (g.flip()) { y = Mod<T>(); expect = false; } else { x = y = Mod<T>(); } w = "with an empty matrix"; }
    if (std::is_floating_point<T>::value && k == 0 && g.once_in(3))
    { size_t i = g.range(0, x.size() - 1);
      if constexpr (std::is_floating_point<T>::value) { x.v[i] = y.v[i] = (T)NAN; } expect = false; w = "identical with a NaN"; }
    M a = make<M>(x), b = make<M>(y); const M &ca = a, &cb = b;
    NOTE(g, tname<T>() << " comparison, " << w << ": " << show(x) << " and " << show(y));
    g.label(std::string("compare:") + w);
    g.nontrivial(x.size() > 1);
    PBT_CHECK((ca == cb) == expect && (cb == ca) == expect, "== of " << show(x) << " and " << show(y) << " (" << w << ") is " << (ca == cb));
    PBT_CHECK((ca != cb) == !expect && (cb != ca) == !expect, "!= of " << show(x) << " and " << show(y) << " (" << w << ") is " << (ca != cb));
}

// a value of S whose conversion to D is defined
template <class S, class D> static S conv_value(Gen& g)
{
    typedef std::numeric_limits<D> L; const bool neg = std::is_signed<S>::value && std::is_signed<D>::value;
    if constexpr (std::is_floating_point<S>::value)
    {
        if constexpr (std::is_floating_point<D>::value)
            switch (g.draw(5))
            {
            case 0: return (S)g.sint(100);
            case 1: return (S)g.real(-10, 10);
            case 2: return (S)std::ldexp(g.real(-1, 1), (int)g.sint(120));
            case 3: return (S)(g.draw((uint64_t)1 << 50)) / (S)g.pick<double>({1, 3, 1024});
            case 4: return g.pick<S>({(S)-0.0, (S)INFINITY, (S)-INFINITY, std::numeric_limits<S>::epsilon(), (S)1 + std::numeric_limits<S>::epsilon(), (S)16777217});
            default: return (S)g.sint(1 << 30);
            }
        // truncated towards zero, the integral part is in range
        double m = (double)L::max(), x = g.flip() ? (double)g.draw(100 * 16) / 16 : g.flip() ? (double)g.draw((uint64_t)m) : m - (double)g.draw(64) / 8;
        if (x > m) x = m;
        S v = (S)x; while ((double)v > m) v = std::nextafter(v, (S)0);
        return neg && g.flip() ? -v : v;
    }
    else
    { // integral to integral or real
        uint64_t m = (uint64_t)std::numeric_limits<S>::max();
        if constexpr (std::is_integral<D>::value) m = std::min<uint64_t>(m, (uint64_t)L::max());
        uint64_t x = g.flip() ? g.draw(std::min<uint64_t>(m, 100)) : g.flip() ? g.draw(m) : m - g.draw(std::min<uint64_t>(m, 20));
        S v = (S)x; return neg && g.flip() ? (S)(-v - (g.once_in(4) && v == (S)m ? 1 : 0)) : v;
    }
}
template <class S, class Dst, class A> static void convert_to(Gen& g)
{
    size_t r, c; bool big = g.once_in(2000); if (big) bigdims(g, r, c); else dims(g, r, c, 20);
    Mod<S> x(r, c);
    typedef typename is_cplx<S>::real SR; typedef typename is_cplx<Dst>::real DR;
    if (big) x = fill<S>(g, r, c, std::is_unsigned<DR>::value || std::is_unsigned<SR>::value ? 1 : 100, true);
    if (big && std::is_unsigned<DR>::value) { for (auto& v : x.v) v = S(3); for (int k = 0; k < 60; k++) x.v[g.range(0, x.size() - 1)] = S((int)g.draw(9)); }
    if (!big) for (auto& v : x.v) { if constexpr (is_cplx<S>::value) { SR re = conv_value<SR, DR>(g), im = conv_value<SR, DR>(g); v = S(re, im); } else v = conv_value<SR, DR>(g); }
    susa::matrix<S, A> a = make<susa::matrix<S, A>>(x);
    NOTE(g, "convert " << tname<S>() << " to " << tname<Dst>() << ": " << show(x));
    g.label(std::string("convert:") + tname<S>() + ">" + tname<Dst>());
    g.nontrivial(r * c > 1);
    susa::matrix<Dst> q = a; // implicit conversion
    Mod<Dst> e(r, c);
    for (size_t k = 0; k < x.size(); k++)
    {
        if constexpr (is_cplx<S>::value) { typedef typename is_cplx<Dst>::real R; e.v[k] = Dst((R)x.v[k].real(), (R)x.v[k].imag()); }
        else e.v[k] = (Dst)x.v[k];
    }
    same(q, e, std::string("conversion from ") + tname<S>() + " to " + tname<Dst>());
    same(a, x, "the converted matrix");
}
template <class S, class A> static void convert(Gen& g)
{
    uint64_t k = g.draw(4);
    typedef typename is_cplx<S>::real R;
    if constexpr (is_cplx<S>::value)
    {
        switch (k)
        {
        case 0: if constexpr (!std::is_same<R, double>::value) convert_to<S, std::complex<double>, A>(g); break;
        case 1: if constexpr (!std::is_same<R, float>::value) convert_to<S, std::complex<float>, A>(g); break;
        case 2: if constexpr (!std::is_same<R, int>::value) convert_to<S, std::complex<int>, A>(g); break;
        case 3: if constexpr (!std::is_same<R, int8_t>::value) convert_to<S, std::complex<int8_t>, A>(g); break;
        default: if constexpr (!std::is_same<R, uint8_t>::value) convert_to<S, std::complex<uint8_t>, A>(g); break;
        }
    }
    else
    {
        switch (k)
        {
        case 0: if constexpr (!std::is_same<S, double>::value) convert_to<S, double, A>(g); break;
        case 1: if constexpr (!std::is_same<S, float>::value) convert_to<S, float, A>(g); break;
        case 2: if constexpr (!std::is_same<S, int>::value) convert_to<S, int, A>(g); break;
        case 3: if constexpr (!std::is_same<S, int8_t>::value) convert_to<S, int8_t, A>(g); break;
        default: if constexpr (!std::is_same<S, uint8_t>::value) convert_to<S, uint8_t, A>(g); break;
        }
    }
}

static void property(Gen& g)
{
    uint64_t what = g.draw(7);
    if (what == 6)
    {
        with_type<double, float, int, int8_t, uint8_t, std::complex<double>, std::complex<float>>(g, [&](auto t) {
            typedef decltype(t) T; compare<T, std::allocator<T>>(g); });
        return;
    }
    if (what == 7)
    {
        with_type<double, float, int, int8_t, uint8_t, std::complex<double>, std::complex<float>, std::complex<int>, unsigned>(g, [&](auto t) {
            typedef decltype(t) T; convert<T, std::allocator<T>>(g); });
        return;
    }
    if (g.once_in(8)) { with_type<double, int>(g, [&](auto t) { typedef decltype(t) T;
        if (g.flip()) arith<T, susa::allocator_log<T>>(g); else compare<T, susa::allocator_log<T>>(g); }); return; }
    with_type<double, float, int, int8_t, uint8_t, std::complex<double>, std::complex<float>, unsigned, long>(g, [&](auto t) {
        typedef decltype(t) T; arith<T, std::allocator<T>>(g); });
}
#include "pbt_main.h"
