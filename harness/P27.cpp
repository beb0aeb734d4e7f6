// Reductions, elementwise functions and statistics.
#include "susagen.h"
using namespace sg;
typedef long double L;
template <class T> static Mod<T> input(Gen& g, int64_t mag) { if (!g.once_in(3000)) return anymod<T>(g, mag, true); size_t r, c; bigdims(g, r, c); return fill<T>(g, r, c, std::min<int64_t>(mag, 20), true); } // sums stay exact

template <class T> static void near(T got, cd want, double scale, const std::string& what)
{ cd x(got); double eps = std::is_same<T, float>::value || std::is_same<T, std::complex<float>>::value ? 1.2e-7 : 2.3e-16; PBT_CHECK(std::abs(x - want) <= 64 * eps * scale, what << " is " << pbt::str(got) << " instead of " << want); }

template <class T, template <class> class Al> static void reduce(Gen& g)
{
    typedef susa::matrix<T, Al<T>> M; const bool narrow = sizeof(T) == 1;
    Mod<T> a = input<T>(g, narrow ? 100 : 5000); M A = make<M>(a); bool vec = a.r == 1 || a.c == 1; size_t cols = vec ? 1 : a.c, rows = vec ? a.size() : a.r;
    auto at = [&](size_t i, size_t j) { return vec ? (T)a.v[i] : (T)a.at(i, j); };
    NOTE(g, "reductions of " << show(a)); g.label(std::string("reduce ") + tname<T>()); g.label("shape:" + shape_label(a.r, a.c)); g.nontrivial(a.size() > 1); g.weight = a.size();
    // sum: exact, wrapping for narrow types
    M s = susa::sum(A); Mod<T> e(1, cols, T(0)); for (size_t j = 0; j < cols; j++) for (size_t i = 0; i < rows; i++) e.at(0, j) = (T)(e.at(0, j) + at(i, j)); same(s, e, "sum");
    // mean
    M m = susa::mean(A); PBT_CHECK(m.no_rows() == 1 && m.no_cols() == cols, "mean of a " << a.r << "x" << a.c << " matrix is " << m.no_rows() << "x" << m.no_cols());
    for (size_t j = 0; j < cols; j++)
    {
        if constexpr (is_cplx<T>::value) { cd t = 0; double b = 0; for (size_t i = 0; i < rows; i++) { t += cd(at(i, j)); b += std::abs(cd(at(i, j))); } near<T>(m(j), t / (double)rows, b / rows, "mean of column " + std::to_string(j)); }
        else if constexpr (std::is_integral<T>::value) { long long t = 0; for (size_t i = 0; i < rows; i++) t += at(i, j); if (t > (long long)std::numeric_limits<T>::max() || t < (long long)std::numeric_limits<T>::lowest()) { g.label("sum not representable (mean skipped)"); continue; } T x = (T)(t / (long long)rows); PBT_CHECK(m(j) == x, "mean of column " << j << " of " << show(a) << " is " << pbt::str((T)m(j)) << " instead of " << pbt::str(x)); }
        else { double t = 0, b = 0; for (size_t i = 0; i < rows; i++) { t += at(i, j); b += std::fabs(at(i, j)); } near<T>(m(j), t / rows, b / rows, "mean of column " + std::to_string(j)); }
    }
    if constexpr (std::is_floating_point<T>::value)
    {
        M n = susa::norm(A); PBT_CHECK(n.no_rows() == 1 && n.no_cols() == cols, "norm of a " << a.r << "x" << a.c << " matrix is " << n.no_rows() << "x" << n.no_cols());
        for (size_t j = 0; j < cols; j++) { L t = 0; for (size_t i = 0; i < rows; i++) t += (L)at(i, j) * at(i, j); double x = (double)std::sqrt(t); near<T>(n(j), x, x * (std::is_same<T, float>::value ? rows / 32 + 1 : 1), "norm of column " + std::to_string(j)); }
    }
    same(A, a, "the input of a reduction");
}
template <class T, template <class> class Al> static void elements(Gen& g)
{
    typedef susa::matrix<T, Al<T>> M; Mod<T> a = input<T>(g, sizeof(T) == 1 ? 127 : 100000);
    if constexpr (!is_cplx<T>::value) if (g.once_in(3)) for (size_t i = 0; i < a.size() && i < 40; i++) switch (g.draw(5)) { case 0: a.v[i] = std::numeric_limits<T>::max(); break; case 1: if (std::is_signed<T>::value) a.v[i] = (T)-std::numeric_limits<T>::max(); break; case 2: a.v[i] = 0; break; default: break; }
    M A = make<M>(a); NOTE(g, "elementwise functions of " << show(a)); g.label(std::string("elements ") + tname<T>()); g.nontrivial(a.size() > 1); g.weight = a.size();
    Mod<int8_t> s(a.r, a.c); Mod<std::complex<T>> c(a.r, a.c); Mod<T> b = a;
    for (size_t i = 0; i < a.size(); i++) { T x = a.v[i]; s.v[i] = x > 0 ? 1 : x < 0 ? -1 : 0; c.v[i] = std::complex<T>(x, T(0)); b.v[i] = x < 0 ? (T)-x : x; }
    if constexpr (std::is_signed<T>::value) same(susa::abs(A), b, "abs");
    if constexpr (std::is_same<Al<T>, std::allocator<T>>::value) same(susa::sign(A), s, "sign");
    if constexpr (std::is_floating_point<T>::value)
    {
        same(susa::to_complex(A), c, "to_complex");
        Mod<T> p = a; for (auto& v : p.v) v = v == 0 ? T(1) : v < 0 ? -v : v; M P = make<M>(p); M R = susa::log(P); PBT_CHECK(R.no_rows() == a.r && R.no_cols() == a.c, "log changes the shape");
        for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) { double x = std::log((double)p.at(i, j)); near<T>(R(i, j), x, std::max(1.0, std::fabs(x)), "log"); }
    }
    same(A, a, "the input of an elementwise function");
}
template <class T, template <class> class Al> static void parts(Gen& g)
{
    typedef std::complex<T> C; typedef susa::matrix<C, Al<C>> M; Mod<C> a = input<C>(g, 900); M A = make<M>(a); NOTE(g, "complex parts of " << show(a)); g.label(std::string("parts ") + tname<C>()); g.nontrivial(a.size() > 1); g.weight = a.size();
    Mod<T> re(a.r, a.c), im = re, mg = re; Mod<C> cj = a; for (size_t i = 0; i < a.size(); i++) { C x = a.v[i]; re.v[i] = x.real(); im.v[i] = x.imag(); mg.v[i] = x.real() * x.real() + x.imag() * x.imag(); cj.v[i] = C(x.real(), -x.imag()); }
    same(susa::real(A), re, "real"); same(susa::imag(A), im, "imag"); same(susa::conj(A), cj, "conj");
    auto m = susa::mag(A); PBT_CHECK(m.no_rows() == a.r && m.no_cols() == a.c, "mag changes the shape"); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) near<T>(m(i, j), (double)mg.at(i, j), (double)mg.at(i, j), "mag");
    auto ab = susa::abs(A); PBT_CHECK(ab.no_rows() == a.r && ab.no_cols() == a.c, "abs changes the shape"); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) { double x = std::abs(cd((C)a.at(i, j))); near<C>(ab(i, j), x, x, "abs"); }
    bool vec = a.r == 1 || a.c == 1; size_t cols = vec ? 1 : a.c, rows = vec ? a.size() : a.r; auto n = susa::norm(A); PBT_CHECK(n.no_rows() == 1 && n.no_cols() == cols, "norm of a complex " << a.r << "x" << a.c << " matrix is " << n.no_rows() << "x" << n.no_cols());
    for (size_t j = 0; j < cols; j++) { L t = 0; for (size_t i = 0; i < rows; i++) { cd x((C)(vec ? a.v[i] : a.at(i, j))); t += (L)x.real() * x.real() + (L)x.imag() * x.imag(); } double x = (double)std::sqrt(t); near<C>(n(j), x, x * (std::is_same<T, float>::value ? rows / 32 + 1 : 1), "norm of complex column " + std::to_string(j)); }
    same(A, a, "the input of a complex part");
}
template <class T> static void stats(Gen& g)
{
    size_t n = g.once_in(2000) ? (size_t)(g.flip() ? g.range(200, 5000) : g.range(5000, 70000)) : g.size(1, 200); std::vector<T> v(n); bool bulk = n > 60; Gen bg; if (bulk) bg.rng = g.bulk(); pbt::Status* st = pbt::status(); if (bulk) pbt::status() = nullptr;
    for (auto& x : v) x = scalar<T>(bulk ? bg : g, sizeof(T) == 1 ? 100 : 100000, true); if (bulk) pbt::status() = st;
    if (sizeof(T) >= 4 && g.once_in(3)) { T base = (T)g.sint(g.flip() ? 1000000000 : 100000); for (auto& x : v) x = (T)((T)std::fmod((double)x, 1000.0) + base); g.label("large offset"); }
    const std::vector<T> w = v; NOTE(g, "statistics of " << pbt::str(v)); g.label(std::string("statistics ") + tname<T>()); g.nontrivial(n > 1); g.weight = n;
    L s = 0, b = 0; for (T x : w) { s += x; b += std::fabs((L)x); } L mu = s / n, var = 0; for (T x : w) var += (x - mu) * (x - mu); var /= n;
    bool fits = std::is_floating_point<T>::value || (s <= (L)std::numeric_limits<T>::max() && s >= (L)std::numeric_limits<T>::lowest());
    if (fits)
    {
        T sum = susa::sum(w), mean = susa::mean(w);
        if constexpr (std::is_integral<T>::value) { PBT_CHECK(sum == (T)s, "sum of " << pbt::str(w) << " is " << pbt::str(sum)); T e = (T)((long long)s / (long long)n); PBT_CHECK(mean == e, "mean of " << pbt::str(w) << " is " << pbt::str(mean) << " instead of " << pbt::str(e)); }
        else { double sc = (double)b * (std::is_same<T, float>::value ? n / 32 + 1 : 1); near<T>(sum, (double)s, sc, "sum of a vector"); near<T>(mean, (double)mu, sc / n, "mean of a vector"); }
    }
    else g.label("sum not representable (skipped)");
    // two-pass accuracy: the rounding of the mean and of the deviations, with room for any order of summation
    double top = 0; for (T x : w) top = std::max(top, std::fabs((double)x));
    double eps = (n + 8) * 2.3e-16, e = eps * top, tol = 16 * (e * std::sqrt((double)var) + e * e + eps * (double)var), vv = susa::var(w), sd = susa::stdv(w);
    PBT_CHECK(std::fabs(vv - (double)var) <= tol, "var of " << pbt::str(w) << " is " << vv << " instead of " << (double)var);
    PBT_CHECK(sd >= 0 && std::fabs(sd * sd - (double)var) <= tol, "stdv of " << pbt::str(w) << " is " << sd << " instead of " << (double)std::sqrt(var));
    std::vector<T> d = susa::diff(w); PBT_CHECK(d.size() == n - 1, "diff of " << n << " elements has " << d.size()); for (size_t i = 0; i + 1 < n; i++) PBT_CHECK(d[i] == (T)(w[i + 1] - w[i]), "diff: element " << i << " is " << pbt::str((T)d[i]));
    if constexpr (std::is_signed<T>::value && sizeof(T) >= 4) { std::vector<T> a = susa::abs(w); PBT_CHECK(a.size() == n, "abs of " << n << " elements has " << a.size()); for (size_t i = 0; i < n; i++) PBT_CHECK(a[i] == (w[i] < 0 ? -w[i] : w[i]), "abs of a vector: element " << i << " is " << pbt::str((T)a[i])); }
}
static void property(Gen& g)
{
    switch (g.draw(7))
    {
    case 0: case 1: with_type<double, int, cd, float, uint8_t, int8_t, std::complex<float>, long long, unsigned>(g, [&](auto t) { reduce<decltype(t), std::allocator>(g); }); break;
    case 2: with_type<double, int>(g, [&](auto t) { reduce<decltype(t), susa::allocator_log>(g); }); break;
    case 3: with_type<double, int, float, int8_t, long long, short>(g, [&](auto t) { elements<decltype(t), std::allocator>(g); }); break;
    case 4: with_type<double, int>(g, [&](auto t) { elements<decltype(t), susa::allocator_log>(g); }); break;
    case 5: with_type<double, float>(g, [&](auto t) { if (g.once_in(3)) parts<decltype(t), susa::allocator_log>(g); else parts<decltype(t), std::allocator>(g); }); break;
    default: with_type<double, int, float, long long, uint8_t, short>(g, [&](auto t) { stats<decltype(t)>(g); });
    }
}
#include "pbt_main.h"
