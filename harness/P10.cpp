// Determinant and rank against exact elimination.
#include "susagen.h"
using namespace sg;
typedef __int128 I;

// exact rank and determinant by fraction-free elimination over (Gaussian) integers
struct Z { I re = 0, im = 0; bool zero() const { return re == 0 && im == 0; } };
static Z operator*(Z a, Z b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static Z operator-(Z a, Z b) { return {a.re - b.re, a.im - b.im}; }
static Z quot(Z a, Z b) { I n = b.re * b.re + b.im * b.im; Z c{b.re, -b.im}; Z p = a * c; return {p.re / n, p.im / n}; } // exact divisions only
static size_t exact_rank(std::vector<std::vector<Z>> a, Z* det = nullptr)
{
    size_t R = a.size(), C = a[0].size(), r = 0; Z prev{1, 0}; int sgn = 1;
    for (size_t c = 0; c < C && r < R; c++)
    {
        size_t p = r; while (p < R && a[p][c].zero()) p++;
        if (p == R) continue;
        if (p != r) { std::swap(a[p], a[r]); sgn = -sgn; }
        for (size_t i = r + 1; i < R; i++) { for (size_t j = c + 1; j < C; j++) a[i][j] = quot(a[i][j] * a[r][c] - a[i][c] * a[r][j], prev); a[i][c] = Z(); }
        prev = a[r][c]; r++;
    }
    if (det) { *det = r == R ? prev : Z(); if (sgn < 0) { det->re = -det->re; det->im = -det->im; } }
    return r;
}
template <class T> static Z to_z(T x) { if constexpr (is_cplx<T>::value) return {(I)x.real(), (I)x.imag()}; else return {(I)x, 0}; }
template <class T> static std::vector<std::vector<Z>> exact(const Mod<T>& d) { std::vector<std::vector<Z>> a(d.r, std::vector<Z>(d.c)); for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) a[i][j] = to_z<T>(d.at(i, j)); return a; }

// an integer matrix of at most the given rank
template <class T> static Mod<T> of_rank(Gen& g, size_t r, size_t c, size_t k, int64_t m)
{
    Mod<T> a(r, c);
    if (k >= std::min(r, c)) { for (auto& v : a.v) v = scalar<T>(g, m); }
    else if (k > 0)
    {
        Mod<T> u = fill<T>(g, r, k, 2), w = fill<T>(g, k, c, m > 4 ? 4 : m);
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) { T s = T(0); for (size_t q = 0; q < k; q++) s += u.at(i, q) * w.at(q, j); a.at(i, j) = s; }
    }
    // shuffling rows and columns, zero rows and repeated rows keep the elimination honest
    if (g.once_in(4)) { size_t z = g.range(0, r - 1); for (size_t j = 0; j < c; j++) a.at(z, j) = T(0); }
    if (g.once_in(4)) { size_t z = g.range(0, c - 1); for (size_t i = 0; i < r; i++) a.at(i, z) = T(0); }
    if (g.once_in(4) && r > 1) { size_t p = g.range(0, r - 1), q = g.range(0, r - 1); for (size_t j = 0; j < c; j++) a.at(p, j) = (T)a.at(q, j); }
    return a;
}

template <class T, template <class> class Al> static void rank(Gen& g)
{
    size_t r = g.range(1, 7), c = g.range(1, 7);
    if (g.once_in(8)) { if (g.flip()) r = g.range(7, 12); else c = g.range(7, 12); if (r > 7) c = g.range(1, 5); else if (c > 7) r = g.range(1, 5); }
    size_t k = g.range(0, std::min(r, c)); if (g.flip()) k = std::min(r, c);
    Mod<T> d = of_rank<T>(g, r, c, k, g.flip() ? 2 : 9);
    size_t e = exact_rank(exact(d));
    susa::matrix<T, Al<T>> m = make<susa::matrix<T, Al<T>>>(d);
    NOTE(g, "rank of matrix<" << tname<T>() << "> " << show(d) << " (" << e << ")");
    g.label(std::string("rank of ") + tname<T>()); g.label(e == std::min(r, c) ? "full rank" : e == 0 ? "zero" : "rank deficient"); g.label("shape:" + shape_label(r, c));
    unsigned x = susa::rank(m);
    PBT_CHECK(x == e, "the rank of " << show(d) << " (" << tname<T>() << ") is computed as " << x << " instead of " << e);
    same(m, d, "the argument of rank");
    if constexpr (!std::is_integral<T>::value && !std::is_same<T, std::complex<int>>::value)
    { // scaling rows and columns keeps the rank
        Mod<T> s = d; typedef typename is_cplx<T>::real Re;
        bool exact2 = std::is_same<T, float>::value || std::is_same<T, std::complex<float>>::value;
        for (size_t i = 0; i < r; i++) { double f = exact2 ? std::ldexp(1.0, (int)g.range(-2, 3)) : g.real(0.3, 3); if (g.flip()) f = -f; for (size_t j = 0; j < c; j++) s.at(i, j) *= (Re)f; }
        m = make<susa::matrix<T, Al<T>>>(s); x = susa::rank(m);
        PBT_CHECK(x == e, "the rank of " << show(s) << " (" << tname<T>() << ") is computed as " << x << " instead of " << e);
        if (g.once_in(4)) { for (auto& v : s.v) v = v * (Re)1e-6; m = make<susa::matrix<T, Al<T>>>(s); x = susa::rank(m, 0.1); PBT_CHECK(x == 0, "the rank of a matrix below the given precision is " << x); }
    }
    g.nontrivial(r > 1 && c > 1); 
}

// large and exact: a row echelon matrix with copies and zero rows among its rows, in any order
template <class T> static void rank_large(Gen& g)
{
    size_t hi = g.once_in(300) ? 300 : g.once_in(30) ? 140 : 40, r = g.range(8, hi), c = g.range(8, hi), k = g.range(1, std::min(r, c)); if (g.flip()) k = std::min(r, c);
    std::vector<size_t> piv(c); for (size_t j = 0; j < c; j++) piv[j] = j;
    while (piv.size() > k) piv.erase(piv.begin() + g.draw(piv.size() - 1));
    pbt::Rng b = g.bulk(); Mod<T> d(r, c);
    for (size_t i = 0; i < r; i++)
    {
        if (i < k) { d.at(i, piv[i]) = (T)(1 << b.upto(2)); for (size_t j = piv[i] + 1; j < c; j++) if (b.upto(3) == 0) d.at(i, j) = (T)1; if (!std::is_unsigned<T>::value && b.upto(1)) for (size_t j = 0; j < c; j++) d.at(i, j) = -d.at(i, j); }
        else if (b.upto(2)) { size_t q = b.upto(k - 1), f = (size_t)1 << b.upto(2); for (size_t j = 0; j < c; j++) d.at(i, j) = d.at(q, j) * (T)f; }
    }
    for (size_t i = r; i-- > 1;) { size_t j = b.upto(i); for (size_t q = 0; q < c; q++) { T t = d.at(i, q); d.at(i, q) = (T)d.at(j, q); d.at(j, q) = t; } }
    NOTE(g, "rank of a large matrix<" << tname<T>() << "> " << show(d) << " (" << k << ")"); g.label(std::string("large rank of ") + tname<T>()); g.nontrivial(true); g.weight = r * c;
    susa::matrix<T> m = make<susa::matrix<T>>(d); unsigned x = susa::rank(m);
    PBT_CHECK(x == k, "the rank of a " << r << "x" << c << " matrix " << show(d) << " (" << tname<T>() << ") is computed as " << x << " instead of " << k);
    same(m, d, "the argument of rank");
}

static long double leibniz(const Mod<double>& d, bool absolute)
{
    std::vector<size_t> p(d.r); for (size_t i = 0; i < d.r; i++) p[i] = i;
    long double s = 0;
    do { long double t = 1; int inv = 0; for (size_t i = 0; i < d.r; i++) { t *= absolute ? std::abs((long double)d.at(i, p[i])) : (long double)d.at(i, p[i]); for (size_t j = 0; j < i; j++) inv += p[j] > p[i]; }
         s += absolute || inv % 2 == 0 ? t : -t; } while (std::next_permutation(p.begin(), p.end()));
    return s;
}
template <class T> static void det(Gen& g)
{
    size_t n = g.once_in(6000) ? 8 : g.once_in(400) ? 7 : g.once_in(12) ? (size_t)g.range(5, 6) : (size_t)g.range(1, 5);
    bool real = std::is_floating_point<T>::value && g.flip();
    Mod<T> d(n, n);
    if (real) for (auto& v : d.v) v = (T)g.real(-100, 100);
    else
    {
        // bounded so that every product of elements, and their sum, is representable
        double lim = std::is_same<T, float>::value ? 16777216.0 : 9007199254740992.0, f = 1; for (size_t i = 2; i <= n; i++) f *= i;
        int64_t mag = (int64_t)std::floor(std::pow(lim / f, 1.0 / n)) - 1;
        if (std::is_integral<T>::value && sizeof(T) <= 4 && mag > 32000) mag = 32000;
        if (g.flip() && mag > 9) mag = 9;
        d = of_rank<T>(g, n, n, g.once_in(3) ? (size_t)g.range(0, n) : n, mag);
    }
    NOTE(g, "determinant of matrix<" << tname<T>() << "> " << show(d)); g.label(std::string(real ? "real determinant of " : "integer determinant of ") + tname<T>()); g.label("n:" + std::to_string(n));
    double x; bool log = g.once_in(4);
    if (log) { auto m = make<susa::matrix<T, susa::allocator_log<T>>>(d); x = susa::det(m); same(m, d, "the argument of det"); }
    else { auto m = make<susa::matrix<T>>(d); x = susa::det(m); same(m, d, "the argument of det"); }
    if (real)
    {
        Mod<double> w(n, n); for (size_t i = 0; i < n * n; i++) w.v[i] = d.v[i];
        long double e = leibniz(w, false), tol = leibniz(w, true) * (std::is_same<T, float>::value ? 1e-6L : 1e-13L);
        PBT_CHECK(std::abs(x - e) <= tol, "the determinant of " << show(d) << " is computed as " << x << " instead of " << (double)e);
    }
    else
    {
        Z e; exact_rank(exact(d), &e);
        PBT_CHECK(x == (double)e.re, "the determinant of " << show(d) << " (" << tname<T>() << ") is computed as " << x << " instead of " << (double)e.re);
    }
    g.nontrivial(n > 1);
}
static void property(Gen& g)
{
    if (g.once_in(20)) with_type<int, double, std::complex<double>, float, uint8_t, short>(g, [&](auto t) { rank_large<decltype(t)>(g); });
    else if (g.flip()) with_type<int, double, std::complex<double>, float, uint8_t, unsigned, short, std::complex<int>, long long>(g, [&](auto t) { typedef decltype(t) T;
        if (g.once_in(4)) rank<T, susa::allocator_log>(g); else rank<T, std::allocator>(g); });
    else with_type<int, double, float, uint8_t, unsigned, short, long long, int8_t>(g, [&](auto t) { det<decltype(t)>(g); });
}
#include "pbt_main.h"
