// LU decomposition: factors reproduce the input, or failure is reported.
#include "susagen.h"
using namespace sg;
typedef long double L;

template <class T> static Mod<T> product(const Mod<T>& a, const Mod<T>& b)
{ Mod<T> d(a.r, b.c); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) { T s = T(0); for (size_t k = 0; k < a.c; k++) s += a.at(i, k) * b.at(k, j); d.at(i, j) = s; } return d; }

template <class T> static void prop(Gen& g)
{
    typedef susa::matrix<T> M;
    const double eps = std::numeric_limits<T>::epsilon();
    uint64_t kind = g.draw(6); size_t n = g.once_in(1000) ? g.once_in(12) ? (size_t)g.range(130, 300) : (size_t)g.range(24, 70) : g.once_in(6) ? g.size(1, 24) : (size_t)g.range(1, 7);
    Mod<T> a(n, n); int must = 0; // 1: has to succeed, -1: has to fail
    const char* nm;
    if (n > 70) kind = 2; // the others would need too many choices
    switch (kind)
    {
    case 0: case 1: { // small integers; the exact leading minors decide
        if (n > 7) n = 7; int64_t mag = g.pick({2, 9, 1, 30}); if (n > 5 && mag == 30) mag = 9; a = fill<T>(g, n, n, mag);
        std::vector<std::vector<__int128>> b(n, std::vector<__int128>(n)); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) b[i][j] = (__int128)a.at(i, j);
        __int128 prev = 1; must = 1;
        for (size_t k = 0; k + 1 < n && must; k++)
        {
            if (b[k][k] == 0) { must = 0; if (k == 0) must = -1; break; }
            for (size_t i = k + 1; i < n; i++) for (size_t j = k + 1; j < n; j++) b[i][j] = (b[i][j] * b[k][k] - b[i][k] * b[k][j]) / prev;
            prev = b[k][k];
        }
        if (must == 1 && std::is_same<T, float>::value && mag > 2) must = 0; // minors near zero relative to single precision
        nm = "small integers"; break; }
    case 2: { Gen bg; bool bulk = n > 70; if (bulk) bg.rng = g.bulk(); pbt::Status* st = pbt::status(); if (bulk) pbt::status() = nullptr; Gen& d = bulk ? bg : g;
              for (auto& v : a.v) v = (T)d.real(-1, 1); for (size_t i = 0; i < n; i++) { T s = 0; for (size_t j = 0; j < n; j++) s += std::abs(a.at(i, j)); a.at(i, i) = (d.flip() ? 1 : -1) * (s + (T)1); }
              if (bulk) pbt::status() = st; if (n >= 130) g.label("130-300 rows");
              must = 1; nm = "diagonally dominant"; break; }
    case 3: case 4: { // exactly representable factors, with or without a zero pivot
        if (n > 10) n = 10; a = Mod<T>(n, n);
        Mod<T> l(n, n), u(n, n); const int64_t m = std::is_same<T, float>::value && n > 6 ? 1 : 2;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { if (j < i) l.at(i, j) = (T)g.sint(m); else if (j == i) l.at(i, j) = 1; if (j > i) u.at(i, j) = (T)g.sint(m); else if (j == i) u.at(i, j) = (T)std::ldexp(g.flip() ? 1.0 : -1.0, (int)g.range(-2, 3)); }
        must = 1; nm = "exact factors";
        if (g.flip()) { size_t z = g.range(0, n - 1); u.at(z, z) = 0; must = z + 1 < n ? -1 : 1; nm = must < 0 ? "exact zero pivot" : "zero last pivot"; }
        a = product(l, u);
        if (g.once_in(3)) { int e = (int)g.range(-30, 30) * (std::is_same<T, float>::value ? 1 : 8); for (auto& v : a.v) v = std::ldexp(v, e); nm = must < 0 ? "scaled, exact zero pivot" : "scaled exact factors"; }
        break; }
    case 5: { double sc = std::pow(10.0, g.range(-6, 6)); for (auto& v : a.v) v = (T)(sc * g.real(-1, 1)); nm = "random reals"; break; }
    default: { // structured: zero matrix, ones, repeated rows, symmetric
        uint64_t s = g.draw(3); nm = "structured"; Mod<T> f = fill<T>(g, n, n, 9);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) a.at(i, j) = s == 0 ? T(0) : s == 1 ? T(1) : s == 2 ? f.at(i / 2, j) : f.at(std::min(i, j), std::max(i, j));
        if (n > 1 && (s == 0 || a.at(0, 0) == T(0))) must = -1;
        break; }
    }
    NOTE(g, "lu<" << tname<T>() << "> " << nm << " " << show(a));
    g.label(nm); g.label(std::string("type:") + tname<T>());
    M m = make<M>(a); susa::lu<T> lu(m);
    bool ok = lu.decompose();
    same(m, a, "the argument of lu");
    if (must > 0) PBT_CHECK(ok, "the decomposition of " << show(a) << " (" << nm << ") fails though no leading minor is zero");
    if (must < 0) PBT_CHECK(!ok, "the decomposition of " << show(a) << " (" << nm << ") succeeds though a pivot is zero");
    g.label(ok ? "success" : "failure"); g.nontrivial(n > 1);
    if (!ok) return;
    int twice = g.once_in(8);
    for (int t = 0; t <= twice; t++)
    {
        if (t) PBT_CHECK(lu.decompose(), "the second decomposition of the same matrix fails");
        Mod<T> l = model(lu.get_lower()), u = model(lu.get_upper());
        PBT_CHECK(l.r == n && l.c == n && u.r == n && u.c == n, "the factors of a " << n << "x" << n << " matrix are " << l.r << "x" << l.c << " and " << u.r << "x" << u.c);
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
        {
            T x = l.at(i, j), y = u.at(i, j);
            PBT_CHECK(std::isfinite(x) && std::isfinite(y), "a factor of " << show(a) << " is not finite");
            if (j > i) PBT_CHECK(x == T(0), "lower factor of " << show(a) << " has " << x << " above the diagonal");
            if (j == i) PBT_CHECK(x == T(1), "lower factor of " << show(a) << " has " << x << " on the diagonal");
            if (j < i) PBT_CHECK(y == T(0), "upper factor of " << show(a) << " has " << y << " below the diagonal");
            L s = 0, b = 0; for (size_t k = 0; k < n; k++) { L t2 = (L)l.at(i, k) * (L)u.at(k, j); s += t2; b += std::abs(t2); }
            PBT_CHECK(std::abs(s - (L)a.at(i, j)) <= 8 * (n + 2) * eps * b + 1e-300L, "the product of the factors of " << show(a) << " has " << (double)s << " at (" << i << "," << j << ") instead of " << a.at(i, j));
        }
    }
}
static void property(Gen& g) { if (g.once_in(3)) prop<float>(g); else prop<double>(g); }
#include "pbt_main.h"
