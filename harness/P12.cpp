// Pivoted LU: factors, solutions and inverses of well-conditioned systems; failure on tiny pivots.
#include "susagen.h"
using namespace sg;
typedef long double L;

// inverse in long double with full pivoting; false if singular
static bool inverse(const Mod<L>& a, Mod<L>& x)
{
    size_t n = a.r; Mod<L> w(n, 2 * n); for (size_t i = 0; i < n; i++) { for (size_t j = 0; j < n; j++) w.at(i, j) = a.at(i, j); w.at(i, n + i) = 1; }
    for (size_t k = 0; k < n; k++)
    {
        size_t p = k; for (size_t i = k; i < n; i++) if (std::abs(w.at(i, k)) > std::abs(w.at(p, k))) p = i;
        if (w.at(p, k) == 0) return false;
        for (size_t j = 0; j < 2 * n; j++) { L t = w.at(k, j); w.at(k, j) = (L)w.at(p, j); w.at(p, j) = t; }
        L d = w.at(k, k); for (size_t j = 0; j < 2 * n; j++) w.at(k, j) /= d;
        for (size_t i = 0; i < n; i++) if (i != k) { L f = w.at(i, k); if (f != 0) for (size_t j = 0; j < 2 * n; j++) w.at(i, j) -= f * w.at(k, j); }
    }
    x = Mod<L>(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) x.at(i, j) = w.at(i, n + j);
    return true;
}
template <class U> static L norm(const Mod<U>& a) { L s = 0; for (size_t i = 0; i < a.r; i++) { L t = 0; for (size_t j = 0; j < a.c; j++) t += std::abs((L)a.at(i, j)); if (t > s) s = t; } return s; }

template <class T> static void permute(Gen& g, Mod<T>& a)
{ for (size_t i = a.r; i > 1; i--) { size_t j = g.draw(i - 1); for (size_t k = 0; k < a.c; k++) { T t = a.at(i - 1, k); a.at(i - 1, k) = (T)a.at(j, k); a.at(j, k) = t; } } }

template <class T> static void check_factors(const Mod<T>& a, const susa::lup<T>& f, bool alt, const char* nm)
{
    size_t n = a.r; const double eps = std::numeric_limits<T>::epsilon();
    Mod<T> lu = model(f.get_lu());
    PBT_CHECK(lu.r == n && lu.c == n, nm << ": the factors of a " << n << "x" << n << " matrix are " << lu.r << "x" << lu.c);
    Mod<L> p(n, n), b(n, n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
    {
        if (j < i) PBT_CHECK(std::abs(lu.at(i, j)) <= 1 + 8 * eps, nm << ": multiplier " << lu.at(i, j) << " in the factors of " << show(a));
        L s = 0, ab = 0; for (size_t k = 0; k <= std::min(i, j); k++) { L t = (k == i ? (L)1 : (L)lu.at(i, k)) * (L)lu.at(k, j); s += t; ab += std::abs(t); }
        p.at(i, j) = s; b.at(i, j) = 8 * (n + 2) * eps * ab + 1e-300L;
    }
    std::vector<int> used(n, 0);
    Mod<T> piv; if (alt) { piv = model(f.get_pivot()); PBT_CHECK(piv.r == n && piv.c == n, nm << ": the pivot matrix is " << piv.r << "x" << piv.c); }
    for (size_t i = 0; i < n; i++)
    {
        size_t src = n;
        if (alt) { for (size_t j = 0; j < n; j++) { T v = piv.at(i, j); PBT_CHECK(v == T(0) || (v == T(1) && src == n), nm << ": the pivot matrix is no permutation"); if (v == T(1)) src = j; } }
        else for (size_t r = 0; r < n && src == n; r++) { bool eq = !used[r]; for (size_t j = 0; j < n && eq; j++) eq = std::abs(p.at(i, j) - (L)a.at(r, j)) <= b.at(i, j); if (eq) src = r; }
        PBT_CHECK(src < n && !used[src], nm << ": row " << i << " of the product of the factors is no row of " << show(a));
        used[src] = 1;
        for (size_t j = 0; j < n; j++) PBT_CHECK(std::abs(p.at(i, j) - (L)a.at(src, j)) <= b.at(i, j), nm << ": the product of the factors of " << show(a) << " has " << (double)p.at(i, j) << " at (" << i << "," << j << ") instead of " << a.at(src, j));
    }
}
template <class T> static void check_solution(const Mod<T>& a, const Mod<T>& b, const susa::matrix<T>& xm, const char* nm)
{
    size_t n = a.r; Mod<T> x = model(xm);
    PBT_CHECK(x.r == n && x.c == 1, nm << ": the solution of " << n << " equations is " << x.r << "x" << x.c);
    const L tol = 400.0L * n * n * std::numeric_limits<T>::epsilon();
    L bx = 0, bn = 0; for (auto v : x.v) bx = std::max(bx, (L)std::abs(v)); for (auto v : b.v) bn = std::max(bn, (L)std::abs(v));
    for (size_t i = 0; i < n; i++) { L s = 0; for (size_t j = 0; j < n; j++) s += (L)a.at(i, j) * x.v[j];
        PBT_CHECK(std::abs(s - b.v[i]) <= tol * (norm(a) * bx + bn), nm << ": A*x differs from b by " << (double)std::abs(s - b.v[i]) << " in equation " << i << " of A=" << show(a) << " b=" << show(b) << " x=" << show(x)); }
}
template <class T> static void check_inverse(const Mod<T>& a, const susa::matrix<T>& xm, L cond, const char* nm)
{
    size_t n = a.r; Mod<T> x = model(xm);
    PBT_CHECK(x.r == n && x.c == n, nm << ": the inverse of a " << n << "x" << n << " matrix is " << x.r << "x" << x.c);
    const L tol = 400.0L * n * n * std::numeric_limits<T>::epsilon() * cond;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { L s = 0; for (size_t k = 0; k < n; k++) s += (L)a.at(i, k) * x.at(k, j);
        PBT_CHECK(std::abs(s - (i == j ? 1 : 0)) <= tol, nm << ": A*inv(A) has " << (double)s << " at (" << i << "," << j << ") for A=" << show(a)); }
}

template <class T> static void good(Gen& g)
{
    typedef susa::matrix<T> M;
    size_t n = g.once_in(1500) ? g.once_in(12) ? (size_t)g.range(130, 300) : (size_t)g.range(20, 60) : g.once_in(8) ? g.size(1, 20) : (size_t)g.range(1, 7);
    Mod<T> a(n, n); const char* nm; bool flt = std::is_same<T, float>::value;
    Gen bg; bool bulk = n > 60; if (bulk) bg.rng = g.bulk(); pbt::Status* st = pbt::status(); if (bulk) pbt::status() = nullptr; Gen& d = bulk ? bg : g;
    switch (bulk ? 2 : g.draw(5))
    {
    case 0: a = fill<T>(g, n, n, 9); nm = "integers"; break;
    case 1: for (auto& v : a.v) v = (T)g.real(-10, 10); nm = "reals"; break;
    case 2: for (auto& v : a.v) v = (T)d.real(-1, 1); for (size_t i = 0; i < n; i++) a.at(i, i) = (T)((d.flip() ? 1 : -1) * (n + 1.0)); permute(d, a); nm = "permuted dominant"; break;
    case 3: for (size_t i = 0; i < n; i++) a.at(i, i) = (T)(g.flip() ? g.real(0.5, 8) : -g.real(0.5, 8)); permute(g, a); nm = "scaled permutation"; break;
    case 4: { // every step needs an exchange: multipliers below one, bottom rows first
        Mod<T> l(n, n), u(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { l.at(i, j) = j < i ? (T)g.sint(3) / (T)4 : (T)(i == j); u.at(i, j) = j > i ? (T)g.sint(6) / (T)2 : j == i ? (T)std::ldexp(g.flip() ? 1.0 : -1.0, (int)g.range(0, 3)) : T(0); }
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { T s = 0; for (size_t k = 0; k < n; k++) s += l.at(i, k) * u.at(k, j); a.at(i, j) = s; }
        if (g.flip()) permute(g, a); else for (size_t i = 0; i < n / 2; i++) for (size_t j = 0; j < n; j++) { T t = a.at(i, j); a.at(i, j) = (T)a.at(n - 1 - i, j); a.at(n - 1 - i, j) = t; }
        nm = "product of factors"; break; }
    default: a = fill<T>(g, n, n, 1); for (size_t i = 0; i < n; i++) a.at(i, i) = T(0); nm = "zero diagonal"; break;
    }
    if (bulk) { pbt::status() = st; g.label("130-300 rows"); }
    double sc = 1; if (g.once_in(4)) { sc = g.pick({0.1, 100.0, 1000.0}); for (auto& v : a.v) v = (T)(v * sc); }
    Mod<L> w(n, n), wi; for (size_t i = 0; i < n * n; i++) w.v[i] = a.v[i];
    if (!inverse(w, wi)) { g.label("singular (skipped)"); return; }
    L cond = norm(w) * norm(wi);
    if (cond > (flt ? 2e3L : 1e7L) || norm(wi) * n > 3e3L) { g.label("ill conditioned (skipped)"); return; }
    NOTE(g, "lup<" << tname<T>() << "> " << nm << " " << show(a) << " cond " << (double)cond);
    g.label(nm); g.label(std::string("type:") + tname<T>()); g.nontrivial(n > 1);
    Mod<T> b = g.flip() ? fill<T>(g, n, 1, 9, true) : fill<T>(g, 1, n, 9, true); if (g.once_in(6)) { for (auto& v : b.v) v = T(0); b.v[g.range(0, n - 1)] = T(1); }
    M m = make<M>(a), bm = make<M>(b);
    uint64_t form = g.draw(3);
    if (form <= 1)
    {
        bool alt = form == 1; const char* fn = alt ? "decompose_alt" : "decompose"; g.label(fn);
        susa::lup<T> f(m); bool ok = alt ? f.decompose_alt() : f.decompose();
        PBT_CHECK(ok, fn << " fails for " << show(a) << " of condition " << (double)cond);
        check_factors(a, f, alt, fn);
        check_solution(a, b, f.solve(bm), fn); same(bm, b, "the right-hand side");
        check_inverse(a, f.invert(), cond, fn);
        if (g.flip()) { Mod<T> c = fill<T>(g, n, 1, 9, true); check_solution(a, c, f.solve(make<M>(c)), "second solve"); }
        if (g.once_in(4)) { PBT_CHECK(alt ? f.decompose() : f.decompose_alt(), "second decomposition fails"); check_solution(a, b, f.solve(bm), "solve after both decompositions"); check_inverse(a, f.invert(), cond, "invert after both decompositions"); }
    }
    else if (form == 2) { check_solution(a, b, susa::linsolve(m, bm), "linsolve"); g.label("linsolve"); }
    else { check_inverse(a, susa::inv(m), cond, "inv"); g.label("inv"); }
    same(m, a, "the matrix");
}

// exact arithmetic: the k-th pivot has a chosen size
template <class T> static void tiny(Gen& g)
{
    typedef susa::matrix<T> M;
    size_t n = g.range(1, 6), z = g.range(0, n - 1); double piv, tol = 1e-4; bool custom = g.once_in(3);
    Mod<T> l(n, n), u(n, n), a(n, n);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { l.at(i, j) = j < i ? (T)g.sint(1) / (T)2 : (T)(i == j); u.at(i, j) = j > i ? (T)g.sint(2) : j == i ? (T)std::ldexp(g.flip() ? 1.0 : -1.0, (int)g.range(0, 2)) : T(0); }
    int e = 0; bool fails;
    if (g.flip()) { piv = 0; fails = true; if (custom) tol = 1e-6; }
    else if (custom) { e = (int)g.range(-11, -2); tol = std::ldexp(g.flip() ? 1.5 : 0.75, e); piv = std::ldexp(1.0, e); fails = piv < tol; }
    else { e = (int)g.range(-16, -11); piv = std::ldexp(1.0, e); fails = piv < tol; }
    u.at(z, z) = (T)(g.flip() ? -piv : piv);
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { T s = 0; for (size_t k = 0; k < n; k++) s += l.at(i, k) * u.at(k, j); a.at(i, j) = s; }
    if (piv != 0) for (size_t i = z + 1; i < n; i++) {} // multipliers stay at most one half, so that this pivot is the largest
    if (g.once_in(5) && piv == 0) { for (size_t i = 0; i < n; i++) a.at(i, z) = T(0); }
    permute(g, a);
    NOTE(g, "lup<" << tname<T>() << "> pivot " << piv << " at step " << z << ", tolerance " << tol << " " << show(a));
    g.label(fails ? "pivot under tolerance" : "pivot above tolerance"); g.nontrivial(true);
    M m = make<M>(a); bool alt = g.flip();
    susa::lup<T> f = custom || g.flip() ? susa::lup<T>(m, tol) : susa::lup<T>(m); if (!custom && tol != 1e-4) return;
    bool ok = alt ? f.decompose_alt() : f.decompose();
    PBT_CHECK(ok == !fails, (alt ? "decompose_alt" : "decompose") << " of " << show(a) << " with a pivot of " << piv << " at step " << z << " and tolerance " << tol << (ok ? " succeeds" : " fails"));
    if (ok) check_factors(a, f, alt, "small pivot");
}
static void property(Gen& g)
{
    if (g.once_in(4)) { if (g.once_in(3)) tiny<float>(g); else tiny<double>(g); }
    else if (g.once_in(3)) good<float>(g); else good<double>(g);
}
#include "pbt_main.h"
