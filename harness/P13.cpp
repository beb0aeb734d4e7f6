// Singular value decomposition against residuals and one-sided Jacobi.
#include "susagen.h"
using namespace sg;

// singular values by one-sided Jacobi rotations in double precision
static std::vector<double> jacobi(Mod<double> a)
{
    if (a.r < a.c) { Mod<double> t(a.c, a.r); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) t.at(j, i) = a.at(i, j); a = t; }
    for (int sweep = 0; sweep < 60; sweep++)
    {
        bool done = true;
        for (size_t p = 0; p < a.c; p++) for (size_t q = p + 1; q < a.c; q++)
        {
            double x = 0, y = 0, z = 0; for (size_t i = 0; i < a.r; i++) { x += a.at(i, p) * a.at(i, p); y += a.at(i, q) * a.at(i, q); z += a.at(i, p) * a.at(i, q); }
            if (std::abs(z) <= 1e-15 * std::sqrt(x * y) || z == 0) continue;
            done = false; double t = (y - x) / (2 * z), w = (t >= 0 ? 1 : -1) / (std::abs(t) + std::sqrt(1 + t * t)), c = 1 / std::sqrt(1 + w * w), s = c * w;
            for (size_t i = 0; i < a.r; i++) { double u = a.at(i, p), v = a.at(i, q); a.at(i, p) = c * u - s * v; a.at(i, q) = s * u + c * v; }
        }
        if (done) break;
    }
    std::vector<double> s; for (size_t j = 0; j < a.c; j++) { double x = 0; for (size_t i = 0; i < a.r; i++) x += a.at(i, j) * a.at(i, j); s.push_back(std::sqrt(x)); }
    std::sort(s.begin(), s.end(), std::greater<double>()); return s;
}
static void property(Gen& g)
{
    size_t m, n; { uint64_t k = g.draw(7); if (k == 0) { m = 1; n = g.size(1, 30); } else if (k == 1) { n = 1; m = g.size(1, 30); } else if (k == 2) { m = g.size(1, 24); n = g.size(1, 24); } else if (k == 3) m = n = g.size(1, 12); else { m = g.range(1, 7); n = g.range(1, 7); } }
    Mod<float> a(m, n); size_t p = std::min(m, n); const char* nm;
    switch (g.draw(9))
    {
    case 0: case 1: a = fill<float>(g, m, n, 9); nm = "integers"; break;
    case 2: case 3: for (auto& v : a.v) v = (float)g.real(-10, 10); nm = "reals"; break;
    case 4: { size_t k = g.range(1, p); Mod<float> u = fill<float>(g, m, k, 5), w = fill<float>(g, k, n, 5); for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++) { float s = 0; for (size_t q = 0; q < k; q++) s += u.at(i, q) * w.at(q, j); a.at(i, j) = s; } nm = "rank deficient"; break; }
    case 5: { float d = (float)g.real(0.5, 4); for (size_t i = 0; i < p; i++) a.at(i, (i + (n > p ? 1 : 0)) % n) = g.once_in(3) ? -d : d; nm = "repeated values"; break; }
    case 6: { for (size_t i = 0; i < p; i++) a.at(i, i) = g.once_in(4) ? 0.0f : (float)g.sint(5); nm = "diagonal"; break; }
    case 7: { for (auto& v : a.v) v = g.once_in(3) ? (float)g.real(-1, 1) : 0.0f; nm = "sparse"; break; }
    case 8: { for (size_t i = 0; i < m; i++) { float f = (float)std::pow(10.0, g.range(-6, 6)); for (size_t j = 0; j < n; j++) a.at(i, j) = f * (float)g.real(-1, 1); } nm = "badly scaled rows"; break; }
    default: {
        if (g.flip()) { for (auto& v : a.v) v = (float)g.flip(); nm = "zero and one"; break; }
        // slow to diagonalise: many equal singular values in disguise
        static const char* base = "0000111001001111000111010111000000110010110010011";
        m = n = p = 7; a = Mod<float>(7, 7); std::vector<size_t> o, q; for (size_t i = 0; i < 7; i++) { o.push_back(i); q.push_back(i); }
        if (g.flip()) { size_t i = g.draw(6), j = g.draw(6); std::swap(o[i], o[j]); } if (g.flip()) { size_t i = g.draw(6), j = g.draw(6); std::swap(q[i], q[j]); }
        bool t = g.once_in(4); for (size_t i = 0; i < 7; i++) for (size_t j = 0; j < 7; j++) a.at(t ? j : i, t ? i : j) = (float)(base[o[i] * 7 + q[j]] - '0');
        if (g.flip()) { size_t i = g.draw(6); bool row = g.flip(); for (size_t j = 0; j < 7; j++) (row ? a.at(i, j) : a.at(j, i)) *= -1; }
        if (g.once_in(4)) a.v[g.draw(48)] = (float)g.sint(2);
        nm = "repeated values in disguise"; break; }
    }
    if (g.once_in(5)) { float f = (float)std::pow(10.0, g.range(-12, 12)); for (auto& v : a.v) v *= f; nm = "scaled"; }
    NOTE(g, "svd of " << nm << " " << show(a));
    g.label(nm); g.label("shape:" + shape_label(m, n)); g.nontrivial(m > 1 || n > 1);
    susa::matrix<float> A = make<susa::matrix<float>>(a), U, S, V;
    if (g.once_in(4)) { U = susa::matrix<float>(3, 2, 7.f); S = susa::matrix<float>(1, 4, 7.f); V = susa::matrix<float>(5, 5, 7.f); } // results replace whatever was there
    susa::svd(A, U, S, V);
    same(A, a, "the argument of svd");
    Mod<float> u = model(U), s = model(S), v = model(V);
    std::string sh = std::to_string(m) + "x" + std::to_string(n);
    PBT_CHECK(s.r * s.c == p, "svd of " << sh << ": " << s.r * s.c << " singular values");
    PBT_CHECK(u.r == m && u.c == p && v.r == n && v.c == p, "svd of " << sh << ": the factors are " << u.r << "x" << u.c << " and " << v.r << "x" << v.c);
    Mod<double> d(m, n); double nrm = 0; for (size_t i = 0; i < m * n; i++) { d.v[i] = a.v[i]; nrm = std::hypot(nrm, d.v[i]); }
    const double tol = 4e-6 * std::sqrt((double)std::max(m, n));
    for (size_t k = 0; k < p; k++) PBT_CHECK(std::isfinite(s.v[k]) && s.v[k] >= 0, "svd of " << show(a) << ": singular value " << s.v[k]);
    for (size_t i = 0; i < m; i++) for (size_t j = 0; j < n; j++)
    { double x = 0; for (size_t k = 0; k < p; k++) x += (double)u.at(i, k) * s.v[k] * v.at(j, k);
      PBT_CHECK(std::abs(x - d.at(i, j)) <= tol * nrm, "svd of " << show(a) << ": U*diag(S)*V' has " << x << " at (" << i << "," << j << ")"); }
    for (int w = 0; w < 2; w++)
    { const Mod<float>& q = w ? v : u; const char* qn = w ? "V" : "U";
      for (size_t i = 0; i < p; i++) for (size_t j = 0; j < p; j++)
      { double x = 0; for (size_t k = 0; k < q.r; k++) x += (double)q.at(k, i) * q.at(k, j);
        PBT_CHECK(std::abs(x - (i == j)) <= tol, "svd of " << show(a) << ": columns " << i << " and " << j << " of " << qn << " have the inner product " << x); } }
    std::vector<double> e = jacobi(d), f(s.v.begin(), s.v.end()); std::sort(f.begin(), f.end(), std::greater<double>());
    for (size_t k = 0; k < p; k++) PBT_CHECK(std::abs(e[k] - f[k]) <= tol * nrm, "svd of " << show(a) << ": singular value " << k << " is " << f[k] << " instead of " << e[k]);
}
#include "pbt_main.h"
