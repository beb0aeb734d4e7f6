// Identities that tie the parts of the library together; where the values allow it they are exact.
#include "susagen.h"
using namespace sg;
typedef std::complex<double> C;

template <class M> static void eq(const M& a, const M& b, const std::string& what)
{
    PBT_CHECK(a.no_rows() == b.no_rows() && a.no_cols() == b.no_cols(), what << ": the shapes are " << a.no_rows() << "x" << a.no_cols() << " and " << b.no_rows() << "x" << b.no_cols());
    for (size_t k = 0; k < a.size(); k++) PBT_CHECK(a(k) == b(k), what << ": element " << k << " of " << a.no_rows() << "x" << a.no_cols() << " is " << pbt::str(a(k)) << " on one side and " << pbt::str(b(k)) << " on the other");
}
template <class M, class N> static void near(const M& a, const N& b, double tol, const std::string& what)
{
    PBT_CHECK(a.no_rows() == b.no_rows() && a.no_cols() == b.no_cols(), what << ": the shapes are " << a.no_rows() << "x" << a.no_cols() << " and " << b.no_rows() << "x" << b.no_cols());
    for (size_t k = 0; k < a.size(); k++) { double e = std::abs(cd(a(k)) - cd(b(k))); PBT_CHECK(e <= tol, what << ": element " << k << " of " << a.no_rows() << "x" << a.no_cols() << " is " << pbt::str(a(k)) << " on one side and " << pbt::str(b(k)) << " on the other"); }
}
#define DIM(A) (std::to_string(A.no_rows()) + "x" + std::to_string(A.no_cols()))

template <class T, class A> static void algebra(Gen& g)
{
    typedef susa::matrix<T, A> M; auto mat = [&](size_t r, size_t c) { return make<M>(fill<T>(g, r, c, 5)); };
    size_t hi = g.once_in(200) ? 70 : g.once_in(10) ? 20 : 6, r = g.size(1, hi), k = g.size(1, hi), l = g.size(1, hi), c = g.size(1, hi); uint64_t op = g.draw(9);
    g.nontrivial(r * k * c > 1); g.weight = r * k; std::ostringstream w; w << tname<T>() << " " << r << "," << k << "," << l << "," << c << " "; auto tag = [&](const char* s) { w << s; NOTE(g, w.str()); g.label(s); };
    M a = mat(r, k), b = mat(k, l);
    switch (op)
    {
    case 0: { tag("(AB)C = A(BC)"); M d = mat(l, c); eq(susa::matmul(susa::matmul(a, b), d), susa::matmul(a, susa::matmul(b, d)), w.str()); break; }
    case 1: { tag("(A+B)C = AC+BC"); M d = mat(r, k), e = mat(k, c); eq(susa::matmul(a + d, e), susa::matmul(a, e) + susa::matmul(d, e), w.str()); eq(susa::matmul(a - d, e), susa::matmul(a, e) - susa::matmul(d, e), w.str() + " with -"); break; }
    case 2: { tag("(AB)' = B'A'"); eq(susa::transpose(susa::matmul(a, b)), susa::matmul(susa::transpose(b), susa::transpose(a)), w.str());
              if constexpr (is_cplx<T>::value) eq(susa::hermitian(susa::matmul(a, b)), susa::matmul(susa::hermitian(b), susa::hermitian(a)), w.str() + " (conjugate)"); break; }
    case 3: { tag("AI = IA = A"); eq(susa::matmul(a, make<M>(model(susa::eye<T>(k)))), a, w.str()); eq(susa::matmul(make<M>(model(susa::eye<T>(r))), a), a, w.str()); break; }
    case 4: { tag("rows and columns of a product"); M p = susa::matmul(a, b); size_t i = g.draw(r - 1), j = g.draw(l - 1); eq(p.row(i), susa::matmul(a.row(i), b), w.str() + ": row"); eq(p.col(j), susa::matmul(a, b.col(j)), w.str() + ": column"); break; }
    case 5: { tag("blocks of a product"); M p = susa::matmul(a, b); if (a.is_vector() || b.is_vector() || k < 2 || p.is_vector() || p.size() == 1) break; size_t s = g.range(1, k - 1); // A = [A1 A2], B = [B1; B2]
              M b1 = susa::transpose(susa::transpose(b).left(s)), b2 = susa::transpose(susa::transpose(b).right(k - s)); eq(susa::matmul(a.left(s), b1) + susa::matmul(a.right(k - s), b2), p, w.str()); eq(susa::concat(b1, b2), b, w.str() + ": concat"); break; }
    case 6: { tag("flips"); eq(susa::fliplr(susa::flipud(a)), susa::flipud(susa::fliplr(a)), w.str()); if (!a.is_vector()) eq(susa::transpose(susa::fliplr(a)), susa::flipud(susa::transpose(a)), w.str()); eq(susa::fliplr(susa::fliplr(a)), a, w.str()); break; }
    case 7: { tag("Kronecker products"); size_t p = g.size(1, 4), q = g.size(1, 4), s = g.size(1, 4), u = g.size(1, 4), v = g.size(1, 3), x = g.size(1, 3); M e = mat(p, q), f = mat(s, u), h = mat(q, v), i = mat(u, x);
              eq(susa::matmul(susa::kron(e, f), susa::kron(h, i)), susa::kron(susa::matmul(e, h), susa::matmul(f, i)), w.str()); eq(susa::transpose(susa::kron(e, f)), susa::kron(susa::transpose(e), susa::transpose(f)), w.str()); break; }
    case 8: { tag("element-wise"); M d = mat(r, k); eq(a + d, d + a, w.str()); eq((a - d) + d, a, w.str()); eq(a * d, d * a, w.str()); eq(T(3) * a, a + a + a, w.str()); M e(a); e += d; eq(e, a + d, w.str()); e -= d; eq(e, a, w.str()); PBT_CHECK(e == a, w.str() << ": =="); break; }
    default: { tag("reshape and linear order"); std::vector<size_t> div; for (size_t i = 1; i <= r * k; i++) if (r * k % i == 0) div.push_back(i); size_t i = div[g.draw(div.size() - 1)]; M x = a.reshape(i, r * k / i); for (size_t j = 0; j < r * k; j++) PBT_CHECK(x(j) == a(j), w.str() << ": element " << j); eq(x.reshape(r, k), a, w.str()); break; }
    }
}
template <class T> static void signals(Gen& g)
{
    typedef susa::matrix<T> M; bool col = g.flip(); auto vec = [&](size_t n) { return make<M>(col ? fill<T>(g, n, 1, 5) : fill<T>(g, 1, n, 5)); };
    size_t hi = g.once_in(100) ? 200 : g.once_in(10) ? 40 : 8, n = g.size(2, hi), m = g.size(2, hi), k = g.size(2, 8); uint64_t op = g.draw(8); g.nontrivial(true); g.weight = n; std::ostringstream w; w << tname<T>() << (col ? " columns " : " rows ") << n << "," << m << "," << k << " "; auto tag = [&](const char* s) { w << s; NOTE(g, w.str()); g.label(s); };
    M a = vec(n), b = vec(m);
    switch (op)
    {
    case 0: { tag("conv commutes"); eq(susa::conv(a, b), susa::conv(b, a), w.str()); break; }
    case 1: { tag("conv associates"); M d = vec(k); eq(susa::conv(susa::conv(a, b), d), susa::conv(a, susa::conv(b, d)), w.str()); break; }
    case 2: { tag("conv distributes"); M d = vec(m); eq(susa::conv(a, b + d), susa::conv(a, b) + susa::conv(a, d), w.str()); break; }
    case 3: { tag("conv is filtering"); M one(1, 1, T(1)); eq(susa::conv(a, b), susa::filter(b, one, a, m - 1), w.str()); M f = susa::filter(b, one, a); if (n > 1) eq(f, susa::conv(a, b).left(n), w.str()); break; }
    case 4: { tag("convolution matrix"); M K = susa::convmtx(b, n), x = col ? a : susa::transpose(a), y = susa::conv(a, b); // one orientation must do
              if (K.no_cols() == n) eq(susa::matmul(K, x), col ? y : susa::transpose(y), w.str()); else eq(susa::matmul(susa::transpose(x), K), col ? susa::transpose(y) : y, w.str()); break; }
    case 5: { tag("recursive filter undoes"); M den = b; den(0) = T(1); for (size_t i = 1; i < m; i++) if (i > 3) den(i) = T(0); M one(1, 1, T(1)); // y = x/den, then y*den = x; exact as long as integers stay small
              size_t len = std::min<size_t>(n, 8); M x = col ? make<M>(model(a)) : a; x = x.left(len); eq(susa::filter(den, one, susa::filter(one, den, x)), x, w.str()); break; }
    case 6: { tag("upsampling and convolution"); size_t u = g.range(1, 4); if (!col) { a = susa::transpose(a); b = susa::transpose(b); } M ua = susa::upsample(a, u), ub = susa::upsample(b, u); // (a*b) up = up a * up b
              M l = susa::upsample(susa::conv(a, b), u), r = susa::conv(ua, ub); PBT_CHECK(r.size() >= l.size(), w.str() << ": " << r.size() << " < " << l.size()); for (size_t i = 0; i < r.size(); i++) PBT_CHECK(r(i) == (i < l.size() ? l(i) : T(0)), w.str() << ": element " << i); eq(susa::downsample(ua, u), a, w.str() + ": and back"); break; }
    case 7: { tag("Toeplitz matrices"); M t = susa::toeplitz(a); eq(t, susa::transpose(t), w.str()); M x(n, 1), y(1, n); for (size_t i = 0; i < n; i++) { x(i) = a(i); y(i) = b(i % m); } y(0) = x(0); M t2 = susa::toeplitz(x, y), t3 = susa::toeplitz(y, x); eq(susa::transpose(t2), t3, w.str() + " (two vectors)"); eq(susa::toeplitz(x, x), t, w.str() + " (the same twice)"); break; }
    default: { tag("sums of a convolution"); T x = susa::sum(susa::conv(a, b))(0), y = susa::sum(a)(0) * susa::sum(b)(0); PBT_CHECK(x == y, w.str() << ": " << pbt::str(x) << " and " << pbt::str(y)); break; }
    }
}
static void transforms(Gen& g)
{
    typedef susa::matrix<double> M; typedef susa::matrix<C> MC; size_t n = g.once_in(20) ? 256 : (size_t)2 << g.draw(4); bool pow2 = g.flip(); if (!pow2) n = g.size(2, 40); bool col = g.flip(); auto vec = [&](size_t k) { return make<M>(col ? fill<double>(g, k, 1, 9) : fill<double>(g, 1, k, 9)); };
    M a = vec(n), b = vec(n); susa::fft<double> f; auto F = [&](const M& x) { return pow2 ? f.radix2(x) : f.dft(x); }; double tol = 1e-10 * n * n * 10; g.nontrivial(true); g.weight = n; std::ostringstream w; w << (pow2 ? "radix2" : "dft") << " of " << n << (col ? " rows " : " columns "); auto tag = [&](const char* s) { w << s; NOTE(g, w.str()); g.label(s); };
    MC A = F(a), B = F(b);
    switch (g.draw(5))
    {
    case 0: { tag("transform is linear"); near(F(2.0 * a - b), C(2) * A - B, tol, w.str()); break; }
    case 1: { tag("Parseval"); double s = 0, t = 0; for (size_t i = 0; i < n; i++) { s += a(i) * a(i); t += std::norm(A(i)) / n; } PBT_CHECK(std::fabs(s - t) <= 1e-9 * (1 + s), w.str() << ": " << s << " and " << t); double q = susa::norm(a)(0); PBT_CHECK(std::fabs(q * q - s) <= 1e-9 * (1 + s) || std::fabs(q - s) <= 1e-9 * (1 + s), w.str() << ": norm " << q); break; }
    case 2: { tag("cyclic convolution"); M c = col ? M(n, 1, 0.0) : M(1, n, 0.0), l = susa::conv(a, b); for (size_t i = 0; i < l.size(); i++) c(i % n) += l(i); near(F(c), A * B, tol * 100, w.str()); break; }
    case 3: { tag("the transforms agree"); if (pow2) near(f.radix2(a), f.dft(a), tol, w.str()); M t = susa::transpose(a); near(F(t), susa::transpose(A), tol, w.str()); break; }
    case 4: { tag("real and imaginary parts"); MC z = susa::to_complex(a); near(susa::real(A), 0.5 * susa::real(A + susa::conj(A)), tol, w.str()); M m = susa::mag(A), re = susa::real(A), im = susa::imag(A); near(m, re * re + im * im, 1e-9 * 100 * n * n, w.str()); for (size_t i = 1; i < n; i++) PBT_CHECK(std::abs(A(i) - std::conj(A(n - i))) <= tol, w.str() << ": symmetry at " << i); eq(susa::real(z), a, w.str()); break; }
    default: { tag("columns of a matrix"); if (!col) { a = susa::transpose(a); b = susa::transpose(b); A = susa::transpose(A); B = susa::transpose(B); } M m(n, 2); m.set_col(0, a); m.set_col(1, b); MC R = F(m); near(R.col(0), A, tol, w.str()); near(R.col(1), B, tol, w.str()); break; }
    }
}
static void decompositions(Gen& g)
{
    typedef susa::matrix<double> M; size_t n = g.once_in(30) ? g.size(1, 30) : g.size(1, 7); auto mat = [&](size_t r, size_t c) { return make<M>(fill<double>(g, r, c, 5)); }; std::ostringstream w; w << n << "x" << n << " "; auto tag = [&](const char* s) { w << s; NOTE(g, w.str()); g.label(s); };
    M a = mat(n, n); g.nontrivial(n > 1); g.weight = n * n; uint64_t op = g.draw(7);
    M dom = a; for (size_t i = 0; i < n; i++) { double s = 1; for (size_t j = 0; j < n; j++) s += std::fabs(a(i, j)); dom(i, (i * 1 + 0) % n) = (a(i, i) < 0 ? -s : s); } // diagonally dominant: well conditioned
    if (g.flip() && n > 1) dom.swap_rows(g.draw(n - 1), g.draw(n - 1));
    switch (op)
    {
    case 0: { if (n > 5) break; tag("det(AB) = det A det B"); M b = mat(n, n); double x = susa::det(susa::matmul(a, b)), y = susa::det(a) * susa::det(b); PBT_CHECK(x == y || std::fabs(x - y) < 1e-9 * std::fabs(y), w.str() << ": " << x << " and " << y << " for " << show(a) << " and " << show(b)); x = susa::det(susa::transpose(a)); y = susa::det(a); PBT_CHECK(x == y, w.str() << ": transposed " << x << " and " << y << " for " << show(a)); break; }
    case 1: { if (n > 6) break; tag("det A = product of the pivots"); susa::lu<double> l(dom); M d = dom; double x = susa::det(d); susa::lup<double> p(d); PBT_CHECK(p.decompose(), w.str() << ": lup fails for " << show(d)); double y = 1, s = 0; M i = susa::inv(d); y = susa::det(i); (void)s; (void)l; PBT_CHECK(std::fabs(x * y - 1) <= 1e-8, w.str() << ": det A det inv(A) = " << x * y << " for " << show(d)); break; }
    case 2: { tag("inverse and solution"); M i = susa::inv(dom), b = mat(n, 1), x = susa::linsolve(dom, b); near(susa::matmul(dom, x), b, 1e-8, w.str()); near(susa::matmul(i, b), x, 1e-8, w.str()); near(susa::matmul(dom, i), make<M>(model(susa::eye<double>(n))), 1e-8, w.str()); near(susa::inv(i), dom, 1e-6, w.str()); break; }
    case 3: { tag("rank and singular values"); size_t m = g.size(1, 7), r = g.size(1, std::min(n, m)); if (n > 12) break; M u = mat(n, r), v = mat(r, m), p = susa::matmul(u, v); susa::matrix<float> q(n, m), U, S, V; for (size_t i = 0; i < n * m; i++) q(i) = (float)p(i); susa::svd(q, U, S, V); double mx = 0, mn = 1e300; size_t cnt = 0; for (size_t i = 0; i < S.size(); i++) mx = std::max(mx, (double)S(i));
              for (size_t i = 0; i < S.size(); i++) if (S(i) > 1e-4 * mx) { cnt++; mn = std::min(mn, (double)S(i)); } bool clear = mx > 0; for (size_t i = 0; i < S.size(); i++) if (S(i) > 1e-6 * mx && S(i) < 1e-2 * mx) clear = false;
              size_t k = susa::rank(p), kt = susa::rank(susa::transpose(p)); PBT_CHECK(k == kt, w.str() << ": rank " << k << ", of the transpose " << kt << " for " << show(p)); if (clear) PBT_CHECK(k == cnt, w.str() << ": rank " << k << " but " << cnt << " singular values of " << show(p)); break; }
    case 4: { tag("singular values, norm and determinant"); size_t m = g.size(1, 8); susa::matrix<float> q = make<susa::matrix<float>>(fill<float>(g, n, m, 5)), U, S, V, U2, S2, V2; susa::svd(q, U, S, V); susa::svd(susa::transpose(q), U2, S2, V2); std::vector<double> x, y; double f = 0, e = 0; for (size_t i = 0; i < S.size(); i++) { x.push_back(S(i)); e += (double)S(i) * S(i); } for (size_t i = 0; i < S2.size(); i++) y.push_back(S2(i)); for (size_t i = 0; i < q.size(); i++) f += (double)q(i) * q(i);
              std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); PBT_CHECK(x.size() == y.size(), w.str() << ": " << x.size() << " and " << y.size() << " values"); for (size_t i = 0; i < x.size(); i++) PBT_CHECK(std::fabs(x[i] - y[i]) <= 1e-4 * std::sqrt(f), w.str() << ": " << x[i] << " and transposed " << y[i] << " for " << show(q)); PBT_CHECK(std::fabs(e - f) <= 1e-4 * f, w.str() << ": sum of squares " << e << " and " << f << " for " << show(q)); break; }
    case 5: { tag("LU and LUP"); M d = dom; for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) d(i, j) = a(i, j); for (size_t i = 0; i < n; i++) { double s = 1; for (size_t j = 0; j < n; j++) s += std::fabs(a(i, j)); d(i, i) = s; } susa::lu<double> l(d); PBT_CHECK(l.decompose(), w.str() << ": lu fails for " << show(d)); near(susa::matmul(l.get_lower(), l.get_upper()), d, 1e-9 * 30 * n, w.str()); if (n <= 6) { double x = 1; M u = l.get_upper(), lo = l.get_lower(); for (size_t i = 0; i < n; i++) x *= u(i, i) * lo(i, i); double y = susa::det(d); PBT_CHECK(std::fabs(x - y) <= 1e-9 * std::fabs(y), w.str() << ": product of pivots " << x << ", det " << y << " for " << show(d)); }
              M b = mat(n, 1); susa::lup<double> p(d), q(d); PBT_CHECK(p.decompose() && q.decompose_alt(), w.str() << ": lup fails"); near(p.solve(b), susa::linsolve(d, b), 1e-9, w.str()); break; }
    case 6: { if (n > 3) break; tag("Kronecker products, rank and det"); M b = mat(2, 2); double x = susa::det(susa::kron(a, b)), y = std::pow(susa::det(a), 2) * std::pow(susa::det(b), (double)n); PBT_CHECK(std::fabs(x - y) <= 1e-9 * std::fabs(y) + 1e-9, w.str() << ": " << x << " and " << y << " for " << show(a) << " and " << show(b)); size_t r = susa::rank(susa::kron(a, b)), s = susa::rank(a) * susa::rank(b); PBT_CHECK(r == s, w.str() << ": ranks " << r << " and " << s << " for " << show(a) << " and " << show(b)); break; }
    default: { if (n > 4) break; tag("full rank and det"); double d = susa::det(a); bool full = susa::rank(a) == n; PBT_CHECK(full == (std::fabs(d) > 0.5), w.str() << ": rank " << susa::rank(a) << ", det " << d << " for " << show(a)); break; }
    }
}
template <class T> static void ordering(Gen& g)
{
    typedef susa::matrix<T> M; size_t n = g.once_in(100) ? g.size(2, 300) : g.size(2, 25); bool col = g.flip(); int64_t mag = g.flip() ? 4 : 1000; M v = make<M>(col ? fill<T>(g, n, 1, mag) : fill<T>(g, 1, n, mag)); std::ostringstream w; w << tname<T>() << " " << n << (col ? " rows: " : " columns: "); auto tag = [&](const char* s) { w << s; NOTE(g, w.str() << " " << show(v)); g.label(s); };
    g.nontrivial(true); g.weight = n; M s = susa::sort(v); susa::matrix<unsigned> ix = susa::sort_indices(v); unsigned k = (unsigned)g.range(1, n - 1);
    switch (g.draw(4))
    {
    case 0: { tag("sort and sort_indices"); for (size_t i = 0; i < n; i++) PBT_CHECK(s(i) == v(ix(i)), w.str() << " differ at " << i << " for " << show(v)); eq(susa::sort(s), s, w.str() + " (again)"); break; }
    case 1: { tag("sort and selection"); susa::matrix<unsigned> l = susa::select_least(v, k), m = susa::select_most(v, k), all(n, 1); for (size_t i = 0; i < n; i++) all(i) = (unsigned)i; susa::matrix<unsigned> lim = susa::select_limited_least(v, all, k); for (size_t i = 0; i < k; i++) { PBT_CHECK(v(l(i)) == s(i) && v(lim(i)) == s(i), w.str() << ": least " << i << " of " << k << " for " << show(v)); PBT_CHECK(v(m(i)) == s(n - 1 - i), w.str() << ": most " << i << " of " << k << " for " << show(v)); } break; }
    case 2: { tag("sort and extrema"); PBT_CHECK(v(susa::min(v)(0)) == s(0) && v(susa::max(v)(0)) == s(n - 1), w.str() << " for " << show(v)); break; }
    case 3: { tag("search and counting"); T x = v(g.draw(n - 1)); susa::bitset f = susa::find(v, x); size_t c = 0, e = 0; for (size_t i = 0; i < n; i++) c += v(i) == x; while (f.any()) { size_t p = f.pop(); PBT_CHECK(p < n && v(p) == x, w.str() << ": position " << p << " for " << show(v)); if (++e > n) break; } PBT_CHECK(c == e, w.str() << ": " << e << " of " << c << " found in " << show(v)); break; }
    default: { tag("order and sums"); T a = susa::sum(v)(0), b = susa::sum(s)(0), c = susa::sum(susa::flipud(susa::fliplr(v)))(0); PBT_CHECK(a == b && a == c, w.str() << " for " << show(v)); break; }
    }
}
static void codes(Gen& g)
{
    std::ostringstream w; auto tag = [&](const char* s) { w << s; NOTE(g, w.str()); g.label(s); }; g.nontrivial(true);
    switch (g.draw(3))
    {
    case 0: { unsigned n = (unsigned)g.range(1, 8), m = (unsigned)g.range(1, 12); tag("encoding is linear"); susa::ccode c(n, 1, m); for (unsigned j = 0; j < n; j++) { uint32_t v = 0, p = 1; for (unsigned k = 0; k < 5; k++, p *= 10) v += (uint32_t)g.draw(7) * p; uint32_t x = 0, o = 1; for (uint32_t d = v; d; d /= 10, o *= 8) x += d % 10 * o; while (x >= (2u << m)) { v /= 10; x /= 8; } c.set_generator(v, j); }
              size_t N = g.size(1, 60); typedef susa::matrix<uint8_t> B; B a(N, 1), b(N, 1), x(N, 1); for (size_t i = 0; i < N; i++) { a(i) = (uint8_t)g.flip(); b(i) = (uint8_t)g.flip(); x(i) = a(i) ^ b(i); } B A = c.encode(a), Bb = c.encode(b), X = c.encode(x); for (size_t i = 0; i < X.size(); i++) PBT_CHECK(X(i) == (A(i) ^ Bb(i)), w.str() << ": output " << i << " of " << N << " bits"); g.weight = N; break; }
    case 1: { tag("both twisters agree"); uint32_t s = (uint32_t)(g.flip() ? g.draw(100) : g.draw(0xffffffffu)); susa::rng r(s); susa::mt t(s); size_t n = g.size(1, 1500); for (size_t i = 0; i < n; i++) { unsigned a = r.rand_mask(0xffffffffu), b = t.rand_mask(0xffffffffu); PBT_CHECK(a == b, w.str() << ": word " << i << " of seed " << s << " is " << a << " and " << b); } g.weight = n; break; }
    case 2: { tag("interference is linear"); typedef susa::matrix<double> M; size_t t = g.range(2, 4), N = g.size(t, 30); M h = make<M>(fill<double>(g, 1, t, 5)), p(2, 1); p(0) = -1; p(1) = 1; susa::channel<double> c(h, p); M a(N, 1); for (size_t i = 0; i < N; i++) a(i) = g.flip() ? 1 : -1; unsigned st = (unsigned)g.draw((1u << (t - 1)) - 1); M x = c.encode_isi(a, st), y = c.encode_isi(-1.0 * a, (1u << (t - 1)) - 1 - st); // every symbol and every state negated
              near(x, -1.0 * y, 1e-12, w.str()); break; }
    default: { static const unsigned O[] = {4, 16, 64, 256}; susa::qam q(O[g.draw(3)]); tag("quarter turns of a constellation"); C z(g.real(-9, 9), g.real(-9, 9)); auto near_half = [](double v) { double f = v - std::floor(v); return std::fabs(f) < 1e-6 || std::fabs(f - 0.5) < 1e-6; }; if (near_half(z.real()) || near_half(z.imag())) break; C a = q.demodulate_symbol(z) * C(0, 1), b = q.demodulate_symbol(z * C(0, 1)), c = std::conj(q.demodulate_symbol(z)), d = q.demodulate_symbol(std::conj(z)); PBT_CHECK(std::abs(a - b) < 1e-9 && std::abs(c - d) < 1e-9, w.str() << ": " << z << " gives " << a << ", " << b << ", " << c << ", " << d); break; }
    }
}
static void property(Gen& g)
{
    switch (g.draw(8))
    {
    case 0: case 1: case 2: with_type<double, C, int, unsigned, float>(g, [&](auto t) { typedef decltype(t) T; if (g.once_in(4)) algebra<T, susa::allocator_log<T>>(g); else algebra<T, std::allocator<T>>(g); }); break;
    case 3: case 4: with_type<double, int, C, float>(g, [&](auto t) { signals<decltype(t)>(g); }); break;
    case 5: transforms(g); break;
    case 6: decompositions(g); break;
    case 7: with_type<double, int, float>(g, [&](auto t) { ordering<decltype(t)>(g); }); break;
    default: codes(g);
    }
}
#include "pbt_main.h"
