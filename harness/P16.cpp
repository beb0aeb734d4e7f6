// Resampling, convolution and Toeplitz matrices, Kronecker product.
#include "susagen.h"
using namespace sg;

template <class T, template <class> class Al> static void one(Gen& g)
{
    typedef susa::matrix<T, Al<T>> M;
    const int64_t mag = 30;
    g.label(tname<T>());
    switch (g.draw(5))
    {
    case 0: { // upsampling, and downsampling back
        Mod<T> a = anymod<T>(g, mag); size_t u = g.size(1, 40); if (g.once_in(500)) { a = fill<T>(g, g.range(1, 300), g.range(1, 4), mag); u = g.range(2, 600); } NOTE(g, "upsample " << show(a) << " by " << u);
        g.label("upsample " + shape_label(a.r, a.c)); g.nontrivial(a.size() > 1 && u > 1);
        Mod<T> e(a.r * u, a.c, T(0)); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) e.at(i * u, j) = a.at(i, j);
        M A = make<M>(a), U = susa::upsample(A, u); same(U, e, "upsample"); same(A, a, "the input of upsample");
        same(susa::downsample(U, u), a, "downsample of upsample"); g.weight = e.size(); break; }
    case 1: { // downsampling
        Mod<T> a = anymod<T>(g, mag); if (g.once_in(100)) a = fill<T>(g, g.range(40, 3000), g.range(1, 3), mag); size_t d = a.r > 40 && g.flip() ? a.r / g.range(1, std::min<size_t>(a.r, 9)) : g.size(1, a.r); if (d < a.r / 2 && g.once_in(3) && a.r > 40) a = fill<T>(g, a.r / d * d, a.c, mag); NOTE(g, "downsample " << show(a) << " by " << d);
        g.label("downsample " + shape_label(a.r, a.c)); g.label(a.r % d ? "incomplete group" : "complete groups"); g.nontrivial(a.r > 1 && d > 1);
        Mod<T> e(a.r / d, a.c); for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < a.c; j++) e.at(i, j) = a.at(i * d, j);
        M A = make<M>(a); same(susa::downsample(A, d), e, "downsample"); same(A, a, "the input of downsample"); break; }
    case 2: { // convolution matrix
        size_t m = g.size(2, 30), len = g.size(1, 30); bool col = g.flip(); if (g.once_in(3000)) { m = 65530 + (size_t)g.draw(200); len = (size_t)g.range(1, 3); } else if (g.once_in(1000)) { m = g.range(2, 300); len = g.range(1, 300); } Mod<T> h = fill<T>(g, col ? m : 1, col ? 1 : m, mag), x = fill<T>(g, col ? len : 1, col ? 1 : len, mag);
        NOTE(g, "convmtx " << show(h) << " for " << len << " elements"); g.label(col ? "convmtx column" : "convmtx row"); g.nontrivial(len > 1);
        M H = make<M>(h), X = make<M>(x), C = susa::convmtx(H, len); size_t n = m + len - 1;
        Mod<T> e = col ? Mod<T>(n, len, T(0)) : Mod<T>(len, n, T(0));
        for (size_t k = 0; k < len; k++) for (size_t i = 0; i < m; i++) (col ? e.at(i + k, k) : e.at(k, i + k)) = h.v[i];
        same(C, e, "convmtx"); same(H, h, "the input of convmtx");
        Mod<T> y = col ? Mod<T>(n, 1, T(0)) : Mod<T>(1, n, T(0)); for (size_t i = 0; i < m; i++) for (size_t k = 0; k < len; k++) y.v[i + k] += h.v[i] * x.v[k];
        same(col ? susa::matmul(C, X) : susa::matmul(X, C), y, "the product with the convolution matrix");
        if (m < 60000) same(susa::conv(X, H), y, "the convolution"); g.weight = e.size(); break; }
    case 3: { // Toeplitz matrix of a column and a row
        size_t r = g.size(1, 40), c = g.size(1, 40); if (g.once_in(3000)) { r = 65530 + (size_t)g.draw(200); c = (size_t)g.range(1, 3); if (g.flip()) std::swap(r, c); } else if (g.once_in(1000)) { r = g.range(1, 400); c = g.range(1, 400); }
        Mod<T> a = fill<T>(g, r, 1, mag), b = fill<T>(g, 1, c, mag); b.v[0] = a.v[0];
        if (g.once_in(4)) std::swap(a.r, a.c); if (g.once_in(4)) std::swap(b.r, b.c); // only the elements count
        NOTE(g, "toeplitz " << show(a) << " and " << show(b)); g.label("toeplitz " + shape_label(r, c)); g.nontrivial(r > 1 && c > 1);
        M A = make<M>(a), B = make<M>(b); Mod<T> e(r, c);
        for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) e.at(i, j) = i >= j ? a.v[i - j] : b.v[j - i];
        same(susa::toeplitz(A, B), e, "toeplitz"); same(A, a, "the column"); same(B, b, "the row"); break; }
    case 4: { // symmetric Toeplitz matrix
        size_t n = g.size(1, 40); if (g.once_in(1000)) n = g.range(40, 400); Mod<T> a = g.flip() ? fill<T>(g, n, 1, mag) : fill<T>(g, 1, n, mag); NOTE(g, "toeplitz " << show(a)); g.label("toeplitz symmetric"); g.nontrivial(n > 1);
        M A = make<M>(a); Mod<T> e(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) e.at(i, j) = a.v[i >= j ? i - j : j - i];
        same(susa::toeplitz(A), e, "symmetric toeplitz"); same(A, a, "the column"); break; }
    default: {
        Mod<T> a = anymod<T>(g, mag, false, 10), b = anymod<T>(g, mag, false, 10); if (g.once_in(2000)) { a = fill<T>(g, 1, g.range(2, 3), mag); b = fill<T>(g, 1, 33000 + (size_t)g.draw(100), mag); if (g.flip()) std::swap(a.r, a.c), std::swap(b.r, b.c); else if (g.flip()) std::swap(a.r, a.c); if (g.flip()) std::swap(a, b); }
        bool alias = a.size() < 100 && g.once_in(8); if (alias) b = a;
        NOTE(g, "kron " << show(a) << " and " << show(b)); g.label("kron " + shape_label(a.r, a.c) + "," + shape_label(b.r, b.c)); g.nontrivial(a.size() > 1 && b.size() > 1);
        M A = make<M>(a), B0 = make<M>(b); const M& B = alias ? A : B0; Mod<T> e(a.r * b.r, a.c * b.c);
        for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < e.c; j++) e.at(i, j) = (T)(a.at(i / b.r, j / b.c) * b.at(i % b.r, j % b.c));
        same(susa::kron(A, B), e, "kron"); same(A, a, "first operand of kron"); same(B, b, "second operand of kron"); g.weight = e.size(); break; }
    }
}
static void property(Gen& g)
{
    if (g.once_in(4)) with_type<double, int>(g, [&](auto t) { one<decltype(t), susa::allocator_log>(g); });
    else with_type<double, int, std::complex<double>, float, uint8_t, long long>(g, [&](auto t) { one<decltype(t), std::allocator>(g); });
}
#include "pbt_main.h"
