// Product, transposes, concatenation, flips and identity, exactly.
#include "susagen.h"
using namespace sg;

template <class T> static Mod<T> tr(const Mod<T>& a) { Mod<T> d(a.c, a.r); for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < a.c; j++) d.at(j, i) = a.at(i, j); return d; }
template <class T> static Mod<T> mul(const Mod<T>& a, const Mod<T>& b)
{
    Mod<T> d(a.r, b.c);
    for (size_t i = 0; i < a.r; i++) for (size_t j = 0; j < b.c; j++) { T s = T(0); for (size_t k = 0; k < a.c; k++) s += a.at(i, k) * b.at(k, j); d.at(i, j) = s; }
    return d;
}
template <class T, class A> static void prop(Gen& g)
{
    typedef susa::matrix<T, A> M;
    int64_t mag = std::is_same<T, float>::value || std::is_same<T, std::complex<float>>::value ? 9 : sizeof(T) == 1 ? 255 : 3000;
    uint64_t op = g.draw(9);
    Mod<T> x = fill<T>(g, 0, 0);
    { size_t r, c; if (g.once_in(2000)) { if (op <= 2) { r = g.once_in(3) ? (size_t)g.range(250, 300) : g.size(1, 120); c = op < 2 && g.once_in(3) ? (size_t)g.range(250, 300) : g.size(30, 120); } else bigdims(g, r, c); } else dims(g, r, c, op <= 2 ? 24 : 40); if (op <= 2 && c > 120) mag = std::min<int64_t>(mag, 2000); x = fill<T>(g, r, c, mag, true); } // products stay exact
    M a = make<M>(x); const M& ca = a;
    std::string sh = std::to_string(x.r) + "x" + std::to_string(x.c);
    NOTE(g, "matrix<" << tname<T>() << "> " << show(x) << " ");
    g.label(std::string("type:") + tname<T>()); g.label("shape:" + shape_label(x.r, x.c));
    g.nontrivial(x.size() > 1); g.weight = x.size();
    switch (op)
    {
    case 0: case 1: {
        Mod<T> y = fill<T>(g, x.c, g.once_in(3) ? 1 : g.once_in(1000) ? (size_t)g.range(250, 300) : g.size(1, 24), mag, true); M b = make<M>(y);
        NOTE(g, "times " << show(y)); g.label("op:product");
        same(susa::matmul(ca, b), mul(x, y), "product of " + sh + " and " + std::to_string(y.r) + "x" + std::to_string(y.c)); same(a, x, "left operand"); same(b, y, "right operand");
        if (g.once_in(4)) { a = susa::matmul(a, b); same(a, mul(x, y), "product assigned to its operand"); } break; }
    case 2: { // one operand twice, in square and in transposed form
        g.label("op:product with itself");
        if (x.c > 150) break;
        if (x.r == x.c) { same(susa::matmul(a, a), mul(x, x), "square of " + sh); a = susa::matmul(a, a); same(a, mul(x, x), "square assigned"); }
        else same(susa::matmul(susa::transpose(a), a), mul(tr(x), x), "Gram matrix of " + sh);
        break; }
    case 3: { g.label("op:transpose"); same(susa::transpose(ca), tr(x), "transpose of " + sh); same(a, x, "operand of transpose"); a = susa::transpose(a); same(a, tr(x), "transpose assigned to its operand"); break; }
    case 4: {
        if constexpr (is_cplx<T>::value) { g.label("op:hermitian"); Mod<T> h = tr(x); for (auto& v : h.v) v = std::conj(v); same(susa::hermitian(ca), h, "conjugate transpose of " + sh); same(a, x, "operand of hermitian"); }
        else { g.label("op:transpose twice"); same(susa::transpose(susa::transpose(ca)), x, "double transpose of " + sh); }
        break; }
    case 5: case 6: {
        bool alias = g.once_in(5); Mod<T> y; uint64_t k = g.draw(2);
        if (alias) y = x; else if (k == 0) y = fill<T>(g, g.size(1, 40), x.c, mag, true); else if (k == 1) y = fill<T>(g, x.r, g.size(1, 40), mag, true); else y = fill<T>(g, x.r, x.c, mag, true);
        if (!alias && g.flip()) { std::swap(x, y); a = make<M>(x); sh = std::to_string(x.r) + "x" + std::to_string(x.c); }
        M b0 = make<M>(y); const M& b = alias ? a : b0; Mod<T> e;
        if (x.c == y.c) { e = Mod<T>(x.r + y.r, x.c); for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < e.c; j++) e.at(i, j) = i < x.r ? x.at(i, j) : y.at(i - x.r, j); g.label("op:concat vertical"); }
        else { e = Mod<T>(x.r, x.c + y.c); for (size_t i = 0; i < e.r; i++) for (size_t j = 0; j < e.c; j++) e.at(i, j) = j < x.c ? x.at(i, j) : y.at(i, j - x.c); g.label("op:concat horizontal"); }
        NOTE(g, "and " << show(y));
        same(susa::concat(ca, b), e, "concatenation of " + sh + " and " + std::to_string(y.r) + "x" + std::to_string(y.c)); same(a, x, "left operand"); same(b, y, "right operand");
        if (g.once_in(4)) { a = susa::concat(a, b); same(a, e, "concatenation assigned to its operand"); } break; }
    case 7: case 8: {
        bool lr = op == 7, vec = x.r == 1 || x.c == 1; Mod<T> e(x.r, x.c); g.label(lr ? "op:fliplr" : "op:flipud");
        for (size_t i = 0; i < x.r; i++) for (size_t j = 0; j < x.c; j++)
            e.at(i, j) = vec ? x.at(x.r - 1 - i, x.c - 1 - j) : lr ? x.at(i, x.c - 1 - j) : x.at(x.r - 1 - i, j);
        same(lr ? susa::fliplr(ca) : susa::flipud(ca), e, std::string(lr ? "fliplr of " : "flipud of ") + sh); same(a, x, "operand of a flip");
        a = lr ? susa::fliplr(a) : susa::flipud(a); same(a, e, "flip assigned to its operand"); break; }
    default: {
        if (std::max(x.r, x.c) > 150) { x = fill<T>(g, 3, 4, mag, true); a = make<M>(x); }
        size_t n = g.once_in(300) ? (size_t)g.range(100, 300) : g.size(1, 40); M i = susa::eye<T, A>(n); Mod<T> e(n, n); for (size_t k = 0; k < n; k++) e.at(k, k) = T(1); g.label("op:eye");
        same(i, e, "identity of size " + std::to_string(n));
        same(susa::matmul(susa::eye<T, A>(x.r), ca), x, "identity times " + sh); same(susa::matmul(ca, susa::eye<T, A>(x.c)), x, sh + " times identity"); break; }
    }
}
static void property(Gen& g)
{
    with_type<double, int, std::complex<double>, float, std::complex<float>, uint8_t, long long, unsigned>(g, [&](auto t) { typedef decltype(t) T;
        if (g.once_in(3)) prop<T, susa::allocator_log<T>>(g); else prop<T, std::allocator<T>>(g); });
}
#include "pbt_main.h"
