// Filtering and convolution against the difference equation and the polynomial product.
#include "susagen.h"
using namespace sg;
typedef std::complex<long double> CL;
template <class T> static CL big(T x) { if constexpr (is_cplx<T>::value) return CL(x.real(), x.imag()); else return CL((long double)x, 0); }
static long double mag1(CL x) { return std::abs(x.real()) + std::abs(x.imag()); }
template <class T> static constexpr double epsof() { if constexpr (is_cplx<T>::value) return std::numeric_limits<typename is_cplx<T>::real>::epsilon(); else return std::is_integral<T>::value ? 0 : std::numeric_limits<T>::epsilon(); }

// the expected output of one column, with a bound of the magnitudes that occur
static void reference(const std::vector<CL>& b, const std::vector<CL>& a, const std::vector<CL>& x, size_t len, std::vector<CL>& y, std::vector<long double>& m)
{
    y.assign(len, CL()); m.assign(len, 0);
    for (size_t n = 0; n < len; n++)
    {
        for (size_t k = 0; k < b.size(); k++) if (n >= k && n - k < x.size()) { y[n] += b[k] * x[n - k]; m[n] += mag1(b[k]) * mag1(x[n - k]); }
        for (size_t k = 1; k < a.size(); k++) if (n >= k) { y[n] -= a[k] * y[n - k]; m[n] += mag1(a[k]) * m[n - k]; }
    }
}
template <class T> static std::vector<CL> column(const Mod<T>& d, size_t j) { std::vector<CL> v; for (size_t i = 0; i < d.r; i++) v.push_back(big<T>(d.at(i, j))); return v; }
template <class T> static std::vector<CL> flat(const Mod<T>& d) { std::vector<CL> v; for (size_t k = 0; k < d.size(); k++) v.push_back(big<T>(d.lin(k))); return v; }
template <class T> static void compare(T got, CL want, long double bound, size_t terms, const std::string& what, size_t n, size_t col)
{
    long double e = mag1(big<T>(got) - want);
    PBT_CHECK(e <= 4 * (terms + 2) * (long double)epsof<T>() * bound, what << ": output " << n << " of column " << col << " is " << pbt::str(got) << " instead of (" << (double)want.real() << "," << (double)want.imag() << ")");
}
template <class T> static Mod<T> vec(Gen& g, size_t n, int64_t mag) { bool col = g.flip(); return fill<T>(g, col ? n : 1, col ? 1 : n, mag, true); }

template <class T, class TT, template <class> class Al> static void filtering(Gen& g)
{
    size_t nb = g.size(1, 20), na = g.flip() ? 1 : g.size(1, 8), tail = g.flip() ? 0 : g.size(0, 30);
    bool iir = na > 1; if (tail == 0 && g.once_in(8)) tail = nb + 5;
    // a denominator of small coefficients keeps the output bounded, however long it is
    bool stable = !std::is_integral<TT>::value && !std::is_integral<T>::value && g.once_in(6), longer = g.once_in(2500);
    if (stable) { na = g.range(2, 40); iir = true; } if (longer) nb = g.once_in(6) ? g.range(90, 400) : g.range(1, 90);
    Mod<TT> b = vec<TT>(g, nb, 5), a = vec<TT>(g, na, 1); a.v[0] = TT(1);
    if constexpr (!std::is_integral<TT>::value) if (stable) for (size_t i = 1; i < na; i++) a.v[i] /= (TT)(double)(2 * na);
    Mod<T> x; { size_t r, c; dims(g, r, c, iir ? 12 : 40); if (iir && !stable && r > 30) r = 30; if (iir && !stable && c > 30) c = 30; if (longer && (!iir || stable)) { r = g.range(100, 6000); c = g.size(1, 3); if (g.flip()) std::swap(r, c); if (r < 4 && r > 1 && c > 300) c = 300; } x = fill<T>(g, r, c, 9, true); }
    if (iir && !stable && tail > 20) tail = 20;
    NOTE(g, "filter<" << tname<T>() << "," << tname<TT>() << "> b=" << show(b) << " a=" << show(a) << " x=" << show(x) << " tail " << tail);
    bool row = x.r == 1 && x.c > 1; size_t cols = row ? 1 : x.c, len = (row ? x.c : x.r) + tail;
    std::vector<std::vector<CL>> y(cols); std::vector<std::vector<long double>> m(cols);
    for (size_t j = 0; j < cols; j++)
    {
        reference(flat(b), flat(a), row ? flat(x) : column(x, j), len, y[j], m[j]);
        for (auto v : m[j]) if (v > (std::is_integral<T>::value ? 1e9L : 1e25L)) { g.label("out of range (skipped)"); return; }
    }
    auto B = make<susa::matrix<TT, Al<TT>>>(b), A = make<susa::matrix<TT, Al<TT>>>(a); auto X = make<susa::matrix<T, Al<T>>>(x);
    auto Y = tail || g.flip() ? susa::filter(B, A, X, tail) : susa::filter(B, A, X);
    g.label(std::string("filter ") + tname<T>() + "," + tname<TT>()); g.label("shape:" + shape_label(x.r, x.c)); g.label(nb > (row ? x.c : x.r) ? "longer coefficients" : "shorter coefficients"); g.label(iir ? "recursive" : "finite");
    g.nontrivial(nb + na > 2); g.weight = len * cols;
    std::ostringstream w; w << "filter of " << x.r << "x" << x.c << " with " << nb << "/" << na << " coefficients and tail " << tail;
    PBT_CHECK(Y.no_rows() == (row ? 1 : len) && Y.no_cols() == (row ? len : cols), w.str() << " is " << Y.no_rows() << "x" << Y.no_cols());
    for (size_t j = 0; j < cols; j++) for (size_t n = 0; n < len; n++) compare<T>(row ? Y(0, n) : Y(n, j), y[j][n], m[j][n], nb + na + len, w.str(), n, j);
    same(X, x, "the input of filter"); same(B, b, "the coefficients b"); same(A, a, "the coefficients a");
}

template <class T, template <class> class Al> static void convolution(Gen& g)
{
    typedef susa::matrix<T, Al<T>> M;
    Mod<T> x, y; bool longer = g.once_in(3000); size_t hi = g.once_in(10) ? 90 : 12; uint64_t k = g.draw(6);
    const int64_t mag = std::is_same<T, float>::value || std::is_same<T, std::complex<float>>::value ? 9 : 300;
    if (longer) { x = vec<T>(g, g.range(300, 5000), 9); y = vec<T>(g, g.once_in(4) ? g.range(250, 700) : g.range(2, 60), 9); }
    else if (k <= 2) { x = vec<T>(g, g.size(1, hi), mag); y = g.once_in(6) ? x : vec<T>(g, g.size(1, hi), mag); }
    else { x = fill<T>(g, g.size(2, 12), g.size(2, 8), mag, true); y = vec<T>(g, g.size(1, 12), mag); }
    bool swap = g.flip(); if (swap) std::swap(x, y);
    NOTE(g, "conv<" << tname<T>() << "> " << show(x) << " and " << show(y)); g.label(std::string("conv ") + tname<T>()); g.label("shapes:" + shape_label(x.r, x.c) + "," + shape_label(y.r, y.c));
    g.nontrivial(x.size() > 1 && y.size() > 1);
    M X = make<M>(x), Y0 = make<M>(y); bool alias = x == y && g.flip(); const M& Y = alias ? X : Y0;
    M z = susa::conv(X, Y);
    std::ostringstream w; w << "conv of " << x.r << "x" << x.c << " and " << y.r << "x" << y.c;
    Mod<T> e;
    if (y.size() == 1) { e = x; for (auto& v : e.v) v = v * y.v[0]; }
    else if (x.size() == 1) { e = y; for (auto& v : e.v) v = v * x.v[0]; }
    else
    {
        bool both = x.is_vector() && y.is_vector(); const Mod<T>& s = x.is_vector() && !both ? y : x; const Mod<T>& h = x.is_vector() && !both ? x : y; // s is convolved with the vector h
        bool row = s.r == 1; size_t n = row ? s.c : s.r, cols = row ? 1 : s.c, len = n + h.size() - 1;
        e = row ? Mod<T>(1, len) : Mod<T>(len, cols);
        for (size_t j = 0; j < cols; j++) for (size_t i = 0; i < n; i++) for (size_t q = 0; q < h.size(); q++) { T t = (T)(row ? s.at(0, i) : s.at(i, j)) * (T)h.v[q]; if (row) e.at(0, i + q) += t; else e.at(i + q, j) += t; }
        if (both)
        {
            M z2 = susa::conv(Y, X); PBT_CHECK(z2.size() == len, "conv with exchanged operands has " << z2.size() << " elements instead of " << len);
            for (size_t i = 0; i < len; i++) PBT_CHECK(z2(i) == e.v[i], "conv with exchanged operands: element " << i << " is " << pbt::str((T)z2(i)) << " instead of " << pbt::str((T)e.v[i]));
        }
    }
    same(z, e, w.str()); same(X, x, "first operand of conv"); same(Y, y, "second operand of conv"); g.weight = e.size();
}
static void property(Gen& g)
{
    if (g.flip()) with_type<double, int, std::complex<double>, float, std::complex<float>, long long>(g, [&](auto t) { typedef decltype(t) T; if (g.once_in(3)) convolution<T, susa::allocator_log>(g); else convolution<T, std::allocator>(g); });
    else switch (g.draw(7))
    {
    case 0: case 1: filtering<double, double, std::allocator>(g); break;
    case 2: filtering<int, int, std::allocator>(g); break;
    case 3: filtering<std::complex<double>, std::complex<double>, std::allocator>(g); break;
    case 4: filtering<std::complex<double>, double, std::allocator>(g); break;
    case 5: filtering<float, float, std::allocator>(g); break;
    case 6: filtering<double, int, susa::allocator_log>(g); break;
    default: filtering<double, double, susa::allocator_log>(g); break;
    }
}
#include "pbt_main.h"
