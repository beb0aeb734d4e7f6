// Generators and plain reference models of susa matrices.
#ifndef SUSAGEN_H
#define SUSAGEN_H

#include "pbt.h"
#include <susa.h>

namespace sg
{
using pbt::Gen;
typedef std::complex<double> cd;

template <class T> struct is_cplx : std::false_type { typedef T real; };
template <class T> struct is_cplx<std::complex<T>> : std::true_type { typedef T real; };

template <class T> const char* tname();
template <> inline const char* tname<double>() { return "double"; }
template <> inline const char* tname<float>() { return "float"; }
template <> inline const char* tname<int>() { return "int"; }
template <> inline const char* tname<unsigned>() { return "unsigned"; }
template <> inline const char* tname<long>() { return "long"; }
template <> inline const char* tname<long long>() { return "llong"; }
template <> inline const char* tname<unsigned long>() { return "ulong"; }
template <> inline const char* tname<short>() { return "short"; }
template <> inline const char* tname<unsigned short>() { return "ushort"; }
template <> inline const char* tname<int8_t>() { return "int8"; }
template <> inline const char* tname<uint8_t>() { return "uint8"; }
template <> inline const char* tname<char>() { return "char"; }
template <> inline const char* tname<bool>() { return "bool"; }
template <> inline const char* tname<std::complex<double>>() { return "cdouble"; }
template <> inline const char* tname<std::complex<float>>() { return "cfloat"; }
template <> inline const char* tname<std::complex<int>>() { return "cint"; }
template <> inline const char* tname<std::complex<int8_t>>() { return "cint8"; }
template <> inline const char* tname<std::complex<uint8_t>>() { return "cuint8"; }

// A scalar of type T: integers of magnitude up to mag; real types also fractions
// (multiples of 1/8, so that sums and products stay exact) when frac is set.
template <class T> T scalar(Gen& g, int64_t mag, bool frac = false)
{
    if constexpr (is_cplx<T>::value)
    {
        typedef typename is_cplx<T>::real R;
        R re = scalar<R>(g, mag, frac); R im = scalar<R>(g, mag, frac);
        return T(re, im);
    }
    else if constexpr (std::is_same<T, bool>::value) return g.flip();
    else if constexpr (std::is_floating_point<T>::value) return frac ? (T)g.sint(8 * mag) / (T)8 : (T)g.sint(mag);
    else if constexpr (std::is_signed<T>::value) return (T)g.sint(mag < (int64_t)std::numeric_limits<T>::max() ? mag : (int64_t)std::numeric_limits<T>::max());
    else { int64_t v = g.sint(mag); return (T)(v < 0 ? -v : v); }
}

// plain model of a matrix, in its own (row-major) layout
template <class T> struct Mod
{
    size_t r = 0, c = 0;
    std::vector<T> v;
    Mod() {}
    Mod(size_t r_, size_t c_, T x = T()) : r(r_), c(c_), v(r_ * c_, x) {}
    typename std::vector<T>::reference at(size_t i, size_t j) { return v[i * c + j]; }
    T at(size_t i, size_t j) const { return v[i * c + j]; }
    // element in linear (column-major) order
    T lin(size_t k) const { return v[(k % r) * c + k / r]; }
    void setlin(size_t k, T x) { v[(k % r) * c + k / r] = x; }
    size_t size() const { return r * c; }
    bool is_vector() const { return (r == 1) != (c == 1) && r >= 1 && c >= 1 && r * c > 1; }
    bool operator==(const Mod& o) const { return r == o.r && c == o.c && v == o.v; }
};

template <class T, class A> Mod<T> model(const susa::matrix<T, A>& m)
{
    Mod<T> d(m.no_rows(), m.no_cols());
    for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) d.at(i, j) = m(i, j);
    return d;
}

template <class M, class T> M make(const Mod<T>& d)
{
    if (d.r == 0) return M();
    M m(d.r, d.c);
    for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++) m(i, j) = d.at(i, j);
    return m;
}

template <class T> std::string show(const Mod<T>& d)
{
    std::ostringstream o; o.precision(9); o << d.r << "x" << d.c << "[";
    for (size_t i = 0; i < d.r && i < 8; i++)
    {
        if (i) o << "; ";
        for (size_t j = 0; j < d.c && j < 12; j++) o << (j ? " " : "") << pbt::str((T)d.at(i, j));
        if (d.c > 12) o << " ..";
    }
    if (d.r > 8) o << "; ..";
    o << "]"; return o.str();
}
template <class T, class A> std::string show(const susa::matrix<T, A>& m) { return show(model(m)); }

inline std::string shape_label(size_t r, size_t c)
{
    if (r == 0) return "empty";
    if (r == 1 && c == 1) return "scalar";
    if (r == 1) return "row";
    if (c == 1) return "column";
    if (r == c) return "square";
    return r < c ? "wide" : "tall";
}

// rows and columns of a non-empty matrix
inline void dims(Gen& g, size_t& r, size_t& c, size_t hi = 40)
{
    uint64_t k = g.draw(9);
    if (k <= 1)      { r = g.size(1, hi); c = g.size(1, hi); }
    else if (k == 2) { r = 1; c = g.size(1, 3 * hi); }
    else if (k == 3) { r = g.size(1, 3 * hi); c = 1; }
    else if (k == 4) { r = c = g.size(1, hi); }
    else             { r = g.size(1, 6 < hi ? 6 : hi); c = g.size(1, 6 < hi ? 6 : hi); }
}

// rows and columns of a large matrix: up to max elements, often near a power of two
inline void bigdims(Gen& g, size_t& r, size_t& c, size_t max = 70000)
{
    size_t n = g.flip() ? ((size_t)1 << g.range(7, 16)) + (size_t)g.draw(6) - 3 : (size_t)g.range(200, max);
    if (n > max) n = max;
    if (max >= 70000 && g.once_in(8)) // both more than one, and one beyond 16 bits
    {
        r = 65530 + (size_t)g.draw(200); c = (size_t)g.range(2, 3); if (g.flip()) std::swap(r, c);
        g.label("larger"); return;
    }
    switch (g.draw(4))
    {
    case 0: r = 1; c = n; break;
    case 1: r = n; c = 1; break;
    case 2: r = (size_t)g.range(2, 20); c = n / r; break;
    case 3: c = (size_t)g.range(2, 20); r = n / c; break;
    default: r = (size_t)std::sqrt((double)n); c = n / r; break;
    }
    g.label("large");
}

template <class T> Mod<T> fill(Gen& g, size_t r, size_t c, int64_t mag = 9, bool frac = false)
{
    Mod<T> d(r, c);
    if (r * c > 80) // bulk data from one choice
    {
        Gen b; b.rng = g.bulk(); // b records into the same status; keep it out of there
        pbt::Status* s = pbt::status(); pbt::status() = nullptr;
        for (size_t i = 0; i < r * c; i++) d.v[i] = scalar<T>(b, mag, frac);
        pbt::status() = s;
    }
    else for (size_t i = 0; i < r * c; i++) d.v[i] = scalar<T>(g, mag, frac);
    return d;
}

template <class T> Mod<T> anymod(Gen& g, int64_t mag = 9, bool frac = false, size_t hi = 40)
{ size_t r, c; dims(g, r, c, hi); return fill<T>(g, r, c, mag, frac); }

// exact comparison of a matrix with its model
template <class T, class A> void same(const susa::matrix<T, A>& m, const Mod<T>& d, const std::string& what)
{
    PBT_CHECK(m.no_rows() == d.r && m.no_cols() == d.c,
              what << ": shape is " << m.no_rows() << "x" << m.no_cols() << " instead of " << d.r << "x" << d.c);
    PBT_CHECK(m.size() == d.r * d.c, what << ": size() is " << m.size());
    for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++)
    {
        T x = m(i, j), y = d.at(i, j);
        PBT_CHECK(x == y, what << ": element (" << i << "," << j << ") of a " << d.r << "x" << d.c << " matrix is "
                  << pbt::str(x) << " instead of " << pbt::str(y));
    }
}

// the same up to an absolute tolerance
template <class T, class A, class U> void close(const susa::matrix<T, A>& m, const Mod<U>& d, double tol, const std::string& what)
{
    PBT_CHECK(m.no_rows() == d.r && m.no_cols() == d.c,
              what << ": shape is " << m.no_rows() << "x" << m.no_cols() << " instead of " << d.r << "x" << d.c);
    for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++)
    {
        T x = m(i, j); U y = d.at(i, j);
        double e = std::abs(cd(x) - cd(y));
        PBT_CHECK(e <= tol, what << ": element (" << i << "," << j << ") of a " << d.r << "x" << d.c << " matrix is "
                  << pbt::str(x) << " instead of " << pbt::str(y) << " (tolerance " << tol << ")");
    }
}

// call f<T>() for one of the listed types
template <class F, class... Ts> struct Dispatch;
template <class... Ts> struct types {};
template <class F, class T> void with_type_i(Gen&, size_t i, size_t k, types<T>, F&& f) { (void)i; (void)k; f(T()); }
template <class F, class T, class U, class... Ts> void with_type_i(Gen& g, size_t i, size_t k, types<T, U, Ts...>, F&& f)
{
    if (i == k) f(T()); else with_type_i(g, i + 1, k, types<U, Ts...>(), std::forward<F>(f));
}
template <class... Ts, class F> void with_type(Gen& g, F&& f)
{ size_t k = g.draw(sizeof...(Ts) - 1); with_type_i(g, 0, k, types<Ts...>(), std::forward<F>(f)); }

} // namespace sg
#endif
