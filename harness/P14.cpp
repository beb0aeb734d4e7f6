// Fast and direct transforms against the DFT sum.
#include "susagen.h"
using namespace sg;
typedef long double L; typedef std::complex<long double> CL;

template <class T, class A> static void prop(Gen& g)
{
    typedef susa::matrix<T, A> M;
    bool fast = g.flip(); bool matrix = g.once_in(3); size_t n, w = 1; bool col = true;
    if (fast) n = (size_t)1 << (g.once_in(30) ? g.once_in(20) ? g.once_in(25) ? g.range(15, 18) : g.range(11, 14) : g.range(8, 10) : g.range(0, 7)); else n = g.once_in(20) ? g.once_in(100) ? (size_t)g.range(200, 1200) : g.size(1, 200) : g.size(1, 40);
    if (matrix && n > 1) { w = g.size(1, 6); if (n > 128) n = fast ? 64 : 50; } else col = g.flip();
    Mod<T> x; const char* nm;
    size_t r = col ? n : w, c = col ? w : n;
    switch (g.draw(5))
    {
    case 0: x = fill<T>(g, r, c, 9); nm = "integers"; break;
    case 1: { x = Mod<T>(r, c); pbt::Rng b = g.bulk(); for (auto& v : x.v) v = (T)((double)b.upto(2000000) / 1e5 - 10); nm = "reals"; break; }
    case 2: { x = Mod<T>(r, c); x.v[g.range(0, r * c - 1)] = T(1); nm = "impulse"; break; }
    case 3: { x = Mod<T>(r, c); size_t f = g.range(0, n - 1); for (size_t i = 0; i < r * c; i++) x.v[i] = (T)std::cos(2 * M_PI * (double)(f * i) / n); nm = "tone"; break; }
    case 4: { x = Mod<T>(r, c, scalar<T>(g, 9, true)); nm = "constant"; break; }
    default: { x = Mod<T>(r, c); double s = std::pow(10.0, g.range(-8, 8)); pbt::Rng b = g.bulk(); for (auto& v : x.v) v = (T)(s * ((double)b.upto(2000000) / 1e6 - 1)); nm = "scaled reals"; break; }
    }
    NOTE(g, (fast ? "radix2<" : "dft<") << tname<T>() << "> of " << nm << " " << show(x));
    g.label(fast ? "radix2" : "dft"); g.label(std::string("type:") + tname<T>()); g.label("shape:" + shape_label(r, c)); g.label(nm); g.nontrivial(n > 1); g.weight = r * c;
    M m = make<M>(x); susa::fft<T, A> f;
    auto y = fast ? f.radix2(m) : f.dft(m);
    same(m, x, "the input of the transform");
    PBT_CHECK(y.no_rows() == r && y.no_cols() == c, "the transform of " << r << "x" << c << " is " << y.no_rows() << "x" << y.no_cols());
    std::vector<CL> tw(n); for (size_t k = 0; k < n; k++) tw[k] = CL(std::cos(2 * (L)M_PIl * k / n), -std::sin(2 * (L)M_PIl * k / n));
    size_t stride = n > 256 ? 1 + g.draw(n > 20000 ? 8000 : n > 2000 ? 300 : 9) : 1; // large transforms: a part of the outputs and the last one
    if (n > 20000) stride += n / 64;
    for (size_t q = 0; q < (col ? w : 1); q++)
    {
        L in = 0, out = 0; for (size_t i = 0; i < n; i++) { L v = col ? x.at(i, q) : x.at(0, i); in += v * v; std::complex<T> z = col ? y(i, q) : y(0, i); out += std::norm(CL(z.real(), z.imag())); }
        PBT_CHECK(std::abs(out / n - in) <= 64 * (L)(n + 4) * std::numeric_limits<T>::epsilon() * in, (fast ? "radix2" : "dft") << " of " << show(x) << ": the energy of column " << q << " is " << (double)(out / n) << " instead of " << (double)in);
        L sum = 0; for (size_t i = 0; i < n; i++) sum += std::abs((L)(col ? x.at(i, q) : x.at(0, i)));
        L tol = 8 * (L)(n + 4) * std::numeric_limits<T>::epsilon() * sum;
        for (size_t k = 0; k < n; k += (k + stride < n ? stride : k + 1 < n ? n - 1 - k : 1))
        {
            CL s = 0; for (size_t i = 0; i < n; i++) s += (L)(col ? x.at(i, q) : x.at(0, i)) * tw[(i * k) % n];
            std::complex<T> v = col ? y(k, q) : y(0, k);
            PBT_CHECK(std::abs(CL(v.real(), v.imag()) - s) <= tol, (fast ? "radix2" : "dft") << " of " << show(x) << ": output " << k << " of column " << q << " is " << v << " instead of (" << (double)s.real() << "," << (double)s.imag() << ")");
        }
    }
}
static void property(Gen& g)
{
    switch (g.draw(3)) { case 0: case 1: prop<double, std::allocator<double>>(g); break; case 2: prop<float, std::allocator<float>>(g); break; default: prop<double, susa::allocator_log<double>>(g); }
}
#include "pbt_main.h"
