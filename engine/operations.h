// Operations over all the parts of the library, on operands of their own (made from a seed) or reading
// shared constant ones, whose results are summed up in a digest.
#ifndef PBT_OPERATIONS_H
#define PBT_OPERATIONS_H
#include "susagen.h"
namespace ops
{
typedef std::complex<double> C; typedef susa::matrix<double> MD; typedef susa::matrix<int> MI; typedef susa::matrix<C> MC; typedef susa::matrix<uint8_t> MB;

struct Digest
{
    uint64_t h = 1469598103934665603ull;
    std::vector<double>* out = nullptr; // the values themselves
    void raw(const void* p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char*)p)[i]; h *= 1099511628211ull; } }
    void add(double x) { if (out) out->push_back(x); if (x != x) x = 0.123456789; if (x == 0) x = 0; raw(&x, sizeof x); } void add(float x) { add((double)x); } template <class I> typename std::enable_if<std::is_integral<I>::value>::type add(I x) { uint64_t v = (uint64_t)x; if (out) out->push_back((double)x); raw(&v, 8); }
    template <class R> void add(std::complex<R> x) { add((double)x.real()); add((double)x.imag()); } void add(const std::string& s) { if (out) out->insert(out->end(), s.begin(), s.end()); raw(s.data(), s.size()); }
    template <class T, class A> void add(const susa::matrix<T, A>& m) { add(m.no_rows()); add(m.no_cols()); for (size_t i = 0; i < m.size(); i++) add((T)m(i)); }
    template <class T> void add(const std::vector<T>& v) { add(v.size()); for (const T& x : v) add(x); }
};
struct Src // deterministic operands
{
    uint64_t x; size_t scale; Src(uint64_t s, size_t k) : x(s * 0x9e3779b97f4a7c15ull + 1), scale(k) {}
    uint64_t next() { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    uint64_t upto(uint64_t m) { return m == 0 ? 0 : next() % (m + 1); }
    size_t size() { return 1 + (size_t)upto(scale); }
    int num() { return (int)upto(18) - 9; }
    struct Shape { size_t r, c; };
    template <class T> susa::matrix<T> mat(Shape d) { return mat<T>(d.r, d.c); }
    template <class T> susa::matrix<T> mat(size_t r, size_t c) { susa::matrix<T> m(r, c); for (size_t i = 0; i < r * c; i++) { if constexpr (std::is_same<T, C>::value) m(i) = C{(double)num(), (double)num()}; else if constexpr (std::is_same<T, uint8_t>::value) m(i) = (uint8_t)upto(1); else m(i) = (T)num(); } return m; }
    MD col(size_t n) { return mat<double>(n, 1); } MD row(size_t n) { return mat<double>(1, n); }
};
// objects every thread may read
struct Shared { MD a, b, sq; MI i; MC z; susa::array<double> arr; std::string text; susa::fft<double>* f; Shared(Src s) : a(s.mat<double>(3, 4)), b(s.mat<double>(3, 4)), sq(s.mat<double>(4, 4)), i(s.mat<int>(1, 9)), z(s.mat<C>(3, 2)), arr({2, 3, 2}), text("[1 2 3;4 5 6]") { for (size_t k = 0; k < 12; k++) arr(k) = s.num(); f = nullptr; } };

inline uint32_t octal(uint32_t g) { uint32_t o = 0, k = 1; for (; g; g /= 8, k *= 10) o += g % 8 * k; return o; }
inline MD list(std::initializer_list<double> l) { MD m(l.size(), 1); size_t i = 0; for (double x : l) m(i++) = x; return m; }
typedef void (*Op)(Src&, const Shared&, Digest&);
static const struct { const char* name; Op f; } OPS[] = {
#define OP(N, ...) {N, [](Src& s, const Shared& g, Digest& d) { (void)s; (void)g; (void)d; __VA_ARGS__; }}
    OP("arithmetic", size_t r = s.size(), c = s.size(); MD a = s.mat<double>(r, c), b = s.mat<double>(r, c); for (size_t i = 0; i < b.size(); i++) if (b(i) == 0) b(i) = 1; d.add(a + b); d.add(a - b * 2.0); d.add(a / b); a += b; a -= b * b; d.add(a); d.add(a == b)),
    OP("values", MD a = s.mat<double>({s.size(), s.size()}), b(a), c; c = std::move(b); b = c; b.resize(2, 3); b.set_all(4); d.add(a); d.add(b); d.add(c); MI i = a; d.add(i)),
    OP("views", size_t r = s.size() + 1, c = s.size() + 1; MD a = s.mat<double>(r, c); d.add(a.row(r - 1)); d.add(a.col(0)); d.add(a.left(1)); d.add(a.right(1)); d.add(a.mid(0, c - 1)); d.add(a.shrink(0, 1)); d.add(a.reshape(c, r)); a.set_row(0, s.row(c)); a.set_col(1, s.col(r)); a.swap_rows(0, r - 1); a.swap_cols(0, c - 1); d.add(a); d.add(a.get_row_as_vec(0)); d.add(a.get_col_as_vec(0))),
    OP("text", std::ostringstream t; t << s.num() << " " << s.num() << ";" << s.num() << "," << s.num(); MD a(t.str()); d.add(a); a = "1 2;3 4"; d.add(a); std::ostringstream o; o << a; d.add(o.str()); MD big = s.mat<double>({s.size(), s.size()}); std::ostringstream u; u << big; MD back(u.str()); d.add(back)),
    OP("array", susa::array<double> a({2, 3, 2}); for (size_t i = 0; i < 12; i++) a(i) = s.num(); susa::array<double> b(a); double x = 0; for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) for (size_t k = 0; k < 2; k++) x = x * 0.7 + b(i, j, k) + b.get(i, j, k); d.add(x); d.add(b.get(std::vector<size_t>{1, 2, 1}))),
    OP("bitset", susa::bitset b(100); for (int i = 0; i < 20; i++) b.set(s.upto(99)); for (int i = 0; i < 9; i++) b.reset(s.upto(99)); susa::bitset c(70); c.set(); c.reset(s.upto(69)); c.push(s.upto(69)); for (size_t i = 0; i < 70; i += 7) d.add(c.exists(i)); susa::bitset e(c); c.reset(); d.add(c.any()); d.add(e.exists(s.upto(69))); while (b.any()) d.add(b.pop())),
    OP("tracked matrix", size_t r = s.size(), c = s.size(); susa::matrix<double, susa::allocator_log<double>> a(r, c, 1.5), b(a); d.add(a + b); b.resize(3, 3); d.add(b.size())),
    OP("matmul", size_t n = s.size(); MD a = s.mat<double>(s.size(), n), b = s.mat<double>(n, s.size()); d.add(susa::matmul(a, b))),
    OP("transpose and flips", MC a = s.mat<C>({s.size(), s.size()}); d.add(susa::transpose(a)); d.add(susa::hermitian(a)); d.add(susa::fliplr(a)); d.add(susa::flipud(a)); d.add(susa::concat(a, a)); d.add(susa::eye<double>(s.size()))),
    OP("det and rank", size_t n = 1 + s.upto(3); MD a = s.mat<double>(n, n); d.add(susa::det(a)); d.add(susa::rank(a))),
    OP("lu", size_t n = s.size(); MD a = s.mat<double>(n, n); for (size_t i = 0; i < n; i++) a(i, i) = 20.0 * n; susa::lu<double> l(a); d.add(l.decompose()); d.add(l.get_lower()); d.add(l.get_upper())),
    OP("lup, inverse and solving", size_t n = s.size(); MD a = s.mat<double>(n, n); for (size_t i = 0; i < n; i++) a(i, n - 1 - i) = 20.0 * n; susa::lup<double> l(a); d.add(l.decompose()); d.add(susa::inv(a)); MD q = s.col(n); d.add(susa::linsolve(a, q)); d.add(l.solve(q)); d.add(l.invert()); d.add(l.get_lu()); susa::lup<double> m(a); d.add(m.decompose_alt()); d.add(m.get_lu()); d.add(m.get_pivot()); d.add(m.solve(q)); d.add(m.invert())),
    OP("svd", susa::matrix<float> U, S, V; susa::svd(s.mat<float>({s.size(), s.size()}), U, S, V); d.add(U); d.add(S); d.add(V)),
    OP("fft", susa::fft<double> f; d.add(f.radix2(s.col((size_t)2 << s.upto(s.scale > 12 ? 8 : 4)))); d.add(f.dft(s.row(s.size())))),
    OP("filter", MD b = s.row(1 + s.upto(s.scale > 12 ? 80 : 3)), x = s.row(s.size() + 3), a = s.row(3), b2 = s.row(2), x2 = s.col(s.size() + 3); d.add(susa::filter(b, MD(1, 1, 2.0), x)); a(0) = 2; d.add(susa::filter(b2, a, x2))),
    OP("conv", MD a = s.row(s.size()), b = s.row(s.size()); d.add(susa::conv(a, b)); MD h = s.row(s.size() + 1); d.add(susa::convmtx(h, s.size() + 1)); d.add(susa::toeplitz(s.row(s.size() + 1))); d.add(susa::kron(a, b)); d.add(susa::upsample(a, 3)); d.add(susa::downsample(s.col(s.size() + 1), 2))),
    OP("code", uint32_t n = 1 + (uint32_t)s.upto(2), m = 1 + (uint32_t)s.upto(3); susa::ccode c(n, 1, m); for (uint32_t j = 0; j < n; j++) c.set_generator(octal(1 + (uint32_t)s.upto((2u << m) - 2)), j); d.add(c.next_output((uint32_t)s.upto((1u << m) - 1), true)); { uint32_t st = (uint32_t)s.upto((1u << m) - 1); bool bit = s.upto(1) == 1; d.add(c.next_state(st, bit)); } MB b = s.mat<uint8_t>(s.size(), 1), e = c.encode(b); d.add(e); d.add(c.encode(b)); MD r(e.size(), 1); for (size_t i = 0; i < e.size(); i++) r(i) = 2.0 * e(i) - 1 + 0.1 * s.num(); d.add(c.decode_bcjr(r, 2.0)); d.add(c.decode_bcjr(r, 1.0, 0.25)); d.add(c.rate()); d.add(c.encode(b)); d.add(c.decode_bcjr(r, 2.0))),
    OP("channel", MD taps = s.row(2 + s.upto(1)); taps(0) = 5; MD pam = s.upto(1) ? list({-1, 1}) : list({-1, 0, 1}); susa::channel<double> h(taps, pam); MD b(s.size() + 3, 1); for (size_t i = 0; i < b.size(); i++) b(i) = pam(s.upto(pam.size() - 1)); unsigned z = (unsigned)s.upto(pam.size() - 1); MD e = h.encode_isi(b, z); d.add(e); d.add(h.decode_mlse(e, z)); d.add(h.decode_mlse(susa::conv(b, taps)))),
    OP("channel bcjr", MD taps = s.row(2 + s.upto(1)) * 0.2; susa::channel<double> h(taps, list({-1, 1})); MD r = s.col(s.size() + 3) * 0.3; d.add(h.decode_bcjr(r, 1.0)); d.add(h.decode_bcjr(s.col(s.size() + 3) * 0.3, 2.0))),
    OP("qam", unsigned order[] = {4, 16, 64, 8, 32}; susa::qam q(order[s.upto(4)]), q2(order[s.upto(4)]); d.add(q2.demodulate_symbol(C{s.num() * 0.3, s.num() * 0.3})); d.add(q.get_constellation()); d.add(q.demodulate_symbol(C{s.num() * 0.3, s.num() * 0.3})); d.add(q.get_noise_deviation(s.num()))),
    OP("bpsk and awgn", MB b = s.mat<uint8_t>(s.size(), 1); d.add(susa::bpsk(b)); d.add(susa::awgn(s.col(s.size()), 3.0f))),
    OP("rrcosine", for (int k = 0; k < 2; k++) { unsigned f = 1 + (unsigned)s.upto(2); double al = 0.25 * (1 + s.upto(3)); susa::rrcosine r(f, al, 2 * (int)s.upto(s.scale > 12 ? 40 : 3) + 1); d.add(r.get()); }),
    OP("rng", susa::rng r((unsigned)s.next()); d.add(r.rand()); d.add(r.randn()); d.add(r.rand_mask(255)); d.add(r.rand_mask(15, 700)); d.add(r.randn(5))),
    OP("mt", susa::mt r((uint32_t)s.next()); d.add(r.rand(700)); d.add(r.randn(3)); d.add(r.bernoulli(0.4)); d.add(r.randint(9)); MD p(3, 1, 0.0); p(s.upto(1)) = 0.2; p(0) += 0.1 * s.upto(3); p(1) += 0.1; p(2) = 1 - p(0) - p(1); d.add(r.nonuniform(p)); d.add(r.rand_mask(7, 20))),
    OP("sorting", MD v = s.row(s.size() + 2); d.add(susa::sort(v)); d.add(susa::sort_indices(v)); unsigned k = 1 + (unsigned)s.upto(v.size() - 2); d.add(susa::select_least(v, k)); d.add(susa::select_most(v, k)); double x = v(0); susa::bitset f = susa::find(v, x); d.add(f.pop()); d.add(susa::min(v)); d.add(susa::max(v))),
    OP("dijkstra", size_t n = s.size() + 1; MD w = s.mat<double>(n, n); for (size_t i = 0; i < n * n; i++) if (w(i) < 0) w(i) = 0; d.add(susa::dijkstra(w, (unsigned)s.upto(n - 1)))),
    OP("statistics", MD a = s.mat<double>({s.size(), s.size()}); d.add(susa::sum(a)); d.add(susa::mean(a)); d.add(susa::norm(s.col(s.size()))); d.add(susa::abs(a)); d.add(susa::sign(a)); std::vector<double> v; for (int i = 0; i < 5; i++) v.push_back(s.num()); d.add(susa::mean(v)); d.add(susa::var(v)); d.add(susa::stdv(v)); d.add(susa::diff(v))),
    OP("scalars", int x = s.num(); d.add(susa::pow(x, 5u)); d.add(susa::log2((unsigned)(x + 11))); d.add(susa::mod(x, 7)); d.add(susa::normcdf(x * 0.1)); d.add(susa::qfunc(x * 0.1)); d.add(susa::round(x * 0.377, 2))),
    OP("complex parts", MC a = s.mat<C>({s.size(), s.size()}); d.add(susa::real(a)); d.add(susa::imag(a)); d.add(susa::mag(a)); d.add(susa::conj(a)); d.add(susa::abs(a)); d.add(susa::to_complex(s.col(s.size())))),
    OP("more signals", MD c = s.col(s.size()), r = s.row(s.size()); r(0) = c(0); d.add(susa::toeplitz(c, r)); MI a = s.mat<int>(1, s.size()), b = s.mat<int>(s.size(), 1); d.add(susa::conv(a, b)); d.add(susa::kron(a, b)); d.add(susa::upsample(b, 2)); MC z = s.mat<C>(s.size(), 1), h = s.mat<C>(1 + s.upto(2), 1); d.add(susa::conv(z, h)); MD m = s.mat<double>({s.size() + 1, s.size()}), k = s.col(2), den = s.col(3); den(0) = 4; d.add(susa::filter(k, den, m))),
    OP("more reductions", MD a = s.mat<double>({s.size() + 1, s.size() + 1}); d.add(susa::min(a)); d.add(susa::max(a)); d.add(susa::norm(a)); d.add(susa::mean(a)); d.add(susa::sum(a)); d.add(susa::round(a * 0.377, 1)); MD p = susa::abs(a); for (size_t i = 0; i < p.size(); i++) p(i) += 1; d.add(susa::log(p)); std::vector<double> v; for (int i = 0; i < 7; i++) v.push_back(s.num()); d.add(susa::abs(v)); d.add(susa::sum(v)); MI i = s.mat<int>({s.size(), s.size()}); d.add(susa::sum(i)); d.add(susa::max(i)); d.add(susa::sign(i))),
    OP("limited selection", size_t n = s.size() + 3; MD v = s.row(n); susa::matrix<unsigned> l(n - 1, 1); for (size_t i = 0; i + 1 < n; i++) l(i) = (unsigned)(n - 1 - i); d.add(susa::select_limited_least(v, l, (unsigned)(1 + s.upto(n - 2)))); susa::matrix<int> w = s.mat<int>(n, 1); int x = w(s.upto(n - 1)); susa::bitset f = susa::find(w, x); d.add(f.pop()); d.add(susa::sort(w)); d.add(susa::select_most(w, 2)); MI gr = s.mat<int>(n, n); for (size_t i = 0; i < n * n; i++) if (gr(i) < 0) gr(i) = 0; d.add(susa::dijkstra(gr, 0))),
    OP("other types", MI a = s.mat<int>({s.size(), 3}), b = s.mat<int>(3, 2); d.add(susa::matmul(a, b)); d.add(susa::transpose(a)); d.add(susa::fliplr(a)); d.add(susa::flipud(a)); d.add(a * 3); d.add(a == a); susa::matrix<float> f = s.mat<float>(3, 3); d.add(susa::det(f)); d.add(susa::rank(f)); d.add(f * 2.0f); MC z = s.mat<C>(3, 3); d.add(susa::rank(z)); d.add(susa::matmul(z, z)); d.add(susa::matrix<uint8_t>(susa::abs(a)))),
    OP("longer array", susa::array<int> a({2, 3, 2, 2}); std::vector<int> v; for (int i = 0; i < 24; i++) v.push_back(s.num()); a.clone(v.data(), 24); susa::array<int> b({1}), c(a); b = a; int x = 0; for (size_t i = 0; i < 2; i++) for (size_t j = 0; j < 3; j++) for (size_t k = 0; k < 2; k++) { x = x * 3 + b(i, j, k, (size_t)1) % 7; x %= 100003; } d.add(x); d.add(c.get(std::vector<size_t>{1, 2, 1, 1})); d.add(c.get_raw_index((size_t)1, (size_t)2))),
    OP("history", MD a = s.mat<double>({s.size(), s.size()}), b; for (int k = 0; k < 6; k++) switch (s.upto(5)) { case 0: a.resize(s.upto(3) + 1, 2); a.set_all(s.num()); break; case 1: b = a; break; case 2: a = s.mat<double>({s.size(), s.size()}); break; case 3: a = susa::transpose(a); break; case 4: a = susa::concat(a, a); break; default: b = MD(std::move(a)); a = b; } d.add(a); d.add(b)),
    // shared objects
    OP("shared: elements", double x = 0; for (size_t r = 0; r < 3; r++) for (size_t c = 0; c < 4; c++) x = x * 0.9 + g.a(r, c) + g.a.get(r + 3 * c) + g.a(r + 3 * c); d.add(x); for (size_t k = 0; k < 9; k++) d.add((int)g.i(k))),
    OP("shared: views", d.add(g.a.row(s.upto(2))); d.add(g.a.col(s.upto(3))); d.add(g.a.left(2)); d.add(g.a.right(3)); d.add(g.a.mid(1, 2)); d.add(g.a.shrink(1, 1)); d.add(g.i.mid(2, 5))),
    OP("shared: copies", MD a(g.a), b; b = g.a; a += g.b; b -= g.b; d.add(a); d.add(b)),
    OP("shared: arithmetic", d.add(g.a + g.b); d.add(g.a - g.b); d.add(g.a * g.b); d.add(3.0 * g.a); d.add(g.a == g.b); d.add(g.a != g.b); d.add(g.a.shape() == g.b.shape())),
    OP("shared: print", std::ostringstream o; o << g.a << g.z << g.i; d.add(o.str()); MD m(g.text); d.add(m)),
    OP("shared: algebra", d.add(susa::matmul(g.a, g.sq)); d.add(susa::transpose(g.a)); d.add(susa::hermitian(g.z)); d.add(susa::det(g.sq)); d.add(susa::rank(g.sq)); d.add(susa::concat(g.a, g.b)); d.add(susa::fliplr(g.a)); d.add(susa::kron(g.a, g.b))),
    OP("shared: decompositions", susa::lup<double> l(g.sq); d.add(l.decompose()); susa::lu<double> m(g.sq); d.add(m.decompose()); susa::fft<double> f; d.add(f.dft(g.sq)); d.add(f.radix2(g.sq))),
    OP("shared: search", d.add(susa::sort(g.i)); d.add(susa::sort_indices(g.i)); d.add(susa::select_least(g.i, 3)); d.add(susa::select_most(g.i, 3)); d.add(susa::min(g.a)); d.add(susa::max(g.a)); d.add(susa::sum(g.a)); d.add(susa::mean(g.a)); d.add(susa::conv(g.i, g.i))),
    OP("shared: array", const susa::array<double>& a = g.arr; susa::array<double> b(a); d.add(a.get(std::vector<size_t>{1, 2, 1})); d.add(a.get({1, 0, 1})); d.add(a((size_t)1, (size_t)1, (size_t)1)); d.add(b((size_t)0, (size_t)1, (size_t)1))),
    OP("shared: complex parts", d.add(susa::real(g.z)); d.add(susa::imag(g.z)); d.add(susa::mag(g.z)); d.add(susa::conj(g.z)); d.add(susa::abs(g.z)); d.add(susa::to_complex(g.a)); d.add(susa::abs(g.a)); d.add(susa::sign(g.a))),
#undef OP
};
static const size_t NOPS = sizeof OPS / sizeof *OPS;
} // namespace ops
#endif
