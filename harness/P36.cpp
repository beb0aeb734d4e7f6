// Objects are values: a copy behaves as the original would have, whatever happens to either afterwards.
#define PBT_LEAK
#include "operations.h"
using namespace sg;
using namespace ops;
// one translation unit is enough to see what the compiler makes of a class
typedef susa::matrix<float> MF; typedef susa::array<double> AR; typedef susa::matrix<double, susa::allocator_log<double>> ML;

template <class T> static susa::matrix<T> hard(Src& s, size_t n) { susa::matrix<T> a(n, n); for (size_t i = 0; i < n * n; i++) a(i) = (T)s.num(); for (size_t i = 0; i < n; i++) a(i, i) = (T)(20.0 * n + i); return a; }

// A kind of object: make() gives a new one from arguments that are gone afterwards, act() uses (and changes) it.
struct Code { typedef susa::ccode K; static const char* name() { return "ccode"; }
    static uint32_t n(Src s) { return 1 + (uint32_t)s.upto(2); } static uint32_t m(Src s) { s.next(); return 1 + (uint32_t)s.upto(3); }
    static K make(Src s) { const uint32_t k = n(s), b = m(s); K c(k, 1, b); for (uint32_t j = 0; j < k; j++) c.set_generator(octal(1 + (uint32_t)s.upto((2u << b) - 2)), j); return c; }
    static void act(K& c, Src p, Src s, Digest& d)
    {
        d.add(c.rate()); d.add((unsigned)c.next_output((uint32_t)s.upto((1u << m(p)) - 1), s.upto(1))); d.add(c.next_state((uint32_t)s.upto((1u << m(p)) - 1), s.upto(1)));
        if (s.upto(2) == 0) c.set_generator(octal(1 + (uint32_t)s.upto((2u << m(p)) - 2)), (uint32_t)s.upto(n(p) - 1));
        MB e = c.encode(s.mat<uint8_t>(s.size() + 1, 1)); d.add(e); MD r(e.size(), 1); for (size_t i = 0; i < e.size(); i++) r(i) = 2.0 * e(i) - 1 + 0.1 * s.num(); if (s.upto(1)) d.add(c.decode_bcjr(r, 1.5));
    } };
template <class T> struct Channel { typedef susa::channel<T> K; static const char* name() { return sizeof(T) == 4 ? "channel<float>" : "channel<double>"; }
    static size_t q(Src s) { return 2 + (size_t)s.upto(1); }
    static K make(Src s) { size_t k = q(s); susa::matrix<T> taps(1, 2 + s.upto(1)), pam(k, 1); for (size_t i = 0; i < taps.size(); i++) taps(i) = (T)(s.num() * 0.25); taps(0) = 2; for (size_t i = 0; i < k; i++) pam(i) = (T)(2.0 * i - (k - 1.0)); return K(taps, pam); }
    static void act(K& h, Src p, Src s, Digest& d)
    {
        size_t k = q(p); susa::matrix<T> b(s.size() + 3, 1); for (size_t i = 0; i < b.size(); i++) b(i) = (T)(2.0 * s.upto(k - 1) - (k - 1.0));
        unsigned z = (unsigned)s.upto(k - 1); susa::matrix<T> e = h.encode_isi(b, z); d.add(e); for (size_t i = 0; i < e.size(); i++) e(i) += (T)(s.num() * 0.05);
        d.add(h.decode_mlse(e, z)); if (s.upto(1)) d.add(h.decode_mlse(e)); if (k == 2 && s.upto(1)) d.add(h.decode_bcjr(e, (T)0.5));
    } };
struct Qam { typedef susa::qam K; static const char* name() { return "qam"; } static K make(Src s) { unsigned order[] = {4, 16, 64, 256, 8}; return K(order[s.upto(4)]); }
    static void act(K& q, Src, Src s, Digest& d) { d.add(q.get_constellation()); d.add(q.demodulate_symbol(C{s.num() * 0.3, s.num() * 0.3})); d.add(q.get_noise_deviation(s.num())); } };
struct Filter { typedef susa::rrcosine K; static const char* name() { return "rrcosine"; } static K make(Src s) { unsigned f = 1 + (unsigned)s.upto(3); double al = 0.25 * (1 + s.upto(3)); return K(f, al, 2 * (int)s.upto(6) + 1); }
    static void act(K& r, Src, Src, Digest& d) { d.add(r.get()); } };
struct Rng { typedef susa::rng K; static const char* name() { return "rng"; } static K make(Src s) { return s.upto(3) ? K((unsigned)s.next()) : K(); }
    static void act(K& r, Src, Src s, Digest& d) { switch (s.upto(6)) { case 0: d.add(r.rand()); break; case 1: d.add(r.randn()); break; case 2: d.add(r.rand_mask(1023)); break; case 3: d.add(r.rand((unsigned)s.upto(900) + 1)); break; case 4: d.add(r.randn((unsigned)s.size())); break; case 5: d.add(r.bernoulli(s.size() + 600)); break; default: if (s.upto(3) == 0) r.init((unsigned)s.next()); d.add(r.rand_mask(~0u)); } } };
struct Mt { typedef susa::mt K; static const char* name() { return "mt"; } static K make(Src s) { return s.upto(3) ? K((uint32_t)s.next()) : K(); }
    static MD p(Src& s) { MD p(2 + s.upto(3), 1); double t = 0; for (size_t i = 0; i < p.size(); i++) t += p(i) = 1 + s.upto(5); for (size_t i = 0; i < p.size(); i++) p(i) /= t; return p; }
    static void act(K& r, Src, Src s, Digest& d) { switch (s.upto(6)) { case 0: d.add(r.bernoulli(0.4)); break; case 1: d.add(r.randint(100)); break; case 2: d.add(r.rand_mask(1023)); break; case 3: d.add(r.rand((unsigned)s.upto(900) + 1)); break; case 4: d.add(r.randn((unsigned)s.size())); break;
        case 5: d.add(r.nonuniform(p(s))); d.add(r.nonuniform()); break; default: d.add(r.nonuniform(p(s), 9)); d.add(r.nonuniform()); } } };
struct Fft { typedef susa::fft<double> K; static const char* name() { return "fft"; } static K make(Src) { return K(); }
    static void act(K& f, Src, Src s, Digest& d) { d.add(f.radix2(s.col((size_t)2 << s.upto(4)))); d.add(f.dft(s.mat<double>(s.size(), s.size()))); } };
template <class T> struct Lu { typedef susa::lu<T> K; static const char* name() { return "lu"; } static K make(Src s) { return K(hard<T>(s, s.size())); }
    static void act(K& l, Src, Src, Digest& d) { d.add(l.decompose()); d.add(l.get_lower()); d.add(l.get_upper()); } };
template <class T> struct Lup { typedef susa::lup<T> K; static const char* name() { return "lup"; } static size_t n(Src s) { return s.size(); } static K make(Src s) { size_t k = n(s); susa::matrix<T> a = hard<T>(s, k); a.swap_rows(0, s.upto(k - 1)); return s.upto(1) ? K(a) : K(susa::flipud(a)); }
    static void act(K& l, Src p, Src s, Digest& d) { d.add(s.upto(1) ? l.decompose() : l.decompose_alt()); d.add(l.get_lu()); d.add(l.solve(s.mat<T>(n(p), 1))); d.add(l.invert()); } };
struct Bits { typedef susa::bitset K; static const char* name() { return "bitset"; } static size_t n(Src s) { return s.upto(7) ? (size_t)s.upto(150) : 0; } static K make(Src s) { return K(n(s)); }
    static void act(K& b, Src p, Src s, Digest& d) { for (int i = 0; i < 6; i++) b.set(s.upto(n(p) + 5)); for (int i = 0; i < 2; i++) b.reset(s.upto(n(p) + 5)); if (s.upto(5) == 0) b.set(); if (s.upto(5) == 0) b.reset(); if (s.upto(1)) d.add(b.pop()); d.add(b.any()); for (size_t i = 0; i < n(p) + 3; i++) d.add(b.exists(i)); } };
struct Arr { typedef AR K; static const char* name() { return "array"; } static std::vector<size_t> dims(Src s) { std::vector<size_t> v(1 + s.upto(2)); for (auto& x : v) x = 1 + s.upto(3); return v; } static K make(Src s) { std::vector<size_t> v = dims(s); size_t n = 1; for (size_t x : v) n *= x; K a = v.size() == 1 ? K({v[0]}) : v.size() == 2 ? K({v[0], v[1]}) : K({v[0], v[1], v[2]}); for (size_t i = 0; i < n; i++) a(i) = s.num(); return a; }
    static void act(K& a, Src p, Src s, Digest& d) { auto v = dims(p); std::vector<size_t> i; size_t n = 1; for (size_t x : v) { i.push_back(s.upto(x - 1)); n *= x; } d.add(a.get(i)); a(s.upto(n - 1)) = s.num(); if (v.size() == 3) { a(i[0], i[1], i[2]) = s.num(); d.add(a.get(i)); d.add(a.get(i[0], i[1], i[2])); } for (size_t k = 0; k < n; k++) d.add(a(k)); } };
template <class M> struct Mat { typedef M K; typedef double T; static const char* name() { return "matrix"; } static K make(Src s) { K a(s.size(), s.size()); for (size_t i = 0; i < a.size(); i++) a(i) = (T)s.num(); return a; }
    static void act(K& a, Src, Src s, Digest& d) { d.add(a); switch (s.upto(4)) { case 0: a(s.upto(a.size() - 1)) = (T)s.num(); break; case 1: a.set_all((T)s.num()); break; case 2: a += a; break; case 3: a.resize(s.size(), s.size()); a.set_all((T)s.num()); break; default: a = "1 2;3 4"; } d.add(a); } };

template <class D> static void history(Gen& g)
{
    typedef typename D::K K; g.label(D::name());
    struct Slot { std::unique_ptr<K> k; uint64_t made = 0; std::vector<uint64_t> acts; }; std::vector<Slot> s(3); size_t scale = g.size(0, 5);
    auto P = [&](uint64_t made) { return Src(made, scale); };
    auto fresh = [&](uint64_t made) { return std::unique_ptr<K>(new K(D::make(P(made)))); };
    auto result = [&](K& k, uint64_t made, uint64_t seed) { Src a(seed ^ 0x5555, scale); Digest d; std::vector<double> v; d.out = &v; D::act(k, P(made), a, d); return v; };
    std::ostringstream w; w << D::name() << " (size " << scale << "):"; bool copied = false, used = false;
    auto use = [&](Slot& x, uint64_t seed)
    {
        auto want = [&] { auto r = fresh(x.made); for (uint64_t a : x.acts) result(*r, x.made, a); return result(*r, x.made, seed); }();
        auto got = result(*x.k, x.made, seed); x.acts.push_back(seed); bool eq = got.size() == want.size(); size_t at = 0;
        for (size_t i = 0; eq && i < got.size(); i++) if (std::memcmp(&got[i], &want[i], 8) && !(got[i] != got[i] && want[i] != want[i])) { eq = false; at = i; }
        PBT_CHECK(eq, w.str() << " value " << at << " of its use is " << (at < got.size() ? pbt::str(got[at]) : "missing") << " instead of " << (at < want.size() ? pbt::str(want[at]) : "missing") << ", what an object made and used alike gives");
    };
    int n = (int)g.range(2, 12);
    for (int t = 0; t < n; t++)
    {
        size_t i = g.draw(2), j = g.draw(2); Slot &a = s[i], &b = s[j]; uint64_t op = g.draw(12);
        if (!a.k) { a.made = g.draw(100000); a.acts.clear(); a.k = fresh(a.made); w << " " << i << " made#" << a.made << ","; }
        auto takes = [&] { b.made = a.made; b.acts = a.acts; copied = true; };
        switch (op)
        {
        case 0: case 1: case 2: { uint64_t seed = g.draw(100000); w << " use " << i << "#" << seed << ","; used = true; use(a, seed); break; }
        case 3: if (i == j) break; w << " " << j << " copy of " << i << ","; b.k.reset(new K(*a.k)); takes(); break;
        case 4: if constexpr (std::is_copy_assignable<K>::value) { if (!b.k) break; w << " " << j << " = " << i << ","; K& r = (*b.k = *a.k); PBT_CHECK(&r == b.k.get(), w.str() << " the assignment gives another object"); takes(); } else PBT_CHECK(false, D::name() << " cannot be assigned"); break;
        case 5: if (i == j) break; w << " " << j << " moved from " << i << ","; b.k.reset(new K(std::move(*a.k))); takes(); a.k.reset(); break;
        case 6: if (i == j || !b.k) break; if constexpr (std::is_move_assignable<K>::value) { w << " " << j << " = move(" << i << "),"; *b.k = std::move(*a.k); takes(); a.k.reset(); } break;
        case 7: if (i == j || !b.k) break; if constexpr (std::is_move_assignable<K>::value) { w << " swap " << i << " and " << j << ","; std::swap(*a.k, *b.k); std::swap(a.made, b.made); a.acts.swap(b.acts); copied = true; } break;
        case 8: { w << " " << j << " from a vector of copies of " << i << ","; std::vector<K> v; for (int q = 0; q < 5; q++) v.push_back(*a.k); std::unique_ptr<K> p(new K(v[g.draw(4)])); takes(); b.k = std::move(p); break; }
        case 9: { w << " " << j << " passed by value from " << i << ","; auto through = [](K k) { return k; }; std::unique_ptr<K> p(new K(through(*a.k))); takes(); b.k = std::move(p); break; }
        case 10: w << " " << i << " gone,"; a.k.reset(); break;
        case 11: if (i == j) break; if constexpr (std::is_move_assignable<K>::value) { w << " " << j << " over the moved-from " << i << ","; if (!b.k) break; K tmp(std::move(*a.k)); *a.k = *b.k; a.made = b.made; a.acts = b.acts; copied = true; } break;
        default: { uint64_t made = g.draw(100000); if constexpr (std::is_copy_assignable<K>::value) { w << " " << i << " = made#" << made << ","; auto f = fresh(made); *a.k = *f; a.made = made; a.acts.clear(); copied = true; } break; }
        }
    }
    for (auto& x : s) if (x.k) use(x, 7);
    NOTE(g, w.str()); g.nontrivial(copied); g.label(used ? "used in between" : "used at the end"); g.weight = n;
}
static void property(Gen& g)
{
    switch (g.draw(15))
    {
    case 0: case 1: history<Code>(g); break; case 2: history<Channel<double>>(g); break; case 3: history<Channel<float>>(g); break; case 4: history<Qam>(g); break; case 5: history<Filter>(g); break; case 6: history<Rng>(g); break; case 7: history<Mt>(g); break; case 8: history<Fft>(g); break;
    case 9: history<Lu<double>>(g); break; case 10: history<Lup<double>>(g); break; case 11: history<Lup<float>>(g); break; case 12: history<Bits>(g); break; case 13: history<Arr>(g); break; case 14: history<Mat<MD>>(g); break; default: history<Mat<ML>>(g);
    }
}
#include "pbt_main.h"
