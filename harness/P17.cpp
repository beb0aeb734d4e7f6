// The convolutional encoder against parity sums over the input history.
#include "susagen.h"
using namespace sg;
typedef std::vector<uint8_t> Bits;

struct Code { unsigned n, m; std::vector<uint32_t> gen; };
// the decimal number whose digits are the octal digits of v
static uint32_t digits(uint32_t v) { uint32_t r = 0, p = 1; while (v) { r += (v & 7) * p; v >>= 3; p *= 10; } return r; }
static Code anycode(Gen& g, unsigned nmax, unsigned mmax)
{
    Code c; c.n = g.range(1, nmax); c.m = g.flip() ? g.range(1, mmax < 6 ? mmax : 6) : g.range(1, mmax);
    uint64_t all = (1ull << (c.m + 1)) - 1, lim = (1ull << 27) - 1; // nine octal digits always fit the argument
    for (unsigned j = 0; j < c.n; j++)
    {
        uint64_t v = g.draw(all < lim ? all : lim);
        if (all > lim && g.flip()) v = (v << 3 | g.draw(7)) & ((1ull << 30) - 1); // ten octal digits
        if (g.once_in(6)) v |= all & (1ull << 29); // at least one has the tap next to the input
        if (v > all) v &= all;
        uint64_t dec = 0, p = 1; for (uint64_t w = v; w; w >>= 3, p *= 10) dec += (w & 7) * p;
        if (dec > 0xffffffffull) v &= lim;
        c.gen.push_back((uint32_t)v);
    }
    return c;
}
static susa::ccode build(Gen& g, const Code& c)
{
    susa::ccode e(c.n, 1, c.m); std::vector<unsigned> o; for (unsigned j = 0; j < c.n; j++) o.push_back(j);
    if (g.once_in(4)) for (unsigned j = c.n; j-- > 0;) std::swap(o[j], o[g.draw(j)]); // in any order, some of them twice
    if (g.once_in(4)) e.set_generator(7, o[0]);
    for (unsigned j : o) e.set_generator(digits(c.gen[j]), j);
    return e;
}
static bool parity(uint64_t x) { return __builtin_popcountll(x) & 1; }
// bit m-d of a generator belongs to the input d steps ago
static Bits reference(const Code& c, const Bits& in)
{
    Bits o;
    for (size_t i = 0; i < in.size(); i++) for (unsigned j = 0; j < c.n; j++)
    { unsigned p = 0; for (unsigned d = 0; d <= c.m && d <= i; d++) if (in[i - d]) p ^= (c.gen[j] >> (c.m - d)) & 1; o.push_back(p); }
    return o;
}
static susa::matrix<uint8_t> in_matrix(Gen& g, const Bits& b)
{
    susa::matrix<uint8_t> x; size_t n = b.size(), r = 1; bool two = n > 3 && n % 2 == 0 && g.once_in(6);
    if (two) r = 2; else if (g.flip()) r = n;
    x = susa::matrix<uint8_t>(r, n / r); for (size_t i = 0; i < n; i++) x(i) = b[i]; return x; // linear order
}
static void equal(const susa::matrix<uint8_t>& y, const Bits& e, const Code& c, const std::string& what)
{
    PBT_CHECK(y.size() == e.size(), what << ": " << y.size() << " code bits instead of " << e.size());
    for (size_t i = 0; i < e.size(); i++) PBT_CHECK(y(i) == e[i], what << ": output " << i % c.n << " of bit " << i / c.n << " is " << (int)y(i) << " instead of " << (int)e[i] << " (n " << c.n << ", m " << c.m << ", generator " << digits(c.gen[i % c.n]) << ")");
}
static Bits bits(Gen& g, size_t n) { Bits b(n); if (n > 80) { pbt::Rng r = g.bulk(); for (auto& v : b) v = r.next() >> 63; } else for (auto& v : b) v = g.flip(); return b; }
static std::string show(const Code& c) { std::string s = "(" + std::to_string(c.n) + ",1," + std::to_string(c.m) + ") generators"; for (auto v : c.gen) s += " " + std::to_string(digits(v)); return s; }

static void property(Gen& g)
{
    if (g.once_in(3))
    { // the exposed state machine: every transition of a random walk
        Code c = anycode(g, g.once_in(3) ? 32 : 8, 31); susa::ccode e = build(g, c); uint32_t mask = (uint32_t)((1ull << c.m) - 1), s = (uint32_t)g.draw(mask);
        if (g.once_in(3)) e.set_internal_state((uint32_t)g.draw(mask)); // not what the queries are about
        NOTE(g, "state machine of " << show(c) << " from state " << s); g.label("state machine"); g.nontrivial(c.m > 1);
        for (size_t k = g.range(1, 40); k--;)
        {
            bool b = g.flip(); uint32_t nx = (s >> 1) | ((uint32_t)b << (c.m - 1)), o = 0; uint64_t full = s | ((uint64_t)b << c.m);
            for (unsigned j = 0; j < c.n; j++) o |= (uint32_t)parity(full & c.gen[j]) << j;
            uint32_t no = e.next_output(s, b), ns = e.next_state(s, b);
            PBT_CHECK(ns == nx, show(c) << ": next_state(" << s << "," << b << ") is " << ns << " instead of " << nx);
            PBT_CHECK(no == o, show(c) << ": next_output(" << s << "," << b << ") is " << no << " instead of " << o);
            s = nx;
        }
        return;
    }
    Code c = anycode(g, g.once_in(4) ? g.once_in(3) ? 40 : 12 : 4, 31); susa::ccode e = build(g, c);
    Bits a; bool big = g.once_in(4000); if (big) { pbt::Rng b = g.bulk(); a.resize(65000 + b.upto(2000)); for (auto& x : a) x = b.upto(1); g.label("more than 65000 bits"); } else a = bits(g, g.size(1, g.once_in(12) ? 600 : 60)); NOTE(g, "encode " << a.size() << " bits with " << show(c) << ": " << pbt::str(a));
    g.label("memory " + std::string(c.m < 4 ? "1-3" : c.m < 9 ? "4-8" : c.m < 17 ? "9-16" : "17-31")); g.nontrivial(a.size() > 1); g.weight = a.size() * c.n;
    PBT_CHECK(std::fabs(e.rate() - 1.0f / c.n) < 1e-6f, show(c) << ": the rate is " << e.rate());
    susa::matrix<uint8_t> A = in_matrix(g, a); Bits ra = reference(c, a);
    if (!big && g.once_in(3)) { // any value but zero is a one
        for (size_t i = 0; i < A.size(); i++) if (A(i)) A(i) = (uint8_t)g.range(1, 255);
        g.label("other nonzero bits");
    }
    equal(e.encode(A), ra, c, "encode");
    switch (big ? 0 : g.draw(3))
    {
    case 0: equal(e.encode(A), ra, c, "encode again"); break;
    case 1: { // linearity, on the same encoder
        Bits b = bits(g, a.size()), s(a.size()); for (size_t i = 0; i < a.size(); i++) s[i] = a[i] ^ b[i];
        susa::matrix<uint8_t> y = e.encode(in_matrix(g, b)), z = e.encode(in_matrix(g, s)); Bits x(ra.size());
        PBT_CHECK(y.size() == ra.size(), "encode: " << y.size() << " code bits");
        for (size_t i = 0; i < x.size(); i++) x[i] = ra[i] ^ y(i);
        equal(z, x, c, "encode of a sum"); break; }
    case 2: { // copies are independent
        susa::ccode f = e, h; h = e; f.set_generator(digits(c.gen[0] ^ 1), 0); h.set_internal_state(1); Code d = c; d.gen[0] ^= 1;
        Bits b = bits(g, g.size(1, 20)); susa::matrix<uint8_t> B = in_matrix(g, b);
        equal(f.encode(B), reference(d, b), d, "encode of the changed copy"); equal(e.encode(B), reference(c, b), c, "encode of the original"); equal(h.encode(A), ra, c, "encode of the copy"); break; }
    default: { // another sequence in between
        Bits b = bits(g, g.size(1, 20)); equal(e.encode(in_matrix(g, b)), reference(c, b), c, "second encode"); equal(e.encode(A), ra, c, "third encode"); break; }
    }
}
#include "pbt_main.h"
