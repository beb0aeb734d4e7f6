// The logging allocator's count is the number of live bytes, in every history, schedule and with failures.
#include "susagen.h"
#include "trap.h"
#include <deque>
#include <list>
#include <map>
#include <new>
#include <set>
#include <thread>
using namespace sg;

// operator new that fails on request
static thread_local int64_t fail_in = -1; // the allocation after this many fails
static thread_local bool    fail_big = false; // allocations of 4 kB or more fail
static void* get(size_t n)
{
    if (n > ((size_t)1 << 40)) throw std::bad_alloc();
    if (fail_big && n >= 4096) throw std::bad_alloc();
    if (fail_in >= 0 && fail_in-- == 0) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

static size_t count() { return susa::memory_tacker::instance().read(); }

struct Owner { virtual ~Owner() {} virtual size_t bytes() const = 0; virtual bool exact() const { return true; } };
typedef std::unique_ptr<Owner> Own;

template <class T> struct Block : Owner
{
    typedef susa::allocator_log<T> A;
    A al; T* p = nullptr; size_t n; unsigned char pat;
    Block(size_t n_, unsigned char pt) : n(n_), pat(pt) { p = al.allocate(n); std::memset((void*)p, pat, n * sizeof(T)); }
    ~Block() {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n * sizeof(T); i++) PBT_CHECK(c[i] == pat, "another block overlaps this block of " << n * sizeof(T) << " bytes");
        A other(al); if (n % 2) other.deallocate(p, n); else al.deallocate(p, n); }
    size_t bytes() const override { return n * sizeof(T); }
};
template <class T> struct Huge : Owner // never touched, so that it costs no memory
{
    susa::allocator_log<T> al; T* p = nullptr; size_t n;
    explicit Huge(size_t n_) : n(n_) { try { p = al.allocate(n); } catch (const std::bad_alloc&) {} }
    ~Huge() { if (p) al.deallocate(p, n); }
    size_t bytes() const override { return p ? n * sizeof(T) : 0; }
};
template <class T> struct Mat : Owner
{
    typedef susa::matrix<T, susa::allocator_log<T>> M; M m;
    Mat() {} Mat(size_t r, size_t c) : m(r, c, T(1)) {} Mat(const M& x) : m(x) {} Mat(M&& x) : m(std::move(x)) {}
    size_t bytes() const override { return m.size() * sizeof(T); }
};
template <class T> struct Arr : Owner
{
    typedef susa::array<T, susa::allocator_log<T>> A; A a; size_t n;
    Arr() : n(0) {} Arr(size_t x, size_t y, size_t z) : a({x, y, z}), n(x * y * z) { std::vector<T> v(n, T(1)); a.clone(v.data(), n); } Arr(const Arr& o) : a(o.a), n(o.n) {}
    size_t bytes() const override { return n * sizeof(T); }
};
template <class T> struct Vec : Owner
{
    std::vector<T, susa::allocator_log<T>> v;
    size_t bytes() const override { return v.capacity() * sizeof(T); }
};
struct Nodes : Owner // node based containers: only their release is known exactly
{
    std::list<int, susa::allocator_log<int>> l; std::map<int, double, std::less<int>, susa::allocator_log<std::pair<const int, double>>> m; std::deque<short, susa::allocator_log<short>> d;
    size_t bytes() const override { return l.size() * sizeof(int) + m.size() * sizeof(std::pair<const int, double>) + d.size() * sizeof(short); }
    bool exact() const override { return false; }
};

struct World
{
    size_t base = 0; std::vector<Own> own; size_t inexact = 0;
    size_t live() const { size_t s = 0; for (auto& o : own) s += o->bytes(); return s; }
    void verify(const char* when) const
    {
        size_t c = count() - base, l = live();
        bool ex = true; for (auto& o : own) ex = ex && o->exact();
        if (ex) PBT_CHECK(c == l, "the tracker counts " << (long long)c << " bytes instead of " << l << " live ones after " << when);
        else PBT_CHECK((long long)c >= (long long)l && c < l + 100000 + 64 * l, "the tracker counts " << (long long)c << " bytes for at least " << l << " live ones after " << when);
    }
};

template <class T> static const char* step(Gen& g, World& w)
{
    typedef susa::matrix<T, susa::allocator_log<T>> M;
    auto any = [&](auto* tag) -> decltype(tag) { typedef std::remove_pointer_t<decltype(tag)> W;
        std::vector<W*> c; for (auto& o : w.own) if (W* x = dynamic_cast<W*>(o.get())) c.push_back(x);
        return c.empty() ? nullptr : c[g.draw(c.size() - 1)]; };
    uint64_t op = g.draw(23);
    switch (op)
    {
    case 0: case 1:
        if (g.once_in(1500)) { for (auto& o : w.own) if (dynamic_cast<Huge<double>*>(o.get())) return "";
            w.own.emplace_back(new Huge<double>(g.flip() ? ((size_t)g.range(4, 6) << 27) + g.draw(99) : (size_t)g.range(1000000, 9000000))); return "a huge allocation"; }
        w.own.emplace_back(new Block<T>(g.once_in(8) ? 0 : g.once_in(200) ? (size_t)g.range(3000, 3000000) : g.size(1, 3000), (unsigned char)g.draw(255))); return "allocate";
    case 2: w.own.emplace_back(new Mat<T>(g.size(1, 30), g.size(1, 30))); return "a matrix";
    case 3: w.own.emplace_back(new Arr<T>(g.size(1, 6), g.size(1, 6), g.size(1, 6))); return "an array";
    case 4: { w.own.emplace_back(new Vec<T>()); return "a vector"; }
    case 5: { w.own.emplace_back(new Nodes()); return "a list, map and deque"; }
    case 6: case 7: case 8: if (!w.own.empty()) { size_t k = g.draw(w.own.size() - 1); w.own.erase(w.own.begin() + k); } return "a release";
    case 9: if (auto* x = any((Mat<T>*)nullptr)) { Mat<T>* y = any((Mat<T>*)nullptr); x->m = y->m; } return "matrix assignment";
    case 10: if (auto* x = any((Mat<T>*)nullptr)) w.own.emplace_back(new Mat<T>(x->m)); return "matrix copy";
    case 11: if (auto* x = any((Mat<T>*)nullptr)) w.own.emplace_back(new Mat<T>(std::move(x->m))); return "matrix move";
    case 12: if (auto* x = any((Mat<T>*)nullptr)) x->m.resize(g.size(1, 30), g.size(1, 30)); return "matrix resize";
    case 13: if (auto* x = any((Mat<T>*)nullptr)) x->m = g.pick({"[1 2 3]", "1;2;3;4", "7", "1 2;3 4"}); return "matrix from text";
    case 14: if (auto* x = any((Mat<T>*)nullptr)) { if (x->m.size()) { x->m = susa::concat(susa::transpose(x->m), susa::transpose(x->m)); x->m = x->m + x->m; x->m = x->m.left(1); } } return "matrix operations";
    case 15: if (auto* x = any((Arr<T>*)nullptr)) { Arr<T>* y = any((Arr<T>*)nullptr); x->a = y->a; x->n = y->n; } return "array assignment";
    case 16: if (auto* x = any((Arr<T>*)nullptr)) w.own.emplace_back(new Arr<T>(*x)); return "array copy";
    case 17: if (auto* x = any((Arr<T>*)nullptr)) { std::vector<T> v(g.size(1, 200), T(1)); x->a.clone(v.data(), v.size()); x->n = v.size(); } return "array bulk load";
    case 18: if (auto* x = any((Vec<T>*)nullptr)) { size_t n = g.size(1, 200); for (size_t i = 0; i < n; i++) x->v.push_back(T(1)); } return "vector growth";
    case 19: if (auto* x = any((Vec<T>*)nullptr)) { Vec<T>* y = any((Vec<T>*)nullptr); if (g.flip()) x->v = y->v; else if (g.flip()) x->v.swap(y->v); else { x->v.clear(); x->v.shrink_to_fit(); } } return "vector assignment, swap or clearing";
    case 20: if (auto* x = any((Nodes*)nullptr)) { int n = (int)g.size(1, 60); for (int i = 0; i < n; i++) { x->l.push_back(i); x->m[i * 7 % 31] = i; x->d.push_back((short)i); } } return "node insertions";
    case 21: if (auto* x = any((Nodes*)nullptr)) { if (g.flip()) { x->l.clear(); x->m.clear(); x->d.clear(); } else { auto c = *x; x->l = c.l; x->m.swap(c.m); x->d = std::move(c.d); } } return "node removals, copies and moves";
    case 22: { M t; t = M(g.size(1, 9), g.size(1, 9), T(2)); M u(t), v(std::move(u)); v = v; u = v; v = M(); return "temporary matrices"; }
    default: { std::vector<M> v; for (int i = 0; i < 5; i++) { v.push_back(M(2, i + 1, T(1))); } v.erase(v.begin()); v.insert(v.begin() + 1, v[0]); return "matrices in a container"; }
    }
}

// requests that cannot be satisfied, or whose n-th memory request fails
template <class T> static const char* failing(Gen& g, World& w)
{
    uint64_t k = g.draw(7); bool threw = false; size_t before = w.live();
    switch (k)
    {
    case 0: case 1: { susa::allocator_log<T> a; size_t n = k == 0 ? SIZE_MAX / sizeof(T) - g.draw(3) : SIZE_MAX - g.draw(5);
        try { T* p = a.allocate(n); a.deallocate(p, n); } catch (const std::bad_alloc&) { threw = true; }
        PBT_CHECK(threw, "an allocation of " << n << " elements of " << sizeof(T) << " bytes succeeded"); return "an allocation that is too large"; }
    case 2: { susa::allocator_log<T> a; size_t n = g.size(1, 3000); fail_in = 0;
        try { T* p = a.allocate(n); (void)p; } catch (const std::bad_alloc&) { threw = true; } fail_in = -1;
        PBT_CHECK(threw, "a failed allocation was not reported"); return "a failed allocation"; }
    case 3: { // a container whose growth fails part way
        auto v = std::make_unique<Vec<T>>(); size_t n = g.size(1, 400); fail_in = (int64_t)g.draw(12);
        try { for (size_t i = 0; i < n; i++) v->v.push_back(T(1)); } catch (const std::bad_alloc&) {} fail_in = -1;
        w.own.push_back(std::move(v)); return "a vector whose growth fails"; }
    case 4: { auto v = std::make_unique<Nodes>(); int n = (int)g.size(1, 60); fail_in = (int64_t)g.draw(40);
        try { for (int i = 0; i < n; i++) { v->l.push_back(i); v->m[i * 7 % 31] = i; v->d.push_back((short)i); } } catch (const std::bad_alloc&) {} fail_in = -1;
        if (g.flip()) w.own.push_back(std::move(v)); return "containers whose insertion fails"; }
    case 5: { // an array that cannot be created, copied or loaded
        int form = (int)g.draw(3); auto x = std::make_unique<Arr<T>>(2, 3, g.size(1, 4));
        Arr<T> y((4096 / sizeof(T)) + 1, 1, g.size(1, 3)); std::vector<T> data(4096 / sizeof(T) + 1 + g.size(0, 9), T(1));
        fail_big = true;
        try { if (form == 0) Arr<T> z(4096, 2, 1); else if (form == 1) Arr<T> z(y); else if (form == 2) { x->n = 0; x->a = y.a; } else { x->n = 0; x->a.clone(data.data(), data.size()); } }
        catch (const std::bad_alloc&) { threw = true; } fail_big = false;
        PBT_CHECK(threw, "a failed allocation was not reported");
        if (form < 2) w.own.push_back(std::move(x));
        else { x.reset(); } // whatever was left of it is released with it
        static const char* nm[] = {"an array that cannot be created", "an array that cannot be copied", "an array that cannot be assigned", "an array that cannot be loaded"}; return nm[form]; }
    default: { // matrices stop such requests with an assertion
        typedef susa::matrix<T, susa::allocator_log<T>> M; int form = (int)g.draw(2); M x(3, 2, T(1)), y(64, 65, T(1));
        bool st = pbt::stopped([&] { fail_big = true; if (form == 0) M z(64, 70); else if (form == 1) M z(y); else { M* z = new M(); z->resize(64, 66); } });
        fail_big = false; PBT_CHECK(st, "a matrix whose allocation failed was not stopped"); return "a matrix that cannot be created"; }
    }
    (void)before;
}

static void threads(Gen& g)
{
    int n = (int)g.range(2, 8), rounds = (int)g.range(20, 1500);
    uint64_t seed = g.draw(0xffffffff);
    size_t base = count(); bool keep = g.flip();
    NOTE(g, n << " threads, " << rounds << " allocations each"); g.label("threads:" + std::to_string(n));
    std::vector<std::vector<std::pair<double*, size_t>>> left(n);
    std::atomic<int> ready{0}; std::atomic<bool> bad{false};
    std::vector<std::thread> t;
    for (int k = 0; k < n; k++) t.emplace_back([&, k] {
        pbt::Rng r(seed + k); susa::allocator_log<double> a; std::vector<std::pair<double*, size_t>>& mine = left[k]; size_t own = 0;
        ready++; while (ready < n) {}
        for (int i = 0; i < rounds; i++)
        {
            uint64_t c = r.upto(5);
            if (c <= 2) { size_t m = 1 + r.upto(20); double* p = a.allocate(m); for (size_t j = 0; j < m; j++) p[j] = k; mine.push_back({p, m}); own += m * 8; }
            else if (c <= 4 && !mine.empty()) { size_t j = r.upto(mine.size() - 1); auto b = mine[j]; mine[j] = mine.back(); mine.pop_back();
                for (size_t q = 0; q < b.second; q++) if (b.first[q] != k) bad = true;
                own -= b.second * 8; a.deallocate(b.first, b.second); }
            else { susa::matrix<double, susa::allocator_log<double>> x(3, 4, 1.0), y = x; y = x + x; }
            if (i % 16 == 0 && count() - base < own) bad = true; // never less than this thread's own
        }
        if (!keep) { for (auto& b : mine) a.deallocate(b.first, b.second); mine.clear(); } });
    for (auto& x : t) x.join();
    PBT_CHECK(!bad, "a thread saw a count below its own live bytes, or blocks overlapped");
    size_t live = 0; for (auto& v : left) for (auto& b : v) live += b.second * 8;
    PBT_CHECK(count() - base == live, "after " << n << " threads ended the tracker counts " << (long long)(count() - base) << " bytes instead of " << live << " live ones");
    // blocks may be released by another thread
    susa::allocator_log<double> a; for (auto& v : left) for (auto& b : v) a.deallocate(b.first, b.second);
    PBT_CHECK(count() == base, "after everything was released the tracker counts " << (long long)(count() - base) << " bytes");
    g.nontrivial(true); g.weight = (uint64_t)n * rounds;
}

static void property(Gen& g)
{
    if (g.once_in(60)) return threads(g);
    size_t start = count();
    int special = 0;
    {
        World w; w.base = start;
        size_t steps = g.range(1, 40);
        for (size_t s = 0; s < steps; s++)
        {
            const char* nm = "";
            with_type<double, int, uint8_t, std::complex<double>, short>(g, [&](auto t) { typedef decltype(t) T;
                if (g.once_in(5)) { nm = failing<T>(g, w); special++; } else nm = step<T>(g, w); });
            NOTE(g, nm << "; "); g.label(nm);
            if (w.own.size() > 24) w.own.erase(w.own.begin());
            w.verify(nm);
        }
        special += w.own.size() > 2;
        g.weight = steps;
    }
    PBT_CHECK(count() == start, "after everything was released the tracker counts " << (long long)(count() - start) << " bytes more than before");
    g.nontrivial(special > 0);
}
#include "pbt_main.h"
