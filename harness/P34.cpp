// A failed memory request is reported, and harms nothing else.
#include "operations.h"
#include "trap.h"
#include <iomanip>
#include <memory>
#include <new>
using namespace sg;
using namespace ops;

static bool counting = false, fired = false, lasting = false; static int64_t left = -1, seen = 0, live = 0;
static bool fails()
{
    seen++;
    if (left == 0 || (lasting && fired)) { if (left == 0) left = -1; fired = true; return true; }
    if (left > 0) left--;
    return false;
}
extern "C" void* __real_malloc(size_t); // requests made with malloc and realloc fail too
extern "C" void* __real_realloc(void*, size_t);
extern "C" void* __wrap_malloc(size_t n) { return counting && fails() ? nullptr : __real_malloc(n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { return counting && fails() ? nullptr : __real_realloc(p, n); }
static void* get(size_t n)
{
    if (counting) { if (fails()) throw std::bad_alloc(); live++; }
    void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc();
    return p;
}
static void put(void* p) { if (counting && p) live--; std::free(p); }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }

enum Outcome { DONE, STOPPED, THREW };
//! runs f, in which request n (and later ones) fail
template <class F> static Outcome disturbed(int64_t n, bool later, F&& f)
{
    volatile bool threw = false; seen = 0; live = 0; fired = false; left = n; lasting = later;
    bool st = pbt::stopped([&] { counting = true; try { f(); } catch (const std::bad_alloc&) { threw = true; } counting = false; });
    counting = false; left = -1; lasting = false;
    return st ? STOPPED : threw ? THREW : DONE;
}

static void operation(Gen& g)
{
    size_t op = g.draw(NOPS - 1); uint64_t seed = g.draw(100000); size_t scale = g.once_in(20) ? 20 : g.size(0, 5); uint64_t shared_seed = g.draw(1000);
    NOTE(g, OPS[op].name << " (seed " << seed << ", size " << scale << ")");
    const Shared shared(Src(shared_seed, 3));
    auto digest = [&] { const Shared& x = shared; Digest d; d.add(x.a); d.add(x.b); d.add(x.sq); d.add(x.i); d.add(x.z); for (size_t k = 0; k < 12; k++) d.add(x.arr.get(std::vector<size_t>{k})); d.add(x.text); return d.h; };
    uint64_t before = digest();
    auto run = [&] { Src s(seed, scale); Digest d; OPS[op].f(s, shared, d); return d.h; };
    uint64_t want = run();
    counting = true; seen = live = 0; left = -1; fired = false; { Src s(seed, scale); Digest d; OPS[op].f(s, shared, d); } counting = false;
    int64_t total = seen;
    PBT_CHECK(live == 0, OPS[op].name << ": " << live << " blocks are still allocated after it");
    PBT_CHECK(run() == want, OPS[op].name << " gave another result the second time");
    if (total == 0) return;
    int64_t n = (int64_t)g.draw((uint64_t)total - 1); bool later = g.flip(); volatile uint64_t got = 0;
    NOTE(g, OPS[op].name << " (seed " << seed << ", size " << scale << "), request " << n << " of " << total << (later ? " and all later ones fail" : " fails"));
    Outcome o = disturbed(n, later, [&] { Src s(seed, scale); Digest d; OPS[op].f(s, shared, d); got = d.h; });
    int64_t lost = live;
    if (!fired) return; // it makes fewer requests each time
    g.label(o == STOPPED ? "stopped" : o == THREW ? "bad_alloc" : "completed"); g.label(OPS[op].name);
    std::string name(OPS[op].name); bool streams = name == "text" || name == "shared: print"; // which keep quiet about failures
    if (o == DONE && !streams) PBT_CHECK(got == want, OPS[op].name << " went on with a wrong result after a failed memory request");
    if (o != STOPPED) PBT_CHECK(lost == 0, OPS[op].name << ": " << lost << " blocks are lost after a failed memory request");
    PBT_CHECK(digest() == before, OPS[op].name << " changed a constant operand after a failed memory request");
    PBT_CHECK(run() == want, OPS[op].name << " gave another result after a failed memory request");
    g.nontrivial(true);
}

//! an object on which a call failed gives later calls the results they always had
template <class Make, class F> static void again(Gen& g, const char* name, Make&& make, F&& f)
{
    g.label(name); uint64_t want; { auto x = make(); Digest d; f(*x, d, 1); want = d.h; }
    auto x = make(); if (g.flip()) { Digest d; f(*x, d, 0); } // used before, for other operands
    if (g.once_in(4)) { Digest d; f(*x, d, 1); }
    size_t calls = g.size(1, 3); int64_t total; { auto y = make(); counting = true; seen = 0; left = -1; fired = false; { Digest e; f(*y, e, 1); } counting = false; total = seen; }
    if (total == 0) return;
    for (size_t k = 0; k < calls; k++)
    {
        int64_t n = (int64_t)g.draw((uint64_t)total - 1); bool later = g.flip(); volatile uint64_t got = 0;
        NOTE(g, name << ": request " << n << (later ? " and all later ones fail" : " fails") << ", call " << k);
        Outcome o = disturbed(n, later, [&] { Digest e; f(*x, e, 1); got = e.h; });
        if (o == STOPPED) { g.label("stopped"); return; } // the program ends there
        g.label(o == THREW ? "bad_alloc" : "completed");
        if (o == DONE) PBT_CHECK(got == want, name << " went on with a wrong result after a failed memory request");
        if (g.flip()) { Digest d; f(*x, d, 0); }
        Digest e; f(*x, e, 1); PBT_CHECK(e.h == want, name << " gives another result after a failed memory request"); g.nontrivial(true);
    }
}
static void object(Gen& g)
{
    uint64_t seed = g.draw(100000); size_t scale = g.size(0, 6);
    // which: 0 for one set of operands, 1 for another
    #define OBJECT(NAME, SETUP, MAKE, USE) { Src s(seed, scale); SETUP; again(g, NAME, [&] MAKE, [&](auto& x, Digest& d, int which) { Src s(seed + (which ? 77777 : 0), scale); (void)s; USE; }); break; }
    switch (g.draw(6))
    {
    case 0: OBJECT("code object", uint32_t n = 1 + (uint32_t)s.upto(2); uint32_t m = 1 + (uint32_t)s.upto(3); std::vector<uint32_t> gen; for (uint32_t j = 0; j < n; j++) gen.push_back(octal(1 + (uint32_t)s.upto((2u << m) - 2))),
        { std::unique_ptr<susa::ccode> c(new susa::ccode(n, 1, m)); for (uint32_t j = 0; j < n; j++) c->set_generator(gen[j], j); return c; },
        MB b = s.mat<uint8_t>(s.size(), 1); d.add(x.encode(b)); d.add(x.decode_bcjr(s.col((s.size() + m) * n), 1.0)); d.add(x.encode(b)))
    case 1: OBJECT("channel object", MD taps = s.row(2 + s.upto(1)); taps(0) = 5, { return std::unique_ptr<susa::channel<double>>(new susa::channel<double>(taps, list({-1, 1}))); },
        MD b(s.size() + 3, 1); for (size_t i = 0; i < b.size(); i++) b(i) = s.upto(1) ? 1 : -1; MD e = x.encode_isi(b, 0); d.add(e); d.add(x.decode_mlse(e, 0)); d.add(x.decode_bcjr(e * 0.1, 1.0)))
    case 2: OBJECT("transform object", , { return std::unique_ptr<susa::fft<double>>(new susa::fft<double>()); }, MD a = s.col((size_t)2 << s.upto(4)); bool order = s.upto(1); if (order) d.add(x.radix2(a)); d.add(x.dft(s.row(s.size() + 1))); if (!order) d.add(x.radix2(a)))
    case 3: OBJECT("constellation object", , { return std::unique_ptr<susa::qam>(new susa::qam(16)); }, double re = s.num() * 0.3; d.add(x.demodulate_symbol(C(re, s.num() * 0.3))); d.add(x.get_constellation()); d.add(x.get_noise_deviation(s.num())))
    case 4: OBJECT("filter object", , { return std::unique_ptr<susa::rrcosine>(new susa::rrcosine(2, 0.5, 9)); }, d.add(x.get()))
    case 5: OBJECT("matrix object", MD a = s.mat<double>(scale + 1, 4), { return std::unique_ptr<MD>(new MD(a)); }, d.add(x); d.add(x.get_row_as_vec(0)); d.add(x.get_col_as_vec(s.upto(3))); d.add(x.col(1)); x(0) = x(0); d.add(susa::sum(x)); d.add(x.get_row_as_vec(0)))
    default: OBJECT("decomposition object", size_t n = s.size(); MD a = s.mat<double>(n, n); for (size_t i = 0; i < n; i++) a(i, i) = 20.0 * n, { return std::unique_ptr<susa::lup<double>>(new susa::lup<double>(a)); }, d.add(x.decompose()); d.add(x.get_lu()))
    }
}

//! arrays and matrices whose assignment failed can be destroyed, assigned, loaded and copied
template <class T, class Al> static void survival(Gen& g)
{
    typedef susa::array<T, Al> A;
    struct Model { std::vector<size_t> d; std::vector<T> v, alt; bool known = false; }; // not known: v or alt, or not readable
    size_t used = susa::memory_tacker::instance().read();
    const int N = 3; std::unique_ptr<A> a[N]; Model m[N];
    auto fresh = [&](int k) {
        size_t nd = g.range(1, 3); m[k] = Model(); for (size_t i = 0; i < nd; i++) m[k].d.push_back(g.size(1, 5));
        a[k].reset(); a[k].reset(nd == 1 ? new A({m[k].d[0]}) : nd == 2 ? new A({m[k].d[0], m[k].d[1]}) : new A({m[k].d[0], m[k].d[1], m[k].d[2]}));
        size_t tot = 1; for (size_t x : m[k].d) tot *= x; for (size_t i = 0; i < tot; i++) { m[k].v.push_back((T)g.range(-50, 50)); (*a[k])(i) = m[k].v[i]; } m[k].known = true; };
    auto check = [&](int k, const char* op) {
        Model& x = m[k]; size_t n = std::max(x.v.size(), x.alt.size());
        for (size_t i = 0; i < n; i++)
        {
            volatile T got = T(); T val = T();
            if (x.known) { val = a[k]->get(std::vector<size_t>{i}); PBT_CHECK(val == x.v[i], op << ": element " << i << " of array " << k << " is " << pbt::str(val) << " instead of " << pbt::str(x.v[i])); continue; }
            if (pbt::stopped([&] { got = a[k]->get(std::vector<size_t>{i}); })) continue;
            val = got; PBT_CHECK((i < x.v.size() && val == x.v[i]) || (i < x.alt.size() && val == x.alt[i]), op << ": element " << i << " of array " << k << " is " << pbt::str(val) << ", which was never there");
        } };
    for (int k = 0; k < N; k++) fresh(k);
    size_t steps = g.size(1, 12);
    for (size_t st = 0; st < steps; st++)
    {
        int i = (int)g.draw(N - 1), j = (int)g.draw(N - 1); bool fault = g.flip(); int64_t n = fault ? (int64_t)g.size(0, 4) : -1; bool later = g.flip(); Outcome o = DONE;
        switch (g.draw(3))
        {
        case 0: NOTE(g, i << " = " << j << (fault ? ", request " + std::to_string(n) + " fails" : ""));
            { Model old = m[i]; o = disturbed(n, later, [&] { *a[i] = *a[j]; });
              if (i == j) { if (o == THREW) { m[i].known = false; } }
              else if (o == DONE) m[i] = m[j];
              else { m[i].known = false; m[i].alt = m[j].v; if (!old.known || !m[j].known) { for (T x : old.alt) (void)x; m[i].v = old.v; } } }
            break;
        case 1: { size_t len = g.flip() ? m[j].v.size() : (size_t)g.range(1, 30); std::vector<T> data; for (size_t q = 0; q < len; q++) data.push_back((T)g.range(-50, 50));
            NOTE(g, "load " << len << " into " << i << (fault ? ", request " + std::to_string(n) + " fails" : "")); T* p = data.data();
            o = disturbed(n, later, [&] { a[i]->clone(p, len); });
            if (o == DONE) { m[i].v = data; m[i].alt.clear(); m[i].known = true; } else { m[i].known = false; m[i].alt = data; } break; }
        case 2: { NOTE(g, "new " << i << " from " << j << (fault ? ", request " + std::to_string(n) + " fails" : "")); A* p = nullptr; A* volatile q = nullptr; (void)p;
            o = disturbed(n, later, [&] { q = new A(*a[j]); });
            if (o == DONE && i != j) { a[i].reset(q); m[i] = m[j]; } else if (o == DONE) delete q; break; }
        default: if (m[i].known) { size_t e = g.draw(m[i].v.size() - 1); T x = (T)g.range(-50, 50); NOTE(g, i << "(" << e << ") = " << pbt::str(x)); (*a[i])(e) = x; m[i].v[e] = x; } else fresh(i); break;
        }
        if (o == STOPPED) { g.label("stopped"); return; }
        if (o == THREW) { g.label("array failed"); g.nontrivial(); }
        for (int k = 0; k < N; k++) check(k, "step");
    }
    for (int k = 0; k < N; k++) a[k].reset();
    PBT_CHECK(susa::memory_tacker::instance().read() == used, "the arrays are gone, and " << (int64_t)(susa::memory_tacker::instance().read() - used) << " bytes are still counted as allocated");
}
template <class T> static void text(Gen& g) // a matrix keeps a valid shape when assigning a text failed
{
    typedef susa::matrix<T, susa::allocator_log<T>> M; size_t used = susa::memory_tacker::instance().read();
    size_t r = g.size(1, 4), c = g.size(1, g.once_in(4) ? 40 : 4); std::ostringstream t; t << std::setprecision(17); for (size_t i = 0; i < r; i++) for (size_t j = 0; j < c; j++) t << (j ? " " : i ? ";" : "") << (g.once_in(4) ? (double)g.range(-500000, 500000) / 7 : (double)g.range(0, 99)); std::string s = t.str();
    bool ctor = g.flip(), old = g.flip(); const char* what = ctor ? "construction from" : "assignment of"; int64_t n; bool later = g.flip(); Outcome o;
    {
    M w(s), e(g.size(1, 4), g.size(1, 4), T(7)), m(old ? e : w); std::unique_ptr<M> q;
    counting = true; seen = 0; if (ctor) M q(s); else { M q(m); q = s; } counting = false;
    n = (int64_t)g.draw((uint64_t)seen); NOTE(g, what << " \"" << s << "\", request " << n << (later ? " and all later ones fail" : " fails")); g.label(ctor ? "text construction" : "text assignment");
    o = disturbed(n, later, [&] { if (ctor) q.reset(new M(s)); else m = s; }); if (o == STOPPED) { g.label("stopped"); return; }
    if (o == DONE) PBT_CHECK((ctor ? *q : m) == w, what << " a text went on with a wrong result after a failed memory request");
    if (ctor && o == THREW) PBT_CHECK(live == 0, live << " blocks are lost by a construction from a text");
    PBT_CHECK(m.size() == m.no_rows() * m.no_cols(), "the matrix has " << m.size() << " elements and is " << m.no_rows() << " by " << m.no_cols());
    T x = 0; for (size_t i = 0; i < m.size(); i++) x = x + m(i) * 0; M y(m); m = e; PBT_CHECK(m == e, "an assignment after a failed one"); m = s; PBT_CHECK(m == w, "a text assignment after a failed one"); g.nontrivial(o == THREW); if (o == THREW) g.label("bad_alloc");
    }
    PBT_CHECK(susa::memory_tacker::instance().read() == used, "the matrices are gone, and " << (int64_t)(susa::memory_tacker::instance().read() - used) << " bytes are still counted as allocated");
}

//! matrices on which an operation failed keep a shape with memory behind it, and the same operation succeeds afterwards
template <class T> static void matrices(Gen& g)
{
    typedef susa::matrix<T, susa::allocator_log<T>> M; size_t used = susa::memory_tacker::instance().read();
    {
    const int N = 3; std::unique_ptr<M> m[N]; std::unique_ptr<const M> model[N];
    auto make = [&] { std::unique_ptr<M> x; if (g.once_in(6)) { x.reset(new M()); return x; } size_t r = g.size(1, 6), c = g.size(1, g.once_in(8) ? 60 : 6); x.reset(new M(r, c)); for (size_t i = 0; i < r * c; i++) (*x)(i) = (T)g.range(-50, 50); return x; };
    for (int k = 0; k < N; k++) { m[k] = make(); model[k].reset(new M(*m[k])); }
    size_t steps = g.size(1, 8);
    for (size_t st = 0; st < steps; st++)
    {
        int i = (int)g.draw(N - 1), j = (int)g.draw(N - 1); size_t op = g.draw(7), r = g.size(1, 6), c = g.size(1, 6); T v = (T)g.range(-9, 9);
        auto e = make(); if (!e->size()) e.reset(new M(1, 1, T(3))); std::ostringstream t; for (size_t a = 0; a < r; a++) for (size_t b = 0; b < c; b++) t << (b ? " " : a ? ";" : "") << g.range(0, 99); std::string text = t.str();
        static const char* const NAMES[] = {"copy assignment", "move assignment", "resize", "text assignment", "sum assignment", "reshape", "products", "slices"};
        auto f = [&](M& x, const M& y) { switch (op) {
            case 0: x = y; break;
            case 1: { M z(y); x = std::move(z); break; }
            case 2: x.resize(r, c); x.set_all(v); break;
            case 3: x = text; break;
            case 4: if (x.size() && x.size() == y.size() && x.shape() == y.shape()) x = x + y; else x = *e + *e; break;
            case 5: x = *e; x = x.reshape(e->no_cols(), e->no_rows()); break;
            case 6: { x = *e * v; x = susa::matmul(x, susa::transpose(x)); break; }
            default: { x = e->row(0); x = susa::concat(x, e->row(e->no_rows() - 1)); x = x + v; } } };
        M want(*m[i]); { M y(*m[j]); counting = true; seen = 0; left = -1; fired = false; f(want, y); counting = false; } int64_t total = seen;
        bool fault = total > 0 && g.flip(), later = g.flip(); int64_t n = fault ? (int64_t)g.draw((uint64_t)total - 1) : -1;
        NOTE(g, NAMES[op] << " of " << i << " and " << j << (fault ? ", request " + std::to_string(n) + " of " + std::to_string(total) + (later ? " and all later ones fail" : " fails") : std::string())); g.label(NAMES[op]);
        Outcome o = disturbed(n, later, [&] { f(*m[i], *m[j]); });
        if (o == STOPPED) { g.label("stopped"); g.nontrivial(); return; }
        if (o == DONE) PBT_CHECK(m[i]->size() == want.size() && (!want.size() || *m[i] == want), NAMES[op] << (fired ? " went on with a wrong result after a failed memory request" : " gave another result than before"));
        if (o == THREW)
        {
            g.label("matrix failed"); g.nontrivial();
            PBT_CHECK(m[i]->size() == m[i]->no_rows() * m[i]->no_cols(), "after a failed " << NAMES[op] << " the matrix has " << m[i]->size() << " elements and is " << m[i]->no_rows() << " by " << m[i]->no_cols());
            volatile bool lost = false; volatile T sum = T(); if (m[i]->size()) lost = pbt::stopped([&] { for (size_t k = 0; k < m[i]->size(); k++) sum = sum + (*m[i])(k) * 0; });
            PBT_CHECK(!lost, "after a failed " << NAMES[op] << " the matrix of " << m[i]->size() << " elements has no memory");
            if (i != j) PBT_CHECK(m[j]->size() == model[j]->size() && (!m[j]->size() || *m[j] == *model[j]), "a failed " << NAMES[op] << " changed its operand");
            M copy(*m[i]); if (i != j && op != 4) { f(*m[i], *m[j]); PBT_CHECK(m[i]->size() == want.size() && (!want.size() || *m[i] == want), NAMES[op] << " gives another result after it failed once"); }
            else *m[i] = *e;
        }
        model[i].reset(new M(*m[i]));
        for (int k = 0; k < N; k++) PBT_CHECK(m[k]->size() == model[k]->size() && (!m[k]->size() || *m[k] == *model[k]), NAMES[op] << " of matrix " << i << " changed matrix " << k);
    }
    }
    PBT_CHECK(susa::memory_tacker::instance().read() == used, "the matrices are gone, and " << (int64_t)(susa::memory_tacker::instance().read() - used) << " bytes are still counted as allocated");
}

static void property(Gen& g)
{
    switch (g.draw(8))
    {
    case 8: if (g.flip()) matrices<double>(g); else matrices<int>(g); break;
    default: operation(g); break;
    case 4: case 5: object(g); break;
    case 6: if (g.flip()) survival<double, std::allocator<double>>(g); else survival<int, susa::allocator_log<int>>(g); break;
    case 7: if (g.flip()) text<double>(g); else text<int>(g); break;
    }
}
#include "pbt_main.h"
