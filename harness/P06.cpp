// Arrays: every index tuple has its own element, through every access form, in every history.
#define PBT_LEAK
#include "susagen.h"
using namespace sg;

template <class A> static A build(const std::vector<size_t>& d)
{
    switch (d.size())
    {
    case 1: return A({d[0]});
    case 2: return A({d[0], d[1]});
    case 3: return A({d[0], d[1], d[2]});
    case 4: return A({d[0], d[1], d[2], d[3]});
    case 5: return A({d[0], d[1], d[2], d[3], d[4]});
    case 6: return A({d[0], d[1], d[2], d[3], d[4], d[5]});
    case 7: return A({d[0], d[1], d[2], d[3], d[4], d[5], d[6]});
    case 8: return A({d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7]});
    default: return A({d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], d[8]});
    }
}
#define TUPLE(OBJ, F, I) (I.size() == 1 ? OBJ F(I[0]) : I.size() == 2 ? OBJ F(I[0], I[1]) : I.size() == 3 ? OBJ F(I[0], I[1], I[2]) : \
    I.size() == 4 ? OBJ F(I[0], I[1], I[2], I[3]) : I.size() == 5 ? OBJ F(I[0], I[1], I[2], I[3], I[4]) : I.size() == 6 ? OBJ F(I[0], I[1], I[2], I[3], I[4], I[5]) : \
    I.size() == 7 ? OBJ F(I[0], I[1], I[2], I[3], I[4], I[5], I[6]) : I.size() == 8 ? OBJ F(I[0], I[1], I[2], I[3], I[4], I[5], I[6], I[7]) : \
    OBJ F(I[0], I[1], I[2], I[3], I[4], I[5], I[6], I[7], I[8]))
template <class A> static auto by_list(const A& a, const std::vector<size_t>& i)
{
    switch (i.size())
    {
    case 1: return a.get({i[0]});
    case 2: return a.get({i[0], i[1]});
    case 3: return a.get({i[0], i[1], i[2]});
    case 4: return a.get({i[0], i[1], i[2], i[3]});
    case 5: return a.get({i[0], i[1], i[2], i[3], i[4]});
    case 6: return a.get({i[0], i[1], i[2], i[3], i[4], i[5]});
    case 7: return a.get({i[0], i[1], i[2], i[3], i[4], i[5], i[6]});
    case 8: return a.get({i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7]});
    default: return a.get({i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8]});
    }
}

template <class T> struct Cell { T v = T(); bool known = false; };
template <class T> struct Model
{
    std::vector<size_t> d; size_t tot = 0; std::vector<Cell<T>> e; bool usable = false, linear = false; // linear: loaded with another length
    size_t lin(const std::vector<size_t>& i) const { size_t l = 0, f = 1; for (size_t k = 0; k < i.size(); k++) { l += i[k] * f; f *= d[k]; } return l; }
    std::vector<size_t> tuple(size_t l) const { std::vector<size_t> t; for (size_t x : d) { t.push_back(l % x); l /= x; } return t; }
};

template <class T, class Al> static void history(Gen& g)
{
    typedef susa::array<T, Al> A;
    const size_t cap = g.once_in(100) ? (g.once_in(4) ? 140000 : 6000) : 150;
    auto dims_of = [&] {
        size_t nd = g.once_in(4) ? g.range(6, 9) : g.range(1, 6); std::vector<size_t> d(nd); size_t tot = 1;
        for (auto& x : d) { x = cap > 150 && g.once_in(3) ? (size_t)g.range(1, cap) : g.size(1, nd == 1 ? 200 : nd == 2 ? 40 : nd == 3 ? 12 : 5); if (nd > 5 && g.flip()) x = 1; while (tot * x > cap) x = x / 2 + (x == 1); if (x < 1) x = 1; tot *= x; }
        return d; };
    auto fresh = [&](Model<T>& m) { m = Model<T>(); m.d = dims_of(); m.tot = 1; for (size_t x : m.d) m.tot *= x; m.e.assign(m.tot, Cell<T>()); m.usable = true; };

    const int N = 3;
    Model<T> m[N]; std::unique_ptr<A> a[N];
    for (int k = 0; k < N; k++)
    {
        if (k == 2 && g.flip()) { a[k].reset(new A()); continue; }
        fresh(m[k]); a[k].reset(new A(build<A>(m[k].d)));
    }
    NOTE(g, "array<" << tname<T>() << "> " << pbt::str(m[0].d) << " " << pbt::str(m[1].d) << " " << pbt::str(m[2].d) << ":");
    g.label(std::string("type:") + tname<T>());
    auto value = [&] { return scalar<T>(g, 100, true); };
    auto read = [&](int k, const std::vector<size_t>& i, uint64_t form) -> T {
        A& x = *a[k]; const A& c = x;
        switch (form)
        {
        case 0: return TUPLE(x, , i);
        case 1: return TUPLE(c, , i);
        case 2: return by_list(c, i);
        case 3: return c.get(i);
        case 4: return TUPLE(x, .get, i);
        default: return by_list(x, i);
        } };
    auto verify = [&](int k, const char* when, bool all) {
        if (m[k].linear) for (size_t l = 0; l < m[k].e.size(); l++)
        {
            A& r = *a[k]; T x = r(l);
            PBT_CHECK(x == m[k].e[l].v, "array " << k << ": element " << l << " of " << m[k].e.size() << " loaded ones is " << pbt::str(x) << " instead of " << pbt::str(m[k].e[l].v) << " after " << when);
        }
        if (!m[k].usable) return;
        size_t step = all || m[k].tot < 40 ? 1 : m[k].tot / 37 + 1;
        for (size_t l = 0; l < m[k].tot; l += (step == 1 || l + step < m[k].tot || l == m[k].tot - 1) ? step : m[k].tot - 1 - l) if (m[k].e[l].known)
        {
            T x = a[k]->get(m[k].tuple(l));
            PBT_CHECK(x == m[k].e[l].v, "array " << k << " " << pbt::str(m[k].d) << ": element " << pbt::str(m[k].tuple(l)) << " is " << pbt::str(x) << " instead of " << pbt::str(m[k].e[l].v) << " after " << when);
        } };
    size_t steps = g.range(1, cap > 6000 ? 8 : 40); int special = 0;
    for (size_t s = 0; s < steps; s++)
    {
        int k = (int)g.draw(N - 1), o = (int)g.draw(N - 1);
        uint64_t op = g.draw(13);
        const char* nm = "";
        if (op <= 5 && !m[k].usable) op = 9;
        switch (op)
        {
        case 0: case 1: case 2: { // write at a tuple; sometimes with trailing indices left out
            size_t l = g.range(0, m[k].tot - 1); std::vector<size_t> i = m[k].tuple(l);
            if (g.once_in(5)) { while (i.size() > 1 && i.back() == 0) i.pop_back(); }
            T x = value(); A& r = *a[k]; TUPLE(r, , i) = x; m[k].e[l] = {x, true}; nm = "a write";
            if (s % 8 != 0) continue;
            break; }
        case 3: { // read everything through one form
            uint64_t f = g.draw(5);
            for (size_t l = 0; l < m[k].tot; l++) if (m[k].e[l].known)
            {
                std::vector<size_t> i = m[k].tuple(l); T x = read(k, i, f);
                PBT_CHECK(x == m[k].e[l].v, "array " << pbt::str(m[k].d) << ": element " << pbt::str(i) << " reads as " << pbt::str(x) << " instead of " << pbt::str(m[k].e[l].v) << " through form " << f);
            }
            nm = "reading"; g.label("op:read all " + std::to_string(f)); break; }
        case 4: { // fill through one access form, distinct values in turn; shows collisions of tuples
            size_t start = g.draw(99);
            for (size_t l = 0; l < m[k].tot; l++) { std::vector<size_t> i = m[k].tuple(l); T x = T((start + l) % 120); A& r = *a[k]; TUPLE(r, , i) = x; m[k].e[l] = {x, true}; }
            nm = "filling"; g.label("op:fill"); break; }
        case 5: { // raw indices are the linear order and a bijection
            for (int n = 0; n < 12; n++)
            {
                size_t l = g.range(0, m[k].tot - 1); std::vector<size_t> i = m[k].tuple(l); A& r = *a[k];
                size_t x = TUPLE(r, .get_raw_index, i);
                PBT_CHECK(x == l && x == m[k].lin(i), "array " << pbt::str(m[k].d) << ": raw index of " << pbt::str(i) << " is " << x << " instead of " << l);
                PBT_CHECK(&TUPLE(r, , i) == &r(l), "array " << pbt::str(m[k].d) << ": " << pbt::str(i) << " is not the linear element " << l);
            }
            nm = "raw indexing"; g.label("op:raw"); break; }
        case 6: { *a[k] = *a[o]; m[k] = m[o]; special++; nm = k == o ? "self-assignment" : "assignment"; g.label(std::string("op:") + nm); break; }
        case 7: { a[k].reset(new A(*a[o == k ? (k + 1) % N : o])); m[k] = m[o == k ? (k + 1) % N : o]; special++; nm = "copy"; g.label("op:copy"); break; }
        case 8: { if (k == o) break; A t(std::move(*a[o])); a[k].reset(new A(std::move(t))); m[k] = m[o]; m[o] = Model<T>(); special++; nm = "move"; g.label("op:move"); break; }
        case 9: { fresh(m[k]); if (g.flip()) { A t = build<A>(m[k].d); *a[k] = t; } else a[k].reset(new A(build<A>(m[k].d))); nm = "a new array"; special++; g.label("op:new"); break; }
        case 10: case 11: { // bulk loading
            bool other = g.once_in(4); // another length than the array has
            if (!other && !m[k].usable) break;
            std::vector<T> v(other ? g.size(1, 60) : m[k].tot); if (v.size() == m[k].tot && m[k].usable) other = false; T st = value(); for (size_t l = 0; l < v.size(); l++) { v[l] = l < 20 ? value() : T(l % 120); } (void)st;
            std::vector<T> w = v; a[k]->clone(v.data(), v.size());
            PBT_CHECK(v == w, "bulk loading changed its source");
            if (other) { m[k] = Model<T>(); m[k].linear = true; m[k].e.resize(v.size()); }
            for (size_t l = 0; l < v.size(); l++) m[k].e[l] = {(T)w[l], true};
            for (auto& x : v) x = T(1); // the source is independent afterwards
            special++; nm = "bulk loading"; g.label("op:clone"); break; }
        case 12: { // assign from a temporary, pass by value
            if (!m[o].usable) break;
            auto id = [](A x) { return x; }; *a[k] = id(*a[o]); m[k] = m[o]; special++; nm = "assignment from a temporary"; g.label("op:temporary"); break; }
        default: { a[k].reset(new A()); m[k] = Model<T>(); special++; nm = "emptying"; g.label("op:empty"); break; }
        }
        NOTE(g, " " << nm << "(" << k << "," << o << ")");
        for (int x = 0; x < N; x++) verify(x, nm, false);
    }
    for (int x = 0; x < N; x++) verify(x, "all operations", true);
    g.label("dims:" + std::to_string(m[0].d.size()));
    g.nontrivial(special >= 2);
    g.weight = steps;
}
static void property(Gen& g)
{
    with_type<double, int, uint8_t, float, std::complex<double>>(g, [&](auto t) { typedef decltype(t) T;
        if (g.once_in(3)) history<T, susa::allocator_log<T>>(g); else history<T, std::allocator<T>>(g); });
}
#include "pbt_main.h"
