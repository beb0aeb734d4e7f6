// Sorting, selection, extrema and search.
#include "susagen.h"
using namespace sg;

template <class T> static Mod<T> values(Gen& g, size_t r, size_t c)
{
    uint64_t k = g.draw(5); Mod<T> d = fill<T>(g, r, c, k <= 2 ? 3 : k == 3 ? 20 : std::is_same<T, int8_t>::value ? 127 : 100000, k == 3);
    if (k == 5 && d.size() < 300) for (size_t i = 0; i < d.size(); i++) if (g.once_in(4)) d.v[i] = g.flip() ? std::numeric_limits<T>::max() : std::numeric_limits<T>::lowest();
    if (sizeof(T) >= 4 && g.once_in(6)) // values that differ in the last place only
    { T base = std::is_floating_point<T>::value ? (T)std::ldexp(1.0, (int)g.range(-3, 20)) : std::is_same<T, long long>::value ? (T)(1LL << g.range(20, 60)) : (T)(1 << g.range(20, 29));
      for (auto& x : d.v) { T y = base; int n = (int)(((long long)x % 3 + 3) % 3); for (; n > 0; n--) { if constexpr (std::is_floating_point<T>::value) y = std::nextafter(y, (T)1e9); else y = y + 1; } x = y; } g.label("close values"); }
    if (g.once_in(8)) { bool up = g.flip(); std::sort(d.v.begin(), d.v.end(), [up](T a, T b) { return up ? a < b : b < a; }); }
    return d;
}
template <class T> static Mod<T> vector(Gen& g, bool quadratic) { size_t n = g.once_in(quadratic ? 2000 : 800) ? (quadratic ? (size_t)g.range(120, 1200) : g.once_in(4) ? (size_t)g.range(65500, 70000) : (size_t)g.range(120, 5000)) : g.size(2, 120); bool col = g.flip(); return values<T>(g, col ? n : 1, col ? 1 : n); }
template <class T> static std::string positions(const susa::matrix<unsigned>& p, const Mod<T>& d, size_t k, const std::vector<char>& allowed, std::vector<T> want)
{
    std::ostringstream w; std::vector<char> seen(d.size(), 0);
    if (p.size() != k) { w << p.size() << " positions instead of " << k; return w.str(); }
    for (size_t i = 0; i < k; i++)
    {
        unsigned x = p(i);
        if (x >= d.size()) { w << "position " << x << " of " << d.size(); return w.str(); }
        if (!allowed.empty() && !allowed[x]) { w << "position " << x << " is not allowed"; return w.str(); }
        if (seen[x]++) { w << "position " << x << " twice"; return w.str(); }
        if (d.v[x] != want[i]) { w << "the value " << pbt::str((T)d.v[x]) << " in place " << i << " instead of " << pbt::str((T)want[i]); return w.str(); }
    }
    return "";
}
template <class T> static void one(Gen& g)
{
    typedef susa::matrix<T> M; g.label(tname<T>());
    uint64_t op = g.draw(7);
    if (op <= 1)
    {
        size_t r, c; if (g.once_in(1000)) bigdims(g, r, c); else dims(g, r, c); Mod<T> a = values<T>(g, r, c); NOTE(g, (op ? "max" : "min") << " of " << show(a)); g.label("extrema " + shape_label(r, c)); g.nontrivial(r * c > 1);
        M A = make<M>(a); bool vec = r == 1 || c == 1; auto p = op ? susa::max(A) : susa::min(A); auto better = [&](T x, T y) { return op ? x > y : x < y; };
        size_t cols = vec ? 1 : c, rows = vec ? r * c : r;
        PBT_CHECK(p.size() == cols, (op ? "max" : "min") << " of a " << r << "x" << c << " matrix has " << p.size() << " values");
        for (size_t j = 0; j < cols; j++)
        { size_t best = 0; auto at = [&](size_t i) { return vec ? (T)a.v[i] : (T)a.at(i, j); }; for (size_t i = 1; i < rows; i++) if (better(at(i), at(best))) best = i;
          PBT_CHECK(p(j) == best, (op ? "max" : "min") << " of column " << j << " of " << show(a) << " is at " << p(j) << " instead of " << best); }
        same(A, a, "the input"); return;
    }
    Mod<T> a = vector<T>(g, op <= 3); M A = make<M>(a); size_t n = a.size(); std::vector<T> s = a.v; std::sort(s.begin(), s.end());
    std::vector<char> all; g.label(shape_label(a.r, a.c)); g.nontrivial(); g.weight = n;
    switch (op)
    {
    case 2: { NOTE(g, "sort " << show(a)); g.label("sort"); Mod<T> e = a; e.v = s; same(susa::sort(A), e, "sort"); break; }
    case 3: { NOTE(g, "sort_indices " << show(a)); g.label("sort_indices"); auto w = positions<T>(susa::sort_indices(A), a, n, all, s); PBT_CHECK(w.empty(), "sort_indices of " << show(a) << ": " << w); break; }
    case 4: case 5: { size_t k = n > 5000 ? (size_t)g.range(1, 30) : (size_t)g.range(1, n - 1); bool most = op == 5; NOTE(g, (most ? "select_most " : "select_least ") << k << " of " << show(a)); g.label(most ? "select_most" : "select_least");
        if (most) std::reverse(s.begin(), s.end()); auto w = positions<T>(most ? susa::select_most(A, (unsigned)k) : susa::select_least(A, (unsigned)k), a, k, all, s); PBT_CHECK(w.empty(), (most ? "select_most " : "select_least ") << k << " of " << show(a) << ": " << w); break; }
    case 6: { g.label("select_limited_least"); all.assign(n, 0); std::vector<unsigned> cand; if (n > 300) { pbt::Rng b = g.bulk(); for (size_t i = 0; i < n; i++) if (b.upto(1)) { cand.push_back(i); all[i] = 1; } } else for (size_t i = 0; i < n; i++) if (g.flip()) { cand.push_back(i); all[i] = 1; } if (cand.empty()) { cand.push_back(n - 1); all[n - 1] = 1; }
        size_t k = g.range(1, std::min<size_t>(n > 5000 ? 30 : n, std::min(cand.size(), n - 1))); std::vector<T> want; for (unsigned i : cand) want.push_back(a.v[i]); std::sort(want.begin(), want.end());
        if (g.once_in(4)) cand.push_back(cand[g.draw(cand.size() - 1)]); // mentioned twice
        if (n > 300) { pbt::Rng b = g.bulk(); for (size_t i = cand.size(); i-- > 1;) std::swap(cand[i], cand[b.upto(i)]); } else for (size_t i = cand.size(); i-- > 1;) std::swap(cand[i], cand[g.draw(i)]); if (k > 1 && k == n) k--;
        bool col = g.flip(); susa::matrix<unsigned> L(col ? cand.size() : 1, col ? 1 : cand.size()); for (size_t i = 0; i < cand.size(); i++) L(i) = cand[i];
        NOTE(g, "select_limited_least " << k << " of " << show(a) << " among " << pbt::str(cand)); auto w = positions<T>(susa::select_limited_least(A, L, (unsigned)k), a, k, all, want);
        PBT_CHECK(w.empty(), "select_limited_least " << k << " of " << show(a) << " among " << pbt::str(cand) << ": " << w); break; }
    default: { T x = g.once_in(4) ? scalar<T>(g, 9) : (T)a.v[g.draw(n - 1)]; if (g.once_in(8)) { if constexpr (std::is_floating_point<T>::value) x = std::nextafter(x, (T)(g.flip() ? 1e30 : -1e30)); else x = (T)(x ^ 1); } T x0 = x; NOTE(g, "find " << pbt::str(x) << " in " << show(a)); g.label("find"); susa::bitset b = susa::find(A, x);
        for (size_t i = 0; i < n; i++) PBT_CHECK(b.exists(i) == (a.v[i] == x), "find " << pbt::str(x) << " in " << show(a) << ": position " << i << " is " << (b.exists(i) ? "" : "not ") << "marked");
        PBT_CHECK(!b.exists(n), "find marks a position behind the end"); PBT_CHECK(b.any() == (std::find(s.begin(), s.end(), x0) != s.end()), "find: any() is " << b.any()); PBT_CHECK(x == x0, "find changed the value"); break; }
    }
    same(A, a, "the input");
}
static void property(Gen& g) { with_type<double, int, unsigned, uint8_t, float, long long, int8_t>(g, [&](auto t) { one<decltype(t)>(g); }); }
#include "pbt_main.h"
