// Matrices as independent values: histories of construction, copy, move,
// assignment, resizing, text assignment and destruction against a plain model.
#define PBT_LEAK
#include "susagen.h"
#include <optional>
#include <utility>
using namespace sg;

template <class T, class A> struct World
{
    typedef susa::matrix<T, A> M;
    struct Slot { std::optional<M> m; Mod<T> d; bool known = true; };
    Gen& g;
    std::vector<Slot> s;
    size_t hi;
    int interesting = 0; bool big = false;
    explicit World(Gen& g_) : g(g_), s(5), hi(g_.once_in(12) ? 40 : 6) {}

    size_t any() { return g.draw(s.size() - 1); }
    // a slot that holds a matrix, else SIZE_MAX
    size_t live() { size_t k = any(); for (size_t i = 0; i < s.size(); i++) { size_t j = (k + i) % s.size(); if (s[j].m) return j; } return (size_t)-1; }
    Mod<T> content()
    {
        if (big && g.flip()) { size_t r, c; bigdims(g, r, c); return fill<T>(g, r, c, 100, true); }
        return anymod<T>(g, 100, true, hi);
    }
    void text(const Mod<T>& d, std::string& t)
    {
        t = g.flip() ? "[" : "";
        for (size_t i = 0; i < d.r; i++)
        {
            if (i) t += g.flip() ? ";" : "\n";
            for (size_t j = 0; j < d.c; j++) t += (j ? " " : "") + pbt::str((T)d.at(i, j));
        }
        if (t[0] == '[') t += "]";
    }
    void write_all(Slot& x, const Mod<T>& d)
    {
        for (size_t i = 0; i < d.r; i++) for (size_t j = 0; j < d.c; j++)
            if ((i + j) & 1) (*x.m)(i, j) = d.at(i, j); else (*x.m)(i + j * d.r) = d.at(i, j);
        x.d = d; x.known = true;
    }
    void check(const char* op)
    {
        for (size_t i = 0; i < s.size(); i++)
        {
            if (s[i].m && !s[i].known)
            { // taken from: some matrix without contradictions
                const M& m = *s[i].m; size_t r = m.no_rows(), c = m.no_cols();
                PBT_CHECK(m.size() == r * c && (r == 0) == (c == 0), "after " << op << ", matrix #" << i << " that was moved from has " << r << " rows, " << c << " columns and " << m.size() << " elements");
                if (m.size()) { T x = m(r - 1, c - 1); (void)x; }
            }
            if (s[i].m && s[i].known) same(*s[i].m, s[i].d, std::string("after ") + op + ", matrix #" + std::to_string(i));
        }
    }
    static M by_value(M m) { return m; }

    void step()
    {
        uint64_t op = g.draw(21);
        size_t i = any(), j;
        const char* name = "?";
        switch (op)
        {
        case 0: { Mod<T> d = content(); T x = d.v[0]; for (auto& v : d.v) v = x;
                  name = "construction with a value";
                  if (g.flip()) s[i].m.emplace(d.r, d.c, x); else s[i].m.emplace(std::make_tuple(d.r, d.c), x);
                  s[i].d = d; s[i].known = true; break; }
        case 1: { Mod<T> d = content(); name = "construction and element writes";
                  if (g.flip()) s[i].m.emplace(d.r, d.c); else s[i].m.emplace(std::make_tuple(d.r, d.c));
                  write_all(s[i], d); break; }
        case 2: name = "copy construction"; j = live(); if (j + 1 == 0) return;
                { M c(*s[j].m); if (i != j) { s[i].m.emplace(c); s[i].d = s[j].d; s[i].known = s[j].known; }
                  if (s[j].known) { same(c, s[j].d, "a copy"); if (c.size()) { c(0) = T(77); c.set_all(T(5)); } } }
                interesting++; break;
        case 3: name = "move construction"; j = live(); if (j + 1 == 0) return;
                { M c(std::move(*s[j].m)); if (s[j].known) same(c, s[j].d, "a moved matrix");
                  bool k = s[j].known; Mod<T> d = s[j].d; s[j].known = false;
                  if (i != j) { s[i].m.emplace(std::move(c)); s[i].d = d; s[i].known = k; }
                  else { *s[i].m = c; s[i].d = d; s[i].known = k; } } // reuse of the moved-from one
                interesting++; break;
        case 4: case 5: name = "copy assignment"; j = live(); if (j + 1 == 0) return;
                { if (!s[i].m) s[i].m.emplace();
                  M& r = (*s[i].m = *s[j].m);
                  PBT_CHECK(&r == &*s[i].m, "assignment does not return its left side");
                  s[i].d = s[j].d; s[i].known = s[j].known; }
                interesting++; break;
        case 6: name = "assignment from an expiring matrix"; j = live(); if (j + 1 == 0) return;
                if (i == j) return;
                if (!s[i].m) s[i].m.emplace();
                *s[i].m = std::move(*s[j].m); s[i].d = s[j].d; s[i].known = s[j].known; s[j].known = false;
                interesting++; break;
        case 7: { name = "construction from text"; Mod<T> d = anymod<T>(g, 100, false, hi);
                  if constexpr (is_cplx<T>::value) return;
                  else { std::string t; text(d, t); s[i].m.emplace(t); s[i].d = d; s[i].known = true; } break; }
        case 8: { name = "assignment of text"; Mod<T> d = anymod<T>(g, 100, false, hi);
                  if constexpr (is_cplx<T>::value) return;
                  else { std::string t; text(d, t); if (!s[i].m) s[i].m.emplace();
                         if (g.flip()) *s[i].m = t; else *s[i].m = t.c_str();
                         s[i].d = d; s[i].known = true; interesting++; } break; }
        case 9: { name = "resize"; j = live(); if (j + 1 == 0) return;
                  size_t r, c; if (big && g.flip()) bigdims(g, r, c); else dims(g, r, c, hi);
                  Slot& x = s[j];
                  if (g.flip() && x.known && x.d.size()) { r = x.d.c; c = x.d.r; }  // as many elements
                  bool keep = x.known && x.d.size() == r * c && r * c;
                  PBT_CHECK(x.m->resize(r, c), "resize failed");
                  PBT_CHECK(x.m->no_rows() == r && x.m->no_cols() == c && x.m->size() == r * c, "wrong shape after resize");
                  if (keep) { Mod<T> d(r, c); for (size_t k = 0; k < r * c; k++) d.setlin(k, x.d.lin(k)); x.d = d; same(*x.m, d, "resize to as many elements"); }
                  write_all(x, fill<T>(g, r, c, 100, true));
                  interesting++; break; }
        case 10: { name = "set_all"; j = live(); if (j + 1 == 0 || !s[j].known) return;
                   T x = scalar<T>(g, 100, true); s[j].m->set_all(x); for (auto& v : s[j].d.v) v = x; break; }
        case 11: case 12: { name = "an element write"; j = live(); if (j + 1 == 0 || !s[j].known || !s[j].d.size()) return;
                   size_t r = g.range(0, s[j].d.r - 1), c = g.range(0, s[j].d.c - 1); T x = scalar<T>(g, 100, true);
                   (*s[j].m)(r, c) = x; s[j].d.at(r, c) = x; break; }
        case 13: { name = "swap"; j = live(); if (j + 1 == 0 || i == j || !s[i].m) return;
                   std::swap(*s[i].m, *s[j].m); std::swap(s[i].d, s[j].d); std::swap(s[i].known, s[j].known); interesting++; break; }
        case 14: { name = "passing by value"; j = live(); if (j + 1 == 0) return;
                   M r = by_value(*s[j].m); if (s[j].known) same(r, s[j].d, "a returned matrix");
                   if (r.size()) r(0) = T(3); break; }
        case 15: { name = "assignment of an empty matrix"; if (!s[i].m) s[i].m.emplace();
                   M e; PBT_CHECK(e.no_rows() == 0 && e.no_cols() == 0 && e.size() == 0, "a default constructed matrix is not empty");
                   if (g.flip()) *s[i].m = e; else *s[i].m = M();
                   s[i].d = Mod<T>(); s[i].known = true; interesting++; break; }
        case 16: { name = "a growing vector of matrices";
                   std::vector<M> v; std::vector<Mod<T>> d; size_t n = g.size(1, 9);
                   for (size_t k = 0; k < n; k++)
                   {
                       j = g.flip() ? live() : (size_t)-1;
                       if (j + 1 != 0 && s[j].known) { v.push_back(*s[j].m); d.push_back(s[j].d); }
                       else { Mod<T> x = content(); v.push_back(make<M>(x)); d.push_back(x); }
                   }
                   if (n > 1) { size_t k = g.draw(n - 1); v.erase(v.begin() + k); d.erase(d.begin() + k); }
                   if (g.flip()) { v.insert(v.begin(), M()); d.insert(d.begin(), Mod<T>()); }
                   for (size_t k = 0; k < v.size(); k++) same(v[k], d[k], "element of a vector of matrices");
                   break; }
        case 17: { name = "an aliased operation"; j = live(); if (j + 1 == 0 || !s[j].known || !s[j].d.size()) return;
                   M& m = *s[j].m; Mod<T>& d = s[j].d;
                   uint64_t k = g.draw(6);
                   if (k == 0) { m = susa::transpose(m); Mod<T> t(d.c, d.r); for (size_t a = 0; a < d.r; a++) for (size_t b = 0; b < d.c; b++) t.at(b, a) = d.at(a, b); d = t; }
                   else if (k == 1) { m -= m; for (auto& v : d.v) v = T(v - v); }
                   else if (k == 2) { m = m - m; for (auto& v : d.v) v = T(v - v); }
                   else if (k == 3) { size_t n = g.range(0, d.r - 1); m = m.row(n); Mod<T> t(1, d.c); for (size_t b = 0; b < d.c; b++) t.at(0, b) = d.at(n, b); d = t; }
                   else if (k == 4) { size_t n = g.range(0, d.c - 1); m = m.col(n); Mod<T> t(d.r, 1); for (size_t b = 0; b < d.r; b++) t.at(b, 0) = d.at(b, n); d = t; }
                   else if (k == 5) { m = m.reshape(d.c, d.r); Mod<T> t(d.c, d.r); for (size_t x = 0; x < d.size(); x++) t.setlin(x, d.lin(x)); d = t; }
                   else { m.set_row(0, m); Mod<T> t = d; // a row from the matrix' own linear data
                          // element k of the row becomes what linear element k was when it was copied
                          std::vector<T> lin(d.size()); for (size_t x = 0; x < d.size(); x++) lin[x] = d.lin(x);
                          for (size_t x = 0; x < d.c; x++) lin[x * d.r] = lin[x];
                          for (size_t x = 0; x < d.size(); x++) t.setlin(x, lin[x]); d = t;
                          if (d.r > 1) { s[j].known = false; write_all(s[j], fill<T>(g, d.r, d.c, 50)); } } // order of aliased copies is not promised
                   interesting++; break; }
        case 18: name = "destruction"; s[i].m.reset(); break;
        case 19: { name = "a const operation"; j = live(); if (j + 1 == 0 || !s[j].known || !s[j].d.size()) return;
                   const M& m = *s[j].m; M t = susa::transpose(m); M u = susa::concat(m, m); M p = susa::fliplr(m); M q = m + m;
                   if (m.is_square()) { M w = susa::matmul(m, m); }
                   PBT_CHECK(m == M(m), "a copy is not equal to its origin"); break; }
        case 20: { name = "assignment of a temporary"; Mod<T> d = content(); if (!s[i].m) s[i].m.emplace();
                   *s[i].m = make<M>(d); s[i].d = d; s[i].known = true; break; }
        default: { name = "chained assignment"; j = live(); size_t k = any(); if (j + 1 == 0) return;
                   if (!s[i].m) s[i].m.emplace(); if (!s[k].m) s[k].m.emplace();
                   *s[k].m = *s[i].m = *s[j].m; s[i].d = s[j].d; s[i].known = s[j].known; s[k].d = s[j].d; s[k].known = s[j].known;
                   interesting++; break; }
        }
        NOTE(g, name << " #" << i << "; ");
        g.label(std::string("op:") + name);
        check(name);
    }
};

template <class T, class A> static void history(Gen& g)
{
    NOTE(g, "matrix<" << tname<T>() << ">: ");
    g.label(std::string("type:") + tname<T>());
    World<T, A> w(g);
    w.big = g.once_in(250);
    size_t n = w.big ? g.range(2, 8) : 4 + g.range(0, g.once_in(3) ? 60 : 12);
    for (size_t i = 0; i < n; i++) w.step();
    g.nontrivial(w.interesting >= 2);
    g.weight = n;
}

template <class F> static void keep(const char* what, const susa::matrix<double>& a, const susa::matrix<double>& b, F f)
{
    Mod<double> ma = model(a), mb = model(b);
    f();
    same(a, ma, std::string("first argument after ") + what);
    same(b, mb, std::string("second argument after ") + what);
}

// library functions leave their const arguments alone, also when both are the same object
static void const_args(Gen& g)
{
    typedef susa::matrix<double> M;
    size_t n = g.size(1, 9);
    const M sq = make<M>(fill<double>(g, n, n, 9));
    const M b = make<M>(fill<double>(g, n, 1, 9));
    const bool col = g.flip(); const M v = make<M>(fill<double>(g, col ? n + 1 : 1, col ? 1 : n + 2, 9));
    const M rect = make<M>(anymod<double>(g, 9, false, 9));
    uint64_t k = g.draw(23);
    static const char* names[] = {"det", "rank", "lu", "lup", "inv", "linsolve", "svd", "filter", "conv", "convmtx", "toeplitz", "kron",
        "upsample", "downsample", "sum", "mean", "norm", "abs", "sign", "min/max", "dft", "concat", "matmul", "flip"};
    const char* w = names[k];
    NOTE(g, "const arguments of " << w << ": " << show(rect));
    g.label(std::string("const:") + w);
    const M& a = rect;
    M one(1, 1, 1.0);
    switch (k)
    {
    case 0: keep(w, sq, b, [&] { susa::det(sq); }); break;
    case 1: keep(w, a, b, [&] { susa::rank(a); }); break;
    case 2: keep(w, sq, b, [&] { susa::lu<double> l(sq); l.decompose(); }); break;
    case 3: keep(w, sq, b, [&] { susa::lup<double> l(sq); l.decompose(); susa::lup<double> l2(sq); l2.decompose_alt(); }); break;
    case 4: keep(w, sq, b, [&] { M x(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) x(i, j) = sq(i, j) + (i == j ? 100 : 0); const M y = x; M z = susa::inv(y); same(y, model(x), "the argument of inv"); }); break;
    case 5: keep(w, sq, b, [&] { M x(n, n); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) x(i, j) = sq(i, j) + (i == j ? 100 : 0); const M y = x; M z = susa::linsolve(y, b); same(y, model(x), "the argument of linsolve"); }); break;
    case 6: keep(w, a, b, [&] { susa::matrix<float> u, s, q; susa::matrix<float> f(a.no_rows(), a.no_cols()); for (size_t i = 0; i < a.size(); i++) f(i) = a(i); const susa::matrix<float> c = f; susa::svd(c, u, s, q); same(c, model(f), "the argument of svd"); }); break;
    case 7: keep(w, v, a, [&] { M bb(1, 2, 0.5), aa(1, 2, 1.0); const M p = bb, q = aa; susa::filter(p, q, a, 3); susa::filter(p, q, v, 0); same(p, model(bb), "filter numerator"); same(q, model(aa), "filter denominator"); }); break;
    case 8: keep(w, v, v, [&] { susa::conv(v, v); }); keep(w, v, a, [&] { susa::conv(v, a); }); break;
    case 9: keep(w, v, b, [&] { susa::convmtx(v, n); }); break;
    case 10: keep(w, v, v, [&] { susa::toeplitz(v); susa::toeplitz(v, v); }); break;
    case 11: keep(w, a, v, [&] { susa::kron(a, v); }); break;
    case 12: keep(w, a, b, [&] { susa::upsample(a, 3); }); break;
    case 13: keep(w, v, b, [&] { susa::downsample(v, 1); }); break;
    case 14: keep(w, a, v, [&] { susa::sum(a); susa::sum(v); }); break;
    case 15: keep(w, a, v, [&] { susa::mean(a); susa::mean(v); }); break;
    case 16: keep(w, a, v, [&] { susa::norm(a); susa::norm(v); }); break;
    case 17: keep(w, a, v, [&] { susa::abs(a); susa::log(v); }); break;
    case 18: keep(w, a, v, [&] { susa::sign(a); susa::round(a, 1); }); break;
    case 19: keep(w, a, v, [&] { susa::min(a); susa::max(v); susa::sort(v); susa::sort_indices(v); }); break;
    case 20: { susa::fft<double> f; keep(w, a, v, [&] { f.dft(v); f.dft(a); }); break; }
    case 21: keep(w, a, v, [&] { susa::concat(a, a); }); break;
    case 22: keep(w, sq, sq, [&] { susa::matmul(sq, sq); susa::transpose(a); }); break;
    default: keep(w, a, v, [&] { susa::flipud(a); susa::fliplr(a); susa::fliplr(v); }); break;
    }
    g.nontrivial(n > 1);
}

static void property(Gen& g)
{
    uint64_t k = g.draw(15);
    switch (k)
    {
    case 0: const_args(g); return;
    case 1: history<float, std::allocator<float>>(g); return;
    case 2: history<int, std::allocator<int>>(g); return;
    case 3: history<int8_t, std::allocator<int8_t>>(g); return;
    case 4: history<uint8_t, std::allocator<uint8_t>>(g); return;
    case 5: history<std::complex<double>, std::allocator<std::complex<double>>>(g); return;
    case 6: history<std::complex<float>, std::allocator<std::complex<float>>>(g); return;
    case 7: history<double, susa::allocator_log<double>>(g); return;
    case 8: history<int, susa::allocator_log<int>>(g); return;
    case 9: history<unsigned, std::allocator<unsigned>>(g); return;
    case 10: history<std::complex<float>, susa::allocator_log<std::complex<float>>>(g); return;
    case 11: history<long, std::allocator<long>>(g); return;
    case 12: history<float, susa::allocator_log<float>>(g); return;
    default: history<double, std::allocator<double>>(g); return;
    }
}
#include "pbt_main.h"
