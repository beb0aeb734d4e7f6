// Random requests on one side or the other of the preconditions of the library.
#ifndef REQUESTS_H
#define REQUESTS_H
#include "susagen.h"
#include <functional>
using namespace sg;

struct Req
{
    std::string what; bool valid = true; std::function<void()> call; bool any = false /* may be stopped or not */, element = false, resizes = false; // reads one element into sink
    std::vector<std::function<std::string()>> operands; // what they hold, as text
    template <class P> void watch(const P& m) { operands.push_back([m] { std::ostringstream o; o.precision(17); o << m->no_rows() << "x" << m->no_cols() << ":"; for (size_t i = 0; i < m->size(); i++) o << " " << pbt::str((*m)(i)); return o.str(); }); }
    std::string state() const { std::string s; for (auto& f : operands) s += f() + "|"; return s; }
};

// an index at or around a bound n: valid means < n
static size_t index_for(Gen& g, size_t n, bool valid)
{
    if (valid) return g.flip() ? n - 1 : (size_t)g.range(0, n - 1);
    switch (g.draw(5))
    {
    case 0: return n;
    case 1: return n + 1;
    case 2: return n + g.size(0, 40);
    case 3: return SIZE_MAX;
    case 4: return SIZE_MAX - g.draw(8);
    default: return (size_t)1 << g.range(31, 62);
    }
}
static volatile double sink; static bool consistent = true;
template <class T> static void use(const T& x) { sink = std::abs(cd(x)); }
template <class T, class A> static void use(const susa::matrix<T, A>& x)
{ consistent = consistent && x.size() == x.no_rows() * x.no_cols(); for (size_t i = 0; i < x.size(); i++) use((T)x(i)); }

template <class T, class A> static Req on_matrix(Gen& g)
{
    typedef susa::matrix<T, A> M;
    Req q; q.valid = g.flip();
    const bool v = q.valid;
    size_t R, C; dims(g, R, C, 12);
    uint64_t op = g.draw(29);
    std::shared_ptr<M> m = std::make_shared<M>(make<M>(fill<T>(g, R, C)));
    q.watch(m);
    std::ostringstream w; w << "matrix<" << tname<T>() << "> " << R << "x" << C << ": ";
    auto pair = [&](size_t& i, size_t& j) {
        if (v) { i = index_for(g, R, true); j = index_for(g, C, true); return; }
        uint64_t k = g.draw(3);
        if (k == 0) { i = index_for(g, R, true); j = index_for(g, C, false); }
        else if (k == 1) { i = index_for(g, R, false); j = index_for(g, C, true); }
        else if (k == 2) { i = R + g.size(0, 3); j = 0; } // its linear index may well be inside
        else { i = index_for(g, R, false); j = index_for(g, C, false); }
    };
    size_t i = 0, j = 0;
    switch (op)
    {
    case 0: { pair(i, j); bool wr = g.flip(); q.element = true; w << (wr ? "write, read" : "read") << " (" << i << "," << j << ")"; T x = scalar<T>(g, 5); bool cr = g.flip();
              q.call = [=] { const M& c = *m; if (wr) (*m)(i, j) = x; if (cr) use(c(i, j)); else use((*m)(i, j)); }; break; }
    case 1: { pair(i, j); q.element = true; w << "const read (" << i << "," << j << ")"; q.call = [=] { const M& c = *m; use(c(i, j)); }; break; }
    case 2: { pair(i, j); q.element = true; w << "get(" << i << "," << j << ")"; q.call = [=] { use(m->get(i, j)); }; break; }
    case 3: { i = index_for(g, R * C, v); bool wr = g.flip(); q.element = true; w << (wr ? "write, read" : "read") << " element " << i; T x = scalar<T>(g, 5); bool cr = g.flip();
              q.call = [=] { const M& c = *m; if (wr) (*m)(i) = x; if (cr) use(c(i)); else use((*m)(i)); }; break; }
    case 4: { i = index_for(g, R * C, v); q.element = true; w << "const read element " << i; q.call = [=] { const M& c = *m; use(c(i)); }; break; }
    case 5: { i = index_for(g, R * C, v); q.element = true; w << "get(" << i << ")"; q.call = [=] { use(m->get(i)); }; break; }
    case 6: { i = index_for(g, R, v); w << "row(" << i << ")"; q.call = [=] { use(m->row(i)); }; break; }
    case 7: { i = index_for(g, C, v); w << "col(" << i << ")"; q.call = [=] { use(m->col(i)); }; break; }
    case 8: { i = index_for(g, R, v); w << "get_row_as_vec(" << i << ")"; q.call = [=] { for (T x : m->get_row_as_vec(i)) use(x); }; break; }
    case 9: { i = index_for(g, C, v); w << "get_col_as_vec(" << i << ")"; q.call = [=] { for (T x : m->get_col_as_vec(i)) use(x); }; break; }
    case 10: case 11: {
        bool row = op == 10; size_t len = row ? C : R, n = row ? R : C, l = len; i = index_for(g, n, true);
        if (!v) { if (len > 1 && g.flip()) l = g.range(1, len - 1); else if (g.once_in(4)) l = 0; else i = index_for(g, n, false); }
        bool col = g.flip();
        std::shared_ptr<M> a = std::make_shared<M>(make<M>(l == 0 ? Mod<T>() : fill<T>(g, col ? l : 1, col ? 1 : l))); q.watch(a);
        w << (row ? "set_row(" : "set_col(") << i << ", vector of " << l << ")";
        q.call = [=] { if (row) m->set_row(i, *a); else m->set_col(i, *a); }; break; }
    case 12: case 13: {
        bool row = op == 12; size_t n = row ? R : C; i = index_for(g, n, true); j = index_for(g, n, v); if (g.flip()) std::swap(i, j);
        w << (row ? "swap_rows(" : "swap_cols(") << i << "," << j << ")"; q.call = [=] { if (row) m->swap_rows(i, j); else m->swap_cols(i, j); }; break; }
    case 14: case 15: {
        bool vec = (R == 1) != (C == 1); size_t len = vec ? R * C : C, l;
        if (v) l = g.flip() ? len : (size_t)g.range(1, len); else l = g.once_in(5) ? 0 : len + g.size(1, 10);
        w << (op == 14 ? "left(" : "right(") << l << ")"; bool left = op == 14;
        q.call = [=] { use(left ? m->left(l) : m->right(l)); }; break; }
    case 16: {
        bool vec = (R == 1) != (C == 1); size_t len = vec ? R * C : C, b, e;
        if (v) { if (len < 2) { w << "size()"; q.call = [=] { use((double)m->size()); }; break; } b = g.range(0, len - 2); e = g.flip() ? len - 1 : (size_t)g.range(b + 1, len - 1); }
        else if (len > 0 && g.once_in(3)) { b = g.range(0, len - 1); e = g.range(0, b); if (e == b) { if (e) e--; else e = len; } } else { b = g.range(0, len); e = std::max(len, b + 1) + g.size(0, 10); }
        w << "mid(" << b << "," << e << ")"; q.call = [=] { use(m->mid(b, e)); }; break; }
    case 17: {
        if (v) { if (R < 2 || C < 2) { q.call = [=] { use((double)m->no_rows()); }; w << "no_rows()"; break; } i = index_for(g, R, true); j = index_for(g, C, true); }
        else if (R < 2 || C < 2) { i = index_for(g, R, true); j = index_for(g, C, true); }
        else { if (g.flip()) { i = index_for(g, R, false); j = index_for(g, C, true); } else { i = index_for(g, R, true); j = index_for(g, C, false); } }
        w << "shrink(" << i << "," << j << ")"; q.call = [=] { use(m->shrink(i, j)); }; break; }
    case 18: {
        std::vector<size_t> div; for (size_t k = 1; k <= R * C; k++) if (R * C % k == 0) div.push_back(k);
        i = div[g.draw(div.size() - 1)]; j = R * C / i;
        if (!v) { uint64_t k = g.draw(3); if (k == 0) i++; else if (k == 1) j += g.size(1, 4); else if (k == 2) { if (i > 1) i--; else j++; } else { i = 0; } }
        if (!v && R * C % 2 == 0 && g.once_in(4)) { int a = 1; while (a < 20 && R * C % ((size_t)2 << a) == 0 && g.flip()) a++; j = (size_t)1 << a; i = R * C / j + ((size_t)1 << (64 - a)); } // equal only modulo 2^64
        w << "reshape(" << i << "," << j << ")"; q.call = [=] { use(m->reshape(i, j)); }; break; }
    case 19: case 20: case 21: {
        size_t r = R, c = C; 
        if (!v) { uint64_t k = g.draw(4);
            if (k == 0) r = R + g.size(1, 4); else if (k == 1) c = C + g.size(1, 4);
            else if (k == 2) { if (R > 1) r = g.range(1, R - 1); else r++; } else if (k == 3) { if (C > 1) c = g.range(1, C - 1); else c++; }
            else { if (R != C) std::swap(r, c); else { r = R * C; c = 1; if (R == 1) r = 2; } } } // the same number of elements
        std::shared_ptr<M> a = std::make_shared<M>(make<M>(fill<T>(g, r, c)));
        for (size_t k = 0; k < a->size(); k++) if ((*a)(k) == T(0)) (*a)(k) = T(1);
        q.watch(a);
        int o = (int)g.draw(5); static const char* nm[] = {"+", "-", "*", "/", "+=", "-="};
        w << "m " << nm[o] << " (" << r << "x" << c << ")";
        q.call = [=] { switch (o) { case 0: use(*m + *a); break; case 1: use(*m - *a); break; case 2: use(*m * *a); break; case 3: use(*m / *a); break;
                                    case 4: *m += *a; break; default: *m -= *a; } }; break; }
    case 22: case 23: {
        size_t r = C, c = g.size(1, 6);
        if (!v) { uint64_t k = g.draw(2); if (k == 0) r = C + g.size(1, 3); else if (k == 1) { if (C > 1) r = g.range(1, C - 1); else r = 2; } else { r = R != C ? R : C + 1; c = C; } }
        bool empty = !v && g.once_in(6), first = g.flip();
        std::shared_ptr<M> a = std::make_shared<M>(empty ? M() : make<M>(fill<T>(g, r, c))); q.watch(a);
        w << "matmul by " << (empty ? "an empty matrix" : std::to_string(r) + "x" + std::to_string(c));
        q.call = [=] { use(empty && first ? susa::matmul(*a, *m) : susa::matmul(*m, *a)); }; break; }
    case 24: { // zero dimensions, and sizes whose number of elements exceeds the address space
        i = g.size(1, 6); j = g.size(1, 6); if (!v) { uint64_t k = g.draw(3); if (k == 3) { int a = (int)g.range(1, 32); j = (size_t)1 << a; i = ((size_t)1 << (64 - a)) + (size_t)g.range(0, 4); if (g.flip()) std::swap(i, j); g.label("unrepresentable size"); } else { if (k != 1) i = 0; if (k != 0) j = 0; } }
        int form = (int)g.draw(5); T x = scalar<T>(g, 5); q.resizes = form == 4;
        static const char* nm[] = {"matrix(", "matrix of value(", "matrix(tuple ", "matrix of value(tuple ", "resize(", "resize of an empty matrix("};
        w << nm[form] << i << "," << j << ")";
        q.call = [=] { switch (form) {
            case 0: { M n(i, j); use((double)n.size()); break; } case 1: { M n(i, j, x); use(n); break; }
            case 2: { M n(std::make_tuple(i, j)); use((double)n.size()); break; } case 3: { M n(std::make_tuple(i, j), x); use(n); break; }
            case 4: m->resize(i, j); break; default: { M n; n.resize(i, j); use((double)n.size()); } } }; break; }
    case 25: { // operations on an empty matrix
        std::shared_ptr<M> a = std::make_shared<M>(v ? *m : M()); q.watch(a);
        int form = (int)g.draw(10); static const char* nm[] = {"(0,0)", "const (0,0)", "(0)", "const (0)", "get(0)", "transpose", "left(1)", "right(1)", "row(0)", "col(0)", "swap_rows(0,0)"};
        w << nm[form] << (v ? "" : " of an empty matrix");
        q.call = [=] { const M& c = *a; switch (form) { case 0: use((*a)(0, 0)); break; case 1: use(c(0, 0)); break; case 2: use((*a)(0)); break; case 3: use(c(0)); break;
            case 4: use(c.get(0)); break; case 5: use(susa::transpose(c)); break; case 6: use(c.left(1)); break; case 7: use(c.right(1)); break; case 8: use(c.row(0)); break;
            case 9: use(c.col(0)); break; default: a->swap_rows(0, 0); } }; break; }
    case 26: { // compound assignment to or of an empty matrix
        std::shared_ptr<M> a = std::make_shared<M>(v ? *m : M()); q.watch(a); int form = (int)g.draw(3);
        w << (form < 2 ? "+=" : "-=") << " with " << (v ? "an equal shape" : "an empty matrix");
        q.call = [=] { M n = *m; switch (form) { case 0: n += *a; break; case 1: *a += n; break; case 2: n -= *a; break; default: *a -= n; } }; break; }
    case 27: { // decompositions of non-square matrices
        if constexpr (std::is_same<T, double>::value || std::is_same<T, float>::value) {
            size_t r = R, c = R; if (!v) { if (g.flip()) c = R + g.size(1, 3); else r = R + g.size(1, 3); }
            auto a = std::make_shared<susa::matrix<T>>(make<susa::matrix<T>>(fill<T>(g, r, c))); q.watch(a); int form = (int)g.draw(3);
            static const char* nm[] = {"lu", "lup", "inv", "lup (alternative)"}; w << nm[form] << " of " << r << "x" << c;
            q.call = [=] { switch (form) { case 0: { susa::lu<T> l(*a); sink = l.decompose(); break; } case 1: { susa::lup<T> l(*a); sink = l.decompose(); break; }
                case 2: use(susa::inv(*a)); break; default: { susa::lup<T> l(*a); sink = l.decompose_alt(); } } };
        } else { w << "(0)"; q.valid = true; q.call = [=] { use((*m)(0)); }; }
        break; }
    case 28: { // convolution
        bool vec = v; size_t r = R, c = C;
        if (!v) { R = g.range(2, 5); C = g.range(2, 5); *m = make<M>(fill<T>(g, R, C)); r = g.range(2, 5); c = g.range(2, 5); }
        else if (g.flip()) { r = 1; c = g.size(1, 6); } else { r = g.size(1, 6); c = 1; }
        (void)vec;
        auto a = std::make_shared<M>(make<M>(fill<T>(g, r, c))); q.watch(a); w << "conv of " << R << "x" << C << " and " << r << "x" << c;
        bool sw = g.flip(); q.call = [=] { use(sw ? susa::conv(*a, *m) : susa::conv(*m, *a)); }; break; }
    default: { size_t r = R, c = C, len = g.size(1, 6); if (v) { if (g.flip()) { r = 1; c = g.size(2, 8); } else { c = 1; r = g.size(2, 8); } }
        else if (g.once_in(3)) r = c = 1; else { r = g.range(2, 5); c = g.range(2, 5); }
        auto a = std::make_shared<M>(make<M>(fill<T>(g, r, c))); q.watch(a); w << "convmtx of " << r << "x" << c;
        q.call = [=] { use(susa::convmtx(*a, len)); }; break; }
    }
    g.label(std::string(v ? "valid:" : "invalid:") + std::to_string(op));
    q.what = w.str(); return q;
}

template <class T> static Req on_search(Gen& g)
{
    typedef susa::matrix<T> M; typedef susa::matrix<unsigned> U;
    Req q; q.valid = g.flip(); bool v = q.valid; std::ostringstream w;
    uint64_t op = g.draw(6); static const char* nm[] = {"sort", "sort_indices", "find", "select_least", "select_most", "select_limited_least", "dijkstra"};
    size_t n = g.size(2, 12);
    auto vec = [&](size_t k) { return g.flip() ? fill<T>(g, 1, k) : fill<T>(g, k, 1); };
    auto non = [&] { return g.once_in(3) ? fill<T>(g, 1, 1) : g.once_in(5) ? Mod<T>() : fill<T>(g, g.range(2, 5), g.range(2, 5)); };
    auto a = std::make_shared<M>(); q.watch(a);
    size_t k = g.range(1, n - 1);
    auto lim = std::make_shared<U>(n, 1); for (size_t i = 0; i < n; i++) (*lim)(i) = (unsigned)i;
    if (op == 6)
    {
        size_t r = g.size(1, 6), c = r; if (!v) { if (g.flip()) c += g.size(1, 3); else r += g.size(1, 3); }
        Mod<T> d = fill<T>(g, r, c, 9); for (auto& x : d.v) if (x < T(0)) x = -x;
        *a = make<M>(d); unsigned s = (unsigned)g.range(0, r - 1); w << "dijkstra " << r << "x" << c << " from " << s;
        if (v && !g.flip()) { s = (unsigned)(r + g.size(0, 5)); q.valid = false; w << " -> " << s; }
        q.call = [=] { use(susa::dijkstra(*a, s)); };
    }
    else
    {
        if (v) *a = make<M>(vec(n));
        else if (op < 3 || g.flip()) *a = make<M>(non());
        else
        {
            *a = make<M>(vec(n)); k = n + g.size(0, 3);
            if (op == 5 && g.flip()) { if (g.flip()) { k = g.range(2, n - 1 > 2 ? n - 1 : 2); if (k >= n) { k = n; } else { *lim = U((size_t)g.range(1, k - 1), 1, 0u); for (size_t i = 0; i < lim->size(); i++) (*lim)(i) = (unsigned)i; } }
                                       else { k = g.range(1, n - 1); (*lim)(g.range(0, n - 1)) = (unsigned)std::min<size_t>(index_for(g, n, false), UINT_MAX); } }
        }
        // a candidate list whose members, beyond the first k, are out of range is still invalid when they are compared
        if (!v && op == 5 && a->is_vector() && k < n) { /* every candidate is looked at in the first round */ }
        w << nm[op] << " of " << a->no_rows() << "x" << a->no_cols(); if (op > 2) w << ", " << k; if (op == 5) w << " among " << show(*lim);
        q.call = [=] { switch (op) { case 0: use(susa::sort(*a)); break; case 1: use(susa::sort_indices(*a)); break;
            case 2: { T x = T(1); sink = susa::find(*a, x).exists(0); break; } case 3: use(susa::select_least(*a, (unsigned)k)); break;
            case 4: use(susa::select_most(*a, (unsigned)k)); break; default: use(susa::select_limited_least(*a, *lim, (unsigned)k)); } };
    }
    g.label(std::string(q.valid ? "valid:" : "invalid:") + nm[op]);
    q.what = w.str(); return q;
}

static Req on_misc(Gen& g)
{
    Req q; q.valid = g.flip(); bool v = q.valid; std::ostringstream w;
    uint64_t op = g.draw(5);
    switch (op)
    {
    case 0: { // fft
        size_t n = (size_t)1 << g.range(1, 7);
        if (!v) { do n = g.size(3, 130); while ((n & (n - 1)) == 0); }
        Mod<double> d = g.flip() ? fill<double>(g, n, 1) : fill<double>(g, 1, n);
        auto a = std::make_shared<susa::matrix<double>>(make<susa::matrix<double>>(d));
        auto f = std::make_shared<susa::fft<double>>(); w << "radix2 of " << d.r << "x" << d.c; g.label(v ? "valid:fft" : "invalid:fft");
        q.call = [=] { use(f->radix2(*a)); }; break; }
    case 1: { // codes
        unsigned n = (unsigned)g.range(1, 8), k = 1, m = (unsigned)g.range(1, 31);
        if (!v) { uint64_t x = g.draw(3); if (x == 0) k = g.flip() ? 0 : (unsigned)g.range(2, 5); else if (x == 1) m = 0; else m = x == 2 ? 32 : (unsigned)g.range(32, 80); }
        w << "ccode(" << n << "," << k << "," << m << ")"; g.label(v ? "valid:ccode" : "invalid:ccode");
        q.call = [=] { susa::ccode c(n, k, m); c.set_generator(7, 0); }; break; }
    case 2: { unsigned n = (unsigned)g.range(1, 8); unsigned id = v ? (g.flip() ? n - 1 : (unsigned)g.range(0, n - 1)) : n + (unsigned)g.size(0, 20);
        if (!v && g.once_in(5)) id = UINT_MAX;
        w << "ccode of " << n << " outputs: set_generator(7," << id << ")"; g.label(v ? "valid:generator" : "invalid:generator");
        q.call = [=] { susa::ccode c(n, 1, 3); c.set_generator(7, id); }; break; }
    case 3: { int ord = v ? 2 * (int)g.range(0, 40) + 1 : (g.flip() ? 2 * (int)g.range(0, 40) : -(int)g.range(0, 41)); double L = (double)g.range(1, 8), b = g.real(0.05, 1);
        w << "rrcosine(" << L << "," << b << "," << ord << ")"; g.label(v ? "valid:rrcosine" : "invalid:rrcosine");
        q.call = [=] { susa::rrcosine f(L, b, ord); use(f.get()); }; break; }
    default: { // arrays: an element past the last one, too many indices
        size_t nd = g.range(1, 4); std::vector<size_t> dm(nd); size_t tot = 1; for (auto& x : dm) { x = g.size(1, 5); tot *= x; }
        auto mk = [](const std::vector<size_t>& d) { switch (d.size()) { case 1: return std::make_shared<susa::array<double>>(std::initializer_list<size_t>{d[0]});
            case 2: return std::make_shared<susa::array<double>>(std::initializer_list<size_t>{d[0], d[1]}); case 3: return std::make_shared<susa::array<double>>(std::initializer_list<size_t>{d[0], d[1], d[2]});
            default: return std::make_shared<susa::array<double>>(std::initializer_list<size_t>{d[0], d[1], d[2], d[3]}); } };
        auto a = mk(dm); q.operands.push_back([=] { std::string s; susa::array<double>& m = *a; for (size_t l = 0; l < tot; l++) s += pbt::str((double)m(l)) + " "; return s; }); { std::vector<double> z(tot, 1.0); a->clone(z.data(), tot); }
        std::vector<size_t> ix(nd); for (size_t i = 0; i < nd; i++) ix[i] = g.flip() ? dm[i] - 1 : (size_t)g.range(0, dm[i] - 1);
        if (!v) { if (g.flip()) { ix[nd - 1] = dm[nd - 1] + g.size(0, 5); for (size_t i = 0; i + 1 < nd; i++) if (g.flip()) ix[i] = 0; } // the linear index is past the end
                  else { ix.push_back(0); } } // one index too many
        else if (nd > 1 && g.once_in(3)) ix.resize(g.range(1, nd)); // fewer indices
        int form = (int)g.draw(5); static const char* nm[] = {"operator()", "const operator()", "get(vector)", "get(list)", "get(...)", "write"}; bool wr = form < 5 && g.once_in(3);
        q.element = form < 5; if (wr) w << "write, then ";
        w << "array" << pbt::str(dm) << " " << nm[form] << pbt::str(ix); g.label(std::string(v ? "valid:array " : "invalid:array ") + nm[form]);
        q.call = [=] {
            susa::array<double>& m = *a; const susa::array<double>& c = *a; size_t n = ix.size(); double x = 0;
#define IX(OBJ, F) (n == 1 ? OBJ F(ix[0]) : n == 2 ? OBJ F(ix[0], ix[1]) : n == 3 ? OBJ F(ix[0], ix[1], ix[2]) : n == 4 ? OBJ F(ix[0], ix[1], ix[2], ix[3]) : OBJ F(ix[0], ix[1], ix[2], ix[3], ix[4]))
            if (wr) IX(m, ) = 4.5;
            switch (form)
            {
            case 0: x = IX(m, ); break;
            case 1: x = IX(c, ); break;
            case 2: x = c.get(ix); break;
            case 3: x = n == 1 ? c.get({ix[0]}) : n == 2 ? c.get({ix[0], ix[1]}) : n == 3 ? c.get({ix[0], ix[1], ix[2]}) : n == 4 ? c.get({ix[0], ix[1], ix[2], ix[3]}) : c.get({ix[0], ix[1], ix[2], ix[3], ix[4]}); break;
            case 4: x = IX(m, .get); break;
            default: IX(m, ) = 4.5;
            }
            sink = x; };
        break; }
    }
    q.what = w.str(); return q;
}

// free functions with operands of any shape, also empty ones: whatever the request, no memory is touched out of bounds
template <class T> static Req on_any(Gen& g)
{
    typedef susa::matrix<T> M; typedef std::complex<T> C; typedef susa::matrix<C> MC; Req q; q.any = true; q.valid = false; std::ostringstream w;
    auto shape = [&](size_t& r, size_t& c) { switch (g.draw(5)) { case 0: r = c = 0; break; case 1: r = c = 1; break; case 2: r = 1; c = g.size(1, 6); break; case 3: c = 1; r = g.size(1, 6); break; default: r = g.size(1, 6); c = g.size(1, 6); } };
    size_t r1, c1, r2, c2, r3, c3; shape(r1, c1); shape(r2, c2); shape(r3, c3); if (g.once_in(3)) { r2 = r1; c2 = c1; }
    auto a = std::make_shared<M>(make<M>(fill<T>(g, r1, c1))), b = std::make_shared<M>(make<M>(fill<T>(g, r2, c2))), x = std::make_shared<M>(make<M>(fill<T>(g, r3, c3))); auto z = std::make_shared<MC>(make<MC>(fill<C>(g, r1, c1)));
    q.watch(a); q.watch(b); q.watch(x); q.watch(z); size_t k = g.size(1, 5);
    static const struct { const char* n; void (*f)(M&, M&, M&, MC&, size_t); } F[] = {
#define REQ(NAME, ...) {NAME, [](M& a, M& b, M& x, MC& z, size_t k) { __VA_ARGS__; }}
        REQ("transpose", use(susa::transpose(a))), REQ("hermitian", use(susa::hermitian(z))), REQ("det", use(susa::det(a))), REQ("concat", use(susa::concat(a, b))), REQ("fliplr", use(susa::fliplr(a))), REQ("flipud", use(susa::flipud(a))),
        REQ("matmul", use(susa::matmul(a, b))), REQ("conv", use(susa::conv(a, b))), REQ("convmtx", use(susa::convmtx(a, k))), REQ("toeplitz", use(susa::toeplitz(a, b))), REQ("symmetric toeplitz", use(susa::toeplitz(a))),
        REQ("kron", use(susa::kron(a, b))), REQ("upsample", use(susa::upsample(a, k))), REQ("downsample", use(susa::downsample(a, k))), REQ("filter", use(susa::filter(a, b, x))), REQ("filter with a tail", use(susa::filter(a, b, x, k))),
        REQ("norm", use(susa::norm(a))), REQ("real", use(susa::real(z))), REQ("imag", use(susa::imag(z))), REQ("mag", use(susa::mag(z))), REQ("to_complex", use(susa::to_complex(a))), REQ("abs", use(susa::abs(a))), REQ("complex abs", use(susa::abs(z))),
        REQ("conj", use(susa::conj(z))), REQ("sign", use(susa::sign(a))), REQ("sum", use(susa::sum(a))), REQ("mean", use(susa::mean(a))), REQ("min", use(susa::min(a))), REQ("max", use(susa::max(a))), REQ("log", use(susa::log(a))),
        REQ("sort", use(susa::sort(a))), REQ("sort_indices", use(susa::sort_indices(a))), REQ("select_least", use(susa::select_least(a, (unsigned)k))), REQ("select_most", use(susa::select_most(a, (unsigned)k))), REQ("find", T v = 1; sink = susa::find(a, v).exists(k)),
        REQ("lu", susa::lu<T> l(a); sink = l.decompose(); use(l.get_lower()); use(l.get_upper())), REQ("lup", susa::lup<T> l(a); sink = l.decompose(); use(l.solve(b))), REQ("lup (alternative)", susa::lup<T> l(a); sink = l.decompose_alt()),
        REQ("lup inverse", susa::lup<T> l(a); if (l.decompose()) use(l.invert())), REQ("inv", use(susa::inv(a))), REQ("linsolve", use(susa::linsolve(a, b))), REQ("rank", sink = susa::rank(a)), REQ("radix2", susa::fft<T> f; use(f.radix2(a))), REQ("dft", susa::fft<T> f; use(f.dft(a))),
        REQ("dijkstra", M n = a; for (size_t i = 0; i < n.size(); i++) if (n(i) < 0) n(i) = -n(i); use(susa::dijkstra(n, (unsigned)k - 1))), REQ("svd", susa::matrix<float> A(a), U, S, V; susa::svd(A, U, S, V); use(U); use(S); use(V)), REQ("awgn", use(susa::awgn(a, 3.0f))),
        REQ("+", use(a + b)), REQ("*", use(a * b)), REQ("+=", M t = a; t += b; use(t)), REQ("-=", M t = a; t -= b; use(t)), REQ("scalar +", use(a + T(2))), REQ("scalar -", use(T(2) - a)), REQ("==", sink = a == b), REQ("set_all", M t = a; t.set_all(T(3)); use(t)),
        REQ("assignment", M t = a; t = b; use(t)), REQ("set_row", M t = a; t.set_row(k - 1, b); use(t)), REQ("set_col", M t = a; t.set_col(k - 1, b); use(t)), REQ("moved from", M t = a; M u = std::move(t); use(t); use(t + t); use(t(0)); t(0, 0) = T(1); use(t.row(0)); t = b; use(t)),
        REQ("left", use(a.left(k))), REQ("right", use(a.right(k))), REQ("mid", use(a.mid(k - 1, k + 1))), REQ("reshape", use(a.reshape(k, 2))), REQ("resize", M t = a; t.resize(k, k); sink = t.size() == k * k), REQ("row vector", for (T v : a.get_row_as_vec(k - 1)) use(v)), REQ("shrink", use(a.shrink(k - 1, k - 1))),
        REQ("channel", if (a.size() == 0 || b.size() == 0 || std::pow((double)b.size(), (double)a.size()) > 3000) return; susa::channel<T> h(a, b); use(h.encode_isi(x, (unsigned)k - 1))), REQ("conversion", susa::matrix<int> i(a); use(i)), REQ("print", std::ostringstream o; o << a << z; sink = o.str().size()),
#undef REQ
    };
    size_t i = g.draw(sizeof F / sizeof *F - 1); auto f = F[i].f; w << F[i].n << " of " << r1 << "x" << c1 << ", " << r2 << "x" << c2 << ", " << r3 << "x" << c3 << ", " << k; g.label(std::string("any:") + F[i].n);
    q.call = [=] { f(*a, *b, *x, *z, k); }; q.what = w.str(); return q;
}

static Req request(Gen& g)
{
    Req q;
    uint64_t k = g.draw(6);
    if (k <= 2) with_type<double, int, std::complex<double>, float, uint8_t>(g, [&](auto t) { typedef decltype(t) T;
        if (g.once_in(4)) q = on_matrix<T, susa::allocator_log<T>>(g); else q = on_matrix<T, std::allocator<T>>(g); });
    else if (k == 3) { if (g.flip()) q = on_search<double>(g); else q = on_search<int>(g); }
    else if (k <= 5) q = on_misc(g);
    else if (g.flip()) q = on_any<double>(g); else q = on_any<float>(g);
    NOTE(g, q.what << (q.any ? "" : q.valid ? " (valid)" : " (invalid)"));
    return q;
}
#endif
