// One layout behind element access, views, slices and reshaping.
#include "susagen.h"
using namespace sg;

template <class M, class T> static void views(Gen& g, const char* alloc)
{
    bool big = g.once_in(3000);
    Mod<T> d; if (big) { size_t r, c; bigdims(g, r, c); if (g.once_in(3)) { r = 65530 + (size_t)g.draw(4000); c = 1; if (g.flip()) std::swap(r, c); } d = fill<T>(g, r, c, 100, true); } else d = anymod<T>(g, 100, true);
    if (g.once_in(4)) { int k = 0; for (auto& v : d.v) v = T((k++) % 120); } // distinct values show misplacement
    M m = make<M>(d);
    const M& cm = m;
    const size_t R = d.r, C = d.c, N = R * C;
    NOTE(g, "matrix<" << tname<T>() << "," << alloc << "> " << show(d) << " ");
    g.label(std::string("type:") + tname<T>());
    g.label("shape:" + shape_label(R, C));
    g.nontrivial(N > 1);

    PBT_CHECK(m.no_rows() == R && m.no_cols() == C && m.size() == N && m.shape() == std::make_tuple(R, C), "wrong shape");
    PBT_CHECK(m.is_square() == (R == C) && m.is_vector() == ((R == 1) != (C == 1)) && m.is_scalar() == (N == 1), "wrong kind of matrix for " << R << "x" << C);

    // the two addressings designate the same storage
    for (size_t i = 0; i < R; i++) for (size_t j = 0; j < C; j++)
    {
        T x = d.at(i, j);
        PBT_CHECK(&m(i, j) == &m(i + j * R), "(" << i << "," << j << ") and its linear element are different storage in " << R << "x" << C);
        PBT_CHECK(m(i, j) == x && cm(i, j) == x && cm.get(i, j) == x && cm(i + j * R) == x && cm.get(i + j * R) == x && m(i + j * R) == x,
                  "element (" << i << "," << j << ") of " << R << "x" << C << " reads differently through different accesses");
    }

    size_t steps = g.size(1, big ? 5 : 12);
    for (size_t s = 0; s < steps; s++)
    {
        uint64_t op = g.draw(13);
        size_t i = g.range(0, R - 1), j = g.range(0, C - 1);
        switch (op)
        {
        case 0: { Mod<T> e(1, C); for (size_t k = 0; k < C; k++) e.at(0, k) = d.at(i, k);
                  same(cm.row(i), e, "row(" + std::to_string(i) + ")");
                  std::vector<T> v = m.get_row_as_vec(i);
                  PBT_CHECK(v == e.v, "get_row_as_vec(" << i << ") of " << R << "x" << C); g.label("op:row"); break; }
        case 1: { Mod<T> e(R, 1); for (size_t k = 0; k < R; k++) e.at(k, 0) = d.at(k, j);
                  same(cm.col(j), e, "col(" + std::to_string(j) + ")");
                  std::vector<T> v = m.get_col_as_vec(j);
                  PBT_CHECK(v == e.v, "get_col_as_vec(" << j << ") of " << R << "x" << C); g.label("op:col"); break; }
        case 2: case 3: case 4: {
                  // left, right, mid: elements of a vector, columns of anything else
                  bool vec = d.is_vector(); size_t len = vec ? N : C, b, e;
                  const char* nm; M q;
                  auto part = [&] { size_t k = g.range(1, len); if (len > 20 && g.flip()) k = g.flip() ? 1 + k % 20 : len - k % 20; return k; }; // often nearly nothing or all
                  if (op == 2) { size_t k = part(); b = 0; e = k - 1; q = cm.left(k); nm = "left"; }
                  else if (op == 3) { size_t k = part(); b = len - k; e = len - 1; q = cm.right(k); nm = "right"; }
                  else { if (len < 2) break; b = g.range(0, len - 2); if (len > 20 && g.flip()) b = len - 2 - b % 20; e = g.range(b + 1, len - 1); q = cm.mid(b, e); nm = "mid"; }
                  Mod<T> x; size_t w = e - b + 1;
                  if (vec && C == 1) { x = Mod<T>(w, 1); for (size_t k = 0; k < w; k++) x.at(k, 0) = d.at(b + k, 0); }
                  else { x = Mod<T>(R, w); for (size_t a = 0; a < R; a++) for (size_t k = 0; k < w; k++) x.at(a, k) = d.at(a, b + k); }
                  same(q, x, std::string(nm) + " [" + std::to_string(b) + ".." + std::to_string(e) + "] of " + std::to_string(R) + "x" + std::to_string(C));
                  g.label(std::string("op:") + nm); break; }
        case 5: { if (R < 2 || C < 2) break;
                  Mod<T> x(R - 1, C - 1);
                  for (size_t a = 0; a + 1 < R; a++) for (size_t b = 0; b + 1 < C; b++) x.at(a, b) = d.at(a + (a >= i), b + (b >= j));
                  same(cm.shrink(i, j), x, "shrink(" + std::to_string(i) + "," + std::to_string(j) + ")"); g.label("op:shrink"); break; }
        case 6: { std::vector<size_t> div; for (size_t k = 1; k <= N; k++) if (N % k == 0) div.push_back(k);
                  size_t r = div[g.draw(div.size() - 1)], c = N / r;
                  Mod<T> x(r, c); for (size_t k = 0; k < N; k++) x.setlin(k, d.lin(k));
                  same(m.reshape(r, c), x, "reshape to " + std::to_string(r) + "x" + std::to_string(c)); g.label("op:reshape"); break; }
        case 7: { bool col = g.flip(); Mod<T> x = fill<T>(g, col ? C : 1, col ? 1 : C, 100, true);
                  M a = make<M>(x); PBT_CHECK(m.set_row(i, a), "set_row failed"); same(a, x, "the argument of set_row");
                  for (size_t k = 0; k < C; k++) d.at(i, k) = x.v[k]; g.label("op:set_row"); break; }
        case 8: { bool col = g.flip(); Mod<T> x = fill<T>(g, col ? R : 1, col ? 1 : R, 100, true);
                  M a = make<M>(x); PBT_CHECK(m.set_col(j, a), "set_col failed"); same(a, x, "the argument of set_col");
                  for (size_t k = 0; k < R; k++) d.at(k, j) = x.v[k]; g.label("op:set_col"); break; }
        case 9: { size_t k = g.range(0, R - 1); m.swap_rows(i, k);
                  for (size_t b = 0; b < C; b++) { T t = d.at(i, b); d.at(i, b) = (T)d.at(k, b); d.at(k, b) = t; } g.label("op:swap_rows"); break; }
        case 10: { size_t k = g.range(0, C - 1); m.swap_cols(j, k);
                  for (size_t a = 0; a < R; a++) { T t = d.at(a, j); d.at(a, j) = (T)d.at(a, k); d.at(a, k) = t; } g.label("op:swap_cols"); break; }
        case 11: { T x = scalar<T>(g, 100, true); m(i, j) = x; d.at(i, j) = x; g.label("op:write"); break; }
        case 12: { T x = scalar<T>(g, 100, true); size_t k = g.range(0, N - 1); m(k) = x; d.setlin(k, x); g.label("op:write linear"); break; }
        default: { if (g.once_in(4)) { T x = scalar<T>(g, 100, true); m.set_all(x); for (auto& v : d.v) v = x; g.label("op:set_all"); } break; }
        }
        same(m, d, "after operation " + std::to_string(op));
    }
    // the linear elements are in order too
    for (size_t k = 0; k < N; k++) PBT_CHECK(cm(k) == d.lin(k), "linear element " << k << " of " << R << "x" << C);
    g.weight = N + steps;
}

template <class T> static void both(Gen& g)
{
    if (g.once_in(3)) views<susa::matrix<T, susa::allocator_log<T>>, T>(g, "log");
    else views<susa::matrix<T>, T>(g, "std");
}
static void property(Gen& g)
{
    with_type<double, int, float, int8_t, uint8_t, std::complex<double>, std::complex<float>, unsigned, bool>(g, [&](auto t) {
        if constexpr (std::is_same<decltype(t), bool>::value) views<susa::matrix<double>, double>(g, "std");
        else both<decltype(t)>(g); });
}
#include "pbt_main.h"
