// Shortest paths against relaxation of every edge.
#include "susagen.h"
using namespace sg;

template <class T> static void one(Gen& g)
{
    size_t n = g.once_in(900) ? g.range(66, 300) : g.once_in(12) ? g.range(1, 40) : g.range(1, 9); Mod<T> w(n, n, T(0)); uint64_t style = g.draw(5); unsigned dens = (unsigned)g.range(1, 6);
    const bool fl = std::is_floating_point<T>::value; int64_t mag = style == 0 ? 2 : style == 1 ? 1000000000 : style == 2 ? 1 : 20; if (std::is_same<T, uint8_t>::value && mag > 255) mag = 255;
    if (std::is_same<T, float>::value && mag > 1000) mag = 1000;
    Gen bg; bool bulk = n > 9; if (bulk) bg.rng = g.bulk(); pbt::Status* st = pbt::status(); if (bulk) pbt::status() = nullptr; Gen& d = bulk ? bg : g;
    for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++)
        if (d.draw(5) < dens) { T x = fl ? (T)(d.range(1, 8 * mag)) / (T)8 : (T)d.range(1, mag); w.at(i, j) = x; }
    if (style == 4) for (size_t i = 0; i + 1 < n; i++) { for (size_t j = 0; j < n; j++) if (j > i + 1) w.at(i, j) = w.at(i, j) ? (T)100 : T(0); w.at(i, i + 1) = fl ? (T)0.125 : T(1); } // long cheap paths
    if (style == 5) for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) w.at(i, j) = w.at(j, i); // undirected
    if (bulk) pbt::status() = st;
    size_t src = g.draw(n - 1);
    NOTE(g, "dijkstra<" << tname<T>() << "> from " << src << " in " << show(w)); g.label(tname<T>()); g.label(n == 1 ? "one vertex" : n < 10 ? "2-9 vertices" : n <= 40 ? "10-40 vertices" : "66-300 vertices"); g.nontrivial(n > 2); g.weight = n * n;
    const long double INF = 1e300L; std::vector<long double> dist(n, INF); dist[src] = 0;
    for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (dist[i] < INF) for (size_t j = 0; j < n; j++) if (w.at(i, j) != T(0)) dist[j] = std::min(dist[j], dist[i] + (long double)w.at(i, j));
    auto W = make<susa::matrix<T>>(w); auto p = susa::dijkstra(W, (unsigned)src);
    same(W, w, "the graph"); PBT_CHECK(p.size() == n, "dijkstra returns " << p.size() << " predecessors for " << n << " vertices");
    size_t reach = 0, hops = 0;
    for (size_t v = 0; v < n; v++)
    {
        if (v == src || dist[v] >= INF) continue;
        reach++; size_t x = v, k = 0; long double sum = 0;
        while (x != src)
        {
            size_t y = p(x); PBT_CHECK(y < n, "dijkstra from " << src << " in " << show(w) << ": the predecessor of " << x << " is " << y);
            PBT_CHECK(w.at(y, x) != T(0), "dijkstra from " << src << " in " << show(w) << ": the predecessor of " << x << " is " << y << ", there is no such edge");
            sum += (long double)w.at(y, x); x = y; PBT_CHECK(++k <= n, "dijkstra from " << src << " in " << show(w) << ": the path to " << v << " does not lead to the source");
        }
        hops = std::max(hops, k);
        PBT_CHECK(sum == dist[v], "dijkstra from " << src << " in " << show(w) << ": the path to " << v << " has the length " << (double)sum << " instead of " << (double)dist[v]);
    }
    g.label(reach + 1 == n ? "all reachable" : reach ? "some unreachable" : "nothing reachable"); if (hops > 3) g.label("paths of four and more edges");
}
static void property(Gen& g) { with_type<double, unsigned, int, float, uint8_t, long long>(g, [&](auto t) { one<decltype(t)>(g); }); }
#include "pbt_main.h"
