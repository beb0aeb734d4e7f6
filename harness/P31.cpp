// What a call gives depends on its operands only: not on earlier calls, not on other threads that
// use objects of their own or only read shared ones.
#include "operations.h"
#include <atomic>
#include <thread>
using namespace sg;
using namespace ops;

struct Step { size_t op; uint64_t seed; size_t scale; };
static void property(Gen& g)
{
    size_t threads = (size_t)g.range(2, 4); std::vector<std::vector<Step>> prog(threads); std::ostringstream w; uint64_t shared_seed = g.draw(1000); bool same = g.flip(); size_t common = g.draw(NOPS - 1); std::unordered_set<size_t> distinct;
    for (size_t t = 0; t < threads; t++)
    {
        int n = (int)g.range(1, 3); w << (t ? " | " : "");
        for (int i = 0; i < n; i++)
        {
            Step st; st.op = same ? common : g.draw(NOPS - 1); st.seed = g.draw(100000); st.scale = g.once_in(200) ? 80 : g.once_in(10) ? 24 : g.size(0, 5); prog[t].push_back(st); distinct.insert(st.op);
            w << OPS[st.op].name << "#" << st.seed << "/" << st.scale << ", "; g.label(OPS[st.op].name);
        }
    }
    NOTE(g, threads << " threads: " << w.str());
    const Shared shared(Src(shared_seed, 3));
    auto run = [&](const Step& st) { Src s(st.seed, st.scale); Digest d; OPS[st.op].f(s, shared, d); return d.h; };
    std::vector<std::vector<uint64_t>> want(threads), got(threads);
    for (size_t t = 0; t < threads; t++) for (auto& st : prog[t]) want[t].push_back(run(st));
    for (size_t t = threads; t-- > 0;) for (size_t i = prog[t].size(); i-- > 0;) // again, after other calls
        PBT_CHECK(run(prog[t][i]) == want[t][i], OPS[prog[t][i].op].name << " (seed " << prog[t][i].seed << ", size " << prog[t][i].scale << ") gave another result after other calls: " << w.str());
    std::atomic<size_t> ready{0}; std::vector<std::thread> ts;
    for (size_t t = 0; t < threads; t++)
        ts.emplace_back([&, t] { ready.fetch_add(1, std::memory_order_relaxed); while (ready.load(std::memory_order_relaxed) < threads) {} for (auto& st : prog[t]) got[t].push_back(run(st)); });
    for (auto& t : ts) t.join();
    for (size_t t = 0; t < threads; t++) for (size_t i = 0; i < prog[t].size(); i++)
        PBT_CHECK(got[t][i] == want[t][i], OPS[prog[t][i].op].name << " (seed " << prog[t][i].seed << ", size " << prog[t][i].scale << ") gave another result while other threads ran " << w.str());
    g.nontrivial(true); g.weight = threads; g.label(same ? "the same operation" : "different operations");
}
#include "pbt_main.h"
