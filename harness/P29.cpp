// Without assertions a request outside the contract returns, and harms nothing.
#include "requests.h"

static void property(Gen& g)
{
    Req q = request(g); if (q.valid && !g.once_in(4)) { g.label("valid (skipped)"); return; }
    std::string before = q.state(); int times = (int)g.range(1, 3); g.nontrivial(!q.valid);
    for (int i = 0; i < times; i++)
    {
        consistent = true; q.call();
        if (q.valid) return;
        PBT_CHECK(q.resizes || q.state() == before, "a rejected request changed an operand: " << q.what << ": " << before << " became " << q.state());
        PBT_CHECK(consistent, "a rejected request returned a matrix whose size is not that of its shape: " << q.what);
        if (q.element) PBT_CHECK(sink == 0, "an element outside reads as " << sink << " instead of the default value: " << q.what);
    }
}
#include "pbt_main.h"
