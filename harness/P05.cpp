// Requests outside the contract are stopped by an assertion, requests inside it never are.
#include "requests.h"
#include "trap.h"

static void property(Gen& g)
{
    Req q = request(g);
    std::string before; if (q.any) before = q.state();
    bool st = pbt::stopped(q.call);
    if (q.any) { g.label(st ? "stopped" : "answered"); PBT_CHECK(st || q.state() == before, "a request changed its operand: " << q.what); }
    else if (q.valid) PBT_CHECK(!st, "a valid request was stopped by an assertion: " << q.what);
    else PBT_CHECK(st, "an invalid request was not stopped: " << q.what);
    g.nontrivial(true);
}
#include "pbt_main.h"
