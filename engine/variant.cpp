// The operations as one build configuration of the library carries them out (see P35). Compiled once for
// each configuration, with the namespaces renamed.
#include "operations.h"
size_t VARIANT(size_t op, uint64_t seed, size_t scale, uint64_t shared_seed, std::vector<double>& out)
{
    const ops::Shared shared(ops::Src(shared_seed, 3)); ops::Src s(seed, scale); ops::Digest d; d.out = &out;
    ops::OPS[op].f(s, shared, d);
    return ops::NOPS;
}
