#include "hz_native.h"
#include <hzip_core/utils/utils.h>
using namespace hzn;
int main(int argc, char **argv) {
    init(argc, argv);
    do {
        uint64_t n = wild(64) >> rnd(64);
        mark(fmt("number %lu", (unsigned long) n));
        uint64_t l = n ? 63 - __builtin_clzll(n) : 0;
        if (hz_u64log2(n) != l) fail(fmt("log2 of %lu is %lu", (unsigned long) n, (unsigned long) hz_u64log2(n)));
        n &= (1ull << 31) - 1;
        auto b = hz_elias_gamma(n);
        uint64_t L = n ? 64 - __builtin_clzll(n) : 0;
        if (b.n != 2 * L + 1) fail(fmt("gamma code of %lu has %lu bits", (unsigned long) n, (unsigned long) b.n));
        uint64_t pos = 0;
        auto g = hz_elias_gamma_inv([&](uint64_t k) { if (pos + k > b.n) fail(fmt("gamma code of %lu: reads past its end", (unsigned long) n)); pos += k; return k == 0 ? 0 : (b.obj >> (b.n - pos)) & ((1ull << k) - 1); });
        if (g.obj != n || pos != b.n) fail(fmt("gamma code of %lu reads back as %lu after %lu of %lu bits", (unsigned long) n, (unsigned long) g.obj, (unsigned long) pos, (unsigned long) b.n));
        uint64_t u = 1 + rnd(rnd(3) ? 5 : 3000);
        mark(fmt("unary %lu", (unsigned long) u));
        std::vector<int> v;
        hz_unary_write(u, [&](uint64_t x, uint8_t k) { if (k != 1 || v.size() > u) fail(fmt("unary code of %lu: too long or several bits at once", (unsigned long) u)); v.push_back(x); });
        if (v.size() != u) fail(fmt("unary code of %lu has %lu bits", (unsigned long) u, (unsigned long) v.size()));
        for (uint64_t i = 0; i < u; i++) if (v[i] != (i + 1 < u)) fail(fmt("unary code of %lu: bit %lu is wrong", (unsigned long) u, (unsigned long) i));
        uint64_t p = 0;
        uint64_t r = hz_unary_read([&](uint8_t) -> uint64_t { if (p >= u) fail(fmt("unary code of %lu: reads past its end", (unsigned long) u)); return v[p++]; });
        if (r != u || p != u) fail(fmt("unary code of %lu reads back as %lu", (unsigned long) u, (unsigned long) r));
    } while (more());
    return done();
}
