#include "hz_native.h"
#include <hzip_core/utils/utils.h>
using namespace hzn;
int main(int argc, char **argv) {
    init(argc, argv);
    do {
        uint64_t x = wild(64);
        mark(fmt("number %lu", (unsigned long) x));
        rainman::ptr<uint8_t> b(8 + rnd(2));
        hz_u64_to_u8buf(x, b);
        for (int i = 0; i < 8; i++) if (b[i] != (uint8_t) (x >> 8 * i)) fail(fmt("number %lu: byte %d is %d", (unsigned long) x, i, b[i]));
        if (hz_u8buf_to_u64(b) != x) fail(fmt("number %lu comes back as %lu", (unsigned long) x, (unsigned long) hz_u8buf_to_u64(b)));
        uint64_t n = rnd(3) ? rnd(12) : rnd(3000);
        mark(fmt("%lu bytes", (unsigned long) n));
        rainman::ptr<uint8_t> a(n + rnd(2));
        for (uint64_t i = 0; i < a.size(); i++) a[i] = rng();
        auto w = hz_u8_to_u32ptr(a, n);
        if (w.size() != (n + 3) / 4) fail(fmt("%lu bytes: %lu words", (unsigned long) n, (unsigned long) w.size()));
        for (uint64_t j = 0; j < w.size(); j++) {
            uint32_t e = 0;
            for (int i = 0; i < 4; i++) e = e << 8 | (4 * j + i < n ? a[4 * j + i] : 0);
            if (w[j] != e) fail(fmt("%lu bytes: word %lu is %08x, expected %08x", (unsigned long) n, (unsigned long) j, w[j], e));
        }
        auto c = hz_u32_to_u8ptr(w, w.size());
        if (c.size() != 4 * w.size()) fail(fmt("%lu words: %lu bytes", (unsigned long) w.size(), (unsigned long) c.size()));
        for (uint64_t i = 0; i < n; i++) if (c[i] != a[i]) fail(fmt("%lu bytes: byte %lu does not come back", (unsigned long) n, (unsigned long) i));
        rainman::ptr<uint32_t> v(n);
        for (uint64_t i = 0; i < n; i++) v[i] = rng();
        auto d = hz_u32_to_u8ptr(v, n);
        auto e = hz_u8_to_u32ptr(d, d.size());
        if (e.size() != n) fail(fmt("%lu words: %lu come back", (unsigned long) n, (unsigned long) e.size()));
        for (uint64_t i = 0; i < n; i++) if (e[i] != v[i]) fail(fmt("%lu words: word %lu does not come back", (unsigned long) n, (unsigned long) i));
    } while (more());
    return done();
}
