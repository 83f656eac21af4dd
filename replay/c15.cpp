#include "hz_native.h"
#include <hzip_core/utils/utils.h>
using namespace hzn;
int main(int argc, char **argv) {
    init(argc, argv);
    do {
        std::string p(rnd(3) ? rnd(20) : rnd(2000), 0);
        for (auto &ch : p) ch = rng();
        std::string q = p;
        uint64_t x = wild(64), y = wild(64), k = 0;
        mark(fmt("password of %lu bytes, token %lu", (unsigned long) p.size(), (unsigned long) x));
        for (size_t i = 0; i < p.size(); i++) k ^= (uint64_t) (uint8_t) p[i] << 8 * (i % 8);
        uint64_t t = hz_enc_token(p, x);
        if (t != (x ^ k)) fail(fmt("password of %lu bytes: token %lu becomes %lu, expected %lu", (unsigned long) p.size(), (unsigned long) x, (unsigned long) t, (unsigned long) (x ^ k)));
        if (hz_enc_token(p, t) != x) fail(fmt("password of %lu bytes: token %lu does not come back", (unsigned long) p.size(), (unsigned long) x));
        if (x != y && hz_enc_token(p, y) == t) fail("two tokens scramble to the same");
        if (p != q) fail("the password was modified");
    } while (more());
    return done();
}
