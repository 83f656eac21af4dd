#include "hz_native.h"
#include <hzip_core/kernel/hzrans/hzrans64.h>
using namespace hzn;

static void one(int s, std::vector<uint64_t> f, bool alias) {
    uint64_t n = f.size();
    std::string w = fmt("scale %d, counts %s%s", s, show(f, 12).c_str(), alias ? " (in the table)" : "");
    mark(w);
    hzrans64_t e;
    hzrans64_codec_init(&e, n, s);
    for (uint64_t i = 0; i < n; i++) e.ftable[i] = rng();
    std::vector<uint64_t> g = f;
    if (alias) { for (uint64_t i = 0; i < n; i++) e.ftable[i] = f[i]; hzrans64_create_ftable_nf(&e, e.ftable); }
    else { hzrans64_create_ftable_nf(&e, g.data()); if (g != f) fail(w + ": the counts were modified"); }
    unsigned __int128 sum = 0;
    for (uint64_t i = 0; i < n; i++) {
        if (e.ftable[i] == 0) fail(w + fmt(": symbol %lu gets no share", (unsigned long) i));
        sum += e.ftable[i];
    }
    if (sum != (1ull << s)) fail(w + fmt(": shares add up to %lu", (unsigned long) sum));
    std::vector<uint64_t> t(e.ftable, e.ftable + n);
    uint64_t c = 0;
    uint64_t step = n > 300 ? n / 50 : 1;
    for (uint64_t i = 0; i < n; i++) {
        if (i % step == 0 || i + 2 > n) {
            hzrans64_add_to_seq(&e, i);
            if (e.bs != c || e.ls != t[i]) fail(w + fmt(": interval of symbol %lu is [%lu, +%lu), expected [%lu, +%lu)", (unsigned long) i, (unsigned long) e.bs, (unsigned long) e.ls, (unsigned long) c, (unsigned long) t[i]));
            for (uint64_t x : {c, c + t[i] - 1, c + rnd(t[i])})
                if (hzrans64_inv_bs(&e, x) != i) fail(w + fmt(": point %lu belongs to symbol %lu, got %lu", (unsigned long) x, (unsigned long) i, (unsigned long) hzrans64_inv_bs(&e, x)));
        }
        c += t[i];
    }
    if (memcmp(t.data(), e.ftable, 8 * n)) fail(w + ": lookups modified the table");
    hzrans64_destroy(&e);
}
int main(int argc, char **argv) {
    init(argc, argv);
    do {
        int s = rnd(3) == 0 ? rnd(6) : rnd(32);
        uint64_t n = 1 + rnd(std::min<uint64_t>(1ull << s, rnd(20) == 0 ? 5000 : 300));
        if (rnd(4) == 0 && (1ull << s) <= 5000) n = 1ull << s;
        uint64_t mf = (1ull << s) - n, room = (mf ? ~0ull / mf : ~0ull) - n;
        if (rnd(2)) room = (1ull << 32) - n;
        std::vector<uint64_t> f(n);
        int kind = rnd(5);
        for (auto &x : f) {
            uint64_t v = kind == 0 ? 0 : kind == 1 ? rnd(3) : kind == 2 ? rnd(1000) : kind == 3 ? (rnd(n) == 0 ? rnd(1ull << 31) : rnd(2)) : wild(31);
            x = std::min(v, room);
            room -= x;
        }
        uint64_t more_ = rnd(5) == 0 ? room : rnd(5) == 0 ? room / 3 : 0;
        f[rnd(n)] += more_;
        one(s, f, rnd(2));
    } while (more());
    return done();
}
