#include "hz_native.h"
#include <hzip_core/kernel/hzrans/hzrans64.h>
using namespace hzn;

static uint64_t state_val() {
    switch (rnd(5)) {
        case 0: return (1ull << 31) + rnd(4);
        case 1: return (1ull << 63) - 1 - rnd(4);
        case 2: { uint64_t k = 31 + rnd(32); uint64_t v = (1ull << k) + rnd(5) - 2; return v < (1ull << 31) ? (1ull << 31) : v; }
        default: { uint64_t v = rng() >> (1 + rnd(32)); return v < (1ull << 31) ? v + (1ull << 31) : v; }
    }
}

static void one(int s, uint64_t ls, uint64_t bs, uint64_t x) {
    mark(fmt("scale %d, ls %lu, bs %lu, state %lu", s, (unsigned long) ls, (unsigned long) bs, (unsigned long) x));
    hzrans64_t e;
    hzrans64_codec_init(&e, 4, s);
    if (e.x != 1ull << 31 || e.scale != (uint64_t) s || e.size != 4 || e.count != 0) fail("codec_init: wrong initial state");
    for (int i = 0; i < 4; i++) e.ftable[i] = i;
    e.x = x; e.ls = ls; e.bs = bs;
    HZ_Stack<uint32_t> st;
    st.push(77);
    hzrans64_encode_s(&e, &st);
    std::string where = fmt("scale %d, ls %lu, bs %lu, state %lu", s, (unsigned long) ls, (unsigned long) bs, (unsigned long) x);
    if (e.x < (1ull << 31) || e.x >= (1ull << 63)) fail(where + fmt(": encode_s leaves the state range, state %lu", (unsigned long) e.x));
    uint64_t words = st.size() - 1;
    if (words > 1 || e.count != words) fail(where + fmt(": %lu words spilled, count %lu", (unsigned long) words, (unsigned long) e.count));
    rainman::ptr<uint32_t> d(words + 1);
    for (uint64_t i = 0; i <= words; i++) { d[i] = st.top(); st.pop(); }
    if (d[words] != 77) fail(where + ": stack content below disturbed");
    hzrans64_t v;
    hzrans64_codec_init(&v, 4, s);
    v.x = e.x; v.ls = ls; v.bs = bs; v.count = 0;
    hzrans64_decode_s(&v, d);
    if (v.x != x) fail(where + fmt(": decode_s(encode_s) gives %lu", (unsigned long) v.x));
    if (v.count != words) fail(where + ": decode_s consumes a different number of words");
    // flush / load
    HZ_Stack<uint32_t> f;
    e.x = x;
    uint64_t c0 = e.count;
    hzrans64_enc_flush(&e, &f);
    if (f.size() != 2 || e.count != c0 + 2) fail(where + ": flush does not add two words");
    rainman::ptr<uint32_t> fd(2);
    fd[0] = f.top(); f.pop(); fd[1] = f.top(); f.pop();
    hzrans64_dec_load_state(&v, fd);
    if (v.x != x || v.count != 2) fail(where + ": flush then load changes the state");
    hzrans64_destroy(&e);
    hzrans64_destroy(&v);
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (auto &h : hints) if (h.count("ls") && h.count("x")) {
        for (int s = 0; s < 32; s++) {
            uint64_t ls = h["ls"], bs = h["bs"], x = h["x"];
            if (ls && ls <= (1ull << s) && bs <= (1ull << s) - ls && x >= (1ull << 31) && x < (1ull << 63)) one(s, ls, bs, x);
        }
    }
    do {
        int s = rnd(32);
        uint64_t T = 1ull << s;
        uint64_t ls = rnd(3) == 0 ? T : rnd(3) == 0 ? 1 : 1 + rnd(T);
        uint64_t bs = rnd(3) == 0 ? T - ls : rnd(3) == 0 ? 0 : rnd(T - ls + 1);
        uint64_t x = state_val();
        if (rnd(2)) {     // near the spill threshold
            unsigned __int128 ub = (unsigned __int128) ls * ((1ull << 31 >> s) << 32);
            uint64_t u = (uint64_t) ub + rnd(3) - 1;
            if (u >= (1ull << 31) && u < (1ull << 63)) x = u;
        }
        one(s, ls, bs, x);
    } while (more());
    return done();
}
