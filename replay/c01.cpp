#include "hz_native.h"
#include <climits>
#include <hzip_core/preprocessor/delta.h>
using namespace hzn;

static void one(const std::vector<int> &in) {
    mark("delta transform+invert of " + show(in));
    size_t n = in.size();
    // exact-size heap block: ASan sees any access outside
    int *p = (int *) malloc(n * sizeof(int) + (n == 0));
    for (size_t i = 0; i < n; i++) p[i] = in[i];
    hztrans::DeltaTransformer t(p, n);
    t.transform();
    for (size_t i = 0; i < n; i++) {
        unsigned want = i ? (unsigned) in[i] - (unsigned) in[i - 1] : (unsigned) in[i];
        if ((unsigned) p[i] != want) fail(fmt("transform of %s: element %zu is %d, the difference is %d", show(in).c_str(), i, p[i], (int) want));
    }
    t.invert();
    for (size_t i = 0; i < n; i++)
        if (p[i] != in[i]) fail(fmt("round trip of %s: element %zu came back as %d", show(in).c_str(), i, p[i]));
    // a fresh object over the same data inverts too
    hztrans::DeltaTransformer u(p, n);
    u.transform();
    hztrans::DeltaTransformer w(p, n);
    w.invert();
    for (size_t i = 0; i < n; i++)
        if (p[i] != in[i]) fail(fmt("round trip of %s through two objects: element %zu came back as %d", show(in).c_str(), i, p[i]));
    free(p);
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (auto &h : hints)
        if (h.count("n") && h["n"] < 5000) { std::vector<int> v(h["n"]); for (auto &x : v) x = (int) wild(32); one(v); }
    for (size_t n = 0; n <= 40; n++)
        for (int k = 0; k < 6; k++) {
            std::vector<int> v(n);
            for (auto &x : v) x = k == 0 ? 7 : k == 1 ? (int) rnd(3) : k == 2 ? (rnd(2) ? INT_MAX : INT_MIN) : (int) wild(32);
            one(v);
        }
    for (size_t n : {255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 100000}) {
        std::vector<int> v(n);
        for (auto &x : v) x = (int) wild(32);
        one(v);
    }
    while (more()) {
        std::vector<int> v(rnd(300));
        for (auto &x : v) x = (int) wild(32);
        if (v.size() && rnd(4) == 0) std::sort(v.begin(), v.end());
        one(v);
    }
    return done();
}
