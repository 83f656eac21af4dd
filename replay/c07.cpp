#include "hz_native.h"
#include <hzip_core/preprocessor/move_to_front.h>
using namespace hzn;

template<typename T> static void one(std::vector<T> in, uint64_t al) {
    mark(fmt("%zu-bit symbols, alphabet %lu, data %s", 8 * sizeof(T), (unsigned long) al, show(in).c_str()));
    rainman::ptr<T> d(in.size());
    for (size_t i = 0; i < in.size(); i++) d[i] = in[i];
    hztrans::MoveToFrontTransformer<T> m(d, al);
    m.transform();
    std::vector<uint64_t> lst(al);
    for (uint64_t i = 0; i < al; i++) lst[i] = i;
    for (size_t i = 0; i < in.size(); i++) {
        uint64_t j = std::find(lst.begin(), lst.end(), (uint64_t) in[i]) - lst.begin();
        if (d[i] != (T) j) fail(fmt("transform, alphabet %lu, data %s: element %zu became %lu, recency position is %lu", (unsigned long) al, show(in).c_str(), i, (unsigned long) d[i], (unsigned long) j));
        lst.erase(lst.begin() + j);
        lst.insert(lst.begin(), in[i]);
    }
    if (rnd(2)) m.invert();
    else { hztrans::MoveToFrontTransformer<T> m2(d, al); m2.invert(); }
    for (size_t i = 0; i < in.size(); i++)
        if (d[i] != in[i]) fail(fmt("round trip, alphabet %lu, data %s: element %zu came back as %lu", (unsigned long) al, show(in).c_str(), i, (unsigned long) d[i]));
}

template<typename T> static void go() {
    uint64_t top = sizeof(T) == 1 ? 256 : sizeof(T) == 2 ? 1200 : 600;
    uint64_t al = rnd(4) == 0 ? top : rnd(3) == 0 ? 1 + rnd(4) : 1 + rnd(top);
    if (sizeof(T) == 2 && rnd(60) == 0) al = 65536;
    std::vector<T> v(rnd(5) == 0 ? rnd(3) : rnd(al > 5000 ? 20 : 200));
    uint64_t spread = 1 + rnd(al);
    for (auto &x : v) x = rnd(3) == 0 ? al - 1 - rnd(std::min<uint64_t>(al, 3)) : rnd(spread);
    one<T>(v, al);
}
int main(int argc, char **argv) {
    init(argc, argv);
    one<uint8_t>({}, 0); one<uint8_t>({}, 256); one<uint16_t>({}, 5);
    for (int a = 1; a <= 4; a++) {      // every string up to length 5 over small alphabets
        for (int n = 0; n <= 5; n++) {
            int tot = 1; for (int i = 0; i < n; i++) tot *= a;
            for (int c = 0; c < tot; c++) { std::vector<uint8_t> v(n); int x = c; for (auto &e : v) { e = x % a; x /= a; } one<uint8_t>(v, a); one<uint32_t>({v.begin(), v.end()}, a); }
        }
    }
    for (int a : {255, 256}) { std::vector<uint8_t> v(600); for (int i = 0; i < 600; i++) v[i] = (i * 7) % a; one<uint8_t>(v, a); }
    do { go<uint8_t>(); go<uint16_t>(); go<uint32_t>(); } while (more());
    return done();
}
