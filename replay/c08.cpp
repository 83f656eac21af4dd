#include "hz_native.h"
#include <hzip_core/preprocessor/burrows_wheeler.h>
using namespace hzn;

template<typename T, typename M>
static void one(const std::vector<uint32_t> &v, uint64_t K, const char *what) {
    std::string id = fmt("%s, alphabet %lu, %s", what, K, show(v).c_str());
    mark(id);
    uint64_t n = v.size();
    rainman::ptr<T> d(n);
    for (uint64_t i = 0; i < n; i++) d[i] = (T) v[i];
    hztrans::BurrowsWheelerTransformer<T, M> b(d, K);
    uint64_t at = b.transform();
    if (at > n) fail(fmt("%s: index %lu", id.c_str(), at));
    if (d.size() != n) fail(id + ": length changed");
    if (n <= 3000) {
        // oracle: rotations of the text in front of its terminator (smaller than every symbol, at position 0), sorted
        std::vector<int64_t> z(n + 1);
        z[0] = -1;
        for (uint64_t i = 0; i < n; i++) z[i + 1] = v[i];
        std::vector<uint32_t> sa(n + 1);
        for (uint64_t i = 0; i <= n; i++) sa[i] = i;
        std::sort(sa.begin(), sa.end(), [&](uint32_t x, uint32_t y) { return std::lexicographical_compare(z.begin() + x, z.end(), z.begin() + y, z.end()); });
        // note: the end of the text sorts before every symbol (shorter suffix first)
        uint64_t j = 0, want = 0;
        for (uint64_t i = 0; i <= n; i++) {
            int64_t c = z[(sa[i] + n) % (n + 1)];
            if (c < 0) want = i;
            else {
                if ((int64_t) d[j] != c) fail(fmt("%s: transform differs from the sorted rotations at %lu: %ld, expected %ld", id.c_str(), j, (long) d[j], (long) c));
                j++;
            }
        }
        if (want != at) fail(fmt("%s: index %lu, expected %lu", id.c_str(), at, want));
    }
    hztrans::BurrowsWheelerTransformer<T, M> c(d, K);
    c.invert(at);
    for (uint64_t i = 0; i < n; i++)
        if ((uint32_t) d[i] != v[i]) fail(fmt("%s: after the inverse, element %lu is %ld, was %u", id.c_str(), i, (long) d[i], v[i]));
}

static void both(const std::vector<uint32_t> &v, uint64_t K) {
    if (K <= 32766) one<int16_t, int32_t>(v, K, "16-bit symbols");
    if (rnd(2)) one<int32_t, int32_t>(v, K, "32-bit symbols");
    else if (rnd(2)) one<int64_t, int64_t>(v, K, "64-bit symbols");
}

static std::vector<uint32_t> text(uint64_t n, uint64_t K) {
    std::vector<uint32_t> v(n);
    uint64_t kind = rnd(6), p = 1 + rnd(9);
    for (uint64_t i = 0; i < n; i++)
        switch (kind) {
            case 0: v[i] = rnd(K); break;
            case 1: v[i] = rnd(std::min<uint64_t>(K, 2)); break;
            case 2: v[i] = i < p ? rnd(K) : v[i - p]; break;
            case 3: v[i] = (i && rnd(8)) ? v[i - 1] : rnd(K); break;
            case 4: v[i] = rnd(3) ? K - 1 : 0; break;
            default: v[i] = (i < p || !rnd(50)) ? rnd(std::min<uint64_t>(K, 4)) : v[i - p]; break;
        }
    return v;
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (auto &h : hints) {
        std::vector<uint32_t> v;
        uint64_t n = std::min<uint64_t>(h["n"], 4000), K = std::max<uint64_t>(1, std::min<uint64_t>(h["K"], 300));
        for (uint64_t i = 0; i < n; i++) v.push_back(rnd(K));
        both(v, K);
    }
    // every text of up to 7 symbols over 3 letters
    for (uint64_t n = 0; n <= 7; n++) {
        uint64_t t = 1;
        for (uint64_t i = 0; i < n; i++) t *= 3;
        for (uint64_t x = 0; x < t; x++) {
            std::vector<uint32_t> v;
            for (uint64_t i = 0, y = x; i < n; i++, y /= 3) v.push_back(y % 3);
            one<int16_t, int32_t>(v, 3, "16-bit symbols");
        }
    }
    for (uint64_t K : {1, 2, 16, 256, 257, 1000})
        for (uint64_t n : {0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 65, 255, 256, 257, 1000}) {
            both(text(n, K), K);
            both(std::vector<uint32_t>(n, K - 1), K);
            both(std::vector<uint32_t>(n, 0), K);
        }
    for (uint64_t n : {32767, 32768, 65535, 65536, 70001, 140000}) both(text(n, 256), 256);
    while (more()) {
        uint64_t K = pick({1, 2, 3, 5, 256, 256, 256, 1 + rnd(600)});
        uint64_t n = pick({rnd(12), rnd(40), rnd(400), rnd(3000), rnd(30000)});
        both(text(n, K), K);
    }
    done();
}
