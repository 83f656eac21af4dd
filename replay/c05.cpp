#include "hz_native.h"
#include "loguru_stub.h"
#include <hzip_core/models/paeth.h>
#include <hzip_core/runtime/runtime.h>
using namespace hzn;
using P16 = rainman::ptr<uint16_t>;
using L = hzmodels::LinearU16PaethDifferential;

static int64_t predict(const std::vector<uint16_t> &o, uint64_t off, uint64_t w, uint64_t x, uint64_t y) {
    auto at = [&](uint64_t x, uint64_t y) -> int64_t { return o[off + y * w + x]; };
    if (!x && !y) return 0;
    if (!y) return at(x - 1, y);
    if (!x) return at(x, y - 1);
    int64_t a = at(x - 1, y), b = at(x, y - 1), c = at(x - 1, y - 1), e = std::abs(a + b - c);
    int64_t da = std::abs(a - e), db = std::abs(b - e), dc = std::abs(c - e), m = std::min({da, db, dc});
    return da == m ? a : db == m ? b : c;
}

static void image(uint64_t w, uint64_t h, uint64_t nc, unsigned d, uint64_t extra, int kind, bool dispatch) {
    mark(fmt("%lu channels of %lux%lu, depth %u, %lu further samples, kind %d%s", nc, w, h, d, extra, kind, dispatch ? ", by dispatch" : ""));
    uint64_t n = w * h * nc, p = 1ull << d;
    for (int inplace = 0; inplace < 2; inplace++) {
        P16 b(n + extra);
        for (uint64_t i = 0; i < b.size(); i++) b[i] = (uint16_t) ((kind == 0 ? rnd(p) : kind == 1 ? rnd(std::min<uint64_t>(4, p)) : kind == 2 ? p - 1 - rnd(std::min<uint64_t>(3, p)) : (i * 7 + rnd(3))) % p);
        std::vector<uint16_t> o(b.pointer(), b.pointer() + b.size());
        P16 r = dispatch ? L::filter(b, w, h, nc, inplace, d) : L::cpu_filter(b, w, h, nc, inplace, d);
        std::string t = fmt("%lu channels of %lux%lu, depth %u%s", nc, w, h, d, inplace ? ", in place" : "");
        if (r.size() != b.size()) fail(t + ": result has another size");
        if (inplace != (r.pointer() == b.pointer())) fail(t + ": wrong block returned");
        if (!inplace && o.size() && memcmp(b.pointer(), o.data(), (o.size()) * 2)) fail(t + ": the input was changed");
        if (inplace && extra && memcmp(b.pointer() + n, o.data() + n, (extra) * 2)) fail(t + ": samples past the image were changed");
        for (uint64_t c = 0; c < nc; c++)
            for (uint64_t y = 0; y < h; y++)
                for (uint64_t x = 0; x < w; x++) {
                    uint64_t off = c * w * h, i = off + y * w + x;
                    int64_t e = (int64_t) o[i] - predict(o, off, w, x, y);
                    if (e < 0) e += p;
                    if (r[i] != e) fail(t + fmt(": channel %lu, column %lu, row %lu is %u, expected %ld", c, x, y, r[i], (long) e));
                }
        // decoding in reading order
        std::vector<uint16_t> q(o.size());
        for (uint64_t c = 0; c < nc; c++)
            for (uint64_t y = 0; y < h; y++)
                for (uint64_t x = 0; x < w; x++) {
                    uint64_t off = c * w * h, i = off + y * w + x;
                    q[i] = (r[i] + predict(q, off, w, x, y)) % p;
                    if (q[i] != o[i]) fail(t + fmt(": channel %lu, column %lu, row %lu decodes to %u, was %u", c, x, y, q[i], o[i]));
                }
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    hzruntime::Config::opencl_support_enabled = false;
    for (unsigned d = 0; d <= 16; d++)
        for (uint64_t w = 0; w < 4; w++)
            for (uint64_t h = 0; h < 4; h++) image(w, h, (w + h + d) % 4, d, d % 3, d % 4, d & 1);
    image(300, 200, 3, 8, 3, 0, true);
    image(70000, 2, 1, 16, 0, 0, false);
    image(2, 70000, 1, 12, 0, 2, false);
    image(1, 1, 5000, 9, 0, 0, false);
    do image(rnd(30), rnd(30), rnd(5), 1 + rnd(16), rnd(4), rnd(4), rnd(2)); while (more());
    return done();
}
