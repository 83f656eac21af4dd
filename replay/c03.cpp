#include "hz_native.h"
#include "loguru_stub.h"
#include <hzip_core/preprocessor/color.h>
using namespace hzn;
using P16 = rainman::ptr<uint16_t>;
using LT = hztrans::LinearU16XColorTransformer;

static std::array<uint16_t, 3> ref(std::array<uint16_t, 3> p, unsigned d, bool back) {
    int64_t m = 1ll << d;
    auto md = [&](int64_t v) { return (uint16_t) (((v % m) + m) % m); };
    int64_t x = p[0] % m, y = p[1] % m, z = p[2] % m;
    if (!back) {
        uint16_t co = md(z - x), t = md(x + co / 2), cg = md(t - y);
        return {md(y + cg / 2), co, cg};
    }
    uint16_t g = md(x - z / 2), t = md(g + z), r = md(t - y / 2);
    return {r, g, md(r + y)};
}

static void image(uint64_t w, uint64_t h, unsigned d, uint64_t extra, bool inrange, bool viaDispatch) {
    mark(fmt("image %lux%lu depth %u, %lu further samples, %s samples%s", w, h, d, extra, inrange ? "in-range" : "any", viaDispatch ? ", by dispatch" : ""));
    uint64_t n = w * h;
    for (int back = 0; back < 2; back++)
        for (int inplace = 0; inplace < 2; inplace++) {
            P16 b(3 * n + extra);
            for (uint64_t i = 0; i < b.size(); i++) b[i] = (uint16_t) (inrange && i < 3 * n ? rnd(1u << d) : wild(16));
            std::vector<uint16_t> o(b.pointer(), b.pointer() + b.size());
            LT t(w, h, d);
            auto f = [&](LT &t, const P16 &b, bool back, bool inplace) {
                return viaDispatch ? back ? t.ycocg_to_rgb(b, inplace) : t.rgb_to_ycocg(b, inplace) : back ? t.cpu_ycocg_to_rgb(b, inplace) : t.cpu_rgb_to_ycocg(b, inplace);
            };
            P16 r = f(t, b, back, inplace);
            std::string w2 = fmt("%s of a %lux%lu image, depth %u%s", back ? "back conversion" : "conversion", w, h, d, inplace ? ", in place" : "");
            if (r.size() != b.size()) fail(w2 + ": result has another size");
            if (inplace != (r.pointer() == b.pointer())) fail(w2 + ": wrong block returned");
            if (!inplace && o.size() && memcmp(b.pointer(), o.data(), (o.size()) * 2)) fail(w2 + ": the input was changed");
            if (inplace && extra && memcmp(b.pointer() + 3 * n, o.data() + 3 * n, (extra) * 2)) fail(w2 + ": samples past the planes were changed");
            for (uint64_t i = 0; i < n; i++) {
                auto e = ref({o[i], o[i + n], o[i + 2 * n]}, d, back);
                for (int k = 0; k < 3; k++)
                    if (r[i + k * n] != e[k]) fail(w2 + fmt(": pixel %lu (%u,%u,%u) component %d is %u, expected %u", i, o[i], o[i + n], o[i + 2 * n], k, r[i + k * n], e[k]));
            }
            if (inrange) {
                P16 q = f(t, r, !back, inplace);
                for (uint64_t i = 0; i < 3 * n; i++)
                    if (q[i] != o[i]) fail(w2 + fmt(" and back: sample %lu is %u, was %u", i, q[i], o[i]));
            }
        }
}

template<typename T> static void pixels() {
    using X = hztrans::ColorTransformPixel<T>;
    using C = hztrans::RGBColorTransformer<T>;
    C f(hztrans::RGB_TO_YCOCG), b(hztrans::YCOCG_TO_RGB), f2(hztrans::YCOCG), b2(hztrans::YCOCG, true);
    for (int i = 0; i < 3000; i++) {
        int W = 8 * sizeof(T);
        X p{(T) wild(W), (T) wild(W), (T) wild(W)};
        mark(fmt("pixel %ld,%ld,%ld of %d bits", (long) p.x, (long) p.y, (long) p.z, W));
        for (int k = 0; k < 2; k++) {
            X q = (k ? f2 : f).transform(p), r = (k ? b2 : b).transform(q);
            if (r.x != p.x || r.y != p.y || r.z != p.z) fail("pixel does not survive conversion and back");
            X u = (k ? b2 : b).transform(p), v = (k ? f2 : f).transform(u);
            if (v.x != p.x || v.y != p.y || v.z != p.z) fail("pixel does not survive back conversion and conversion");
            if (W == 16) {
                auto e = ref({(uint16_t) p.x, (uint16_t) p.y, (uint16_t) p.z}, 16, false);
                if ((uint16_t) q.x != e[0] || (uint16_t) q.y != e[1] || (uint16_t) q.z != e[2]) fail("pixel conversion differs from the lifting steps");
            }
        }
        bool threw = false;
        try { C(hztrans::RGB_TO_YCBCR).transform(p); } catch (TransformErrors::InvalidInputError &) { threw = true; }
        if (!threw) fail("an undefined transform was not refused");
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    hzruntime::Config::opencl_support_enabled = false;
    for (unsigned d = 1; d <= 16; d++)
        for (uint64_t w = 0; w < 5; w++)
            for (uint64_t h = 0; h < 5; h++) image(w, h, d, (w + h + d) % 3, d & 1, w & 1);
    pixels<uint16_t>();
    pixels<uint32_t>();
    pixels<uint8_t>();
    image(1001, 1003, 8, 5, true, true);
    image(1001, 3, 16, 5, true, true);
    do image(rnd(40), rnd(40), 1 + rnd(16), rnd(5), rnd(2), rnd(2)); while (more());
    return done();
}
