#include "hz_native.h"
#include "loguru_stub.h"
#include <hzip_core/models/paeth.h>
#include <hzip_core/preprocessor/color.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/opencl/cl_helper.h>
#include "cl_kernels.h"
using namespace hzn;
using P16 = rainman::ptr<uint16_t>;
using L = hzmodels::LinearU16PaethDifferential;
using C = hztrans::LinearU16XColorTransformer;

static void setup(uint64_t kernels, uint64_t local, int devices) {
    hzruntime::Config::opencl_kernels = kernels;
    cl::fake::local = local;
    if (cl::fake::devices != devices || hzopencl::DeviceProvider::empty()) {
        cl::fake::devices = devices;
        hzopencl::DeviceProvider::load_devices();
        hzopencl::ProgramProvider::_device_index = 0;
    }
}

static P16 samples(uint64_t n, unsigned d) {
    P16 b(n);
    int kind = rnd(3);
    for (uint64_t i = 0; i < n; i++) b[i] = (uint16_t) ((kind == 0 ? rng() : kind == 1 ? rnd(3) : (1u << d) - 1 - rnd(2)) % (1u << d));
    return b;
}

static P16 copy(const P16 &b) {
    P16 r(b.size());
    memcpy(r.pointer(), b.pointer(), b.size() * 2);
    return r;
}

static void same(const P16 &got, const P16 &want, const std::string &w, uint64_t upto) {
    if (got.size() != want.size()) fail(w + ": sizes differ");
    for (uint64_t i = 0; i < upto; i++)
        if (got[i] != want[i]) fail(w + fmt(": sample %lu is %u with OpenCL and %u without", i, got[i], want[i]));
}

static void paeth(uint64_t w, uint64_t h, uint64_t nc, unsigned d, bool dispatch) {
    std::string t = fmt("Paeth differential of %lu channels of %lux%lu, depth %u, %lu kernels, work groups of %lu%s", nc, w, h, d, hzruntime::Config::opencl_kernels, cl::fake::local, dispatch ? ", by dispatch" : "");
    mark(t);
    for (int inplace = 0; inplace < 2; inplace++) {
        P16 b = samples(w * h * nc, d), o = copy(b);
        P16 want = L::cpu_filter(o, w, h, nc, false, d);
        int before = cl::fake::launches;
        P16 r = dispatch ? L::filter(b, w, h, nc, inplace, d) : L::opencl_filter(b, w, h, nc, inplace, d);
        if (dispatch && w * h * nc > 49152 && cl::fake::launches == before) fail(t + ": OpenCL was not used");
        if (inplace != (r.pointer() == b.pointer())) fail(t + ": wrong block returned");
        if (!inplace) same(b, o, t + ", input", o.size());
        same(r, want, t + (inplace ? ", in place" : ""), want.size());
    }
}

static void colour(uint64_t w, uint64_t h, unsigned d, uint64_t extra, bool dispatch) {
    std::string t = fmt("colour conversion of %lux%lu, depth %u, %lu further samples, %lu kernels, work groups of %lu%s", w, h, d, extra, hzruntime::Config::opencl_kernels, cl::fake::local, dispatch ? ", by dispatch" : "");
    mark(t);
    for (int back = 0; back < 2; back++)
        for (int inplace = 0; inplace < 2; inplace++) {
            hzruntime::Config::opencl_support_enabled = true;
            C x(w, h, d);
            P16 b = samples(3 * w * h + extra, rnd(2) ? 16 : d), o = copy(b), o2 = copy(b);
            P16 want = back ? x.cpu_ycocg_to_rgb(o2, true) : x.cpu_rgb_to_ycocg(o2, true);
            P16 r = dispatch ? back ? x.ycocg_to_rgb(b, inplace) : x.rgb_to_ycocg(b, inplace) : back ? x.opencl_ycocg_to_rgb(b, inplace) : x.opencl_rgb_to_ycocg(b, inplace);
            if (inplace != (r.pointer() == b.pointer())) fail(t + ": wrong block returned");
            if (!inplace) same(b, o, t + ", input", o.size());
            same(r, want, t + (back ? ", back" : "") + (inplace ? ", in place" : ""), 3 * w * h);
            if (inplace) same(r, want, t + ", past the planes", o.size());
        }
}

int main(int argc, char **argv) {
    init(argc, argv);
    kern::load();
    setup(32, 4, 2);
    hzruntime::Config::opencl_support_enabled = true;
    for (uint64_t k: {1, 2, 3, 7, 32, 100})
        for (uint64_t l: {1, 4, 64}) {
            setup(k, l, 1 + k % 3);
            for (uint64_t w = 1; w < 6; w++)
                for (uint64_t h = 1; h < 6; h++) {
                    paeth(w, h, 1 + (w + h + k) % 3, 1 + (w * h + k) % 16, false);
                    colour(w, h, 1 + (w * h + k) % 16, (w + k) % 3, false);
                }
        }
    setup(32, 64, 1);
    paeth(300, 200, 1, 8, true);
    paeth(150, 160, 3, 16, true);
    colour(1001, 1001, 16, 2, true);
    while (more()) {
        setup(1 + rnd(rnd(2) ? 8 : 300), pick({1, 2, 8, 32}), 1 + rnd(3));
        paeth(1 + rnd(40), 1 + rnd(40), 1 + rnd(4), 1 + rnd(16), false);
        colour(1 + rnd(40), 1 + rnd(40), 1 + rnd(16), rnd(4), false);
    }
    return done();
}
