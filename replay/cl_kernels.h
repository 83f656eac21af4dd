// The kernels of the repository, compiled as host functions (kernel text extracted on every run).
#pragma once
#include <CL/opencl.hpp>
inline uint64_t get_global_id(unsigned) { return cl::fake::gid; }
namespace kern {
#define __kernel
#define __global
#define kernel
#define global
#include "kernels_gen.inc"
#undef kernel
#undef global
    inline void load() {
        using cl::Args;
        cl::fake::kernels["u16x_rgb_to_ycocg"] = [](Args &a) { u16x_rgb_to_ycocg(a[0].cells(), a[1].as<uint64_t>(), a[2].as<uint64_t>(), a[3].as<uint64_t>()); };
        cl::fake::kernels["u16x_ycocg_to_rgb"] = [](Args &a) { u16x_ycocg_to_rgb(a[0].cells(), a[1].as<uint64_t>(), a[2].as<uint64_t>(), a[3].as<uint64_t>()); };
        cl::fake::kernels["paeth_differential16"] = [](Args &a) {
            paeth_differential16(a[0].cells(), a[1].cells(), a[2].as<uint64_t>(), a[3].as<uint64_t>(), a[4].as<uint8_t>(), a[5].as<uint64_t>(), a[6].as<uint64_t>());
        };
    }
}
#undef u8
#undef u16
#undef u32
#undef u64
#undef i8
#undef i16
#undef i32
#undef i64
