// Stand-in for the OpenCL C++ bindings: runs the repository's kernels on the host, one work item after another in
// shuffled order. Used by the replay harnesses only (bounded execution), never by the proofs.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <stdexcept>
#include <string>
#include <vector>

typedef uint64_t cl_mem_flags, cl_device_type, cl_command_queue_properties;
typedef uint32_t cl_bool, cl_uint;
typedef int cl_int, cl_build_status;
enum : uint64_t { CL_MEM_READ_WRITE = 1, CL_MEM_WRITE_ONLY = 2, CL_MEM_READ_ONLY = 4, CL_MEM_COPY_HOST_PTR = 32, CL_MEM_HOST_WRITE_ONLY = 128, CL_MEM_HOST_READ_ONLY = 256, CL_MEM_HOST_NO_ACCESS = 512 };
enum { CL_FALSE = 0, CL_TRUE = 1, CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE = 1, CL_BUILD_PROGRAM_FAILURE = -11, CL_BUILD_ERROR = -2, CL_BUILD_SUCCESS = 0 };
enum : uint32_t { CL_DEVICE_TYPE_ALL = 0xffffffff, CL_DEVICE_TYPE_GPU = 4, CL_DEVICE_TYPE_CPU = 2 };
enum { CL_KERNEL_CONTEXT, CL_CONTEXT_DEVICES, CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE, CL_PLATFORM_NAME, CL_DEVICE_NAME, CL_DEVICE_MAX_CLOCK_FREQUENCY, CL_DEVICE_MAX_COMPUTE_UNITS, CL_PROGRAM_BUILD_STATUS, CL_PROGRAM_BUILD_LOG };

namespace cl {
    struct Error : std::runtime_error {
        int code;
        Error(int c, const char *w) : std::runtime_error(w), code(c) {}
        int err() const { return code; }
    };
    namespace fake {
        inline int devices = 1;
        inline uint64_t local = 4;
        inline std::mt19937_64 rng{1};
        inline int launches = 0, built = 0;
        inline uint64_t gid = 0;
        struct Mem {
            uint8_t *p;
            uint64_t n;
            explicit Mem(uint64_t n) : p((uint8_t *) malloc(n ? n : 1)), n(n) { memset(p, 0xa5, n); }
            Mem(const Mem &) = delete;
            ~Mem() { free(p); }
        };
        struct Arg {
            std::shared_ptr<Mem> mem;
            std::vector<uint8_t> raw;
            template<typename T> T as() const {
                if (mem || raw.size() != sizeof(T)) throw Error(-51, "kernel argument of the wrong size");
                T t;
                memcpy(&t, raw.data(), sizeof t);
                return t;
            }
            uint16_t *cells() const {
                if (!mem) throw Error(-38, "kernel argument is no buffer");
                return (uint16_t *) mem->p;
            }
        };
        using Args = std::map<unsigned, Arg>;
        inline std::map<std::string, std::function<void(Args &)>> kernels;
    }
    using fake::Args;
    template<int K> struct Info { using T = std::string; };
    struct Device {
        int id = 0;
        template<int K> auto getInfo() const {
            if constexpr (K == CL_DEVICE_NAME) return "fake device " + std::to_string(id);
            else return 1u;
        }
    };
    struct Platform {
        static int get(std::vector<Platform> *v) { v->assign(1, Platform()); return 0; }
        int getDevices(uint64_t, std::vector<Device> *v) const {
            v->clear();
            for (int i = 0; i < fake::devices; i++) v->push_back(Device{i});
            return 0;
        }
        template<int K> std::string getInfo() const { return "fake platform"; }
    };
    struct Context {
        Device d;
        Context() = default;
        explicit Context(const Device &d) : d(d) {}
        template<int K> std::vector<Device> getInfo() const { return {d}; }
    };
    struct Program {
        Context c;
        std::string src;
        Program() = default;
        Program(const Context &c, const std::string &s, bool = false) : c(c), src(s) {}
        int build(const char *) const { fake::built++; return 0; }
        template<int K> auto getBuildInfo(const Device &) const {
            if constexpr (K == CL_PROGRAM_BUILD_LOG) return std::string();
            else return (cl_build_status) 0;
        }
    };
    struct Buffer {
        std::shared_ptr<fake::Mem> m;
        Buffer() = default;
        Buffer(const Context &, cl_mem_flags f, size_t n, void *host = nullptr, cl_int * = nullptr) : m(std::make_shared<fake::Mem>(n)) {
            if (!n) throw Error(-61, "clCreateBuffer");
            if (f & CL_MEM_COPY_HOST_PTR) memcpy(m->p, host, n);
        }
    };
    struct NDRange {
        size_t n = 1;
        NDRange() = default;
        NDRange(size_t n) : n(n) {}
    };
    static const NDRange NullRange;
    struct Kernel {
        std::string name;
        Context c;
        std::shared_ptr<fake::Args> a;
        Kernel() = default;
        Kernel(const Program &p, const char *n, cl_int * = nullptr) : name(n), c(p.c), a(std::make_shared<fake::Args>()) {
            if (!fake::kernels.count(name) || p.src.find(name) == std::string::npos) throw Error(-46, "clCreateKernel");
        }
        template<int K> Context getInfo() const { return c; }
        template<int K> size_t getWorkGroupInfo(const Device &) const { return fake::local; }
        int setArg(unsigned i, const Buffer &b) { (*a)[i] = fake::Arg{b.m, {}}; return 0; }
        template<typename T> int setArg(unsigned i, const T &v) {
            fake::Arg x;
            x.raw.resize(sizeof v);
            memcpy(x.raw.data(), &v, sizeof v);
            (*a)[i] = x;
            return 0;
        }
    };
    struct CommandQueue {
        std::shared_ptr<std::vector<std::function<void()>>> later = std::make_shared<std::vector<std::function<void()>>>();
        CommandQueue() = default;
        CommandQueue(const Context &, const Device &, cl_command_queue_properties = 0) {}
        int enqueueNDRangeKernel(const Kernel &k, const NDRange &off, const NDRange &global, const NDRange &local = NullRange) {
            if (!global.n || !local.n || global.n % local.n) throw Error(-54, "clEnqueueNDRangeKernel");
            fake::launches++;
            auto f = fake::kernels[k.name];
            auto a = *k.a;
            uint64_t g = global.n, o = off.n;
            later->push_back([=]() mutable {
                std::vector<uint64_t> ids(g);
                for (uint64_t i = 0; i < g; i++) ids[i] = o + i;
                std::shuffle(ids.begin(), ids.end(), fake::rng);
                for (auto i: ids) {
                    fake::gid = i;
                    f(a);
                }
            });
            return 0;
        }
        int enqueueBarrierWithWaitList() { return 0; }
        int enqueueReadBuffer(const Buffer &b, cl_bool blocking, size_t off, size_t n, void *p) {
            if (off + n > b.m->n) throw Error(-30, "clEnqueueReadBuffer");
            auto m = b.m;
            later->push_back([=] { memcpy(p, m->p + off, n); });
            if (blocking) finish();
            return 0;
        }
        int enqueueWriteBuffer(const Buffer &b, cl_bool blocking, size_t off, size_t n, const void *p) {
            if (off + n > b.m->n) throw Error(-30, "clEnqueueWriteBuffer");
            auto m = b.m;
            later->push_back([=] { memcpy(m->p + off, p, n); });
            if (blocking) finish();
            return 0;
        }
        int finish() {
            for (auto &f: *later) f();
            later->clear();
            return 0;
        }
        int flush() { return finish(); }
    };
}
