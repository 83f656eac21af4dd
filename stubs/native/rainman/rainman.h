// Executable stand-in for the absent rainman submodule (replay only): reference-counted exact-size blocks,
// bounds-checked indexing, poison-filled scalars.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace rainman {
    [[noreturn]] inline void oob(uint64_t i, uint64_t n) {
        fprintf(stderr, "ERROR: index %lu outside a block of %lu elements\n", (unsigned long) i, (unsigned long) n);
        abort();
    }
    struct Allocator {
        static inline uint64_t live = 0, peak = ~0ull;
        template<typename T, typename ...A> T *rnew(uint64_t n, A &&...a) {
            T *p = (T *) malloc(n * sizeof(T));
            memset((void *) p, 0xCD, n * sizeof(T));
            for (uint64_t i = 0; i < n; i++) new(p + i) T(a...);
            return p;
        }
        template<typename T> T *rmalloc(uint64_t n) {
            T *p = (T *) malloc(n * sizeof(T));
            memset((void *) p, 0xCD, n * sizeof(T));
            return p;
        }
        template<typename T> void rfree(T *p) { if (p) { free((void *) p); } }
        void peak_size(uint64_t n) { peak = n; }
        uint64_t peak_size() { return peak; }
        uint64_t alloc_size() { return live; }
    };
    template<typename T>
    class ptr {
        std::shared_ptr<T> s;
        T *p = nullptr;
        uint64_t n = 0;
        template<typename F> void alloc(uint64_t cnt, F f) {
            T *raw = (T *) malloc(cnt * sizeof(T));
            memset((void *) raw, 0xCD, cnt * sizeof(T));
            for (uint64_t i = 0; i < cnt; i++) f(raw + i);
            s = std::shared_ptr<T>(raw, [cnt](T *q) {
                if constexpr (!std::is_trivially_destructible_v<T>) for (uint64_t i = 0; i < cnt; i++) q[i].~T();
                free((void *) q);
            });
            p = raw;
            n = cnt;
        }
    public:
        ptr() { alloc(1, [](T *q) { new(q) T(); }); }
        explicit ptr(uint64_t cnt) { alloc(cnt, [](T *q) { if constexpr (!std::is_trivially_default_constructible_v<T>) new(q) T(); }); }
        template<typename ...A, typename = std::enable_if_t<(sizeof...(A) > 0)>>
        ptr(uint64_t cnt, const A &...a) { alloc(cnt, [&](T *q) { new(q) T(a...); }); }
        ptr(T *raw, uint64_t cnt) : p(raw), n(cnt) {}
        ptr(const ptr &) = default;
        ptr &operator=(const ptr &) = default;
        T *pointer() const { return p; }
        uint64_t size() const { return n; }
        T &operator[](uint64_t i) const { if (i >= n) oob(i, n); return p[i]; }
        T *operator->() const { return p; }
        T &operator*() const { if (n == 0) oob(0, 0); return *p; }
        bool operator==(const ptr &o) const { return p == o.p; }
    };
    template<typename T> using ptr2d = ptr<ptr<T>>;
    template<typename T> using ptr3d = ptr<ptr<ptr<T>>>;
    template<typename T> ptr2d<T> make_ptr2d(uint64_t a, uint64_t b) {
        ptr2d<T> r(a);
        for (uint64_t i = 0; i < a; i++) r[i] = ptr<T>(b);
        return r;
    }
    template<typename T> ptr3d<T> make_ptr3d(uint64_t a, uint64_t b, uint64_t c) {
        ptr3d<T> r(a);
        for (uint64_t i = 0; i < a; i++) r[i] = make_ptr2d<T>(b, c);
        return r;
    }
    template<typename T>
    class option {
        std::shared_ptr<T> v;
    public:
        option() = default;
        option(const T &x) : v(std::make_shared<T>(x)) {}
        bool is_some() const { return (bool) v; }
        bool is_none() const { return !v; }
        T inner() const { return *v; }
    };
    class cache {
    public:
        cache() = default;
        cache(const std::string &, uint64_t) {}
    };
    template<typename T>
    class virtual_array {
        std::shared_ptr<std::vector<T>> v;
    public:
        virtual_array() = default;
        virtual_array(const cache &, uint64_t n) : v(std::make_shared<std::vector<T>>(n)) {}
        T operator[](uint64_t i) const { if (i >= v->size()) oob(i, v->size()); return (*v)[i]; }
        void set(const T &x, uint64_t i) { if (i >= v->size()) oob(i, v->size()); (*v)[i] = x; }
        uint64_t size() const { return v ? v->size() : 0; }
    };
}
namespace std {
    template<typename T> struct hash<rainman::ptr<T>> { size_t operator()(const rainman::ptr<T> &p) const { return (size_t) p.pointer(); } };
}
