// Declaration-level stand-in for the absent rainman submodule: what the verified text is compiled against.
// Assumed contract of rainman (not in this repository): ptr<T>(n) is a fresh block of n elements, copies alias it.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
#include <condition_variable>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
extern "C" void hzv_fill(void *p, uint64_t n, uint64_t size, uint64_t value);
namespace rainman {
    struct Allocator {
        template<typename T, typename ...A> T *rnew(uint64_t n, A &&...a) {
            T *p = (T *) ::operator new(n * sizeof(T));
            if constexpr (!(std::is_trivially_default_constructible_v<T> && sizeof...(A) == 0)) {
                if constexpr (sizeof(T) <= 8 && std::is_arithmetic_v<T>) { hzv_fill(p, n, sizeof(T), (uint64_t) (T) (a, ...)); }
                else for (uint64_t i = 0; i < n; i++) new(p + i) T(a...);
            }
            return p;
        }
        template<typename T> T *rmalloc(uint64_t n) { return (T *) ::operator new(n * sizeof(T)); }
        template<typename T> void rfree(T *p) { ::operator delete((void *) p); }
        void peak_size(uint64_t n);
        uint64_t peak_size();
        uint64_t alloc_size();
    };
    template<typename T>
    class ptr {
    public:
        T *p;
        uint64_t n;
        ptr() : p((T *) ::operator new(sizeof(T))), n(1) { new(p) T(); }
        explicit ptr(uint64_t cnt) : p((T *) ::operator new(cnt * sizeof(T))), n(cnt) {
            if constexpr (!std::is_trivially_default_constructible_v<T>) for (uint64_t i = 0; i < cnt; i++) new(p + i) T();
        }
        template<typename A0, typename ...A>
        ptr(uint64_t cnt, const A0 &a0, const A &...a) : p((T *) ::operator new(cnt * sizeof(T))), n(cnt) {
            if constexpr (std::is_arithmetic_v<T>) hzv_fill(p, cnt, sizeof(T), (uint64_t) (T) a0);
            else for (uint64_t i = 0; i < cnt; i++) new(p + i) T(a0, a...);
        }
        ptr(T *raw, uint64_t cnt) : p(raw), n(cnt) {}
        ptr(const ptr &) = default;
        ptr &operator=(const ptr &) = default;
        T *pointer() const { return p; }
        uint64_t size() const { return n; }
        T &operator[](uint64_t i) const { return p[i]; }
        T *operator->() const { return p; }
        T &operator*() const { return *p; }
        bool operator==(const ptr &o) const { return p == o.p; }
    };
    template<typename T> using ptr2d = ptr<ptr<T>>;
    template<typename T> using ptr3d = ptr<ptr<ptr<T>>>;
    template<typename T> ptr2d<T> make_ptr2d(uint64_t a, uint64_t b);
    template<typename T> ptr3d<T> make_ptr3d(uint64_t a, uint64_t b, uint64_t c);
    template<typename T>
    class option {
        bool some;
        union { char none; T v; };
    public:
        option() : some(false), none(0) {}
        option(const T &x) : some(true) { new(&v) T(x); }
        option(const option &o) : some(o.some) { if (some) new(&v) T(o.v); }
        option &operator=(const option &o) { some = o.some; if (some) new(&v) T(o.v); return *this; }
        ~option() {}
        bool is_some() const { return some; }
        bool is_none() const { return !some; }
        T inner() const { return v; }
    };
    class cache {
    public:
        cache();
        cache(const std::string &, uint64_t);
        cache(const cache &);
        cache &operator=(const cache &);
    };
    template<typename T>
    class virtual_array {
    public:
        T *p;
        uint64_t n;
        virtual_array() : p(nullptr), n(0) {}
        virtual_array(const cache &, uint64_t cnt) : p((T *) ::operator new(cnt * sizeof(T))), n(cnt) {}
        T operator[](uint64_t i) const { return p[i]; }
        void set(const T &x, uint64_t i) { p[i] = x; }
        uint64_t size() const { return n; }
    };
}
namespace std {
    template<typename T> struct hash<rainman::ptr<T>> { size_t operator()(const rainman::ptr<T> &p) const { return (size_t) p.p; } };
}
