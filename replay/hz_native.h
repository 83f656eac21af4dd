// Bounded execution of the real code: shared driver for the replay harnesses.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

namespace hzn {
    inline std::mt19937_64 rng;
    inline std::chrono::steady_clock::time_point t0;
    inline double budget = 2;
    inline uint64_t cases = 0, nsamples = 0;
    inline std::unordered_set<uint64_t> seen;
    inline std::vector<std::map<std::string, uint64_t>> hints;

    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    inline bool more(double frac = 1.0) { return elapsed() < budget * frac; }
    inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
    inline uint64_t pick(std::initializer_list<uint64_t> l) { return l.begin()[rnd(l.size())]; }

    // value with a bias to boundaries
    inline uint64_t wild(int bits) {
        uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
        switch (rnd(6)) {
            case 0: return rnd(4) & m;
            case 1: return (m - rnd(4)) & m;
            case 2: return ((1ull << rnd(bits)) + rnd(3) - 1) & m;
            case 3: return rnd(256) & m;
            default: return rng() & m;
        }
    }

    [[noreturn]] inline void fail(const std::string &s) {
        printf("STATS cases=%lu distinct=%lu\nFAIL %s\n", (unsigned long) cases, (unsigned long) seen.size(), s.c_str());
        fflush(stdout);
        _Exit(1);
    }

    inline std::string fmt(const char *f, ...) {
        char b[4096];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        return b;
    }

    inline char *last = (char *) calloc(1, 4096);

    // announces the case about to run, so that a crash can be attributed to it
    inline void mark(const std::string &s) {
        cases++;
        if (seen.size() < 2000000) seen.insert(std::hash<std::string>{}(s));
        size_t n = std::min<size_t>(s.size(), 1500);
        memcpy(last, s.data(), n);
        last[n] = 0;
        if (nsamples < 6 && (cases & (cases - 1)) == 0) {
            nsamples++;
            printf("SAMPLE %s\n", s.substr(0, 200).c_str());
        }
    }

    template<typename T>
    std::string show(const T *v, size_t n, size_t cap = 40) {
        std::ostringstream o;
        o << "[" << n << ":";
        for (size_t i = 0; i < n && i < cap; i++) o << (i ? "," : "") << +v[i];
        if (n > cap) o << ",..";
        o << "]";
        return o.str();
    }
    template<typename T>
    std::string show(const std::vector<T> &v, size_t cap = 40) { return show(v.data(), v.size(), cap); }

    inline void known(const std::string &key, const std::string &what) {
        static std::unordered_set<std::string> s;
        if (s.insert(key).second) { printf("KNOWN %s %s\n", key.c_str(), what.c_str()); fflush(stdout); }
    }

    inline void init(int argc, char **argv) {
        uint64_t seed = argc > 1 ? strtoull(argv[1], nullptr, 10) : 1;
        budget = argc > 2 ? atof(argv[2]) : 2;
        rng.seed(seed * 7919 + 17);
        t0 = std::chrono::steady_clock::now();
        if (argc > 4) {
            int fd = open(argv[4], O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, 4096) == 0) {
                void *m = mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (m != MAP_FAILED) last = (char *) m;
            }
        }
        if (argc > 3) {
            std::ifstream f(argv[3]);
            std::string l;
            while (std::getline(f, l)) {
                std::istringstream is(l);
                std::string kv;
                std::map<std::string, uint64_t> m;
                while (is >> kv) {
                    auto p = kv.find('=');
                    if (p != std::string::npos) m[kv.substr(0, p)] = strtoull(kv.c_str() + p + 1, nullptr, 10);
                }
                if (!m.empty()) hints.push_back(m);
            }
        }
    }

    inline int done() {
        printf("STATS cases=%lu distinct=%lu\n", (unsigned long) cases, (unsigned long) seen.size());
        return 0;
    }
}
