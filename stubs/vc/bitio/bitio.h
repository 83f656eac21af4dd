// Declaration-level stand-in for the absent bitio submodule: the methods stay external, handlers give the assumed contract.
#pragma once
#include <cstdint>
#include <cstdio>
namespace bitio {
    class stream {
    public:
        uint64_t id;
        stream() : id(0) {}
        stream(uint8_t *m, uint64_t n);
        stream(FILE *f);
        stream(const stream &o) = default;
        uint64_t read(uint8_t n);
        void write(uint64_t v, uint8_t n);
        void seek(int64_t n);
        void seek_to(uint64_t p);
        void flush();
        void close();
        uint64_t size();
    };
}
