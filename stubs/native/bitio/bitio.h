// Executable stand-in for the absent bitio submodule (replay only): one bit position, big-endian bits.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <vector>
namespace bitio {
    struct bitio_exception : std::runtime_error { using std::runtime_error::runtime_error; };
    class stream {
        uint8_t *mem = nullptr;
        FILE *fp = nullptr;
        std::vector<uint8_t> own;
        bool is_file = false;
        bool get(uint64_t bit) {
            uint64_t b = bit >> 3;
            if (is_file) { if (b >= own.size()) throw bitio_exception("end of stream"); return own[b] >> (7 - (bit & 7)) & 1; }
            if (b >= len) throw bitio_exception("end of stream");
            return mem[b] >> (7 - (bit & 7)) & 1;
        }
        void put(uint64_t bit, bool v) {
            uint64_t b = bit >> 3;
            uint8_t m = 1u << (7 - (bit & 7));
            if (is_file) { if (b >= own.size()) own.resize(b + 1); own[b] = v ? own[b] | m : own[b] & ~m; return; }
            if (b >= len) throw bitio_exception("end of stream");
            mem[b] = v ? mem[b] | m : mem[b] & ~m;
        }
    public:
        uint64_t len = 0, pos = 0;
        uint64_t log_reads = 0, log_writes = 0;
        stream() = default;
        stream(uint8_t *m, uint64_t n) : mem(m), len(n) {}
        stream(const uint8_t *m, uint64_t n) : mem((uint8_t *) m), len(n) {}
        explicit stream(FILE *f) : fp(f), is_file(true) {
            if (!f) return;
            fseek(f, 0, SEEK_END);
            long n = ftell(f);
            rewind(f);
            own.resize(n > 0 ? n : 0);
            if (n > 0 && fread(own.data(), 1, n, f) != (size_t) n) throw bitio_exception("read");
        }
        ~stream() { }
        uint64_t read(uint8_t n) { log_reads++; uint64_t r = 0; for (int i = 0; i < n; i++) r = r << 1 | get(pos++); return r; }
        void write(uint64_t v, uint8_t n) { log_writes++; for (int i = 0; i < n; i++) put(pos++, v >> (n - 1 - i) & 1); }
        void seek(int64_t n) { pos += n; }
        void seek_to(uint64_t p) { pos = p; }
        uint64_t size() { return is_file ? own.size() : len; }
        void flush() {
            if (!is_file || !fp) return;
            rewind(fp);
            fwrite(own.data(), 1, own.size(), fp);
            fflush(fp);
        }
        void close() { flush(); if (fp) { fclose(fp); fp = nullptr; } }
    };
}
