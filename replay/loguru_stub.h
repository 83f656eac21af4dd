// logging sink for the replay harnesses (the log text itself is discarded)
#pragma once
#include <cstdarg>
#include <cstdio>
#include <loguru/loguru.hpp>
namespace loguru {
    Verbosity current_verbosity_cutoff() { return Verbosity_WARNING; }
    void log(Verbosity, const char *, unsigned, const char *format, ...) {
        char b[512];
        va_list a;
        va_start(a, format);
        vsnprintf(b, sizeof b, format, a);
        va_end(a);
    }
}
