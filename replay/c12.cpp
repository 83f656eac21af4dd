#include "hz_native.h"
#include <hzip_core/utils/stack.h>
#include <vector>
using namespace hzn;
int main(int argc, char **argv) {
    init(argc, argv);
    do {
        HZ_Stack<uint32_t> s;
        std::vector<uint32_t> m;
        int rounds = 1 + rnd(6);
        std::string w = "history:";
        auto look = [&] {
            if (s.size() != m.size()) fail(w + fmt(": size() is %lu, %lu elements are held", (unsigned long) s.size(), (unsigned long) m.size()));
            if (s.empty() != m.empty()) fail(w + ": empty() is wrong");
            if (!m.empty() && s.top() != m.back()) fail(w + ": top() is not the element pushed last");
        };
        for (int r = 0; r < rounds; r++) {
            uint64_t n = rnd(3) ? rnd(5) : rnd(2) ? 65536 - 2 + rnd(5) : rnd(300000);
            if (rnd(2)) {
                w += fmt(" push %lu", (unsigned long) n); mark(w);
                for (uint64_t i = 0; i < n; i++) { uint32_t x = rng(); s.push(x); m.push_back(x); if (i < 3 || i + 3 > n || i % 65536 < 2) look(); }
            } else {
                uint64_t k = rnd(3) == 0 ? m.size() : std::min<uint64_t>(n, m.size());
                if (rnd(4) == 0) k = std::min<uint64_t>(m.size(), m.size() % 65536 + rnd(2));
                w += fmt(" pop %lu", (unsigned long) k); mark(w);
                for (uint64_t i = 0; i < k; i++) { if (s.top() != m.back()) look(); s.pop(); m.pop_back(); if (i < 3 || i + 3 > k || i % 65536 < 2) look(); }
                if (m.empty() && rnd(2)) { s.pop(); look(); }
            }
            look();
        }
        while (!m.empty()) { if (s.top() != m.back()) fail(w + ": elements come back in the wrong order"); s.pop(); m.pop_back(); }
        look();
    } while (more());
    return done();
}
