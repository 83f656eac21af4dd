#include "hz_native.h"
#include <hzip_core/kernel/hzrans/hzrans64_codec.h>
using namespace hzn;

int main(int argc, char **argv) {
    init(argc, argv);
    do {
        int s = rnd(4) == 0 ? 31 : 1 + rnd(31);
        uint64_t T = 1ull << s;
        uint64_t al = 1 + rnd(std::min<uint64_t>(T, 40));
        uint64_t n = rnd(6) == 0 ? rnd(2) : rnd(40) == 0 ? 60000 + rnd(30000) : rnd(200);
        // an interval per symbol
        std::vector<uint64_t> cut(al + 1);
        cut[al] = T;
        for (;;) {
            for (uint64_t i = 1; i < al; i++) cut[i] = 1 + (rnd(2) ? rnd(T - 1) : rnd(std::min<uint64_t>(T - 1, 64)));
            std::sort(cut.begin(), cut.end());
            if (std::adjacent_find(cut.begin(), cut.end()) == cut.end()) break;
            for (uint64_t i = 0; i < al; i++) cut[i] = i;
            cut[al] = T;
            break;
        }
        hzrans64_encoder e;
        hzrans64_decoder d;
        e.set_header(al, rnd(5) == 0 && s == 31 ? 31 + rnd(40) : s, n);
        d.set_header(al, rnd(5) == 0 && s == 31 ? 31 + rnd(40) : s, n);
        for (int rep = 0; rep < 2; rep++) {      // coder objects are reused
            std::vector<uint64_t> sym(n);
            uint64_t skew = rnd(3);
            for (auto &x : sym) x = skew == 0 ? rnd(al) : skew == 1 ? 0 : (rnd(20) ? al - 1 : rnd(al));
            mark(fmt("scale %d, %lu symbols from %lu, round %d, ", s, (unsigned long) n, (unsigned long) al, rep) + show(sym));
            std::string where = last;
            uint64_t k = n;
            e.set_cross_encoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
                if (k == 0) fail(where + ": encoder asks for more symbols than there are");
                k--;
                st->ls = cut[sym[k] + 1] - cut[sym[k]];
                st->bs = cut[sym[k]];
            });
            e.set_size(n);
            auto r = e.encode();
            if (k) fail(where + ": encoder stopped early");
            if (r.n < 2 || r.n > n + 2) fail(where + fmt(": %lu words", (unsigned long) r.n));
            auto cell = rainman::ptr<uint64_t>(1);
            uint64_t calls = 0;
            d.override_symbol_ptr(cell);
            uint64_t mask = T - 1;
            d.set_cross_decoder([&](const rainman::ptr<hzrans64_t> &st, const rainman::ptr<HZ_Stack<uint32_t>> &) {
                calls++;
                uint64_t b = st->x & mask;
                uint64_t y = std::upper_bound(cut.begin(), cut.end(), b) - cut.begin() - 1;
                *cell = y;
                st->ls = cut[y + 1] - cut[y];
                st->bs = cut[y];
            });
            // exactly the words reported, in a block of their own
            rainman::ptr<uint32_t> w(r.n);
            for (uint64_t i = 0; i < r.n; i++) w[i] = r.data[i];
            auto o = d.decode(w);
            if (o.n != n || calls != n) fail(where + fmt(": decoded %lu symbols", (unsigned long) o.n));
            for (uint64_t i = 0; i < n; i++) if (o.data[i] != sym[i]) fail(where + fmt(": symbol %lu decodes to %lu instead of %lu", (unsigned long) i, (unsigned long) o.data[i], (unsigned long) sym[i]));
        }
    } while (more());
    return done();
}
