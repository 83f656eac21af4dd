#include "hz_native.h"
#include <atomic>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <hzip_core/utils/semaphore.h>
using namespace hzn;
using namespace std::chrono_literals;

static bool wait_for(std::atomic<int> &v, int want, int ms) {
    for (int i = 0; i < ms * 4; i++) { if (v.load() >= want) return true; std::this_thread::sleep_for(250us); }
    return v.load() >= want;
}

// permits p, w waiters, r releases: exactly min(w, p + r) acquisitions may complete, and they must
static void waves(int p, int w, int r, bool late) {
    mark(fmt("%d permits, %d acquiring threads, %d releases%s", p, w, r, late ? " once all are asleep" : ""));
    auto *s = new Semaphore(p);          // leaked on purpose when threads stay blocked
    auto *got = new std::atomic<int>(0);
    std::vector<std::thread> ts;
    for (int i = 0; i < w; i++) ts.emplace_back([s, got] { s->acquire(); got->fetch_add(1); });
    int first = std::min(w, p);
    if (late) {
        if (!wait_for(*got, first, 20000)) fail(fmt("%d permits: only %d of %d acquisitions complete", p, got->load(), first));
        std::this_thread::sleep_for(3ms);
        if (got->load() > first) fail(fmt("%d permits: %d acquisitions completed", p, got->load()));
    }
    for (int i = 0; i < r; i++) s->release();
    int want = std::min(w, p + r);
    if (!wait_for(*got, want, 20000)) fail(fmt("%d permits and %d releases: only %d of %d acquisitions complete (waiters asleep while permits are available)", p, r, got->load(), want));
    std::this_thread::sleep_for(1ms);
    if (got->load() > p + r) fail(fmt("%d permits and %d releases: %d acquisitions completed", p, r, got->load()));
    uint64_t left = (uint64_t) (p + r - want);
    if (want == w) {
        for (auto &t : ts) t.join();
        if (s->_count != left) fail(fmt("%d permits + %d releases - %d acquisitions: %lu permits left", p, r, want, (unsigned long) s->_count));
        delete s;
        delete got;
    } else {
        for (int i = want; i < w; i++) s->release();
        if (!wait_for(*got, w, 20000)) fail("waiters left asleep");
        for (auto &t : ts) t.join();
        delete s;
        delete got;
    }
}

// mutual exclusion: never more than p holders
static void contend(int p, int w, int rounds) {
    mark(fmt("%d permits, %d threads, %d acquire/release rounds each", p, w, rounds));
    Semaphore s(p);
    std::atomic<int> in{0}, worst{0};
    std::vector<std::thread> ts;
    for (int i = 0; i < w; i++)
        ts.emplace_back([&, i] {
            for (int k = 0; k < rounds; k++) {
                s.acquire();
                int n = ++in;
                for (int m = worst.load(); n > m && !worst.compare_exchange_weak(m, n););
                if ((k + i) % 3 == 0) std::this_thread::yield();
                --in;
                s.release();
            }
        });
    for (auto &t : ts) t.join();
    if (worst > p) fail(fmt("%d permits but %d threads held one at once", p, worst.load()));
    if (s._count != (uint64_t) p) fail(fmt("%d permits before, %lu after balanced use", p, (unsigned long) s._count));
}

int main(int argc, char **argv) {
    init(argc, argv);
    { Semaphore z; if (z._count != 0) fail("default semaphore has permits"); }
    for (int p = 0; p < 3; p++) for (int w = 1; w < 5; w++) for (int r = 0; r < 4; r++) for (int l = 0; l < 2; l++) waves(p, w, r, l);
    do {
        contend(1 + rnd(3), 2 + rnd(7), 300);
        waves(rnd(3), 1 + rnd(6), rnd(6), rnd(2));
    } while (more());
    return done();
}
