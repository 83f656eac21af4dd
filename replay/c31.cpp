#include "hz_native.h"
#include "loguru_stub.h"
#include <atomic>
#include <cerrno>
#include <thread>
#include <set>
#include <sys/socket.h>
#include <hzip_network/api/api.h>
#include <hzip_network/api/handlers/streamer.h>
#include <hzip_network/api/handlers/query.h>
#include <hzip_network/errors/api.h>
using namespace hzn;

// the system calls are stand-ins; connections are numbers that nothing real belongs to
enum { SERVER = 900 };
struct Done {};
static std::mutex rm;
static std::vector<int> script;      // per accept: bit 0/1: setting the 1st / 2nd option fails, bit 2: accept fails
static std::vector<std::pair<int, int>> opts_at_start;
static std::map<int, int> closed, accepted, optcount;
static std::map<int, std::set<int>> opts;
static std::set<int> active, started;
static size_t at;
static uint64_t peak;
static std::string wrong;
static bool limit;
static void odd(const std::string &s) { if (wrong.empty()) wrong = s; }
static int delay;
extern "C" int __wrap_socket(int, int, int) { return SERVER; }
extern "C" int __wrap_bind(int, const sockaddr *, socklen_t) { return 0; }
extern "C" int __wrap_listen(int, int) { return 0; }
extern "C" int __wrap_accept(int fd, sockaddr *a, socklen_t *n) {
    if (fd != SERVER) odd("accepts on another socket");
    std::lock_guard<std::mutex> l(rm);
    for (auto &x : accepted) if (!closed[x.first] && !started.count(x.first) && !(x.second & 8)) {
        // handed to a thread that has not begun, or dropped: found out at the end
    }
    if (at >= script.size()) throw Done();
    memset(a, 0, *n);
    int s = script[at++];
    if (s & 4) return -1;
    int c = 1000 + at;
    accepted[c] = s;
    return c;
}
extern "C" int __wrap_setsockopt(int fd, int lev, int name, const void *v, socklen_t n) {
    std::lock_guard<std::mutex> l(rm);
    if (fd < 0) return -1;
    if (!accepted.count(fd) || lev != SOL_SOCKET || n != sizeof(timeval)) odd("sets another option");
    if (started.count(fd)) odd("sets an option after the session started");
    int k = optcount[fd]++;
    if (accepted[fd] >> k & 1) return -1;
    opts[fd].insert(name);
    return 0;
}
static void begin(int fd) {
    if (fd < 0) return;
    std::lock_guard<std::mutex> l(rm);
    if (closed[fd]) odd("a connection is used after it was closed");
    if (!started.insert(fd).second) return;
    active.insert(fd);
    peak = std::max<uint64_t>(peak, active.size());
    if (limit && !(opts[fd].count(SO_RCVTIMEO) && opts[fd].count(SO_SNDTIMEO))) odd("a session runs without time limits");
    if (!limit && opts[fd].size()) odd("a time limit nobody asked for");
}
extern "C" ssize_t __wrap_send(int fd, const void *, size_t n, int) { begin(fd); return fd < 0 ? -1 : (ssize_t) n; }
extern "C" ssize_t __wrap_recv(int fd, void *, size_t, int) {
    begin(fd);
    if (delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
    return -1;
}
extern "C" int __wrap_close(int fd) {
    std::lock_guard<std::mutex> l(rm);
    if (fd < 0) return -1;
    if (!accepted.count(fd)) odd("another descriptor is closed");
    if (closed[fd]++) odd("a connection is closed twice");
    active.erase(fd);
    return 0;
}
hzapi::Streamer::Streamer(int s, const std::string &ip, uint16_t p, const rainman::ptr<HZ_Processor> &, const rainman::ptr<hzapi::ArchiveProvider> &) : SocketInterface(s, ip, p) {}
void hzapi::Streamer::start() {}
hzapi::Query::Query(int s, const std::string &ip, uint16_t p, const rainman::ptr<hzapi::ArchiveProvider> &) : SocketInterface(s, ip, p) {}
void hzapi::Query::start() {}
void hzapi::ArchiveProvider::close() {}
HZ_Processor::HZ_Processor(uint64_t) {}

static void one(uint64_t instances, bool lim, const std::vector<int> &sc, int us) {
    std::string story = fmt("%lu sessions at most,%s connections", (unsigned long) instances, lim ? " time limit," : "");
    for (int s : sc) story += s & 4 ? " failed" : s & 1 && lim ? " no-receive-limit" : s & 2 && lim ? " no-send-limit" : " good";
    mark(story);
    {
        std::lock_guard<std::mutex> l(rm);
        script = sc; at = 0; peak = 0; wrong.clear(); limit = lim; delay = us;
        closed.clear(); accepted.clear(); optcount.clear(); opts.clear(); active.clear(); started.clear();
    }
    static std::vector<hzapi::Api *> keep;
    auto *a = new hzapi::Api(instances);
    a->process(1)->protect("secret");
    if (lim) { timeval t{3, 0}; a->timeout(t); }
    std::atomic<int> state{0};
    std::thread t([&] { try { a->start("127.0.0.1", 4242); } catch (Done &) { state = 1; } catch (...) { state = 2; } });
    for (int i = 0; !state; i++) {
        if (i > 50000) fail(story + ": the server stops accepting connections");
        std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    t.join();
    if (state == 2) fail(story + ": the server ends with an exception");
    for (int i = 0;; i++) {
        bool done;
        std::string why;
        {
            std::lock_guard<std::mutex> l(rm);
            done = true;
            for (auto &x : accepted) if (!closed[x.first]) { done = false; why = fmt("connection %d is never closed", x.first - 1000); }
        }
        {
            std::lock_guard<std::mutex> l(a->_semaphore->_mutex);
            if (done && a->_semaphore->_count != instances) { done = false; why = fmt("%lu of %lu permits left", (unsigned long) a->_semaphore->_count, (unsigned long) instances); }
        }
        if (done) break;
        if (i > 3000) fail(story + ": " + (wrong.empty() ? why : wrong));
        std::this_thread::sleep_for(std::chrono::microseconds(i < 500 ? 20 : 200));
    }
    std::this_thread::sleep_for(std::chrono::microseconds(50));
    std::lock_guard<std::mutex> l(rm);
    if (wrong.size()) fail(story + ": " + wrong);
    if (peak > instances) fail(story + fmt(": %lu sessions at a time", (unsigned long) peak));
    for (auto &x : accepted) if ((!lim || !(x.second & 3)) && !started.count(x.first)) fail(story + fmt(": connection %d gets no session", x.first - 1000));
    delete a;
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (uint64_t n = 1; n < 4; n++) for (int lim = 0; lim < 2; lim++) for (int x = 0; x < 5; x++) one(n, lim, {x, 0, x == 4 ? 4 : 0, x, 0, 0}, x ? 0 : 300);
    while (more()) {
        std::vector<int> s(rnd(12));
        for (auto &x : s) x = rnd(3) ? 0 : rnd(8) ? rnd(4) : 4;
        one(1 + rnd(4), rnd(2), s, rnd(2) ? 0 : rnd(400));
    }
    return done();
}
