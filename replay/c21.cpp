#include "hz_native.h"
#include "loguru_stub.h"
#include <cerrno>
#include <sys/socket.h>
#include <thread>
#include <hzip_network/api/handlers/socket_class.h>
#include <hzip_network/errors/api.h>
using namespace hzn;

// the network is replaced by a stand-in that records what is sent and serves what is received
static std::string sent, incoming;
static std::vector<size_t> chunks;
static int calls, fault_at = -1, fault_kind, fd_used, want_fd, badfd;
static bool nowait;
extern "C" ssize_t __wrap_send(int fd, const void *b, size_t n, int) {
    if (fd != want_fd) badfd++;
    int c = calls++;
    if (c == fault_at) {
        if (fault_kind == 0) { errno = EPIPE; return -1; }
        size_t k = n ? rnd(n) : 0;
        if (!n) { errno = EPIPE; return -1; }
        sent.append((const char *) b, k);
        return k;
    }
    sent.append((const char *) b, n);
    chunks.push_back(n);
    return n;
}
extern "C" ssize_t __wrap_recv(int fd, void *b, size_t n, int flags) {
    if (fd != want_fd) badfd++;
    int c = calls++;
    size_t k = std::min(n, incoming.size());
    if (c == fault_at) {
        if (fault_kind == 0 || !n) { errno = ECONNRESET; return -1; }
        k = rnd(k);
        if (k == n) k = 0;
    } else if (!(flags & MSG_WAITALL) && k > 1) k = 1 + rnd(k - 1); // a plain recv may return early
    memcpy(b, incoming.data(), k);
    incoming.erase(0, k);
    return k;
}
static void begin(int fa, int fk) { sent.clear(); chunks.clear(); calls = 0; fault_at = fa; fault_kind = fk; badfd = 0; }

struct T : hzapi::SocketInterface { T(int s) : SocketInterface(s, "127.0.0.1", 4242) {} };

static std::string bytes(size_t n) { std::string s(n, 0); for (auto &c : s) c = (char) rng(); return s; }

static void one(size_t n, int fa, int fk) {
    want_fd = 7 + rnd(100);
    T t(want_fd);
    std::string pay = bytes(n);
    char *p = (char *) malloc(n + (n == 0));
    memcpy(p, pay.data(), n);
    int total;
    // send
    mark(fmt("send %zu bytes, fault at call %d kind %d", n, fa, fk));
    begin(fa, fk);
    bool thrown = false;
    try { t.t_send(p, n); } catch (ApiErrors::ConnectionError &) { thrown = true; }
    bool faulty = fa >= 0 && fa < 2;
    if (thrown != faulty) fail(fmt("send of %zu bytes with %s at transfer %d: %s", n, fk ? "a short write" : "a failed write", fa, thrown ? "error reported without a fault" : "no connection error"));
    if (!faulty && sent != std::string(1, 0) + pay) fail(fmt("send of %zu bytes put %zu other bytes on the wire", n, sent.size()));
    if (memcmp(p, pay.data(), n)) fail("send changed the payload");
    // receive
    for (int sync = 0; sync < 2; sync++) {
        mark(fmt("receive %zu bytes, sync %d, fault at call %d kind %d", n, sync, fa, fk));
        begin(fa, fk);
        incoming = pay + "tail";
        memset(p, 0xEE, n);
        thrown = false;
        try { t.t_recv(p, n, sync); } catch (ApiErrors::ConnectionError &) { thrown = true; }
        total = sync + 1;
        faulty = fa >= 0 && fa < total;
        if (thrown != faulty) fail(fmt("receive of %zu bytes (sync %d) with %s at transfer %d: %s", n, sync, fk ? "a short transfer" : "a failed transfer", fa, thrown ? "error reported without a fault" : "no connection error"));
        if (!faulty) {
            if (memcmp(p, pay.data(), n)) fail(fmt("receive of %zu bytes delivered other bytes", n));
            if (incoming != "tail") fail("receive consumed the wrong number of bytes");
            if (sent != std::string(sync, 0)) fail("receive handshake wrong");
        }
    }
    free(p);
    begin(fa == 0 ? 0 : -1, fk);
    thrown = false;
    try { t.t_recv_sync(); } catch (ApiErrors::ConnectionError &) { thrown = true; }
    if (thrown != (fa == 0)) fail("handshake error reporting");
    if (fa != 0 && sent != std::string(1, 0)) fail("handshake word");
    // error and success messages
    mark(fmt("error/success message of %zu bytes", n));
    begin(-1, 0);
    t.error(pay);
    uint16_t l = n;
    std::string len((char *) &l, 2), text = pay.substr(0, l);
    if (sent != "\xff" + len + text) fail(fmt("error message of %zu bytes is framed wrongly (%zu bytes on the wire)", n, sent.size()));
    begin(fa, fk);
    thrown = false;
    try { t.success(pay); } catch (ApiErrors::ConnectionError &) { thrown = true; }
    faulty = fa >= 0 && fa < 4;
    if (thrown != faulty) fail(fmt("success message of %zu bytes with a fault at transfer %d: %s", n, fa, thrown ? "error without a fault" : "no connection error"));
    if (!faulty && sent != std::string(1, 0) + len + std::string(1, 0) + text) fail(fmt("success message of %zu bytes is framed wrongly", n));
    begin(fa, fk);
    try { t.error(pay); } catch (...) { fail("sending an error message throws"); }
    if (badfd) fail("another socket was used");
    if (t._sock != want_fd || t._port != 4242 || t._ip_addr != "127.0.0.1") fail("socket object changed");
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (auto &h : hints) if (h.count("n") && h["n"] < 200000) one(h["n"], -1, 0);
    for (size_t n : {0, 1, 2, 3, 7, 8, 100, 255, 256, 257, 1000, 65534, 65535, 65536, 65537, 70000, 131072})
        for (int fa = -1; fa < 5; fa++) for (int fk = 0; fk < 2; fk++) one(n, fa, fk);
    while (more()) one(rnd(3) ? rnd(300) : rnd(70000), (int) rnd(8) - 1, rnd(2));
    return done();
}
