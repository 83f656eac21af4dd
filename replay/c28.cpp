#include "hz_native.h"
#include "loguru_stub.h"
#include <cerrno>
#include <sys/socket.h>
#include <hzip_network/api/api.h>
#include <hzip_network/api/handlers/streamer.h>
#include <hzip_network/api/handlers/query.h>
#include <hzip_network/errors/api.h>
#include <hzip_core/utils/utils.h>
using namespace hzn;

// the network and the two handlers are stand-ins that record what happens; the client is a script
static std::string wire, input;      // what the server sent, what the client will send
static int fault_at = -1, calls, closed, after, want_fd, badfd;
static std::string trace;            // handlers run
static std::string key;              // password of the client
static uint64_t twist;               // the client answers with its token ^ twist
static size_t answer_len = 8;
static bool asked;
extern "C" ssize_t __wrap_send(int fd, const void *b, size_t n, int) {
    if (fd != want_fd) badfd++;
    if (closed) after++;
    if (calls++ >= fault_at && fault_at >= 0) { errno = EPIPE; return -1; }
    wire.append((const char *) b, n);
    return n;
}
extern "C" ssize_t __wrap_recv(int fd, void *b, size_t n, int) {
    if (fd != want_fd) badfd++;
    if (closed) after++;
    if (calls++ >= fault_at && fault_at >= 0) { errno = ECONNRESET; return -1; }
    if (!asked) {
        asked = true;
        if (wire.size() >= 9) {
            std::string a = wire.substr(1, 8);
            for (size_t i = 0; i < key.size(); i++) a[i % 8] ^= key[i];
            uint64_t t;
            memcpy(&t, a.data(), 8);
            t ^= twist;
            input = std::string((char *) &t, 8).substr(0, answer_len) + input;
        }
    }
    size_t k = std::min(n, input.size());
    memcpy(b, input.data(), k);
    input.erase(0, k);
    return k;
}
extern "C" int __wrap_close(int fd) { if (fd != want_fd) badfd++; closed++; return 0; }

static rainman::ptr<HZ_Processor> *gproc;
static rainman::ptr<hzapi::ArchiveProvider> *garch;
static std::vector<int> outcome;     // of the next handlers: 0 returns, 1 fails, 2 connection error
static void handler(const char *name, int fd) {
    trace += name;
    if (fd != want_fd) badfd++;
    if (closed) after++;
    int o = 0;
    if (!outcome.empty()) { o = outcome[0]; outcome.erase(outcome.begin()); }
    if (o == 1) throw ApiErrors::InvalidOperationError(std::string("no ") + name);
    if (o == 2) throw ApiErrors::ConnectionError("gone");
    if (o == 3) throw std::runtime_error(std::string("odd ") + name);
}
static int shared;
hzapi::Streamer::Streamer(int s, const std::string &ip, uint16_t p, const rainman::ptr<HZ_Processor> &pr, const rainman::ptr<hzapi::ArchiveProvider> &ar) : SocketInterface(s, ip, p) {
    if (pr.pointer() != gproc->pointer() || ar.pointer() != garch->pointer()) shared++;
}
void hzapi::Streamer::start() { handler("stream", _sock); }
hzapi::Query::Query(int s, const std::string &ip, uint16_t p, const rainman::ptr<hzapi::ArchiveProvider> &ar) : SocketInterface(s, ip, p) {
    if (ar.pointer() != garch->pointer()) shared++;
}
void hzapi::Query::start() { handler("query", _sock); }


// not used by a session
void hzapi::ArchiveProvider::close() {}
HZ_Processor::HZ_Processor(uint64_t) {}

static size_t at;                    // position in what the server sent
static bool lost;                    // what follows may be cut short
static std::string story;
static void bad(const std::string &m) { fail(story + ": " + m); }
static std::string take(size_t n) {
    if (at + n > wire.size()) { if (!lost) bad("the server sent too little"); at = wire.size() + 1; return std::string(n, 0); }
    at += n;
    return wire.substr(at - n, n);
}
static bool cut() { return lost && at >= wire.size(); }
static void zero(const char *w) { if (cut()) return; if (take(1) != std::string(1, 0) && !cut()) bad(std::string(w) + ": no control word"); }
static uint16_t length() { std::string l = take(2); if (at > wire.size()) return 0; uint16_t n; memcpy(&n, l.data(), 2); return n; }

// one session: right is whether the client answers properly; commands are given, the k-th handler ends as how[k]
static void session(const std::string &pass, const std::string &client, uint64_t tw, size_t alen, std::string cmds, const std::vector<int> &how, int fa) {
    if (alen < 8) cmds.clear();
    story = fmt("password of %zu bytes, answer off by %lx, %zu bytes, fault at transfer %d, commands", pass.size(), (unsigned long) tw, alen, fa);
    for (unsigned char ch : cmds) story += fmt(" %u", ch);
    mark(story);
    wire.clear(); input = cmds; trace.clear(); outcome = how; shared = 0;
    fault_at = fa; calls = closed = after = badfd = 0; asked = false;
    key = client; twist = tw; answer_len = alen; want_fd = 5 + rnd(1000);
    rainman::ptr<HZ_Processor> proc((HZ_Processor *) 16, 1);
    rainman::ptr<hzapi::ArchiveProvider> arch((hzapi::ArchiveProvider *) 32, 1);
    gproc = &proc; garch = &arch;
    uint64_t permits = rnd(5);
    rainman::ptr<Semaphore> sem(1, permits);
    bool thrown = false;
    {
        hzapi::ApiInstance a(want_fd, proc, pass, sem, "127.0.0.1", 4242, arch);
        try { a.start(); } catch (...) { thrown = true; }
    }
    if (thrown) bad("an exception leaves the session");
    if (badfd) bad("another connection was used");
    if (shared) bad("a handler got another archive table or processor");
    if (closed != 1) bad(fmt("connection closed %d times", closed));
    if (after) bad("the connection was used after it was closed");
    if (sem->_count != permits + 1) bad(fmt("%ld permits given back", (long) (sem->_count - permits)));
    // what the client saw
    lost = fa >= 0;
    at = 0;
    bool right = alen == 8;
    uint64_t d = tw;
    for (size_t i = 0; i < pass.size(); i++) ((unsigned char *) &d)[i % 8] ^= (unsigned char) pass[i];
    for (size_t i = 0; i < client.size(); i++) ((unsigned char *) &d)[i % 8] ^= (unsigned char) client[i];
    if (d) right = false;
    zero("challenge");
    if (!cut()) take(8);
    zero("answer");
    bool open = right && !cut();
    if (open) {
        zero("welcome");
        if (!cut()) { uint16_t n = length(); zero("welcome"); if (!cut()) take(n); }
    }
    size_t hk = 0, i = 0;
    std::string can;
    while (open && !cut()) {
        zero("command");
        if (cut() || i >= cmds.size()) break;
        unsigned char ch = cmds[i++];
        if (ch == 0xff) break;
        std::string failure;
        bool fails = false;
        if (ch <= 1) {
            const char *name = ch ? "query" : "stream";
            can += name;
            int o = hk < how.size() ? how[hk] : 0;
            hk++;
            if (trace.size() < can.size() && lost) { at = wire.size(); break; }
            if (o == 2) break;
            if (o == 1) fails = true, failure = std::string("no ") + name;
            if (o == 3) fails = true, failure = std::string("odd ") + name;
        } else if (ch == 2) {
            zero("health");
            if (!cut()) { uint16_t n = length(); zero("health"); if (!cut()) take(n); }
        } else fails = true;
        if (fails && !cut()) {
            std::string e = take(1);
            if (at <= wire.size() && e != "\xff") bad("no error answer to a failed command");
            if (cut()) break;
            uint16_t n = length();
            if (cut()) break;
            std::string m = take(n);
            if (at <= wire.size() && failure.size() && m != failure) bad("another message than that of the failed command");
            if (at <= wire.size() && !n) bad("an error without a message");
        }
    }
    if (at < wire.size()) bad(fmt("the server sent %zu bytes more than it may", wire.size() - at));
    can.clear();
    hk = 0;
    for (size_t j = 0; right && j < cmds.size() && (unsigned char) cmds[j] != 0xff; j++) if ((unsigned char) cmds[j] <= 1) {
        can += cmds[j] ? "query" : "stream";
        if ((hk < how.size() ? how[hk] : 0) == 2) break;
        hk++;
    }
    if (lost ? can.substr(0, trace.size()) != trace : can != trace) bad("handlers run: " + trace + ", expected: " + can);
}

int main(int argc, char **argv) {
    init(argc, argv);
    std::string p = "hybridzip";
    auto C = [](std::initializer_list<int> l) { std::string s; for (int x : l) s += (char) x; return s; };
    std::string all = C({2, 0, 1, 7, 2, 0, 254, 1, 255, 0, 1});
    for (int b = 0; b < 64; b++) session(p, p, 1ull << b, 8, all, {}, -1);
    for (size_t n = 0; n < 8; n++) session(p, p, 0, n, "", {}, -1);
    session(p, "other", 0, 8, all, {}, -1);
    session(p, "", 0, 8, all, {}, -1);
    for (int c = 0; c < 256; c++) { session(p, p, 0, 8, C({c, 2, 255, c}), {}, -1); session(p, p, 0, 8, C({c}), {1}, -1); }
    for (int o = 0; o < 4; o++) for (int q = 0; q < 4; q++) session(p, p, 0, 8, all, {o, q, o}, -1);
    for (int fa = 0; fa < 50; fa++) { session(p, p, 0, 8, all, {0, 1, 3}, fa); session(p, p, 5, 8, all, {}, fa); }
    while (more()) {
        std::string pw(rnd(20), 0), cl, cmds(rnd(8), 0);
        for (auto &x : pw) x = rng();
        cl = pw;
        if (!rnd(6) && cl.size()) cl[rnd(cl.size())] ^= 1 << rnd(8);
        for (auto &x : cmds) x = rnd(4) ? rnd(3) : rnd(256);
        if (rnd(2)) cmds += '\xff';
        std::vector<int> how(rnd(5));
        for (auto &x : how) x = rnd(3) ? 0 : rnd(4);
        session(pw, cl, rnd(4) ? 0 : rnd(2) ? 1ull << rnd(64) : rng(), rnd(8) ? 8 : rnd(8), cmds, how, rnd(3) ? -1 : (int) rnd(60));
    }
    return done();
}
