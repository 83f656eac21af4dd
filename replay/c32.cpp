#include "hz_native.h"
#include "loguru_stub.h"
#include <hzip_network/api/handlers/query.h>
#include <hzip_network/errors/api.h>
using namespace hzn;

// the connection is a script of bytes and a record of what is sent; archives are names
static std::string in, out;
static size_t at;
static long faultAt;
struct Lost : std::runtime_error { Lost() : std::runtime_error("connection lost") {} };
hzapi::SocketInterface::SocketInterface(int s, std::string ip, uint16_t p) : _sock(s), _ip_addr(ip), _port(p) {}
void hzapi::SocketInterface::t_recv(void *b, size_t n, bool) {
    if (faultAt-- == 0 || at + n > in.size()) throw Lost();
    memcpy(b, in.data() + at, n);
    at += n;
}
void hzapi::SocketInterface::t_send(const void *b, size_t n) const {
    if (faultAt-- == 0) throw Lost();
    out.append((const char *) b, n);
}
static std::vector<std::string> log_;
static std::map<const HZ_Archive *, std::string> who;
static std::vector<std::unique_ptr<char[]>> mem;
static int opfail;
static std::vector<HZ_ArchiveTrieListElement> entries;
static bool there;
struct Bad : std::runtime_error { Bad() : std::runtime_error("failed") {} };
static void op(const char *what, const HZ_Archive *a, const std::string &p) {
    log_.push_back(std::string(what) + " " + who[a] + " " + p);
    if (opfail == 2) throw Bad();
}
rainman::ptr<HZ_Archive> hzapi::ArchiveProvider::provide(const std::string &p) {
    log_.push_back("open " + p);
    if (opfail == 1) throw Bad();
    mem.emplace_back(new char[sizeof(HZ_Archive)]);
    auto *a = (HZ_Archive *) mem.back().get();
    who[a] = p;
    return rainman::ptr<HZ_Archive>(a, 1);
}
bool HZ_Archive::check_file_exists(const std::string &p) { op("check", this, p); return there; }
std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_file_system(const std::string &p) { op("list", this, p); return entries; }
std::vector<HZ_ArchiveTrieListElement> HZ_Archive::list_mstate_system(const std::string &p) { op("listm", this, p); return entries; }
void HZ_Archive::remove_file(const std::string &p) { op("remove", this, p); }
void HZ_Archive::uninstall_mstate(const std::string &p) { op("uninstall", this, p); }

static bool good(const std::string &p) {
    return p.size() && p[0] == '/' && p.find('\\') == p.npos && p.find(' ') == p.npos && p.find("//") == p.npos;
}
static std::string hex(const std::string &s) { std::string r; for (unsigned char ch : s) r += fmt(ch > 32 && ch < 127 ? "%c" : "<%02x>", ch); return r.size() > 300 ? r.substr(0, 300) + "..." : r; }

// what should happen, from the bytes alone
static void expect(std::vector<std::string> &l, std::string &o, bool &ends, bool &usage) {
    size_t i = 0;
    long f = faultAt;
    bool piggy = false;
    std::optional<std::string> arch, target;
    ends = usage = false;
    auto get = [&](size_t n, std::string &s) { if (f-- == 0 || i + n > in.size()) return false; s = in.substr(i, n); i += n; return true; };
    auto text = [&](std::string &s) {
        std::string t;
        if (!get(2, t)) return false;
        uint16_t n;
        memcpy(&n, t.data(), 2);
        if (!get(n, s)) return false;
        s = s.c_str();
        return true;
    };
    auto send = [&](const void *b, size_t n) { if (f-- == 0) return false; o.append((const char *) b, n); return true; };
    while (true) {
        std::string c, s;
        if (!get(1, c)) return;
        uint8_t k = c[0];
        if (k == 0) {
            if (!text(s)) return;
            l.push_back("open " + s);
            if (opfail == 1) return;
            arch = s;
        } else if (k == 7) {
            if (!text(s) || !good(s)) return;
            target = s;
        } else if (k == 3) piggy = true;
        else if (k == 6) { usage = true; ends = f != 0; return; }
        else if (k > 8) return;
        else {
            if (!arch || !target || (!piggy && k != 4 && k != 5)) return;
            l.push_back(std::string(k == 1 ? "check " : k == 2 ? "list " : k == 8 ? "listm " : k == 4 ? "remove " : "uninstall ") + *arch + " " + *target);
            if (opfail == 2) return;
            if (k == 1) { if (!send(&there, 1)) return; }
            if (k == 2 || k == 8) {
                uint64_t n = entries.size();
                if (!send(&n, 8)) return;
                for (auto &e : entries) {
                    uint16_t m = e.entry.size();
                    if (!send(&m, 2) || !send(e.entry.data(), m) || !send(&e.is_leaf, 1)) return;
                }
            }
            ends = true;
            return;
        }
    }
}
static uint64_t n_ends;
static void one(const std::string &bytes, long fault, int of) {
    in = bytes; at = 0; out.clear(); log_.clear(); who.clear(); mem.clear(); faultAt = fault; opfail = of;
    std::string story = "query " + hex(bytes) + (fault >= 0 ? fmt(", connection lost at transfer %ld", fault) : "") + (of ? of == 1 ? ", archives cannot be opened" : ", archive operations fail" : "");
    mark(story);
    std::vector<std::string> l;
    std::string o;
    bool ends, usage;
    expect(l, o, ends, usage);
    bool done = false;
    {
        rainman::ptr<hzapi::ArchiveProvider> prov((hzapi::ArchiveProvider *) 64, 1);
        hzapi::Query q(3, "127.0.0.1", 4242, prov);
        try { q.start(); done = true; } catch (std::exception &) {} catch (...) {}
    }
    std::string a, b;
    for (auto &x : log_) a += hex(x) + "; ";
    for (auto &x : l) b += hex(x) + "; ";
    if (a != b) fail(story + ": does [" + a + "] instead of [" + b + "]");
    if (done != ends) fail(story + (done ? ": is answered but should fail" : ": fails but should be answered"));
    if (usage ? out.size() != 8 * ends : out != o) fail(story + ": sends " + hex(out) + " instead of " + hex(o));
    n_ends += ends;
}
static std::string arg(int k, const std::string &p) { uint16_t n = p.size(); return std::string(1, (char) k) + std::string((char *) &n, 2) + p; }
static std::string path() {
    static const char *odd[] = {"", "a", "/a b", "/a//b", "/a\\b", "/"};
    if (!rnd(8)) return odd[rnd(6)];
    std::string s = "/";
    for (uint64_t n = rnd(20) ? rnd(12) : rnd(65535); n; n--) s += s.back() == '/' || rnd(4) ? 'a' + rnd(26) : rnd(40) ? '/' : '\0';
    return s;
}
int main(int argc, char **argv) {
    init(argc, argv);
    for (int k = 0; k < 256; k++) for (int p = 0; p < 8; p++) {
        entries = {{"x", true}, {"yy", false}};
        there = p & 1;
        std::string s = (p & 1 ? arg(0, "/arch") : "") + (p & 2 ? arg(7, "/t/u") : "") + (p & 4 ? "\3" : "");
        for (int of = 0; of < 3; of++) for (int f = -1; f < (k < 10 ? 16 : 0); f++) one(s + (k == 0 || k == 7 ? arg(k, "/q") : std::string(1, (char) k)), f, of);
    }
    for (int k : {0, 7}) for (int n : {255, 256, 4096, 65534, 65535}) one(arg(7 - k, "/x") + "\3" + arg(k, "/" + std::string(n - 1, 'p')) + "\4", -1, 0);
    while (more()) {
        entries.clear();
        for (uint64_t n = rnd(6); n; n--) entries.push_back({path(), (bool) rnd(2)});
        there = rnd(2);
        std::string s;
        for (uint64_t n = rnd(8); n; n--) s += rnd(3) == 0 ? "\3" : rnd(2) ? arg(0, path()) : arg(7, path());
        s += rnd(12) ? std::string(1, (char) rnd(9)) : std::string(1, (char) rnd(256));
        one(s, rnd(3) ? -1 : rnd(24), rnd(4) ? 0 : rnd(3));
    }
    return done();
}
