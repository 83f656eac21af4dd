#include "hz_native.h"
#include "loguru_stub.h"
#include <atomic>
#include <thread>
#include <hzip_network/api/providers/archive_provider.h>
using namespace hzn;

// the archive is a stand-in that records what happens to it
struct Rec { std::string path; int loads = 0, closes = 0; bool during = false; };
static std::mutex rm;
static std::map<const HZ_Archive *, Rec> recs;
static std::map<std::string, int> opened, trouble;   // trouble: 1 cannot be opened, 2 cannot be loaded, 3 cannot be closed
static std::atomic<int> inside;
static bool overlap;
HZ_Archive::HZ_Archive(const std::string &p) {
    if (inside++) overlap = true;
    bool bad;
    { std::lock_guard<std::mutex> l(rm); bad = trouble[p] == 1; if (!bad) { opened[p]++; recs[this] = Rec{p}; } }
    inside--;
    if (bad) throw std::runtime_error("cannot open");
}
void HZ_Archive::load() {
    if (inside++) overlap = true;
    std::this_thread::yield();
    bool bad;
    { std::lock_guard<std::mutex> l(rm); Rec &r = recs[this]; r.loads++; bad = trouble[r.path] == 2; }
    inside--;
    if (bad) throw std::runtime_error("cannot load");
}
void HZ_Archive::close() {
    bool bad;
    { std::lock_guard<std::mutex> l(rm); Rec &r = recs[this]; r.closes++; bad = trouble[r.path] == 3; }
    if (bad) throw std::runtime_error("cannot close");
}

static void locked_check(hzapi::ArchiveProvider &p, const std::string &what) {
    // from another thread, as the lock is not recursive
    bool got = false;
    std::thread([&] { got = p.mutex.try_lock(); if (got) p.mutex.unlock(); }).join();
    if (!got) fail(what + ": the table stays locked");
}

static void history(int steps, const std::vector<std::pair<std::string, int>> &script = {}) {
    recs.clear(); opened.clear(); trouble.clear();
    hzapi::ArchiveProvider p;
    std::map<std::string, rainman::ptr<HZ_Archive>> known;
    std::string story = "requests";
    for (int i = 0; i < steps; i++) {
        std::string path = fmt("/a%lu", (unsigned long) rnd(6));
        int t = rnd(2) ? 0 : rnd(4);
        if (i < (int) script.size()) { path = script[i].first; t = script[i].second; }
        trouble[path] = t;
        if (story.size() < 300) story += fmt(" %s%s", path.c_str(), t == 1 ? "(cannot open)" : t == 2 ? "(cannot load)" : "");
        mark(story);
        int before = opened[path];
        bool thrown = false;
        try {
            auto a = p.provide(path);
            if (recs[a.pointer()].path != path) fail(story + ": an archive of another path");
            if (recs[a.pointer()].loads != 1) fail(story + fmt(": loaded %d times", recs[a.pointer()].loads));
            if (known.count(path)) {
                if (a.pointer() != known[path].pointer()) fail(story + ": a second archive for the same path");
                if (opened[path] != before) fail(story + ": opened again");
            } else if (t == 1 || t == 2) fail(story + ": an archive that cannot be opened is given out");
            known.insert({path, a});
        } catch (std::exception &) { thrown = true; }
        if (thrown && known.count(path)) fail(story + ": a known archive is refused");
        if (thrown && t != 1 && t != 2) fail(story + ": fails without a reason");
        if (p.arch_map.size() != known.size()) fail(story + fmt(": %zu archives in the table, expected %zu", p.arch_map.size(), known.size()));
        locked_check(p, story);
    }
    bool bad = false;
    for (auto &k : known) bad |= trouble[k.first] == 3;
    try { p.close(); } catch (std::exception &) { if (!bad) fail(story + ": closing fails"); }
    locked_check(p, story + ", close");
    if (!bad) for (auto &k : known) if (recs[k.second.pointer()].closes != 1) fail(story + fmt(": %s closed %d times", k.first.c_str(), recs[k.second.pointer()].closes));
}

static void threads() {
    recs.clear(); opened.clear(); trouble.clear();
    hzapi::ArchiveProvider p;
    std::vector<std::thread> ts;
    std::vector<std::vector<HZ_Archive *>> got(4);
    overlap = false;
    mark("four threads ask for the same three paths");
    for (int i = 0; i < 4; i++) ts.emplace_back([&, i] { for (int k = 0; k < 9; k++) got[i].push_back(p.provide(k % 3 == 0 ? "/x" : k % 3 == 1 ? "/y" : "/z").pointer()); });
    for (auto &t : ts) t.join();
    if (overlap) fail("two threads open archives at the same time");
    for (auto &o : opened) if (o.second != 1) fail(fmt("%s opened %d times by concurrent requests", o.first.c_str(), o.second));
    for (int i = 0; i < 4; i++) for (int k = 0; k < 9; k++) if (got[i][k] != got[0][k % 3]) fail("concurrent requests for one path get different archives");
    p.close();
}

int main(int argc, char **argv) {
    init(argc, argv);
    history(0);
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) for (int same = 0; same < 2; same++)
        history(3, {{"/a", a}, {same ? "/a" : "/b", b}, {"/a", 0}});
    do { history(1 + rnd(12)); if (!rnd(8)) threads(); } while (more());
    return done();
}
