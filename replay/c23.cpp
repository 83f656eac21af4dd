// Histories over a real archive file, compared with an in-memory model. MODE 23: contents, 24: space, 25: model state dependencies.
#ifndef MODE
#define MODE 23
#endif
#include "hz_native.h"
#include "loguru_stub.h"
#include <hzip_storage/archive/archive.h>
#include <hzip_storage/errors/archive.h>
#include <hzip_core/utils/utils.h>
#include <filesystem>
#include <memory>
#include <set>
using namespace hzn;
using Bytes = std::vector<uint8_t>;
struct MS { Bytes data; uint64_t alg; };
struct BL { Bytes header, data; uint64_t osize, mid; };
struct FI { std::vector<BL> blobs; };

static std::string name_, hist;
static HZ_Archive *a;
static std::map<std::string, FI> files;
static std::map<std::string, uint64_t> paths;      // model state paths
static std::map<uint64_t, MS> states;              // every model state that must exist
static uint64_t nstates;

static Bytes bytes(uint64_t n) { Bytes b(n); for (auto &x : b) x = rnd(3) ? rng() : pick({0, 1, 2, 3, 255}); return b; }
static rainman::ptr<uint8_t> raw(const Bytes &b) { rainman::ptr<uint8_t> p(b.size()); for (uint64_t i = 0; i < b.size(); i++) p[i] = b[i]; return p; }
static bool same(const rainman::ptr<uint8_t> &p, uint64_t n, const Bytes &b) { if (n != b.size() || p.size() < n) return false; for (uint64_t i = 0; i < n; i++) if (p[i] != b[i]) return false; return true; }
static uint64_t len() { return pick({0, 1, 2, 3, 5, 8, 9, 17, 18, 19, 27, 40, rnd(60), rnd(300)}); }
[[noreturn]] static void bad(const std::string &w) { fail(w + " after" + (hist.size() > 1400 ? " ..." + hist.substr(hist.size() - 1400) : hist)); }
static void note(const std::string &s0) {
    std::string s;
    for (unsigned char c : s0) s += c < 127 ? std::string(1, c) : fmt("\\x%02x", c);
    hist += " " + s + ";"; mark(hist.size() > 1400 ? hist.substr(hist.size() - 1400) : hist); }

static void open_() {
    a = new HZ_Archive(name_);
    sem_unlink(("/" + hz_sha512(a->path)).c_str());
    a->load();
}
static void close_() {
    a->close();
    a->stream->close();
    delete a;
    a = nullptr;
}

static void check_ms(const std::string &what, const rainman::ptr<HZ_MState> &m, const MS &w) {
    if ((uint64_t) m->alg != w.alg) bad(what + " comes back with another algorithm");
    if (!same(m->data, m->size(), w.data)) bad(what + " comes back with other data");
}

static void check_blob(const std::string &w, HZ_Blob &b, const BL &m, bool del) {
    if (!same(b.header.raw, b.header.size(), m.header)) bad(w + " comes back with another header");
    if (!same(b.data, b.size, m.data) || b.data.size() != m.data.size()) bad(w + " comes back with other data");
    if (b.o_size != m.osize) bad(w + " comes back with another original size");
    if (b.mstate_id != m.mid) bad(w + " comes back with another model state id");
    check_ms(w + "'s model state", b.mstate, states.at(m.mid));
}

static void contents() {
    for (auto &[p, f] : files) {
        if (!a->check_file_exists(p)) bad("file " + p + " is gone");
        rainman::ptr<HZ_Blob> r(1);
        try { r = a->read_file(p); } catch (...) { bad("file " + p + " cannot be read"); }
        if (r.size() != f.blobs.size()) bad("file " + p + " comes back with another number of blobs");
        for (uint64_t i = 0; i < r.size(); i++) check_blob(fmt("blob %lu of file %s", i, p.c_str()), r[i], f.blobs[i], false);
    }
    for (auto &[p, id] : paths) {
        if (!a->check_mstate_exists(p)) bad("model state " + p + " is gone");
        try { check_ms("model state " + p, a->read_mstate(p), states.at(id)); } catch (std::exception &) { throw; } catch (...) { bad("model state " + p + " cannot be read"); }
        HZ_Blob *b = new HZ_Blob();
        rainman::ptr<HZ_Blob> bp(b, 1);
        a->inject_mstate(p, bp);
        if (b->mstate_id != id) bad("injecting " + p + " refers to another model state");
        check_ms("injected model state " + p, b->mstate, states.at(id));
    }
    for (auto &[id, m] : states) {
        try { check_ms(fmt("model state %lu", id), a->hza_read_mstate(id), m); } catch (...) { bad("a model state cannot be read"); }
    }
}

// every bit of the file belongs to exactly one block, and the archive's tables say which
static void space() {
    auto &s = *a->stream;
    auto &m = a->metadata;
    std::map<uint64_t, uint64_t> empty;
    std::map<uint64_t, uint64_t> blobs, mst;
    std::set<uint64_t> ids;
    std::multiset<std::string> fl, aux;
    uint64_t pos = 0;
    auto rd = [&](uint64_t n) { if (s.pos + n > s.size() * 8) bad("a block runs past the end of the file"); return s.read(n); };
    while (pos < m.eof) {
        s.seek_to(pos);
        auto mk = rd(8);
        auto n = rd(64);
        if (mk > 3) bad(fmt("no block starts at bit %lu, where the block before it ends", pos));
        if (n > m.eof || pos + 0x48 + n > m.eof) bad(fmt("the block at bit %lu of %lu runs past the end at %lu", pos, n, m.eof));
        uint64_t need = 0;
        if (mk == 0) empty[pos] = n;
        if (mk == 3) { auto id = rd(64); mst[id] = pos; rd(64); need = 192 + 8 * rd(64); }
        if (mk == 2) { auto id = rd(64); blobs[id] = pos; auto h = rd(64); s.seek(8 * h + 128); auto d = rd(64); need = 320 + 8 * h + 8 * d; }
        if (mk == 1) {
            auto k = rd(8);
            need = 32;
            if (k) {
                auto l = rd(64);
                if (l > 10000) bad(fmt("the entry at bit %lu is unreadable", pos));
                std::string p;
                for (uint64_t i = 0; i < l; i++) p += (char) rd(8);
                need = 72 + 8 * l;
                if (k == 1) { fl.insert(p); need += 58 + 64 * rd(58); if (!m.file_map.contains(p) || m.file_map.get(p).sof != pos) bad("file " + p + " is not found where its entry is"); }
                else if (k == 2) { aux.insert(p); need += 64; if (!m.mstate_aux_map.contains(p) || m.mstate_aux_map.get(p).sof != pos) bad("model state " + p + " is not found where its entry is"); }
                else bad(fmt("the entry at bit %lu is of no known kind", pos));
            } else if (pos) bad("a second version entry");
        }
        if (mk && need > n) bad(fmt("the block at bit %lu is shorter (%lu) than its content (%lu)", pos, n, need));
        pos += 0x48 + n;
    }
    if (pos != m.eof) bad("the last block does not end at the end");
    for (auto &f : m.fragments) {
        auto it = empty.find(f.sof);
        if (it == empty.end()) bad(fmt("the free fragment at bit %lu is no free block of the file", f.sof));
        if (it->second != f.length) bad(fmt("the free fragment at bit %lu has length %lu, the free block %lu", f.sof, f.length, it->second));
        empty.erase(it);
    }
    if (!empty.empty()) bad(fmt("the free block at bit %lu is not in the free list", empty.begin()->first));
    for (auto &[id, p] : m.blob_map) if (!blobs.contains(id) || blobs[id] != p) bad("a blob is not where the archive looks for it");
    for (auto &[id, p] : m.mstate_map) if (!mst.contains(id) || mst[id] != p) bad("a model state is not where the archive looks for it");
    if (blobs.size() != m.blob_map.size()) bad("space is held by a blob nobody can reach");
    if (mst.size() != m.mstate_map.size()) bad("space is held by a model state nobody can reach");
    std::multiset<std::string> f2, a2;
    for (auto &[p, f] : files) f2.insert(p);
    for (auto &[p, id] : paths) a2.insert(p);
    if (fl != f2) bad("the file entries on file are not those of the existing files");
    if (aux != a2) bad("the model state entries on file are not those of the existing paths");
}

static uint64_t users(uint64_t id) { uint64_t n = 0; for (auto &[p, f] : files) for (auto &b : f.blobs) n += b.mid == id; return n; }
static bool named(uint64_t id) { for (auto &[p, i] : paths) if (i == id) return true; return false; }

static void dependencies() {
    for (auto &[id, w] : states) if (!a->metadata.mstate_map.contains(id)) bad(fmt("a model state used by %lu blobs%s is gone", users(id), named(id) ? " with a path" : ""));
    for (auto &[id, p] : a->metadata.mstate_map) if (!states.contains(id)) bad("a model state nobody uses or names is still there");
    for (auto &[id, w] : states) if (a->hza_check_mstate_deps(id) != (users(id) > 0)) bad(fmt("a model state used by %lu blobs is %s", users(id), users(id) ? "not known to be in use" : "taken to be in use"));
    // a model state in use survives the attempt to remove it
    for (auto &[id, w] : states) if (users(id)) {
        bool threw = false;
        try { a->uninstall_mstate(id); } catch (ArchiveErrors::InvalidOperationException &) { threw = true; }
        if (!threw || !a->metadata.mstate_map.contains(id)) bad(fmt("a model state used by %lu blobs can be removed", users(id)));
    }
    for (auto &[p, id] : paths) if (users(id)) {
        bool threw = false;
        try { a->uninstall_mstate(p); } catch (ArchiveErrors::InvalidOperationException &) { threw = true; }
        if (!threw || !a->check_mstate_exists(p)) bad(fmt("model state %s used by %lu blobs can be uninstalled", p.c_str(), users(id)));
    }
}

static void verify() {
    if (MODE == 23) contents();
    if (MODE == 24) space();
    if (MODE == 25) dependencies();
}

static MS mstate(rainman::ptr<HZ_MState> &m) {
    MS w{bytes(len()), rnd(4)};
    m = rainman::ptr<HZ_MState>(1);
    m->data = raw(w.data);
    m->alg = (hzcodec::algorithms::ALGORITHM) w.alg;
    return w;
}

static void gone(uint64_t id) {      // the model's rule for a model state that lost its last user
    if (!users(id) && !named(id)) states.erase(id);
}

static void op() {
    rainman::ptr<HZ_MState> m(1);
    std::string fp = fmt("/d%lu/f%lu", rnd(2), rnd(4)), mp = fmt("/m%lu", rnd(4));
    if (rnd(3) == 0) { fp += std::string(rnd(20), 'x') + (char) (128 + rnd(100)); }
    switch (rnd(9)) {
        case 0: {
            auto w = mstate(m);
            note(fmt("install %s (%zu bytes)", mp.c_str(), w.data.size()));
            bool had = paths.contains(mp), threw = false;
            try { a->install_mstate(mp, m); } catch (ArchiveErrors::InvalidOperationException &) { threw = true; }
            if (threw != had) bad(had ? "a second model state is installed at the same path" : "a free path is refused");
            if (!had) { auto id = a->metadata.mstate_aux_map.get(mp).data; if (states.contains(id)) bad("two model states share an id"); states[id] = w; paths[mp] = id; }
            break;
        }
        case 1: {
            bool had = paths.contains(mp);
            uint64_t id = had ? paths[mp] : 0;
            note("uninstall " + mp);
            bool threw = false, in = had && users(id);
            try { a->uninstall_mstate(mp); }
            catch (ArchiveErrors::InvalidOperationException &) { threw = true; }
            catch (ArchiveErrors::MstateNotFoundException &) { threw = true; }
            if (threw != (!had || in)) bad(in ? "a model state in use was uninstalled" : had ? "a model state that nobody uses cannot be uninstalled" : "a path that is not there was uninstalled");
            if (!threw) { paths.erase(mp); states.erase(id); }
            break;
        }
        case 2: case 3: case 4: case 5: {
            if (files.contains(fp)) {
                note("create " + fp + " again");
                bool threw = false;
                rainman::ptr<HZ_Blob> bs(0);
                try { a->create_file(fp, bs, 0); } catch (ArchiveErrors::InvalidOperationException &) { threw = true; }
                if (!threw) bad("file " + fp + " was created over the existing one");
                break;
            }
            uint64_t n = pick({0, 1, 1, 1, 2, 3});
            rainman::ptr<HZ_Blob> bs(n);
            FI f;
            std::string d;
            for (uint64_t i = 0; i < n; i++) {
                BL b{bytes(len()), bytes(len()), rng(), 0};
                rainman::ptr<HZ_Blob> one(1);
                if (!paths.empty() && rnd(2)) { auto it = paths.begin(); std::advance(it, rnd(paths.size())); a->inject_mstate(it->first, one); b.mid = one->mstate_id; if (b.mid != it->second) bad("injected another model state"); d += " " + it->first; }
                else if (rnd(2) && f.blobs.size()) { b.mid = f.blobs[0].mid; d += " same"; }
                else if (rnd(3) == 0) { auto w = mstate(m); b.mid = a->install_mstate(m); if (states.contains(b.mid)) bad("two model states share an id"); states[b.mid] = w; d += " anon"; }
                else { auto w = mstate(m); a->inject_mstate(m, one); b.mid = one->mstate_id; if (states.contains(b.mid)) bad("two model states share an id"); states[b.mid] = w; d += " injected"; }
                bs[i].header.raw = raw(b.header);
                bs[i].data = raw(b.data);
                bs[i].size = b.data.size();
                bs[i].o_size = b.osize;
                bs[i].mstate_id = b.mid;
                d += fmt("(%zu+%zu)", b.header.size(), b.data.size());
                f.blobs.push_back(b);
            }
            note("create " + fp + d);
            if (rnd(3)) a->create_file(fp, bs, n);
            else {
                HZ_ArchiveFile af;
                af.blob_ids = rainman::ptr<uint64_t>(n);
                std::set<uint64_t> u;
                for (uint64_t i = 0; i < n; i++) { rainman::ptr<HZ_Blob> o(1); *o = bs[i]; u.insert(af.blob_ids[i] = a->write_blob(o)); }
                if (u.size() != n) bad("two blobs share an id");
                a->create_file_entry(fp, af);
            }
            files[fp] = f;
            break;
        }
        case 6: case 7: {
            if (!files.empty() && rnd(4)) { auto it = files.begin(); std::advance(it, rnd(files.size())); fp = it->first; }
            bool had = files.contains(fp), threw = false;
            note("remove " + fp);
            try { a->remove_file(fp); } catch (ArchiveErrors::FileNotFoundException &) { threw = true; }
            if (threw == had) bad(had ? "an existing file cannot be removed" : "a file that is not there was removed");
            if (had) {
                auto f = files[fp];
                files.erase(fp);
                for (auto &b : f.blobs) gone(b.mid);
                if (a->check_file_exists(fp)) bad("file " + fp + " is still there");
            }
            break;
        }
        default:
            if (rnd(2)) { note("reopen"); close_(); open_(); }
            else {
                rainman::ptr<HZ_Blob> b(1);
                b->header.raw = raw({});
                b->data = raw({});
                do b->mstate_id = rng(); while (states.contains(b->mstate_id));
                note("blob with an unknown model state");
                bool threw = false;
                try { a->write_blob(b); } catch (ArchiveErrors::MstateNotFoundException &) { threw = true; }
                if (!threw) bad("a blob whose model state does not exist was written");
            }
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    name_ = fmt("hz-%d.hza", (int) getpid());
    // anonymous model states nobody uses stay until removed
    while (more()) {
        std::filesystem::remove(name_);
        files.clear(); paths.clear(); states.clear();
        hist = "";
        note("new archive");
        open_();
        verify();
        uint64_t n = pick({2, 4, 8, 16, 40});
        for (uint64_t i = 0; i < n && more(); i++) {
            op();
            if (rnd(3) == 0 || n < 10) verify();
        }
        verify();
        note("reopen");
        close_();
        open_();
        verify();
        if (rnd(2)) {
            for (uint64_t i = 0; i < 4; i++) op();
            verify();
        }
        close_();
    }
    std::filesystem::remove(name_);
    return done();
}
