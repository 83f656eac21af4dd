#include "hz_native.h"
#include "loguru_stub.h"
#include <atomic>
#include <thread>
#include <hzip_codec/processor/processor.h>
#include <hzip_codec/codec_provider.h>
using namespace hzn;

// archive and codecs are stand-ins that record what happens and fail on request
static std::mutex rm;
static std::vector<std::string> events;
static std::string bad, wrong;
static rainman::ptr<HZ_Blob> *jblob;
static HZ_Blob *result;
static HZ_MState *trained;
static HZ_Archive *arch;
static bool exists, stub_order;
static uint64_t injected, own, given;
static const std::string ADDR = "/models/m";
static void odd(const std::string &s) { std::lock_guard<std::mutex> l(rm); if (wrong.empty()) wrong = s; }
static void ev(const std::string &s, bool may = true) {
    bool f;
    { std::lock_guard<std::mutex> l(rm); f = may && s == bad; events.push_back(f ? s + "!" : s); }
    if (f) throw std::runtime_error(s + " failed");
}
static HZ_Processor *proc;
struct Codec : hzcodec::AbstractCodec {
    int alg;
    Codec(int a) : alg(a) {}
    void same(const rainman::ptr<HZ_Blob> &b);
    rainman::ptr<HZ_Blob> code(const char *what, const rainman::ptr<HZ_Blob> &b) {
        same(b);
        ev(what);
        auto r = rainman::ptr<HZ_Blob>();
        r->mstate = rainman::ptr<HZ_MState>();
        r->data = rainman::ptr<uint8_t>(4);
        r->size = 4;
        r->o_size = b->size;
        r->status = true;
        result = r.pointer();
        return r;
    }
    rainman::ptr<HZ_Blob> compress(const rainman::ptr<HZ_Blob> &b) override { return code("compress", b); }
    rainman::ptr<HZ_Blob> decompress(const rainman::ptr<HZ_Blob> &b) override { return code("decompress", b); }
    rainman::ptr<HZ_MState> train(const rainman::ptr<HZ_Blob> &b) override {
        same(b);
        ev("train");
        auto r = rainman::ptr<HZ_MState>();
        trained = r.pointer();
        return r;
    }
};
static int want_alg;
void Codec::same(const rainman::ptr<HZ_Blob> &b) {
    if (b.pointer() != jblob->pointer()) odd("another blob is coded");
    if (alg != want_alg) odd("the codec of another algorithm is used");
}
using hzcodec::algorithms::ALGORITHM;
std::unordered_map<ALGORITHM, const char *> hzcodec::CodecProvider::strmap;
std::unordered_map<ALGORITHM, hzcodec::AbstractCodec *> hzcodec::CodecProvider::codec_map;
std::unordered_map<ALGORITHM, uint64_t> hzcodec::CodecProvider::bsize_map;
HZ_MState::HZ_MState() {}
void HZ_Blob::evaluate(const rainman::ptr<uint8_t> &d) {
    if (this != result || d.pointer() != (*jblob)->data.pointer()) odd("another blob is evaluated");
    ev("evaluate", false);
}
static void my(HZ_Archive *a) { if (a != arch) odd("another archive is used"); }
static void addr(const std::string &s) { if (s != ADDR) odd("another model state address is used"); }
void HZ_Archive::inject_mstate(const rainman::ptr<HZ_MState> &m, const rainman::ptr<HZ_Blob> &b) {
    my(this);
    if (b.pointer() != result || m.pointer() != result->mstate.pointer()) odd("another model state is kept");
    ev("keep model");
    b->mstate_id = own;
}
void HZ_Archive::inject_mstate(const std::string &p, const rainman::ptr<HZ_Blob> &b) {
    my(this);
    addr(p);
    if (b.pointer() != jblob->pointer()) odd("the model state goes into another blob");
    ev("inject");
    b->mstate_id = injected;
}
bool HZ_Archive::check_mstate_exists(const std::string &p) { my(this); addr(p); return exists; }
void HZ_Archive::uninstall_mstate(const std::string &p) { my(this); addr(p); ev("uninstall"); }
void HZ_Archive::install_mstate(const std::string &p, const rainman::ptr<HZ_MState> &m) {
    my(this);
    addr(p);
    if (m.pointer() != trained) odd("another model state is installed");
    ev("install");
}
static bool with_addr;
uint64_t HZ_Archive::write_blob(const rainman::ptr<HZ_Blob> &b) {
    my(this);
    if (b.pointer() != result) odd("another blob is stored");
    if (b->mstate_id != (with_addr ? injected : own)) odd("stored with the id of another model state");
    ev("write");
    return given;
}

static std::vector<std::string> expect(int job, bool ar, bool ad, bool cb, bool ic, bool st, bool hs, bool he, bool hc, bool known, bool early) {
    std::vector<std::string> out;
    bool ok = true;
    struct Stop {};
    auto e = [&](const std::string &x) { if (x == bad) { out.push_back(x + "!"); throw Stop(); } out.push_back(x); };
    auto codec = [&](bool here) { if (here && !known) throw Stop(); };
    try {
        if (job == 0) {
            if (ad) { if (!ar) throw Stop(); codec(early); e("inject"); }
            codec(!(early && ad));
            e("compress");
            out.push_back("evaluate");
            if (!ad) { if (ar) e("keep model"); else if (!cb) throw Stop(); }
            if (ar) { e("write"); if (ic) e("tell id"); }
            if (cb) e("tell blob");
        } else if (job == 1) {
            if (!ar && !cb) throw Stop();
            if (ad && st) { if (!ar) throw Stop(); codec(early); e("inject"); }
            codec(!(early && ad && st));
            e("decompress");
            if (cb) e("tell blob");
        } else {
            if (!ad || !ar) throw Stop();
            if (exists) { codec(early); e("inject"); }
            codec(!(early && exists));
            e("train");
            if (exists) e("uninstall");
            e("install");
        }
    } catch (Stop &) { ok = false; }
    if (ok && hs) out.push_back("success");
    if (!ok && he) out.push_back("error");
    if (hc) out.push_back("completed");
    return out;
}
static std::string list(const std::vector<std::string> &v) { std::string s; for (auto &x : v) s += (s.empty() ? "" : ", ") + x; return s.empty() ? "nothing" : s; }

static void one(int job, unsigned bits, const std::string &fails) {
    bits |= 128; // the end of the job must be seen
    bool ar = bits & 1, ad = bits & 2, cb = bits & 4, ic = bits & 8, st = bits & 16, hs = bits & 32, he = bits & 64, hc = bits & 128, known = !(bits & 512);
    exists = bits & 256;
    with_addr = ad;
    bad = fails;
    events.clear(); wrong.clear();
    std::string name = fmt("%s job,%s%s%s%s%s%s%s%s%s%s", job == 0 ? "encoding" : job == 1 ? "decoding" : "training", ar ? " archive" : "", ad ? " address" : "", cb ? " blob-callback" : "", ic ? " id-callback" : "",
                           st ? " compressed" : "", exists ? " model-exists" : "", hs ? " on_success" : "", he ? " on_error" : "", hc ? " on_completed" : "", known ? "" : " unknown-algorithm") + (fails.empty() ? "" : ", failing: " + fails);
    mark(name);
    HZ_Processor p(2);
    proc = &p;
    rainman::ptr<HZ_Archive> a((HZ_Archive *) malloc(sizeof(HZ_Archive)), 1);
    arch = a.pointer();
    rainman::ptr<HZ_Job> j;
    j->type = HZ_Job::CODEC;
    j->codec = rainman::ptr<HZ_CodecJob>();
    j->stub = rainman::ptr<HZ_JobStub>();
    auto &c = *j->codec;
    rainman::ptr<HZ_Blob> blob;
    jblob = &blob;
    blob->data = rainman::ptr<uint8_t>(8);
    blob->size = 8;
    blob->status = st;
    blob->mstate_id = rng();
    c.blob = blob;
    if (ar) c.archive = rainman::option<rainman::ptr<HZ_Archive>>(a);
    if (ad) c.mstate_addr = rainman::option<std::string>(ADDR);
    want_alg = rnd(3);
    c.algorithm = (ALGORITHM) (known ? want_alg : 3);
    c.job_type = (HZ_CodecJob::CodecJobType) job;
    injected = rng(); own = rng(); given = rng();
    result = nullptr; trained = nullptr;
    if (cb) c.blob_callback = [](rainman::ptr<HZ_Blob> b) { if (b.pointer() != result) odd("another blob is handed out"); ev("tell blob"); };
    if (ic) c.blob_id_callback = [](uint64_t id) { if (id != given) odd("another id is reported"); ev("tell id"); };
    auto held = [] { std::lock_guard<std::mutex> l(proc->_semaphore._mutex); if (proc->_semaphore._count != 1) odd("a callback runs without a permit"); };
    if (hs) j->stub->on_success = [held](const std::string &) { held(); ev("success", false); };
    if (he) j->stub->on_error = [held](const std::string &) { held(); ev("error", false); };
    if (hc) j->stub->on_completed = [held]() { held(); ev("completed", false); };
    auto x1 = expect(job, ar, ad, cb, ic, st, hs, he, hc, known, false), x2 = expect(job, ar, ad, cb, ic, st, hs, he, hc, known, true);
    p.run(j);
    // wait until the job has taken its permit and given it back: every expected event and the permit
    for (int i = 0;; i++) {
        bool done;
        { std::lock_guard<std::mutex> l(rm); done = events == x1 || events == x2; }
        { std::lock_guard<std::mutex> l(p._semaphore._mutex); done = done && p._semaphore._count == 2; }
        if (done && (x1.size() || i > 30)) break;
        if (i > 20000) { std::lock_guard<std::mutex> l(rm); fail(name + ": " + (wrong.empty() ? "happened: " + list(events) + "; expected: " + list(x1) + fmt("; %lu of 2 permits", (unsigned long) p._semaphore._count) : wrong)); }
        std::this_thread::sleep_for(std::chrono::microseconds(i < 200 ? 20 : 100));
    }
    std::this_thread::sleep_for(std::chrono::microseconds(60));
    std::lock_guard<std::mutex> l(rm);
    if (wrong.size()) fail(name + ": " + wrong);
    if (events != x1 && events != x2) fail(name + ": happened: " + list(events) + "; expected: " + list(x1));
    { std::lock_guard<std::mutex> l(p._semaphore._mutex); if (p._semaphore._count != 2) fail(name + ": permit not given back exactly once"); }
    free(arch);
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (int i = 0; i < 3; i++) hzcodec::CodecProvider::codec_map[(ALGORITHM) i] = new Codec(i);
    static const std::vector<std::string> F[3] = {{"", "inject", "compress", "keep model", "write", "tell id", "tell blob"}, {"", "inject", "decompress", "tell blob"}, {"train", "", "inject", "uninstall", "install"}};
    // every combination of what matters, all callbacks there
    for (int job = 0; job < 3; job++) for (auto &f : F[job]) for (unsigned b = 0; b < 64; b++) {
        unsigned bits = (b & 31) | (b & 32 ? 256 : 0) | 224;
        if (job != 2 && (b & 32)) continue;
        one(job, bits, f);
    }
    for (int job = 0; job < 3; job++) for (unsigned b = 0; b < 32; b++) one(job, b | 224 | 512 | (b & 8 ? 256 : 0), "");
    while (more()) {
        int job = rnd(3);
        one(job, (rnd(8) ? 224 : rnd(8) << 5) | rnd(32) | (rnd(2) ? 256 : 0) | (rnd(8) ? 0 : 512), F[job][rnd(F[job].size())]);
    }
    return done();
}
