#include "hz_native.h"
#include "loguru_stub.h"
#include <hzip_codec/victini/victini.h>
#include <hzip_core/blob/blob.h>
#include <hzip_core/preprocessor/transforms.h>
using namespace hzn;
using P8 = rainman::ptr<uint8_t>;
using PB = rainman::ptr<HZ_Blob>;
using PM = rainman::ptr<HZ_MState>;
using Bytes = std::vector<uint8_t>;
static const uint64_t LIM = (~0ull) / 16776960;

static Bytes vec(const P8 &p) { return Bytes(p.pointer(), p.pointer() + p.size()); }

static Bytes text(uint64_t n) {
    Bytes v(n);
    uint64_t kind = rnd(7), p = 1 + rnd(20);
    for (uint64_t i = 0; i < n; i++)
        switch (kind) {
            case 0: v[i] = rng(); break;
            case 1: v[i] = 'a' + rnd(3); break;
            case 2: v[i] = i < p ? rng() : v[i - p]; break;
            case 3: v[i] = (i && rnd(8)) ? v[i - 1] : rng(); break;
            case 4: v[i] = rnd(2) ? 255 : 0; break;
            case 5: v[i] = 255 - rnd(1 + rnd(8)); break;
            default: v[i] = (i < p || !rnd(50)) ? rng() : v[i - p] + 1; break;
        }
    return v;
}

static PB blob_of(const Bytes &v) {
    PB b;
    b->data = P8(v.size());
    for (uint64_t i = 0; i < v.size(); i++) b->data[i] = v[i];
    b->size = b->o_size = v.size();
    return b;
}

static uint64_t cell(const Bytes &t, uint64_t k) {
    uint64_t x = 0;
    for (int j = 7; j >= 0; j--) x = x << 8 | t[8 * k + j];
    return x;
}

static uint64_t cell_io(P8 p, uint64_t k) {      // the order the bit stream uses
    auto s = bitio::stream(p.pointer() + 8 * k, 8);
    return s.read(0x40);
}

static std::vector<uint64_t> table(const P8 &p) {
    std::vector<uint64_t> t(65536);
    auto s = bitio::stream(p.pointer(), p.size());
    for (auto &x : t) x = s.read(0x40);
    return t;
}

static PM state_of(const std::vector<uint64_t> &t) {
    PM m;
    m->data = P8(65537 << 3);
    auto s = bitio::stream(m->data.pointer(), m->data.size());
    for (auto x : t) s.write(x, 0x40);
    m->alg = hzcodec::algorithms::VICTINI;
    return m;
}

// the symbols the entropy coder sees, computed with the transforms on their own (C07, C08)
static std::vector<uint8_t> symbols(const Bytes &v) {
    rainman::ptr<int16_t> d(v.size());
    for (uint64_t i = 0; i < v.size(); i++) d[i] = v[i];
    hztrans::BurrowsWheelerTransformer<int16_t, int32_t> b(d, 0x100);
    b.transform();
    hztrans::MoveToFrontTransformer m(d, 0x100);
    m.transform();
    std::vector<uint8_t> r(v.size());
    for (uint64_t i = 0; i < v.size(); i++) r[i] = d[i];
    return r;
}

static void counts(const Bytes &v, std::vector<uint64_t> &t, uint64_t start) {
    auto s = symbols(v);
    for (auto &x : t) x += start;
    for (uint64_t i = 1; i < s.size(); i++) t[256 * s[i - 1] + s[i]] += 32;
}

static PB reload(const PB &c, bool fresh_state) {      // what a reader of the archive gets
    PB r;
    r->data = P8(c->data.size());
    for (uint64_t i = 0; i < c->data.size(); i++) r->data[i] = c->data[i];
    r->size = c->size;
    r->o_size = c->o_size;
    r->status = true;
    r->header.raw = P8(c->header.raw.size());
    for (uint64_t i = 0; i < c->header.raw.size(); i++) r->header.raw[i] = c->header.raw[i];
    if (fresh_state) {
        r->mstate->data = P8(c->mstate->data.size());
        for (uint64_t i = 0; i < c->mstate->data.size(); i++) r->mstate->data[i] = c->mstate->data[i];
        r->mstate->alg = c->mstate->alg;
    } else r->mstate = c->mstate;
    return r;
}

static std::vector<uint64_t> any_table() {
    std::vector<uint64_t> t(65536);
    uint64_t kind = rnd(5);
    for (int i = 0; i < 256; i++) {
        uint64_t row = 2 + rnd(2);
        for (int j = 0; j < 256; j++) {
            uint64_t &x = t[256 * i + j];
            switch (kind) {
                case 0: x = 1 + rnd(100); break;
                case 1: x = rnd(64) ? 0 : rnd(LIM / 256); break;
                case 2: x = LIM / 256; break;
                case 3: x = j == (int) (i * 7 % 256) ? LIM - 1 : 0; break;
                default: x = row == 2 ? (j == 255) * (LIM - 1) : (j == 0) * rnd(LIM); break;
            }
        }
        // rows without any count are legal and slow (2^24 steps each): only some
    }
    for (int k = 0; k < 2; k++) for (int j = 0, i = rnd(256); j < 256; j++) t[256 * i + j] = k ? rnd(2) : 0;
    return t;
}

static void round_trip(const Bytes &v, const std::vector<uint64_t> *tab, const char *what) {
    std::string id = fmt("block of %lu bytes %s, %s", v.size(), show(v, 24).c_str(), what);
    mark(id);
    PB b = blob_of(v);
    PM ms = b->mstate;
    if (tab) { b->mstate = ms = state_of(*tab); }
    Bytes before = tab ? vec(ms->data) : Bytes();
    hzcodec::Victini c;
    PB r = c.compress(b);
    if (vec(b->data) != v) fail(id + ": compress changed the original bytes");
    if (r->o_size != v.size()) fail(id + fmt(": original size %lu recorded", r->o_size));
    if (r->size != r->data.size()) fail(id + fmt(": size %lu, but %lu bytes", r->size, r->data.size()));
    if (!(r->mstate == ms)) fail(id + ": another model state");
    if (r->mstate->alg != hzcodec::algorithms::VICTINI) fail(id + ": model state not marked");
    if (r->header.size() != 8) fail(id + ": header is not 8 bytes");
    if (tab) {
        std::vector<uint64_t> t = table(ms->data);
        for (int k = 0; k < 65536; k++) if (t[k] != (*tab)[k]) fail(id + fmt(": count %d of the model state was changed by compress", k));
    } else {
        std::vector<uint64_t> want(65536, 0), t = table(ms->data);
        counts(v, want, 1);
        for (int k = 0; k < 65536; k++) if (t[k] != want[k]) fail(id + fmt(": count %d in the new model state is %lu, expected %lu", k, t[k], want[k]));
    }
    for (int way = 0; way < 2; way++) {
        hzcodec::Victini d;
        PB q = reload(r, way == 0);
        Bytes st = vec(q->mstate->data), cd = vec(q->data);
        PB o = d.decompress(q);
        if (o->o_size != v.size() || o->data.size() != v.size()) fail(id + fmt(": decompressed size %lu", o->o_size));
        for (uint64_t i = 0; i < v.size(); i++)
            if (o->data[i] != v[i]) fail(id + fmt(": byte %lu is %d after decompression, was %d", i, o->data[i], v[i]));
        if (vec(q->mstate->data) != st) fail(id + ": decompress changed the model state");
        if (vec(q->data) != cd) fail(id + ": decompress changed the compressed bytes");
    }
}

static void training(const Bytes &a, const Bytes &b, const Bytes &v) {
    std::string id = fmt("model trained on %lu and %lu bytes", a.size(), b.size());
    mark(id);
    hzcodec::Victini c;
    PB x = blob_of(a);
    PM m = c.train(x);
    std::vector<uint64_t> want(65536, 0);
    counts(a, want, 1);
    if (!(m == x->mstate) || m->alg != hzcodec::algorithms::VICTINI || vec(x->data) != a) fail(id + ": train returned another state, did not mark it or changed the data");
    auto t = table(m->data);
    for (int k = 0; k < 65536; k++) if (t[k] != want[k]) fail(id + fmt(": count %d is %lu, expected %lu", k, t[k], want[k]));
    PB y = blob_of(b);
    y->mstate = m;
    PM m2 = c.train(y);
    counts(b, want, 1);
    t = table(m2->data);
    for (int k = 0; k < 65536; k++) if (t[k] != want[k]) fail(id + fmt(": after further training count %d is %lu, expected %lu", k, t[k], want[k]));
    round_trip(v, &want, "with a trained model");
}

static void further(const std::vector<uint64_t> &t, const Bytes &b) {      // training a model state that came from elsewhere
    std::string id = fmt("model state trained further on %lu bytes %s", b.size(), show(b, 24).c_str());
    mark(id);
    hzcodec::Victini c;
    PB y = blob_of(b);
    y->mstate = state_of(t);
    auto want = t;
    counts(b, want, 1);
    PM m = c.train(y);
    if (vec(y->data) != b) fail(id + ": the data changed");
    auto g = table(m->data);
    for (int k = 0; k < 65536; k++) if (g[k] != want[k]) fail(id + fmt(": count %d is %lu, expected %lu", k, g[k], want[k]));
}

static void normalised(const std::vector<uint64_t> &t, const char *what) {
    mark(fmt("normalise %s", what));
    auto d = rainman::make_ptr2d<uint64_t>(256, 256), c = rainman::make_ptr2d<uint64_t>(256, 256);
    for (int i = 0; i < 65536; i++) d[i / 256][i % 256] = t[i];
    hzcodec::Victini::_normalize(d, c);
    for (int i = 0; i < 256; i++) {
        uint64_t s = 0;
        for (int j = 0; j < 256; j++) {
            if (!d[i][j]) fail(fmt("normalise %s: no share for symbol %d after %d", what, j, i));
            if (c[i][j] != s) fail(fmt("normalise %s: interval of %d after %d starts at %lu, expected %lu", what, j, i, c[i][j], s));
            s += d[i][j];
        }
        if (s != 1 << 24) fail(fmt("normalise %s: shares after symbol %d add up to %lu", what, i, s));
    }
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (uint64_t n : {0, 1, 2, 3, 255, 256, 257}) { round_trip(text(n), nullptr, "new model"); }
    for (int i = 0; i < 6; i++) normalised(any_table(), "any table");
    round_trip(Bytes(300, 255), nullptr, "new model");
    round_trip(Bytes(1, 255), nullptr, "new model");
    round_trip(Bytes(1, 254), nullptr, "new model");
    { auto t = std::vector<uint64_t>(65536, 1); for (int j = 0; j < 256; j++) t[j] = 0; round_trip(text(500), &t, "model with an empty row"); }
    training(text(400), text(300), text(500));
    training(text(1), text(0), text(2));
    { auto t = any_table(); for (auto &x : t) x /= 2; t[300] = 5ull << 32; further(t, text(200)); }
    round_trip(text(70000), nullptr, "new model");
    while (more()) {
        uint64_t n = pick({rnd(8), rnd(300), rnd(5000), rnd(40000)});
        switch (rnd(5)) {
            case 0: round_trip(text(n), nullptr, "new model"); break;
            case 1: { auto t = any_table(); normalised(t, "any table"); round_trip(text(n), &t, "any model"); break; }
            case 2: training(text(rnd(3000)), text(rnd(3000)), text(n)); break;
            case 3: { auto t = any_table(); for (auto &x : t) x /= 2; further(t, text(rnd(400))); break; }
            default: { auto t = any_table(); normalised(t, "any table"); break; }
        }
    }
    done();
}
