#include "hz_native.h"
#include <hzip_codec/uncompressed/uncompressed.h>
#include <hzip_core/blob/blob.h>
using namespace hzn;
using P8 = rainman::ptr<uint8_t>;
using PB = rainman::ptr<HZ_Blob>;

static P8 bytes(uint64_t n) {
    P8 p(n);
    for (uint64_t i = 0; i < n; i++) p[i] = (uint8_t) wild(8);
    return p;
}

static std::vector<uint8_t> vec(const P8 &p) { return std::vector<uint8_t>(p.pointer(), p.pointer() + p.size()); }

static void codec(uint64_t n, uint64_t on) {
    mark(fmt("store codec on %lu bytes, original size %lu", n, on));
    for (int dir = 0; dir < 2; dir++) {
        PB b;
        b->data = bytes(n);
        b->size = n;
        b->o_size = on;
        b->status = rnd(2);
        b->mstate_id = rng();
        b->mstate->alg = hzcodec::algorithms::VICTINI;
        auto before = vec(b->data);
        auto old = b->data.pointer();
        auto sid = b->mstate_id;
        hzcodec::Uncompressed u;
        PB r = dir ? u.decompress(b) : u.compress(b);
        const char *w = dir ? "decompress" : "compress";
        if (r->size != n || r->o_size != on) fail(fmt("%s of %lu bytes (original size %lu): sizes %lu, %lu", w, n, on, r->size, r->o_size));
        if (r->status) fail(fmt("%s of %lu bytes: marked as compressed", w, n));
        if (r->data.size() != n || vec(r->data) != before) fail(fmt("%s of %lu bytes: content differs", w, n));
        if (r->data.pointer() == old && n) fail(fmt("%s of %lu bytes: result shares the block of the input", w, n));
        if (!(r->mstate == b->mstate)) fail(fmt("%s: model state not passed on", w));
        if (vec(b->data) != before || b->size != n || b->o_size != on || b->mstate_id != sid) fail(fmt("%s: input blob changed", w));
        PB back = dir ? u.compress(r) : u.decompress(r);
        if (vec(back->data) != before || back->size != n || back->o_size != on) fail(fmt("round trip of %lu bytes: content differs", n));
        bool threw = false;
        try { u.train(b); } catch (CodecErrors::InvalidOperationException &) { threw = true; }
        if (!threw) fail("train did not refuse");
    }
}

static void evaluate(uint64_t n, uint64_t on, int alg) {
    mark(fmt("evaluate: size %lu, original size %lu, algorithm %d", n, on, alg));
    HZ_Blob b;
    P8 data = bytes(n), orig = bytes(on);
    auto dv = vec(data), ov = vec(orig);
    b.data = data;
    b.size = n;
    b.o_size = on;
    b.status = rnd(2);
    b.mstate->alg = (hzcodec::algorithms::ALGORITHM) alg;
    auto ms = b.mstate;
    b.evaluate(orig);
    if (b.status != (n < on)) fail(fmt("evaluate(size %lu, original %lu): status %d", n, on, b.status));
    if (b.o_size != on) fail("evaluate changed the original size");
    if (n < on) {
        if (b.size != n || vec(b.data) != dv || !(b.mstate == ms) || ms->alg != alg) fail(fmt("evaluate(size %lu, original %lu, algorithm %d): a smaller blob was changed", n, on, alg));
    } else {
        if (b.size != on || vec(b.data) != ov) fail(fmt("evaluate(size %lu, original %lu): does not hold the original data", n, on));
        if (!b.mstate->is_empty()) fail(fmt("evaluate(size %lu, original %lu, algorithm %d): model state kept", n, on, alg));
        if (ms->alg != alg) fail(fmt("evaluate(size %lu, original %lu, algorithm %d): the shared model state was changed", n, on, alg));
    }
    if (vec(orig) != ov || vec(data) != dv) fail("evaluate changed the data");
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (uint64_t n = 0; n < 70; n++) codec(n, n < 35 ? n : 70 - n);
    for (uint64_t n : {255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537, 1 << 20}) codec(n, rnd(2 * n));
    for (uint64_t n = 0; n < 12; n++)
        for (uint64_t on = 0; on < 12; on++)
            for (int a = 0; a < 3; a++) evaluate(n, on, a);
    while (more()) {
        uint64_t n = rnd(3000);
        codec(n, rnd(2) ? n : wild(64));
        uint64_t m = rnd(3000);
        evaluate(n, rnd(3) ? m : n, rnd(3));
    }
    return done();
}
