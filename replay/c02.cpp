#include "hz_native.h"
#include <hzip_core/preprocessor/zigzag.h>
using namespace hzn;
using Z = hztrans::ZigZagTransformer;

static std::pair<uint32_t, uint32_t> ref_next(uint64_t x, uint64_t y, uint64_t w, uint64_t h) {
    if (x == w - 1 && y == h - 1) return {w, h};
    uint64_t s = x + y;
    if (s & 1) { if (x > 0 && y + 1 < h) return {x - 1, y + 1}; }
    else { if (y > 0 && x + 1 < w) return {x + 1, y - 1}; }
    s++; // first cell of the next diagonal
    if (s & 1) { uint64_t yy = s >= w ? s - (w - 1) : 0; return {s - yy, yy}; }   // y grows from its minimum
    uint64_t xx = s >= h ? s - (h - 1) : 0;
    return {xx, s - xx};
}

static void single(uint32_t w, uint32_t h, uint32_t x, uint32_t y) {
    mark(fmt("step from (%u,%u) in a %ux%u grid", x, y, w, h));
    Z::zigzag_pair p{x, y};
    p.next(w, h);
    auto r = ref_next(x, y, w, h);
    if (p.x != r.first || p.y != r.second) fail(fmt("in a %ux%u grid the cell after (%u,%u) is (%u,%u), zigzag order says (%u,%u)", w, h, x, y, p.x, p.y, r.first, r.second));
    Z::const_iterator i(Z::zigzag_pair{x, y}, w, h);
    i.x = x; i.y = y;
    auto a = i;
    auto o = a++;
    if (o.x != x || o.y != y || a.x != r.first || a.y != r.second) fail(fmt("post-increment from (%u,%u) in %ux%u: value (%u,%u), then at (%u,%u)", x, y, w, h, o.x, o.y, a.x, a.y));
    auto b = i;
    auto n = ++b;
    if (n.x != r.first || n.y != r.second || b.x != n.x || b.y != n.y) fail(fmt("pre-increment from (%u,%u) in %ux%u: value (%u,%u), at (%u,%u)", x, y, w, h, n.x, n.y, b.x, b.y));
    if (!(a == b) || (a != b) || (i == a) || !(i != a)) fail("iterator comparison");
    auto d = *a;
    if (d.x != a.x || d.y != a.y || d.width != w || d.height != h) fail("dereference changes the position");
}

static void grid(uint32_t w, uint32_t h) {
    mark(fmt("whole %ux%u grid", w, h));
    std::vector<uint8_t> seen((size_t) w * h);
    uint64_t n = 0, total = (uint64_t) w * h;
    uint32_t ex = 0, ey = 0;
    for (auto p : Z(w, h)) {
        if (n >= total) fail(fmt("%ux%u grid: iteration goes on after %lu cells", w, h, (unsigned long) n));
        if (p.x >= w || p.y >= h) fail(fmt("%ux%u grid: position %lu is (%u,%u), outside", w, h, (unsigned long) n, p.x, p.y));
        if (seen[(size_t) p.y * w + p.x]++) fail(fmt("%ux%u grid: (%u,%u) visited twice", w, h, p.x, p.y));
        if (p.x != ex || p.y != ey) fail(fmt("%ux%u grid: position %lu is (%u,%u), zigzag order says (%u,%u)", w, h, (unsigned long) n, p.x, p.y, ex, ey));
        auto r = ref_next(ex, ey, w, h);
        ex = r.first; ey = r.second;
        n++;
    }
    if (n != total) fail(fmt("%ux%u grid: %lu of %lu cells visited", w, h, (unsigned long) n, (unsigned long) total));
}

int main(int argc, char **argv) {
    init(argc, argv);
    for (auto &h : hints)
        if (h.count("w") && h.count("h") && h.count("x") && h.count("y") && h["x"] < h["w"] && h["y"] < h["h"]) single(h["w"], h["h"], h["x"], h["y"]);
    for (uint32_t w = 0; w <= 24; w++) for (uint32_t h = 0; h <= 24; h++) grid(w, h);
    for (uint32_t w : {1u, 2u, 3u, 64u, 100u, 255u, 256u, 257u, 1000u}) for (uint32_t h : {1u, 2u, 5u, 63u, 128u, 256u, 300u}) { grid(w, h); grid(h, w); }
    for (uint32_t v : {65535u, 65536u, 65537u}) { grid(v, 1); grid(1, v); grid(v, 3); grid(3, v); }
    while (more()) {
        for (int k = 0; k < 200; k++) {
            uint32_t w = wild(32), h = wild(32);
            if (rnd(4) == 0) h = w;
            if (!w || !h) continue;
            uint32_t x = rnd(3) ? (rnd(2) ? 0 : w - 1) : wild(32) % w, y = rnd(3) ? (rnd(2) ? 0 : h - 1) : wild(32) % h;
            if (rnd(4) == 0) { x = w - 1 - std::min<uint32_t>(w - 1, rnd(3)); y = h - 1 - std::min<uint32_t>(h - 1, rnd(3)); }
            if (rnd(4) == 0) { x = rnd(w); y = rnd(h); }
            single(w, h, x, y);
        }
        if (rnd(8) == 0) grid(rnd(200), rnd(200));
    }
    return done();
}
