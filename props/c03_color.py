from core import *
import re
P = Property('C03', 'Colour transform is lossless')
P.modules = {'c': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <CL/opencl.hpp>
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/preprocessor/color.cpp>
using T = hztrans::LinearU16XColorTransformer; using P16 = rainman::ptr<uint16_t>;
using X = hztrans::ColorTransformPixel<uint16_t>; using XT = hztrans::RGBColorTransformer<uint16_t>;
extern "C" {
void d_loc(uint64_t *o) { o[0] = offsetof(T, _executor); o[1] = offsetof(T, _width); o[2] = offsetof(T, _height); o[3] = offsetof(T, _bit_depth); o[4] = offsetof(T, _mask); o[5] = sizeof(T); }
void d_ctor(T *t, uint64_t w, uint64_t h, uint8_t d) { new(t) T(w, h, d); }
void d_fwd(T *t, P16 *in, P16 *out, bool inplace) { new(out) P16(t->cpu_rgb_to_ycocg(*in, inplace)); }
void d_inv(T *t, P16 *in, P16 *out, bool inplace) { new(out) P16(t->cpu_ycocg_to_rgb(*in, inplace)); }
void d_rgb(T *t, P16 *in, P16 *out, bool inplace) { new(out) P16(t->rgb_to_ycocg(*in, inplace)); }
void d_ycc(T *t, P16 *in, P16 *out, bool inplace) { new(out) P16(t->ycocg_to_rgb(*in, inplace)); }
void d_pixel(X *in, X *out, bool reverse) { XT t(hztrans::YCOCG, reverse); *out = t.transform(*in); }
void d_pixel2(X *in, X *out, int k) { XT t((hztrans::HZ_COLOR_TRANSFORM) k); *out = t.transform(*in); }
}
''', flags=['-fno-access-control'], defines=['HZIP_ENABLE_OPENCL', 'CL_HPP_ENABLE_EXCEPTIONS'])}
NAMES = ['executor', 'width', 'height', 'bit_depth', 'mask', 'sizeof']
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select
CPU, OPENCL = None, None


def locs(c):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * len(NAMES))], 'heap')
    e2.start(st, findfn(c.eng.mods, 'd_loc'), [Ptr(o)])
    t = e2.run(st)[0]
    return {k: e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i, k in enumerate(NAMES)}


# the lifting steps on 16-bit samples, modulo 2^depth (m = 2^depth - 1)
def fwd(m, r, g, b):
    """-> y, co, cg"""
    r, g, b = r & m, g & m, b & m
    co = (b - r) & m
    t = (r + z3.LShR(co, 1)) & m
    cg = (t - g) & m
    y = (g + z3.LShR(cg, 1)) & m
    return y, co, cg


def inv(m, y, co, cg):
    """-> r, g, b"""
    y, co, cg = y & m, co & m, cg & m
    g = (y - z3.LShR(cg, 1)) & m
    t = (g + cg) & m
    r = (t - z3.LShR(co, 1)) & m
    b = (r + co) & m
    return r, g, b


def image(c):
    o = c.o = locs(c)
    c.w, c.h = c.sym('width', 64), c.sym('height', 64)
    c.lz = lz = z3.BitVec('cells', 64)
    c.assume(ULT(lz, 1 << 58))
    c.eng.opts['nl'] = True
    c.assume(c.eng.uf('MUL', 2)(c.w, c.h) == lz)
    c.cap = c.sym('capacity', 64)
    c.assume(ULE(lz * 3, c.cap), ULT(c.cap, 1 << 60))
    c.depth = c.sym('depth', 8)
    c.assume(ULE(1, c.depth), ULE(c.depth, 16))
    c.mask = (z3.BitVecVal(1, 64) << z3.ZeroExt(56, c.depth)) - 1
    c.m16 = z3.Extract(15, 0, c.mask)
    c.t = c.cells('transformer', o['sizeof'], {o['width']: (64, c.w), o['height']: (64, c.h), o['bit_depth']: (8, c.depth), o['mask']: (64, c.mask)})
    c.buf = c.array('buffer', 2, c.cap)
    c.A0 = c.arr(c.buf)
    c.inp = c.cells('in', 16, {0: ('p', Ptr(c.buf)), 8: (64, c.cap)})
    c.out = c.cells('out', 16)


def apart(n, K, J, v):
    """positions of different pixels in the three planes differ"""
    n2 = 2 * n
    return z3.And(v + n != K, v + n2 != K, v != K + n, v + n2 != K + n, v != K + n2, v + n != K + n2, v != J, v + n != J, v + n2 != J, z3.Implies(v != K, z3.And(v + n != K + n, v + n2 != K + n2)))


def convert(f, inplace):
    def body(c):
        image(c)
        c.eng.opts['alloc_elem'] = 2
        n, A0 = c.lz, c.A0
        # any pixel K, and any index J past the three planes
        K, J = c.sym('K', 64), c.sym('J', 64)
        c.assume(ULT(K, n), ULE(3 * n, J), ULT(J, c.cap))
        pos = [K, K + n, K + 2 * n]
        V = f(c.m16, *[Sel(A0, q) for q in pos])
        c.eng.opts['split'] = [K]
        c.assume(c.fa(lambda v: z3.Implies(ULT(v, n), apart(n, K, J, v))))      # lemma below

        def T(L, v):
            d = {'in range': ULE(v, n)}
            for i, b in enumerate([c.buf] + c.blocks(L.st)):
                B = c.arr(b, st=L.st)
                for j, (q, w) in enumerate(zip(pos, V)):
                    d['converted in block %d, plane %d' % (i, j)] = z3.Implies(ULT(K, v), Sel(B, q) == w)
                    if i == 0:
                        d['kept, plane %d' % j] = z3.Implies(ULE(v, K), Sel(B, q) == Sel(A0, q))
                        d['tail kept'] = Sel(B, J) == Sel(A0, J)
            return d
        c.auto(T, hi=n)
        c.args = [Ptr(c.t), Ptr(c.inp), Ptr(c.out), z3.BitVecVal(1 if inplace else 0, 1)]
        yield
        for t in c.terminals:
            c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
            q = c.eng.peekp(t, Ptr(c.out))
            c.ensure(t, 'result has the size of the input', c.peek(t, Ptr(c.out, 8), 64) == c.cap)
            I = c.arr(c.buf, st=t)
            if inplace:
                ok = isinstance(q, Ptr) and q.obj is c.buf and q.c == 0 and not q.ix
                c.ensure(t, 'result is the input block', z3.BoolVal(ok))
                c.ensure(t, 'nothing past the planes changed', Sel(I, J) == Sel(A0, J))
                B = I
            else:
                ok = isinstance(q, Ptr) and q.obj in c.blocks(t) and q.c == 0 and not q.ix
                c.ensure(t, 'result is a block of its own', z3.BoolVal(ok))
                c.ensure(t, 'input unchanged', c.fa(lambda k: Sel(I, k) == Sel(A0, k)))
                B = c.arr(q.obj, st=t) if ok else None
            for j, (x, w) in enumerate(zip(pos, V)):
                c.ensure(t, 'every pixel converted, plane %d' % j, Sel(B, x) == w if B is not None else z3.BoolVal(False))
    return body


for nm, fn, f in (('rgb to ycocg', 'd_fwd', fwd), ('ycocg to rgb', 'd_inv', inv)):
    for ip in (False, True):
        P.unit(nm + (' in place' if ip else ''), fn, 'c')(convert(f, ip))


def pixel(f, fn, k):
    def body(c):
        x, y, z = (c.sym(n, 16) for n in 'xyz')
        i, o = c.cells('in', 8, {0: (16, x), 2: (16, y), 4: (16, z)}), c.cells('out', 8)
        c.args = [Ptr(i), Ptr(o), k]
        yield
        for t in c.terminals:
            c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
            m = z3.BitVecVal(0xffff, 16)
            for j, v in enumerate(f(m, x, y, z)):
                c.ensure(t, 'component %d' % j, c.peek(t, Ptr(o, 2 * j), 16) == v)
            c.ensure(t, 'input pixel kept', z3.And(*[c.peek(t, Ptr(i, 2 * j), 16) == v for j, v in enumerate((x, y, z))]))
    return body


P.unit('pixel to ycocg', 'd_pixel', 'c')(pixel(fwd, 'd_pixel', z3.BitVecVal(0, 1)))
P.unit('pixel to rgb', 'd_pixel', 'c')(pixel(inv, 'd_pixel', z3.BitVecVal(1, 1)))
P.unit('pixel to ycocg by transform', 'd_pixel2', 'c')(pixel(fwd, 'd_pixel2', z3.BitVecVal(0, 32)))
P.unit('pixel to rgb by transform', 'd_pixel2', 'c')(pixel(inv, 'd_pixel2', z3.BitVecVal(1, 32)))


@P.unit('construction', 'd_ctor', 'c')
def ctor(c):
    o = c.o = locs(c)
    w, h, d = c.sym('width', 64), c.sym('height', 64), c.sym('depth', 8)
    c.assume(ULE(d, 16))
    c.eng.opts['nl'] = True
    t0 = c.cells('transformer', o['sizeof'])
    c.args = [Ptr(t0), w, h, d]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        F = lambda k, n=64: c.peek(t, Ptr(t0, o[k]), n)
        c.ensure(t, 'dimensions and depth', z3.And(F('width') == w, F('height') == h, F('bit_depth', 8) == d))
        c.ensure(t, 'mask covers the bit depth', F('mask') == (z3.BitVecVal(1, 64) << z3.ZeroExt(56, d)) - 1)
        c.ensure(t, 'an executor is chosen', z3.Or(F('executor', 32) == 0, F('executor', 32) == 1))


@P.lemma_unit('lossless')
def lossless(c):
    n, K, J, v = z3.BitVecs('n K J v', 64)
    c.lemma('pixels of different planes lie apart', apart(n, K, J, v), ULT(n, 1 << 58), ULT(K, n), ULE(3 * n, J), ULT(J, 1 << 60), ULT(v, n))
    r, g, b, m = z3.BitVecs('r g b m', 16)
    d = z3.BitVec('d', 16)
    base = [m == (z3.BitVecVal(1, 16) << d) - 1, ULE(1, d), ULE(d, 16)]
    small = z3.And(ULE(r, m), ULE(g, m), ULE(b, m))
    y, co, cg = fwd(m, r, g, b)
    R, G, B = inv(m, y, co, cg)
    c.lemma('back conversion restores red, green and blue', z3.And(R == r, G == g, B == b), *base, small)
    c.lemma('converted samples fit the bit depth', z3.And(ULE(y, m), ULE(co, m), ULE(cg, m)), *base)
    R, G, B = inv(m, r, g, b)
    y, co, cg = fwd(m, R, G, B)
    c.lemma('conversion restores luma and chroma', z3.And(y == r, co == g, cg == b), *base, small)


P.native = dict(src='c03.cpp', repo=['src/hzip_core/preprocessor/color.cpp', 'src/hzip_core/models/paeth.cpp', 'src/hzip_core/runtime/config.cpp', 'src/hzip_core/runtime/cache_provider.cpp', 'src/hzip_core/opencl/cl_helper.cpp'], flags=['-DHZIP_ENABLE_OPENCL', '-DCL_HPP_ENABLE_EXCEPTIONS'], secs=3, tsecs=40)
