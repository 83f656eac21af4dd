from core import *
P = Property('C13', 'Byte and word packing')
ULT, ULE, Sel = z3.ULT, z3.ULE, z3.Select
P.modules = {'u': dict(text=r'''
#include <cstdint>
#include <cstddef>
#include <hzip_core/utils/utils.h>
using P8 = rainman::ptr<uint8_t>;
using P32 = rainman::ptr<uint32_t>;
extern "C" {
void d_loc(uint64_t *o) { o[0] = offsetof(P8, p); o[1] = offsetof(P8, n); o[2] = sizeof(P8); o[3] = offsetof(P32, p); o[4] = offsetof(P32, n); o[5] = sizeof(P32); }
void d_put64(uint64_t x, const P8 *b) { hz_u64_to_u8buf(x, *b); }
uint64_t d_get64(const P8 *b) { return hz_u8buf_to_u64(*b); }
uint64_t d_rt64(uint64_t x, const P8 *b) { hz_u64_to_u8buf(x, *b); return hz_u8buf_to_u64(*b); }
void d_pack(P32 *r, const P8 *a, uint64_t n) { new(r) P32(hz_u8_to_u32ptr(*a, n)); }
void d_unpack(P8 *r, const P32 *a, uint64_t n) { new(r) P8(hz_u32_to_u8ptr(*a, n)); }
}
''', flags=['-fno-access-control'])}


def locs(c, fn='d_loc', n=6):
    e2 = Engine(c.eng.mods, 'bv', 'loc', c.eng.handlers, True, {})
    st = State()
    o = e2.newobj(st, 'o', [Cells(0, 8 * n)], 'heap')
    e2.start(st, findfn(c.eng.mods, fn), [Ptr(o)])
    t = e2.run(st)[0]
    return [e2.dom.cval(e2.peek(t, Ptr(o, 8 * i), 64)) for i in range(n)]


def rptr(c, name, S, n, wide):
    """a rainman::ptr over a block of n elements of S bytes"""
    o = c.locs = locs(c)
    po, no, sz = o[3:] if wide else o[:3]
    a = c.array(name, S, n)
    return c.cells(name + '_ptr', sz, {po: ('p', Ptr(a)), no: (64, n)}), a


@P.unit('64-bit number to bytes', 'd_put64', 'u')
def put64(c):
    x, n = c.sym('x', 64), c.sym('n', 64)
    c.assume(ULE(8, n), ULT(n, 1 << 60))
    b, a = rptr(c, 'buf', 1, n, False)
    A0 = c.arr(a)
    c.args = [x, Ptr(b)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        A = c.arr(a, st=t)
        for i in range(8):
            c.ensure(t, 'byte %d, least significant first' % i, Sel(A, z3.BitVecVal(i, 64)) == z3.Extract(8 * i + 7, 8 * i, x))
        c.ensure(t, 'bytes behind are kept', c.fa(lambda k: z3.Implies(z3.And(ULE(8, k), ULT(k, n)), Sel(A, k) == Sel(A0, k))))


@P.unit('bytes to 64-bit number', 'd_get64', 'u')
def get64(c):
    n = c.sym('n', 64)
    c.assume(ULE(8, n), ULT(n, 1 << 60))
    b, a = rptr(c, 'buf', 1, n, False)
    A0 = c.arr(a)
    c.args = [Ptr(b)]
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        c.ensure(t, 'least significant byte first', t.ret == z3.Concat(*[Sel(A0, z3.BitVecVal(i, 64)) for i in range(7, -1, -1)]))
        c.ensure(t, 'bytes kept', c.fa(lambda k: z3.Implies(ULT(k, n), Sel(c.arr(a, st=t), k) == Sel(A0, k))))


@P.unit('64-bit round trip', 'd_rt64', 'u')
def rt64(c):
    x, n = c.sym('x', 64), c.sym('n', 64)
    c.assume(ULE(8, n), ULT(n, 1 << 60))
    b, a = rptr(c, 'buf', 1, n, False)
    c.args = [x, Ptr(b)]
    yield
    for t in c.terminals:
        c.ensure(t, 'the number comes back', z3.And(z3.BoolVal(t.done == 'ret'), t.ret == x))


def word(A, j, n):
    """big-endian word j of the byte sequence A of length n, padded with zeros"""
    by = [z3.If(ULT(4 * j + i, n), Sel(A, 4 * j + i), z3.BitVecVal(0, 8)) for i in range(4)]
    return z3.Concat(*by)


@P.unit('bytes to words', 'd_pack', 'u')
def pack(c):
    n = c.sym('n', 64)
    ln = c.sym('len', 64)
    c.assume(ULE(n, ln), ULT(ln, 1 << 60))
    b, a = rptr(c, 'bytes', 1, ln, False)
    A0 = c.arr(a)
    c.r = c.cells('result', c.locs[5])
    c.eng.opts['alloc_elem'] = 4
    c.args = [Ptr(c.r), Ptr(b), n]

    def t(L, v):
        r = {'in range': ULE(v, n)}
        low = z3.Concat(*[z3.If(ULT(3 - i, v & 3), Sel(A0, v - 1 - (3 - i)), z3.BitVecVal(0, 8)) for i in range(4)])
        for nm, w, _, wd in L.vars():
            r['words|%s' % nm] = w == z3.LShR(v, 2)
            if wd == 32:
                r['partial word|%s' % nm] = z3.Extract(31, 0, w) == low
        for o in c.blocks(L.st):
            r['words below'] = c.fa(lambda k: z3.Implies(ULT(k, z3.LShR(v, 2)), Sel(L.arr(o), k) == word(A0, k, n)))
        return r
    c.auto(t, hi=n)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        if t.done != 'ret':
            continue
        p = c.eng.peekp(t, Ptr(c.r, c.locs[3]))
        cnt = c.peek(t, Ptr(c.r, c.locs[4]), 64)
        c.ensure(t, 'number of words', cnt == z3.LShR(n + 3, 2))
        A = c.eng.arr(t, p.obj)
        c.ensure(t, 'words hold the bytes, most significant first, zero padded', c.fa(lambda k: z3.Implies(ULT(k, cnt), Sel(A, k) == word(A0, k, n))))
        c.ensure(t, 'bytes kept', c.fa(lambda k: z3.Implies(ULT(k, n), Sel(c.arr(a, st=t), k) == Sel(A0, k))))


@P.unit('words to bytes', 'd_unpack', 'u')
def unpack(c):
    n, ln = c.sym('n', 64), c.sym('len', 64)
    c.assume(ULE(n, ln), ULT(ln, 1 << 60))
    b, a = rptr(c, 'words', 4, ln, True)
    A0 = c.arr(a)
    c.r = c.cells('result', c.locs[2])
    c.args = [Ptr(c.r), Ptr(b), n]
    c.eng.opts['alloc_elem'] = 1
    byte = lambda k: z3.Extract(7, 0, z3.LShR(Sel(A0, z3.LShR(k, 2)), z3.ZeroExt(0, z3.Extract(31, 0, (3 - (k & 3)) << 3))))

    def t(L, v):
        r = {'in range': ULE(v, n)}
        for nm, w, _, wd in L.vars():
            r['four per word|%s' % nm] = w == v << 2
        for o in c.blocks(L.st):
            r['bytes below'] = c.fa(lambda k: z3.Implies(ULT(k, v << 2), Sel(L.arr(o), k) == byte(k)))
        return r
    c.auto(t, hi=n)
    yield
    for t in c.terminals:
        c.ensure(t, 'returns normally', z3.BoolVal(t.done == 'ret'))
        if t.done != 'ret':
            continue
        p = c.eng.peekp(t, Ptr(c.r, c.locs[0]))
        c.ensure(t, 'number of bytes', c.peek(t, Ptr(c.r, c.locs[1]), 64) == n << 2)
        A = c.eng.arr(t, p.obj)
        c.ensure(t, 'bytes of each word, most significant first', c.fa(lambda k: z3.Implies(ULT(k, n << 2), Sel(A, k) == byte(k))))
        c.ensure(t, 'words kept', c.fa(lambda k: z3.Implies(ULT(k, n), Sel(c.arr(a, st=t), k) == Sel(A0, k))))


@P.lemma_unit('packing and unpacking are inverse')
def inverse(c):
    n, k = z3.BitVecs('n k', 64)
    A8, B8 = (z3.Array(x, z3.BitVecSort(64), z3.BitVecSort(8)) for x in 'AB')
    W, V = (z3.Array(x, z3.BitVecSort(64), z3.BitVecSort(32)) for x in 'WV')
    byte = lambda w, k: z3.Extract(7, 0, z3.LShR(Sel(w, z3.LShR(k, 2)), z3.Extract(31, 0, (3 - (k & 3)) << 3)))
    c.lemma('bytes come back', z3.Implies(ULT(k, n), byte(W, k) == Sel(A8, k)), ULT(n, 1 << 60), Sel(W, z3.LShR(k, 2)) == word(A8, z3.LShR(k, 2), n))
    by = [Sel(B8, 4 * k + i) == byte(W, 4 * k + i) for i in range(4)]
    c.lemma('words come back', z3.Implies(ULT(k, n), word(B8, k, 4 * n) == Sel(W, k)), ULT(n, 1 << 60), *by)


P.native = dict(src='c13.cpp', secs=2, tsecs=40)
